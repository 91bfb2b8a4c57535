// helpers of the bounded scenario suites: the first failing case is printed and the program ends with 1
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <climits>
#include <vector>
#include <string>
#include <unistd.h>
inline char g_case[512] = "";
inline void rp_case(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(g_case, sizeof g_case, f, a); va_end(a); }
#define CASE(...) rp_case(__VA_ARGS__)
#define EXPECT(c) do { if (!(c)) { printf("FAILING INPUT: %s\n  expected: %s  (%s:%d)\n", g_case, #c, __FILE__, __LINE__); fflush(stdout); _exit(1); } } while (0)
