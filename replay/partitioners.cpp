// bounded scenario suite for C01/C02 on the real partitioners
#include <oqpi.hpp>
#include "rp.h"
#include <thread>
using namespace oqpi;
static void fixed(int first, int last, int max, int callers)
{
    CASE("simple_partitioner(%d,%d,%d)", first, last, max);
    simple_partitioner p(first, last, max);
    const long count = long(last) - first, n = std::min<long>(count, max);
    EXPECT(p.batchCount() == n); EXPECT(p.elementCount() == count); EXPECT((p.isValid() != 0) == (count > 0));
    simple_partitioner c(p);
    long next = first, lo = LONG_MAX, hi = 0, k = 0;
    int a = 0, b = 0, a2 = 0, b2 = 0;
    while (p.getNextValidRange(a, b))
    {
        EXPECT(c.getNextValidRange(a2, b2) && a == a2 && b == b2);
        EXPECT(a == next); EXPECT(b > a); EXPECT(b <= last);
        lo = std::min<long>(lo, long(b) - a); hi = std::max<long>(hi, long(b) - a);
        next = b; ++k;
        EXPECT(k <= n);
    }
    EXPECT(k == n); EXPECT(next == last); EXPECT(n == 0 || hi - lo <= 1);
    for (int i = 0; i < 3; ++i) EXPECT(!p.getNextValidRange(a, b));
    EXPECT(!c.getNextValidRange(a, b));
}
static void dynamic(int first, int last, int grain, int max)
{
    CASE("atomic_partitioner(%d,%d,%d,%d)", first, last, grain, max);
    atomic_partitioner p(first, last, grain, max);
    const long count = long(last) - first;
    EXPECT(p.batchCount() == std::min<long>(count, max)); EXPECT(p.elementCount() == count); EXPECT((p.isValid() != 0) == (count > 0));
    atomic_partitioner c(p);
    long next = first;
    int a = 0, b = 0, a2 = 0, b2 = 0;
    while (p.getNextValidRange(a, b))
    {
        EXPECT(c.getNextValidRange(a2, b2) && a == a2 && b == b2);
        EXPECT(a == next); EXPECT(b > a); EXPECT(b <= last); EXPECT(long(b) - a <= grain);
        next = b;
    }
    EXPECT(next == last);
    EXPECT(!p.getNextValidRange(a, b)); EXPECT(!c.getNextValidRange(a, b));
}
template<typename P> static void parallel(P &p, int first, int last)
{
    std::vector<std::atomic<int>> hits(last - first);
    for (auto &h : hits) h = 0;
    std::atomic<int> go(0), outside(0);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&] { ++go; while (go < 4); int a = 0, b = 0; while (p.getNextValidRange(a, b)) for (int i = a; i < b; ++i) if (i < first || i >= last) ++outside; else ++hits[i - first]; });
    for (auto &t : ts) t.join();
    EXPECT(outside == 0);
    for (auto &h : hits) EXPECT(h == 1);
}
int main(int argc, char **argv)
{
    const std::string prop = argv[1];
    const int bases[] = { 0, 1, -1, 7, -5, 1000, INT_MIN, INT_MIN + 3 };
    if (prop == "C01")
    {
        for (int f : bases) for (int n = 0; n <= 40; ++n) for (int m = 1; m <= 44; ++m) fixed(f, f + n, m, 1);
        const int big[] = { 1 << 20, (1 << 20) + 1, INT_MAX - 1, INT_MAX };
        for (int n : big) for (int m : { 1, 2, 3, 5, 7, 64, 1000 }) { fixed(0, n, m, 1); fixed(INT_MIN, int(long(INT_MIN) + n), m, 1); if (n < INT_MAX) fixed(INT_MAX - n, INT_MAX, m, 1); fixed(-(n / 2), n - n / 2 - 1, m, 1); }
        for (int m : { INT_MAX, INT_MAX - 1, 1 << 30 }) for (int n : { 0, 1, 2, 100, 10000 }) { fixed(0, n, m, 1); fixed(INT_MAX - n, INT_MAX, m, 1); }
        for (int n = 0; n <= 20; ++n) for (int m = 1; m < 22; ++m) { CASE("simple_partitioner(%d,%d)", n, m); simple_partitioner p(n, m), q(0, n, m); int a = 0, b = 0, c = 0, d = 0; bool x; do { x = p.getNextValidRange(a, b); EXPECT(x == q.getNextValidRange(c, d) && a == c && b == d); } while (x); }
        for (int r = 0; r < 60; ++r) { CASE("4 threads on simple_partitioner(-50,20000,15000), round %d", r); simple_partitioner p(-50, 20000, 15000); parallel(p, -50, 20000); }
    }
    else
    {
        for (int f : bases) for (int n = 0; n <= 30; ++n) for (int g = 1; g <= 32; ++g) dynamic(f, f + n, g, 1 + (n * g) % 5);
        for (int g : { INT_MAX, INT_MAX - 1, 1 << 30, 1 << 24 }) for (int n : { 0, 1, 100, 1 << 24, INT_MAX - 1, INT_MAX }) { dynamic(0, n, g, 4); dynamic(INT_MIN, int(long(INT_MIN) + n), g, 4); dynamic(INT_MAX - n, INT_MAX, g, 4); if (n) dynamic(-(n / 2), n - n / 2 - 1, g, 4); }
        for (int r = 0; r < 60; ++r) { CASE("4 threads on atomic_partitioner(-50,20000,3,8), round %d", r); atomic_partitioner p(-50, 20000, 3, 8); parallel(p, -50, 20000); }
    }
    return 0;
}
