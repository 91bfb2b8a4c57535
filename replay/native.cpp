// Runs harness functions of a specification natively: the same contracts, executed against the real code, with
// concrete values for everything the verifier leaves arbitrary - first the values of the verifier's
// counterexamples, then pseudo-random ones. Built as one program with the specification (-DVF_NATIVE -include of the
// specification by SPEC).
#include SPEC
#include <semaphore.h>
#include <fcntl.h>
#undef atomic
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
extern "C" int __asan_address_is_poisoned(void const volatile *addr) __attribute__((weak));
extern char __data_start, _end;
namespace rt
{
    jmp_buf back;
    uint64_t seed, state;
    std::vector<long> *script; size_t pos;
    const char *harness; long iter;
    long recent[8]; int nrecent;
    std::string *trace;
    struct cell { const volatile char *p; long size; void (*rely)(void*); void (*guar)(void*, long, long, long); };
    std::vector<cell> *cells;
    int depth;
    cell globals;
    struct prot { pthread_mutex_t *m; void (*acq)(); void (*rel)(); };
    std::vector<prot> *prots;
    uint64_t rnd() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state * 0x2545F4914F6CDD1DULL; }
    double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
    [[noreturn]] void stop() { longjmp(back, 1); }
    long clamp(__int128 v, long lo, long hi) { return v < lo ? lo : v > hi ? hi : long(v); }
    long pick(long lo, long hi)
    {
        if (script && pos < script->size())
        {
            const long v = (*script)[pos++];
            if (v < lo || v > hi) stop();
            if (trace->size() < 2000) *trace += " " + std::to_string(v);
            return v;
        }
        long v;
        const unsigned k = rnd() % 100;
        if (lo >= hi) v = lo;
        else if (k < 15) v = clamp(__int128(lo) + long(rnd() % 4), lo, hi);
        else if (k < 25) v = clamp(__int128(hi) - long(rnd() % 4), lo, hi);
        else if (k < 75) v = clamp(long(rnd() % 12) - 3, lo, hi);
        else if (k < 87 && nrecent) v = clamp(__int128(recent[rnd() % nrecent]) + long(rnd() % 3) - 1, lo, hi);
        else { const int s = rnd() % 64; const long x = long(rnd() >> s); v = clamp((rnd() & 1) ? x : -__int128(x), lo, hi); }
        recent[nrecent < 8 ? nrecent++ : int(rnd() % 8)] = v;
        if (trace->size() < 2000) *trace += " " + std::to_string(v);
        return v;
    }
    std::map<std::string, long> *covers;
    void reset()
    {
        globals = cell(); cells->clear(); prots->clear(); depth = 0; nrecent = 0; pos = 0; trace->clear();
    }
    bool is_static(const volatile void *p) { return globals.size && (const volatile char*)p >= &__data_start && (const volatile char*)p < &_end; }
    void before(const volatile void *p, int o)
    {
        if (depth) return;
        if (is_static(p) && globals.rely) { ++depth; globals.rely((void*)p); --depth; }
        for (size_t i = 0; i < cells->size(); ++i)
        {
            cell c = (*cells)[i];
            if (c.p <= (const volatile char*)p && (const volatile char*)p < c.p + c.size && c.rely) { ++depth; ((void(*)(void*, long))c.rely)((void*)c.p, o); --depth; }
        }
    }
    void after(const volatile void *p, long o, long n, int order)
    {
        if (depth) return;
        if (is_static(p) && globals.guar) { ++depth; globals.guar((void*)p, o, n, order); --depth; }
        for (size_t i = 0; i < cells->size(); ++i)
        {
            cell c = (*cells)[i];
            if (c.p <= (const volatile char*)p && (const volatile char*)p < c.p + c.size && c.guar) { ++depth; c.guar((void*)c.p, o, n, order); --depth; }
        }
    }
    int order(int o) { return o == int(std::memory_order_seq_cst) ? 5 : o == int(std::memory_order_acq_rel) ? 4 : o == int(std::memory_order_release) ? 3 : o == int(std::memory_order_relaxed) ? 0 : 2; }
}
void vf_rt_before(const volatile void *p, int o) { rt::before(p, rt::order(o)); }
void vf_rt_after(const volatile void *p, long o, long n, int order) { rt::after(p, o, n, rt::order(order)); }
bool vf_rt_spurious() { return rt::depth == 0 && !rt::cells->empty() && rt::rnd() % 8 == 0; }
long vf_rt_range(long lo, long hi) { return rt::pick(lo, hi); }
extern "C"
{
    int     vf_nd_i32() { return int(rt::pick(INT_MIN, INT_MAX)); }
    long    vf_nd_i64() { return rt::pick(LONG_MIN, LONG_MAX); }
    bool    vf_nd_bool() { return rt::pick(0, 1) != 0; }
    void    vf_assume(bool b) { if (!b) rt::stop(); }
    void    vf_assert(bool b, const char *name)
    {
        if (b) return;
        // a harness may serve several properties: an obligation named after another one is not this run's
        static const char *prop = getenv("VF_PROP");
        if (prop && name[0] == 'C' && isdigit(name[1]) && isdigit(name[2]) && name[3] == ' ' && strncmp(name, prop, 3)) return;
        printf("FAILED: \"%s\" in %s (execution %ld), with the arbitrary values%s\n", name, rt::harness, rt::iter, rt::trace->c_str());
        fflush(stdout);
        _exit(1);
    }
    void    vf_cover(const char *name) { ++(*rt::covers)[name]; }
    void    vf_witness(long) {}
    void    vf_candidate(bool(*)()) {}
    void    vf_replace(const char *, void *) {}
    void    vf_shared(const volatile void *cell, long size, void(*rely)(void*), void(*guar)(void*, long, long, long))
    {
        vf_unshare(cell);
        rt::cells->push_back({(const volatile char*)cell, size, rely, guar});
    }
    void    vf_unshare(const volatile void *cell)
    {
        for (size_t i = 0; i < rt::cells->size(); ++i) if ((*rt::cells)[i].p == cell) { rt::cells->erase(rt::cells->begin() + i); return; }
    }
    void    vf_globals(long size, void(*rely)(void*), void(*guar)(void*, long, long, long)) { rt::globals = {nullptr, size, rely, guar}; }
    void    vf_protect(void *, long, void *mutex, void(*acq)(), void(*rel)()) { rt::prots->push_back({(pthread_mutex_t*)mutex, acq, rel}); }
    void    vf_vec2(void *vec, long stride, long n, long k1, long k2, void(*init)(void *slot, long idx, long isK))
    {
        if (n < 0 || n > 100) rt::stop();
        char *m = (char*)::operator new((n + 1) * stride); memset(m, 0, (n + 1) * stride);
        ((char**)vec)[0] = m; ((char**)vec)[1] = m + n * stride; ((char**)vec)[2] = m + n * stride;
        for (long i = 0; i < n; ++i) init(m + i * stride, i, i == k1 ? 1 : i == k2 ? 2 : 0);
    }
    void    vf_vec(void *vec, long stride, long n, long k, void(*init)(void *slot, long idx, long isK)) { vf_vec2(vec, stride, n, k, -1, init); }
}
template<int S> struct blob { char c[S]; };
template<int S> static void mkdeq(void *d, long n, long head, long k, void(*init)(void*, long, long))
{
    auto *q = new(d) std::deque<blob<S>>(n);
    for (long i = 0; i < n; ++i) init(&(*q)[i], head + i, head + i == k);
}
extern "C"
{
    void    vf_deq(void *deq, long stride, long head, long tail, long k, void(*init)(void *slot, long idx, long isK))
    {
        const long n = tail - head;
        if (n < 0 || n > 100) rt::stop();
        if (stride == 4) mkdeq<4>(deq, n, head, k, init);
        else if (stride == 8) mkdeq<8>(deq, n, head, k, init);
        else if (stride == 16) mkdeq<16>(deq, n, head, k, init);
        else rt::stop();
    }
    void    vf_lazy(void *p, long, void(*init)(void*)) { if (rt::depth < 40) { ++rt::depth; init(p); --rt::depth; } else rt::stop(); }
    void    vf_kind(void*, void*(*)()) { printf("SKIPPED\n"); _exit(3); }
    void    vf_havoc(void*, long) { printf("SKIPPED\n"); _exit(3); }
    int     vf_fork_i32(int v) { return v; }
    long    vf_fork_i64(long v) { return v; }
    void    vf_end() { rt::stop(); }
    void    vf_anystr(void *str)
    {
        static const char *const a[] = {"", "/", "/a", "a", "/a/b", "//", "/a/", "/0123456789012345678901234567890123456789", "ab", "/ab"};
        const long k = rt::pick(0, 12);
        new(str) std::string(k < 10 ? a[k] : "");
        if (k >= 10) *(std::string*)str = (k == 12 ? "" : "/") + std::string(k == 11 ? 253 : 254 + rt::pick(0, 3), 'x');
    }
    bool    vf_streq(const void *a, const void *b) { return *(const std::string*)a == *(const std::string*)b; }
    bool    vf_cstreq(const char *a, const char *b) { return strcmp(a, b) == 0; }
    bool    vf_alive(const void *p) { return !__asan_address_is_poisoned || !__asan_address_is_poisoned(p); }
}
#ifdef VF_NATIVE_MUTEX
extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    for (auto &p : *rt::prots) if (p.m == m && p.acq && !rt::depth) { ++rt::depth; p.acq(); --rt::depth; }
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    for (auto &p : *rt::prots) if (p.m == m && p.rel && !rt::depth) { ++rt::depth; p.rel(); --rt::depth; }
    return 0;
}
#endif
#if __has_include(<semaphore.h>)
extern "C" sem_t *vf_sem_open(const char *name, int flags, int mode, int value) __attribute__((weak));
extern "C" sem_t *sem_open(const char *name, int flags, ...)
{
    if (!vf_sem_open) return SEM_FAILED;
    int mode = -1, value = -1;
    if (flags & O_CREAT) { va_list l; va_start(l, flags); mode = va_arg(l, int); value = va_arg(l, int); va_end(l); }
    return vf_sem_open(name, flags, mode, value);
}
#endif
extern "C" void vf_on_terminate() __attribute__((weak));
static void child_alarm(int) { _exit(77); }
// native harness... : seconds, then names of harness functions; counterexample values in the environment
int main(int argc, char **argv)
{
    setvbuf(stdout, nullptr, _IONBF, 0);
    stderr = fopen("/dev/null", "w");       // what the code under test logs; the sanitizers write to the descriptor
    if (vf_on_terminate) std::set_terminate([] { vf_on_terminate(); abort(); });
    const double budget = atof(argv[1]);
    int skipped = 0, bad = 0;
    for (int a = 2; a < argc && !bad; ++a)
    {
        // H_name or H_name=1,2,3;4,5,6
        std::string name = argv[a];
        std::vector<std::vector<long>> scripts;
        const size_t eq = name.find('=');
        if (eq != std::string::npos)
        {
            std::stringstream ss(name.substr(eq + 1)); std::string part;
            while (std::getline(ss, part, ';'))
            {
                scripts.emplace_back();
                std::stringstream s2(part); std::string n;
                while (std::getline(s2, n, ',')) scripts.back().push_back(strtol(n.c_str(), nullptr, 10));
            }
            name.resize(eq);
        }
        void (*f)() = (void(*)())dlsym(RTLD_DEFAULT, name.c_str());
        if (!f) { printf("%s: no such harness\n", name.c_str()); continue; }
        const double end = rt::now() + budget;
        long done = 0;
        for (int round = 0; (round == 0 || rt::now() < end) && !bad; ++round)
        {
            int fds[2]; if (pipe(fds)) return 2;
            const pid_t pid = fork();
            if (pid == 0)
            {
                rt::cells = new std::vector<rt::cell>; rt::prots = new std::vector<rt::prot>; rt::trace = new std::string; rt::covers = new std::map<std::string, long>;
                rt::harness = name.c_str();
                volatile long complete = 0;
                struct sigaction sa{}; sa.sa_handler = child_alarm; sigaction(SIGALRM, &sa, nullptr);
                const long N = 4000;
                const double stop = std::min(end, rt::now() + 2);
                for (volatile long i = 0; i < N; ++i)
                {
                    if (i >= long(scripts.size()) && (i & 63) == 0 && rt::now() > stop) break;
                    alarm(2);
                    rt::reset();
                    rt::iter = i;
                    rt::state = 0x9E3779B97F4A7C15ULL * (round * 1000003ULL + i + 1) + 88172645463325252ULL;
                    rt::rnd(); rt::rnd();
                    rt::script = (round == 0 && i < long(scripts.size())) ? &scripts[i] : nullptr;
                    if (setjmp(rt::back) == 0) { f(); complete = complete + 1; }
                }
                long c = complete; if (write(fds[1], &c, sizeof c)) {}
                _exit(0);
            }
            close(fds[1]);
            long c = 0; if (read(fds[0], &c, sizeof c) == sizeof c) done += c;
            close(fds[0]);
            int st; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;   // too long an execution, not counted
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { ++skipped; break; }
            printf("%s: %s %d\n", name.c_str(), WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
            bad = 1;
        }
        printf("%s: %ld executions completed\n", name.c_str(), done);
    }
    return bad ? 1 : 0;
}
