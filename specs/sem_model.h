// Contracts of the operating system's semaphore and clock functions (assumed), with the ghost state the
// specifications of the oqpi classes are stated over. A sem_t holds its own ghost state.
#pragma once
#include "vf.h"
#include <semaphore.h>
#include <fcntl.h>
#include <time.h>
namespace spec
{
    struct GS { int live; int named; long count; };     // ghost content of a sem_t
    static_assert(sizeof(GS) <= sizeof(sem_t), "");
    inline GS *gs(sem_t *h) { return reinterpret_cast<GS*>(h); }

    // system state
    bool  g_env;                // other threads use the semaphore at the same time
    bool  g_noblock;            // the function under contract must not block
    bool  g_fail_init, g_fail_open, g_fail_clock;     // the system may refuse
    bool  g_name_stable;        // nobody else creates or removes the name
    sem_t *g_local;             // memory of the last unnamed semaphore
    bool  g_name_exists;        // the name in question exists
    // ghost history of the code under contract
    long  g_added, g_taken, g_inits, g_destroys, g_opens, g_closes, g_unlinks, g_created;
    long  g_open_creating, g_open_plain;
    const std::string *g_expected_name;
    // time
    long  g_now, g_now_entry;   // nanoseconds
    long  g_deadline; bool g_has_deadline; long g_now_wait; long g_timeouts, g_errors;
    // what having or giving a token means (resource invariant of the semaphore)
    void (*g_on_take)(); void (*g_on_post)();
    inline void took() { if (g_on_take) g_on_take(); }
    constexpr long NS = 1000000000L;

#ifdef VF_NATIVE
    long g_work;
    inline void work() { if (++g_work > 20000) vf_end(); }     // gives up on executions of this length
#else
    inline void work() {}
#endif
    inline void reset_history()
    {
        g_added = g_taken = g_inits = g_destroys = g_opens = g_closes = g_unlinks = g_created = g_open_creating = g_open_plain = 0;
        g_deadline = 0; g_has_deadline = false; g_timeouts = 0; g_errors = 0;
    }
    inline void start()
    {
#ifdef VF_NATIVE
        g_work = 0;
#endif
        reset_history();
        g_on_take = nullptr; g_on_post = nullptr;
        g_env = false; g_noblock = false; g_fail_init = false; g_fail_open = false; g_fail_clock = false; g_name_stable = false; g_local = nullptr; g_name_exists = vf_nd_bool(); g_expected_name = nullptr;
        g_now = nd_lrange(0, 1L << 61); g_now_entry = g_now;
    }
    inline void tick()
    {
        g_now = nd_lrange(g_now, 1L << 61);
    }
    // what other threads do to the token count
    inline void env(sem_t *h) { if (g_env) gs(h)->count = nd_lrange(0, INT_MAX - 1); }
    inline void use(sem_t *h)
    {
        work();
        vf_assert(h != nullptr, "no operation on an invalid semaphore");
        vf_assert(gs(h)->live == 1, "no operation on a released semaphore");
    }
}
extern "C"
{
    int sem_post(sem_t *h)
    {
        using namespace spec;
        use(h); env(h);
        if (g_on_post) g_on_post();
        gs(h)->count = gs(h)->count + 1; ++g_added;
        return 0;
    }
    int sem_wait(sem_t *h)
    {
        using namespace spec;
        vf_assert(!g_noblock, "this operation never blocks");
        use(h); env(h);
        if (vf_nd_bool()) { errno = EINTR; return -1; }
        vf_assume(gs(h)->count > 0);        // blocks until there is a token
        gs(h)->count = gs(h)->count - 1; ++g_taken; took();
        return 0;
    }
    int sem_trywait(sem_t *h)
    {
        using namespace spec;
        use(h); env(h);
        if (gs(h)->count > 0) { gs(h)->count = gs(h)->count - 1; ++g_taken; took(); return 0; }
        errno = EAGAIN;
        return -1;
    }
    int sem_timedwait(sem_t *h, const struct timespec *t)
    {
        using namespace spec;
        vf_assert(!g_noblock, "this operation never blocks");
        use(h); env(h);
        vf_assert((t->tv_nsec >= 0) & (t->tv_nsec < NS), "the nanoseconds of the deadline are in range");
        const long d = t->tv_sec * NS + t->tv_nsec;
        vf_assert(imp(g_has_deadline, d == g_deadline), "an interrupted timed wait resumes with the same deadline");
        if (!g_has_deadline) g_now_wait = g_now;
        g_deadline = d; g_has_deadline = true;
        const int r = vf_nd_i32();
        if (r == 0) { errno = EINTR; return -1; }
        if (r == 1) { errno = EINVAL; ++g_errors; return -1; }
        if (gs(h)->count > 0) { gs(h)->count = gs(h)->count - 1; ++g_taken; took(); return 0; }
        tick();
        ++g_timeouts;
        errno = ETIMEDOUT;
        return -1;
    }
    int sem_getvalue(sem_t *h, int *v)
    {
        using namespace spec;
        use(h); env(h);
        *v = int(gs(h)->count);
        return 0;
    }
    int sem_init(sem_t *h, int pshared, unsigned value)
    {
        using namespace spec;
        vf_assert(h != nullptr, "a semaphore is initialised in memory of its own");
        g_local = h;
        if (g_fail_init) { if (vf_nd_bool()) { errno = EINVAL; return -1; } }
        vf_assert(value <= unsigned(INT_MAX), "the initial count fits");
        gs(h)->live = 1; gs(h)->named = 0; gs(h)->count = value;
        ++g_inits;
        return 0;
    }
    int sem_destroy(sem_t *h)
    {
        using namespace spec;
        use(h);
        vf_assert(gs(h)->named == 0, "only a semaphore initialised in place is destroyed");
        gs(h)->live = 0;
        ++g_destroys;
        return 0;
    }
    // sem_open(name, flags, mode, value), mode and value are -1 when not given
    sem_t *vf_sem_open(const char *name, int flags, int mode, int value)
    {
        using namespace spec;
        if (g_expected_name) vf_assert(vf_cstreq(name, g_expected_name->c_str()), "the system object has the name asked for");
        if (!g_name_stable) g_name_exists = vf_nd_bool();       // other processes create and remove it at any time
        if (g_fail_open) { if (vf_nd_bool()) { errno = EACCES; return SEM_FAILED; } }
        sem_t *h = new sem_t;
        if (flags & O_CREAT)
        {
            if (flags & O_EXCL) { if (g_name_exists) { errno = EEXIST; return SEM_FAILED; } }
            ++g_open_creating;
            if (!g_name_exists)
            {
                ++g_created;
                gs(h)->count = value;
                g_name_exists = true;
            }
            else gs(h)->count = nd_lrange(0, INT_MAX);
        }
        else
        {
            if (!g_name_exists) { errno = ENOENT; return SEM_FAILED; }
            ++g_open_plain;
            gs(h)->count = nd_lrange(0, INT_MAX);
        }
        gs(h)->live = 1; gs(h)->named = 1;
        ++g_opens;
        return h;
    }
    int sem_close(sem_t *h)
    {
        using namespace spec;
        use(h);
        vf_assert(gs(h)->named == 1, "only an opened semaphore is closed");
        gs(h)->live = 0;
        ++g_closes;
        return 0;
    }
    int sem_unlink(const char *name)
    {
        using namespace spec;
        if (g_expected_name) vf_assert(vf_cstreq(name, g_expected_name->c_str()), "only the own name is removed");
        ++g_unlinks;
        g_name_exists = false;
        return 0;
    }
    int clock_gettime(clockid_t id, struct timespec *t)
    {
        using namespace spec;
        vf_assert(id == CLOCK_REALTIME, "deadlines are on the clock the system waits on");
        if (g_fail_clock) { if (vf_nd_bool()) { errno = EINVAL; return -1; } }
        tick();
#ifdef VF_NATIVE
        const long s = g_now / NS, n = g_now % NS;
#else
        const long s = nd_lrange(0, 1L << 32), n = nd_lrange(0, NS - 1);
        vf_assume(s * NS + n == g_now);
#endif
        t->tv_sec = s; t->tv_nsec = n;
        return 0;
    }
    long vf_now()
    {
        using namespace spec;
        tick();
        return g_now;
    }
}
