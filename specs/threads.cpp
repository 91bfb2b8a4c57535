// C24, C25: threads and their attributes
#include "vf.h"
#include <oqpi.hpp>
#include <pthread.h>
#include <sched.h>
#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#ifdef VF_NATIVE
#include <dlfcn.h>
#endif
namespace spec
{
    using oqpi::thread; using oqpi::thread_attributes; using oqpi::thread_priority; using oqpi::core_affinity;
    // ---------------------------------------------------------------- the thread functions of the system (assumed)
    struct GA { int live, detach, policy, inherit, prio, set; unsigned long stack; };       // ghost content of a pthread_attr_t
    static_assert(sizeof(GA) <= sizeof(pthread_attr_t), "");
    inline GA *ga(pthread_attr_t *a) { return reinterpret_cast<GA*>(a); }
    constexpr int MINP = 1, MAXP = 99;      // range of SCHED_RR on Linux
    bool g_fail;                            // the system may refuse
    pthread_t g_self, g_handle, g_other;
    int  g_cpus, g_rlimit;
    // the thread created
    int  g_created, g_began, g_ended, g_joins, g_detaches, g_cancels, g_attrs;
    bool g_create_fails, g_join_fails, g_eager, g_attr_fails;
    void *(*g_fn)(void*); void *g_arg;
    bool g_has_attr; GA g_attr;
    // what it does
    int  g_calls, g_live, g_names, g_named_before; long g_a1, g_a2; bool g_ok_args;
    const std::string *g_name; bool g_name_ok;
    // affinity and priority
    int  g_affs, g_prios; pthread_t g_aff_of, g_prio_of; unsigned long g_aff; int g_prio; bool g_aff_clean; pthread_t g_name_of;
    unsigned long g_os_aff; int g_os_prio; bool g_get_fails;
    bool g_ended_expected; bool g_terminated; bool g_may_terminate;
    inline void run_thread()
    {
        const pthread_t self = g_self;
        g_self = g_handle; ++g_began;
        g_fn(g_arg);
        ++g_ended;
        g_self = self;
    }
    // the new thread runs at some time after it was created
    inline void settle() { if (g_created > g_began) run_thread(); }
    inline int refuse() { if (g_fail) { if (vf_nd_bool()) { g_attr_fails = true; return EINVAL; } } return 0; }
    inline void start()
    {
        g_fail = false; g_self = pthread_t(nd_lrange(1, 1000)); g_handle = pthread_t(nd_lrange(1001, 2000)); g_other = pthread_t(nd_lrange(2001, 3000));
        g_cpus = nd_range(1, 1024); g_rlimit = vf_nd_bool();
        g_created = g_began = g_ended = g_joins = g_detaches = g_cancels = g_attrs = 0;
        g_create_fails = false; g_join_fails = false; g_eager = false; g_fn = nullptr; g_arg = nullptr; g_has_attr = false; g_attr_fails = false;
        g_calls = g_live = g_names = g_named_before = 0; g_a1 = g_a2 = 0; g_ok_args = false; g_name = nullptr; g_name_ok = false;
        g_affs = g_prios = 0; g_aff_of = g_prio_of = 0; g_aff = 0; g_prio = 0; g_aff_clean = true; g_name_of = 0;
        g_os_aff = 0; g_os_prio = 0; g_get_fails = false; g_terminated = false; g_may_terminate = false;
        g_attr = GA();
#ifdef VF_NATIVE
        g_cpus = 1024;
#endif
    }
}
extern "C"
{
    void vf_on_terminate()
    {
        spec::g_terminated = true;
        vf_assert(spec::g_may_terminate, "C24 the program is terminated for a joinable thread only");
        vf_cover("terminated");
        vf_end();
    }
    int pthread_attr_init(pthread_attr_t *a)
    {
        using namespace spec;
        if (refuse()) return ENOMEM;
        GA *g = ga(a);
        g->live = 1; g->detach = PTHREAD_CREATE_JOINABLE; g->policy = SCHED_OTHER; g->inherit = PTHREAD_INHERIT_SCHED; g->prio = 0; g->stack = 0; g->set = 0;
        ++g_attrs;
        return 0;
    }
    int pthread_attr_destroy(pthread_attr_t *a)
    {
        using namespace spec;
        vf_assert(ga(a)->live == 1, "C25 attributes are destroyed once");
        ga(a)->live = 0; --g_attrs;
        return 0;
    }
    int pthread_attr_setdetachstate(pthread_attr_t *a, int s) { using namespace spec; vf_assert(ga(a)->live == 1, "C25 attributes are initialised before use"); if (refuse()) return EINVAL; ga(a)->detach = s; return 0; }
    int pthread_attr_setschedpolicy(pthread_attr_t *a, int s) { using namespace spec; vf_assert(ga(a)->live == 1, "C25 attributes are initialised before use"); if (refuse()) return EINVAL; ga(a)->policy = s; return 0; }
    int pthread_attr_setinheritsched(pthread_attr_t *a, int s) { using namespace spec; vf_assert(ga(a)->live == 1, "C25 attributes are initialised before use"); if (refuse()) return EINVAL; ga(a)->inherit = s; return 0; }
    int pthread_attr_setschedparam(pthread_attr_t *a, const sched_param *p)
    {
        using namespace spec;
        vf_assert(ga(a)->live == 1, "C25 attributes are initialised before use");
        vf_assert((p->sched_priority >= MINP) & (p->sched_priority <= MAXP), "C25 the priority is in the range of the system");
        if (refuse()) return EINVAL;
        ga(a)->prio = p->sched_priority; ga(a)->set |= 1; return 0;
    }
    int pthread_attr_setstacksize(pthread_attr_t *a, size_t s)
    {
        using namespace spec;
        vf_assert(ga(a)->live == 1, "C25 attributes are initialised before use");
        if (refuse()) return EINVAL;
        ga(a)->stack = s; ga(a)->set |= 2; return 0;
    }
    int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg)
    {
        using namespace spec;
        vf_assert(g_created == 0, "C24 one thread is created");
        if (a) { vf_assert(ga(const_cast<pthread_attr_t*>(a))->live == 1, "C25 attributes are initialised before use"); g_has_attr = true; g_attr = *ga(const_cast<pthread_attr_t*>(a)); }
        if (g_create_fails) { *t = pthread_t(vf_nd_i64()); return EAGAIN; }     // the handle is indeterminate then
        ++g_created; g_fn = fn; g_arg = arg;
        *t = g_handle;
        if (g_eager) run_thread();
        return 0;
    }
    int pthread_join(pthread_t t, void **)
    {
        using namespace spec;
        vf_assert(t == g_handle, "C24 the own thread is joined");
        vf_assert((g_joins == 0) & (g_detaches == 0), "C24 a thread is joined or detached once");
        vf_assert(g_self != g_handle, "C24 a thread does not join itself");
        if (g_join_fails) return EINVAL;
        ++g_joins;
        if (g_fn) settle();
        return 0;
    }
    int pthread_detach(pthread_t t)
    {
        using namespace spec;
        vf_assert(t == g_handle, "C24 the own thread is detached");
        vf_assert((g_joins == 0) & (g_detaches == 0), "C24 a thread is joined or detached once");
        if (g_join_fails) return EINVAL;
        ++g_detaches;
        return 0;
    }
    int pthread_cancel(pthread_t t)
    {
        using namespace spec;
        vf_assert(t == g_handle, "C24 the own thread is cancelled");
        if (g_join_fails) return ESRCH;
        ++g_cancels;
        return 0;
    }
    pthread_t pthread_self() noexcept { return spec::g_self; }
#ifndef VF_NATIVE
    int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
#endif
    int pthread_setname_np(pthread_t t, const char *n)
    {
        using namespace spec;
        vf_assert(t == (g_name_of ? g_name_of : g_self), "C24 the name is given to the thread it is meant for");
        g_name_ok = g_name ? vf_cstreq(n, g_name->c_str()) : false;
        ++g_names;
        return refuse() ? ERANGE : 0;
    }
    int pthread_setaffinity_np(pthread_t t, size_t size, const cpu_set_t *s)
    {
        using namespace spec;
        ++g_affs; g_aff_of = t; g_aff = s->__bits[0];
        vf_assert(size == sizeof(cpu_set_t), "C25 the affinity set has its size");
        g_aff_clean = true;
        for (size_t i = 1; i < sizeof(cpu_set_t) / sizeof(s->__bits[0]); ++i) g_aff_clean = bool(g_aff_clean & (s->__bits[i] == 0));
        if (refuse()) return EINVAL;
        g_os_aff = g_aff;
        return 0;
    }
    int pthread_getaffinity_np(pthread_t t, size_t, cpu_set_t *s)
    {
        using namespace spec;
        g_aff_of = t;
        for (size_t i = 0; i < sizeof(cpu_set_t) / sizeof(s->__bits[0]); ++i) s->__bits[i] = 0;
        s->__bits[0] = g_os_aff;
        return 0;
    }
    int pthread_setschedprio(pthread_t t, int p)
    {
        using namespace spec;
        vf_assert((p >= MINP) & (p <= MAXP), "C25 the priority is in the range of the system");
        ++g_prios; g_prio_of = t; g_prio = p; g_os_prio = p;
        return refuse() ? EPERM : 0;
    }
    int pthread_setschedparam(pthread_t t, int pol, const sched_param *p) noexcept
    {
        using namespace spec;
        vf_assert((p->sched_priority >= MINP) & (p->sched_priority <= MAXP), "C25 the priority is in the range of the system");
        vf_assert(pol == SCHED_RR, "C25 the range is the one of the policy");
        ++g_prios; g_prio_of = t; g_prio = p->sched_priority; g_os_prio = p->sched_priority;
        return refuse() ? EPERM : 0;
    }
    int pthread_getschedparam(pthread_t t, int *pol, sched_param *p)
    {
        using namespace spec;
        g_prio_of = t;
        if (g_get_fails) return ESRCH;
        *pol = SCHED_RR; p->sched_priority = g_os_prio;
        return 0;
    }
    int sched_get_priority_min(int p) noexcept { vf_assert(p == SCHED_RR, "C25 the range is the one of the policy"); return spec::MINP; }
    int sched_get_priority_max(int p) noexcept { vf_assert(p == SCHED_RR, "C25 the range is the one of the policy"); return spec::MAXP; }
    long sysconf(int n) noexcept
    {
#ifdef VF_NATIVE
        if (n != _SC_NPROCESSORS_ONLN) { static auto f = (long(*)(int))dlsym(RTLD_NEXT, "sysconf"); return f(n); }
#endif
        return spec::g_cpus;
    }
    int getrlimit(__rlimit_resource_t r, struct rlimit *l) noexcept
    {
        using namespace spec;
#ifdef VF_NATIVE
        if (int(r) != int(__RLIMIT_RTPRIO)) { static auto f = (int(*)(__rlimit_resource_t, struct rlimit*))dlsym(RTLD_NEXT, "getrlimit"); return f(r, l); }
#endif
        vf_assert(int(r) == int(__RLIMIT_RTPRIO), "C25 the limit on priorities is asked for");
        if (refuse()) return EINVAL;
        l->rlim_cur = rlim_t(g_rlimit); l->rlim_max = rlim_t(g_rlimit);
        return 0;
    }
    int sched_yield() noexcept { ++spec::g_calls; return 0; }
    int sched_getcpu() noexcept { return spec::g_cpus; }
}
namespace spec
{
    // something the function captures or gets: counts its live copies
    struct token
    {
        long v; bool on;
        explicit token(long x) : v(x), on(true) { ++g_live; }
        token(const token &o) : v(o.v), on(true) { ++g_live; }
        token(token &&o) : v(o.v), on(true) { ++g_live; o.v = -1; }
        ~token() { vf_assert(on, "C24 what the function owns is destroyed once"); on = false; --g_live; }
    };
    struct only_move
    {
        token t;
        explicit only_move(long x) : t(x) {}
        only_move(only_move &&o) : t(std::move(o.t)) {}
        only_move(const only_move&) = delete;
    };
    inline void called(bool ok)
    {
        ++g_calls; g_ok_args = ok; g_named_before = g_names;
        vf_assert(g_self == g_handle, "C24 the function runs in the new thread");
        vf_assert(g_live > 0, "C24 what the function owns is there while it runs");
    }
    struct func
    {
        token t;
        explicit func(long x) : t(x) {}
        void operator()() { called(t.v == g_a1); }
        void operator()(long a, token b) { called((t.v == g_a1) & (a == g_a2) & (b.v == g_a1 + 1)); }
        void operator()(only_move m, long a) { called((t.v == g_a1) & (m.t.v == g_a2) & (a == g_a1)); }
    };
    struct object
    {
        long v;
        void method(long a, token b) { called((v == g_a1) & (a == g_a2) & (b.v == g_a1)); }
    };
    inline thread_attributes *any_attr()
    {
        thread_attributes *a = new thread_attributes("x");
        vf_anystr(&a->name_);
        a->stackSize_ = uint32_t(vf_nd_i32());
        const unsigned m = unsigned(vf_nd_i32());
        if (g_cpus < 32) vf_assume((m < (1ul << g_cpus)) | (m == unsigned(core_affinity::all_cores)));
        a->coreAffinityMask_ = core_affinity(m);
        a->priority_ = thread_priority(nd_range(0, 5));
        return a;
    }
    inline void args() { g_a1 = nd_lrange(1, 1000); g_a2 = nd_lrange(1, 1000); }
    // a joinable thread that does nothing
    inline thread *any_thread()
    {
        thread *t = new thread();
        vf_assert(!t->joinable(), "C24 a thread made without a function is not joinable");
        t->handle_ = g_handle;
        if (vf_nd_bool()) g_self = g_handle;            // the calling thread can be the very thread the object stands for
        return t;
    }
    inline void modes() { g_create_fails = vf_nd_bool(); g_eager = vf_nd_bool(); }
    inline void check_created(thread *t)
    {
        if (g_create_fails)
        {
            vf_assert(!t->joinable(), "C24 a thread that could not be created is not joinable");
            vf_assert(g_calls == 0, "C24 the function is not called if there is no thread");
            vf_assert(g_live == 0, "C24 what the function owns is destroyed when there is no thread");
            vf_cover("failed");
        }
        else
        {
            vf_assert(t->joinable() & (t->getId() == g_handle), "C24 a created thread is joinable and has the handle of the system");
            settle();
            vf_assert((g_calls == 1) & g_ok_args, "C24 the function is called once with the arguments given");
            vf_assert((g_names == 1) & (g_named_before == 1) & g_name_ok, "C24 a thread has its name before the function runs");
            vf_assert(g_live == 0, "C24 what the function owns is destroyed after it ran");
            vf_assert(!vf_alive(g_arg), "C24 the memory carrying the function is freed");
            if (g_eager) vf_cover("at once"); else vf_cover("later");
        }
    }
    inline void attr_setup()
    {
        start();
        modes();
    }
    template<int N> inline int mapped(thread_priority p)
    {
        thread *t = any_thread();
        t->setPriority(p);
        vf_assert(g_prio_of == g_handle, "C25 the priority of the own thread is set");
        return g_prio;
    }
}
using namespace spec;
extern "C" {
// ------------------------------------------------------------------ C24
void H_C24_create()
{
    start(); args(); modes();
    thread_attributes *a = any_attr(); g_name = &a->name_;
    thread *t = new thread(*a, func(g_a1));
    check_created(t);
}
void H_C24_create_refused()
{
    start(); args(); modes(); g_fail = true; g_rlimit = 1;
    thread_attributes *a = any_attr(); g_name = &a->name_; a->priority_ = thread_priority::normal; a->stackSize_ = 65536;
    thread *t = new thread(*a, func(g_a1));
    check_created(t);
}
void H_C24_create_args()
{
    start(); args(); modes();
    thread_attributes *a = any_attr(); g_name = &a->name_;
    { token b(g_a1 + 1); thread *t = new thread(*a, func(g_a1), g_a2, b);
    g_live -= 1; vf_assert(b.v == g_a1 + 1, "C24 arguments are copied"); 
    check_created(t); g_live += 1; }
}
void H_C24_create_move()
{
    start(); args(); modes();
    thread_attributes *a = any_attr(); g_name = &a->name_;
    thread *t;
    t = new thread(*a, func(g_a1), only_move(g_a2), g_a1);
    check_created(t);
}
void H_C24_create_method()
{
    start(); args(); modes();
    thread_attributes *a = any_attr(); g_name = &a->name_;
    object *o = new object; o->v = g_a1;
    thread *t = new thread(*a, &object::method, o, g_a2, token(g_a1));
    check_created(t);
}
void H_C24_create_named()
{
    start(); args(); modes();
    std::string *n = static_cast<std::string*>(operator new(sizeof(std::string))); vf_anystr(n); g_name = n;
    thread *t = new thread(*n, func(g_a1));
    check_created(t);
}
void H_C24_join()
{
    start();
    thread *t = any_thread();
    vf_assume(g_self != g_handle);
    g_join_fails = vf_nd_bool();
    vf_assert(t->joinable(), "C24 a thread with a handle is joinable");
    t->join();
    vf_assert(g_joins == (g_join_fails ? 0 : 1), "C24 join joins the thread");
    vf_assert(t->joinable() == g_join_fails, "C24 a joined thread is not joinable, one that could not be joined still is");
    if (!g_join_fails) { t->join(); t->detach(); vf_assert((g_joins == 1) & (g_detaches == 0), "C24 joining or detaching a thread that is not joinable does nothing"); delete t; vf_cover("joined"); }
    else vf_cover("not joined");
}
void H_C24_join_self()
{
    start();
    thread *t = any_thread();
    g_self = g_handle;
    t->join();
    vf_assert((g_joins == 0) & t->joinable(), "C24 a thread joining itself has no effect");
    vf_cover("done");
}
void H_C24_join_none()
{
    start();
    thread *t = new thread();
    g_self = vf_nd_bool() ? pthread_t(0) : g_self;
    t->join(); t->detach();
    vf_assert((g_joins == 0) & (g_detaches == 0) & !t->joinable(), "C24 joining or detaching a thread that is not joinable does nothing");
    delete t;
    vf_cover("done");
}
void H_C24_detach()
{
    start();
    thread *t = any_thread();
    g_join_fails = vf_nd_bool();
    t->detach();
    vf_assert((g_detaches == (g_join_fails ? 0 : 1)) & (g_joins == 0), "C24 detach detaches the thread");
    vf_assert(t->joinable() == g_join_fails, "C24 a detached thread is not joinable, one that could not be detached still is");
    if (!g_join_fails) { t->join(); t->detach(); delete t; vf_cover("detached"); } else vf_cover("not detached");
}
void H_C24_terminate_none()
{
    start();
    thread *t = new thread();
    t->terminate();
    vf_assert((g_cancels == 0) & !t->joinable(), "C24 terminating a thread that does not run has no effect");
    vf_cover("done");
}
void H_C24_terminate_thread()
{
    start();
    thread *t = any_thread();
    g_join_fails = vf_nd_bool();
    t->terminate();
    vf_assert(g_cancels == (g_join_fails ? 0 : 1), "C24 terminate cancels the thread");
    vf_assert(t->joinable() == g_join_fails, "C24 a cancelled thread is not joinable");
    vf_cover("done");
}
void H_C24_move()
{
    start();
    thread *t = any_thread();
    const bool none = vf_nd_bool();
    if (none) t->handle_ = 0;
    thread *u = new thread(std::move(*t));
    vf_assert(!t->joinable(), "C24 a moved-from thread is not joinable");
    vf_assert((u->joinable() == !none) & (u->handle_ == (none ? 0 : g_handle)), "C24 a moved-to thread has the handle");
    delete t;
    thread *w = new thread();
    *w = std::move(*u);
    vf_assert(!u->joinable(), "C24 a moved-from thread is not joinable");
    vf_assert((w->joinable() == !none) & (w->handle_ == (none ? 0 : g_handle)), "C24 a moved-to thread has the handle");
    delete u;
    thread *self = w;
    *w = std::move(*self);
    vf_assert((w->joinable() == !none) & (w->handle_ == (none ? 0 : g_handle)), "C24 moving a thread to itself changes nothing");
    if (none) vf_cover("empty"); else vf_cover("joinable");
    g_may_terminate = !none;
    delete w;
    vf_assert(none, "C24 destroying a joinable thread terminates the program");
    vf_assert((g_joins == 0) & (g_detaches == 0), "C24 moving neither joins nor detaches");
}
void H_C24_assign_joinable()
{
    start();
    thread *t = any_thread(), *u = new thread();
    if (vf_nd_bool()) u->handle_ = g_other;
    g_may_terminate = true;
    *t = std::move(*u);
    vf_assert(false, "C24 assigning to a joinable thread terminates the program");
}
void H_C24_destroy_joinable()
{
    start();
    thread *t = any_thread();
    g_may_terminate = true;
    delete t;
    vf_assert(false, "C24 destroying a joinable thread terminates the program");
}
void H_C24_life()
{
    start(); args(); g_eager = vf_nd_bool();
    thread_attributes *a = any_attr(); g_name = &a->name_;
    {
        thread t(*a, func(g_a1));
        thread u(std::move(t));
        u.join();
        vf_assert((g_calls == 1) & (g_ended == 1), "C24 the function has run when join returns");
    }
    vf_assert((g_joins == 1) & (g_detaches == 0), "C24 a thread is joined or detached once");
    vf_cover("done");
}
// ------------------------------------------------------------------ C25
static void c25_create(bool refuse)
{
    attr_setup(); g_fail = refuse; args();
    thread_attributes *a = any_attr(); g_name = &a->name_;
    if (refuse) { a->stackSize_ = 65536; a->priority_ = thread_priority::normal; g_rlimit = 1; }
    thread *t = new thread(*a, func(g_a1));
    vf_assert(g_attrs == 0, "C25 every attribute object is destroyed");
    vf_assert(imp(!g_has_attr, g_attr_fails), "C25 the attributes are handed over at creation");
    if (g_has_attr)
    {
        vf_assert(g_attr.detach == PTHREAD_CREATE_JOINABLE, "C25 threads are created joinable");
        vf_assert(imp((a->stackSize_ > 0) & !g_attr_fails, ((g_attr.set & 2) != 0) & (g_attr.stack == a->stackSize_)), "C25 the stack size asked for is handed over");
        vf_assert(imp(a->stackSize_ == 0, (g_attr.set & 2) == 0), "C25 without a stack size the default is used");
        vf_assert(imp((g_rlimit != 0) & !g_attr_fails, ((g_attr.set & 1) != 0) & (g_attr.policy == SCHED_RR) & (g_attr.inherit == PTHREAD_EXPLICIT_SCHED)), "C25 the priority asked for is handed over where permitted");
        if ((g_attr.set & 1) != 0)
        {
            thread *x = any_thread();
            g_fail = false;
            x->setPriority(a->priority_);
            vf_assert(g_prio == g_attr.prio, "C25 a priority means the same at creation and later");
            vf_cover("priority");
        }
    }
    if (!g_create_fails)
    {
        vf_assert((g_affs == 1) & (g_aff_of == g_handle), "C25 the affinity of the new thread is set");
        vf_assert((g_aff == (unsigned long)(unsigned(a->coreAffinityMask_))) & g_aff_clean, "C25 the affinity mask asked for is handed over");
        vf_cover("created");
    }
    else vf_assert(g_affs == 0, "C25 nothing is set on a thread that does not exist");
    t->handle_ = 0;
}
void H_C25_create() { c25_create(false); }
void H_C25_create_refused() { c25_create(true); }
void H_C25_affinity()
{
    start();
    thread *t = any_thread();
    thread_attributes *a = any_attr();
    const unsigned m = unsigned(a->coreAffinityMask_);
    t->setCoreAffinityMask(a->coreAffinityMask_);
    vf_assert((g_affs == 1) & (g_aff_of == g_handle) & (g_aff == m) & g_aff_clean, "C25 the affinity mask asked for is handed over");
    g_aff_of = 0;
    const unsigned got = unsigned(t->getCoreAffinityMask());
    vf_assert((got == m) & (g_aff_of == g_handle), "C25 the affinity read back is the one set");
    g_aff_of = 0; g_aff = 0;
    oqpi::this_thread::set_affinity_mask(a->coreAffinityMask_);
    vf_assert((g_affs == 2) & (g_aff_of == g_self) & (g_aff == m) & g_aff_clean, "C25 the affinity mask asked for is handed over");
    vf_cover("done");
}
void H_C25_core()
{
    start();
    thread *t = any_thread();
    const int c = vf_fork_i32(nd_range(0, 31));
    vf_assume(c < g_cpus);
    t->setCoreAffinity(c);
    vf_assert((g_affs == 1) & (g_aff_of == g_handle) & (g_aff == (1ul << c)) & g_aff_clean, "C25 setting the affinity to a core selects that core");
    oqpi::this_thread::set_affinity(uint32_t(c));
    vf_assert((g_affs == 2) & (g_aff_of == g_self) & (g_aff == (1ul << c)) & g_aff_clean, "C25 setting the affinity to a core selects that core");
    vf_cover("done");
}
void H_C25_priorities()
{
    start();
    int last = MINP - 1;
    for (int p = 0; p < int(thread_priority::count); ++p)
    {
        thread *t = any_thread();
        g_prio_of = 0;
        t->setPriority(thread_priority(p));
        vf_assert(g_prio_of == g_handle, "C25 the priority of the own thread is set");
        vf_assert(g_prio > last, "C25 a higher priority is higher for the system");
        if (p == 0) vf_assert(g_prio == MINP, "C25 the lowest priority is the lowest of the system");
        if (p == int(thread_priority::count) - 1) vf_assert(g_prio == MAXP, "C25 the highest priority is the highest of the system");
        last = g_prio;
        g_prio_of = 0;
        vf_assert((t->getPriority() == thread_priority(p)) & (g_prio_of == g_handle), "C25 the priority read back is the one set");
        g_prio = 0;
        oqpi::this_thread::set_priority(thread_priority(p));
        vf_assert((g_prio_of == g_self) & (g_prio == last), "C25 a priority means the same for the current thread");
    }
    vf_assert(g_prios == 2 * int(thread_priority::count), "C25 a priority is set once");
    vf_cover("done");
}
void H_C25_priority_get()
{
    start();
    thread *t = any_thread();
    g_os_prio = vf_fork_i32(nd_range(MINP, MAXP));
    g_get_fails = vf_nd_bool();
    const int p = int(t->getPriority());
    if (g_get_fails) { vf_assert(p == int(thread_priority::normal), "C25 an unknown priority counts as normal"); vf_cover("unknown"); }
    else { vf_assert((p >= 0) & (p < int(thread_priority::count)), "C25 a priority of the system is one of the priorities"); vf_cover("known"); }
}
void H_C25_defaults()
{
    start();
    std::string *n = static_cast<std::string*>(operator new(sizeof(std::string))); vf_anystr(n);
    thread_attributes *a = new thread_attributes(*n);
    vf_assert(vf_streq(&a->name_, n), "C25 attributes keep the name");
    vf_assert((a->stackSize_ == 0) & (a->coreAffinityMask_ == core_affinity::all_cores) & (a->priority_ == thread_priority::normal), "C25 by default a thread has the default stack, all cores and normal priority");
    const unsigned s = unsigned(vf_nd_i32()), m = unsigned(vf_nd_i32()); const int p = nd_range(0, 5);
    thread_attributes *b = new thread_attributes(*n, s, core_affinity(m), thread_priority(p));
    vf_assert(vf_streq(&b->name_, n) & (b->stackSize_ == s) & (unsigned(b->coreAffinityMask_) == m) & (int(b->priority_) == p), "C25 attributes keep what they are given");
    vf_cover("done");
}
void H_C25_names()
{
    using namespace oqpi;
    start();
    vf_assert((unsigned(core0) == 1u) & (unsigned(core1) == 2u) & (unsigned(core2) == 4u) & (unsigned(core3) == 8u)
            & (unsigned(core4) == 16u) & (unsigned(core5) == 32u) & (unsigned(core6) == 64u) & (unsigned(core7) == 128u), "C25 the named cores are the cores they name");
    vf_assert(unsigned(all_cores) == 0xffffffffu, "C25 all cores are all cores");
    thread *t = any_thread();
    std::string *n = static_cast<std::string*>(operator new(sizeof(std::string))); vf_anystr(n); g_name = n;
    g_name_of = g_handle;
    t->setName(n->c_str());
    vf_assert((g_names == 1) & g_name_ok, "C25 the name asked for is handed over");
    vf_cover("done");
}
void H_C25_this_thread()
{
    start();
    std::string *n = static_cast<std::string*>(operator new(sizeof(std::string))); vf_anystr(n); g_name = n;
    oqpi::this_thread::set_name(n->c_str());
    vf_assert((g_names == 1) & g_name_ok, "C25 the name asked for is handed over");
    vf_assert(oqpi::this_thread::get_id() == g_self, "C25 the current thread has the identity of the system");
    g_calls = 0;
    oqpi::this_thread::yield();
    vf_assert(g_calls == 1, "C25 yield yields once");
    vf_assert(oqpi::this_thread::get_current_core() == uint32_t(g_cpus), "C25 the current core is the one of the system");
    vf_assert(thread::hardware_concurrency() == unsigned(g_cpus), "C25 the number of processors is the one of the system");
    vf_cover("done");
}
}
