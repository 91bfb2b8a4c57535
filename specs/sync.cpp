// C19-C23: semaphores, events, mutexes and the system objects behind them
#include "sem_model.h"
#include <oqpi.hpp>
#include <chrono>
using namespace spec;
using opts = oqpi::sync_object_creation_options;

namespace spec
{
    // a name as a user may give it
    inline std::string *any_name() { std::string *s = static_cast<std::string*>(operator new(sizeof(std::string))); vf_anystr(s); return s; }
    inline opts any_opts() { return opts(vf_fork_i32(nd_range(0, 2))); }
    template<typename T> inline sem_t *handle(T &o) { return o.getNativeHandle(); }
    template<typename T> inline void any_count(T &o, long lo, long hi) { gs(handle(o))->count = nd_lrange(lo, hi); }
    // a valid semaphore in an arbitrary state
    inline oqpi::semaphore *local_sem(int32_t maxc = nd_range(0, INT_MAX))
    {
        oqpi::semaphore *s = new oqpi::semaphore(0, maxc);
        any_count(*s, 0, INT_MAX - 1);
        reset_history();
        return s;
    }
    inline oqpi::global_semaphore *global_sem()
    {
        std::string *n = new std::string("x");
        oqpi::global_semaphore *s = new oqpi::global_semaphore(*n, opts::create_if_nonexistent, 0, nd_range(0, INT_MAX));
        vf_assume(s->isValid());
        any_count(*s, 0, INT_MAX - 1);
        reset_history();
        return s;
    }
    oqpi::manual_reset_event *g_ev1; oqpi::auto_reset_event *g_ev2; bool g_seen;
    template<typename E> inline E *local_event(bool &signalled)
    {
        E *e = new E();
        vf_assert(gs(handle(*e))->count == 0, "C20 a new event is not signalled");
        signalled = vf_nd_bool();
        gs(handle(*e))->count = signalled ? 1 : 0;
        reset_history();
        return e;
    }
    inline oqpi::global_mutex *any_mutex(bool &owned)
    {
        std::string *n = new std::string("x");
        oqpi::global_mutex *s = new oqpi::global_mutex(*n, opts::create_if_nonexistent, true);
        vf_assume(s->isValid());
        owned = vf_nd_bool();
        gs(handle(*s))->count = owned ? 0 : 1;
        reset_history();
        return s;
    }
    inline bool quiet() { return (g_added == 0) & (g_taken == 0); }
    inline bool net_zero() { return g_added == g_taken; }
    inline bool no_error() { return g_errors == 0; }
    inline bool no_timeout() { return g_timeouts == 0; }
    inline bool nothing_destroyed() { return (g_inits + g_destroys + g_opens + g_closes + g_unlinks) == 0; }
    using dur = std::chrono::nanoseconds;
    // a duration whose deadline the system can represent
#ifdef VF_NATIVE
constexpr long NSMAX = 1L << 61;    // concrete execution: within the machine's arithmetic
inline long any_ns() { return nd_lrange(-NSMAX, NSMAX); }
#else
constexpr long NSMAX = LONG_MAX;
inline long any_ns() { const long d = vf_nd_i64(); return d; }
#endif
}

// made by a name alone: opened or created
template<typename T> inline bool by_name(bool &existed)
{
    start();
    g_name_stable = true;
    existed = g_name_exists;
    std::string *nm = new std::string("x");
    {
        T s(*nm);
        vf_assert(s.isValid(), "C22 an object made by its name alone is opened or created");
        vf_assert((g_created == 1) == !existed, "C22 an object made by its name alone is created exactly if it is missing");
        vf_assert(imp(!existed, gs(handle(s))->count == 0), "C22 an object made by its name alone starts without a token: nothing to take, not signalled, locked");
    }
    vf_assert(g_closes == g_opens, "C22 a named object is closed exactly once by its owner");
    vf_assert(g_unlinks == g_created, "C22 a name is removed exactly once by the object that created it and by no other");
    return existed;
}
extern "C" {

//------------------------------------------------------------------ C19
void H_C19_notify()
{
    start();
    oqpi::semaphore *s = local_sem();
    const int32_t n = vf_nd_i32();
    const long c0 = gs(handle(*s))->count;
    vf_assume(c0 + n <= INT_MAX);
    s->notify(n);
    const long m = n > 0 ? n : 0;
    vf_assert((g_added == m) & (g_taken == 0), "C19 notify(n) adds exactly n tokens");
    vf_assert(gs(handle(*s))->count == c0 + m, "C19 the count after notify(n) is n higher");
    vf_cover("notified");
}
void H_C19_notifyOne()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true;
    s->notifyOne();
    vf_assert((g_added == 1) & (g_taken == 0), "C19 notifyOne adds exactly one token");
    vf_cover("notified");
}
void H_C19_notifyAll()
{
    start();
    const int32_t maxc = nd_range(0, INT_MAX);
    oqpi::semaphore *s = local_sem(maxc);
    gs(handle(*s))->count = 0;
    s->notifyAll();
    vf_assert((g_added == maxc) & (g_taken == 0), "C19 notifyAll adds the maximum");
    vf_cover("notified");
}
void H_C19_moved()
{
    start();
    const int32_t maxc = nd_range(0, INT_MAX);
    oqpi::semaphore *s = local_sem(maxc);
    const int32_t before = gs(handle(*s))->count;
    oqpi::semaphore *m;
    if (vf_nd_bool()) { m = new oqpi::semaphore(std::move(*s)); vf_cover("constructed"); }
    else { m = new oqpi::semaphore(0, 7); *m = std::move(*s); vf_cover("assigned"); }
    vf_assert(gs(handle(*m))->count == before, "C19 moving a semaphore keeps its tokens");
    gs(handle(*m))->count = 0;
    g_added = 0;
    m->notifyAll();
    vf_assert((g_added == maxc) & (g_taken == 0), "C19 a moved semaphore keeps its maximum");
}
void H_C19_tryWait()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = vf_nd_bool();
    g_noblock = true;
    const long c0 = gs(handle(*s))->count;
    const bool r = s->tryWait();
    vf_assert((g_added == 0) & (g_taken == (r ? 1 : 0)), "C19 tryWait returns true exactly if it consumed one token");
    vf_assert(g_env | (r == (c0 > 0)), "C19 tryWait succeeds exactly if there is a token");
    if (r) vf_cover("taken"); else vf_cover("not taken");
}
void H_C19_wait()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true;
    vf_candidate(quiet);
    const bool r = s->wait();
    vf_assert(r & (g_added == 0) & (g_taken == 1), "C19 wait returns true with exactly one token, whatever interrupts it");
    vf_cover("taken");
}
void H_C19_waitFor()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true;
    vf_candidate(quiet);
    const bool r = s->waitFor(dur(any_ns()));
    vf_assert((g_added == 0) & (g_taken == (r ? 1 : 0)), "C19 waitFor returns true exactly if it consumed one token");
    if (r) vf_cover("taken"); else vf_cover("not taken");
}
// the named semaphore behaves the same
void H_C19_global()
{
    start();
    oqpi::global_semaphore *s = global_sem();
    vf_candidate(quiet);
    const int k = vf_fork_i32(nd_range(0, 3));
    if (k == 0) { g_env = true; s->notifyOne(); vf_assert((g_added == 1) & (g_taken == 0), "C19 notifyOne adds exactly one token"); vf_cover("notify"); }
    if (k == 1) { g_noblock = true; const bool r = s->tryWait(); vf_assert((g_added == 0) & (g_taken == (r ? 1 : 0)), "C19 tryWait returns true exactly if it consumed one token"); vf_cover("try"); }
    if (k == 2) { g_env = true; const bool r = s->wait(); vf_assert(r & (g_added == 0) & (g_taken == 1), "C19 wait returns true with exactly one token, whatever interrupts it"); vf_cover("wait"); }
    if (k == 3) { g_env = true; const bool r = s->waitFor(dur(any_ns())); vf_assert((g_added == 0) & (g_taken == (r ? 1 : 0)), "C19 waitFor returns true exactly if it consumed one token"); vf_cover("timed"); }
}
void H_C19_initial()
{
    start();
    const int32_t n = nd_range(0, INT_MAX);
    oqpi::semaphore *s = new oqpi::semaphore(n);
    vf_assert(s->isValid(), "C19 a semaphore the system accepted is valid");
    vf_assert(gs(handle(*s))->count == n, "C19 a new semaphore has its initial count");
    vf_assert((g_added == 0) & (g_taken == 0) & (g_inits == 1), "C19 creation initialises once");
    vf_cover("local");
}
void H_C19_initial_none()
{
    start();
    oqpi::semaphore *s = new oqpi::semaphore();
    vf_assert(gs(handle(*s))->count == 0, "C19 a semaphore made without counts has no token");
#ifndef VF_NATIVE
    s->notifyAll();
    vf_assert((g_added == INT_MAX) & (g_taken == 0), "C19 a semaphore made without counts has no maximum of its own");
#endif
    vf_cover("local");
}
void H_C19_initial_global()
{
    start();
    const int32_t n = nd_range(0, INT_MAX);
    std::string *nm = new std::string("x");
    oqpi::global_semaphore *s = new oqpi::global_semaphore(*nm, any_opts(), n);
    if (!s->isValid()) { vf_cover("invalid"); return; }
    vf_assert(imp(g_created == 1, gs(handle(*s))->count == n), "C19 a created named semaphore has its initial count");
    if (g_created == 1) vf_cover("created"); else vf_cover("opened");
}

void H_C19_initial_global_none()
{
    start();
    std::string *nm = new std::string("x");
    oqpi::global_semaphore *s = new oqpi::global_semaphore(*nm, any_opts());
    if (!s->isValid()) { vf_cover("invalid"); return; }
    vf_assert(imp(g_created == 1, gs(handle(*s))->count == 0), "C19 a named semaphore created without counts has no token");
    if (g_created == 1) { vf_cover("created"); } else { vf_cover("opened"); return; }
#ifndef VF_NATIVE
    s->notifyAll();
    vf_assert((g_added == INT_MAX) & (g_taken == 0), "C19 a semaphore made without counts has no maximum of its own");
#endif
}

//------------------------------------------------------------------ C20
void H_C20_auto_notify()
{
    start();
    bool sig;
    oqpi::auto_reset_event *e = local_event<oqpi::auto_reset_event>(sig);
    e->notify();
    vf_assert(gs(handle(*e))->count == 1, "C20 a signalled auto-reset event releases one wait, however often it was signalled");
    if (sig) vf_cover("again"); else vf_cover("first");
}
void H_C20_auto_wait()
{
    start();
    bool sig;
    oqpi::auto_reset_event *e = local_event<oqpi::auto_reset_event>(sig);
    vf_candidate(quiet);
    const bool r = e->wait();
    vf_assert(r & sig, "C20 wait returns true once the event is signalled");
    vf_assert(gs(handle(*e))->count == 0, "C20 the released wait un-signals an auto-reset event");
    vf_cover("released");
}
void H_C20_auto_waitFor()
{
    start();
    bool sig;
    oqpi::auto_reset_event *e = local_event<oqpi::auto_reset_event>(sig);
    vf_candidate(quiet);
    const bool r = e->waitFor(dur(any_ns()));
    vf_assert(imp(r, sig), "C20 waitFor returns true only if the event was signalled");
    vf_assert(gs(handle(*e))->count == ((sig & !r) ? 1 : 0), "C20 exactly the wait that returns true un-signals an auto-reset event");
    if (r) vf_cover("released"); else vf_cover("not released");
}
void H_C20_auto_concurrent()
{
    start();
    bool sig;
    oqpi::auto_reset_event *e = local_event<oqpi::auto_reset_event>(sig);
    g_env = true;
    vf_candidate(quiet);
    const bool r = vf_nd_bool() ? e->wait() : e->waitFor(dur(any_ns()));
    vf_assert((g_taken == (r ? 1 : 0)) & (g_added == 0), "C20 a wait on an auto-reset event returns true exactly if it took the signal");
    vf_cover("any");
}
void H_C20_manual_notify()
{
    start();
    bool sig;
    oqpi::manual_reset_event *e = local_event<oqpi::manual_reset_event>(sig);
    e->notify();
    vf_assert(gs(handle(*e))->count == 1, "C20 a signalled manual-reset event is signalled");
    if (sig) vf_cover("again"); else vf_cover("first");
}
void H_C20_manual_wait()
{
    start();
    bool sig;
    oqpi::manual_reset_event *e = local_event<oqpi::manual_reset_event>(sig);
    vf_candidate(quiet);
    const bool r = e->wait();
    vf_assert(r & sig, "C20 wait returns true once the event is signalled");
    vf_assert(gs(handle(*e))->count == 1, "C20 a manual-reset event stays signalled for all waiters");
    vf_cover("released");
}
void H_C20_manual_waitFor()
{
    start();
    bool sig;
    oqpi::manual_reset_event *e = local_event<oqpi::manual_reset_event>(sig);
    vf_candidate(quiet);
    const bool r = e->waitFor(dur(any_ns()));
    vf_assert(imp(r, sig), "C20 waitFor returns true only if the event was signalled");
    vf_assert(gs(handle(*e))->count == (sig ? 1 : 0), "C20 a manual-reset event stays signalled for all waiters");
    if (r) vf_cover("released"); else vf_cover("not released");
}
void H_C20_manual_concurrent()
{
    start();
    bool sig;
    oqpi::manual_reset_event *e = local_event<oqpi::manual_reset_event>(sig);
    g_env = true;
    vf_candidate(quiet);
    const bool r = vf_nd_bool() ? e->wait() : e->waitFor(dur(any_ns()));
    vf_assert((g_taken == (r ? 1 : 0)) & (g_added == g_taken), "C20 a wait on a manual-reset event passes on the signal it took");
    vf_cover("any");
}
void H_C20_manual_reset()
{
    start();
    bool sig;
    oqpi::manual_reset_event *e = local_event<oqpi::manual_reset_event>(sig);
    g_noblock = true;
    e->reset();
    vf_assert(gs(handle(*e))->count == 0, "C20 reset leaves a manual-reset event un-signalled");
    vf_assert(g_added == 0, "C20 reset does not signal");
    if (sig) vf_cover("was signalled"); else vf_cover("was not signalled");
}
void H_C20_manual_reset_concurrent()
{
    start();
    bool sig;
    oqpi::manual_reset_event *e = local_event<oqpi::manual_reset_event>(sig);
    g_noblock = true; g_env = true;
    e->reset();
    vf_assert(g_added == 0, "C20 reset does not signal");
    vf_cover("reset");
}

// Defects that are known and not repaired (known_findings.txt): single schedules of two threads, the second of which
// runs one whole operation at the moment the first one is about to post
void H_C20_known_two_notifies()
{
    start();
    oqpi::auto_reset_event *e = new oqpi::auto_reset_event();
    vf_assume(e->isValid());
    g_ev2 = e;
    g_on_post = [] { g_on_post = nullptr; g_ev2->notify(); };
    e->notify();
    vf_cover("notified");
    vf_assert(gs(handle(*e))->count <= 1, "C20 two notifications of one event at the same time do not accumulate");
}
void H_C20_known_reset_window()
{
    start();
    oqpi::manual_reset_event *e = new oqpi::manual_reset_event();
    vf_assume(e->isValid());
    e->notify();
    g_ev1 = e;
    g_on_post = [] { g_on_post = nullptr; g_ev1->reset(); };
    vf_candidate(quiet);
    const bool r = e->wait();
    vf_assume(r);
    vf_cover("reset while a waiter passes");
    vf_assert(gs(handle(*e))->count == 0, "C20 a reset at the same time as a wait leaves the event un-signalled");
}
void H_C20_known_wait_window()
{
    start();
    oqpi::manual_reset_event *e = new oqpi::manual_reset_event();
    vf_assume(e->isValid());
    e->notify();
    g_ev1 = e; g_seen = true;
    g_on_post = [] { g_on_post = nullptr; g_seen = g_ev1->waitFor(std::chrono::nanoseconds(0)); };
    vf_candidate(quiet);
    const bool r = e->wait();
    vf_assume(r); vf_assume(g_errors == 0);
    vf_cover("second waiter while the first one passes");
    vf_assert(g_seen, "C20 a signalled manual-reset event is signalled for two waiters at the same time");
}

//------------------------------------------------------------------ C21
void H_C21_create()
{
    start();
    const bool lock = vf_nd_bool();
    const int o = vf_fork_i32(nd_range(0, 2));
    std::string *n = new std::string("x");
    oqpi::global_mutex *m = new oqpi::global_mutex(*n, opts(o), lock);
    if (!m->isValid()) { vf_cover("invalid"); return; }
    if (g_created == 1)
    {
        vf_assert(gs(handle(*m))->count == (lock ? 0 : 1), "C21 a mutex made locked is owned, one made unlocked is free");
        vf_cover("created");
    }
    else vf_cover("opened");
}
// a named mutex is made locked unless asked otherwise
void H_C21_create_default()
{
    start();
    std::string *n = new std::string("x");
    oqpi::global_mutex *m = new oqpi::global_mutex(*n, any_opts());
    if (!m->isValid()) { vf_cover("invalid"); return; }
    vf_assert(imp(g_created == 1, gs(handle(*m))->count == 0), "C21 a mutex made without saying so is owned");
    if (g_created == 1) vf_cover("created"); else vf_cover("opened");
}
void H_C21_lock()
{
    start();
    bool owned;
    oqpi::global_mutex *m = any_mutex(owned);
    g_env = true;
    vf_candidate(quiet);
    const bool r = m->lock();
    vf_assert(r & (g_taken == 1) & (g_added == 0), "C21 lock returns true as the owner");
    vf_cover("locked");
}
void H_C21_try()
{
    start();
    bool owned;
    oqpi::global_mutex *m = any_mutex(owned);
    g_env = vf_nd_bool();
    g_noblock = true;
    const bool r = vf_nd_bool() ? m->tryLock() : m->try_lock();
    vf_assert((g_taken == (r ? 1 : 0)) & (g_added == 0), "C21 tryLock returns true exactly if the caller became the owner");
    vf_assert(g_env | (r == !owned), "C21 tryLock succeeds exactly on a free mutex");
    vf_assert(g_env | (gs(handle(*m))->count == 0), "C21 at most one owner");
    if (r) vf_cover("locked"); else vf_cover("busy");
}
void H_C21_timed()
{
    start();
    bool owned;
    oqpi::global_mutex *m = any_mutex(owned);
    vf_candidate(quiet);
    const bool r = m->tryLockFor(dur(any_ns()));
    vf_assert((g_taken == (r ? 1 : 0)) & (g_added == 0), "C21 tryLockFor returns true exactly if the caller became the owner");
    vf_assert(imp(r, !owned) & imp(r, gs(handle(*m))->count == 0), "C21 a timed lock succeeds only on a free mutex");
    if (r) vf_cover("locked"); else vf_cover("not locked");
}
void H_C21_timed_concurrent()
{
    start();
    bool owned;
    oqpi::global_mutex *m = any_mutex(owned);
    g_env = true;
    vf_candidate(quiet);
    const bool r = m->tryLockFor(dur(any_ns()));
    vf_assert((g_taken == (r ? 1 : 0)) & (g_added == 0), "C21 tryLockFor returns true exactly if the caller became the owner");
    if (r) vf_cover("locked"); else vf_cover("not locked");
}
void H_C21_timed_alias()
{
    start();
    bool owned;
    oqpi::global_mutex *m = any_mutex(owned);
    g_env = true;
    vf_candidate(quiet);
    const bool r = m->try_lock_for(dur(any_ns()));
    vf_assert((g_taken == (r ? 1 : 0)) & (g_added == 0), "C21 try_lock_for returns true exactly if the caller became the owner");
    if (r) vf_cover("locked"); else vf_cover("not locked");
}
void H_C21_unlock()
{
    start();
    bool owned;
    oqpi::global_mutex *m = any_mutex(owned);
    m->unlock();
    vf_assert(gs(handle(*m))->count == 1, "C21 unlock leaves the mutex free for exactly one owner");
    vf_assert((g_taken == 0) & (g_added == (owned ? 1 : 0)), "C21 unlocking a free mutex changes nothing");
    if (owned) vf_cover("owned"); else vf_cover("free");
}

//------------------------------------------------------------------ C22
// what has to hold for an object right after it was made, and after its end, for every creation option
void H_C22_local()
{
    start();
    g_fail_init = true;
    const int32_t n = nd_range(0, INT_MAX);
    {
        oqpi::semaphore s(n);
        vf_assert(s.isValid() == (g_inits == 1), "C22 an object is valid exactly if the system created it");
        if (s.isValid()) { vf_assert(gs(handle(s))->count == n, "C22 the initial count is applied on creation"); vf_cover("created"); }
        else vf_cover("refused");
        vf_assert((g_destroys == 0) & (g_opens == 0), "C22 creating a local object touches nothing else");
    }
    vf_assert(g_destroys == g_inits, "C22 a local object is destroyed exactly once by its owner");
    vf_assert(!vf_alive(g_local), "C22 the memory of a local object is released");
}
void H_C22_local_event()
{
    start();
    g_fail_init = true;
    {
        oqpi::auto_reset_event s;
        vf_assert(s.isValid() == (g_inits == 1), "C22 an object is valid exactly if the system created it");
        if (s.isValid()) vf_cover("created"); else vf_cover("refused");
    }
    vf_assert(g_destroys == g_inits, "C22 a local object is destroyed exactly once by its owner");
    vf_assert(!vf_alive(g_local), "C22 the memory of a local object is released");
}
// named objects: other processes create and remove the name at any time, the system may refuse
void H_C22_global()
{
    start();
    g_fail_open = true;
    const int32_t n = nd_range(0, INT_MAX);
    const opts o = any_opts();
    std::string *nm = any_name();
    vf_assume(nm->length() > 0);
    vf_assume(nm->length() < 251);
    vf_assume(nm->find('/') == std::string::npos);
    std::string *full = new std::string("/" + *nm);
    g_expected_name = full;
    bool valid; long created;
    {
        oqpi::global_semaphore s(*nm, o, n);
        valid = s.isValid(); created = g_created;
        vf_assert(valid == (g_opens == 1), "C22 an object is valid exactly if it holds one system object");
        vf_assert(g_closes == 0, "C22 a system object in use is not closed");
        vf_assert((g_unlinks == 0), "C22 creation never removes a name");
        vf_assert(g_inits + g_destroys == 0, "C22 a named object is not a local one");
        if (o == opts::create_if_nonexistent) vf_assert((g_open_plain == 0) & (g_open_creating == g_created), "C22 create_if_nonexistent succeeds only by creating");
        if (o == opts::open_existing) vf_assert(g_open_creating == 0, "C22 open_existing never creates");
        if (valid) { vf_assert(imp(created == 1, gs(handle(s))->count == n), "C22 the initial count is applied on creation"); vf_cover("valid"); }
        else vf_cover("invalid");
    }
    vf_assert(g_closes == g_opens, "C22 a named object is closed exactly once by its owner");
    vf_assert(g_unlinks == created, "C22 a name is removed exactly once by the object that created it and by no other");
}
// undisturbed: the outcome is determined by whether the name exists
void H_C22_global_stable()
{
    start();
    g_name_stable = true;
    const bool existed = g_name_exists;
    const opts o = any_opts();
    std::string *nm = new std::string("x");
    oqpi::global_semaphore *s = new oqpi::global_semaphore(*nm, o, 3);
    if (o == opts::create_if_nonexistent) vf_assert(s->isValid() == !existed, "C22 create_if_nonexistent succeeds exactly if the name does not exist");
    if (o == opts::open_existing) vf_assert(s->isValid() == existed, "C22 open_existing succeeds exactly if the name exists");
    if (o == opts::open_or_create) vf_assert(s->isValid(), "C22 open_or_create does either");
    vf_assert((g_created == 1) == (!existed & (o != opts::open_existing)), "C22 the object is created exactly if it is missing and may be created");
    vf_assert(g_name_exists == (existed | (o != opts::open_existing)), "C22 creation leaves the name in place");
    if (s->isValid()) vf_cover("valid"); else vf_cover("invalid");
}
void H_C22_global_mutex_stable()
{
    start();
    g_name_stable = true;
    const bool existed = g_name_exists;
    const opts o = any_opts();
    std::string *nm = new std::string("x");
    {
        oqpi::global_mutex s(*nm, o, vf_nd_bool());
        if (o == opts::create_if_nonexistent) vf_assert(s.isValid() == !existed, "C22 create_if_nonexistent succeeds exactly if the name does not exist");
        if (o == opts::open_existing) vf_assert(s.isValid() == existed, "C22 open_existing succeeds exactly if the name exists");
        if (o == opts::open_or_create) vf_assert(s.isValid(), "C22 open_or_create does either");
        vf_assert((g_closes == 0) & (g_unlinks == 0), "C22 creation releases nothing");
        vf_assert((g_created == 1) == (!existed & (o != opts::open_existing)), "C22 the object is created exactly if it is missing and may be created");
    }
    vf_assert(g_closes == g_opens, "C22 a named object is closed exactly once by its owner");
    vf_assert(g_unlinks == g_created, "C22 a name is removed exactly once by the object that created it and by no other");
    vf_cover("end");
}
void H_C22_global_event_stable()
{
    start();
    g_name_stable = true;
    const bool existed = g_name_exists;
    const opts o = any_opts();
    std::string *nm = new std::string("x");
    {
        oqpi::global_manual_reset_event s(*nm, o);
        if (o == opts::create_if_nonexistent) vf_assert(s.isValid() == !existed, "C22 create_if_nonexistent succeeds exactly if the name does not exist");
        if (o == opts::open_existing) vf_assert(s.isValid() == existed, "C22 open_existing succeeds exactly if the name exists");
        if (o == opts::open_or_create) vf_assert(s.isValid(), "C22 open_or_create does either");
        vf_assert((g_closes == 0) & (g_unlinks == 0), "C22 creation releases nothing");
    }
    vf_assert(g_closes == g_opens, "C22 a named object is closed exactly once by its owner");
    vf_assert(g_unlinks == g_created, "C22 a name is removed exactly once by the object that created it and by no other");
    vf_cover("end");
}
void H_C22_by_name_semaphore() { bool e; if (by_name<oqpi::global_semaphore>(e)) vf_cover("opened"); else vf_cover("created"); }
void H_C22_by_name_event() { bool e; if (by_name<oqpi::global_auto_reset_event>(e)) vf_cover("opened"); else vf_cover("created"); }
void H_C22_by_name_mutex() { bool e; if (by_name<oqpi::global_mutex>(e)) vf_cover("opened"); else vf_cover("created"); }
// moves
void H_C22_move_local()
{
    start();
    {
        oqpi::semaphore a(1);
        sem_t *h = handle(a);
        oqpi::semaphore b(std::move(a));
        vf_assert((!a.isValid()) & b.isValid() & (handle(b) == h), "C22 moving hands over the object and leaves the source invalid");
        vf_assert(gs(h)->live == 1, "C22 moving does not release");
        vf_cover("moved");
    }
    vf_assert((g_inits == 1) & (g_destroys == 1), "C22 a moved object is released exactly once");
}
void H_C22_move_assign_local()
{
    start();
    {
        oqpi::semaphore b(2, 5);
        sem_t *hb = handle(b);
        {
            oqpi::semaphore a(1, 7);
            sem_t *ha = handle(a);
            b = std::move(a);
            vf_assert((!a.isValid()) & b.isValid() & (handle(b) == ha), "C22 move-assignment hands over the object and leaves the source invalid");
            vf_assert((g_destroys == 1) & !vf_alive(hb), "C22 move-assignment releases the overwritten object");
            vf_assert(gs(ha)->live == 1, "C22 move-assignment does not release the object handed over");
            oqpi::semaphore &self = b;
            b = std::move(self);
            vf_assert(b.isValid() & (handle(b) == ha), "C22 assigning an object to itself changes nothing");
            reset_history();
            b.notifyAll();
            vf_assert(g_added == 7, "C22 the maximum moves along");
            g_inits = 2; g_destroys = 1;
            vf_cover("assigned");
        }
        vf_assert(g_destroys == 1, "C22 the source of a move releases nothing");
    }
    vf_assert(g_destroys == 2, "C22 every object is released exactly once");
}
void H_C22_move_global()
{
    start();
    const opts o = any_opts();
    std::string *nm = new std::string("x");
    std::string *full = new std::string("/x");
    g_expected_name = full;
    {
        oqpi::global_semaphore *a = new oqpi::global_semaphore(*nm, o, 1);
        const bool v = a->isValid();
        sem_t *h = handle(*a);
        oqpi::global_semaphore b(std::move(*a));
        vf_assert((!a->isValid()) & (b.isValid() == v) & (handle(b) == h), "C22 moving hands over the object and leaves the source invalid");
        vf_assert((g_closes == 0) & (g_unlinks == 0), "C22 moving does not release");
        delete a;
        vf_assert((g_closes == 0) & (g_unlinks == 0), "C22 the source of a move releases nothing");
        if (v) vf_cover("moved");
    }
    vf_assert(g_closes == g_opens, "C22 a moved object is released exactly once");
    vf_assert(g_unlinks == g_created, "C22 the name moves along with the duty to remove it");
}
// a: creator or opener of "x"; b: creator or opener of "y"; b = move(a)
void H_C22_move_assign_global()
{
    start();
    std::string *nx = new std::string("x"), *ny = new std::string("y");
    std::string *fx = new std::string("/x"), *fy = new std::string("/y");
    const opts oa = any_opts(), ob = any_opts();
    {
        oqpi::global_semaphore b(*ny, ob, 1);
        vf_assume(b.isValid());
        const long cb = g_created;
        sem_t *hb = handle(b);
        oqpi::global_semaphore a(*nx, oa, 1);
        const long ca = g_created - cb;
        const bool v = a.isValid();
        sem_t *ha = handle(a);
        g_closes = 0; g_unlinks = 0; g_expected_name = fy;
        b = std::move(a);
        vf_assert((!a.isValid()) & (b.isValid() == v) & (handle(b) == ha), "C22 move-assignment hands over the object and leaves the source invalid");
        vf_assert((gs(hb)->live == 0) & (g_closes == 1) & (g_unlinks == cb), "C22 move-assignment releases the overwritten object, and its name if it created it");
        g_closes = 0; g_unlinks = 0; g_expected_name = fx; g_created = ca; g_opens = v ? 1 : 0;
        vf_assert(vf_streq(&b.getName(), nx), "C22 the name moves along");
        vf_cover("assigned");
    }
    vf_assert((g_closes == g_opens) & (g_unlinks == g_created), "C22 afterwards the object handed over is released exactly once, and its name if it was created");
}
void H_C22_move_mutex()
{
    start();
    std::string *nm = new std::string("x");
    {
        oqpi::global_mutex a(*nm, opts::create_if_nonexistent, false);
        oqpi::global_mutex b(std::move(a));
        vf_assert(!a.isValid(), "C22 the source of a move is invalid");
        oqpi::global_mutex c(*nm, opts::open_existing, false);
        sem_t *hb = handle(b);
        c = std::move(b);
        vf_assert((!b.isValid()) & (handle(c) == hb), "C22 move-assignment hands over the object");
        vf_cover("moved");
    }
    vf_assert((g_closes == g_opens) & (g_unlinks == g_created), "C22 every mutex is released exactly once");
}
void H_C22_move_event()
{
    start();
    {
        oqpi::manual_reset_event a;
        sem_t *ha = handle(a);
        oqpi::manual_reset_event b(std::move(a));
        vf_assert((!a.isValid()) & (handle(b) == ha), "C22 the source of a move is invalid");
        oqpi::manual_reset_event c;
        c = std::move(b);
        vf_assert((!b.isValid()) & (handle(c) == ha) & (g_destroys == 1), "C22 move-assignment hands over the object and releases the overwritten one");
        vf_cover("moved");
    }
    vf_assert((g_inits == 2) & (g_destroys == 2), "C22 every event is released exactly once");
}

//------------------------------------------------------------------ C23
#define TIMED_RESULT(r, d) \
    vf_assert((g_taken == ((r) ? 1 : 0)), "C23 a timed wait returns true exactly if it acquired a token"); \
    vf_assert(imp(g_has_deadline, (g_deadline - (d) >= g_now_entry) & (g_deadline - (d) <= g_now_wait)), "C23 the deadline is the current time plus the duration"); \
    vf_assert(imp(r, g_has_deadline), "C23 a timed wait waits"); \
    vf_assert(imp(!(r), (g_timeouts + g_errors >= 1) | g_fail_clock), "C23 false only on time-out or error"); \
    if (r) vf_cover("acquired"); else vf_cover("not acquired");

inline bool cand_reason() { return (errno == EINTR) | (g_timeouts + g_errors >= 1) | (g_taken >= 1) | !g_has_deadline; }
inline bool cand_deadline() { return (g_now_wait >= g_now_entry) & (g_now_wait <= g_now); }
void H_C23_semaphore()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true;
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout);
    const long d = any_ns();
    const bool r = s->waitFor(std::chrono::nanoseconds(d));
    vf_assert(g_has_deadline, "C23 a timed wait waits");
    TIMED_RESULT(r, d)
}
void H_C23_semaphore_clock_failure()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true; g_fail_clock = true;
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout);
    const long d = nd_lrange(0, NS);
    const bool r = s->waitFor(std::chrono::nanoseconds(d));
    TIMED_RESULT(r, d)
    if (!g_has_deadline) vf_cover("no clock");
}
void H_C23_semaphore_ms()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true;
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout);
    const long m = nd_lrange(-(NSMAX / 1000000), NSMAX / 1000000);
    const bool r = s->waitFor(std::chrono::milliseconds(m));
    TIMED_RESULT(r, m * 1000000)
}
void H_C23_semaphore_s()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true;
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout);
    const long m = nd_lrange(-(NSMAX / NS), NSMAX / NS);
    const bool r = s->waitFor(std::chrono::seconds(m));
    TIMED_RESULT(r, m * NS)
}
void H_C23_auto_event()
{
    start();
    bool sig;
    oqpi::auto_reset_event *s = local_event<oqpi::auto_reset_event>(sig);
    g_env = true;
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout);
    const long d = any_ns();
    const bool r = s->waitFor(std::chrono::nanoseconds(d));
    TIMED_RESULT(r, d)
}
void H_C23_manual_event()
{
    start();
    bool sig;
    oqpi::manual_reset_event *s = local_event<oqpi::manual_reset_event>(sig);
    g_env = true;
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout);
    const long d = any_ns();
    const bool r = s->waitFor(std::chrono::nanoseconds(d));
    TIMED_RESULT(r, d)
}
void H_C23_mutex()
{
    start();
    bool owned;
    oqpi::global_mutex *s = any_mutex(owned);
    g_env = true;
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout);
    const long d = any_ns();
    const bool r = s->tryLockFor(std::chrono::nanoseconds(d));
    TIMED_RESULT(r, d)
}
#define UNTIL(call) \
    vf_candidate(quiet); vf_candidate(cand_deadline); vf_candidate(cand_reason); vf_candidate(no_error); vf_candidate(no_timeout); \
    const long T = nd_lrange(-(1L << 61), 1L << 61); \
    const auto tp = std::chrono::system_clock::time_point(std::chrono::nanoseconds(T)); \
    const bool r = call; \
    vf_assert(g_taken == (r ? 1 : 0), "C23 a timed wait returns true exactly if it acquired a token"); \
    vf_assert(g_has_deadline, "C23 waiting until a time waits"); \
    vf_assert((g_deadline >= T) & (g_deadline <= T + (g_now_wait - g_now_entry)), "C23 waiting until a time waits for the remaining time"); \
    if (r) vf_cover("acquired"); else vf_cover("not acquired");
void H_C23_semaphore_until()
{
    start();
    oqpi::semaphore *s = local_sem();
    g_env = true;
    UNTIL(s->waitUntil(tp))
}
void H_C23_event_until()
{
    start();
    bool sig;
    oqpi::auto_reset_event *s = local_event<oqpi::auto_reset_event>(sig);
    g_env = true;
    UNTIL(s->waitUntil(tp))
}
void H_C23_mutex_until()
{
    start();
    bool owned;
    oqpi::global_mutex *s = any_mutex(owned);
    g_env = true;
    UNTIL(s->tryLockUntil(tp))
}
void H_C23_mutex_until_alias()
{
    start();
    bool owned;
    oqpi::global_mutex *s = any_mutex(owned);
    g_env = true;
    UNTIL(s->try_lock_until(tp))
}
}
