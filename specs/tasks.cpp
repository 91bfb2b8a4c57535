// C04 (claims), C05 (execution), C06 (waiting), C26 (ids), C29 (handles)
#include "task_model.h"
using namespace spec;
using oqpi::task;

namespace spec
{
    // ---------------------------------------------------------------- a task with recording hooks, function and event
    int   g_fn, g_pre, g_post, g_notify, g_wait, g_added_hook;
    int   g_value;                  // what the function returns
    int   g_arg1, g_arg2;
    bool  g_has_parent;
    const task_base *g_owner;
    const group_base *g_hook_parent;
    struct rec_ctx
    {
        task_base *o;
        int tag = 0;
        rec_ctx(task_base *p, const std::string &) : o(p) { g_owner = p; }
        void onAddedToGroup(const group_sptr &sp) { ++g_added_hook; g_hook_parent = sp.get(); }
        void onPreExecute()  { phase(0, 1, "C05 the pre-execute hook comes first"); }
        void onPostExecute() { phase(3, 4, "C05 the post-execute hook comes after the task is done"); }
    };
    using rec_ctxs = oqpi::task_context_container<rec_ctx>;
    struct rec_event
    {
        int tag = 0;
        rec_event() {}
        rec_event(rec_event &&o) : tag(o.tag) { o.tag = 0; }
        rec_event &operator=(rec_event &&o) { tag = o.tag; o.tag = 0; return *this; }
        bool wait() { ++g_wait; return true; }
        template<typename D> bool waitFor(const D &) { const bool signalled = vf_nd_bool(); if (signalled) ++g_wait; return signalled; }
        template<typename D> bool waitUntil(const D &d) { return waitFor(d); }
        void reset() { vf_assert(g_notify == 0, "C06 a finished task stays signalled"); }
        bool isValid() const { return true; }
        void notify() { ++g_notify; phase(4, 5, "C05 waiters are woken after the post-execute hook"); }
    };
    struct int_fn
    {
        int tag = 0;
        int operator()() { ++g_fn; phase(1, 2, "C05 the function is called after the pre-execute hook"); return g_value; }
    };
    struct void_fn
    {
        void operator()() { ++g_fn; phase(1, 2, "C05 the function is called after the pre-execute hook"); }
    };
    bool  g_waitable;
    void told()
    {
        phase(g_waitable ? 5 : 4, 6, "C05 the parent group is told after everything else");
    }
    template<typename T> struct glob
    {
        static T *t;
        static int result(T *t) { return 0; }
        static void done_guar(void *, long o, long n, long order)
        {
            phase(2, 3, "C05 a task becomes done right after its function returned");
            vf_assert((o == 0) & (n == 1), "C05 a task becomes done once");
            vf_assert(order >= ORD_RELEASE, "C05 becoming done publishes what the task did");
        }
        static void done_guar_int(void *p, long o, long n, long order)
        {
            vf_assert(t->result_ == g_value, "C05 the result is stored before the task becomes done");
            done_guar(p, o, n, order);
        }
    };
    template<typename T> T *glob<T>::t;
    inline void start_task()
    {
        start();
        g_phase = 0; g_fn = 0; g_pre = 0; g_post = 0; g_notify = 0; g_wait = 0; g_added_hook = 0; g_value = vf_nd_i32(); g_waitable = true; g_hook_parent = nullptr;
        g_on_execute = nullptr; g_on_execute_st = nullptr; *stub_task::destroyed() = 0; stub_group::g_gone() = 0;
    }
    using int_task = task<task_type::waitable, rec_event, rec_ctxs, int_fn>;
    using void_task = task<task_type::waitable, rec_event, rec_ctxs, void_fn>;
    using ff_task = task<task_type::fire_and_forget, rec_event, rec_ctxs, int_fn>;
    using ff_void_task = task<task_type::fire_and_forget, rec_event, rec_ctxs, void_fn>;
    inline int_fn fn_of(int_task*) { return int_fn(); }
    inline int_fn fn_of(ff_task*) { return int_fn(); }
    inline void_fn fn_of(void_task*) { return void_fn(); }
    inline void_fn fn_of(ff_void_task*) { return void_fn(); }

    template<typename T> void execute_claimed(bool waitable, void (*guar)(void*, long, long, long))
    {
        start_task();
        g_waitable = waitable;
        T *t = new T("x", any_prio(), fn_of((T*)nullptr));
        glob<T>::t = t;
        auto g = std::make_shared<stub_group>();
        g->on_told = told;
        const bool parent = vf_nd_bool();
        if (parent) t->spParentGroup_ = g;
        raw(t->grabbed_) = true;
        vf_shared(&t->done_, 1, nullptr, guar);
        t->execute();
        vf_assert(g_phase == (parent ? 6 : waitable ? 5 : 4), "C05 executing a task takes every step");
        vf_assert(g_fn == 1, "C05 the function is called exactly once");
        vf_assert(raw(t->done_) & raw(t->grabbed_), "C05 an executed task is done and stays claimed");
        vf_assert(g->told == (parent ? 1 : 0), "C05 the parent group is told exactly once");
        vf_assert(t->spParentGroup_ == nullptr, "C05 the reference to the parent group is dropped");
        vf_assert(g.use_count() == 1, "C05 the parent group is not kept alive by a finished task");
        if (parent) vf_cover("with parent"); else vf_cover("without parent");
    }
    template<typename T> void execute_st(bool waitable, void (*guar)(void*, long, long, long))
    {
        start_task();
        g_waitable = waitable;
        T *t = new T("x", any_prio(), fn_of((T*)nullptr));
        glob<T>::t = t;
        auto g = std::make_shared<stub_group>();
        g->on_told = told;
        t->spParentGroup_ = g;
        const bool claimed = vf_nd_bool();
        raw(t->grabbed_) = claimed;
        vf_shared(&t->done_, 1, nullptr, guar);
        t->executeSingleThreaded();
        vf_assert(g->told == 0, "C05 single-threaded execution does not tell the parent group");
        vf_assert(raw(t->grabbed_), "C05 single-threaded execution leaves the task claimed");
        vf_assert(g_phase == (claimed ? 0 : waitable ? 5 : 4), "C05 single-threaded execution runs an unclaimed task completely and a claimed one not at all");
        vf_assert(g_fn == (claimed ? 0 : 1), "C05 single-threaded execution calls the function of an unclaimed task once");
        if (claimed) vf_cover("claimed"); else vf_cover("run");
    }
}

extern "C" {
//------------------------------------------------------------------ C04
void H_C04_tryGrab()
{
    start_task();
    stub_task *t = new stub_task(any_prio());
    raw(t->grabbed_) = vf_nd_bool();
    share_claim(t);
    const bool r = t->tryGrab();
    vf_assert(t->own == r, "C04 a claim succeeds exactly if this thread set the flag");
    vf_assert(t->claims <= 1, "C04 one claim per task");
    vf_assert(raw(t->grabbed_), "C04 after a claim attempt the task is claimed");
    const bool r2 = t->tryGrab();
    vf_assert(!r2 & (t->own == r), "C04 a claimed task cannot be claimed again");
    vf_assert(t->isGrabbed(), "C04 a claimed task is seen as claimed");
    if (r) vf_cover("claimed"); else vf_cover("not claimed");
}
void H_C04_handle_tryGrab()
{
    start_task();
    auto sp = std::make_shared<stub_task>(task_priority::normal);
    stub_task *t = sp.get();
    raw(t->grabbed_) = vf_nd_bool();
    share_claim(t);
    task_handle h{oqpi::task_sptr(sp)};
    const bool r = h.tryGrab();
    vf_assert(t->own == r, "C04 a claim succeeds exactly if this thread set the flag");
    vf_assert(!h.tryGrab(), "C04 a claimed task cannot be claimed again");
    if (r) vf_cover("claimed"); else vf_cover("not claimed");
}
}
namespace spec
{
    // a real task whose claim other threads compete for
    struct own_ctx
    {
        own_ctx(task_base *, const std::string &) {}
        void onAddedToGroup(const group_sptr &) {}
        void onPreExecute() {}
        void onPostExecute() {}
    };
    bool g_own; int g_claims;
    struct own_fn { int operator()() { vf_assert(g_own, "C04 only the thread that claimed a task runs it"); ++g_fn; vf_assert(g_fn == 1, "C04 the function of a task runs at most once"); return 7; } };
    void own_guar(void *, long o, long n, long)
    {
        vf_assert(n != 0, "C04 a claim is never given back");
        g_own = bool(g_own | (o == 0));
        g_claims += (o == 0) ? 1 : 0;
    }
    using own_task = task<task_type::waitable, oqpi::manual_reset_event, oqpi::task_context_container<own_ctx>, own_fn>;
    own_task *g_t;
    int g_result;
    // the event of a task: a token means that the task is done and its result is there
    void token_take() { raw(g_t->done_) = true; if (!g_own) g_t->result_ = g_result; }
    void token_post() { vf_assert(raw(g_t->done_), "C06 waiters are woken only once the task is done"); }
    inline own_task *shared_task()
    {
        start_task();
        g_own = false; g_claims = 0; g_result = vf_nd_i32();
        own_task *t = new own_task("x", any_prio(), own_fn());
        g_t = t;
        raw(t->grabbed_) = vf_nd_bool();
        vf_shared(&t->grabbed_, 1, claim_rely, own_guar);
        g_env = true;
        g_on_take = token_take; g_on_post = token_post;
        return t;
    }
    inline bool cand_fn0() { return (g_fn == 0) & (g_added == g_taken); }
    inline bool cand_own() { return (g_claims == (g_own ? 1 : 0)); }
    inline bool cand_result() { return imp(g_taken > 0, raw(g_t->done_) & (g_own | (g_t->result_ == g_result))); }
}
extern "C" {
void H_C04_activeWait()
{
    own_task *t = shared_task();
    vf_candidate(cand_fn0); vf_candidate(cand_own);
    t->activeWait();
    vf_assert(g_fn == (g_own ? 1 : 0), "C04 an active waiter runs the task exactly if it claimed it");
    vf_assert(g_claims <= 1, "C04 one claim per task");
    if (g_own) vf_cover("claimed"); else vf_cover("not claimed");
}
void H_C04_singleThreaded()
{
    own_task *t = shared_task();
    t->executeSingleThreaded();
    vf_assert(g_fn == (g_own ? 1 : 0), "C04 single-threaded execution runs the task exactly if it claimed it");
    if (g_own) vf_cover("claimed"); else vf_cover("not claimed");
}
void H_C04_others()
{
    // everything else leaves the claim alone
    own_task *t = shared_task();
    const int k = vf_fork_i32(nd_range(0, 5));
    if (k == 0) { t->isGrabbed(); vf_cover("isGrabbed"); }
    if (k == 1) { t->setDone(); vf_cover("setDone"); }
    if (k == 2) { t->setParentGroup(std::make_shared<stub_group>()); vf_cover("setParentGroup"); }
    if (k == 3) { t->wait(); vf_cover("wait"); }
    if (k == 4) { t->notifyParent(); vf_cover("notifyParent"); }
    if (k == 5) { t->isDone(); vf_cover("isDone"); }
    vf_assert((g_claims == 0) & (g_fn == 0), "C04 no other operation claims or runs the task");
}
void H_C04_execute_keeps_claim()
{
    own_task *t = shared_task();
    raw(t->grabbed_) = true; g_own = true;
    t->execute();
    vf_assert(raw(t->grabbed_), "C04 a claim is never given back");
    vf_assert(!t->tryGrab(), "C04 a task that ran cannot be claimed again");
    vf_cover("executed");
}

//------------------------------------------------------------------ C05
void H_C05_execute_int() { execute_claimed<int_task>(true, glob<int_task>::done_guar_int); }
void H_C05_execute_void() { execute_claimed<void_task>(true, glob<void_task>::done_guar); }
void H_C05_execute_fire_and_forget() { execute_claimed<ff_task>(false, glob<ff_task>::done_guar_int); }
void H_C05_execute_fire_and_forget_void() { execute_claimed<ff_void_task>(false, glob<ff_void_task>::done_guar); }
void H_C05_single_int() { execute_st<int_task>(true, glob<int_task>::done_guar_int); }
void H_C05_single_void() { execute_st<void_task>(true, glob<void_task>::done_guar); }
void H_C05_single_fire_and_forget() { execute_st<ff_task>(false, glob<ff_task>::done_guar_int); }
}
namespace spec
{
    struct arg_fn
    {
        int operator()(int a, const std::unique_ptr<int> &b, int &c)
        {
            ++g_fn;
            vf_assert((a == g_arg1) & (*b == g_arg2), "C05 the function gets the arguments bound when the task was made");
            vf_assert(&c == &g_value, "C05 the function gets the references bound when the task was made");
            return a;
        }
    };
}
extern "C" {
void H_C05_arguments()
{
    start_task();
    g_arg1 = vf_nd_i32(); g_arg2 = vf_nd_i32();
    arg_fn f;
    int a = g_arg1;
    auto t = oqpi::make_task<task_type::waitable, oqpi::manual_reset_event, oqpi::empty_task_context>("x", any_prio(), f, a, std::make_unique<int>(g_arg2), std::ref(g_value));
    a = a ^ 1;
    task_handle h(t);
    vf_assume(h.tryGrab());
    h.execute();
    vf_assert(g_fn == 1, "C05 the function is called exactly once");
    vf_assert(t->getResult() == g_arg1, "C05 the result is the value the function returned");
    vf_cover("executed");
}

//------------------------------------------------------------------ C06
void H_C06_wait()
{
    own_task *t = shared_task();
    vf_candidate(cand_fn0); vf_candidate(cand_result);
    t->wait();
    vf_assert(raw(t->done_), "C06 wait returns only once the task is done");
    vf_assert(g_fn == 0, "C06 wait does not run the task");
    vf_assert(g_added == g_taken, "C06 a finished task stays signalled for every waiter");
    vf_cover("returned");
}
void H_C06_activeWait()
{
    own_task *t = shared_task();
    vf_candidate(cand_fn0); vf_candidate(cand_own); vf_candidate(cand_result);
    t->activeWait();
    vf_assert(raw(t->done_), "C06 activeWait returns only once the task is done");
    vf_assert(g_fn == (g_own ? 1 : 0), "C06 activeWait runs the task exactly if it obtained the claim");
    if (g_own) vf_cover("run"); else vf_cover("waited");
}
void H_C06_waitForResult()
{
    own_task *t = shared_task();
    vf_candidate(cand_fn0); vf_candidate(cand_result);
    const int r = t->waitForResult();
    vf_assert(raw(t->done_), "C06 waitForResult returns only once the task is done");
    vf_assert(r == g_result, "C06 waitForResult returns what the function returned");
    vf_cover("returned");
}
void H_C06_handle_wait()
{
    start_task();
    auto sp = std::make_shared<stub_task>(task_priority::normal);
    task_handle h{oqpi::task_sptr(sp)};
    h.wait();
    vf_assert((sp->waits == 1) & (sp->activeWaits == 0) & (sp->runs == 0), "C06 waiting on a handle waits on its task");
    h.activeWait();
    vf_assert((sp->waits == 1) & (sp->activeWaits == 1) & (sp->runs == 0), "C06 actively waiting on a handle actively waits on its task");
    vf_cover("waited");
}
// a finished task keeps its result through moves
void H_C06_moved_result()
{
    start_task();
    int_task *t = new int_task("x", any_prio(), int_fn());
    raw(t->grabbed_) = true;
    glob<int_task>::t = t;
    vf_shared(&t->done_, 1, nullptr, glob<int_task>::done_guar_int);
    t->execute();
    vf_unshare(&t->done_);
    vf_assert(t->getResult() == g_value, "C06 the result is the value the function returned");
    int_task *u = new int_task(std::move(*t));
    vf_assert(u->getResult() == g_value, "C06 a moved task has the result");
    const int v = g_value;
    int_task *w = new int_task("y", any_prio(), int_fn());
    *w = std::move(*u);
    vf_assert(w->getResult() == v, "C06 a task moved by assignment has the result");
    vf_assert(w->isDone() & u->isGrabbed(), "C06 a moved task is done");
    vf_cover("moved");
}
struct obs { static void done_order(void *, long order) { vf_assert(order >= ORD_ACQUIRE, "C06 seeing a task done makes its result visible"); } };
void H_C06_done_is_published()
{
    start_task();
    int_task *t = new int_task("x", any_prio(), int_fn());
    raw(t->done_) = vf_nd_bool();
    const bool d = raw(t->done_);
    vf_shared_o(&t->done_, 1, obs::done_order, nullptr);
    vf_assert(t->isDone() == d, "C06 isDone tells whether the task is done");
    vf_cover("asked");
}

//------------------------------------------------------------------ C26
void H_C26_fresh()
{
    start_task();
    const task_priority p = any_prio();
    stub_task *t = new stub_task(p);
    stub_task *u = new stub_task(p);
    vf_assert((t->getUID() != 0) & (u->getUID() != 0), "C26 an id is not zero");
    vf_assert(t->getUID() != u->getUID(), "C26 two tasks have different ids");
    vf_assert(!t->isGrabbed() & !t->isDone() & (t->getParentGroup() == nullptr), "C26 a new task is unclaimed, not done and without parent");
    vf_assert(t->getPriority() == p, "C26 a new task has the priority asked for");
    vf_cover("made");
}
}
namespace spec
{
    int g_ids; uint64_t g_id_old, g_id_new;
#ifdef VF_NATIVE
    inline long ID_MAX(long v) { return v + 1000; }        // statics survive an execution
#else
    inline long ID_MAX(long) { return LONG_MAX - 4; }
#endif
    void id_rely(void *p) { long &v = *static_cast<long*>(p); v = nd_lrange(v, ID_MAX(v)); }
    void id_guar(void *, long o, long n, long) { vf_assert(n > o, "C26 the source of ids only advances"); ++g_ids; g_id_old = o; g_id_new = n; }
}
extern "C" {
void H_C26_concurrent()
{
    start_task();
    new stub_task(any_prio());          // the source of ids exists
    g_ids = 0;
    vf_globals(8, id_rely, id_guar);
    stub_task *t = new stub_task(any_prio());
    vf_assert(g_ids == 1, "C26 an id is taken in one atomic step");
    vf_assert((t->uid_ >= g_id_old) & (t->uid_ < g_id_new), "C26 an id belongs to one task however many threads make tasks");
    vf_assert(t->uid_ != 0, "C26 an id is not zero");
    vf_cover("made");
}
void H_C26_move()
{
    start_task();
    int_task *t = new int_task("x", any_prio(), int_fn());
    raw(t->grabbed_) = vf_nd_bool(); raw(t->done_) = vf_nd_bool();
    auto g = std::make_shared<stub_group>();
    t->spParentGroup_ = g;
    const auto id = t->uid_; const bool gr = raw(t->grabbed_), dn = raw(t->done_); const task_priority p = t->priority_;
    const int ft = vf_nd_i32(), ct = vf_nd_i32(), et = vf_nd_i32(), res = vf_nd_i32();
    t->func_.tag = ft; t->rec_ctx::tag = ct; t->event_.tag = et; t->result_ = res;
    int_task *u = vf_nd_bool() ? new int_task("y", any_prio(), int_fn()) : nullptr;
    if (u) { *u = std::move(*t); vf_cover("assigned"); }
    else { u = new int_task(std::move(*t)); vf_cover("constructed"); }
    vf_assert((u->getUID() == id) & (u->getPriority() == p), "C26 moving a task transfers its id and priority");
    vf_assert((u->isGrabbed() == gr) & (u->isDone() == dn), "C26 moving a task transfers its claim and completion state");
    vf_assert((u->getParentGroup().get() == g.get()) & (g.use_count() == 2), "C26 moving a task transfers its parent");
    vf_assert((u->func_.tag == ft) & (u->rec_ctx::tag == ct), "C26 moving a task transfers its function and its context");
    vf_assert((u->event_.tag == et) & (u->result_ == res), "C26 moving a task transfers its result and what its waiters wait on");
}
void H_C26_move_self()
{
    start_task();
    int_task *t = new int_task("x", any_prio(), int_fn());
    const auto id = t->uid_;
    int_task &r = *t;
    *t = std::move(r);
    vf_assert((t->getUID() == id) & (id != 0), "C26 moving a task onto itself changes nothing");
    vf_cover("moved");
}

//------------------------------------------------------------------ C29
}
namespace spec
{
    inline std::shared_ptr<stub_task> a_task() { return std::make_shared<stub_task>(any_prio()); }
    inline task_handle any_handle(const std::shared_ptr<stub_task> &a) { return vf_nd_bool() ? task_handle(oqpi::task_sptr(a)) : task_handle(); }
}
extern "C" {
void H_C29_validity()
{
    start_task();
    task_handle e;
    vf_assert(!e.isValid(), "C29 a default handle is invalid");
    task_handle n{oqpi::task_sptr()};
    vf_assert(!n.isValid(), "C29 a handle to nothing is invalid");
    auto a = a_task();
    task_handle h{oqpi::task_sptr(a)};
    vf_assert(h.isValid() & (a.use_count() == 2), "C29 a handle to a task is valid and shares it");
    task_handle c(h);
    vf_assert(c.isValid() & h.isValid() & (a.use_count() == 3), "C29 a copy refers to the same task");
    vf_assert(c.spTask_.get() == a.get(), "C29 a copy refers to the same task");
    task_handle m(std::move(c));
    vf_assert(!c.isValid() & m.isValid() & (a.use_count() == 3) & (m.spTask_.get() == a.get()), "C29 a moved-from handle is invalid, the new one has the task");
    m.reset();
    vf_assert(!m.isValid() & h.isValid() & (a.use_count() == 2), "C29 a reset handle is invalid");
    vf_cover("all");
}
void H_C29_typed()
{
    start_task();
    auto t = std::make_shared<int_task>("x", any_prio(), int_fn());
    task_handle h(t);
    vf_assert(h.isValid() & (t.use_count() == 2) & (h.spTask_.get() == t.get()), "C29 a handle made from a task refers to it");
    vf_cover("made");
}
void H_C29_assign()
{
    start_task();
    auto a = a_task(), b = a_task();
    task_handle x = any_handle(a), y = any_handle(b);
    const bool xv = x.isValid(), yv = y.isValid();
    const int k = vf_fork_i32(nd_range(0, 3));
    if (k == 0)
    {
        x = y;
        vf_assert((x.isValid() == yv) & (y.isValid() == yv) & (x.spTask_ == y.spTask_), "C29 assignment makes both handles refer to the same task");
        vf_assert((a.use_count() == 1) & (b.use_count() == (yv ? 3 : 1)), "C29 assignment releases the former task");
        vf_cover("copy");
    }
    if (k == 1)
    {
        x = std::move(y);
        vf_assert((x.isValid() == yv) & !y.isValid() & imp(yv, x.spTask_.get() == b.get()), "C29 move assignment hands the task over");
        vf_assert((a.use_count() == 1) & (b.use_count() == (yv ? 2 : 1)), "C29 move assignment releases the former task");
        vf_cover("move");
    }
    if (k == 2)
    {
        task_handle &r = x; x = r;
        vf_assert((x.isValid() == xv) & (a.use_count() == (xv ? 2 : 1)) & imp(xv, x.spTask_.get() == a.get()), "C29 assigning a handle to itself changes nothing");
        vf_cover("self copy");
    }
    if (k == 3)
    {
        task_handle &r = x; x = std::move(r);
        vf_assert((x.isValid() == xv) & (a.use_count() == (xv ? 2 : 1)) & imp(xv, x.spTask_.get() == a.get()), "C29 assigning a handle to itself changes nothing");
        vf_cover("self move");
    }
}
void H_C29_lifetime()
{
    start_task();
    auto a = a_task();
    task_handle h{oqpi::task_sptr(a)};
    task_handle c(h);
    a.reset();
    vf_assert(*stub_task::destroyed() == 0, "C29 the task stays alive while a handle refers to it");
    h.reset();
    vf_assert(*stub_task::destroyed() == 0, "C29 the task stays alive while a handle refers to it");
    const int k = vf_fork_i32(nd_range(0, 2));
    if (k == 0) { c.reset(); vf_cover("reset"); }
    if (k == 1) { c = task_handle(); vf_cover("assigned"); }
    if (k == 2) { { task_handle d(std::move(c)); } vf_cover("destroyed"); }
    vf_assert(*stub_task::destroyed() == 1, "C29 the task is released when the last handle goes");
}
void H_C29_forward()
{
    start_task();
    auto a = a_task();
    raw(a->grabbed_) = vf_nd_bool(); raw(a->done_) = vf_nd_bool();
    auto g = std::make_shared<stub_group>();
    if (vf_nd_bool()) a->spParentGroup_ = g;
    task_handle h{oqpi::task_sptr(a)};
    const task_handle &ch = h;
    vf_assert(ch.isGrabbed() == raw(a->grabbed_), "C29 isGrabbed is that of the task");
    vf_assert(ch.isDone() == raw(a->done_), "C29 isDone is that of the task");
    vf_assert(ch.getPriority() == a->priority_, "C29 getPriority is that of the task");
    vf_assert(ch.getUID() == a->uid_, "C29 getUID is that of the task");
    vf_assert(&ch.getParentGroup() == &a->spParentGroup_, "C29 getParentGroup is that of the task");
    const bool was = raw(a->grabbed_);
    vf_assert((h.tryGrab() == !was) & raw(a->grabbed_), "C29 tryGrab is that of the task");
    a->own = true;
    const int k = vf_fork_i32(nd_range(0, 4));
    if (k == 0) { h.execute(); vf_cover("execute"); }
    if (k == 1) { h.executeSingleThreaded(); vf_cover("single"); }
    if (k == 2) { ch.wait(); vf_cover("wait"); }
    if (k == 3) { h.activeWait(); vf_cover("activeWait"); }
    if (k == 4) { h.setParentGroup(g); vf_cover("parent"); vf_assert(a->spParentGroup_ == g, "C29 setParentGroup is that of the task"); }
    vf_assert((a->runs == (k == 0)) & (a->stRuns == (k == 1)) & (a->waits == (k == 2)) & (a->activeWaits == (k == 3)) & (a->parentSet == (k == 4)), "C29 an operation on the handle is that operation on the task, once");
    vf_assert(h.isValid(), "C29 an operation leaves the handle valid");
}
}
