// C14, C15: the life of a worker thread; C17: registering workers
#include "group_model.h"
using namespace spec;
namespace spec
{
    using oqpi::worker_base; using oqpi::worker_config; using oqpi::worker_priority; using oqpi::thread_attributes;
    constexpr int PRIOS = int(task_priority::count);
    // ---------------------------------------------------------------- the thread, as the worker sees it
    bool g_in_thread;
    int  g_thread_starts, g_joins;
    bool g_joinable;
    void (*g_on_thread)(const thread_attributes&);
    struct stub_thread
    {
        bool on = false;
        stub_thread() {}
        template<typename F> stub_thread(const thread_attributes &a, F &&f)
        {
            ++g_thread_starts; on = true;
            if (g_on_thread) g_on_thread(a);
            f();
        }
        stub_thread(stub_thread &&o) : on(o.on) { o.on = false; }
        stub_thread &operator=(stub_thread &&o) { vf_assert(!on, "C15 a worker owns one thread at a time"); on = o.on; o.on = false; return *this; }
        bool joinable() const { return on; }
        void detach() { vf_assert(on, "C14 only a joinable thread is detached"); on = false; }
        void setPriority(oqpi::thread_priority) {}
        void setCoreAffinityMask(oqpi::core_affinity) {}
        unsigned long getId() const { return on ? 1 : 0; }
        unsigned long getNativeHandle() const { return on ? 1 : 0; }
        void join() { vf_assert(on, "C14 only a joinable thread is joined"); on = false; ++g_joins; }
    };
    // ---------------------------------------------------------------- the notifier
    int g_waits, g_tries, g_posts; bool g_try_answer;
    struct stub_notifier
    {
        bool wait() { ++g_waits; return true; }
        template<typename D> bool waitFor(const D &) { const bool got = vf_nd_bool(); if (got) ++g_waits; return got; }
        template<typename D> bool waitUntil(const D &d) { return waitFor(d); }
        void notify(int n) { g_posts += n > 0 ? n : 0; }
        void notifyAll() { g_posts += 1000; }
        bool isValid() const { return true; }
        bool tryWait() { ++g_tries; return g_try_answer; }
        void notifyOne() { ++g_posts; }
    };
    // ---------------------------------------------------------------- the life of the worker
    enum { NEW, READY, IDLE, ASKED, ACTIVE, PRE, RAN, POSTED, STOPPED };
    int  g_life;
    stub_task *g_cur; bool g_has;           // the task the worker got
    worker_base *g_owner;
    int g_made;                             // workers made
    const worker_config *g_config; int g_config_made; bool g_check_config;
    bool *g_running;
    inline void step(bool ok, int to, const char *what) { vf_assert(ok, what); g_life = to; }
    inline bool task_ok(const task_handle &h) { return g_has & (h.spTask_.get() == g_cur); }
    inline void check_config(worker_base *w)
    {
        const worker_config &c = w->getConfig();
        vf_assert(c.workerPrio == g_config->workerPrio, "C17 a worker carries the priorities it was registered with");
        vf_assert(c.count == g_config->count, "C17 a worker carries the configuration it was registered with");
        vf_assert(vf_streq(&c.threadAttributes.name_, &g_config->threadAttributes.name_), "C17 a worker carries the name it was registered with");
        vf_assert((c.threadAttributes.stackSize_ == g_config->threadAttributes.stackSize_) & (c.threadAttributes.coreAffinityMask_ == g_config->threadAttributes.coreAffinityMask_) & (c.threadAttributes.priority_ == g_config->threadAttributes.priority_), "C17 a worker carries the thread attributes it was registered with");
        vf_assert(w->getId() == (g_config->count > 1 ? g_config_made : -1), "C17 the workers of a configuration are numbered from 0, a single one has no number");
        vf_assert(g_config_made < g_config->count, "C17 no more workers are made than configured");
    }
    struct wctx
    {
        wctx(worker_base *o)
        {
            if (g_check_config) check_config(o); else g_owner = o;
            ++g_made; ++g_config_made;
        }
        void onStart() { step(g_life == NEW, READY, "C15 the start hook comes first, once"); }
        void onStop()
        {
            step((g_life == READY) | (g_life == POSTED) | ((g_life == ACTIVE) & !g_has), STOPPED, "C15 the stop hook comes last, once, after the task was finished");
            vf_assert(!g_has, "C14 a worker runs the task it got before it leaves");
            vf_assert(!*g_running, "C15 a worker goes on until it is asked to stop");
            vf_assert(g_owner->isAvailable(), "C15 no task is held when the worker stops");
        }
        void onIdle() { step((g_life == READY) | (g_life == POSTED) | ((g_life == ACTIVE) & !g_has), IDLE, "C15 the idle hook comes before asking for work, and not before the task got was run"); }
        void onActive() { step(g_life == ASKED, ACTIVE, "C15 the active hook follows the answer of the scheduler"); }
        void onPreExecute(const task_handle &h)
        {
            vf_assert(task_ok(h), "C15 the hooks get the task the worker got");
            step((g_life == ACTIVE) & g_has, PRE, "C15 the pre-execute hook follows the active hook");
        }
        void onPostExecute(const task_handle &h)
        {
            vf_assert(task_ok(h), "C15 the hooks get the task the worker got");
            step(g_life == RAN, POSTED, "C15 the post-execute hook follows the run of the task");
            g_has = false;
        }
    };
    using wctxs = oqpi::worker_context_container<wctx>;
    void runs(stub_task *)
    {
        vf_assert(g_has, "C14 a worker runs only a task it has");
        step(g_life == PRE, RAN, "C15 the task is run between its hooks");
    }
    // contract of scheduler::signalAvailableWorker, shown by H_ask and H_wait_* (sched.cpp)
    struct ask_sched
    {
        void signalAvailableWorker(worker_base &w)
        {
            vf_assert(&w == g_owner, "C15 a worker asks for itself");
            step(g_life == IDLE, ASKED, "C15 the idle hook precedes asking for work");
            vf_assert(w.isAvailable(), "C15 the handle is released before the worker asks for work again");
            if (vf_nd_bool())
            {
                g_cur->own = true; g_cur->runs = 0; raw(g_cur->grabbed_) = true; raw(g_cur->done_) = false;
                g_has = true;
                w.assign(unowned(g_cur));
            }
            else
            {
                g_has = false;
                *g_running = false;         // no task only when stopping, and the workers are told first (H_stop)
            }
        }
    };
    using worker_t = oqpi::worker<stub_thread, stub_notifier, ask_sched, wctxs>;
    worker_t *g_w;
    void run_rely(void *p) { bool &b = *static_cast<bool*>(p); b = bool(b & vf_nd_bool()); }
    inline bool cand_life() { return (g_life == READY) | (g_life == POSTED) | ((g_life == ACTIVE) & !g_has); }
    inline bool cand_running() { return imp((g_life == ACTIVE) & !g_has, !*g_running); }
    inline bool cand_avail() { return g_owner->isAvailable(); }
    inline bool cand_has() { return !g_has; }
    inline void zero()
    {
        start_group();
        g_in_thread = false; g_thread_starts = 0; g_joins = 0; g_joinable = false; g_on_thread = nullptr;
        g_waits = 0; g_tries = 0; g_posts = 0; g_try_answer = false;
        g_life = NEW; g_has = false; g_owner = nullptr; g_made = 0; g_config = nullptr; g_config_made = 0; g_check_config = false;
        g_cur = new stub_task(any_prio());
        g_on_execute = runs;
    }
    inline worker_config *any_config(int lo)
    {
        worker_config *c = new worker_config();
        vf_anystr(&c->threadAttributes.name_);
        c->threadAttributes.stackSize_ = uint32_t(vf_nd_i32()); c->threadAttributes.coreAffinityMask_ = oqpi::core_affinity(vf_nd_i32()); c->threadAttributes.priority_ = oqpi::thread_priority(nd_range(0, 5));
        c->workerPrio = worker_priority(nd_range(0, (1 << PRIOS) - 1));
#ifdef VF_NATIVE
        c->count = nd_range(lo, 24);
#else
        c->count = nd_range(lo, INT_MAX);
#endif
        return c;
    }
    inline void make_worker(int id)
    {
        g_config = any_config(1);
        g_w = new worker_t(*new ask_sched(), id, *g_config);
        g_running = &raw(g_w->running_);
    }
    inline void share_running() { vf_shared(&g_w->running_, 1, run_rely, nullptr); }
    inline void live()
    {
        vf_candidate(cand_life); vf_candidate(cand_running); vf_candidate(cand_avail); vf_candidate(cand_has);
        share_running();
    }
    std::string *g_want_name;
    void thread_made(const thread_attributes &a)
    {
        vf_assert(*g_running, "C15 the worker is marked running before its thread starts");
        vf_assert(vf_streq(&a.name_, g_want_name), "C17 the thread carries the name of the worker");
        vf_assert((a.stackSize_ == g_config->threadAttributes.stackSize_) & (a.coreAffinityMask_ == g_config->threadAttributes.coreAffinityMask_) & (a.priority_ == g_config->threadAttributes.priority_), "C17 the thread carries the attributes it was registered with");
        share_running();
    }
    inline int some_id()
    {
        return nd_range(0, 999);
    }
    inline void name_of(std::string *s, int id)
    {
        *s = g_config->threadAttributes.name_;
        if (id >= 0) *s += std::to_string(id);
    }
    // ---------------------------------------------------------------- registering
    struct reg_ctx : wctx { reg_ctx(worker_base *o) : wctx(o) {} };
    template<typename T> struct no_queue { void push(const T&) {} bool tryPop(T&) { return false; } bool empty() const { return true; } };
    using sched_t = oqpi::scheduler<no_queue>;
    using reg_worker = oqpi::worker<stub_thread, stub_notifier, sched_t, wctxs>;
    sched_t *g_s; long g_n0, g_kw; worker_base *g_old;
    int g_before[PRIOS];
    void old_slot(void *slot, long i, long isK)
    {
        if (!isK | (i < g_n0)) *static_cast<worker_base**>(slot) = g_old;
    }
    // lists of configurations: each one is registered once
    const worker_config *g_list; int g_listed;
    void one_registered(sched_t *, const worker_config &c)
    {
        vf_assert(&c == &g_list[g_listed], "C17 the configurations of a list are registered in order, once each");
        ++g_listed;
    }
    inline void config_of(worker_config *c, int count, int mask) { c->count = count; c->workerPrio = worker_priority(mask); }
    inline bool cand_made() { return g_made == g_config_made; }
    inline bool cand_old() { return imp(g_kw < g_n0, g_s->workers_[size_t(g_kw)].get() == g_old); }
    inline void reg_setup(int mask)
    {
        zero();
        g_s = new sched_t();
        g_check_config = false;
        worker_config *c = any_config(1);
        c->workerPrio = worker_priority(mask);
        g_config = c;
        g_old = new reg_worker(*g_s, 0, *g_config);
        g_made = 0; g_config_made = 0;
        g_n0 = some_count(0); vf_assume(g_n0 <= 1000000000);
        for (int i = 0; i < PRIOS; ++i) { g_before[i] = nd_range(0, 1000000000); g_s->workersPerPrio_[i] = g_before[i]; }
        g_check_config = true;
    }
}
extern "C" {
void H_run()
{
    zero(); make_worker(nd_range(0, 7));
    *g_running = vf_nd_bool();
    live();
    g_w->run();
    vf_assert(g_life == STOPPED, "C15 the stop hook is called when the worker leaves");
    vf_assert(!g_has, "C14 a worker runs the task it got before it leaves");
    vf_assert(g_w->isAvailable(), "C15 a stopped worker holds no task");
    vf_cover("stopped");
}
void H_worker_start()
{
    zero(); make_worker(some_id());
    g_want_name = new std::string();
    name_of(g_want_name, g_w->id_);
    vf_candidate(cand_life); vf_candidate(cand_running); vf_candidate(cand_avail); vf_candidate(cand_has);
    g_on_thread = thread_made;
    std::string *got = new std::string(g_w->getName());
    vf_assert(vf_streq(got, g_want_name), "C17 the name of a worker is that of its configuration, with its number if there are several");
    static_cast<worker_base*>(g_w)->start();
    vf_assert(g_thread_starts == 1, "C15 a started worker has one thread");
    vf_assert(g_w->thread_.joinable(), "C14 a started worker can be joined");
    vf_assert(g_life == STOPPED, "C15 the thread of a worker runs the worker");
    if (g_w->id_ >= 0) vf_cover("numbered"); else vf_cover("single");
}
void H_worker_stop()
{
    zero(); make_worker(0);
    *g_running = vf_nd_bool(); g_w->thread_.on = vf_nd_bool();
    worker_base *b = g_w;
    b->stop();
    vf_assert(!*g_running, "C14 a stopped worker leaves its loop");
    vf_assert(g_joins == 0, "C14 stopping a worker does not wait for it");
    vf_cover("stopped");
}
void H_worker_join()
{
    zero(); make_worker(0);
    const bool on = vf_nd_bool();
    g_w->thread_.on = on;
    worker_base *b = g_w;
    b->join();
    vf_assert(g_joins == (on ? 1 : 0), "C14 joining a worker joins its thread");
    if (on) vf_cover("joined"); else vf_cover("no thread");
}
void H_worker_wake()
{
    zero(); make_worker(0);
    g_try_answer = vf_nd_bool();
    worker_base *b = g_w;
    b->notify();
    vf_assert((g_posts == 1) & (g_waits == 0) & (g_tries == 0), "C13 notifying a worker releases one token");
    b->wait();
    vf_assert((g_posts == 1) & (g_waits == 1) & (g_tries == 0), "C13 a worker waits on its own token");
    const bool r = b->tryWait();
    vf_assert((r == g_try_answer) & (g_posts == 1) & (g_waits == 1) & (g_tries == 1), "C13 a worker polls its own token");
    vf_cover("done");
}
void H_worker_delete()
{
    zero(); make_worker(0);
    *g_running = false;
    worker_base *b = g_w;
    delete b;
    vf_assert(g_joins == 0, "C14 destroying a worker does not wait");
    vf_cover("done");
}
void H_C17_eligible()
{
    zero();
    worker_config *c = any_config(1);
    c->workerPrio = worker_priority(vf_nd_i32());
    const int p = vf_fork_i32(nd_range(0, PRIOS - 1));
    g_w = new worker_t(*new ask_sched(), 0, *c);
    const bool e = g_w->canWorkOnPriority(task_priority(p));
    vf_assert(e == (((int(c->workerPrio) >> p) & 1) != 0), "C17 a worker is eligible for exactly the priorities in its mask");
    vf_assert(oqpi::can_work_on_priority(c->workerPrio, task_priority(p)) == e, "C17 a worker is eligible for exactly the priorities in its mask");
    if (e) vf_cover("yes"); else vf_cover("no");
}
void H_C17_names()
{
    using P = worker_priority; using T = task_priority;
    const auto only = [](P m, std::initializer_list<T> l)
    {
        int x = 0; for (T t : l) x |= 1 << int(t);
        vf_assert(int(m) == x, "C17 the named masks contain the priorities they name");
    };
    only(P::wprio_high, {T::high}); only(P::wprio_above_normal, {T::above_normal}); only(P::wprio_normal, {T::normal});
    only(P::wprio_below_normal, {T::below_normal}); only(P::wprio_low, {T::low});
    only(P::wprio_any_normal, {T::above_normal, T::normal, T::below_normal});
    only(P::wprio_normal_or_low, {T::above_normal, T::normal, T::below_normal, T::low});
    only(P::wprio_normal_or_high, {T::above_normal, T::normal, T::below_normal, T::high});
    only(P::wprio_any, {T::high, T::above_normal, T::normal, T::below_normal, T::low});
    vf_assert(int(worker_config().workerPrio) == int(P::wprio_any), "C17 a default configuration covers all priorities");
    vf_assert(worker_config().count == 1, "C17 a default configuration is for one worker");
    vf_cover("done");
}
#ifndef VF_NATIVE
void H_C17_list()
{
    zero(); g_s = new sched_t();
    static worker_config l[3];
    g_list = l; g_listed = 0;
    vf_replace("oqpi::scheduler::registerWorker", reinterpret_cast<void*>(one_registered));
    if (vf_nd_bool()) g_s->registerWorkers<stub_thread, stub_notifier, wctxs>(l);
    else g_s->registerWorkers<stub_thread, stub_notifier>(l);
    vf_assert(g_listed == 3, "C17 every configuration of a list is registered");
    vf_cover("done");
}
#endif
void H_C17_default_context()
{
    zero(); g_s = new sched_t();
    worker_config l[2];
    config_of(&l[0], 2, 5); config_of(&l[1], 1, 6);
    if (vf_nd_bool()) g_s->registerWorkers<stub_thread, stub_notifier>(l);
    else { g_s->registerWorker<stub_thread, stub_notifier>(l[0]); g_s->registerWorker<stub_thread, stub_notifier>(l[1]); }
    vf_assert(g_s->workersTotalCount() == 3, "C17 the total count is raised by the number of workers");
    for (int p = 0; p < PRIOS; ++p)
        vf_assert(g_s->workersCount(task_priority(p)) == ((5 >> p) & 1) * 2 + ((6 >> p) & 1), "C17 the counts of exactly the priorities in the mask are raised");
    vf_assert((g_s->workers_[0]->getId() == 0) & (g_s->workers_[1]->getId() == 1) & (g_s->workers_[2]->getId() == -1), "C17 the workers of a configuration are numbered from 0, a single one has no number");
    vf_cover("done");
}
static void reg(int mask)
{
    reg_setup(mask);
    const int n = g_config->count;
    vf_assume(n <= 1000000000);
#ifdef VF_NATIVE
    g_n0 = 0; g_kw = nd_lrange(0, n - 1);
#else
    g_kw = nd_lrange(0, g_n0 + n - 1);
    vf_witness(g_kw);
    vf_vec(&g_s->workers_, sizeof(void*), g_n0, g_kw, old_slot);
#endif
    vf_candidate(cand_made); vf_candidate(cand_old);
    g_s->registerWorker<stub_thread, stub_notifier, wctxs>(*g_config);
    vf_assert(g_made == n, "C17 as many workers are made as configured");
    vf_assert(g_s->workersTotalCount() == g_n0 + n, "C17 the total count is raised by the number of workers");
    for (int p = 0; p < PRIOS; ++p)
        vf_assert(g_s->workersCount(task_priority(p)) == g_before[p] + ((int(g_config->workerPrio) >> p) & 1) * n, "C17 the counts of exactly the priorities in the mask are raised");
    worker_base *w = g_s->workers_[size_t(g_kw)].get();
    if (g_kw < g_n0) { vf_assert(w == g_old, "C17 the workers registered before stay"); vf_cover("old"); }
    else
    {
        vf_assert(w->getId() == (n > 1 ? int(g_kw - g_n0) : -1), "C17 the workers of a configuration are numbered from 0, a single one has no number");
        vf_assert(w->getPriority() == g_config->workerPrio, "C17 a worker carries the priorities it was registered with");
        vf_cover("new");
    }
}
void H_C17_register_0() { reg(0); }
void H_C17_register_1() { reg(1); }
void H_C17_register_2() { reg(2); }
void H_C17_register_3() { reg(3); }
void H_C17_register_4() { reg(4); }
void H_C17_register_5() { reg(5); }
void H_C17_register_6() { reg(6); }
void H_C17_register_7() { reg(7); }
void H_C17_register_8() { reg(8); }
void H_C17_register_9() { reg(9); }
void H_C17_register_10() { reg(10); }
void H_C17_register_11() { reg(11); }
void H_C17_register_12() { reg(12); }
void H_C17_register_13() { reg(13); }
void H_C17_register_14() { reg(14); }
void H_C17_register_15() { reg(15); }
void H_C17_register_16() { reg(16); }
void H_C17_register_17() { reg(17); }
void H_C17_register_18() { reg(18); }
void H_C17_register_19() { reg(19); }
void H_C17_register_20() { reg(20); }
void H_C17_register_21() { reg(21); }
void H_C17_register_22() { reg(22); }
void H_C17_register_23() { reg(23); }
void H_C17_register_24() { reg(24); }
void H_C17_register_25() { reg(25); }
void H_C17_register_26() { reg(26); }
void H_C17_register_27() { reg(27); }
void H_C17_register_28() { reg(28); }
void H_C17_register_29() { reg(29); }
void H_C17_register_30() { reg(30); }
void H_C17_register_31() { reg(31); }
}
