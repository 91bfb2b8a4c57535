// C11-C14 (dispatch, submission, wake-ups, stopping), C15 (worker life cycle), C17 (registration), C30 (idle)
#include "group_model.h"
using namespace spec;
namespace spec
{
    using oqpi::worker_base; using oqpi::worker_config; using oqpi::worker_priority;
    constexpr int PRIOS = int(task_priority::count);

    // ---------------------------------------------------------------- queues: contract of a concurrent queue (C18)
    int  g_pushes, g_push_prio;         // submissions
    const task_base *g_pushed;
    int  g_mask;                        // priorities the worker in question may work on
    int  g_empty_seen;                  // priorities found empty since the last token
    bool g_saw_running, g_saw_stopped;
    bool g_popped;                      // a popped task whose fate is open
    bool g_seen_undone, g_seen_done;    // last look at whether that task is done
    bool g_frozen; int g_full;          // queues that are not empty, when nothing changes
    stub_task *g_cur;                   // the popped task
    bool g_sched_running();
    void fate_known()
    {
        // a task is dropped only because somebody else claimed it or it is done
        vf_assert(imp(g_popped, (!g_cur->own & raw(g_cur->grabbed_)) | g_seen_done), "C11 a popped task is not lost");
        g_popped = false;
    }
    bool g_looking; bool look(int p);
    template<typename T> struct stub_queue
    {
        int index = -1;
        int prio() const { return index; }
        void push(const T &h) { record(h); }
        void push(T &&h) { record(h); }
        void record(const T &h)
        {
            ++g_pushes; g_push_prio = prio(); g_pushed = h.spTask_.get();
            vf_assert(h.isValid(), "C12 only valid tasks are queued");
        }
        bool tryPop(T &v)
        {
            fate_known();
            const int p = prio();
            vf_assert((g_mask >> p) & 1, "C11 a worker takes only tasks of its priorities");
            const int higher = g_mask & ((1 << p) - 1);
            vf_assert((g_empty_seen & higher) == higher, "C11 a queue is looked at only after the higher ones were found empty");
            if (vf_nd_bool())
            {
                g_empty_seen &= ~(1 << p);
                // the oldest task of the queue: any task, claimed or not, done or not
                g_cur->own = false; g_cur->claims = 0; g_cur->runs = 0;
                raw(g_cur->grabbed_) = vf_nd_bool(); raw(g_cur->done_) = vf_nd_bool();
                g_popped = true; g_seen_undone = false; g_seen_done = false;
                v = unowned(g_cur);
                return true;
            }
            g_empty_seen |= 1 << p;
            return false;
        }
        bool empty() const { return g_frozen ? !((g_full >> prio()) & 1) : g_looking ? look(prio()) : seen_empty(); }
        bool seen_empty() const
        {
            const bool none = vf_nd_bool();
            if (none) g_empty_seen |= 1 << prio(); else g_empty_seen &= ~(1 << prio());
            return none;
        }
    };
    using sched_t = oqpi::scheduler<stub_queue>;
    sched_t *g_s;
    inline bool &running() { return raw(g_s->running_); }

    // ---------------------------------------------------------------- workers
    struct stub_worker : worker_base
    {
        stub_worker(const worker_config &c) : worker_base(-1, c) {}
        long idx = -1;
        int starts = 0, stops = 0, joins = 0, notifies = 0, notified_stopped = 0;
        void start() override;
        void stop() override;
        void join() override;
        void wait() override { vf_assert(false, "C13 only the worker itself waits"); }
        bool tryWait() override { return vf_nd_bool(); }
        void notify() override;
        void run() override {}
    };
    stub_worker *g_w; long g_nw, g_kw;      // the worker being followed
    void (*g_on_notify)(stub_worker*); void (*g_on_start)(stub_worker*); void (*g_on_stop)(stub_worker*); void (*g_on_join)(stub_worker*);
    inline void stub_worker::start() { ++starts; if (g_on_start) g_on_start(this); }
    inline void stub_worker::stop() { ++stops; if (g_on_stop) g_on_stop(this); }
    inline void stub_worker::join() { ++joins; if (g_on_join) g_on_join(this); }
    inline void stub_worker::notify() { ++notifies; if (g_on_notify) g_on_notify(this); }
    inline stub_worker *new_worker()
    {
        worker_config c;
        c.workerPrio = worker_priority(nd_range(0, (1 << PRIOS) - 1));
        return new stub_worker(c);
    }
    bool g_all_available;
    inline void worker_slot(void *slot, long i, long isK)
    {
        stub_worker *w = isK ? g_w : new_worker();
        w->idx = i;
        if (!g_all_available) { if (vf_nd_bool()) w->hTask_ = unowned(g_cur); }
        *static_cast<stub_worker**>(slot) = w;
    }
    inline void start_sched()
    {
        start_group();
        g_pushes = 0; g_push_prio = -1; g_pushed = nullptr; g_mask = 0; g_empty_seen = 0; g_saw_running = false; g_saw_stopped = false;
        g_popped = false; g_seen_undone = false; g_seen_done = false; g_frozen = false; g_full = 0; g_all_available = true;
        g_on_notify = nullptr; g_on_start = nullptr; g_on_stop = nullptr; g_on_join = nullptr;
        g_cur = new stub_task(task_priority::normal);
        g_s = new sched_t();
        for (int i = 0; i < PRIOS; ++i) g_s->pendingTasks_[i].index = i;
        g_w = new_worker();
        g_nw = 0; g_kw = -1;
    }
    // n workers, of which the one at g_kw is g_w
    inline void some_workers()
    {
        g_nw = some_count(1);
        g_kw = nd_lrange(0, g_nw - 1);
        vf_witness(g_kw);
        vf_vec(&g_s->workers_, sizeof(void*), g_nw, g_kw, worker_slot);
        for (int i = 0; i < PRIOS; ++i) g_s->workersPerPrio_[i] = nd_range(1, INT_MAX);
    }

    // ---------------------------------------------------------------- a worker asking for work
    struct asking_worker : worker_base
    {
        asking_worker(const worker_config &c) : worker_base(-1, c) {}
        void start() override {}
        void stop() override {}
        void join() override {}
        void notify() override { vf_assert(false, "C13 a worker does not notify itself"); }
        void run() override {}
        void token() { g_empty_seen = 0; g_saw_running = false; g_saw_stopped = false; }
        void wait() override
        {
            fate_known();
            vf_assert(g_saw_running & !g_saw_stopped, "C13 a worker blocks only after it saw the scheduler running since its last token");
            vf_assert((g_empty_seen & g_mask) == g_mask, "C13 a worker blocks only after it found all its queues empty since its last token");
            token();
        }
        bool tryWait() override
        {
            if (vf_nd_bool()) { token(); return true; }
            return false;
        }
    };
    void run_rely(void *p)
    {
        bool &b = *static_cast<bool*>(p);
        b = bool(b & vf_nd_bool());         // a stop may come at any time
        g_saw_running = b; g_saw_stopped = bool(g_saw_stopped | !b);
    }
    void run_guar(void *, long, long, long) { vf_assert(false, "C14 only start and stop change whether the scheduler runs"); }
    void curdone_rely(void *p)
    {
        bool &b = *static_cast<bool*>(p);
        b = bool(b | vf_nd_bool());
        g_seen_done = b; g_seen_undone = !b;
    }
    inline bool cand_open() { return !g_popped & (g_cur->claims <= 1); }
    inline bool cand_fate() { return imp(g_popped, (!g_cur->own & raw(g_cur->grabbed_)) | g_seen_done); }
    inline bool cand_masks() { return ((g_empty_seen & ~31) == 0); }
    asking_worker *g_aw;
    inline bool cand_avail() { return !g_aw->hTask_.isValid(); }
    inline void ask_setup(int mask)
    {
        start_sched();
        worker_config c;
        c.workerPrio = worker_priority(mask);
        g_mask = mask;
        g_aw = new asking_worker(c);
        running() = vf_nd_bool();
        vf_shared(&g_s->running_, 1, run_rely, run_guar);
        vf_shared(&g_cur->grabbed_, 1, claim_rely, claim_guar);
        vf_shared(&g_cur->done_, 1, curdone_rely, nullptr);
        vf_candidate(cand_open); vf_candidate(cand_fate); vf_candidate(cand_masks); vf_candidate(cand_avail);
    }
    inline bool answer(const task_handle &h)
    {
        if (h.isValid())
        {
            vf_assert(h.spTask_.get() == g_cur, "C11 a worker gets the task it popped");
            vf_assert(g_popped & g_cur->own, "C11 a worker gets only a task it claimed");
            vf_assert(g_seen_undone, "C11 a worker gets only a task that is not done");
            vf_assert(g_cur->runs == 0, "C11 dispatching does not run the task");
        }
        else
        {
            fate_known();
            vf_assert(g_saw_stopped, "C14 a worker gets no task only when the scheduler stops");
        }
        vf_assert(g_pushes == 0, "C11 dispatching queues nothing");
        return h.isValid();
    }
    // the contract of waitForNextTask (shown by H_wait_*): what signalAvailableWorker may rely on
    task_handle wait_contract(sched_t *, worker_base &w)
    {
        vf_assert(&w == g_aw, "C11 a worker asks for itself");
        fate_known();
        g_empty_seen = nd_range(0, (1 << PRIOS) - 1); g_saw_running = vf_nd_bool();
        g_cur->claims = 0; g_cur->runs = 0;
        if (vf_nd_bool())
        {
            g_saw_stopped = true; running() = false;
            return task_handle();
        }
        g_saw_stopped = vf_nd_bool();
        raw(g_cur->grabbed_) = true; g_cur->own = true; g_cur->claims = 1;
        raw(g_cur->done_) = vf_nd_bool();
        g_popped = true; g_seen_undone = true; g_seen_done = false;
        return unowned(g_cur);
    }
    inline bool ask(int mask)
    {
        ask_setup(mask);
        vf_replace("oqpi::scheduler::waitForNextTask", reinterpret_cast<void*>(wait_contract));
        g_s->signalAvailableWorker(*g_aw);
        return answer(g_aw->hTask_);
    }
    template<typename S> inline auto ask1(S *s, int) -> decltype(bool(s->waitForNextTask(*g_aw).isValid()))
    {
        task_handle h = s->waitForNextTask(*g_aw);
        return answer(h);
    }
    inline bool ask1(void *, int) { vf_end(); }     // waitForNextTask has another interface now
    inline bool ask1(int mask) { ask_setup(mask); return ask1(g_s, 0); }
    inline bool ask2(int mask)
    {
        ask_setup(mask);
        g_s->signalAvailableWorker(*g_aw);
        return answer(g_aw->hTask_);
    }

    // ---------------------------------------------------------------- submitting
    task_priority g_resolved;               // priority of the nearest group that has one
    // up to the nearest group with a priority all groups inherit, what comes after it does not matter
    struct chain_group : stub_group { chain_group(task_priority p) : stub_group(p) {} };
    void set_parent(task_base *t);
    inline chain_group *inheriting()
    {
        const int p = nd_range(0, int(task_priority::inherit));
        vf_assume(p != int(task_priority::count));
        vf_assume(bool((p == int(g_resolved)) | (p == int(task_priority::inherit))));
        chain_group *g = new chain_group(task_priority(p));
        set_parent(g);
        return g;
    }
    inline chain_group *beyond() { return new chain_group(any_level()); }
#ifdef VF_NATIVE
    int g_depth;
    inline void set_parent(task_base *t)
    {
        if (t->priority_ != task_priority::inherit)
        {
            if (vf_nd_bool()) t->spParentGroup_ = group_sptr(group_sptr(), beyond());
            return;
        }
        vf_assume(++g_depth < 10);
        t->spParentGroup_ = group_sptr(group_sptr(), inheriting());
    }
#else
    void *make_inheriting() { return inheriting(); }
    void parent_of(void *p)
    {
        const task_base *t = reinterpret_cast<const task_base*>(static_cast<char*>(p) - offsetof(task_base, spParentGroup_));
        if (t->priority_ != task_priority::inherit)
        {
            if (vf_nd_bool()) new (p) group_sptr();
            else new (p) group_sptr(group_sptr(), beyond());
            return;
        }
        chain_group *g = inheriting();
        vf_kind(g, make_inheriting);
        new (p) group_sptr(group_sptr(), g);
    }
    inline void set_parent(task_base *t) { vf_lazy(&t->spParentGroup_, sizeof(group_sptr), parent_of); }
#endif
    bool g_add_claimed;                     // the task was claimed or done before
    void add_rely_claim(void *p) { claim_rely(p); }
    void add_rely_done(void *) { raw(g_cur->done_) = bool(raw(g_cur->done_) | (raw(g_cur->grabbed_) & vf_nd_bool())); }
    void add_guar(void *, long, long, long) { vf_assert(false, "C12 submitting neither claims nor finishes a task"); }
    void after_push(stub_worker *)
    {
        vf_assert(g_pushes == 1, "C13 no notification precedes the queueing");
    }
    inline bool eligible(const stub_worker *w, int p) { return (int(w->config_.workerPrio) >> p) & 1; }
    bool g_elig;
    inline bool cand_notified() { return g_w->notifies <= 1; }
    inline void add_setup()
    {
        start_sched();
        some_workers();
        g_resolved = task_priority(vf_fork_i32(int(any_level())));
        if (eligible(g_w, int(g_resolved))) g_elig = true; else g_elig = false;
        const bool inh = vf_nd_bool();
        g_cur->priority_ = inh ? task_priority::inherit : g_resolved;
#ifdef VF_NATIVE
        g_depth = 0;
#endif
        set_parent(g_cur);
        const bool c = vf_nd_bool();
        raw(g_cur->grabbed_) = c; raw(g_cur->done_) = bool(vf_nd_bool());
        g_add_claimed = raw(g_cur->grabbed_) | raw(g_cur->done_);
        vf_shared(&g_cur->grabbed_, 1, add_rely_claim, add_guar);
        vf_shared(&g_cur->done_, 1, add_rely_done, add_guar);
        g_on_notify = after_push;
        vf_candidate(cand_notified);
    }

    task_priority finishing(const task_handle *h)
    {
        const task_priority p = h->spTask_->priority_;
        raw(g_cur->grabbed_) = true; raw(g_cur->done_) = true;
        new (&g_cur->spParentGroup_) oqpi::task_group_sptr();
        return p;
    }

    // ---------------------------------------------------------------- starting and stopping
    bool g_ran;
    void started(stub_worker *w)
    {
        vf_assert(running(), "C14 the scheduler is marked running before a worker is started");
        vf_assert(w->starts == 1, "C14 a worker is started once");
    }
    void start_guar(void *, long, long n, long)
    {
        vf_assert((n == 1) & (g_w->starts == 0), "C14 the scheduler is marked running before it starts a worker");
    }
    void stop_guar(void *, long, long n, long)
    {
        vf_assert(n == 0, "C14 stopping marks the scheduler stopped");
        vf_assert(g_w->stops >= 1, "C14 every worker is asked to stop before the scheduler is marked stopped");
    }
    void stop_notified(stub_worker *w)
    {
        vf_assert(!running(), "C14 workers are woken after the scheduler is marked stopped");
        w->notified_stopped = 1;
    }
    void stop_joined(stub_worker *)
    {
        vf_assert(!running(), "C14 workers are joined after the scheduler is marked stopped");
        vf_assert(g_w->stops >= 1, "C14 every worker is asked to stop before one is joined");
        vf_assert(g_w->notified_stopped == 1, "C14 every worker is woken before one is joined");
    }
    int g_wjoins;                           // joins of the worker followed (it dies with the scheduler)
    void joined_before_death(stub_worker *w)
    {
        stop_joined(w);
        if (w == g_w) ++g_wjoins;
    }
    inline bool cand_wjoins() { return g_wjoins == g_w->joins; }
    inline bool cand_counts() { return (g_w->starts <= 1) & (g_w->stops <= 1) & (g_w->joins <= 1) & (g_w->notifies <= 1); }
    inline bool cand_w() { return (g_w->notified_stopped == g_w->notifies); }
    inline void expect_stop()
    {
        vf_shared(&g_s->running_, 1, nullptr, stop_guar);
        g_on_notify = stop_notified; g_on_join = stop_joined;
        vf_candidate(cand_counts); vf_candidate(cand_w);
    }
    inline void stopped()
    {
        vf_assert(!running(), "C14 a stopped scheduler is not running");
        vf_assert(g_w->joins >= 1, "C14 stopping joins every worker");
        vf_assert(g_w->starts == 0, "C14 stopping starts nobody");
    }

    // ---------------------------------------------------------------- idle
    inline void some_state()
    {
        g_frozen = true;
        g_full = nd_range(0, (1 << PRIOS) - 1);
        g_w->hTask_ = vf_nd_bool() ? unowned(g_cur) : task_handle();
    }
    // looks of waitUntilIdle: queues looked at and found empty since the last sleep (the others: all of them at once)
    int  g_looked, g_looked_empty;
    long g_period, g_to_sleep;              // requested period, what is left of it to sleep before the next look
    long g_first;                           // the time the call began
    const int ALL = (1 << PRIOS) - 1;
    bool g_idle;                            // the scheduler has been seen idle since the last sleep
    inline bool looked_idle() { return g_idle; }
    inline bool cand_sleep() { return bool((g_to_sleep >= 0) & (g_to_sleep <= g_period)) ; }
    inline bool cand_look() { return (g_looked != 0) | ((g_to_sleep == g_period) & !g_idle); }
    inline bool cand_seen() { return (g_looked == ALL) & !g_idle & (g_to_sleep == g_period); }
    inline bool cand_empty() { return bool(((g_looked | g_looked_empty) == g_looked) & ((g_looked & ~ALL) == 0)); }
    bool look(int p)
    {
        vf_assert(!((g_looked >> p) & 1), "C30 the scheduler is looked at again only after the whole period");
        g_looked |= 1 << p; g_to_sleep = g_period;
        const bool e = vf_nd_bool();
        g_looked_empty |= int(e) << p; g_idle = g_looked_empty == ALL;
        return e;
    }
    // contract of isIdle
    bool idle_look(const void *)
    {
        vf_assert(g_looked == 0, "C30 the scheduler is looked at again only after the whole period");
        const bool e = vf_nd_bool();
        g_looked = ALL; g_idle = e; g_to_sleep = g_period;
        return e;
    }
    int sleep_ns(const struct timespec *req, struct timespec *rem)
    {
        vf_assert((req->tv_sec >= 0) & (req->tv_nsec >= 0) & (req->tv_nsec < 1000000000L), "C30 the time to sleep is well formed");
        const long want = req->tv_sec * 1000000000L + req->tv_nsec;
        vf_assert((want == g_to_sleep) & (want > 0), "C30 the thread sleeps for what is left of the period");
        if (vf_nd_bool())
        {
            const long s = nd_lrange(0, (1L << 62) / 1000000000L), ns = nd_lrange(0, 999999999L);
            vf_assume((s * 1000000000L + ns > 0) & (s * 1000000000L + ns <= want));
            rem->tv_sec = s; rem->tv_nsec = ns;
            g_to_sleep = s * 1000000000L + ns;
            errno = EINTR;
            return -1;
        }
        g_to_sleep = 0; g_looked = 0; g_looked_empty = 0; g_idle = false;
        return 0;
    }
}
extern "C" int nanosleep(const struct timespec *req, struct timespec *rem) { return spec::sleep_ns(req, rem); }
extern "C" {
void H_wait_0() { ask1(0); vf_cover("stopped"); }
void H_wait_1() { if (ask1(1)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_2() { if (ask1(2)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_3() { if (ask1(3)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_4() { if (ask1(4)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_5() { if (ask1(5)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_6() { if (ask1(6)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_7() { if (ask1(7)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_8() { if (ask1(8)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_9() { if (ask1(9)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_10() { if (ask1(10)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_11() { if (ask1(11)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_12() { if (ask1(12)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_13() { if (ask1(13)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_14() { if (ask1(14)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_15() { if (ask1(15)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_16() { if (ask1(16)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_17() { if (ask1(17)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_18() { if (ask1(18)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_19() { if (ask1(19)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_20() { if (ask1(20)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_21() { if (ask1(21)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_22() { if (ask1(22)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_23() { if (ask1(23)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_24() { if (ask1(24)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_25() { if (ask1(25)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_26() { if (ask1(26)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_27() { if (ask1(27)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_28() { if (ask1(28)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_29() { if (ask1(29)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_30() { if (ask1(30)) vf_cover("task"); else vf_cover("stopped"); }
void H_wait_31() { if (ask1(31)) vf_cover("task"); else vf_cover("stopped"); }
// signalAvailableWorker down to the queues, without the contract of waitForNextTask: stands in when the work is split
// differently between the two (tried only if H_wait_* or H_ask does not go through)
void H_inl_0() { ask2(0); vf_cover("stopped"); }
void H_inl_1() { if (ask2(1)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_2() { if (ask2(2)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_3() { if (ask2(3)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_4() { if (ask2(4)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_5() { if (ask2(5)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_6() { if (ask2(6)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_7() { if (ask2(7)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_8() { if (ask2(8)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_9() { if (ask2(9)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_10() { if (ask2(10)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_11() { if (ask2(11)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_12() { if (ask2(12)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_13() { if (ask2(13)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_14() { if (ask2(14)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_15() { if (ask2(15)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_16() { if (ask2(16)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_17() { if (ask2(17)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_18() { if (ask2(18)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_19() { if (ask2(19)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_20() { if (ask2(20)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_21() { if (ask2(21)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_22() { if (ask2(22)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_23() { if (ask2(23)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_24() { if (ask2(24)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_25() { if (ask2(25)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_26() { if (ask2(26)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_27() { if (ask2(27)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_28() { if (ask2(28)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_29() { if (ask2(29)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_30() { if (ask2(30)) vf_cover("task"); else vf_cover("stopped"); }
void H_inl_31() { if (ask2(31)) vf_cover("task"); else vf_cover("stopped"); }
void H_ask() { if (ask(vf_fork_i32(nd_range(1, 3)))) vf_cover("task"); else vf_cover("stopped"); }
void H_add()
{
    add_setup();
    task_handle h = unowned(g_cur);
    task_handle r = g_s->add(h);
    vf_assert(r.isValid() & (r.spTask_.get() == g_cur), "C12 a handle to the same task is returned");
    vf_assert(h.isValid() & (h.spTask_.get() == g_cur), "C12 the handle given stays valid");
    vf_assert(g_pushes <= 1, "C12 a task is queued once");
    vf_assert(imp(g_add_claimed, g_pushes == 0), "C12 a task that is claimed or done is not queued");
    vf_assert(imp(!raw(g_cur->grabbed_) & !raw(g_cur->done_), g_pushes == 1), "C12 a task nobody claimed is queued");
    vf_assert((g_cur->claims == 0) & (g_cur->runs == 0), "C12 submitting does not run the task");
    if (g_pushes)
    {
        vf_assert((g_push_prio == int(g_resolved)) & (g_pushed == g_cur), "C12 the task is queued at its resolved priority");
        vf_assert(imp(g_elig, g_w->notifies >= 1), "C13 every eligible worker is notified of a new task");
        if (g_w->notifies) vf_cover("notified"); else vf_cover("not eligible");
    }
    else { vf_assert(g_w->notifies == 0, "C12 nobody is woken when nothing is queued"); vf_cover("dropped"); }
}
void H_add_invalid()
{
    add_setup();
    task_handle r = g_s->add(task_handle());
    vf_assert(!r.isValid(), "C12 an invalid handle is returned as it is");
    vf_assert((g_pushes == 0) & (g_w->notifies == 0), "C12 adding an invalid handle does nothing");
    vf_cover("invalid");
}
// A defect that is known and not repaired (known_findings.txt): a single schedule of two threads. Between the look of
// add() at the state of the task and its walk over the enclosing groups, an active waiter claims, runs and finishes the task.
void H_add_known_finished()
{
    add_setup();
    vf_unshare(&g_cur->grabbed_); vf_unshare(&g_cur->done_);
    vf_assume(!g_add_claimed); vf_assume(g_cur->priority_ == task_priority::inherit);
    vf_replace("oqpi::task_handle::getPriority", reinterpret_cast<void*>(finishing));
    g_s->add(unowned(g_cur));
    vf_cover("added");
    vf_assert(imp(g_pushes == 1, g_push_prio == int(g_resolved)), "C12 a task that is finished by an active waiter during add is queued at its resolved priority, if at all");
}
void H_start()
{
    start_sched();
    some_workers();
    vf_assert(!running(), "C14 a new scheduler is not running");
    vf_shared(&g_s->running_, 1, nullptr, start_guar);
    g_on_start = started;
    vf_candidate(cand_counts);
    g_s->start();
    vf_assert(running(), "C14 a started scheduler is running");
    vf_assert(g_w->starts == 1, "C14 starting starts every worker exactly once");
    vf_assert((g_w->stops == 0) & (g_w->joins == 0), "C14 starting stops nobody");
    vf_cover("started");
}
void H_stop()
{
    start_sched();
    some_workers();
    running() = true;
    expect_stop();
    g_s->stop();
    stopped();
    vf_cover("stopped");
}
void H_destroy()
{
    start_sched();
    some_workers();
    running() = vf_nd_bool();
    const bool r = running();
    expect_stop();
    g_wjoins = 0; g_on_join = joined_before_death; vf_candidate(cand_wjoins);
    g_s->~sched_t();
    vf_assert(imp(r, g_wjoins >= 1), "C14 destroying a running scheduler stops it and joins every worker");
    if (r) vf_cover("stopped"); else vf_cover("not running");
}
void H_idle()
{
    start_sched();
    g_all_available = vf_nd_bool();
    some_workers();
    some_state();
    const bool r = g_s->isIdle();
    vf_assert(imp(r, (g_full == 0) & !g_w->hTask_.isValid()), "C30 a scheduler with a queued task or a busy worker is not idle");
    vf_assert(imp(g_all_available & (g_full == 0) & !g_w->hTask_.isValid(), r), "C30 a scheduler without queued tasks and busy workers is idle");
    if (r) vf_cover("idle"); else vf_cover("busy");
}
void idle_setup()
{
    start_sched();
    g_looking = true; g_looked_empty = 0; g_looked = 0; g_idle = false; g_now = nd_lrange(0, 1L << 61); g_first = g_now;
    vf_candidate(cand_sleep); vf_candidate(cand_look); vf_candidate(cand_seen); vf_candidate(cand_empty);
    vf_replace("oqpi::scheduler::isIdle", reinterpret_cast<void*>(idle_look));
}
void idle_done(bool timed_out)
{
    vf_assert(looked_idle() | timed_out, "C30 waiting ends only when the scheduler was seen idle or the maximum time has passed");
    if (looked_idle()) vf_cover("idle"); else vf_cover("timeout");
    g_looking = false;
}
void H_wait_idle_ns()
{
    idle_setup();
    g_period = nd_lrange(1, 1L << 61); g_to_sleep = g_period;
    const long max = nd_lrange(-5, 1L << 61);
    g_s->waitUntilIdle(std::chrono::nanoseconds(g_period), std::chrono::nanoseconds(max));
    idle_done(g_now - g_first >= max);
}
void H_wait_idle_ms()
{
    idle_setup();
    const long p = nd_lrange(1, 1L << 40), max = nd_lrange(-5, 1L << 30);
    g_period = p * 1000000; g_to_sleep = g_period;
    g_s->waitUntilIdle(std::chrono::milliseconds(p), std::chrono::seconds(max));
    idle_done(g_now - g_first >= max * 1000000000L);
}
}
