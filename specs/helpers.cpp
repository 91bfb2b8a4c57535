// C03: parallel_for; C28: the scheduling helpers
#include "group_model.h"
using namespace spec;
namespace spec
{
    // ---------------------------------------------------------------- a functor under observation
    struct hrange { long first, last; } g_range;    // the range drawn last
    int  g_x, g_callsx;                             // index followed, calls for it since the range was drawn
    long g_ncalls;                                  // calls since the range was drawn
    int  g_batch;                                   // batch that runs (-1: the functor takes no batch number)
    bool g_has_range, g_exhausted, g_count_only;
    long g_total, g_totalx;                         // native only: all calls
    inline bool x_in() { return (g_range.first <= g_x) & (g_x < g_range.last); }
    inline void on_call(int b, int i)
    {
        ++g_total; g_totalx += (i == g_x) ? 1 : 0;
        if (g_count_only) return;
        vf_assert((g_range.first <= i) & (i < g_range.last), "C03 the functor is called for indices of the range drawn only");
        vf_assert((g_range.first <= i) & (i < g_range.last), "C28 the loop calls its function for indices of its range only");
        vf_assert(b == g_batch, "C03 the functor gets the number of its batch");
        ++g_ncalls; g_callsx += (i == g_x) ? 1 : 0;
    }
    inline void range_done()
    {
        if (g_count_only) return;
        vf_assert(g_callsx == (x_in() ? 1 : 0), "C03 the functor is called exactly once for each index of a range");
        vf_assert(g_callsx == (x_in() ? 1 : 0), "C28 the loop calls its function exactly once for each index of a range");
    }
    inline void draw(bool more, int first, int last)
    {
        g_range.first = more ? first : 0; g_range.last = more ? last : 0;
        g_callsx = 0; g_ncalls = 0;
    }
    inline bool cand_asc() { return g_callsx == (((g_range.first <= g_x) & (g_x < g_range.first + g_ncalls)) ? 1 : 0); }
    inline bool cand_desc() { return g_callsx == (((g_range.last - g_ncalls <= g_x) & (g_x < g_range.last)) ? 1 : 0); }
    inline bool cand_n() { return (g_ncalls >= 0) & (g_ncalls <= g_range.last - g_range.first); }
    inline bool cand_full() { return g_callsx == (x_in() ? 1 : 0); }
    inline bool cand_r() { return (g_range.first <= g_range.last) & (g_range.first >= INT_MIN) & (g_range.last <= INT_MAX); }

    struct fun1
    {
        int tag;
        void operator()(int i) const { vf_assert(tag == 77, "C03 the functor called is the one given"); vf_assert(tag == 77, "C28 the function called is the one given"); on_call(-1, i); }
    };
    struct fun2
    {
        int tag;
        void operator()(int b, int i) const { vf_assert(tag == 77, "C03 the functor called is the one given"); vf_assert(tag == 77, "C28 the function called is the one given"); on_call(b, i); }
    };
    // ---------------------------------------------------------------- any partitioner
    long g_copies;              // copies alive
    const void *g_original;
    struct stub_part : oqpi::base_partitioner
    {
        int alive;
        stub_part(int n, int b) : base_partitioner(n, b), alive(1) {}
        stub_part(const stub_part &o) : base_partitioner(o), alive(1)
        {
            vf_assert(o.alive == 1, "C03 no partitioner is used after its end");
            ++g_copies;
        }
        ~stub_part() { alive = 0; --g_copies; }
        bool getNextValidRange(int32_t &first, int32_t &last)
        {
            vf_assert(alive == 1, "C03 no partitioner is used after its end");
            vf_assert(this != g_original, "C03 the tasks draw from their shared copy of the partitioner");
            range_done();
            const bool more = vf_nd_bool();
#ifdef VF_NATIVE
            const int f = nd_range(-1000, 1000), l = nd_range(f + 1, f + 9);
#else
            const int f = vf_nd_i32(), l = vf_nd_i32();
            vf_assume(f < l);
#endif
            if (more) { first = f; last = l; }
            else g_exhausted = true;
            draw(more, f, l);
            return more;
        }
    };
    // ---------------------------------------------------------------- contexts, events and the scheduler
    long g_made[2], g_gmade[2]; int g_events;
    bool g_keep_last; task_base *g_lastTask; group_base *g_lastGroup;
    const std::string *g_tname, *g_gname;
    template<int N> struct tctx
    {
        tctx(task_base *t, const std::string &name)
        {
            if (g_tname) vf_assert(vf_streq(&name, g_tname), "C28 the task gets the name given");
            ++g_made[N];
            if (g_keep_last) g_lastTask = t;
        }
        void onAddedToGroup(const group_sptr &) {}
        void onPreExecute() {}
        void onPostExecute() {}
    };
    template<int N> struct gctx
    {
        gctx(group_base *g, const std::string &name)
        {
            if (g_gname) vf_assert(vf_streq(&name, g_gname), "C28 the group gets the name given");
            ++g_gmade[N]; g_lastGroup = g;
        }
        void onAddedToGroup(const group_sptr &) {}
        void onTaskAdded(const task_handle &) {}
        void onPreExecute() {}
        void onPostExecute() {}
    };
    template<int N> using tctxs = oqpi::task_context_container<tctx<N>>;
    template<int N> using gctxs = oqpi::group_context_container<gctx<N>>;
    struct rec_event
    {
        rec_event() { ++g_events; }
        rec_event(rec_event &&) {}
        rec_event &operator=(rec_event &&) { return *this; }
        bool wait() { return true; }
        template<typename D> bool waitFor(const D &) { return vf_nd_bool(); }
        template<typename D> bool waitUntil(const D &) { return vf_nd_bool(); }
        void reset() {}
        bool isValid() const { return true; }
        void notify() {}
    };
    struct wkctx { wkctx(oqpi::worker_base*) {} };
    using wkctxs = oqpi::worker_context_container<wkctx>;
    int g_hadds; task_base *g_hadded; int g_workers;
    long g_registered; bool g_wctx, g_started, g_stopped; int g_starts, g_stops;
    std::shared_ptr<task_base> *g_keep;
    void (*g_on_hadd)(task_base*);
    struct hsched
    {
        task_handle add(task_handle h)
        {
            vf_assert(h.isValid(), "C28 what is submitted is valid");
            ++g_hadds; g_hadded = h.spTask_.get();
            if (g_keep) *g_keep = h.spTask_;
            if (g_on_hadd) g_on_hadd(g_hadded);
            return h;
        }
        int workersCount(task_priority p) const
        {
            vf_assert(p == task_priority::normal, "C28 the workers counted are those for the priority of the loop");
            return g_workers;
        }
        int workersTotalCount() const { return g_workers + 3; }
        template<typename T, typename N, typename C> void registerWorker(const oqpi::worker_config &c)
        {
            vf_assert(g_starts == 0, "C28 workers are registered before the scheduler starts");
            vf_assert(c.workerPrio == oqpi::worker_priority::wprio_any, "C28 the default workers work on all priorities");
            vf_assert(c.threadAttributes.coreAffinityMask_ == oqpi::core_affinity::all_cores, "C28 the default workers may use all cores");
            vf_assert(c.count >= 1, "C28 workers are registered");
            vf_assert(std::is_same<C, wkctxs>::value == g_wctx, "C28 the workers get the context asked for");
            g_registered += c.count;
        }
        template<typename T, typename N> void registerWorker(const oqpi::worker_config &c) { registerWorker<T, N, oqpi::empty_worker_context>(c); }
        template<typename T, typename N, typename C, int K> void registerWorkers(const oqpi::worker_config (&c)[K]) { for (int i = 0; i < K; ++i) registerWorker<T, N, C>(c[i]); }
        template<typename T, typename N, int K> void registerWorkers(const oqpi::worker_config (&c)[K]) { for (int i = 0; i < K; ++i) registerWorker<T, N>(c[i]); }
        bool isIdle() const { return vf_nd_bool(); }
        template<typename A, typename B> void waitUntilIdle(const A &, const B &) const {}
        void start() { ++g_starts; }
        void stop() { ++g_stops; }
    };
    using H = oqpi::helpers<hsched, gctxs<0>, tctxs<0>, rec_event>;
    template<task_type T, int G> using pgroup = parallel_group<hsched, T, gctxs<G>>;
    template<task_type T, int G> using sgroup = sequence_group<hsched, T, gctxs<G>>;
    template<typename G> bool is_a(const void *o)
    {
        const long a = g_gmade[0], b = g_gmade[1]; const std::string *n = g_gname; group_base *l = g_lastGroup;
        g_gname = nullptr;
        G *r = new G(H::scheduler_, "r", task_priority::normal);
        g_gmade[0] = a; g_gmade[1] = b; g_gname = n; g_lastGroup = l;
        const bool same = *reinterpret_cast<void *const *>(o) == *reinterpret_cast<void *const *>(r);
        return same;
    }
    inline void hstart()
    {
        start_group();
        g_x = vf_nd_i32(); g_batch = -1; g_has_range = false; g_exhausted = false; g_count_only = false; g_total = 0; g_totalx = 0;
        draw(false, 0, 0);
        g_copies = 0; g_original = nullptr;
        g_made[0] = 0; g_made[1] = 0; g_gmade[0] = 0; g_gmade[1] = 0; g_events = 0;
        g_keep_last = false; g_lastTask = nullptr; g_lastGroup = nullptr; g_tname = nullptr; g_gname = nullptr;
        g_hadds = 0; g_hadded = nullptr; g_workers = 0; g_on_hadd = nullptr; g_keep = nullptr;
        g_registered = 0; g_wctx = false; g_starts = 0; g_stops = 0;
    }
    inline void body_cands()
    {
        vf_candidate(cand_asc); vf_candidate(cand_desc); vf_candidate(cand_n); vf_candidate(cand_full); vf_candidate(cand_r);
    }
    inline int some_elems()
    {
#ifdef VF_NATIVE
        return nd_range(-1, 9);
#else
        return vf_nd_i32();
#endif
    }
    inline int some_batches()
    {
#ifdef VF_NATIVE
        return nd_range(1, 9);
#else
        return nd_range(1, INT_MAX);
#endif
    }
    inline bool cand_count() { return (g_made[0] == 0) | (g_made[1] == 0); }

    // ---- tasks that are made carry the priority of the loop
    task_priority g_prio;
    template<int N> bool cand_prio()
    {
        if (g_made[0] + g_made[1] <= g_k) return true;
        return static_cast<pgroup<task_type::waitable, N>*>(g_lastGroup)->tasks_[size_t(g_k)].spTask_->priority_ == g_prio;
    }
    // ---- the group of a loop over any partitioner, and one arbitrary task of it
    extern bool g_abstract_group;
    template<typename F, int NT, int NG> void loop_group(bool takesBatch)
    {
        hstart(); g_abstract_group = true;
        const int elems = some_elems(), maxb = some_batches();
        stub_part *p = new stub_part(elems, maxb);
        g_original = p; g_copies = 0;
        vf_assume(elems > 0);
        const int n = elems < maxb ? elems : maxb;
        g_k = nd_lrange(0, n - 1);
        g_prio = any_prio();
        hsched sc;
        vf_candidate(cand_count); vf_candidate(cand_prio<NG>);
        std::string name("loop");
        auto &sp = *new auto(oqpi::make_parallel_for_task_group<task_type::waitable, rec_event, gctxs<NG>, tctxs<NT>>(sc, name, *p, g_prio, F{77}));
        vf_assert(sp != nullptr, "C03 a valid partitioner gives a group");
        vf_assert((g_made[NT] == n) & (g_made[1 - NT] == 0), "C03 one task is made per batch");
        vf_assert((g_gmade[NG] == 1) & (g_gmade[1 - NG] == 0), "C03 one group is made");
        vf_assert(g_hadds == 0, "C03 making the group submits nothing");
        vf_assert(long(sp->tasks_.size()) == n, "C03 the group holds one task per batch");
        vf_assert(raw_long(sp->activeTasksCount_) == n, "C03 the group accounts for one task per batch");
        vf_assert(sp->maxSimultaneousTasks_ <= 0, "C03 all batches may run at the same time");
        vf_assert(sp->getPriority() == g_prio, "C03 the group has the priority given");
        vf_assert(g_copies == 1, "C03 the tasks share one copy of the partitioner");
        task_base *t = sp->tasks_[size_t(g_k)].spTask_.get();
        vf_assert(t->getPriority() == g_prio, "C03 the tasks have the priority given");
        vf_assert(t->getParentGroup().get() == sp.get(), "C03 the tasks are bound to the group");
        vf_cover("made");
        // one task runs
        delete p;                                   // the partitioner given may be gone by now
        g_copies = 1;
        name = "gone";
        g_batch = takesBatch ? int(g_k) : -1;
        g_x = vf_nd_i32();
        body_cands();
        vf_assert(t->tryGrab(), "C03 the tasks made are not claimed");
        t->execute();
        range_done();
        vf_assert(g_exhausted, "C03 a task ends only when the partitioner is exhausted");
        vf_assert(g_hadds == 0, "C03 a task submits nothing");
        vf_cover("ran");
    }
    bool g_abstract_group;
    void empty_slot(void *, long, long) {}
    // ---- parallel_for
    int g_active_waits; group_base *g_waited;
    template<int NG> void on_submit(task_base *t)
    {
        vf_assert(t == g_lastGroup, "C03 what parallel_for submits is the group of the loop");
        vf_assert(g_hadds == 1, "C03 the group is submitted exactly once");
        auto g = static_cast<pgroup<task_type::waitable, NG>*>(static_cast<group_base*>(t));
        vf_assert(is_a<pgroup<task_type::waitable, NG>>(t), "C03 the group of the loop is a waitable parallel group");
        vf_assert(long(g->tasks_.size()) == g_n, "C03 the group is complete when it is submitted");
        vf_assert(g->getPriority() == g_prio, "C03 the group has the priority given");
    }
    // contract of parallel_group::activeWait: on return all tasks have run (C07)
    void active_wait(group_base *g)
    {
        vf_assert(g_hadds == 1, "C03 the group is submitted before it is waited for");
        ++g_active_waits; g_waited = g;
    }
    template<int NG> void expect_active_wait()
    {
        g_active_waits = 0; g_waited = nullptr;
        g_on_hadd = on_submit<NG>;
        vf_replace("oqpi::parallel_group::activeWait", reinterpret_cast<void*>(active_wait));
#ifndef VF_NATIVE
        g_noblock = true;           // the loop waits through the active wait of the group only
#endif
    }
    inline void waited(const char *)
    {
        vf_assert(g_hadds == 1, "C03 the group is submitted exactly once");
#ifndef VF_NATIVE
        vf_assert(g_active_waits >= 1, "C03 parallel_for waits actively for the group it submitted");
        vf_assert(g_waited == g_hadded, "C03 parallel_for waits actively for the group it submitted");
#endif
    }
    inline void nothing()
    {
        vf_assert((g_made[0] == 0) & (g_made[1] == 0) & (g_gmade[0] == 0) & (g_gmade[1] == 0), "C03 an empty loop makes no task");
        vf_assert(g_hadds == 0, "C03 an empty loop submits nothing");
        vf_assert((g_total == 0) & (g_active_waits == 0), "C03 an empty loop calls nothing and does not wait");
    }
    template<int NT, int NG> void loop_for()
    {
        hstart(); g_abstract_group = true;
        const int elems = some_elems(), maxb = some_batches();
        stub_part *p = new stub_part(elems, maxb);
        g_original = p; g_copies = 0;
        g_n = elems < maxb ? elems : maxb;
        g_k = -1;
        g_prio = any_prio();
        hsched sc;
        g_count_only = true;
        vf_candidate(cand_count);
        expect_active_wait<NG>();
        oqpi::parallel_for<rec_event, gctxs<NG>, tctxs<NT>>(sc, "loop", *p, g_prio, fun1{77});
        if (elems > 0) { waited("for"); vf_assert(g_gmade[NG] == 1, "C03 one group is made"); vf_cover("loop"); }
        else { nothing(); vf_cover("empty"); }
    }

    // ---------------------------------------------------------------- C28: tasks
    int g_called; int g_argsum;
    struct afun
    {
        int tag;
        int operator()(int a, int b) const { vf_assert(tag == 55, "C28 the task runs the function given"); ++g_called; g_argsum = a * 10 + b; return g_argsum; }
    };
    struct nfun
    {
        int tag;
        void operator()() const { vf_assert(tag == 55, "C28 the task runs the function given"); ++g_called; }
    };
    const std::string *g_name_arg;
    inline void tstart()
    {
        hstart(); g_abstract_group = false;
        g_called = 0; g_argsum = 0;
        g_prio = any_prio();
        g_tname = new std::string("some task");
        g_name_arg = g_tname;
        g_keep = new std::shared_ptr<task_base>();
        g_keep_last = true;
    }
    inline void task_is(task_base *t, bool waitable, int ctx, task_priority p)
    {
        vf_assert(t != nullptr, "C28 a task is made");
        vf_assert((g_made[ctx] == 1) & (g_made[1 - ctx] == 0) & (t == g_lastTask), "C28 one task is made, with the context asked for");
        vf_assert((g_gmade[0] == 0) & (g_gmade[1] == 0), "C28 no group is made for a task");
        vf_assert(g_events == (waitable ? 1 : 0), "C28 the task is waitable or not, as asked for");
        vf_assert(t->getPriority() == p, "C28 the task has the priority asked for");
        vf_assert(t->getParentGroup() == nullptr, "C28 the task belongs to no group yet");
        vf_assert(g_called == 0, "C28 making or scheduling a task does not run it");
    }
    inline void runs_once(task_base *t, bool args)
    {
        vf_assert(t->tryGrab(), "C28 the task is not claimed yet");
        t->execute();
        vf_assert(g_called == 1, "C28 the task runs the function given, once");
        vf_assert(!args | (g_argsum == 34), "C28 the function gets the arguments given");
        vf_cover("ran");
    }
    // made, not submitted
    template<typename P> void made(const P &sp, bool waitable, int ctx, task_priority p, bool args)
    {
        vf_assert(g_hadds == 0, "C28 making a task submits nothing");
        task_is(sp.get(), waitable, ctx, p);
        runs_once(sp.get(), args);
    }
    // made and submitted
    inline void scheduled(const task_handle *h, bool waitable, int ctx, task_priority p, bool args)
    {
        vf_assert(g_hadds == 1, "C28 the task is submitted exactly once");
        task_is(g_hadded, waitable, ctx, p);
        if (h) vf_assert(h->spTask_.get() == g_hadded, "C28 what is returned is what was submitted");
        runs_once(g_hadded, args);
    }
    // ---------------------------------------------------------------- C28: groups
    stub_task *g_t[4]; std::shared_ptr<task_base> *g_tsp[4];
    inline void gstart(int n)
    {
        hstart(); g_abstract_group = false;
        g_prio = any_prio();
        g_gname = new std::string("some group");
        g_keep = new std::shared_ptr<task_base>();
        g_keep_last = true;
        for (int i = 0; i < n; ++i)
        {
            g_tsp[i] = new std::shared_ptr<task_base>(std::make_shared<stub_task>(any_prio()));
            g_t[i] = static_cast<stub_task*>(g_tsp[i]->get());
        }
    }
    inline task_handle th(int i) { return task_handle(*g_tsp[i]); }
    inline task_base *nth(oqpi::task_group_base *, const std::vector<task_handle> &v, long i) { return v[size_t(i)].spTask_.get(); }
    template<typename G> void group_is(task_base *b, int ctx, task_priority p)
    {
        vf_assert(b != nullptr, "C28 a group is made");
        vf_assert((g_gmade[ctx] == 1) & (g_gmade[1 - ctx] == 0) & (b == g_lastGroup), "C28 one group is made, with the context asked for");
        vf_assert((g_made[0] == 0) & (g_made[1] == 0), "C28 no task is made for a group");
        vf_assert(is_a<G>(b), "C28 the group is of the kind and type asked for");
        vf_assert(b->getPriority() == p, "C28 the group has the priority asked for");
        vf_assert(b->getParentGroup() == nullptr, "C28 the group belongs to no group yet");
        vf_assert(!b->isGrabbed() & !b->isDone(), "C28 the group is fresh");
    }
    template<typename G> void holds_par(task_base *b, int n)
    {
        G *g = static_cast<G*>(static_cast<group_base*>(b));
        vf_assert((long(g->tasks_.size()) == n) & (raw_long(g->activeTasksCount_) == n), "C28 all tasks given are added, once");
        vf_assert(g->maxSimultaneousTasks_ <= 0, "C28 a fork is not limited");
        for (int i = 0; i < n; ++i)
        {
            vf_assert(g->tasks_[size_t(i)].spTask_.get() == g_t[i], "C28 the tasks are added in the order given");
            vf_assert(g_t[i]->getParentGroup().get() == b, "C28 the tasks are bound to the group");
        }
    }
    template<typename T> void drop_oldest(std::queue<T> &q) { q.pop(); }
    template<typename T> void drop_oldest(std::deque<T> &q) { q.pop_front(); }
    template<typename G> void holds_seq(task_base *b, int n)
    {
        G *g = static_cast<G*>(static_cast<group_base*>(b));
        vf_assert(long(g->tasks_.size()) == n, "C28 all tasks given are added, once");
        for (int i = 0; i < n; ++i)
        {
            vf_assert(g->tasks_.front().spTask_.get() == g_t[i], "C28 the tasks are added in the order given");
            vf_assert(g_t[i]->getParentGroup().get() == b, "C28 the tasks are bound to the group");
            drop_oldest(g->tasks_);
        }
    }
    inline void gsched(const task_handle &h)
    {
        vf_assert(g_hadds == 1, "C28 the group is submitted exactly once");
        vf_assert(h.spTask_.get() == g_hadded, "C28 what is returned is what was submitted");
    }
    int g_whole;                                    // tasks in the group at submission
    template<typename G> void whole_par(task_base *b)
    {
        vf_assert(long(static_cast<G*>(static_cast<group_base*>(b))->tasks_.size()) == g_whole, "C28 a group is complete when it is submitted");
    }
    template<typename F> void forked(int n, int ctx, bool waitable, F f)
    {
        gstart(n);
        g_whole = n;
        if (waitable) g_on_hadd = ctx ? whole_par<pgroup<task_type::waitable, 1>> : whole_par<pgroup<task_type::waitable, 0>>;
        else g_on_hadd = ctx ? whole_par<pgroup<task_type::fire_and_forget, 1>> : whole_par<pgroup<task_type::fire_and_forget, 0>>;
        f();
        vf_cover("done");
    }
    template<task_type T, int G> void fork_is(const task_handle &h, int n, task_priority p)
    {
        gsched(h);
        group_is<pgroup<T, G>>(g_hadded, G, p);
        holds_par<pgroup<T, G>>(g_hadded, n);
    }
    template<task_type T, int G> void seq_is(const task_handle &h, int n, task_priority p)
    {
        gsched(h);
        group_is<sgroup<T, G>>(g_hadded, G, p);
        holds_seq<sgroup<T, G>>(g_hadded, n);
    }
    // ---------------------------------------------------------------- C28: loops
    // contract of simple_partitioner::getNextValidRange; the partitioner it is called on has to be the one for the range
    long g_from, g_to, g_asked;
    bool part_contract(oqpi::simple_partitioner *p, int &first, int &last)
    {
        const oqpi::simple_partitioner r(int32_t(g_from), int32_t(g_to), g_workers);
        vf_assert((p->firstIndex_ == r.firstIndex_) & (p->lastIndex_ == r.lastIndex_) & (p->batchCount_ == r.batchCount_), "C28 the loop runs over the range given, in as many batches as there are workers");
        range_done();
        ++g_asked;
        const bool more = vf_nd_bool();
        const int f = vf_nd_i32(), l = vf_nd_i32();
        vf_assume((g_from <= f) & (f < l) & (l <= g_to));
        if (more) { first = f; last = l; }
        draw(more, f, l);
        return more;
    }
    template<int NG> void range_loop(bool zero, void (*go)(int, int))
    {
        hstart(); g_abstract_group = true;
        g_prio = task_priority::normal;
#ifdef VF_NATIVE
        g_from = zero ? 0 : nd_range(-20, 20); g_to = nd_range(int(g_from) - 1, int(g_from) + 20);
#else
        g_from = zero ? 0 : vf_nd_i32(); g_to = vf_nd_i32();
#endif
        vf_assume(g_to - g_from <= INT_MAX);
        vf_assume(g_to - g_from >= INT_MIN);
        g_workers = some_batches(); g_asked = 0;
        const long c = g_to - g_from;
        g_n = c < g_workers ? c : g_workers;
        g_k = c > 0 ? nd_lrange(0, g_n - 1) : 0;
        g_keep = new std::shared_ptr<task_base>();
        expect_active_wait<NG>();
#ifdef VF_NATIVE
        g_count_only = true;
#else
        vf_replace("oqpi::simple_partitioner::getNextValidRange", reinterpret_cast<void*>(part_contract));
#endif
        vf_candidate(cand_count); vf_candidate(cand_prio<NG>);
        go(int(g_from), int(g_to));
        if (c <= 0) { nothing(); vf_cover("empty"); return; }
        waited("loop");
        vf_assert((g_gmade[NG] == 1) & (g_made[NG] == g_n) & (g_made[1 - NG] == 0), "C28 the group and tasks of a loop get the contexts asked for");
        vf_cover("loop");
#ifdef VF_NATIVE
        vf_assert(g_total == c, "C28 the loop runs over the range given");
        vf_assert(g_totalx == (((g_from <= g_x) & (g_x < g_to)) ? 1 : 0), "C28 the loop runs over the range given");
#else
        auto g = static_cast<pgroup<task_type::waitable, NG>*>(g_lastGroup);
        task_base *t = g->tasks_[size_t(g_k)].spTask_.get();
        vf_assert(t->getPriority() == g_prio, "C28 the tasks of a loop have its priority");
        body_cands();
        vf_assert(t->tryGrab(), "C28 the tasks made are not claimed");
        t->execute();
        range_done();
        vf_assert(g_asked >= 1, "C28 the tasks draw from a simple partitioner");
        vf_cover("ran");
#endif
    }
    // a loop with a partitioner and a priority given
    template<int NG> void part_loop(void (*go)(const stub_part &))
    {
        hstart(); g_abstract_group = true;
        const int elems = some_elems(), maxb = some_batches();
        stub_part *p = new stub_part(elems, maxb);
        g_original = p; g_copies = 0;
        g_n = elems < maxb ? elems : maxb;
        g_k = elems > 0 ? nd_lrange(0, g_n - 1) : 0;
        g_prio = any_prio();
        g_keep = new std::shared_ptr<task_base>();
        expect_active_wait<NG>();
        vf_candidate(cand_count); vf_candidate(cand_prio<NG>);
#ifdef VF_NATIVE
        g_count_only = true;
#endif
        go(*p);
        if (elems <= 0) { nothing(); vf_cover("empty"); return; }
        waited("loop");
        vf_assert((g_gmade[NG] == 1) & (g_made[NG] == g_n) & (g_made[1 - NG] == 0), "C28 the group and tasks of a loop get the contexts asked for");
        vf_cover("loop");
#ifndef VF_NATIVE
        auto g = static_cast<pgroup<task_type::waitable, NG>*>(g_lastGroup);
        task_base *t = g->tasks_[size_t(g_k)].spTask_.get();
        vf_assert(t->getPriority() == g_prio, "C28 the tasks of a loop have its priority");
        body_cands();
        vf_assert(t->tryGrab(), "C28 the tasks made are not claimed");
        t->execute();
        range_done();
        vf_assert(g_exhausted, "C28 the tasks draw from the partitioner given");
        vf_cover("ran");
#endif
    }
    // a container under observation
    struct cont
    {
        int n; mutable int last; mutable int cell;
        size_t size() const { return size_t(n); }
        int &operator[](int i) const { last = i; return cell; }
    };
    cont *g_cont;
    struct efun
    {
        int tag;
        void operator()(int &e) const
        {
            vf_assert(tag == 77, "C28 the functor called is the one given");
            vf_assert(&e == &g_cont->cell, "C28 the functor gets the element of the container itself");
            on_call(-1, g_cont->last);
        }
    };
}
extern "C" {
#ifndef VF_NATIVE
void vf_on_vector(void *v)
{
    if (!g_abstract_group) return;
    vf_witness(g_k);
    vf_vec(v, sizeof(task_handle), 0, g_k, empty_slot);
}
#endif
void H_C03_tasks() { loop_group<fun1, 0, 1>(false); }
void H_C03_tasks_batch() { loop_group<fun2, 1, 0>(true); }
void H_C03_for() { loop_for<0, 1>(); }
void H_C03_invalid()
{
    hstart(); g_active_waits = 0;
    const int elems = some_elems(), maxb = some_batches();
    stub_part *p = new stub_part(elems, maxb);
    vf_assume(elems <= 0);
    hsched sc;
    auto sp = oqpi::make_parallel_for_task_group<task_type::fire_and_forget, rec_event, gctxs<0>, tctxs<0>>(sc, "n", *p, any_prio(), fun1{77});
    vf_assert(sp == nullptr, "C03 an invalid partitioner gives no group");
    nothing();
    vf_cover("done");
}
void H_C28_schedule_task_w_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto r = H::schedule_task<oqpi::task_type::waitable, tctxs<1>>(*g_name_arg, g_prio, f, a, b); scheduled(&r, true, 1, g_prio, true); }
void H_C28_schedule_task_f_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto r = H::schedule_task<oqpi::task_type::fire_and_forget, tctxs<1>>(*g_name_arg, g_prio, f, a, b); scheduled(&r, false, 1, g_prio, true); }
void H_C28_make_task_w_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::waitable, tctxs<1>>(*g_name_arg, g_prio, f, a, b); made(sp, true, 1, g_prio, true); }
void H_C28_make_task_w_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::waitable>(*g_name_arg, g_prio, f, a, b); made(sp, true, 0, g_prio, true); }
void H_C28_make_task_w_ctx() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::waitable, tctxs<1>>(*g_name_arg, f, a, b); made(sp, true, 1, oqpi::task_priority::normal, true); }
void H_C28_make_task_w() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::waitable>(*g_name_arg, f, a, b); made(sp, true, 0, oqpi::task_priority::normal, true); }
void H_C28_make_task_f_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::fire_and_forget, tctxs<1>>(*g_name_arg, g_prio, f, a, b); made(sp, false, 1, g_prio, true); }
void H_C28_make_task_f_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::fire_and_forget>(*g_name_arg, g_prio, f, a, b); made(sp, false, 0, g_prio, true); }
void H_C28_make_task_f_ctx() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::fire_and_forget, tctxs<1>>(*g_name_arg, f, a, b); made(sp, false, 1, oqpi::task_priority::normal, true); }
void H_C28_make_task_f() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<oqpi::task_type::fire_and_forget>(*g_name_arg, f, a, b); made(sp, false, 0, oqpi::task_priority::normal, true); }
void H_C28_schedule_task_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto r = H::schedule_task<tctxs<1>>(*g_name_arg, g_prio, f, a, b); scheduled(&r, true, 1, g_prio, true); }
void H_C28_schedule_task_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto r = H::schedule_task(*g_name_arg, g_prio, f, a, b); scheduled(&r, true, 0, g_prio, true); }
void H_C28_schedule_task_ctx() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto r = H::schedule_task<tctxs<1>>(*g_name_arg, f, a, b); scheduled(&r, true, 1, oqpi::task_priority::normal, true); }
void H_C28_schedule_task_default() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto r = H::schedule_task(*g_name_arg, f, a, b); scheduled(&r, true, 0, oqpi::task_priority::normal, true); }
void H_C28_schedule_task_noargs() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto r = H::schedule_task(*g_name_arg, g_prio, nfun{55}); scheduled(&r, true, 0, g_prio, false); }
void H_C28_fire_and_forget_task_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; H::fire_and_forget_task<tctxs<1>>(*g_name_arg, g_prio, f, a, b); scheduled(nullptr, false, 1, g_prio, true); }
void H_C28_fire_and_forget_task_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; H::fire_and_forget_task(*g_name_arg, g_prio, f, a, b); scheduled(nullptr, false, 0, g_prio, true); }
void H_C28_fire_and_forget_task_ctx() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; H::fire_and_forget_task<tctxs<1>>(*g_name_arg, f, a, b); scheduled(nullptr, false, 1, oqpi::task_priority::normal, true); }
void H_C28_fire_and_forget_task_default() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; H::fire_and_forget_task(*g_name_arg, f, a, b); scheduled(nullptr, false, 0, oqpi::task_priority::normal, true); }
void H_C28_fire_and_forget_task_noargs() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; H::fire_and_forget_task(*g_name_arg, g_prio, nfun{55}); scheduled(nullptr, false, 0, g_prio, false); }
void H_C28_make_task_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<tctxs<1>>(*g_name_arg, g_prio, f, a, b); made(sp, true, 1, g_prio, true); }
void H_C28_make_task_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task(*g_name_arg, g_prio, f, a, b); made(sp, true, 0, g_prio, true); }
void H_C28_make_task_ctx() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task<tctxs<1>>(*g_name_arg, f, a, b); made(sp, true, 1, oqpi::task_priority::normal, true); }
void H_C28_make_task_default() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task(*g_name_arg, f, a, b); made(sp, true, 0, oqpi::task_priority::normal, true); }
void H_C28_make_task_noargs() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task(*g_name_arg, g_prio, nfun{55}); made(sp, true, 0, g_prio, false); }
void H_C28_make_task_item_ctx_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task_item<tctxs<1>>(*g_name_arg, g_prio, f, a, b); made(sp, false, 1, g_prio, true); }
void H_C28_make_task_item_prio() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task_item(*g_name_arg, g_prio, f, a, b); made(sp, false, 0, g_prio, true); }
void H_C28_make_task_item_ctx() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task_item<tctxs<1>>(*g_name_arg, f, a, b); made(sp, false, 1, oqpi::task_priority::normal, true); }
void H_C28_make_task_item_default() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task_item(*g_name_arg, f, a, b); made(sp, false, 0, oqpi::task_priority::normal, true); }
void H_C28_make_task_item_noargs() { tstart(); const int a = 3, b = 4; const afun f{55}; (void)a; (void)b; (void)f; auto sp = H::make_task_item(*g_name_arg, g_prio, nfun{55}); made(sp, false, 0, g_prio, false); }
void H_C28_schedule_handle()
{
    gstart(1);
    g_on_hadd = nullptr;
    if (vf_nd_bool())
    {
        const task_handle h = th(0);
        const task_handle r = H::schedule_task(h);
        vf_assert((r.spTask_.get() == g_t[0]) & (h.spTask_.get() == g_t[0]), "C28 what is returned is what was submitted");
    }
    else
    {
        const task_handle r = H::schedule_task(th(0));
        vf_assert(r.spTask_.get() == g_t[0], "C28 what is returned is what was submitted");
    }
    vf_assert((g_hadds == 1) & (g_hadded == g_t[0]), "C28 the task is submitted exactly once");
    vf_assert((g_made[0] + g_made[1] == 0) & (g_t[0]->runs == 0), "C28 scheduling a task makes no other and does not run it");
    vf_cover("done");
}
void H_C28_fork_w00_3() { forked(3, 0, true, [] { const task_handle r = H::fork_tasks<oqpi::task_type::waitable>(*g_gname, th(0), th(1), th(2)); fork_is<oqpi::task_type::waitable, 0>(r, 3, oqpi::task_priority::normal); }); }
void H_C28_seq_w00_3() { gstart(3); const task_handle r = H::sequence_tasks<oqpi::task_type::waitable>(*g_gname, th(0), th(1), th(2)); seq_is<oqpi::task_type::waitable, 0>(r, 3, oqpi::task_priority::normal); vf_cover("done"); }
void H_C28_fork_w01_1() { forked(1, 0, true, [] { const task_handle r = H::fork_tasks<oqpi::task_type::waitable>(*g_gname, g_prio, th(0)); fork_is<oqpi::task_type::waitable, 0>(r, 1, g_prio); }); }
void H_C28_seq_w01_1() { gstart(1); const task_handle r = H::sequence_tasks<oqpi::task_type::waitable>(*g_gname, g_prio, th(0)); seq_is<oqpi::task_type::waitable, 0>(r, 1, g_prio); vf_cover("done"); }
void H_C28_fork_w01_2() { forked(2, 0, true, [] { const task_handle r = H::fork_tasks<oqpi::task_type::waitable>(*g_gname, g_prio, th(0), th(1)); fork_is<oqpi::task_type::waitable, 0>(r, 2, g_prio); }); }
void H_C28_seq_w01_2() { gstart(2); const task_handle r = H::sequence_tasks<oqpi::task_type::waitable>(*g_gname, g_prio, th(0), th(1)); seq_is<oqpi::task_type::waitable, 0>(r, 2, g_prio); vf_cover("done"); }
void H_C28_fork_w01_4() { forked(4, 0, true, [] { const task_handle r = H::fork_tasks<oqpi::task_type::waitable>(*g_gname, g_prio, th(0), th(1), th(2), th(3)); fork_is<oqpi::task_type::waitable, 0>(r, 4, g_prio); }); }
void H_C28_seq_w01_4() { gstart(4); const task_handle r = H::sequence_tasks<oqpi::task_type::waitable>(*g_gname, g_prio, th(0), th(1), th(2), th(3)); seq_is<oqpi::task_type::waitable, 0>(r, 4, g_prio); vf_cover("done"); }
void H_C28_make_group_w0()
{
    gstart(0);
    {
        const auto limit = nd_range(0, 9);
        auto sp = H::make_parallel_group<oqpi::task_type::waitable>(*g_gname, g_prio, 5, limit);
        group_is<pgroup<oqpi::task_type::waitable, 0>>(sp.get(), 0, g_prio);
        vf_assert(sp->maxSimultaneousTasks_ == limit, "C28 a group has the limit asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_parallel_group<oqpi::task_type::waitable>(*g_gname);
        group_is<pgroup<oqpi::task_type::waitable, 0>>(sp.get(), 0, task_priority::normal);
        vf_assert(sp->maxSimultaneousTasks_ <= 0, "C28 a group is not limited unless asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::waitable>(*g_gname, g_prio);
        group_is<sgroup<oqpi::task_type::waitable, 0>>(sp.get(), 0, g_prio);
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::waitable>(*g_gname);
        group_is<sgroup<oqpi::task_type::waitable, 0>>(sp.get(), 0, task_priority::normal);
    }
    vf_cover("done");
}
void H_C28_seq_w10_3() { gstart(3); const task_handle r = H::sequence_tasks<oqpi::task_type::waitable, gctxs<1>>(*g_gname, th(0), th(1), th(2)); seq_is<oqpi::task_type::waitable, 1>(r, 3, oqpi::task_priority::normal); vf_cover("done"); }
void H_C28_fork_w11_3() { forked(3, 1, true, [] { const task_handle r = H::fork_tasks<oqpi::task_type::waitable, gctxs<1>>(*g_gname, g_prio, th(0), th(1), th(2)); fork_is<oqpi::task_type::waitable, 1>(r, 3, g_prio); }); }
void H_C28_seq_w11_3() { gstart(3); const task_handle r = H::sequence_tasks<oqpi::task_type::waitable, gctxs<1>>(*g_gname, g_prio, th(0), th(1), th(2)); seq_is<oqpi::task_type::waitable, 1>(r, 3, g_prio); vf_cover("done"); }
void H_C28_make_group_w1()
{
    gstart(0);
    {
        const auto limit = nd_range(0, 9);
        auto sp = H::make_parallel_group<oqpi::task_type::waitable, gctxs<1>>(*g_gname, g_prio, 5, limit);
        group_is<pgroup<oqpi::task_type::waitable, 1>>(sp.get(), 1, g_prio);
        vf_assert(sp->maxSimultaneousTasks_ == limit, "C28 a group has the limit asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_parallel_group<oqpi::task_type::waitable, gctxs<1>>(*g_gname);
        group_is<pgroup<oqpi::task_type::waitable, 1>>(sp.get(), 1, task_priority::normal);
        vf_assert(sp->maxSimultaneousTasks_ <= 0, "C28 a group is not limited unless asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::waitable, gctxs<1>>(*g_gname, g_prio);
        group_is<sgroup<oqpi::task_type::waitable, 1>>(sp.get(), 1, g_prio);
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::waitable, gctxs<1>>(*g_gname);
        group_is<sgroup<oqpi::task_type::waitable, 1>>(sp.get(), 1, task_priority::normal);
    }
    vf_cover("done");
}
void H_C28_fork_f00_2() { forked(2, 0, false, [] { const task_handle r = H::fork_tasks<oqpi::task_type::fire_and_forget>(*g_gname, th(0), th(1)); fork_is<oqpi::task_type::fire_and_forget, 0>(r, 2, oqpi::task_priority::normal); }); }
void H_C28_seq_f00_2() { gstart(2); const task_handle r = H::sequence_tasks<oqpi::task_type::fire_and_forget>(*g_gname, th(0), th(1)); seq_is<oqpi::task_type::fire_and_forget, 0>(r, 2, oqpi::task_priority::normal); vf_cover("done"); }
void H_C28_fork_f01_1() { forked(1, 0, false, [] { const task_handle r = H::fork_tasks<oqpi::task_type::fire_and_forget>(*g_gname, g_prio, th(0)); fork_is<oqpi::task_type::fire_and_forget, 0>(r, 1, g_prio); }); }
void H_C28_seq_f01_1() { gstart(1); const task_handle r = H::sequence_tasks<oqpi::task_type::fire_and_forget>(*g_gname, g_prio, th(0)); seq_is<oqpi::task_type::fire_and_forget, 0>(r, 1, g_prio); vf_cover("done"); }
void H_C28_fork_f01_2() { forked(2, 0, false, [] { const task_handle r = H::fork_tasks<oqpi::task_type::fire_and_forget>(*g_gname, g_prio, th(0), th(1)); fork_is<oqpi::task_type::fire_and_forget, 0>(r, 2, g_prio); }); }
void H_C28_seq_f01_2() { gstart(2); const task_handle r = H::sequence_tasks<oqpi::task_type::fire_and_forget>(*g_gname, g_prio, th(0), th(1)); seq_is<oqpi::task_type::fire_and_forget, 0>(r, 2, g_prio); vf_cover("done"); }
void H_C28_fork_f01_4() { forked(4, 0, false, [] { const task_handle r = H::fork_tasks<oqpi::task_type::fire_and_forget>(*g_gname, g_prio, th(0), th(1), th(2), th(3)); fork_is<oqpi::task_type::fire_and_forget, 0>(r, 4, g_prio); }); }
void H_C28_seq_f01_4() { gstart(4); const task_handle r = H::sequence_tasks<oqpi::task_type::fire_and_forget>(*g_gname, g_prio, th(0), th(1), th(2), th(3)); seq_is<oqpi::task_type::fire_and_forget, 0>(r, 4, g_prio); vf_cover("done"); }
void H_C28_make_group_f0()
{
    gstart(0);
    {
        const auto limit = nd_range(0, 9);
        auto sp = H::make_parallel_group<oqpi::task_type::fire_and_forget>(*g_gname, g_prio, 5, limit);
        group_is<pgroup<oqpi::task_type::fire_and_forget, 0>>(sp.get(), 0, g_prio);
        vf_assert(sp->maxSimultaneousTasks_ == limit, "C28 a group has the limit asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_parallel_group<oqpi::task_type::fire_and_forget>(*g_gname);
        group_is<pgroup<oqpi::task_type::fire_and_forget, 0>>(sp.get(), 0, task_priority::normal);
        vf_assert(sp->maxSimultaneousTasks_ <= 0, "C28 a group is not limited unless asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::fire_and_forget>(*g_gname, g_prio);
        group_is<sgroup<oqpi::task_type::fire_and_forget, 0>>(sp.get(), 0, g_prio);
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::fire_and_forget>(*g_gname);
        group_is<sgroup<oqpi::task_type::fire_and_forget, 0>>(sp.get(), 0, task_priority::normal);
    }
    vf_cover("done");
}
void H_C28_seq_f10_2() { gstart(2); const task_handle r = H::sequence_tasks<oqpi::task_type::fire_and_forget, gctxs<1>>(*g_gname, th(0), th(1)); seq_is<oqpi::task_type::fire_and_forget, 1>(r, 2, oqpi::task_priority::normal); vf_cover("done"); }
void H_C28_fork_f11_2() { forked(2, 1, false, [] { const task_handle r = H::fork_tasks<oqpi::task_type::fire_and_forget, gctxs<1>>(*g_gname, g_prio, th(0), th(1)); fork_is<oqpi::task_type::fire_and_forget, 1>(r, 2, g_prio); }); }
void H_C28_seq_f11_2() { gstart(2); const task_handle r = H::sequence_tasks<oqpi::task_type::fire_and_forget, gctxs<1>>(*g_gname, g_prio, th(0), th(1)); seq_is<oqpi::task_type::fire_and_forget, 1>(r, 2, g_prio); vf_cover("done"); }
void H_C28_make_group_f1()
{
    gstart(0);
    {
        const auto limit = nd_range(0, 9);
        auto sp = H::make_parallel_group<oqpi::task_type::fire_and_forget, gctxs<1>>(*g_gname, g_prio, 5, limit);
        group_is<pgroup<oqpi::task_type::fire_and_forget, 1>>(sp.get(), 1, g_prio);
        vf_assert(sp->maxSimultaneousTasks_ == limit, "C28 a group has the limit asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_parallel_group<oqpi::task_type::fire_and_forget, gctxs<1>>(*g_gname);
        group_is<pgroup<oqpi::task_type::fire_and_forget, 1>>(sp.get(), 1, task_priority::normal);
        vf_assert(sp->maxSimultaneousTasks_ <= 0, "C28 a group is not limited unless asked for");
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::fire_and_forget, gctxs<1>>(*g_gname, g_prio);
        group_is<sgroup<oqpi::task_type::fire_and_forget, 1>>(sp.get(), 1, g_prio);
        vf_assert((sp->tasks_.size() == 0) & (g_hadds == 0), "C28 making a group adds and submits nothing");
    }
    g_gmade[0] = 0; g_gmade[1] = 0;
    {
        auto sp = H::make_sequence_group<oqpi::task_type::fire_and_forget, gctxs<1>>(*g_gname);
        group_is<sgroup<oqpi::task_type::fire_and_forget, 1>>(sp.get(), 1, task_priority::normal);
    }
    vf_cover("done");
}
void H_C28_for_range_0() { range_loop<0>(false, [](int a, int b) { H::parallel_for("loop", a, b, fun1{77}); }); }
void H_C28_for_count_0() { range_loop<0>(true, [](int, int b) { H::parallel_for("loop", b, fun1{77}); }); }
void H_C28_for_part_0() { part_loop<0>([](const stub_part &p) { H::parallel_for("loop", p, g_prio, fun1{77}); }); }
void H_C28_each_part_0() { g_cont = new cont(); part_loop<0>([](const stub_part &p) { H::parallel_for_each("loop", *g_cont, p, g_prio, efun{77}); }); }
void H_C28_for_range_1() { range_loop<1>(false, [](int a, int b) { H::parallel_for<gctxs<1>, tctxs<1>>("loop", a, b, fun1{77}); }); }
void H_C28_for_count_1() { range_loop<1>(true, [](int, int b) { H::parallel_for<gctxs<1>, tctxs<1>>("loop", b, fun1{77}); }); }
void H_C28_for_part_1() { part_loop<1>([](const stub_part &p) { H::parallel_for<gctxs<1>, tctxs<1>>("loop", p, g_prio, fun1{77}); }); }
void H_C28_each_part_1() { g_cont = new cont(); part_loop<1>([](const stub_part &p) { H::parallel_for_each<gctxs<1>, tctxs<1>>("loop", *g_cont, p, g_prio, efun{77}); }); }
void H_C28_each() { g_cont = new cont(); range_loop<0>(true, [](int, int b) { vf_assume(b >= 0); g_cont->n = b; H::parallel_for_each("loop", *g_cont, efun{77}); }); }
static void loop_group_is(task_base *b, int ctx, int n)
{
    vf_assert((g_gmade[ctx] == 1) & (g_gmade[1 - ctx] == 0) & (b == g_lastGroup), "C28 one group is made, with the context asked for");
    vf_assert((g_made[ctx] == n) & (g_made[1 - ctx] == 0), "C28 the tasks get the context asked for");
    vf_assert(b->getPriority() == g_prio, "C28 the group has the priority asked for");
    vf_assert(g_hadds == 0, "C28 making a group submits nothing");
    vf_cover("done");
}
void H_C28_loop_group()
{
    hstart(); g_abstract_group = true;
    const int elems = some_batches(), maxb = some_batches();
    stub_part *p = new stub_part(elems, maxb);
    const int n = elems < maxb ? elems : maxb;
    g_k = nd_lrange(0, n - 1);
    g_prio = any_prio();
    vf_candidate(cand_count);
    const int c = vf_fork_i32(nd_range(0, 3));
    if (c == 0) { auto &sp = *new auto(H::make_parallel_for_task_group<oqpi::task_type::waitable>("l", *p, g_prio, fun1{77})); vf_assert(is_a<pgroup<oqpi::task_type::waitable, 0>>(static_cast<task_base*>(sp.get())), "C28 the group is of the type asked for"); loop_group_is(sp.get(), 0, n); }
    if (c == 1) { auto &sp = *new auto(H::make_parallel_for_task_group<oqpi::task_type::fire_and_forget>("l", *p, g_prio, fun1{77})); vf_assert(is_a<pgroup<oqpi::task_type::fire_and_forget, 0>>(static_cast<task_base*>(sp.get())), "C28 the group is of the type asked for"); loop_group_is(sp.get(), 0, n); }
    if (c == 2) { auto &sp = *new auto(H::make_parallel_for_task_group<oqpi::task_type::waitable, gctxs<1>, tctxs<1>>("l", *p, g_prio, fun1{77})); vf_assert(is_a<pgroup<oqpi::task_type::waitable, 1>>(static_cast<task_base*>(sp.get())), "C28 the group is of the type asked for"); loop_group_is(sp.get(), 1, n); }
    if (c == 3) { auto &sp = *new auto(H::make_parallel_for_task_group<oqpi::task_type::fire_and_forget, gctxs<1>, tctxs<1>>("l", *p, g_prio, fun1{77})); vf_assert(is_a<pgroup<oqpi::task_type::fire_and_forget, 1>>(static_cast<task_base*>(sp.get())), "C28 the group is of the type asked for"); loop_group_is(sp.get(), 1, n); }
}
void H_C28_start()
{
    hstart();
    const int n = nd_range(1, INT_MAX);
    g_wctx = vf_nd_bool();
    if (g_wctx) H::start_default_scheduler<wkctxs>(n); else H::start_default_scheduler(n);
    vf_assert(g_registered == n, "C28 as many workers are registered as asked for");
    vf_assert((g_starts == 1) & (g_stops == 0), "C28 the scheduler is started once");
    H::stop_scheduler();
    vf_assert((g_starts == 1) & (g_stops == 1), "C28 the scheduler is stopped");
    vf_assert(&H::scheduler() == &H::scheduler_, "C28 all helpers use the same scheduler");
    vf_cover("done");
}
}
