// C07 (fork-join), C08 (limits), C09 (sequences), C10 (adding), C27 (single-threaded), C04/C16 (groups as callers)
#include "group_model.h"
using namespace spec;

namespace spec
{
    // ---------------------------------------------------------------- index source and count of a parallel group
    long g_tookK, g_others_tookK, g_last_old, g_takes;
    bool g_index_stable;
    inline void took_range(long o, long n) { g_tookK += ((o <= g_k) & (g_k < n)) ? 1 : 0; }
    void idx_rely(void *p)
    {
        if (g_index_stable) return;
        long &v = *static_cast<long*>(p);
        const long o = v;
        v = nd_lrange(o, o + INT_MAX);
        g_others_tookK += ((o <= g_k) & (g_k < v)) ? 1 : 0;
    }
    void idx_guar(void *, long o, long n, long)
    {
        vf_assert(n > o, "C08 the index of the next task only advances");
        took_range(o, n);
        g_last_old = o;
        ++g_takes;
    }
    long g_subs, g_sub_old;
    void cnt_rely(void *p)
    {
        long &v = *static_cast<long*>(p);
        v = nd_lrange(g_subs == 0 ? 1 : 0, v);          // the completion under contract is still to be counted
    }
    void cnt_guar(void *, long o, long n, long order)
    {
        vf_assert(n == o - 1, "C07 a completion counts once");
        vf_assert(order >= ORD_ACQ_REL, "C07 a completion publishes what the task did and sees what the others did");
        ++g_subs; g_sub_old = o;
    }
    inline bool cand_K() { return (g_addsK == g_tookK) | raw(g_kt->grabbed_); }
    inline bool cand_once() { return (g_addsK <= g_tookK) & (g_tookK + g_others_tookK <= 1); }
    inline bool cand_norun() { return (g_kt->runs == 0) & (g_kt->claims == 0) & !g_kt->own; }
    const long *g_idx;
    inline bool cand_seen() { return (g_tookK + g_others_tookK) == (((g_k >= 1) & (*g_idx > g_k)) ? 1 : 0); }
    inline bool cand_last() { return (g_last_old < *g_idx); }
    inline bool cand_own() { return (g_kt->runs == (g_kt->own ? 1 : 0)) & (g_kt->claims == g_kt->runs); }
    inline bool cand_noK() { return (g_addsK == 0) & (g_tookK == 0); }
    inline void counters() { g_tookK = 0; g_others_tookK = 0; g_last_old = 0; g_takes = 0; g_index_stable = false; g_subs = 0; g_sub_old = 0; }

    template<typename G> void share_index(bool stable)
    {
        counters();
        g_index_stable = stable;
        g_idx = &raw_long((*par<G>::g)->currentTaskIndex_);
        vf_shared(&(*par<G>::g)->currentTaskIndex_, 8, idx_rely, idx_guar);
    }
    void pre_first(const task_handle &) { vf_assert(g_pre == 1, "C16 an executed group calls its pre-execute hook before releasing a task"); }
    void pre_first_run(stub_task *) { vf_assert(g_pre == 1, "C16 an executed group calls its pre-execute hook before running a task"); }
    void pre_first_gen(gen_task *) { vf_assert(g_pre == 1, "C16 an executed group calls its pre-execute hook before running a task"); }
    inline void expect_pre()
    {
        g_on_add = pre_first; g_on_execute = pre_first_run; g_on_gen_execute = pre_first_gen;
    }

    template<typename G> void par_execute()
    {
        par<G>::make(nd_range(INT_MIN, 0), true);
        share_index<G>(true);           // without a limit only the executing thread draws indices
        expect_pre();
        vf_candidate(cand_K); vf_candidate(cand_once); vf_candidate(cand_norun); vf_candidate(cand_seen);
        (*par<G>::g)->execute();
        vf_assert((g_pre == 1) & (g_post == 0), "C16 executing a group calls the pre-execute hook once");
        vf_assert((g_addsK <= 1) & (g_kt->claims <= 1), "C07 a task is submitted or run at most once");
        vf_assert(g_kt->runs == (g_kt->own ? 1 : 0), "C07 the executing thread runs the first task exactly if it claimed it");
        vf_assert(imp(g_kt->own, g_addsK == 0), "C07 a task the executing thread ran is not submitted as well");
        vf_assert(imp((g_k > 0) & !raw(g_kt->grabbed_), g_addsK == 1), "C07 every task nobody claimed is submitted");
        vf_assert(imp(g_k > 0, g_kt->claims == 0), "C07 the executing thread claims only the first task");
        vf_assert(imp(g_k == 0, raw(g_kt->grabbed_) & (g_addsK == 0)), "C07 the first task is run by whoever claimed it");
        if (g_k == 0) { if (g_kt->own) vf_cover("first run"); else vf_cover("first not run"); }
        else { if (g_addsK) vf_cover("submitted"); else vf_cover("not submitted"); }
    }
    template<typename G> void par_execute_limited()
    {
#ifdef VF_NATIVE
        const int limit = nd_range(1, 8);
#else
        const int limit = nd_range(1, INT_MAX);
#endif
        par<G>::make(limit, true);
        share_index<G>(false);
        g_on_add = pre_first;
        vf_candidate(cand_K); vf_candidate(cand_once); vf_candidate(cand_norun); vf_candidate(cand_seen);
        (*par<G>::g)->execute();
        vf_assert(g_adds <= limit - 1, "C08 with the task it runs itself the executing thread stays within the limit");
        vf_assert((g_addsK <= g_tookK) & (g_tookK <= 1), "C08 only a task whose turn it is is submitted, once");
        vf_assert((g_adds == limit - 1) | (g_last_old >= g_n), "C08 the executing thread submits fewer only if there are no more");
        vf_assert(imp((g_tookK == 1) & !raw(g_kt->grabbed_), g_addsK == 1), "C08 a task whose turn came is submitted unless somebody claimed it");
        vf_assert(imp((g_addsK == 1), g_k > 0), "C08 the first task is not submitted");
        vf_assert(imp(g_k == 0, (g_kt->runs == (g_kt->own ? 1 : 0)) & raw(g_kt->grabbed_)), "C08 the first task is run by the executing thread");
        vf_assert(imp(g_k > 0, g_kt->claims == 0), "C08 the executing thread runs no other task");
        if (g_k == 0) vf_cover("first"); else if (g_addsK) vf_cover("submitted"); else vf_cover("not submitted");
    }
    // ---------------------------------------------------------------- completion of one task
    bool g_waitable;
    void done_guar(void *, long o, long n, long order)
    {
        phase(0, 1, "C07 first, and once, the group becomes done");
        vf_assert((n == 1) & (order >= ORD_RELEASE), "C07 the group becomes done");
    }
    void post_hook() { phase(1, 2, "C07 the post-execute hook is called once, when the group is done"); }
    void woken() { phase(2, 3, "C07 waiters are woken once, after the post-execute hook"); }
    void told() { phase(g_waitable ? 3 : 2, 4, "C07 the parent group is told last"); }
    template<typename G> std::shared_ptr<stub_group> *expect_done(G *g, bool waitable)
    {
        g_waitable = waitable;
        g_on_group_post = post_hook;
        g_on_post = woken;
        auto parent = new std::shared_ptr<stub_group>(std::make_shared<stub_group>());
        (*parent)->on_told = told;
        raw(g->grabbed_) = true;
        vf_shared(&g->done_, 1, nullptr, done_guar);
        return parent;
    }
    template<typename G> void is_done(G *g, std::shared_ptr<stub_group> *parent, bool hasParent)
    {
        vf_assert(g_phase == (hasParent ? 4 : g_waitable ? 3 : 2), "C07 a finished group takes every step");
        vf_assert((*parent)->told == (hasParent ? 1 : 0), "C07 the parent is told once");
        vf_assert(g->spParentGroup_ == nullptr, "C07 a finished group drops its parent");
        vf_assert(raw(g->done_) & raw(g->grabbed_), "C07 a finished group is done and stays claimed");
    }
    template<typename G> void par_one_done(bool waitable)
    {
        par<G>::make(nd_range(INT_MIN, 0), true);
        G *g = par<G>::g->get();
        share_index<G>(true);
        auto parent = expect_done(g, waitable);
        const bool hasParent = vf_nd_bool();
        if (hasParent) g->spParentGroup_ = *parent;
        raw_long(g->activeTasksCount_) = nd_lrange(1, g_n);
        vf_shared(&g->activeTasksCount_, 8, cnt_rely, cnt_guar);
        g->oneTaskDone();
        vf_assert(g_subs == 1, "C07 a completion counts once");
        if (g_sub_old == 1) { is_done(g, parent, hasParent); vf_cover("last"); }
        else { vf_assert((g_phase == 0) & ((*parent)->told == 0) & !raw(g->done_), "C07 a group is not finished before its last task is"); vf_cover("not last"); }
        vf_assert(g_adds == 0, "C07 without a limit a completion submits nothing");
        vf_assert(g_kt->claims == 0, "C07 a completion runs nothing");
    }
    bool g_added_any;
    void no_take_after_add(const task_handle &) { g_added_any = true; }
    void idx_guar2(void *p, long o, long n, long order)
    {
        vf_assert(!g_added_any, "C08 no task's turn is used up without submitting it");
        idx_guar(p, o, n, order);
    }
    template<typename G> void par_one_done_limited(bool waitable)
    {
#ifdef VF_NATIVE
        const int limit = nd_range(1, 8);
#else
        const int limit = nd_range(1, INT_MAX);
#endif
        par<G>::make(limit, true);
        G *g = par<G>::g->get();
        counters();
        g_added_any = false;
        raw_long(g->currentTaskIndex_) = nd_lrange(1, g_n + INT_MAX);
        vf_shared(&g->currentTaskIndex_, 8, idx_rely, idx_guar2);
        g_on_add = no_take_after_add;
        auto parent = expect_done(g, waitable);
        const bool hasParent = vf_nd_bool();
        if (hasParent) g->spParentGroup_ = *parent;
        raw_long(g->activeTasksCount_) = nd_lrange(1, g_n);
        vf_shared(&g->activeTasksCount_, 8, cnt_rely, cnt_guar);
        vf_candidate(cand_K); vf_candidate(cand_once); vf_candidate(cand_norun); vf_candidate(cand_noK); 
        g->oneTaskDone();
        vf_assert(g_subs == 1, "C07 a completion counts once");
        vf_assert(g_adds <= 1, "C08 a completion submits at most one more task");
        vf_assert((g_addsK <= g_tookK) & (g_tookK <= 1), "C08 only a task whose turn it is is submitted, once");
        vf_assert(imp((g_tookK == 1) & !raw(g_kt->grabbed_), g_addsK == 1), "C08 a task whose turn came is submitted unless somebody claimed it");
        vf_assert(g_kt->claims == 0, "C08 a completion runs nothing");
        if (g_sub_old == 1)
        {
            is_done(g, parent, hasParent);
            vf_assert(g_adds == 0, "C07 a finished group submits nothing");
            vf_cover("last");
        }
        else
        {
            vf_assert((g_phase == 0) & ((*parent)->told == 0) & !raw(g->done_), "C07 a group is not finished before its last task is");
            vf_assert((g_adds == 1) | ((g_takes > 0) & (g_last_old >= g_n)), "C08 a completion submits one more task unless there is none");
            if (g_adds) vf_cover("next"); else vf_cover("no more");
        }
    }
    par_group *g_pg;
    void group_token_taken() { raw(g_pg->done_) = true; }
    long g_activeWaitSeen;
}

extern "C" {
//------------------------------------------------------------------ C07, C08, C16: parallel groups
void H_par_execute()
{
    par_execute<par_group>();
    vf_cover("executed");
}
void H_par_execute_ff()
{
    par_execute<par_group_ff>();
    vf_cover("executed");
}
void H_par_execute_limited()
{
    par_execute_limited<par_group>();
    vf_cover("executed");
}
void H_par_done() { par_one_done<par_group>(true); }
void H_par_done_ff() { par_one_done<par_group_ff>(false); }
void H_par_done_limited() { par_one_done_limited<par_group>(true); }
void H_par_done_limited_ff() { par_one_done_limited<par_group_ff>(false); }
void H_par_activeWait()
{
    par<par_group>::make(vf_nd_i32(), true);
    g_pg = par<par_group>::g->get();
    raw(g_pg->grabbed_) = true;
    g_env = true;
    g_on_take = group_token_taken;
    vf_candidate(cand_own);
    g_pg->activeWait();
    vf_assert(g_kt->runs == (g_kt->own ? 1 : 0), "C07 an active waiter runs exactly the tasks it claimed");
    vf_assert(raw(g_kt->grabbed_), "C07 an active waiter leaves no task unclaimed");
    vf_assert(g_taken >= 1, "C07 active waiting returns only after the group was signalled");
    vf_assert(raw(g_pg->done_), "C07 active waiting returns only after the group is done");
    vf_assert(g_adds == 0, "C07 active waiting submits nothing");
    vf_assert(g_added == g_taken, "C07 a finished group stays signalled for every waiter");
    if (g_kt->own) vf_cover("ran"); else vf_cover("not ran");
}
void H_par_wait()
{
    par<par_group>::make(vf_nd_i32(), true);
    g_pg = par<par_group>::g->get();
    g_env = true;
    g_on_take = group_token_taken;
    g_pg->wait();
    vf_assert(raw(g_pg->done_), "C07 waiting returns only after the group is done");
    vf_assert((g_kt->claims == 0) & (g_adds == 0), "C07 waiting neither runs nor submits a task");
    vf_cover("waited");
}
}

//------------------------------------------------------------------ C09: sequences
namespace spec
{
    int g_gen_runs; long g_gen_run_id, g_gen_add_id;
    bool g_gen_added;
    template<typename G> struct sq
    {
        // the released task is no longer in the sequence when others can finish it
        static void add_hook(const task_handle &h)
        {
            vf_assert(seq<G>::left() == g_n - 1, "C09 a task leaves the sequence before it is released");
            vf_assert(!g_group_may_submit | (g_adds == 1), "C09 one task is released at a time");
            pre_any();
            if (h.spTask_.get() != g_kt) g_gen_add_id = static_cast<gen_task*>(h.spTask_.get())->id;
        }
        static void pre_any() {}
        static void run_hook(stub_task *)
        {
            vf_assert(seq<G>::left() == g_n - 1, "C09 a task leaves the sequence before it is released");
            vf_assert(g_pre == 1, "C16 an executed group calls its pre-execute hook before running a task");
        }
        static void gen_hook(gen_task *t)
        {
            vf_assert(seq<G>::left() == g_n - 1, "C09 a task leaves the sequence before it is released");
            vf_assert(g_pre == 1, "C16 an executed group calls its pre-execute hook before running a task");
            ++g_gen_runs; g_gen_run_id = t->id;
        }
        static void execute()
        {
            seq<G>::make(1, false);
            share_claim(g_kt);
            g_gen_runs = 0;
            g_on_add = add_hook; g_on_execute = run_hook; g_on_gen_execute = gen_hook;
            const long head = seq<G>::head;
            (*seq<G>::g)->execute();
            vf_assert((g_pre == 1) & (g_post == 0), "C16 executing a group calls the pre-execute hook once");
            vf_assert(g_adds == 0, "C09 executing a sequence releases its first task on the spot");
            vf_assert(seq<G>::left() == g_n - 1, "C09 executing a sequence releases exactly one task");
            vf_assert(imp(g_k == head, (g_kt->runs == (g_kt->own ? 1 : 0)) & raw(g_kt->grabbed_)), "C09 executing a sequence runs its first task");
            vf_assert(imp(g_k == head, g_gen_runs == 0), "C09 executing a sequence runs no task but its first");
            vf_assert(imp(g_k != head, (g_kt->runs == 0) & (g_kt->claims == 0)), "C09 executing a sequence runs no task but its first");
            if (g_k == head) { if (g_kt->own) vf_cover("first run"); else vf_cover("first claimed by another"); } else vf_cover("other");
        }
        static void one_done(bool waitable)
        {
            seq<G>::make(0, true);
            G *g = seq<G>::g->get();
            const long head = seq<G>::head;
            g_on_add = add_hook;
            g_seen_free = true;
            auto parent = expect_done(g, waitable);
            const bool hasParent = vf_nd_bool();
            if (hasParent) g->spParentGroup_ = *parent;
            g->oneTaskDone();
            vf_assert(g_kt->claims == 0, "C09 a completion runs nothing itself");
            if (g_n == 0) { is_done(g, parent, hasParent); vf_assert(g_adds == 0, "C09 a finished sequence releases nothing"); vf_cover("last"); }
            else
            {
                vf_assert((g_phase == 0) & ((*parent)->told == 0) & !raw(g->done_), "C09 a sequence is not finished before its last task is");
                vf_assert((g_adds == 1) & (seq<G>::left() == g_n - 1), "C09 a completion releases exactly one more task");
                vf_assert((g_addsK == 1) == (g_k == head), "C09 the oldest task is released");
                vf_assert(imp(g_addsK == 0, g_gen_add_id == head), "C09 the oldest task is released");
                vf_cover("next");
            }
        }
    };
}
extern "C" {
void H_seq_execute() { sq<seq_group>::execute(); vf_cover("executed"); }
void H_seq_execute_ff() { sq<seq_group_ff>::execute(); vf_cover("executed"); }
void H_seq_done() { sq<seq_group>::one_done(true); vf_cover("done"); }
void H_seq_done_ff() { sq<seq_group_ff>::one_done(false); vf_cover("done"); }
}

//------------------------------------------------------------------ C10: adding
namespace spec
{
    // a task whose context records when it learns about its group
    const group_base *g_ctx_told; int g_ctx_tells;
    struct add_ctx
    {
        task_base *o;
        add_ctx(task_base *p, const std::string &) : o(p) {}
        void onAddedToGroup(const group_sptr &sp) { phase(0, 1, "C10 the task context is told first"); ++g_ctx_tells; g_ctx_told = sp.get(); vf_assert(o->spParentGroup_.get() == sp.get(), "C10 a task knows its group when its context is told"); }
        void onPreExecute() {}
        void onPostExecute() {}
    };
    struct nothing { int operator()() { return 0; } };
    using add_task_t = oqpi::task<task_type::fire_and_forget, oqpi::manual_reset_event, oqpi::task_context_container<add_ctx>, nothing>;
    add_task_t *g_new;
    template<typename G> struct adding
    {
        static G *g;
        template<typename C> static long size(C &v) { return long(v.size()); }
        template<typename C> static task_base *last(C &v) { return v.back().spTask_.get(); }
        static void stored()
        {
            phase(1, 2, "C10 the group context is told after the task context");
            vf_assert(size(g->tasks_) == g_n + 1, "C10 the group context is told when the task is stored");
        }
        static void added()
        {
            g->addTask(task_handle());
            vf_assert((size(g->tasks_) == g_n) & (g_task_added == 0) & (g_phase == 0), "C10 adding an invalid handle changes nothing");
            auto t = std::make_shared<add_task_t>("t", any_prio(), nothing());
            g_new = t.get();
            raw(t->grabbed_) = vf_nd_bool(); raw(t->done_) = vf_nd_bool();
            const bool gr = raw(t->grabbed_), dn = raw(t->done_);
            const auto uid = t->uid_; const auto prio = t->priority_;
            g_on_task_added = stored;
            g_ctx_told = nullptr; g_ctx_tells = 0;
            g->addTask(task_handle(t));
            vf_assert(g_phase == 2, "C10 both contexts are told once");
            vf_assert((g_ctx_tells == 1) & (g_ctx_told == g), "C10 the task context is told its group once");
            vf_assert((g_task_added == 1) & (g_added_task == g_new), "C10 the group context is told the task once");
            vf_assert((g_hook_added == 0) & (g_pre == 0) & (g_post == 0) & (g_adds == 0), "C10 nothing else happens");
            vf_assert(t->spParentGroup_.get() == g, "C10 an added task has the group as its parent");
            vf_assert((raw(t->grabbed_) == gr) & (raw(t->done_) == dn) & (t->uid_ == uid) & (t->priority_ == prio), "C10 an added task is otherwise unchanged");
            vf_assert(size(g->tasks_) == g_n + 1, "C10 the task is stored once");
            vf_assert(last(g->tasks_) == g_new, "C10 the task is stored last");
            vf_assert(t.use_count() == 2, "C10 the group shares the task");
            vf_assert(imp(g_n > 0, (g_kt->spParentGroup_ == nullptr) & (g_kt->parentSet == 0) & !raw(g_kt->grabbed_)), "C10 no other task changes");
        }
    };
    template<typename G> G *adding<G>::g;
}
extern "C" {
void H_add_parallel()
{
    par<par_group>::make(vf_nd_i32(), false);
    par_group *g = par<par_group>::g->get();
    adding<par_group>::g = g;
    adding<par_group>::added();
    vf_assert(raw_long(g->activeTasksCount_) == g_n + 1, "C10 the task is accounted for");
    vf_assert(g->tasks_[g_k].spTask_.get() == g_kt, "C10 no other task of the group changes");
    vf_assert(!g->empty(), "C10 a group with a task is not empty");
    vf_cover("added");
}
void H_add_parallel_first()
{
    start_group();
    auto sp = oqpi::make_parallel_group<task_type::waitable, rec_gctxs>(g_sched, std::string("g"), any_prio(), nd_range(0, 1000), vf_nd_i32());
    auto *g = sp.get();
    new std::shared_ptr<par_group>(sp);
    g_n = 0; g_kt = new stub_task(any_prio());
    vf_assert(g->empty(), "C10 a new group is empty");
    adding<par_group>::g = g;
    adding<par_group>::added();
    vf_assert(raw_long(g->activeTasksCount_) == 1, "C10 the task is accounted for");
    vf_assert(raw_long(g->currentTaskIndex_) == 1, "C08 the second task is the first one whose turn comes");
    vf_cover("added");
}
void H_add_sequence()
{
    seq<seq_group>::make(0, false);
    seq_group *g = seq<seq_group>::g->get();
    adding<seq_group>::g = g;
    adding<seq_group>::added();
    vf_assert(imp((g_n > 0) & (g_k == seq<seq_group>::head), g->tasks_.front().spTask_.get() == g_kt), "C10 no other task of the group changes");
    vf_assert(!g->empty(), "C10 a group with a task is not empty");
    vf_cover("added");
}
void H_add_group_in_group()
{
    // a group is a task of the group it is added to
    start_group();
    auto in = oqpi::make_sequence_group<task_type::waitable, rec_gctxs>(g_sched, std::string("i"), any_prio());
    auto out = oqpi::make_sequence_group<task_type::waitable, rec_gctxs>(g_sched, std::string("o"), any_prio());
    out->addTask(task_handle(in));
    vf_assert((g_hook_added == 1) & (g_added_to == out.get()), "C10 the context of an added group is told its group once");
    vf_assert(in->spParentGroup_.get() == out.get(), "C10 an added group has the group as its parent");
    vf_assert((g_task_added == 1) & (g_added_task == in.get()), "C10 the group context is told the task once");
    new group_sptr(in);
    vf_cover("added");
}
}

//------------------------------------------------------------------ C27: single-threaded execution
namespace spec
{
    long g_next;                // index of the task that has to run next
    void st_run(long id)
    {
        vf_assert(id == g_next, "C27 the tasks run in the order they were added");
        vf_assert((g_pre == 1) & (g_post == 0) & (g_phase == 0), "C27 the tasks run between the hooks");
        ++g_next;
    }
    void st_k(stub_task *t) { st_run(t->id); vf_assert(t->stRuns == 1, "C27 a task runs once"); }
    void st_gen(gen_task *t) { st_run(t->id); }
    void st_normal_k(stub_task *) { vf_assert(false, "C27 the tasks are run single-threaded"); }
    void st_normal_gen(gen_task *) { vf_assert(false, "C27 the tasks are run single-threaded"); }
    long g_first, g_end;
    inline bool cand_next() { return (g_kt->stRuns == (g_k < g_next ? 1 : 0)) & (g_next >= g_first) & (g_next <= g_end); }
    bool g_st_empty; bool (*g_is_empty)();
    void st_post() { phase(0, 1, "C27 the post-execute hook comes after the tasks"); vf_assert(g_is_empty(), "C27 the group is emptied before its post-execute hook"); }
    void st_done(void *, long o, long n, long order) { phase(1, 2, "C27 the group becomes done after its post-execute hook"); vf_assert((n == 1) & (order >= ORD_RELEASE), "C27 the group becomes done"); }
    void st_woken() { phase(2, 3, "C27 waiters are woken when the group is done"); }
    bool g_gown;
    void st_claim(void *, long o, long n, long) { vf_assert(n != 0, "C27 a claim is never given back"); g_gown = bool(g_gown | (o == 0)); vf_assert(g_pre == 0, "C27 a group is claimed before anything else"); }
    template<typename G> struct stx
    {
        static G *g;
        static bool empty() { return g->empty(); }
        static void run(G *gr, long first, bool waitable)
        {
            g = gr;
            g_is_empty = empty;
            g_first = first; g_end = first + g_n; g_next = first;
            g_group_may_submit = false; g_gown = false;
            raw(g->grabbed_) = vf_nd_bool();
            vf_shared(&g->grabbed_, 1, claim_rely, st_claim);
            vf_shared(&g->done_, 1, nullptr, st_done);
            g_on_execute_st = st_k; g_on_gen_execute_st = st_gen; g_on_execute = st_normal_k; g_on_gen_execute = st_normal_gen;
            g_on_group_post = st_post; g_on_post = st_woken;
            auto parent = new std::shared_ptr<stub_group>(std::make_shared<stub_group>());
            g->spParentGroup_ = *parent;
            vf_candidate(cand_next);
            g->executeSingleThreaded();
            if (g_gown)
            {
                vf_assert((g_pre == 1) & (g_phase == (waitable ? 3 : 2)), "C27 single-threaded execution takes every step");
                vf_assert(g_next == g_end, "C27 single-threaded execution runs every task");
                vf_assert(g_kt->stRuns == 1, "C27 single-threaded execution runs every task once");
                vf_assert(g->empty(), "C27 the group is emptied");
                vf_assert(raw(g->done_), "C27 the group is done");
            }
            else
            {
                vf_assert((g_pre == 0) & (g_post == 0) & (g_phase == 0) & (g_next == first) & (g_kt->stRuns == 0) & !raw(g->done_), "C27 single-threaded execution of a claimed group does nothing");
                vf_assert(!g->empty(), "C27 single-threaded execution of a claimed group does nothing");
            }
            vf_assert((*parent)->told == 0, "C27 single-threaded execution does not tell the parent group");
            vf_assert(raw(g->grabbed_), "C27 the group stays claimed");
        }
    };
    template<typename G> G *stx<G>::g;
}
extern "C" {
void H_st_parallel()
{
    par<par_group>::make(vf_nd_i32(), false);
    stx<par_group>::run(par<par_group>::g->get(), 0, true);
    if (g_gown) vf_cover("run"); else vf_cover("claimed");
}
void H_st_parallel_ff()
{
    par<par_group_ff>::make(vf_nd_i32(), false);
    stx<par_group_ff>::run(par<par_group_ff>::g->get(), 0, false);
    if (g_gown) vf_cover("run"); else vf_cover("claimed");
}
void H_st_sequence()
{
    seq<seq_group>::make(1, false);
    stx<seq_group>::run(seq<seq_group>::g->get(), seq<seq_group>::head, true);
    if (g_gown) vf_cover("run"); else vf_cover("claimed");
}
void H_st_sequence_ff()
{
    seq<seq_group_ff>::make(1, false);
    stx<seq_group_ff>::run(seq<seq_group_ff>::g->get(), seq<seq_group_ff>::head, false);
    if (g_gown) vf_cover("run"); else vf_cover("claimed");
}
}
