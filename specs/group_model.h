// Ghost model of a group in execution: a scheduler that only records, a group context that records its hooks, and
// the tasks of the group, of which one arbitrary one (the witness, at index g_k) is followed.
#pragma once
#include "task_model.h"
namespace spec
{
    using oqpi::parallel_group; using oqpi::sequence_group;
    // a task of the group that is not the one being followed: nothing is known about it
    struct gen_task : task_base
    {
        gen_task(task_priority p) : task_base(p) {}
        long id = -1;
        void execute() override;
        void executeSingleThreaded() override;
        void wait() override {}
        void activeWait() override {}
        void onParentGroupSet() override {}
    };
    void (*g_on_gen_execute)(gen_task*);
    void (*g_on_gen_execute_st)(gen_task*);
    inline void gen_task::execute() { if (g_on_gen_execute) g_on_gen_execute(this); }
    inline void gen_task::executeSingleThreaded() { if (g_on_gen_execute_st) g_on_gen_execute_st(this); }

    long g_n, g_k;              // number of tasks, index of the witness
    stub_task *g_kt;
    bool g_seen_free;           // the last look at the claim of the witness found it free
    int  g_limit;
    int  g_adds, g_addsK;       // submissions
    int  g_pre, g_post, g_hook_added, g_task_added;
    const task_base *g_added_task; const group_base *g_added_to;
    bool g_group_may_submit;
    void (*g_on_add)(const task_handle &);
    void (*g_on_group_pre)(); void (*g_on_group_post)(); void (*g_on_task_added)();
    struct rec_sched
    {
        int workersCount(task_priority) const { return nd_range(1, 1000); }
        int workersTotalCount() const { return nd_range(1, 1000); }
        bool isIdle() const { return vf_nd_bool(); }
        task_handle add(task_handle h)
        {
            vf_assert(g_group_may_submit, "C27 nothing is submitted to the scheduler");
            vf_assert(h.isValid(), "C07 only valid tasks are submitted");
            ++g_adds;
            if (h.spTask_.get() == g_kt)
            {
                ++g_addsK;
                vf_assert(g_seen_free, "C08 only a task nobody has claimed is submitted");
            }
            if (g_on_add) g_on_add(h);
            return h;
        }
    };
    rec_sched g_sched;
    struct rec_gctx
    {
        rec_gctx(group_base *, const std::string &) {}
        void onAddedToGroup(const group_sptr &p) { ++g_hook_added; g_added_to = p.get(); }
        void onTaskAdded(const task_handle &h) { ++g_task_added; g_added_task = h.spTask_.get(); if (g_on_task_added) g_on_task_added(); }
        void onPreExecute() { ++g_pre; if (g_on_group_pre) g_on_group_pre(); }
        void onPostExecute() { ++g_post; if (g_on_group_post) g_on_group_post(); }
    };
    using rec_gctxs = oqpi::group_context_container<rec_gctx>;
    using par_group = parallel_group<rec_sched, task_type::waitable, rec_gctxs>;
    using par_group_ff = parallel_group<rec_sched, task_type::fire_and_forget, rec_gctxs>;
    using seq_group = sequence_group<rec_sched, task_type::waitable, rec_gctxs>;
    using seq_group_ff = sequence_group<rec_sched, task_type::fire_and_forget, rec_gctxs>;

    template<typename T> inline task_handle unowned(T *t) { return task_handle(oqpi::task_sptr(oqpi::task_sptr(), t)); }
    // the claim and completion of the witness: others may claim it and finish it at any time (done implies claimed)
    inline void kclaim_rely(void *p) { claim_rely(p); g_seen_free = !*static_cast<bool*>(p); }
    inline void kdone_rely(void *)
    {
        claim_rely(&g_kt->grabbed_);
        raw(g_kt->done_) = bool(raw(g_kt->done_) | (raw(g_kt->grabbed_) & vf_nd_bool()));
    }
    inline void task_slot(void *slot, long i, long isK)
    {
        if (isK)
        {
            g_kt->id = i;
            new (slot) task_handle(unowned(g_kt));
        }
        else
        {
            gen_task *t = new gen_task(task_priority(0));
            t->id = i;
            const bool c = vf_nd_bool();
            raw(t->grabbed_) = c; raw(t->done_) = bool(c & vf_nd_bool());
            new (slot) task_handle(unowned(t));
        }
    }
    inline void start_group()
    {
        start();
        g_phase = 0; g_on_execute = nullptr; g_on_execute_st = nullptr; g_on_gen_execute = nullptr; g_on_gen_execute_st = nullptr;
        g_seen_free = false; g_limit = 0; g_adds = 0; g_addsK = 0; g_pre = 0; g_post = 0; g_hook_added = 0; g_task_added = 0;
        g_added_task = nullptr; g_added_to = nullptr; g_group_may_submit = true;
        g_on_add = nullptr; g_on_group_pre = nullptr; g_on_group_post = nullptr; g_on_task_added = nullptr;
        g_kt = nullptr; g_n = 0; g_k = -1;
        *stub_task::destroyed() = 0; stub_group::g_gone() = 0;
    }
    // the witness task, claimed (and possibly finished) by somebody else or not
    inline void make_witness(bool shared)
    {
        g_kt = new stub_task(any_prio());
        if (shared)
        {
            const bool c = vf_nd_bool();
            raw(g_kt->grabbed_) = c; raw(g_kt->done_) = bool(c & vf_nd_bool());
            vf_shared(&g_kt->grabbed_, 1, kclaim_rely, claim_guar);
            vf_shared(&g_kt->done_, 1, kdone_rely, nullptr);
        }
    }
    inline long some_count(long lo)
    {
#ifdef VF_NATIVE
        return nd_lrange(lo, 6);
#else
        return nd_lrange(lo, INT_MAX);
#endif
    }
    template<typename G> struct par
    {
        static std::shared_ptr<G> *g;
        // a parallel group of n tasks, as left by n calls of addTask (C10)
        static void make(int limit, bool shared)
        {
            start_group();
            g_limit = limit;
            g = new std::shared_ptr<G>(new G(g_sched, "g", any_prio(), 0, limit));
            g_n = some_count(1);
            g_k = nd_lrange(0, g_n - 1);
            vf_witness(g_k);
            make_witness(shared);
            vf_vec(&(*g)->tasks_, sizeof(task_handle), g_n, g_k, task_slot);
            reinterpret_cast<long&>((*g)->activeTasksCount_) = g_n;
        }
    };
    template<typename G> std::shared_ptr<G> *par<G>::g;
    template<typename G> struct seq
    {
        static std::shared_ptr<G> *g;
        static long head, tail;
        // a sequence with the tasks [head, tail) left
        static void make(long least, bool shared)
        {
            start_group();
            g = new std::shared_ptr<G>(new G(g_sched, "g", any_prio()));
            head = nd_lrange(0, 1L << 32);
            g_n = some_count(least);
            tail = head + g_n;
            g_k = head + (g_n > 0 ? nd_lrange(0, g_n - 1) : 0);
            vf_witness(g_k);
            make_witness(shared);
            vf_deq(&(*g)->tasks_, sizeof(task_handle), head, tail, g_k, task_slot);
        }
        static long left() { return long((*g)->tasks_.size()); }
    };
    template<typename G> std::shared_ptr<G> *seq<G>::g;
    template<typename G> long seq<G>::head;
    template<typename G> long seq<G>::tail;
    inline long &raw_long(std::atomic<size_t> &a) { return reinterpret_cast<long&>(a); }
}
