// Ghost model of tasks, groups and contexts for the contracts of the scheduling classes.
#pragma once
#include "sem_model.h"
#include <oqpi.hpp>
namespace spec
{
    using oqpi::task_base; using oqpi::task_group_base; using oqpi::task_handle; using oqpi::task_priority; using oqpi::task_type;
    using group_sptr = oqpi::task_group_sptr;
    using group_base = oqpi::task_group_base;

    template<typename A> inline bool &raw(A &a) { return reinterpret_cast<bool&>(a); }          // an atomic flag, seen by the specification
    inline long off_grabbed() { return offsetof(task_base, grabbed_); }
    inline task_priority any_level() { return task_priority(nd_range(0, 4)); }
    inline task_priority any_prio() { const int p = nd_range(0, int(task_priority::inherit)); vf_assume(p != int(task_priority::count)); return task_priority(p); }

    // ---- a task as groups, handles and the scheduler see it: any class derived from task_base
    struct stub_task : task_base
    {
        stub_task(task_priority p) : task_base(p) {}
        ~stub_task() override { ++*destroyed(); }
        static long *destroyed() { static long n; return &n; }
        bool own = false;           // claimed by the thread under contract
        long id = -1;
        int  claims = 0, runs = 0, stRuns = 0, waits = 0, activeWaits = 0, parentSet = 0, parentTold = 0;
        void execute() override;
        void executeSingleThreaded() override;
        void wait() override { ++waits; }
        void activeWait() override { ++activeWaits; }
        void onParentGroupSet() override { ++parentSet; }
    };
    inline stub_task *of_grabbed(void *p) { return static_cast<stub_task*>(reinterpret_cast<task_base*>(static_cast<char*>(p) - off_grabbed())); }
    void (*g_on_execute)(stub_task*);
    void (*g_on_execute_st)(stub_task*);
    inline void stub_task::execute()
    {
        vf_assert(own, "only the thread that claimed a task runs it");
        vf_assert(runs == 0, "a claimed task is run once");
        ++runs;
        if (g_on_execute) g_on_execute(this);
        raw(done_) = true;
    }
    inline void stub_task::executeSingleThreaded()
    {
        ++stRuns;
        if (g_on_execute_st) g_on_execute_st(this);
        raw(grabbed_) = true; raw(done_) = true;
    }
    // the claim of a task: other threads may take it at any time, nobody ever gives it back
    inline void claim_rely(void *p) { bool &b = *static_cast<bool*>(p); b = bool(b | vf_nd_bool()); }
    inline void claim_guar(void *p, long o, long n, long)
    {
        vf_assert(n != 0, "a claim is never given back");
        stub_task *t = of_grabbed(p);
        t->own = bool(t->own | ((o == 0) & (n != 0)));
        t->claims += (o == 0) ? 1 : 0;
    }
    inline void share_claim(stub_task *t) { vf_shared(&t->grabbed_, 1, claim_rely, claim_guar); }

    // ---- a group a task or group may belong to
    struct stub_group : group_base
    {
        stub_group(task_priority p = task_priority::normal) : group_base(p) {}
        ~stub_group() override { ++g_gone(); }
        static int &g_gone() { static int n; return n; }
        int told = 0;
        void (*on_told)() = nullptr;
        void addTask(task_handle) override {}
        void oneTaskDone() override { ++told; if (on_told) on_told(); }
        bool empty() const override { return false; }
        void execute() override {}
        void executeSingleThreaded() override {}
        void wait() override {}
        void activeWait() override {}
        void onParentGroupSet() override {}
    };

    // ---- phases of an execution: the events have to occur exactly in this order
    int g_phase;
    inline void phase(int from, int to, const char *what) { vf_assert(g_phase == from, what); g_phase = to; }
}
