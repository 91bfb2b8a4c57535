// Bounded scenario suite on the real code through its public interface only: api PROPERTY. It stands in where a contract
// (which names private state) does not fit a tree any more; nothing it shows is counted as proved.
#define OQPI_USE_DEFAULT
#include <oqpi.hpp>
#include "rp.h"
#include <thread>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <numeric>
#include <cmath>
#include <pthread.h>
#include <sched.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
using namespace oqpi;
using namespace std::chrono;
typedef std::vector<std::string> Log;
static std::mutex g_m;
static Log g_log;
static void note(const std::string &s) { std::lock_guard<std::mutex> l(g_m); g_log.push_back(s); }
static Log taken() { std::lock_guard<std::mutex> l(g_m); Log r; r.swap(g_log); return r; }
static bool is(const Log &a, const Log &b) { if (a == b) return true; std::string s, t; for (auto &x : a) s += x + " "; for (auto &x : b) t += x + " "; printf("observed: %s\nexpected: %s\n", s.c_str(), t.c_str()); return false; }

// ---- a scheduler that only records
struct rec
{
    std::vector<task_handle> got; int workers = 3, total = 5, asked = -1;
    task_handle add(const task_handle &h) { note("add"); got.push_back(h); return h; }
    task_handle add(task_handle &&h) { note("add"); got.push_back(h); return std::move(h); }
    int32_t workersCount(task_priority p) const { const_cast<rec*>(this)->asked = int(p); return workers; }
    int32_t workersTotalCount() const { return total; }
};
// ---- an event that records
struct tctx
{
    tctx(task_base *o, const std::string &n) : o_(o), n_(n) {}
    void onAddedToGroup(const task_group_sptr &g) { note(n_ + ".added"); }
    void onPreExecute() { note(n_ + ".pre"); if (o_->isDone()) note("early"); }
    void onPostExecute() { note(n_ + ".post"); if (!o_->isDone()) note("late"); }
    task_base *o_; std::string n_;
};
struct gctx
{
    gctx(task_group_base *o, const std::string &n) : o_(o), n_(n) {}
    void onAddedToGroup(const task_group_sptr &) { note(n_ + ".gadded"); }
    void onTaskAdded(const task_handle &h) { note(n_ + ".taskadded" + (h.isValid() ? "" : "?")); }
    void onPreExecute() { note(n_ + ".gpre"); if (o_->isDone()) note("early"); }
    void onPostExecute() { note(n_ + ".gpost"); if (!o_->isDone()) note("late"); }
    task_group_base *o_; std::string n_;
};
using TC = task_context_container<tctx>; using GC = group_context_container<gctx>;
using EV = manual_reset_event_interface<>;
using H = helpers<rec, GC, TC, EV>;
template<> rec H::scheduler_ = {};
static rec &sched() { return H::scheduler_; }
static void fresh() { sched().got.clear(); taken(); }
static Log only_runs(const Log &l) { Log r; for (auto &s : l) if (s.find('.') == std::string::npos && s != "add" && s != "late") r.push_back(s); return r; }

static void drain(rec &s, unsigned order = 0)
{
    size_t bound = 0;
    while (!s.got.empty())
    {
        EXPECT(++bound < 100000);
        const size_t i = order ? order % s.got.size() : 0;
        auto h = s.got[i]; s.got.erase(s.got.begin() + i);
        if (h.tryGrab()) h.execute();
    }
}
// ---- tasks: C04 C05 C06 C26 C29
static void tasks()
{
    CASE("a task in a group, executed through a handle");
    fresh();
    int runs = 0; std::string seen;
    auto t = H::make_task<task_type::waitable>("t", task_priority::low, [&](int a, const std::string &s) { ++runs; note("fn"); seen = s; return a * 2; }, 21, std::string("arg"));
    auto o = H::make_task<task_type::waitable>("o", [&] { note("other"); });
    auto g = H::make_parallel_group<task_type::waitable>("g");
    EXPECT(!t->isGrabbed() && !t->isDone() && !t->getParentGroup() && t->getUID() != 0 && t->getUID() != o->getUID() && t->getUID() != g->getUID() && o->getUID() != 0 && g->getUID() != 0);
    EXPECT(t->getPriority() == task_priority::low && o->getPriority() == task_priority::normal);
    task_handle h(t), k(o);
    g->addTask(h); g->addTask(k);
    EXPECT(is(taken(), { "t.added", "g.taskadded", "o.added", "g.taskadded" }));
    EXPECT(h.getParentGroup().get() == g.get() && k.getParentGroup().get() == g.get());
    EXPECT(h.tryGrab()); EXPECT(!h.tryGrab()); EXPECT(!task_handle(t).tryGrab()); EXPECT(h.isGrabbed() && !h.isDone());
    h.execute();
    EXPECT(runs == 1 && seen == "arg" && t->isDone() && !g->isDone() && !t->getParentGroup());
    EXPECT(is(taken(), { "t.pre", "fn", "t.post" }));
    EXPECT(t->getResult() == 42 && t->waitForResult() == 42); h.activeWait(); h.wait(); EXPECT(runs == 1);
    EXPECT(k.tryGrab()); k.execute();
    EXPECT(g->isDone() && is(taken(), { "o.pre", "other", "o.post", "g.gpost" }));
    EXPECT(!t->tryGrab() && t->isDone());
    CASE("single-threaded execution of a task in a group");
    {
        auto g2 = H::make_parallel_group<task_type::waitable>("g2");
        task_handle a(H::make_task<task_type::waitable>("a", [&] { note("fa"); }));
        g2->addTask(a); taken();
        a.executeSingleThreaded();
        EXPECT(a.isDone() && a.isGrabbed() && !g2->isDone()); a.executeSingleThreaded();
        EXPECT(is(taken(), { "a.pre", "fa", "a.post" })); a.wait();
    }
    CASE("activeWait on an unclaimed task runs it, on a claimed one waits for it");
    {
        task_handle a(H::make_task<task_type::waitable>("a", [&] { note("fa"); }));
        a.activeWait(); EXPECT(a.isDone()); a.activeWait(); EXPECT(is(taken(), { "a.pre", "fa", "a.post" }));
        auto b = H::make_task<task_type::waitable>("b", [&] { std::this_thread::sleep_for(milliseconds(30)); return 7; });
        task_handle hb(b); EXPECT(hb.tryGrab());
        std::atomic<bool> finished(false);
        std::thread th([&] { std::this_thread::sleep_for(milliseconds(20)); hb.execute(); finished = true; });
        task_handle(hb).activeWait(); EXPECT(b->isDone() && b->getResult() == 7);
        th.join(); b->wait(); EXPECT(b->waitForResult() == 7);
    }
    CASE("many claimers");
    for (int r = 0; r < 200; ++r)
    {
        std::atomic<int> won(0), ran(0), go(0);
        task_handle a(H::make_task<task_type::waitable>("a", [&] { ++ran; }));
        std::vector<std::thread> ts; for (int i = 0; i < 3; ++i) ts.emplace_back([&, a]() mutable { ++go; while (go < 3); if (a.tryGrab()) { ++won; a.execute(); } });
        for (auto &x : ts) x.join(); EXPECT(won == 1 && ran == 1 && a.isDone());
    }
    CASE("ids made by several threads");
    {
        std::vector<std::vector<uint64_t>> ids(4); std::vector<std::thread> ts;
        for (int i = 0; i < 4; ++i) ts.emplace_back([&, i] { for (int k = 0; k < 500; ++k) ids[i].push_back(make_task<task_type::fire_and_forget, EV, empty_task_context>("x", task_priority::normal, [] {})->getUID()); });
        for (auto &x : ts) x.join(); std::set<uint64_t> s; for (auto &v : ids) for (auto u : v) { EXPECT(u != 0); s.insert(u); } EXPECT(s.size() == 2000);
    }
    CASE("moving a task");
    for (int stage = 0; stage < 3; ++stage)
    {
        struct fn { int operator()() const { return 11; } } f;
        task<task_type::waitable, EV, empty_task_context, decltype(f)> a("a", task_priority::high, f), b("b", task_priority::low, f);
        auto g3 = H::make_parallel_group<task_type::waitable>("g3");
        const auto u = a.getUID();
        if (stage) EXPECT(a.tryGrab()); if (stage == 2) a.execute();
        auto c(std::move(a));
        EXPECT(c.getUID() == u && c.getPriority() == task_priority::high && c.isGrabbed() == (stage > 0) && c.isDone() == (stage == 2));
        if (stage == 2) { EXPECT(c.getResult() == 11); c.wait(); }
        b = std::move(c);
        EXPECT(b.getUID() == u && b.getPriority() == task_priority::high && b.isGrabbed() == (stage > 0) && b.isDone() == (stage == 2));
        if (stage == 2) { EXPECT(b.getResult() == 11); b.wait(); }
    }
    CASE("handles");
    {
        auto sp = H::make_task<task_type::waitable>("x", task_priority::high, [] {});
        std::weak_ptr<task_base> w = sp;
        task_handle a(sp); task_handle b(a), c; EXPECT(a.isValid() && b.isValid() && !c.isValid() && !task_handle().isValid());
        c = b; EXPECT(c.isValid() && b.isValid() && c.getUID() == a.getUID() && a.getPriority() == task_priority::high);
        task_handle d(std::move(b)); EXPECT(d.isValid() && !b.isValid()); b = std::move(c); EXPECT(b.isValid() && !c.isValid());
        b = *&b; EXPECT(b.isValid() && b.getUID() == sp->getUID());
        EXPECT(b.tryGrab() && d.isGrabbed() && a.isGrabbed()); a.execute(); EXPECT(b.isDone() && d.isDone());
        a.reset(); EXPECT(!a.isValid() && b.isValid()); sp.reset(); EXPECT(!w.expired()); b.reset(); EXPECT(!w.expired()); d.reset(); EXPECT(w.expired());
    }
    fresh();
}
// ---- groups: C04 C07 C08 C09 C10 C16 C27
static void groups()
{
    for (int n = 1; n <= 6; ++n) for (int limit = -1; limit <= 4; ++limit) for (unsigned order = 0; order < 4; ++order) for (int claim = -1; claim < n; ++claim)
    {
        CASE("parallel group of %d tasks, limit %d, completion order %u, task %d claimed by somebody else", n, limit, order, claim);
        fresh();
        auto g = H::make_parallel_group<task_type::waitable>("g", task_priority::normal, 0, limit);
        auto outer = H::make_parallel_group<task_type::waitable>("outer");
        std::vector<int> runs(n); std::vector<task_handle> ts;
        for (int i = 0; i < n; ++i) { ts.emplace_back(H::make_task<task_type::waitable>("t" + std::to_string(i), [&, i] { ++runs[i]; })); g->addTask(ts[i]); g->addTask(task_handle()); }
        EXPECT(g->empty() == false);
        outer->addTask(task_handle(g));
        if (claim >= 0) EXPECT(ts[claim].tryGrab());
        fresh();
        EXPECT(g->tryGrab()); g->execute();
        auto l = taken(); EXPECT(!l.empty() && l[0] == "g.gpre"); EXPECT(std::count(l.begin(), l.end(), "g.gpre") == 1);
        if (limit > 0 && n > 1) EXPECT((int)sched().got.size() <= limit);
        if (limit <= 0) for (int i = 1; i < n; ++i) if (i != claim) { bool f = false; for (auto &h : sched().got) f |= h.getUID() == ts[i].getUID(); EXPECT(f); }
        bool early = g->isDone(); int left = 0; for (auto &h : ts) left += !h.isDone(); EXPECT(early == (left == 0));
        size_t bound = 0;
        bool mine = claim >= 0;
        while (!sched().got.empty() || mine)
        {
            EXPECT(++bound < 1000); EXPECT(!g->isDone());
            if (limit > 0 && claim < 0) EXPECT((int)sched().got.size() <= limit);
            if (mine && (order % 2 || sched().got.empty())) { mine = false; ts[claim].execute(); continue; }
            const size_t i = order % sched().got.size(); auto h = sched().got[i]; sched().got.erase(sched().got.begin() + i);
            if (h.tryGrab()) h.execute();
            int left = 0; for (auto &t : ts) left += !t.isDone(); EXPECT(g->isDone() == (left == 0));
        }
        EXPECT(g->isDone()); for (int i = 0; i < n; ++i) EXPECT(runs[i] == 1 && ts[i].isDone() && !ts[i].getParentGroup());
        l = taken(); EXPECT(std::count(l.begin(), l.end(), "g.gpost") == (early ? 0 : 1)); EXPECT(std::count(l.begin(), l.end(), "early") + std::count(l.begin(), l.end(), "late") == 0);
        if (!early) { EXPECT(l.size() >= 2 && l[l.size() - 2] == "g.gpost" && l.back() == "outer.gpost"); }
        EXPECT(outer->isDone() == true || outer->empty()); g->wait(); g->activeWait();
        for (int i = 0; i < n; ++i) EXPECT(runs[i] == 1);
    }
    for (int n = 1; n <= 6; ++n) for (int how = 0; how < 3; ++how)
    {
        CASE("parallel group of %d tasks, active wait (%d: 0 before, 1 after execution, 2 some claimed)", n, how);
        fresh();
        auto g = H::make_parallel_group<task_type::waitable>("g", task_priority::normal, n, 0);
        std::vector<int> runs(n); std::vector<task_handle> ts;
        for (int i = 0; i < n; ++i) { ts.emplace_back(H::make_task<task_type::waitable>("t", [&, i] { ++runs[i]; })); g->addTask(ts[i]); }
        if (how) { EXPECT(g->tryGrab()); g->execute(); }
        std::thread other;
        if (how == 2 && n > 1) { EXPECT(ts[n - 1].tryGrab()); other = std::thread([&] { std::this_thread::sleep_for(milliseconds(20)); ts[n - 1].execute(); }); }
        g->activeWait(); EXPECT(g->isDone()); for (int i = 0; i < n; ++i) EXPECT(runs[i] == 1 && ts[i].isDone());
        if (other.joinable()) other.join();
    }
    for (int n = 1; n <= 6; ++n)
    {
        CASE("sequence of %d tasks", n);
        fresh();
        auto g = H::make_sequence_group<task_type::waitable>("s"); Log want; std::vector<task_handle> ts;
        for (int i = 0; i < n; ++i) { ts.emplace_back(H::make_task<task_type::waitable>("t", [i] { note(std::to_string(i)); })); g->addTask(ts[i]); g->addTask(task_handle()); want.push_back(std::to_string(i)); }
        for (auto &h : ts) EXPECT(h.getParentGroup().get() == g.get());
        auto al = taken(); EXPECT(std::count(al.begin(), al.end(), "t.added") == n && std::count(al.begin(), al.end(), "s.taskadded") == n && (int)al.size() == 2 * n);
        fresh(); EXPECT(g->tryGrab()); g->execute();
        Log l = taken(); EXPECT(!l.empty() && l[0] == "s.gpre");
        for (int i = 1; i < n; ++i)
        {
            EXPECT(!g->isDone() && sched().got.size() == 1 && sched().got[0].getUID() == ts[i].getUID() && ts[i - 1].isDone() && !ts[i].isGrabbed());
            auto h = sched().got[0]; sched().got.clear(); EXPECT(h.tryGrab()); h.execute(); auto m = taken(); l.insert(l.end(), m.begin(), m.end());
        }
        EXPECT(g->isDone() && sched().got.empty()); EXPECT(is(only_runs(l), want)); EXPECT(l.back() == "s.gpost" && std::count(l.begin(), l.end(), "s.gpost") == 1); g->wait();
    }
    for (int n = 1; n <= 6; ++n) for (int seq = 0; seq < 2; ++seq) for (int limit = -1; limit <= 2; ++limit)
    {
        CASE("single-threaded execution of a %s of %d tasks, limit %d", seq ? "sequence" : "parallel group", n, limit);
        fresh();
        task_group_sptr g; if (seq) g = H::make_sequence_group<task_type::waitable>("g"); else g = H::make_parallel_group<task_type::waitable>("g", task_priority::normal, 0, limit);
        auto me = std::this_thread::get_id(); Log want; bool same = true;
        for (int i = 0; i < n; ++i) { g->addTask(task_handle(H::make_task<task_type::waitable>("t", [i, me, &same] { note(std::to_string(i)); same &= std::this_thread::get_id() == me; }))); want.push_back(std::to_string(i)); }
        fresh(); EXPECT(!g->isGrabbed()); g->executeSingleThreaded();
        auto l = taken(); EXPECT(is(only_runs(l), want)); EXPECT(same && l[0] == "g.gpre" && std::count(l.begin(), l.end(), "g.gpre") == 1 && std::count(l.begin(), l.end(), "g.gpost") == 1);
        EXPECT(std::count(l.begin(), l.end(), "add") == 0 && sched().got.empty() && g->isDone() && g->isGrabbed() && g->empty()); g->wait();
        g->executeSingleThreaded(); EXPECT(taken().empty());
    }
    CASE("single-threaded execution of a claimed group does nothing");
    {
        fresh(); auto g = H::make_parallel_group<task_type::waitable>("g"); g->addTask(task_handle(H::make_task<task_type::waitable>("t", [] { note("x"); })));
        EXPECT(g->tryGrab()); fresh(); g->executeSingleThreaded(); EXPECT(taken().empty() && !g->isDone() && !g->empty());
    }
}
// ---- contexts: C16
template<int N> struct mctx
{
    template<class O> mctx(O *o, const std::string &n) { note("c" + std::to_string(N) + n + (o ? "" : "?")); }
    template<class O> mctx(O *o) { note("c" + std::to_string(N) + (o ? "" : "?")); }
    static void n(const char *s) { note(s + std::to_string(N)); }
    void onAddedToGroup(const task_group_sptr &g) { n(g ? "added" : "?"); } void onPreExecute() { n("pre"); } void onPostExecute() { n("post"); }
    void onTaskAdded(const task_handle &h) { n(h.isValid() ? "ta" : "?"); }
    void onStart() { n("start"); } void onStop() { n("stop"); } void onIdle() { n("idle"); } void onActive() { n("active"); }
    void onPreExecute(const task_handle &h) { n(h.isValid() ? "wpre" : "?"); } void onPostExecute(const task_handle &h) { n(h.isValid() ? "wpost" : "?"); }
};
static Log thrice(const char *s) { return { s + std::string("0"), s + std::string("1"), s + std::string("2") }; }
static void contexts()
{
    fresh();
    CASE("three contexts on a task, a group and a worker");
    context_container<task_base, mctx<0>, mctx<1>, mctx<2>> t(reinterpret_cast<task_base*>(8), std::string("n")); EXPECT(is(taken(), { "c0n", "c1n", "c2n" }));
    auto g = H::make_parallel_group<task_type::waitable>("g"); task_handle h(H::make_task<task_type::waitable>("x", [] {})); fresh();
    t.task_onAddedToGroup(g); EXPECT(is(taken(), thrice("added"))); t.task_onPreExecute(); EXPECT(is(taken(), thrice("pre"))); t.task_onPostExecute(); EXPECT(is(taken(), thrice("post")));
    context_container<task_group_base, mctx<0>, mctx<1>, mctx<2>> gr(reinterpret_cast<task_group_base*>(8), std::string("n")); taken();
    gr.group_onAddedToGroup(g); EXPECT(is(taken(), thrice("added"))); gr.group_onTaskAdded(h); EXPECT(is(taken(), thrice("ta")));
    gr.group_onPreExecute(); EXPECT(is(taken(), thrice("pre"))); gr.group_onPostExecute(); EXPECT(is(taken(), thrice("post")));
    context_container<worker_base, mctx<0>, mctx<1>, mctx<2>> w(reinterpret_cast<worker_base*>(8)); EXPECT(is(taken(), { "c0", "c1", "c2" }));
    w.worker_onStart(); EXPECT(is(taken(), thrice("start"))); w.worker_onStop(); EXPECT(is(taken(), thrice("stop"))); w.worker_onIdle(); EXPECT(is(taken(), thrice("idle"))); w.worker_onActive(); EXPECT(is(taken(), thrice("active")));
    w.worker_onPreExecute(h); EXPECT(is(taken(), thrice("wpre"))); w.worker_onPostExecute(h); EXPECT(is(taken(), thrice("wpost")));
    groups();
}
// ---- the queue: C18
static void queue()
{
    CASE("a queue of numbers against a model");
    concurrent_queue<int> q; std::deque<int> m; unsigned r = 12345;
    for (int i = 0; i < 20000; ++i)
    {
        r = r * 1103515245 + 12345; int v = -1;
        switch ((r >> 16) % 4)
        {
            case 0: q.push(i); m.push_back(i); break;
            case 1: { int c = i; q.push(c); m.push_back(c); EXPECT(c == i); break; }
            case 2: { bool ok = q.tryPop(v); EXPECT(ok == !m.empty()); if (ok) { EXPECT(v == m.front()); m.pop_front(); } else EXPECT(v == -1); break; }
            default: EXPECT(q.empty() == m.empty());
        }
    }
    CASE("two producers, two consumers");
    for (int rep = 0; rep < 20; ++rep)
    {
        concurrent_queue<std::pair<int, int>> c; std::vector<std::thread> ts; std::vector<std::vector<std::pair<int, int>>> got(2); std::atomic<int> done(0);
        for (int p = 0; p < 2; ++p) ts.emplace_back([&, p] { for (int i = 0; i < 2000; ++i) c.push(std::make_pair(p, i)); ++done; });
        for (int p = 0; p < 2; ++p) ts.emplace_back([&, p] { for (;;) { const bool last = done == 2; std::pair<int, int> v; if (c.tryPop(v)) got[p].push_back(v); else if (last) break; } });
        for (auto &t : ts) t.join();
        EXPECT(c.empty() && got[0].size() + got[1].size() == 4000);
        for (auto &v : got) { int next[2] = { -1, -1 }; for (auto &x : v) { EXPECT(x.second > next[x.first]); next[x.first] = x.second; } }
    }
}
// ---- the scheduler and its workers: C11 C12 C13 C14 C15 C17 C30
struct wctx { wctx(worker_base *w) : w_(w) {} void n(const char *s) { note(w_->getName() + s); } void onStart() { n(".start"); } void onStop() { n(".stop"); } void onIdle() { n(".idle"); } void onActive() { n(".active"); }
    void onPreExecute(const task_handle &h) { n(h.isValid() && h.isGrabbed() && !h.isDone() ? ".wpre" : ".?"); } void onPostExecute(const task_handle &h) { n(h.isValid() && h.isDone() ? ".wpost" : ".?"); } worker_base *w_; };
using WC = worker_context_container<wctx>;
static worker_config conf(const char *n, worker_priority p, int c) { worker_config w; w.threadAttributes.name_ = n; w.workerPrio = p; w.count = c; return w; }
typedef scheduler<concurrent_queue> S;
template<class F> static void until(F f) { for (int i = 0; i < 20000 && !f(); ++i) std::this_thread::sleep_for(microseconds(500)); }
static void scheduling()
{
    {
        CASE("registering workers");
        S s; worker_config cs[] = { conf("a", worker_priority::wprio_high, 2), conf("b", worker_priority::wprio_any, 1), conf("c", worker_priority::wprio_normal_or_low, 3) };
        s.registerWorkers<thread_interface<>, semaphore_interface<>, WC>(cs);
        EXPECT(s.workersTotalCount() == 6 && s.workersCount(task_priority::high) == 3 && s.workersCount(task_priority::above_normal) == 4 && s.workersCount(task_priority::normal) == 4 && s.workersCount(task_priority::below_normal) == 4 && s.workersCount(task_priority::low) == 4);
        EXPECT(s.isIdle()); taken(); s.start(); s.stop();
        auto l = taken(); std::sort(l.begin(), l.end()); for (auto n : { "a0", "a1", "b", "c0", "c1", "c2" }) { EXPECT(std::count(l.begin(), l.end(), std::string(n) + ".start") == 1); EXPECT(std::count(l.begin(), l.end(), std::string(n) + ".stop") == 1); }
    }
    for (int workers = 1; workers <= 3; ++workers)
    {
        CASE("priorities with %d workers: tasks queued while every worker is busy", workers);
        S s; s.registerWorker<thread_interface<>, semaphore_interface<>, WC>(conf("w", worker_priority::wprio_any, workers)); taken(); s.start();
        std::atomic<int> in(0); std::atomic<bool> go(false); std::vector<task_handle> block;
        for (int i = 0; i < workers; ++i) block.push_back(s.add(task_handle(make_task<task_type::waitable, EV, empty_task_context>("b", task_priority::normal, [&] { ++in; while (!go) std::this_thread::yield(); }))));
        until([&] { return in == workers; }); EXPECT(in == workers); EXPECT(!s.isIdle());
        auto g = make_parallel_group<task_type::waitable, empty_group_context>(s, "g", task_priority::below_normal); auto g2 = make_parallel_group<task_type::waitable, empty_group_context>(s, "g2", task_priority::inherit);
        std::vector<task_handle> ts; std::atomic<int> ran(0);
        const int order[] = { 4, 2, 0, 3, 1 };
        if (workers == 1) taken();
        for (int i : order) ts.push_back(s.add(task_handle(make_task<task_type::waitable, EV, empty_task_context>("p", task_priority(i), [i, &ran] { note(std::to_string(i)); ++ran; }))));
        task_handle inh(make_task<task_type::waitable, EV, empty_task_context>("i", task_priority::inherit, [&ran] { note("inh"); ++ran; }));
        g2->addTask(inh); g->addTask(task_handle(g2)); EXPECT(s.add(inh).getUID() == inh.getUID());
        task_handle claimed(make_task<task_type::waitable, EV, empty_task_context>("c", task_priority::high, [] { note("claimed"); })); EXPECT(claimed.tryGrab()); EXPECT(s.add(claimed).getUID() == claimed.getUID());
        EXPECT(!s.add(task_handle()).isValid()); EXPECT(!s.isIdle());
        go = true; for (auto &t : ts) t.wait(); inh.wait(); for (auto &b : block) b.wait(); EXPECT(ran == 6 && !claimed.isDone());
        if (workers == 1) { Log l; until([&] { return s.isIdle(); }); EXPECT(is(only_runs(taken()), { "0", "1", "2", "3", "inh", "4" })); }
        until([&] { return s.isIdle(); }); EXPECT(s.isIdle()); s.stop();
        auto l = taken(); if (workers == 1) continue;
        EXPECT(std::count(l.begin(), l.end(), "claimed") == 0);
        for (int w = 0; w < workers; ++w)
        {
            const auto n = "w" + std::to_string(w); Log mine; for (auto &e : l) if (e.compare(0, n.size() + 1, n + ".") == 0) mine.push_back(e.substr(n.size()));
            EXPECT(mine.size() >= 2 && mine.front() == ".start" && mine.back() == ".stop");
            for (size_t i = 1; i + 1 < mine.size(); ++i) { const auto &p = mine[i - 1], &c = mine[i]; if (c == ".idle") EXPECT(p == ".start" || p == ".active" || p == ".wpost"); else if (c == ".active") EXPECT(p == ".idle"); else if (c == ".wpre") EXPECT(p == ".active"); else if (c == ".wpost") EXPECT(p == ".wpre"); else EXPECT(!"unexpected hook"); }
        }
    }
    CASE("masks: nobody works on a priority it was not registered for");
    {
        S s; s.registerWorker<thread_interface<>, semaphore_interface<>>(conf("hi", worker_priority::wprio_normal_or_high, 2)); s.registerWorker<thread_interface<>, semaphore_interface<>>(conf("lo", worker_priority::wprio_low, 1)); s.start();
        std::mutex m; std::map<int, std::set<std::thread::id>> who; std::vector<task_handle> ts;
        for (int i = 0; i < 100; ++i) { const int p = i % 5; ts.push_back(s.add(task_handle(make_task<task_type::waitable, EV, empty_task_context>("t", task_priority(p), [&, p] { std::lock_guard<std::mutex> l(m); who[p].insert(std::this_thread::get_id()); })))); }
        for (auto &t : ts) t.wait(); s.stop();
        EXPECT(who[int(task_priority::low)].size() == 1); for (int p = 0; p < 5; ++p) if (p != int(task_priority::low)) for (auto &id : who[p]) EXPECT(!who[int(task_priority::low)].count(id));
    }
    CASE("many short tasks from several threads, nothing lost, nothing run twice");
    for (int rep = 0; rep < 15; ++rep)
    {
        S s; s.registerWorker<thread_interface<>, semaphore_interface<>>(conf("w", worker_priority::wprio_any, 4)); s.start();
        std::atomic<int> ran(0); std::vector<std::thread> ts;
        for (int p = 0; p < 3; ++p) ts.emplace_back([&, p] { for (int i = 0; i < 100; ++i) { auto h = s.add(task_handle(make_task<task_type::waitable, EV, empty_task_context>("t", task_priority((i + p) % 5), [&] { ++ran; }))); if (i % 3 == 0) h.wait(); else if (i % 3 == 1) h.activeWait(); if (i % 16 == 0) std::this_thread::sleep_for(microseconds(200)); } });
        for (auto &t : ts) t.join(); until([&] { return ran == 300; }); EXPECT(ran == 300);
        s.waitUntilIdle(milliseconds(1), seconds(20)); EXPECT(s.isIdle()); s.stop(); EXPECT(ran == 300);
    }
    CASE("stopping while tasks are running: what was begun is finished, and the destructor stops");
    for (int rep = 0; rep < 60; ++rep)
    {
        std::atomic<int> begun(0), ended(0); std::vector<task_handle> hs;
        {
            S s; s.registerWorker<thread_interface<>, semaphore_interface<>>(conf("w", worker_priority::wprio_any, 3)); s.start();
            for (int i = 0; i < 40; ++i) hs.push_back(s.add(task_handle(make_task<task_type::waitable, EV, empty_task_context>("t", task_priority::normal, [&] { ++begun; std::this_thread::yield(); ++ended; }))));
            if (rep % 3) std::this_thread::sleep_for(microseconds(rep * 5));
            if (rep % 2) s.stop();
        }
        EXPECT(begun == ended); for (auto &h : hs) EXPECT(h.isGrabbed() == h.isDone());
    }
    CASE("waitUntilIdle respects its maximum");
    {
        S s; s.registerWorker<thread_interface<>, semaphore_interface<>>(conf("w", worker_priority::wprio_any, 1)); s.start();
        std::atomic<bool> go(false); auto h = s.add(task_handle(make_task<task_type::waitable, EV, empty_task_context>("t", task_priority::normal, [&] { while (!go) std::this_thread::yield(); })));
        auto t0 = steady_clock::now(); s.waitUntilIdle(milliseconds(1), milliseconds(40)); EXPECT(steady_clock::now() - t0 >= milliseconds(39)); EXPECT(!s.isIdle());
        go = true; h.wait(); s.waitUntilIdle(milliseconds(1), seconds(20)); EXPECT(s.isIdle()); s.stop();
    }
}
// ---- sync objects: C19..C23
static std::string uniq(const char *s) { static int n; return "vf_" + std::to_string(getpid()) + "_" + s + std::to_string(n++); }
static bool exists(const std::string &n) { sem_t *h = sem_open(("/" + n).c_str(), 0); if (h == SEM_FAILED) return false; sem_close(h); return true; }
template<class F> static double took(F f) { auto a = steady_clock::now(); f(); return duration<double>(steady_clock::now() - a).count(); }
static void syncs()
{
    for (int init = 0; init < 4; ++init) for (int n = 0; n < 5; ++n)
    {
        CASE("semaphore with %d tokens, notify(%d)", init, n);
        semaphore_interface<> s(init, 9); EXPECT(s.isValid()); s.notify(n); int c = 0; while (s.tryWait()) ++c; EXPECT(c == init + n);
        s.notifyOne(); EXPECT(s.wait()); EXPECT(!s.tryWait()); s.notifyAll(); c = 0; while (s.waitFor(microseconds(1))) ++c; EXPECT(c == 9);
        EXPECT(!s.waitFor(milliseconds(-5))); EXPECT(!s.waitFor(seconds(-3)));
        semaphore_interface<> t(std::move(s)); EXPECT(!s.isValid() && t.isValid()); t.notifyOne(); EXPECT(t.tryWait() && !t.tryWait());
        semaphore_interface<> u(1, 1); u = std::move(t); EXPECT(u.isValid() && !t.isValid() && !u.tryWait()); u.notifyOne(); EXPECT(u.tryWait());
    }
    CASE("timed waits");
    {
        semaphore_interface<> s(0, 1); for (int ms : { 0, 1, 20, 50 }) { bool r = true; double d = took([&] { r = s.waitFor(milliseconds(ms)); }); EXPECT(!r && d >= ms / 1000.0 - 0.002 && d < ms / 1000.0 + 5); }
        for (int i = 0; i < 12; ++i) { bool r = true; double d = took([&] { r = s.waitFor(nanoseconds(90000000)); }); EXPECT(!r && d >= 0.088 && d < 5); }
        bool r = true; double d = took([&] { r = s.waitUntil(steady_clock::now() + milliseconds(30)); }); EXPECT(!r && d >= 0.02 && d < 5);
        s.notifyOne(); EXPECT(s.waitFor(seconds(5))); s.notifyOne(); EXPECT(s.waitUntil(steady_clock::now() + seconds(5)));
        std::thread th([&] { std::this_thread::sleep_for(milliseconds(30)); s.notifyOne(); }); EXPECT(s.waitFor(seconds(20))); th.join();
    }
    CASE("interrupted waits");
    {
        struct sigaction sa = {}; sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, nullptr);
        semaphore_interface<> s(0, 1); auto me = pthread_self(); std::atomic<bool> over(false);
        std::thread th([&] { for (int i = 0; i < 20; ++i) { std::this_thread::sleep_for(milliseconds(3)); pthread_kill(me, SIGUSR1); } over = true; s.notifyOne(); });
        EXPECT(s.wait()); EXPECT(over); th.join();
        over = false; std::thread th2([&] { for (int i = 0; i < 20; ++i) { std::this_thread::sleep_for(milliseconds(3)); pthread_kill(me, SIGUSR1); } over = true; });
        bool r = true; double d = took([&] { r = s.waitFor(milliseconds(150)); }); EXPECT(!r && d >= 0.148); th2.join();
    }
    CASE("auto-reset event");
    { auto_reset_event_interface<> e; EXPECT(e.isValid() && !e.waitFor(milliseconds(1))); e.notify(); e.notify(); e.notify(); EXPECT(e.wait()); EXPECT(!e.waitFor(milliseconds(1))); e.notify(); EXPECT(e.waitFor(seconds(5))); EXPECT(!e.waitFor(milliseconds(-1))); }
    CASE("manual-reset event");
    { manual_reset_event_interface<> e; EXPECT(e.isValid() && !e.waitFor(milliseconds(1))); e.reset(); EXPECT(!e.waitFor(milliseconds(1))); e.notify(); e.notify(); for (int i = 0; i < 4; ++i) EXPECT(e.wait() && e.waitFor(seconds(5))); e.reset(); EXPECT(!e.waitFor(milliseconds(1))); e.reset();
      std::vector<std::thread> ts; std::atomic<int> out(0); for (int i = 0; i < 4; ++i) ts.emplace_back([&] { if (e.wait()) ++out; }); std::this_thread::sleep_for(milliseconds(10)); EXPECT(out == 0); e.notify(); for (auto &t : ts) t.join(); EXPECT(out == 4 && e.wait()); }
    CASE("named mutex");
    {
        const auto n = uniq("m"); global_mutex a(n, sync_object_creation_options::create_if_nonexistent, false); EXPECT(a.isValid());
        global_mutex b(n, sync_object_creation_options::open_existing); EXPECT(b.isValid()); EXPECT(a.lock()); EXPECT(!b.tryLock() && !b.try_lock() && !b.tryLockFor(milliseconds(2)) && !a.tryLock());
        a.unlock(); EXPECT(b.tryLock() && !a.tryLock()); b.unlock(); b.unlock(); EXPECT(a.try_lock() && !b.tryLock()); a.unlock(); EXPECT(a.tryLockFor(seconds(5)) && !b.tryLockUntil(steady_clock::now() + milliseconds(2))); a.unlock();
        const auto n2 = uniq("m"); global_mutex c(n2, sync_object_creation_options::create_if_nonexistent, true), d(n2, sync_object_creation_options::open_existing); EXPECT(c.isValid() && d.isValid() && !d.tryLock()); c.unlock(); EXPECT(d.tryLock()); d.unlock();
        int v = 0; std::vector<std::thread> ts; for (int i = 0; i < 3; ++i) ts.emplace_back([&] { for (int k = 0; k < 2000; ++k) { a.lock(); ++v; a.unlock(); } }); for (auto &t : ts) t.join(); EXPECT(v == 6000);
    }
    CASE("creation modes");
    {
        const auto n = uniq("s"); { semaphore_interface<global_sync_object> o(n, sync_object_creation_options::open_existing); EXPECT(!o.isValid()); } EXPECT(!exists(n));
        {
            semaphore_interface<global_sync_object> a(n, sync_object_creation_options::create_if_nonexistent, 2, 5); EXPECT(a.isValid() && exists(n));
            { semaphore_interface<global_sync_object> x(n, sync_object_creation_options::create_if_nonexistent, 2, 5); EXPECT(!x.isValid()); } EXPECT(exists(n));
            { semaphore_interface<global_sync_object> b(n, sync_object_creation_options::open_existing, 4, 5), c(n, sync_object_creation_options::open_or_create, 3, 5); EXPECT(b.isValid() && c.isValid() && b.tryWait() && c.tryWait() && !a.tryWait()); } EXPECT(exists(n));
            semaphore_interface<global_sync_object> m(std::move(a)); EXPECT(m.isValid() && !a.isValid() && exists(n)); const auto n2 = uniq("s"); semaphore_interface<global_sync_object> k(n2, sync_object_creation_options::open_or_create, 1, 1); EXPECT(exists(n2)); k = std::move(m); EXPECT(k.isValid() && !m.isValid() && !exists(n2) && exists(n));
        }
        EXPECT(!exists(n));
    }
}
// ---- threads: C24 C25
static void threads()
{
    typedef thread_interface<> T;
    CASE("a thread runs its function once with its arguments and can be joined");
    for (int i = 0; i < 50; ++i)
    {
        std::atomic<int> runs(0); std::string got, name; auto token = std::make_shared<int>(5); std::weak_ptr<int> w = token;
        { T t(thread_attributes("worker" + std::to_string(i)), [&](std::string s, std::shared_ptr<int> p) { ++runs; got = s + std::to_string(*p); char b[32] = ""; pthread_getname_np(pthread_self(), b, sizeof b); name = b; }, std::string("x"), std::move(token)); EXPECT(t.joinable()); t.join(); EXPECT(!t.joinable()); t.join(); }
        EXPECT(runs == 1 && got == "x5" && name == "worker" + std::to_string(i)); EXPECT(w.expired());
    }
    CASE("moves, detach, default");
    {
        std::atomic<int> runs(0); T a; EXPECT(!a.joinable()); T b("n", [&] { ++runs; }); T c(std::move(b)); EXPECT(!b.joinable() && c.joinable()); a = std::move(c); EXPECT(a.joinable() && !c.joinable()); c.join(); a.join(); EXPECT(runs == 1);
        T d("n", [&] { ++runs; }); d.detach(); EXPECT(!d.joinable()); d.detach(); d.join(); until([&] { return runs == 2; }); EXPECT(runs == 2);
        std::atomic<bool> go(false), self(false); T e; e = T("n", [&] { while (!go); e.join(); self = e.joinable(); }); go = true; e.join(); EXPECT(!e.joinable() && self);
    }
    CASE("attributes");
    {
        size_t st = 0; { T t(thread_attributes("n", 1 << 20), [&] { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstacksize(&a, &st); pthread_attr_destroy(&a); }); t.join(); } EXPECT(st == (1 << 20));
        cpu_set_t me; CPU_ZERO(&me); sched_getaffinity(0, sizeof me, &me);
        for (int c = 0; c < 8; ++c) if (CPU_ISSET(c, &me))
        {
            cpu_set_t s; CPU_ZERO(&s); std::atomic<bool> go(false); T t(thread_attributes("n", 0, core_affinity(1u << c)), [&] { while (!go) std::this_thread::yield(); sched_getaffinity(0, sizeof s, &s); });
            const auto got = t.getCoreAffinityMask(); go = true; t.join(); EXPECT(got == core_affinity(1u << c)); EXPECT(CPU_COUNT(&s) == 1 && CPU_ISSET(c, &s));
            std::atomic<bool> go2(false); T u("n", [&] { while (!go2) std::this_thread::yield(); sched_getaffinity(0, sizeof s, &s); }); u.setCoreAffinity(c); const auto g2 = u.getCoreAffinityMask(); go2 = true; u.join(); EXPECT(g2 == core_affinity(1u << c) && CPU_COUNT(&s) == 1 && CPU_ISSET(c, &s));
        }
    }
}
// ---- parallel loops and helpers: C03 C28
static void loops()
{
    for (int w = 1; w <= 4; ++w) for (int first : { 0, -3, 5 }) for (int n : { 0, 1, 2, 3, 7, 20 }) for (int kind = 0; kind < 5; ++kind)
    {
        CASE("index loop %d over [%d,%d) with %d eligible workers", kind, first, first + n, w);
        fresh(); sched().workers = w; std::vector<int> hit(n); int outside = 0; std::set<int> batches;
        auto f = [&](int i) { if (i < first || i >= first + n) ++outside; else ++hit[i - first]; };
        auto fb = [&](int b, int i) { batches.insert(b); f(i); };
        if (kind == 0) H::parallel_for("l", first, first + n, f);
        else if (kind == 1) H::parallel_for("l", first, first + n, fb);
        else if (kind == 2) H::parallel_for("l", simple_partitioner(first, first + n, w), task_priority::low, fb);
        else if (kind == 3) H::parallel_for("l", atomic_partitioner(first, first + n, 2, w), task_priority::high, f);
        else { std::vector<int> v(n); std::iota(v.begin(), v.end(), first); H::parallel_for_each("l", v, [&](int &x) { f(x); x += 1000; }); for (int i = 0; i < n; ++i) EXPECT(v[i] == first + i + 1000); }
        EXPECT(outside == 0); for (int h : hit) EXPECT(h == 1);
        EXPECT((int)sched().got.size() == (n > 0 ? 1 : 0));
        if (n) { EXPECT(sched().got[0].isDone()); const auto p = kind == 2 ? task_priority::low : kind == 3 ? task_priority::high : task_priority::normal; EXPECT(sched().got[0].getPriority() == p); }
        for (int b : batches) EXPECT(b >= 0 && b < std::min(n, w));
        drain(sched());
        for (int h : hit) EXPECT(h == 1);
    }
    sched().workers = 3;
    CASE("make_ and schedule_ helpers");
    {
        fresh(); auto t = H::make_task<task_type::waitable>("a", task_priority::high, [] { return 3; }); EXPECT(sched().got.empty() && t->getPriority() == task_priority::high);
        auto h = H::schedule_task(task_handle(t)); EXPECT(sched().got.size() == 1 && sched().got[0].getUID() == t->getUID() && h.getUID() == t->getUID()); fresh();
        auto h2 = H::schedule_task("b", task_priority::low, [](int) {}, 3); EXPECT(sched().got.size() == 1 && sched().got[0].getUID() == h2.getUID() && h2.getPriority() == task_priority::low); drain(sched()); h2.wait(); EXPECT(h2.isDone()); fresh();
        auto h3 = H::schedule_task("c", [] {}); EXPECT(sched().got.size() == 1 && h3.getPriority() == task_priority::normal); fresh();
        H::fire_and_forget_task("d", task_priority::high, [] { note("d"); }); EXPECT(sched().got.size() == 1 && sched().got[0].getPriority() == task_priority::high); drain(sched()); fresh();
        auto g = H::make_parallel_group<task_type::waitable>("g", task_priority::low, 4, 2), gd = H::make_parallel_group<task_type::waitable>("gd"); auto s = H::make_sequence_group<task_type::waitable>("s", task_priority::high); EXPECT(g->getPriority() == task_priority::low && gd->getPriority() == task_priority::normal && s->getPriority() == task_priority::high && sched().got.empty());
    }
    for (int rep = 0; rep < 2; ++rep)
    {
        CASE("%s of three tasks", rep ? "sequence" : "fork");
        fresh(); auto mk = [](int i) { return task_handle(H::make_task<task_type::waitable>("t", [i] { note(std::to_string(i)); })); };
        task_handle a = mk(0), b = mk(1), c = mk(2); taken();
        task_handle g = rep ? H::sequence_tasks<task_type::waitable>("s", task_priority::high, task_handle(a), task_handle(b), task_handle(c)) : H::fork_tasks<task_type::waitable>("f", task_priority::high, task_handle(a), task_handle(b), task_handle(c));
        EXPECT(g.getPriority() == task_priority::high && a.getParentGroup() && a.getParentGroup() == b.getParentGroup() && c.getParentGroup() == b.getParentGroup() && a.getParentGroup()->getUID() == g.getUID());
        EXPECT(sched().got.size() == 1 && sched().got[0].getUID() == g.getUID()); drain(sched()); EXPECT(g.isDone()); if (rep) EXPECT(is(only_runs(taken()), { "0", "1", "2" })); else EXPECT(only_runs(taken()).size() == 3);
    }
}
int main(int, char **argv)
{
    const std::string p = argv[1]; setvbuf(stdout, nullptr, _IOLBF, 0);
    auto among = [&](std::initializer_list<const char*> l) { for (auto x : l) if (p == x) return true; return false; };
    if (among({ "C04", "C05", "C06", "C26", "C29" })) tasks();
    if (among({ "C04", "C07", "C08", "C09", "C10", "C27" })) groups();
    if (p == "C16") contexts();
    if (p == "C18") queue();
    if (among({ "C11", "C12", "C13", "C14", "C15", "C17", "C30" })) scheduling();
    if (among({ "C19", "C20", "C21", "C22", "C23" })) syncs();
    if (among({ "C24", "C25" })) threads();
    if (among({ "C03", "C28" })) loops();
    printf("all scenarios of the suite passed\n");
    return 0;
}
