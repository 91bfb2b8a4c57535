// C16: context containers
#include "vf.h"
#include <memory>
#include "oqpi/scheduling/task_context.hpp"
#include "oqpi/scheduling/group_context.hpp"
#include "oqpi/scheduling/worker_context.hpp"
#include "oqpi/scheduling/worker_base.hpp"
#include "oqpi/scheduling/task_group_base.hpp"

namespace spec
{
    using namespace oqpi;
    enum { none, added, pre, post, task_added, start, stop, idle, active, made };
    int g_event;                // the event the container is given; each context must see this one only
    int g_next;                 // the context whose turn it is
    const void *g_owner, *g_arg; const std::string *g_name;
    bool g_own_ok;
    inline void seen(int n, int e, const void *arg)
    {
        vf_assert(e == g_event, "C16 a context sees only the event forwarded");
        vf_assert(n == g_next, "C16 the contexts see an event once each, in the order they were declared");
        vf_assert(arg == g_arg, "C16 a context sees the arguments given");
        ++g_next;
    }
    template<int N> struct tctx
    {
        int id;
        tctx(task_base *o, const std::string &n) : id(N) { vf_assert((o == g_owner) & (&n == g_name), "C16 a context is made for the owner of the container"); seen(N, made, nullptr); }
        void onAddedToGroup(const task_group_sptr &p) { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, added, &p); }
        void onPreExecute() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, pre, nullptr); }
        void onPostExecute() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, post, nullptr); }
    };
    template<int N> struct gctx
    {
        int id;
        gctx(task_group_base *o, const std::string &n) : id(N) { vf_assert((o == g_owner) & (&n == g_name), "C16 a context is made for the owner of the container"); seen(N, made, nullptr); }
        void onAddedToGroup(const task_group_sptr &p) { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, added, &p); }
        void onTaskAdded(const task_handle &h) { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, task_added, &h); }
        void onPreExecute() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, pre, nullptr); }
        void onPostExecute() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, post, nullptr); }
    };
    template<int N> struct wctx
    {
        int id;
        wctx(worker_base *o) : id(N) { vf_assert(o == g_owner, "C16 a context is made for the owner of the container"); seen(N, made, nullptr); }
        void onStart() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, start, nullptr); }
        void onStop() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, stop, nullptr); }
        void onIdle() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, idle, nullptr); }
        void onActive() { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, active, nullptr); }
        void onPreExecute(const task_handle &h) { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, pre, &h); }
        void onPostExecute(const task_handle &h) { vf_assert(id == N, "C16 the event reaches the context itself"); seen(N, post, &h); }
    };
    inline void expect(int e, const void *arg) { g_event = e; g_next = 0; g_arg = arg; }
    inline void all(int n) { vf_assert(g_next == n, "C16 every context sees the event"); g_event = none; }

    template<typename C> C *make_t(int n)
    {
        alignas(16) static char o[64];
        auto *name = new std::string("name");
        g_owner = o; g_name = name;
        expect(made, nullptr);
        C *c = new C(reinterpret_cast<task_base*>(o), *name);
        all(n);
        return c;
    }
    template<typename C> void tasks(int n)
    {
        C *c = make_t<C>(n);
        task_group_sptr p;
        expect(added, &p); c->task_onAddedToGroup(p); all(n);
        expect(pre, nullptr); c->task_onPreExecute(); all(n);
        expect(post, nullptr); c->task_onPostExecute(); all(n);
    }
    template<typename C> void groups(int n)
    {
        alignas(16) static char o[64];
        auto *name = new std::string("name");
        g_owner = o; g_name = name;
        expect(made, nullptr);
        C *c = new C(reinterpret_cast<task_group_base*>(o), *name);
        all(n);
        task_group_sptr p;
        task_handle h;
        expect(added, &p); c->group_onAddedToGroup(p); all(n);
        expect(task_added, &h); c->group_onTaskAdded(h); all(n);
        expect(pre, nullptr); c->group_onPreExecute(); all(n);
        expect(post, nullptr); c->group_onPostExecute(); all(n);
    }
    template<typename C> void workers(int n)
    {
        alignas(16) static char o[64];
        g_owner = o;
        expect(made, nullptr);
        C *c = new C(reinterpret_cast<worker_base*>(o));
        all(n);
        task_handle h;
        expect(start, nullptr); c->worker_onStart(); all(n);
        expect(stop, nullptr); c->worker_onStop(); all(n);
        expect(idle, nullptr); c->worker_onIdle(); all(n);
        expect(active, nullptr); c->worker_onActive(); all(n);
        expect(pre, &h); c->worker_onPreExecute(h); all(n);
        expect(post, &h); c->worker_onPostExecute(h); all(n);
    }
}
using namespace spec;
extern "C" {
void H_C16_task_contexts()
{
    tasks<task_context_container<>>(0);
    tasks<task_context_container<tctx<0>>>(1);
    tasks<task_context_container<tctx<0>, tctx<1>>>(2);
    tasks<task_context_container<tctx<0>, tctx<1>, tctx<2>>>(3);
    tasks<task_context_container<tctx<0>, tctx<1>, tctx<2>, tctx<3>, tctx<4>>>(5);
    vf_cover("tasks");
}
void H_C16_group_contexts()
{
    groups<group_context_container<>>(0);
    groups<group_context_container<gctx<0>>>(1);
    groups<group_context_container<gctx<0>, gctx<1>>>(2);
    groups<group_context_container<gctx<0>, gctx<1>, gctx<2>>>(3);
    groups<group_context_container<gctx<0>, gctx<1>, gctx<2>, gctx<3>, gctx<4>>>(5);
    vf_cover("groups");
}
void H_C16_worker_contexts()
{
    workers<worker_context_container<>>(0);
    workers<worker_context_container<wctx<0>>>(1);
    workers<worker_context_container<wctx<0>, wctx<1>>>(2);
    workers<worker_context_container<wctx<0>, wctx<1>, wctx<2>>>(3);
    workers<worker_context_container<wctx<0>, wctx<1>, wctx<2>, wctx<3>, wctx<4>>>(5);
    vf_cover("workers");
}
}
