// C18: the task queue
#include "vf.h"
#include <oqpi/concurrent_queue.hpp>
namespace spec
{
    // an element that knows when it was copied, moved from or destroyed
    struct elem
    {
        long index, value;
        elem() : index(-1), value(0) {}
        elem(const elem &o) : index(o.index), value(o.value) {}
        elem(elem &&o) : index(o.index), value(o.value) { o.index = -2; o.value = -2; }
        elem &operator=(const elem &o) { index = o.index; value = o.value; return *this; }
        elem &operator=(elem &&o) { index = o.index; value = o.value; o.index = -2; o.value = -2; return *this; }
        ~elem() { index = -3; value = -3; }
    };
    using queue_t = concurrent_queue<elem>;
    queue_t *g_q;
    // the queue at the last acquisition of its lock: elements head .. tail-1, the element at g_k has the value g_kv
    long g_head, g_tail, g_k, g_kv;
    bool g_held;
    elem g_arg;
    // what the critical sections so far did
    int  g_pushes, g_pops;
    bool g_saw_empty, g_saw_some;
    long g_pop_index, g_pop_value;
    void slot(void *p, long i, long isK)
    {
        elem *e = new (p) elem();
        e->index = i;
        e->value = isK ? g_kv : vf_nd_i64();
    }
    inline std::deque<elem> &seq_of(std::queue<elem> &q) { return q.c; }
    inline std::deque<elem> &seq_of(std::deque<elem> &q) { return q; }
    inline void fill()
    {
#ifdef VF_NATIVE
        g_head = nd_lrange(1, 1000); g_tail = g_head + nd_lrange(0, 5);
#else
        g_head = nd_lrange(1, 1L << 40); g_tail = nd_lrange(1, 1L << 40); vf_assume(g_head <= g_tail);
#endif
        g_kv = vf_nd_i64();
        vf_deq(&g_q->queue_, sizeof(elem), g_head, g_tail, g_k, slot);
    }
    // others used the queue in the meantime
    void acquired()
    {
        vf_assert(!g_held, "C18 the lock is not taken twice");
        fill();
        g_held = true;
        g_saw_empty = bool(g_saw_empty | (g_head == g_tail)); g_saw_some = bool(g_saw_some | (g_head != g_tail));
    }
    void released()
    {
        g_held = false;
        const long n0 = g_tail - g_head, n = long(g_q->queue_.size());
        if (n == n0 + 1)
        {
            elem &b = g_q->queue_.back();
            vf_assert((b.index == g_arg.index) & (b.value == g_arg.value), "C18 the element pushed is the one given, at the back");
            ++g_pushes;
        }
        else if (n == n0 - 1) { vf_assert(n0 > 0, "C18 nothing is taken out of an empty queue"); ++g_pops; g_pop_index = g_head; g_pop_value = g_kv; }
        else vf_assert(n == n0, "C18 a critical section adds or removes at most one element");
        const long first = g_head + (n == n0 - 1);
        if (n0 > 0 && first < g_tail) vf_assert(g_q->queue_.front().index == first, "C18 only the oldest element is removed");
        if (first <= g_k && g_k < g_tail)
        {
#ifdef VF_NATIVE
            elem *e = &*(seq_of(g_q->queue_).begin() + (g_k - first));
#else
            elem *e = seq_of(g_q->queue_)._M_impl._M_start._M_cur + (g_k - first);
#endif
            vf_assert((e->index == g_k) & (e->value == g_kv), "C18 the other elements stay as they are");
        }
        fill();     // without the lock, anything may be in there
    }
    inline void setup()
    {
        g_held = false; g_pushes = 0; g_pops = 0; g_saw_empty = false; g_saw_some = false; g_pop_index = -9;
        g_q = new queue_t();
        g_k = nd_lrange(1, 1L << 40);
        vf_witness(g_k);
        g_arg.index = -7; g_arg.value = vf_nd_i64();
        fill();
        vf_protect(&g_q->queue_, sizeof(g_q->queue_), &g_q->mutex_, acquired, released);
    }
    inline void settled() { vf_assert(!g_held, "C18 the lock is free again on return"); }
}
using namespace spec;
extern "C" {
void H_C18_empty_at_first()
{
    queue_t *q = new queue_t();
    elem e; e.index = 5; e.value = 6;
    vf_assert(q->empty(), "C18 a new queue is empty");
    vf_assert(!q->tryPop(e), "C18 a new queue is empty");
    vf_assert((e.index == 5) & (e.value == 6), "C18 a failed tryPop leaves its argument alone");
    vf_cover("done");
}
void H_C18_push_copy()
{
    setup();
    const elem *e = new elem(g_arg);
    g_q->push(*e);
    vf_assert((g_pushes == 1) & (g_pops == 0), "C18 push adds one element, once");
    vf_assert((e->index == g_arg.index) & (e->value == g_arg.value), "C18 push of a constant leaves it alone");
    settled();
    vf_cover("done");
}
void H_C18_push_move()
{
    setup();
    elem *e = new elem(g_arg);
    g_q->push(std::move(*e));
    vf_assert((g_pushes == 1) & (g_pops == 0), "C18 push adds one element, once");
    settled();
    vf_cover("done");
}
void H_C18_tryPop()
{
    setup();
    elem *e = new elem();
    e->index = -5; const long v = vf_nd_i64(); e->value = v;
    const bool r = g_q->tryPop(*e);
    vf_assert(g_pushes == 0, "C18 tryPop adds nothing");
    if (r)
    {
        vf_assert(g_pops == 1, "C18 a successful tryPop removes one element");
        vf_assert(e->index == g_pop_index, "C18 tryPop answers with the element removed");
        if (g_k == g_pop_index) { vf_assert(e->value == g_pop_value, "C18 tryPop answers with the element removed"); vf_cover("value"); }
        vf_cover("popped");
    }
    else
    {
        vf_assert((g_pops == 0) & g_saw_empty, "C18 tryPop fails on an empty queue only, and changes nothing");
        vf_assert((e->index == -5) & (e->value == v), "C18 a failed tryPop leaves its argument alone");
        vf_cover("empty");
    }
    settled();
}
void H_C18_empty()
{
    setup();
    const bool r = g_q->empty();
    vf_assert((g_pushes == 0) & (g_pops == 0), "C18 empty changes nothing");
    if (r) { vf_assert(g_saw_empty, "C18 empty answers for a moment within the call"); vf_cover("empty"); }
    else { vf_assert(g_saw_some, "C18 empty answers for a moment within the call"); vf_cover("not empty"); }
    settled();
}
}
