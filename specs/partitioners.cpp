// C01, C02: contracts of the partitioners
#include "vf.h"
#include <oqpi.hpp>
using oqpi::simple_partitioner;
using oqpi::atomic_partitioner;

namespace spec
{
    // a non-wrapping range of indices and a grain/batch limit as accepted by the constructors
    struct range { int32_t first, last, max; long count; };
    inline range any_range_from(int32_t first)
    {
        range r;
        r.first = first; r.last = nd_range(r.first, INT_MAX); r.max = nd_range(1, INT_MAX);
        r.count = long(r.last) - long(r.first);
        vf_assume(r.count <= INT_MAX);
        return r;
    }
    inline range any_range() { return any_range_from(vf_nd_i32()); }

    // ---- environment of the shared ticket / index
    long g_writes, g_old, g_new, g_granted, g_limit;
    void reset() { g_writes = 0; g_old = 0; g_new = 0; g_granted = 0; }

    void ticket_rely(void *p)
    {
        auto &t = *static_cast<int32_t*>(p);
        t = nd_range(t, INT_MAX - 1);
    }
    void ticket_guar(void *, long o, long n, long)
    {
        // other callers rely on: batch numbers are handed out one by one, exhaustion is permanent
        vf_assert((n == o + 1) | ((o >= g_limit) & (n >= g_limit)), "C01 a call takes at most the next batch from the shared ticket");
        if (o < g_limit) { ++g_writes; g_old = o; g_new = n; }
    }
    void index_rely(void *p)
    {
        auto &t = *static_cast<int32_t*>(p);
        t = nd_range(t, int32_t(g_limit));
    }
    void index_guar(void *, long o, long n, long)
    {
        vf_assert((n >= o) & (n <= g_limit), "C02 the shared index only advances and stays within the range");
        if (n != o) { ++g_writes; g_old = o; g_new = n; }
    }
    inline bool loop_cand() { return g_writes == 0; }
}
using namespace spec;

extern "C" {

//------------------------------------------------------------------ C01
// construction: exact batch count, validity; the two constructors agree
void H_C01_construct()
{
    const range r = any_range();
    simple_partitioner *p = new simple_partitioner(r.first, r.last, r.max);
    const long n = r.count < r.max ? r.count : r.max;
    vf_assert(p->batchCount() == n, "C01 batch count is min(elements, maxBatches)");
    vf_assert(p->elementCount() == r.count, "C01 element count");
    vf_assert((p->isValid() != 0) == (r.count > 0), "C01 valid exactly if not empty");
    int32_t f = 0, l = 0;
    if (p->getNextValidRange(f, l))
    {
        vf_assert(r.count > 0, "C01 an empty range gives no batch");
        vf_assert(f == r.first, "C01 the first batch starts at the first index");
        vf_cover("first batch");
    }
    else
    {
        vf_assert(r.count == 0, "C01 a non-empty range gives a batch");
        vf_cover("no batch");
    }
}

void H_C01_construct_from_count()
{
    const range r = any_range_from(0);
    simple_partitioner *p = new simple_partitioner(r.last, r.max);
    simple_partitioner *q = new simple_partitioner(0, r.last, r.max);
    const int32_t s = nd_range(0, INT_MAX - 1);
    p->batchIndex_ = s; q->batchIndex_ = s;
    int32_t f1 = 0, l1 = 0, f2 = 0, l2 = 0;
    const bool a = p->getNextValidRange(f1, l1), b = q->getNextValidRange(f2, l2);
    vf_assert((a == b) & (f1 == f2) & (l1 == l2), "C01 both constructors give the same batches");
    vf_assert((p->batchCount() == q->batchCount()) & (p->elementCount() == q->elementCount()), "C01 both constructors give the same counts");
    vf_cover("both");
}

// batch s in isolation: exists exactly for s < n, not empty, size q or q+1, inside of the range; the next one starts where it ends
void H_C01_batches()
{
    const range r = any_range();
    simple_partitioner *p = new simple_partitioner(r.first, r.last, r.max);
    const long n = p->batchCount();
    const int32_t s = nd_range(0, INT_MAX - 2);
    p->batchIndex_ = s;
    const int32_t cf = vf_nd_i32(), cl = vf_nd_i32();
    int32_t f = cf, l = cl;
    const bool ok = p->getNextValidRange(f, l);
    vf_assert(ok == (s < n), "C01 a batch is handed out exactly while the ticket is below the batch count");
    if (!ok)
    {
        vf_cover("exhausted");
        vf_assert(p->batchIndex_ >= n, "C01 exhaustion is permanent");
        return;
    }
    vf_assert(p->batchIndex_ == s + 1, "C01 the ticket advances by one");
    vf_assert(f < l, "C01 no batch is empty");
    const long size = long(l) - f;
    const long q = r.count / n;
    vf_assert((size == q) | (size == q + 1), "C01 batch sizes differ by at most one");
    vf_assert(imp(s == 0, f == r.first), "C01 the first batch starts at the first index");
    vf_assert(imp(s == n - 1, l == r.last), "C01 the last batch ends at the last index");
    int32_t f2 = 0, l2 = 0;
    if (p->getNextValidRange(f2, l2))
    {
        vf_assert(f2 == l, "C01 a batch starts where the previous one ends");
        vf_cover("two batches");
    }
    else
    {
        vf_assert(s == n - 1, "C01 only the last batch has no successor");
        vf_cover("last batch");
    }
}

// a copy goes on where the original is
void H_C01_copy()
{
    const range r = any_range();
    simple_partitioner *p = new simple_partitioner(r.first, r.last, r.max);
    const int32_t s = nd_range(0, INT_MAX - 2);
    p->batchIndex_ = s;
    simple_partitioner *q = new simple_partitioner(*p);
    vf_assert((q->batchCount() == p->batchCount()) & (q->elementCount() == p->elementCount()) & (q->isValid() == p->isValid()), "C01 a copy has the batches of the original");
    int32_t f1 = 0, l1 = 0, f2 = 0, l2 = 0;
    const bool a = p->getNextValidRange(f1, l1), b = q->getNextValidRange(f2, l2);
    vf_assert((a == b) & (f1 == f2) & (l1 == l2), "C01 a copy hands out what the original does");
    vf_cover("both");
}

// any interleaving with other callers: one ticket per batch, the batch belongs to the ticket
void H_C01_concurrent()
{
    const range r = any_range();
    simple_partitioner *p = new simple_partitioner(r.first, r.last, r.max);
    simple_partitioner *q = new simple_partitioner(*p);
    p->batchIndex_ = nd_range(0, INT_MAX - 1);
    reset();
    g_limit = p->batchCount();
    vf_candidate(loop_cand);
    vf_shared(&p->batchIndex_, sizeof(p->batchIndex_), ticket_rely, ticket_guar);
    int32_t f = 0, l = 0;
    const bool ok = p->getNextValidRange(f, l);
    vf_unshare(&p->batchIndex_);
    if (ok)
    {
        vf_assert(g_writes == 1, "C01 a batch handed out takes exactly one ticket");
        int32_t f2 = 0, l2 = 0;
        q->batchIndex_ = int32_t(g_old);
        const bool ok2 = q->getNextValidRange(f2, l2);
        vf_assert(ok2 & (f == f2) & (l == l2), "C01 the batch handed out is the one of the ticket taken, and a copy agrees with the original");
        vf_cover("taken");
    }
    else
    {
        vf_assert(g_writes == 0, "C01 no batch is lost by a call answering false");
        vf_assert(p->batchIndex_ >= g_limit, "C01 false only when all batches are handed out");
        vf_cover("exhausted");
    }
}

//------------------------------------------------------------------ C02
void H_C02_construct()
{
    const range r = any_range();
    const int32_t grain = nd_range(1, INT_MAX);
    atomic_partitioner *p = new atomic_partitioner(r.first, r.last, grain, r.max);
    const long n = r.count < r.max ? r.count : r.max;
    vf_assert(p->batchCount() == n, "C02 batch count is min(elements, maxBatches)");
    vf_assert(p->elementCount() == r.count, "C02 element count");
    vf_assert((p->isValid() != 0) == (r.count > 0), "C02 valid exactly if not empty");
    vf_assert(p->sharedIndex_ == r.first, "C02 nothing is handed out at the beginning");
    const int32_t s = nd_range(r.first, r.last);
    p->sharedIndex_ = s;
    atomic_partitioner *q = new atomic_partitioner(*p);
    int32_t f1 = 0, l1 = 0, f2 = 0, l2 = 0;
    const bool a = p->getNextValidRange(f1, l1), b = q->getNextValidRange(f2, l2);
    vf_assert((a == b) & (f1 == f2) & (l1 == l2), "C02 a copy hands out what the original does");
    vf_cover("both");
}

void H_C02_construct_from_count()
{
    const range r = any_range_from(0);
    const int32_t grain = nd_range(1, INT_MAX);
    atomic_partitioner *p = new atomic_partitioner(r.last, grain, r.max);
    vf_assert((p->elementCount() == r.last) & (p->sharedIndex_ == 0) & (p->batchCount() == (r.last < r.max ? r.last : r.max)), "C02 a count means the range from 0");
    const int32_t s = nd_range(0, r.last);
    p->sharedIndex_ = s;
    int32_t f = 0, l = 0;
    const bool ok = p->getNextValidRange(f, l);
    vf_assert(ok == (s < r.last), "C02 false exactly when no index is left");
    vf_assert(imp(ok, (f == s) & (long(l) - f == std::min<long>(grain, long(r.last) - s))), "C02 the range handed out is the next grain");
    vf_cover("one");
}

// any interleaving with other callers
void H_C02_concurrent()
{
    const range r = any_range();
    const int32_t grain = nd_range(1, INT_MAX);
    atomic_partitioner *p = new atomic_partitioner(r.first, r.last, grain, r.max);
    p->sharedIndex_ = nd_range(r.first, r.last);
    reset();
    g_limit = r.last;
    vf_candidate(loop_cand);
    vf_shared(&p->sharedIndex_, sizeof(p->sharedIndex_), index_rely, index_guar);
    int32_t f = 0, l = 0;
    const bool ok = p->getNextValidRange(f, l);
    vf_unshare(&p->sharedIndex_);
    if (ok)
    {
        vf_assert(g_writes == 1, "C02 a range handed out advances the shared index once");
        vf_assert((f == g_old) & (l == g_new), "C02 the range handed out is the one the shared index advanced over");
        vf_assert((f < l) & (long(l) - f <= grain), "C02 ranges are not empty and not longer than the grain");
        vf_assert((f >= r.first) & (l <= r.last), "C02 ranges lie inside of the range");
        vf_cover("taken");
    }
    else
    {
        vf_assert(g_writes == 0, "C02 no index is lost by a call answering false");
        vf_assert(p->sharedIndex_ >= r.last, "C02 false only when no index is left");
        vf_cover("exhausted");
    }
}
}
