// Intrinsics of the deductive verifier; they have no definition, the engine gives them their meaning.
#pragma once
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <climits>
#include <new>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <queue>
#include <deque>
#include <atomic>
#define OQPI_USE_DEFAULT
#ifdef VF_NATIVE
// native execution of the specifications (replay/native.cpp): atomic accesses call the rely and guarantee of the cell
#include <bits/stdc++.h>
void vf_rt_before(const volatile void *p, int order);
void vf_rt_after(const volatile void *p, long o, long n, int order);
bool vf_rt_spurious();
long vf_rt_range(long lo, long hi);
namespace std
{
    template<typename T> struct vatomic
    {
        T v_;
        vatomic() = default;
        constexpr vatomic(T v) : v_(v) {}
        vatomic(const vatomic&) = delete;
        T load(memory_order o = memory_order_seq_cst) const { vf_rt_before(this, int(o)); return v_; }
        operator T() const { return load(); }
        void store(T v, memory_order o = memory_order_seq_cst) { vf_rt_before(this, int(o)); T old = v_; v_ = v; vf_rt_after(this, long(old), long(v), int(o)); }
        T operator=(T v) { store(v); return v; }
        T exchange(T v, memory_order o = memory_order_seq_cst) { vf_rt_before(this, int(o)); T old = v_; v_ = v; vf_rt_after(this, long(old), long(v), int(o)); return old; }
        bool compare_exchange_strong(T &e, T v, memory_order o = memory_order_seq_cst, memory_order = memory_order_seq_cst)
        {
            vf_rt_before(this, int(o));
            if (v_ != e) { e = v_; return false; }
            T old = v_; v_ = v; vf_rt_after(this, long(old), long(v), int(o)); return true;
        }
        bool compare_exchange_weak(T &e, T v, memory_order o = memory_order_seq_cst, memory_order f = memory_order_seq_cst)
        {
            if (vf_rt_spurious()) { vf_rt_before(this, int(o)); e = v_; return false; }
            return compare_exchange_strong(e, v, o, f);
        }
        template<typename F> T rmw(F f, memory_order o) { vf_rt_before(this, int(o)); T old = v_; v_ = f(old); vf_rt_after(this, long(old), long(v_), int(o)); return old; }
        T fetch_add(T x, memory_order o = memory_order_seq_cst) { return rmw([=](T a){ return T(a + x); }, o); }
        T fetch_sub(T x, memory_order o = memory_order_seq_cst) { return rmw([=](T a){ return T(a - x); }, o); }
        T fetch_or(T x, memory_order o = memory_order_seq_cst) { return rmw([=](T a){ return T(a | x); }, o); }
        T fetch_and(T x, memory_order o = memory_order_seq_cst) { return rmw([=](T a){ return T(a & x); }, o); }
        T operator++(int) { return fetch_add(1); }
        T operator--(int) { return fetch_sub(1); }
        T operator++() { return T(fetch_add(1) + 1); }
        T operator--() { return T(fetch_sub(1) - 1); }
        T operator+=(T x) { return T(fetch_add(x) + x); }
        T operator-=(T x) { return T(fetch_sub(x) - x); }
        bool is_lock_free() const { return true; }
    };
}
#define atomic vatomic
#endif

extern "C"
{
    int     vf_nd_i32();                                    // arbitrary value
    long    vf_nd_i64();
    bool    vf_nd_bool();
    void    vf_assume(bool);                                // precondition
    void    vf_assert(bool, const char *name);              // obligation
    void    vf_cover(const char *name);                     // has to be reachable
    void    vf_witness(long k);                             // index the element-wise specification talks about
    void    vf_candidate(bool(*)());                        // candidate loop invariant (checked, never assumed)
    void    vf_replace(const char *name, void *contract);   // calls of the named function are calls of its contract
    void    vf_shared(const volatile void *cell, long size, void(*rely)(void*), void(*guar)(void*, long oldv, long newv, long order));
    void    vf_unshare(const volatile void *cell);
    void    vf_globals(long size, void(*rely)(void*), void(*guar)(void*, long oldv, long newv, long order));  // mutable statics of the code under contract of this size are shared
    void    vf_protect(void *mem, long size, void *mutex, void(*acq)(), void(*rel)());
    void    vf_vec(void *vec, long stride, long n, long k, void(*init)(void *slot, long idx, long isK));
    void    vf_vec2(void *vec, long stride, long n, long k1, long k2, void(*init)(void *slot, long idx, long isK));
    void    vf_deq(void *deq, long stride, long head, long tail, long k, void(*init)(void *slot, long idx, long isK));
    void    vf_lazy(void *p, long size, void(*init)(void*));
    void    vf_kind(void *obj, void*(*make)());
    void    vf_havoc(void *p, long size);
    int     vf_fork_i32(int);                               // case split on the value
    long    vf_fork_i64(long);
    [[noreturn]] void vf_end();                             // this path is of no interest any more
    void    vf_anystr(void *str);
    bool    vf_streq(const void *a, const void *b);         // two std::string
    bool    vf_cstreq(const char *a, const char *b);
    bool    vf_alive(const void *p);
}
// the rely callback may take the memory order of the access as well
inline void vf_shared_o(const volatile void *cell, long size, void(*rely)(void*, long order), void(*guar)(void*, long oldv, long newv, long order))
{
    vf_shared(cell, size, reinterpret_cast<void(*)(void*)>(rely), guar);
}
enum { ORD_RELAXED = 0, ORD_ACQUIRE = 2, ORD_RELEASE = 3, ORD_ACQ_REL = 4, ORD_SEQ_CST = 5 };
namespace spec
{
#ifdef VF_NATIVE
    inline int32_t nd_range(int32_t lo, int32_t hi) { vf_assume(lo <= hi); return int32_t(vf_rt_range(lo, hi)); }
    inline long nd_lrange(long lo, long hi) { vf_assume(lo <= hi); return vf_rt_range(lo, hi); }
#else
    inline int32_t nd_range(int32_t lo, int32_t hi) { int32_t v = vf_nd_i32(); vf_assume((v >= lo) & (v <= hi)); return v; }
    inline long nd_lrange(long lo, long hi) { long v = vf_nd_i64(); vf_assume((v >= lo) & (v <= hi)); return v; }
#endif
    inline bool imp(bool a, bool b) { return bool(!a | b); }
}
