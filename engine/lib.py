"""Contracts of the functions outside of the repository: verifier intrinsics, libstdc++ and libc functions."""
import math
import z3
from sym import *
from vc import Unsupported, Obj, Arr, UseUndef, State
from ir import I8, I32, I64, PTR

C = {}
PREFIX = []


def contract(*names):
    def d(f):
        for n in names:
            C[n] = f
        return f
    return d


def install(ex):
    ex.contracts.update(C)
    ex.prefix = list(PREFIX)


def nop(ex, st, args, name):
    return [(st, None)]


def zero(ex, st, args, name):
    return [(st, 0)]


def cstring(ex, st, p):
    """python str or Str content of a C string"""
    o = ex.getobj(st, p.obj)
    if o is None:
        raise Unsupported('C string')
    if type(o.tag) is tuple and o.tag[0] == 'chars':
        if p.off != 0:
            raise Unsupported('offset into a string')
        return o.tag[1]
    out = []
    i = p.off
    if not isinstance(i, int):
        raise Unsupported('C string offset')
    while True:
        v = ex.read_raw(st, p.obj, i, 1, I8)
        if not isinstance(v, int):
            raise Unsupported('C string content')
        if v == 0:
            break
        out.append(v & 255)
        i += 1
    return Str(''.join(chr(c) for c in out))


def pname(ex, st, p):
    return cstring(ex, st, p).e


# ------------------------------------------------------------------ intrinsics
@contract('vf_nd_i32')
def _(ex, st, args, name):
    v = ex.fresh('n', 32)
    st.nds = st.nds + (v,)
    return [(st, v)]


@contract('vf_nd_i64')
def _(ex, st, args, name):
    v = ex.fresh('n', 64)
    st.nds = st.nds + (v,)
    return [(st, v)]


@contract('vf_nd_bool')
def _(ex, st, args, name):
    v = ex.freshb('b')
    st.nds = st.nds + (v,)
    return [(st, v)]


@contract('vf_assume')
def _(ex, st, args, name):
    c = ex.boolv(args[0])
    ex.assume(st, c)
    if st.dead or not ex.feasible(st):
        return []
    return [(st, None)]


@contract('vf_assert')
def _(ex, st, args, name):
    c = ex.boolv(args[0])
    # an assertion of the specification counts even inside of rely/guarantee callbacks
    sup = ex.suppress
    if ex.spec_depth and sup and getattr(ex, 'assert_in_spec', False):
        pass
    if not ex.oblige(st, pname(ex, st, args[1]), c):
        return []
    return [(st, None)]


@contract('vf_cover')
def _(ex, st, args, name):
    n = pname(ex, st, args[0])
    if ex.suppress == 0:
        ex.covers[n] = ex.covers.get(n, 0) + 1
    return [(st, None)]


@contract('vf_replace')
def _(ex, st, args, name):
    ex.replaced[pname(ex, st, args[0])] = args[1].name
    return [(st, None)]


@contract('vf_witness')
def _(ex, st, args, name):
    st.wits = st.wits + (ex.num(args[0]),)
    return [(st, None)]


@contract('vf_candidate')
def _(ex, st, args, name):
    st.cands = st.cands + (args[0].name,)
    return [(st, None)]


@contract('vf_shared')
def _(ex, st, args, name):
    p, size, rely, guar = args
    st.shared[(p.obj, p.off)] = (size, rely if isinstance(rely, FnPtr) else None, guar if isinstance(guar, FnPtr) else None, True)
    return [(st, None)]


@contract('vf_unshare')
def _(ex, st, args, name):
    st.shared.pop((args[0].obj, args[0].off), None)
    return [(st, None)]


@contract('vf_globals')
def _(ex, st, args, name):
    st.x['globals'] = tuple(args[:3])
    for oid in list(st.mem):
        if isinstance(oid, str):
            ex.share_global(st, oid)
    return [(st, None)]


@contract('vf_protect')
def _(ex, st, args, name):
    # vf_protect(mem, size, mutex, on_acquire, on_release)
    p, size, mtx, acq, rel = args
    st.protect = st.protect + ((p.obj, p.off, p.off + size, mtx),)
    st.x['mtx', mtx] = (acq if isinstance(acq, FnPtr) else None, rel if isinstance(rel, FnPtr) else None)
    return [(st, None)]


def make_arr(ex, st, name, stride, wits, init, owner, okind):
    o = ex.new_obj(st, name, None)
    o.arr = Arr(stride, wits, init, owner, okind)
    states = [st]
    for i, w in enumerate(wits):
        nx = []
        for s in states:
            sl = ex.new_obj(s, '%s[K%d]' % (name, i), stride)
            a = s.w(o.id)
            a.arr = a.arr.copy()
            a.arr.slots['K%d' % i] = (w, sl.id)
            for s2, _ in ex.spec_call(s, init, [Ptr(sl.id, 0), w, i + 1]):
                nx.append(s2)
        states = nx
    return o.id, states


@contract('vf_vec')
def _(ex, st, args, name):
    # vf_vec(vec, stride, n, K, init)
    vec, stride, n, K, init = args
    n, K = ex.num(n), ex.num(K)
    oid, states = make_arr(ex, st, 'vec', stride, (K,), init, vec, 'vec')
    for s in states:
        end = scale(n, stride)
        for off, v in ((0, Ptr(oid, 0)), (8, Ptr(oid, end)), (16, Ptr(oid, end))):
            ex.write_at(s, vec.obj, vec.off + off, 8, v)
    return [(s, None) for s in states]


@contract('vf_vec2')
def _(ex, st, args, name):
    # vf_vec2(vec, stride, n, K1, K2, init): two distinct witnesses
    vec, stride, n, K, K2, init = args
    n, K, K2 = ex.num(n), ex.num(K), ex.num(K2)
    oid, states = make_arr(ex, st, 'vec', stride, (K, K2), init, vec, 'vec')
    for s in states:
        end = scale(n, stride)
        for off, v in ((0, Ptr(oid, 0)), (8, Ptr(oid, end)), (16, Ptr(oid, end))):
            ex.write_at(s, vec.obj, vec.off + off, 8, v)
    return [(s, None) for s in states]


@contract('vf_deq')
def _(ex, st, args, name):
    # vf_deq(deque, stride, head, tail, K, init): live elements have the indices [head, tail)
    d, stride, head, tail, K, init = args
    head, tail, K = ex.num(head), ex.num(tail), ex.num(K)
    oid, states = make_arr(ex, st, 'deq', stride, (K,), init, d, 'deq')
    inf = ex.fresh('inf', 64, 1 << 41, 1 << 42)
    for s in states:
        for off, v in ((16, scale(head, stride)), (24, 0), (32, scale(inf, stride)),
                       (48, scale(tail, stride)), (56, 0), (64, scale(inf, stride))):
            ex.write_at(s, d.obj, d.off + off, 8, Ptr(oid, v))
    return [(s, None) for s in states]


@contract('vf_elem')
def _(ex, st, args, name):
    # vf_elem(vec or deque storage pointer cell, index) -> address of an element
    raise Unsupported('vf_elem')


@contract('vf_lazy')
def _(ex, st, args, name):
    p, size, fn = args
    o = st.w(p.obj)
    for k in [k for k, (z, v) in o.cells.items() if p.off <= k < p.off + size]:
        del o.cells[k]
    o.lazy = dict(o.lazy)
    o.lazy[p.off] = (size, fn, None)
    return [(st, None)]


@contract('vf_kind')
def _(ex, st, args, name):
    st.w(args[0].obj).kind = args[1]
    return [(st, None)]


@contract('vf_havoc')
def _(ex, st, args, name):
    p, size = args
    out = []
    for s, oid, off in ex.resolve(st, p, size):
        o = s.w(oid)
        for k in [k for k, (z, v) in o.cells.items() if off <= k < off + size]:
            del o.cells[k]
        ex.n += 1
        o.havoc = o.havoc + ((off, off + size, ex.n),)
        out.append((s, None))
    return out


@contract('vf_fork_i32', 'vf_fork_i64')
def _(ex, st, args, name):
    return ex.concretize(st, ex.num(args[0]), 130)


@contract('vf_end')
def _(ex, st, args, name):
    st.dead = True
    return []


@contract('vf_anystr')
def _(ex, st, args, name):
    setstr(ex, st, args[0], Str(ex.freshs('s')))
    return [(st, None)]


@contract('vf_alive')
def _(ex, st, args, name):
    o = ex.getobj(st, args[0].obj) if isinstance(args[0], Ptr) and args[0].obj is not None else None
    return [(st, bool(o is not None and o.alive))]


@contract('vf_streq')
def _(ex, st, args, name):
    a, b = getstr(ex, st, args[0]), getstr(ex, st, args[1])
    return [(st, streq(a, b))]


@contract('vf_cstreq')
def _(ex, st, args, name):
    return [(st, streq(cstring(ex, st, args[0]), cstring(ex, st, args[1])))]


@contract('sem_open', 'open', 'fcntl')
def _(ex, st, args, name):
    # variadic functions: the contract of the harness gets the missing arguments as -1
    h = 'vf_' + ex.mod.base.get(name, name)
    f = ex.mod.funcs.get(h)
    if f is None:
        raise Unsupported(name)
    ex.mod.body(f)
    return ex.call(st, h, (list(args) + [-1] * 4)[:len(f.params)])


def streq(a, b):
    if isinstance(a.e, str) and isinstance(b.e, str):
        return a.e == b.e
    return keep(a.z() == b.z())


# ------------------------------------------------------------------ memory
@contract('_Znwm', '_Znam', 'malloc')
def _(ex, st, args, name):
    n = args[0]
    if not isinstance(n, int):
        raise Unsupported('allocation of symbolic size')
    o = ex.new_obj(st, 'heap%d' % n, n)
    o.tag = 'heap'
    return [(st, Ptr(o.id, 0))]


C['_ZnwmRKSt9nothrow_t'] = C['_Znwm']


def release(ex, st, args, name):
    p = args[0]
    if isinstance(p, Ptr) and p.obj is None:
        return [(st, None)]
    if p is UNDEF or not isinstance(p, Ptr):
        if p is UNDEF:
            ex.oblige(st, 'no release of an uninitialised pointer', False)
            return []
        raise Unsupported('delete')
    o = ex.getobj(st, p.obj)
    if o is not None and o.arr is not None:
        return [(st, None)]
    ok = o is not None and o.alive and p.off == 0 and o.tag == 'heap'
    if not ex.oblige(st, 'memory is released exactly once', ok):
        return []
    st.w(p.obj).alive = False
    return [(st, None)]


for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvRKSt9nothrow_t'):
    C[n] = release


def memcpy(ex, st, args, name):
    d, s_, n = args[0], args[1], args[2]
    if not isinstance(n, int):
        raise Unsupported('memcpy of symbolic size')
    if n == 0:
        return [(st, d)]
    out = []
    for s, so, sf in ex.resolve(st, s_, n):
        for s2, do, df in ex.resolve(s, d, n):
            src = s2.mem[so]
            if any(k < sf + n and sf < k + z[0] for k, z in src.lazy.items()):
                raise Unsupported('memcpy of lazy memory')
            cells = []
            for k, (z, v) in src.cells.items():
                if k < sf + n and sf < k + z:
                    if k < sf or k + z > sf + n:
                        if k <= sf and k + z >= sf + n:
                            cells.append((0, n, ex.read_raw(s2, so, sf, n, I64)))
                            continue
                        raise Unsupported('memcpy splits a value')
                    cells.append((k - sf, z, v))
            zer = [(max(lo, sf) - sf, min(hi, sf + n) - sf) for lo, hi in src.zeros if lo < sf + n and sf < hi]
            hav = [(h, max(h[0], sf), min(h[1], sf + n)) for h in src.havoc if h[0] < sf + n and sf < h[1]]
            for h, lo, hi in hav:
                k = lo
                while k < hi:
                    if not any(a <= k - sf < a + z for a, z, v in cells) and not any(a <= k - sf < b for a, b in zer):
                        if n == 8 and lo == sf and hi == sf + n and not cells:
                            cells.append((0, 8, ex.read_raw(s2, so, sf, 8, I64)))
                            break
                        cells.append((k - sf, 1, ex.read_raw(s2, so, k, 1, I8)))
                    k += 1
            o = s2.w(do)
            clear(ex, s2, o, df, n)
            if zer:
                o.zeros = o.zeros + tuple((df + a, df + b) for a, b in zer)
            for a, z, v in cells:
                o.cells[df + a] = (z, v)
            out.append((s2, d))
    return out


def clear(ex, st, o, off, n):
    for k in [k for k, (z, v) in o.cells.items() if k < off + n and off < k + z]:
        z, v = o.cells[k]
        if k < off or k + z > off + n:
            if v is UNDEF:
                del o.cells[k]
                continue
            uv = ex.u(st, ex.num(v), 8 * z)
            del o.cells[k]
            for b in range(k, k + z):
                if b < off or b >= off + n:
                    o.cells[b] = (1, ex.wrap(st, ex.fmod(ex.fdiv(uv, 1 << (8 * (b - k))), 256), 8))
            continue
        del o.cells[k]
    o.zeros = tuple(x for lo, hi in o.zeros for x in ((lo, min(hi, off)), (max(lo, off + n), hi)) if x[0] < x[1])
    o.havoc = tuple((a, b, h) for lo, hi, h in o.havoc for a, b in ((lo, min(hi, off)), (max(lo, off + n), hi)) if a < b)


def memset(ex, st, args, name):
    d, v, n = args[0], args[1], args[2]
    if not isinstance(n, int):
        raise Unsupported('memset of symbolic size')
    if n == 0:
        return [(st, d)]
    out = []
    for s, do, df in ex.resolve(st, d, n):
        o = s.w(do)
        clear(ex, s, o, df, n)
        v = ex.num(v)
        if v == 0:
            o.zeros = o.zeros + ((df, df + n),)
        else:
            for i in range(n):
                o.cells[df + i] = (1, v)
        out.append((s, d))
    return out


for n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove'):
    C[n] = memcpy
for n in ('llvm.memset.p0.i64', 'memset'):
    C[n] = memset
for n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0',
          'llvm.dbg.declare', 'llvm.assume', '__cxa_atexit', 'llvm.stackrestore', 'llvm.stackrestore.p0', '__cxa_thread_atexit',
          'std::ios_base::Init::Init', 'std::ios_base::Init::~Init'):
    C[n] = nop


@contract('strlen')
def _(ex, st, args, name):
    return [(st, strlen(cstring(ex, st, args[0])))]


@contract('__cxa_guard_acquire')
def _(ex, st, args, name):
    out = []
    for s, v in ex.read(st, args[0], I8):
        if v is UNDEF:
            v = 0
        if not isinstance(v, int):
            raise Unsupported('guard')
        out.append((s, 0 if v else 1))
    return out


@contract('__cxa_guard_release')
def _(ex, st, args, name):
    return [(s, None) for s in ex.write(st, args[0], I8, 1)]


@contract('__errno_location')
def _(ex, st, args, name):
    if 'errno' not in st.x:
        o = ex.new_obj(st, 'errno', 4)
        o.havoc = ((0, 4, ex.n),)
        st.x['errno'] = o.id
    return [(st, Ptr(st.x['errno'], 0))]


def bad(what):
    def h(ex, st, args, name):
        ex.oblige(st, what, False, ex.mod.dem.get(name, name))
        return []
    return h


for n in ('abort', '__cxa_pure_virtual', 'std::__throw_length_error', 'std::__throw_logic_error', 'std::__throw_out_of_range_fmt',
          'std::__throw_bad_alloc', 'std::__throw_bad_array_new_length', 'std::__throw_bad_weak_ptr', 'std::__throw_system_error',
          'std::__throw_bad_function_call', 'std::__throw_out_of_range', 'std::__throw_bad_optional_access', '__assert_fail',
          'std::__glibcxx_assert_fail', 'exit', '_Exit'):
    C[n] = bad('no abnormal termination (%s)' % n)


@contract('std::terminate', '_ZSt9terminatev')
def _(ex, st, args, name):
    if 'vf_on_terminate' in ex.mod.funcs:
        ex.call(st, 'vf_on_terminate', [])
        st.dead = True
        return []
    ex.oblige(st, 'no call of std::terminate', False)
    return []


@contract('oqpi::assert_function', 'oqpi::assert_and_return_false', 'oqpi::assert_and_return_true')
def _(ex, st, args, name):
    try:
        e = pname(ex, st, args[2])
    except Exception:
        e = '?'
    ex.oblige(st, 'assertion of the code holds: ' + str(e)[:60], False)
    return []


for n in ('fprintf', 'printf', 'puts', 'fputs', 'fputc', 'fwrite', 'fflush', 'perror', 'snprintf', 'vsnprintf'):
    C[n] = zero


# ------------------------------------------------------------------ shared_ptr reference counts
def vcall(ex, st, this, slot, args):
    out = []
    for s, vt in ex.read(st, this, PTR):
        for s2, fn in ex.read(s, Ptr(vt.obj, add(vt.off, 8 * slot)), PTR):
            if not isinstance(fn, FnPtr):
                raise Unsupported('virtual call')
            out += ex.call(s2, fn.name, [this] + args)
    return out


def off(p, n):
    return Ptr(p.obj, add(p.off, n))


@contract('std::_Sp_counted_base::_M_add_ref_copy')
def _(ex, st, args, name):
    out = []
    for s, v in ex.read(st, off(args[0], 8), I32):
        out += [(x, None) for x in ex.write(s, off(args[0], 8), I32, add(ex.num(v), 1))]
    return out


@contract('std::_Sp_counted_base::_M_weak_add_ref')
def _(ex, st, args, name):
    out = []
    for s, v in ex.read(st, off(args[0], 12), I32):
        out += [(x, None) for x in ex.write(s, off(args[0], 12), I32, add(ex.num(v), 1))]
    return out


def weak_release(ex, st, this):
    out = []
    for s, v in ex.read(st, off(this, 12), I32):
        v = ex.num(v)
        for t, s2 in ex.branch(s, cmp('eq', v, 1)):
            for s3 in ex.write(s2, off(this, 12), I32, sub(v, 1)):
                if t:
                    out += [(x, None) for x, _ in vcall(ex, s3, this, 3, [])]
                else:
                    out.append((s3, None))
    return out


@contract('std::_Sp_counted_base::_M_weak_release')
def _(ex, st, args, name):
    return weak_release(ex, st, args[0])


@contract('std::_Sp_counted_base::_M_release')
def _(ex, st, args, name):
    this = args[0]
    out = []
    for s, v in ex.read(st, off(this, 8), I32):
        v = ex.num(v)
        if not ex.oblige(s, 'a reference is dropped at most once', cmp('ge', v, 1)):
            continue
        for t, s2 in ex.branch(s, cmp('eq', v, 1)):
            for s3 in ex.write(s2, off(this, 8), I32, sub(v, 1)):
                if t:
                    for s4, _ in vcall(ex, s3, this, 2, []):
                        out += weak_release(ex, s4, this)
                else:
                    out.append((s3, None))
    return out


@contract('std::_Sp_counted_base::_M_add_ref_lock', 'std::_Sp_counted_base::_M_add_ref_lock_nothrow')
def _(ex, st, args, name):
    out = []
    nothrow = 'nothrow' in ex.mod.base.get(name, name)
    for s, v in ex.read(st, off(args[0], 8), I32):
        v = ex.num(v)
        for t, s2 in ex.branch(s, cmp('gt', v, 0)):
            if t:
                for s3 in ex.write(s2, off(args[0], 8), I32, add(v, 1)):
                    out.append((s3, True if nothrow else None))
            elif nothrow:
                out.append((s2, False))
            else:
                ex.oblige(s2, 'shared_from_this of a live object', False)
    return out


@contract('std::_Sp_counted_base::_M_get_use_count')
def _(ex, st, args, name):
    return ex.read(st, off(args[0], 8), I32)


@contract('__gthread_active_p')
def _(ex, st, args, name):
    return [(st, 1)]


# ------------------------------------------------------------------ vector / deque
def abstract_vec(ex, st, v):
    o = ex.getobj(st, v.obj)
    if o is None or not isinstance(v.off, int):
        return None
    c = o.cells.get(v.off)
    if c is None or not isinstance(c[1], Ptr) or c[1].obj is None:
        return None
    a = st.mem.get(c[1].obj)
    return a.arr if a is not None else None


@contract('std::vector::emplace_back', 'std::vector::push_back')
def _(ex, st, args, name):
    v = args[0]
    a = abstract_vec(ex, st, v)
    if a is not None:
        o = st.w(v.obj)
        end = o.cells[v.off + 8][1]
        # contract of amortised growth: room for one more element, contents unchanged
        o.cells[v.off + 16] = (8, Ptr(end.obj, add(end.off, a.stride)))
    return NotImplemented


@contract('std::vector::vector')
def _(ex, st, args, name):
    # vf_on_vector(vec): the specification may give an empty vector its abstract content
    if len(args) != 1 or 'vf_on_vector' not in ex.mod.funcs:
        return NotImplemented
    states = [st]
    for k in range(3):
        states = [y for x in states for y in ex.write(x, off(args[0], 8 * k), PTR, Ptr(None, 0))]
    return [(y, None) for x in states for y, _ in ex.spec_call(x, 'vf_on_vector', [args[0]])]


@contract('std::vector::reserve', 'std::vector::shrink_to_fit')
def _(ex, st, args, name):
    return [(st, None)]


@contract('std::deque::size')
def _(ex, st, args, name):
    d = args[0]
    o = ex.getobj(st, d.obj)
    c = o.cells[d.off + 16][1]
    f = o.cells[d.off + 48][1]
    if c.obj == f.obj:
        a = st.mem[c.obj].arr
        if a is not None:
            x = sub(f.off, c.off)
            return [(st, ex.fdiv(x, a.stride))]
    return NotImplemented


@contract('std::deque::~deque')
def _(ex, st, args, name):
    d = args[0]
    o = ex.getobj(st, d.obj)
    c = o.cells[d.off + 16][1]
    if st.mem[c.obj].arr is not None:
        return [(st, None)]
    return NotImplemented


# ------------------------------------------------------------------ mutex
def mtx_hooks(ex, st, m):
    return st.x.get(('mtx', m), (None, None))


@contract('std::mutex::lock')
def _(ex, st, args, name):
    m = args[0]
    out = []
    for s, v in ex.read(st, m, I32):
        v = 0 if v is UNDEF else ex.num(v)
        if not ex.oblige(s, 'a lock is not taken twice by its owner', cmp('eq', v, 0)):
            continue
        ss = ex.write(s, m, I32, 1)
        acq, _ = mtx_hooks(ex, s, m)
        for s2 in ss:
            if acq is not None:
                out += [(x, None) for x, _ in ex.spec_call(s2, acq, [])]
            else:
                out.append((s2, None))
    return out


@contract('std::mutex::try_lock')
def _(ex, st, args, name):
    m = args[0]
    f = st.fork()
    return [(f, False)] + [(s, True) for s, _ in C['std::mutex::lock'](ex, st, args, name)]


@contract('std::mutex::unlock')
def _(ex, st, args, name):
    m = args[0]
    out = []
    for s, v in ex.read(st, m, I32):
        v = 0 if v is UNDEF else ex.num(v)
        if not ex.oblige(s, 'only a held lock is released', cmp('eq', v, 1)):
            continue
        _, rel = mtx_hooks(ex, s, m)
        ss = [s]
        if rel is not None:
            ex.spec_depth += 1
            ss = [x for x, _ in ex.call(s, rel.name, [])]
            ex.spec_depth -= 1
        for s2 in ss:
            out += [(x, None) for x in ex.write(s2, m, I32, 0)]
    return out


# ------------------------------------------------------------------ strings
def setstr(ex, st, p, v):
    for s, oid, o in ex.resolve(st, p, 32):
        if s is not st:
            raise Unsupported('string in container')
        ob = s.w(oid)
        clear(ex, s, ob, o, 32) if not any(isinstance(x[1], Str) for k, x in ob.cells.items() if k == o) else None
        ob.cells[o] = (32, v)


def getstr(ex, st, p):
    r = ex.resolve(st, p, 32)
    if len(r) != 1 or r[0][0] is not st:
        if not r:
            st.dead = True
            raise UseUndef()
        raise Unsupported('string in container')
    ob = st.mem[r[0][1]]
    for lo, (lsz, fn, arg) in ob.lazy.items():
        if lo <= r[0][2] < lo + lsz:
            raise Unsupported('lazy string')
    c = ob.cells.get(r[0][2])
    if c is None or not isinstance(c[1], Str):
        if any(h[0] <= r[0][2] and r[0][2] + 32 <= h[1] for h in ob.havoc):
            v = Str(ex.freshs('s'))
            st.w(r[0][1]).cells[r[0][2]] = (32, v)
            return v
        raise UseUndef()
    return c[1]


def strlen(v):
    if isinstance(v.e, str):
        return len(v.e)
    e = keep(z3.Length(v.e))
    RNG[e.get_id()] = (0, 1 << 40)
    return Lin(0, ((1, e),))


def concat(a, b):
    if isinstance(a.e, str) and isinstance(b.e, str):
        return Str(a.e + b.e)
    return Str(keep(z3.Concat(a.z(), b.z())))


def chars(ex, st, v):
    """pointer to the characters of a string value"""
    o = ex.new_obj(st, 'chars', None)
    o.tag = ('chars', v)
    return Ptr(o.id, 0)


def params(d):
    """parameter list of a demangled name"""
    i = len(d) - 1
    if d.endswith(' const'):
        i -= 6
    assert d[i] == ')', d
    dep = 0
    j = i
    while True:
        if d[j] == ')':
            dep += 1
        elif d[j] == '(':
            dep -= 1
            if dep == 0:
                break
        j -= 1
    s = d[j + 1:i]
    out = []
    dep = 0
    cur = ''
    for c in s:
        if c in '<(':
            dep += 1
        elif c in '>)':
            dep -= 1
        if c == ',' and dep == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def strarg(ex, st, t, v):
    if 'basic_string' in t:
        return getstr(ex, st, v)
    if t.startswith('char const*') or t == 'char*':
        return cstring(ex, st, v)
    if t == 'char':
        v = ex.num(v)
        if isinstance(v, int):
            return Str(chr(v & 255))
    raise Unsupported('string argument ' + t)


def string_member(ex, st, args, name):
    d = ex.mod.dem[name]
    base = ex.mod.base[name]
    m = base.split('::')[-1]
    ps = params(d)
    this = args[0]
    if m == 'basic_string':
        if not ps or (len(ps) == 1 and 'allocator' in ps[0] and 'basic_string' not in ps[0]):
            setstr(ex, st, this, Str(''))
        elif 'basic_string' in ps[0] or ps[0].startswith('char const*'):
            if len(ps) > 1 and not ('allocator' in ps[1]):
                raise Unsupported('string constructor ' + d)
            v = strarg(ex, st, ps[0], args[1])
            setstr(ex, st, this, v)
            if ps[0].endswith('&&'):
                setstr(ex, st, args[1], Str(''))
        else:
            raise Unsupported('string constructor ' + d)
        return [(st, None)]
    if m == '~basic_string':
        return [(st, None)]
    if m in ('operator=', 'assign'):
        if m == 'assign' and len(ps) != 1:
            raise Unsupported(d)
        v = strarg(ex, st, ps[0], args[1])
        setstr(ex, st, this, v)
        if ps[0].endswith('&&') and args[1] != this:
            setstr(ex, st, args[1], Str(''))
        return [(st, this)]
    if m in ('operator+=', 'append', 'push_back'):
        if len(ps) != 1:
            raise Unsupported(d)
        setstr(ex, st, this, concat(getstr(ex, st, this), strarg(ex, st, ps[0], args[1])))
        return [(st, this)]
    v = getstr(ex, st, this)
    if m == 'empty':
        return [(st, cmp('eq', strlen(v), 0))]
    if m in ('size', 'length'):
        return [(st, strlen(v))]
    if m in ('c_str', 'data'):
        return [(st, chars(ex, st, v))]
    if m in ('begin', 'cbegin'):
        st.x['it', this] = (v, chars(ex, st, v))
        return [(st, st.x['it', this][1])]
    if m in ('end', 'cend'):
        it = st.x.get(('it', this))
        p = it[1] if it is not None and it[0] == v else chars(ex, st, v)
        st.x['it', this] = (v, p)
        return [(st, Ptr(p.obj, strlen(v)))]
    if m in ('operator[]', 'at', 'front', 'back'):
        i = ex.num(args[1]) if m in ('operator[]', 'at') else 0 if m == 'front' else sub(strlen(v), 1)
        if not ex.oblige(st, 'string index in range', band(cmp('ge', i, 0), cmp('le', i, strlen(v)))):
            return []
        p = chars(ex, st, v)
        return [(st, Ptr(p.obj, i))]
    if m in ('clear',):
        setstr(ex, st, this, Str(''))
        return [(st, None)]
    if m in ('find', 'find_first_of') and len(ps) == 2 and ps[0] in ('char', 'char const*'):
        nd = strarg(ex, st, ps[0], args[1])
        r = keep(z3.IndexOf(v.z(), nd.z(), expr(ex.num(args[2]))))
        RNG[r.get_id()] = (-1, 1 << 40)
        return [(st, Lin(0, ((1, r),)))]
    if m == 'compare' and len(ps) == 1:
        return [(st, B2I(bnot(streq(v, strarg(ex, st, ps[0], args[1])))))]
    if m in ('reserve', 'shrink_to_fit'):
        return [(st, None)]
    raise Unsupported('string function ' + d)


PREFIX.append(('std::__cxx11::basic_string::', string_member))


@contract('std::operator+')
def _(ex, st, args, name):
    d = ex.mod.dem[name]
    if 'basic_string' not in d:
        return NotImplemented
    ps = params(d)
    setstr(ex, st, args[0], concat(strarg(ex, st, ps[0], args[1]), strarg(ex, st, ps[1], args[2])))
    return [(st, None)]


@contract('std::operator==', 'std::operator!=')
def _(ex, st, args, name):
    d = ex.mod.dem[name]
    ps = params(d)
    if not ps or 'basic_string' not in ps[0] + ps[-1] or 'iterator' in ps[0]:
        return NotImplemented
    r = streq(strarg(ex, st, ps[0], args[0]), strarg(ex, st, ps[1], args[1]))
    return [(st, r if 'operator==' in ex.mod.base[name] else bnot(r))]


@contract('std::__cxx11::to_string', 'std::to_string')
def _(ex, st, args, name):
    n = ex.num(args[1])
    if isinstance(n, int):
        v = Str(str(n))
    else:
        e = expr(n)
        v = Str(keep(z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal('-'), z3.IntToStr(-e)))))
        if ex.prove(st, cmp('ge', n, 0)):
            v = Str(keep(z3.IntToStr(e)))
    setstr(ex, st, args[0], v)
    return [(st, None)]


@contract('std::find')
def _(ex, st, args, name):
    a, b = args[0], args[1]
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj):
        return NotImplemented
    o = ex.getobj(st, a.obj)
    if not (type(o.tag) is tuple and o.tag[0] == 'chars'):
        return NotImplemented
    c = ex.read(st, args[2], I8)
    ch = ex.num(c[0][1])
    v = o.tag[1]
    if isinstance(v.e, str) and isinstance(a.off, int) and isinstance(b.off, int):
        i = v.e.find(chr(ch), a.off, b.off)
        return [(st, Ptr(a.obj, b.off if i < 0 else i))]
    e = z3.IndexOf(v.z(), z3.StringVal(chr(ch)), expr(a.off))
    out = []
    for t, s in ex.branch(st, keep(e >= 0)):
        if t:
            i = ex.fresh('i', 64, 0, 1 << 40)
            s.pc.append(keep(expr(i) == e))
            s.pc.append(keep(expr(i) < expr(b.off)))
            out.append((s, Ptr(a.obj, i)))
        else:
            out.append((s, b))
    return out


# ------------------------------------------------------------------ time
@contract('std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now')
def _(ex, st, args, name):
    if 'vf_now' in ex.mod.funcs:
        return ex.call(st, 'vf_now', [])
    return [(st, ex.fresh('now', 64, 0, 1 << 62))]


# ------------------------------------------------------------------ floating point (concrete values only)
def fmuladd(bits):
    def h(ex, st, args, name):
        from fractions import Fraction
        import vc
        for a in args:
            ex.needfloat(a)
        x, y, z = args
        rnd = vc.f32 if bits == 32 else (lambda v: v)
        if any(math.isnan(a) or math.isinf(a) for a in args):
            return [(st, rnd(rnd(x * y) + z))]
        r1 = rnd(rnd(x * y) + z)                    # the compiler may or may not fuse
        r2 = Fraction(x) * Fraction(y) + Fraction(z)
        if bits == 32:
            d = float(r2)                           # avoid double rounding: sticky
            if Fraction(d) != r2:
                import struct
                u = struct.unpack('<q', struct.pack('<d', d))[0]
                if not u & 1:
                    up = abs(Fraction(d)) < abs(r2)
                    u = u + 1 if up else u - 1
                    d = struct.unpack('<d', struct.pack('<q', u))[0]
            r2 = vc.f32(d)
        else:
            r2 = float(r2)
        if r1 == r2:
            return [(st, r1)]
        return [(st.fork(), r2), (st, r1)]
    return h


for b, n in ((32, 'f32'), (64, 'f64')):
    C['llvm.fmuladd.' + n] = C['llvm.fma.' + n] = fmuladd(b)


def fun1(f):
    def h(ex, st, args, name):
        ex.needfloat(args[0])
        v = args[0]
        return [(st, v if math.isnan(v) or math.isinf(v) else float(f(v)))]
    return h


for n, f in (('ceil', math.ceil), ('floor', math.floor), ('trunc', math.trunc), ('fabs', abs), ('round', lambda v: math.copysign(math.floor(abs(v) + 0.5), v)),
             ('rint', round), ('nearbyint', round)):
    for m in ('', 'f'):
        C[n + m] = fun1(f)
    for m in ('f32', 'f64'):
        C['llvm.%s.%s' % (n, m)] = fun1(f)
for n, f in (('lround', lambda v: math.copysign(math.floor(abs(v) + 0.5), v)), ('lrint', round)):
    for m in ('', 'f'):
        def _h(ex, st, args, name, f=f):
            ex.needfloat(args[0])
            return [(st, int(f(args[0])))]
        C[n + m] = _h
