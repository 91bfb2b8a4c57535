"""Loop invariants: the modified locations are found by iteration, candidate invariants are generated from
templates (entry bounds, comparisons made by the code, witness relations, contract supplied ones) and the
largest inductive subset is kept (Houdini). The loop body is then verified once from an arbitrary state
satisfying the invariant."""
import time
import z3
from math import gcd
from sym import *
from vc import Unsupported, State, UseUndef


class _Forget:
    def __repr__(self):
        return 'forgotten'


class Variant:
    origin = None
    def __init__(self, base):
        self.base = base
        self.M = {}
        self.fresh = {}
        self.dirty = True
        self.backs = []
        self.H = None
        self.cands = None


class NoMatch(Exception):
    pass


class Touched(Exception):
    """the loop goes to elements of a container it was hoped to leave alone"""


ABS = object()


class Undecided(Exception):
    pass


class LoopInv:
    def __init__(self, ex, st, f, regs, hdr, prev, region, keep=True):
        self.ex = ex
        self.f = f
        self.regs = regs
        self.hdr = hdr
        self.prev = prev
        self.region = region
        # elements of containers seen before the loop stay known as long as the loop leaves their container alone
        self.known = {k for o in st.mem.values() if o.arr is not None for k in
                      [(o.id, i) for i in o.arr.slots if not isinstance(i, str)]} if keep else set()
        self.S0 = self.clean(st)
        self.n0 = ex.n
        self.framelocals = set(regs['#a'])

    # -- states
    def clean(self, st):
        """drop the cached contents of the unnamed container elements"""
        s = st.fork()
        for oid, o in list(s.mem.items()):
            if o.arr is not None and any(not isinstance(k, str) and (oid, k) not in self.known for k in o.arr.slots):
                ob = s.w(oid)
                a = ob.arr.copy()
                for k in [k for k in a.slots if not isinstance(k, str) and (oid, k) not in self.known]:
                    s.mem.pop(a.slots[k][1], None)
                    del a.slots[k]
                ob.arr = a
        return s

    def cellval(self, o, off, like):
        """value of a location in an object: (size, value) or ABS"""
        c = o.cells.get(off)
        if c is not None:
            return c
        size, v = like
        for k, (z, x) in o.cells.items():
            if k < off + size and off < k + z:
                return None
        for lo, hi in o.zeros:
            if lo <= off and off + size <= hi:
                return (size, NULL if isinstance(v, (Ptr,)) else 0)
        for h in o.havoc:
            if h[0] <= off and off + size <= h[1] and not isinstance(v, Ptr):
                return (size, self.ex.havocsym(o, off, size, h))
        return (size, UNDEF)

    def diff(self, A, B):
        """-> list of (oid, off, size, va, vb) for locations whose value differs"""
        out = []
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if ob is oa:
                continue
            if ob is None:
                if oid in self.framelocals or isinstance(oid, str):
                    continue
                raise NoMatch('object %s disappeared' % oa.name)
            if oa.alive != ob.alive:
                raise NoMatch('liveness of ' + oa.name)
            if oa.zeros != ob.zeros:
                if set(oa.zeros) != set(ob.zeros):
                    raise NoMatch('zeroed range')
            for lo in oa.lazy:
                if lo not in ob.lazy:
                    raise NeedLazy(oid, lo)
            keys = set(oa.cells) | set(ob.cells)
            if oa.cells is ob.cells:
                continue
            for k in keys:
                ca = oa.cells.get(k)
                cb = ob.cells.get(k)
                if ca is cb:
                    continue
                if ca is None:
                    ca = self.cellval(oa, k, cb)
                if cb is None:
                    cb = self.cellval(ob, k, ca)
                if ca is None or cb is None or ca[0] != cb[0]:
                    raise NoMatch('cell layout of %s+%d' % (oa.name, k))
                if same(ca[1], cb[1]):
                    continue
                out.append((oid, k, ca[0], ca[1], cb[1]))
        for oid, ob in B.mem.items():
            if oid not in A.mem and isinstance(oid, str) and oid[0] == '@' and ob.tag == 'global':
                self.ex.gobj(A, oid[1:])
                return self.diff(A, B)
        return out

    def classify(self, V, oid, off, size, va, vb):
        """how to generalise a location whose value differs between the header state and an incoming state"""
        old = V.M.get((oid, off))
        if isinstance(va, _Forget) or (old and old[0] == 'forget'):
            return ('forget',)
        local = oid in self.framelocals
        if isinstance(vb, _Forget) or vb is UNDEF or va is UNDEF:
            if va is UNDEF or local or isinstance(vb, _Forget):
                if local or va is not UNDEF:
                    return ('forget',)
            raise NoMatch('defined %r / undefined %r at %s+%d' % (va, vb, oid, off))
        if isinstance(va, Str) or isinstance(vb, Str):
            if isinstance(va, Str) and isinstance(vb, Str):
                return ('str',)
            raise NoMatch('string')
        pa, pb = isinstance(va, Ptr), isinstance(vb, Ptr)
        if pa and isinstance(vb, int) and vb == 0:
            vb, pb = NULL, True
        if pb and isinstance(va, int) and va == 0:
            va, pa = NULL, True
        if pa and pb:
            if va.obj == vb.obj and va.obj is not None:
                d = sub(vb.off, va.off)
                g = abs(d) if isinstance(d, int) else 0
                if not isinstance(d, int):
                    g = abs(d.c)
                    for k, _ in d.t:
                        g = gcd(g, abs(k))
                if old and old[0] == 'off':
                    g = gcd(g, old[1])
                ob = V.base.mem.get(va.obj)
                if ob is not None and ob.arr is not None and g % ob.arr.stride == 0:
                    g = ob.arr.stride
                return ('off', g)
            if va.obj is not None and vb.obj is not None:
                oa, ob = V.base.mem.get(va.obj) or (V.H and V.H.mem.get(va.obj)), None
                if oa is not None and oa.kind is not None and va.off == vb.off:
                    return ('obj', oa.kind)
                if local:
                    return ('forget',)
            if local and self.ex.dead_local(self, oid):
                return ('forget',)
            raise NoMatch('pointer %r / %r at %s+%d' % (va, vb, oid, off))
        if pa or pb or isinstance(va, (FnPtr, float, tuple)) or isinstance(vb, (FnPtr, float, tuple)):
            if local:
                return ('forget',)
            raise NoMatch('%r / %r' % (va, vb))
        if size == 1 and isbool(va) and isbool(vb) and not (old and old[0] == 'int'):
            return ('bool',)
        return ('int', size)

    def widen(self, V):
        ex = self.ex
        H = V.base.fork()
        for (oid, off), info in V.M.items():
            o = H.w(oid)
            k = info[0]
            size = V.sizes[(oid, off)]
            key = (oid, off, k)
            if k == 'forget':
                o.cells[off] = (size, FORGET)
            elif k == 'int':
                if key not in V.fresh:
                    V.fresh[key] = ex.fresh('h_%s+%d' % (str(o.name)[-16:], off), 8 * size)
                o.cells[off] = (size, V.fresh[key])
            elif k == 'bool':
                if key not in V.fresh:
                    V.fresh[key] = ex.freshb('h_%s+%d' % (str(o.name)[-16:], off))
                o.cells[off] = (size, B2I(V.fresh[key]))
            elif k == 'str':
                if key not in V.fresh:
                    V.fresh[key] = Str(ex.freshs('h_s'))
                o.cells[off] = (size, V.fresh[key])
            elif k == 'off':
                if key not in V.fresh:
                    V.fresh[key] = ex.fresh('t_%s' % o.name[-16:], 62)
                p = self.basecell(V, oid, off)
                o.cells[off] = (size, Ptr(p.obj, add(p.off, scale(V.fresh[key], info[1]))))
            elif k == 'obj':
                outs = ex.spec_call(H, info[1], [])
                if len(outs) != 1 or outs[0][0] is not H:
                    raise Unsupported('object generator forks')
                p = outs[0][1]
                old = self.basecell(V, oid, off)
                H.w(oid).cells[off] = (size, Ptr(p.obj, add(p.off, old.off)))
                V.fresh[key] = p
        return H

    def basecell(self, V, oid, off):
        o = V.base.mem[oid]
        c = o.cells.get(off)
        if c is None:
            c = self.cellval(o, off, (8, NULL))
        return NULL if isinstance(c[1], int) else c[1]

    def getval(self, V, S, loc):
        """the number/bool standing for a widened location in an incoming state"""
        oid, off = loc
        info = V.M[loc]
        o = S.mem[oid]
        c = o.cells.get(off)
        if c is None:
            c = self.cellval(o, off, (V.sizes[loc], 0))
        v = c[1]
        if info[0] == 'int':
            return self.ex.num(v)
        if info[0] == 'bool':
            return self.ex.boolv(v)
        if info[0] == 'off':
            p = self.basecell(V, oid, off)
            d = sub(v.off, p.off)
            if isinstance(d, int):
                return d // info[1]
            return Lin(d.c // info[1], tuple((k // info[1], a) for k, a in d.t))
        if info[0] == 'obj':
            return v
        if info[0] == 'str':
            return v
        return None

    # -- running the body
    def runbody(self, H):
        ex = self.ex
        ex.loopmon.append([-1, self.region, False, None, False])
        try:
            res = ex.region([(H.fork(), dict(self.regs), self.hdr, self.prev, 0)], self.f, self.region, self.hdr)
        finally:
            ex.loopmon.pop()
        if self.known and any(oid in ex.elements for oid, _ in self.known):
            raise Touched()
        outs = [o for o in res if o[0] != 'back']
        backs = []
        for o in res:
            if o[0] == 'back':
                e = self.leaves(o)
                if e is None:
                    backs.append(self.clean(o[1]))
                else:
                    outs.append(e)
        return backs, outs

    def leaves(self, o):
        """a state that comes back to the loop header only to leave there, decided by constants: the way out, else None
        (such a state just runs on and needs no invariant)"""
        ex, blk, prev = self.ex, self.hdr, o[2]
        st, regs = None, None
        old, nobl, n = ex.branch, len(ex.obls), ex.n

        def decided(s, c):
            if not isinstance(c, bool):
                raise Undecided()
            return [(c, s)]
        ex.branch = decided
        ex.loopmon.append([-1, self.region, False, None, False, False])
        try:
            for _ in range(6):
                b = self.f.blocks[blk]
                if any(i.op in ('call', 'invoke', 'store', 'atomicrmw', 'cmpxchg', 'alloca', 'ret', 'switch') for i in b.insts) or (blk in self.f.loops and blk != self.hdr):
                    return None
                if st is None:
                    st, regs = o[1].fork(), dict(o[3])
                work = []
                nxt = ex.block(st, regs, self.f, b, prev, 0, work, [], self.region)
                if nxt is None or work or len(ex.obls) != nobl or ex.n != n:
                    del ex.obls[nobl:]
                    return None
                st, regs, blk, prev = nxt
                if blk not in self.region:
                    return ('edge', st, (prev, blk), regs)
                if blk == self.hdr:
                    return None
        except (Undecided, Unsupported, UseUndef):
            del ex.obls[nobl:]
        finally:
            del ex.branch
            ex.loopmon.pop()
        return None

    def entries(self):
        return [self.S0]

    def solve(self):
        ex = self.ex
        if not self.known:
            return self.solve0()
        S0, log0, obls0, cov, seen = self.S0, len(ex.cmp_log), len(ex.obls), dict(ex.covers), ex.elements
        lazy, suppress = ex.lazy, ex.suppress
        ex.elements = set()
        try:
            return self.solve0()
        except Touched:
            del ex.cmp_log[log0:]
            del ex.obls[obls0:]
            ex.covers = cov
            ex.lazy, ex.suppress = lazy, suppress
            return LoopInv(ex, S0, self.f, self.regs, self.hdr, self.prev, self.region, False).solve()
        finally:
            ex.elements |= seen

    def solve0(self):
        for attempt in range(6):
            try:
                return self.solve1()
            except NeedLazy as e:
                # materialise lazily created state before the loop
                st = self.S0
                o = st.mem[e.oid]
                sz, fn, arg = o.lazy[e.lo]
                ob = st.w(e.oid)
                ob.lazy = {k: v for k, v in ob.lazy.items() if k != e.lo}
                outs = self.ex.spec_call(st, fn, [Ptr(e.oid, e.lo)])
                if len(outs) == 1:
                    self.S0 = outs[0][0]
                    continue
                res = []
                for s, _ in outs:
                    res += LoopInv(self.ex, s, self.f, self.regs, self.hdr, self.prev, self.region, bool(self.known)).solve()
                return res
        raise Unsupported('lazy state in loop')

    def rebase(self, B):
        """a header variant with the shape of a back state; every number in it that is not the entry's is generalised"""
        V = Variant(None)
        V.sizes = {}
        base = B.fork()
        base.pc = list(self.S0.pc)
        V.base = base
        for oid, ob in list(base.mem.items()):
            oa = self.S0.mem.get(oid)
            if oa is ob:
                continue
            for off, (size, v) in list(ob.cells.items()):
                if oa is not None:
                    ca = oa.cells.get(off)
                    if ca is not None and ca[0] == size and same(ca[1], v):
                        continue
                if isinstance(v, (int, Lin)) and not isinstance(v, bool):
                    if isinstance(v, int) and (oa is None or (oa.cells.get(off) is None)):
                        continue
                    V.M[(oid, off)] = ('int', size)
                elif isinstance(v, B2I):
                    V.M[(oid, off)] = ('bool',)
                elif isinstance(v, Str) and not isinstance(v.e, str):
                    V.M[(oid, off)] = ('str',)
                elif isinstance(v, Ptr) and isinstance(v.off, Lin):
                    g = 0
                    for k, _ in v.off.t:
                        g = gcd(g, abs(k))
                    V.M[(oid, off)] = ('off', g)
                    if oa is not None:
                        ca = oa.cells.get(off)
                        if ca is not None and isinstance(ca[1], Ptr) and ca[1].obj == v.obj:
                            base.w(oid).cells[off] = ca
                            d = sub(v.off, ca[1].off)
                            g = abs(d) if isinstance(d, int) else abs(d.c)
                            for k, _ in (d.t if isinstance(d, Lin) else ()):
                                g = gcd(g, abs(k))
                            V.M[(oid, off)] = ('off', g or 1)
                    if (oid, off) in V.M and isinstance(base.mem[oid].cells[off][1].off, Lin) and not self.preloop_lin(base.mem[oid].cells[off][1].off):
                        p = base.mem[oid].cells[off][1]
                        base.w(oid).cells[off] = (size, Ptr(p.obj, p.off.c % V.M[(oid, off)][1]))
                elif v is UNDEF or isinstance(v, (_Forget, Ptr, FnPtr, Str, float, tuple)):
                    continue
                V.sizes[(oid, off)] = size
        V.sizes = {k: s for k, s in V.sizes.items()}
        for k in V.M:
            V.sizes.setdefault(k, base.mem[k[0]].cells[k[1]][0])
        return V

    def preloop(self, e):
        return all(constno(i) <= self.n0 for i in vars_of(e))

    def preloop_lin(self, v):
        return isinstance(v, int) or all(self.preloop(a) for _, a in v.t)

    def match(self, V, B):
        """-> {loc: info} of locations to be generalised in V for B; raises NoMatch"""
        new = {}
        ref = V.H if V.H is not None else V.base
        for oid, off, size, va, vb in self.diff(V.base, B):
            loc = (oid, off)
            info = self.classify(V, oid, off, size, va, vb)
            if V.M.get(loc) != info:
                new[loc] = info
                V.sizes[loc] = size
        return new

    def solve1(self):
        ex = self.ex
        snap, cov = len(ex.obls), dict(ex.covers)
        try:
            return self.solve2(True)
        except (Unsupported, UseUndef):
            if ex.lazy:
                raise
        del ex.obls[snap:]
        ex.covers = cov
        try:
            return self.solve2(False)
        except TooMany:
            if ex.lazy:
                raise
        del ex.obls[snap:]
        ex.covers = cov
        return self.solve2(False, True)

    def discover(self, lazy, hopeful=False):
        """the shapes of the states at the loop header and the locations modified -> (variants, comparisons, around other loops)"""
        ex = self.ex
        V0 = Variant(self.S0)
        V0.sizes = {}
        variants = [V0]
        log0 = len(ex.cmp_log)
        ex.suppress += 1
        ex.lazy += 1 if lazy else 0
        old = ex.lazy
        if not lazy:
            ex.lazy = 0
        cov = dict(ex.covers)
        solved = ex.loops_solved
        dirs = {}
        try:
            for rnd in range(40):
                v = next((v for v in variants if v.dirty), None)
                if v is None:
                    break
                v.dirty = False
                v.H = self.widen(v)
                H = v.H
                if hopeful:
                    # what does not come up under the most likely invariants (the final check of the invariants
                    # goes without these assumptions and refuses every state not found here)
                    H = v.H.fork()
                    H.pc = H.pc + self.hopes(v, dirs)
                v.backs, v.outs = self.runbody(H)
                for B in v.backs:
                    if hopeful:
                        self.directions(v, B, dirs)
                    self.place(variants, B)[0]
            else:
                raise Unsupported('loop analysis does not converge in ' + ex.mod.base.get(self.f.name, self.f.name))
            log = ex.cmp_log[log0:]
            del ex.cmp_log[log0:]
        finally:
            ex.suppress -= 1
            ex.lazy = old - (1 if lazy else 0)
            ex.covers = cov
        return variants, log, ex.loops_solved != solved

    def directions(self, v, B, dirs):
        """whether the numbers at the loop header only grow or only shrink"""
        for oid, o in v.H.mem.items():
            n = B.mem.get(oid)
            if n is None or n is o:
                continue
            for off, (size, a) in o.cells.items():
                c = n.cells.get(off)
                if c is None or c[0] != size or same(c[1], a):
                    continue
                b = c[1]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    a, b = a.off, b.off
                if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)) or isinstance(a, bool):
                    continue
                d = sub(b, a)
                s = (1 if d > 0 else -1) if isinstance(d, int) else 0
                dirs[(oid, off)] = s if dirs.get((oid, off), s) == s else 0

    def hopes(self, v, dirs):
        res = []
        B = v.origin if v.origin is not None else self.S0
        if v.origin is not None:
            res += B.pc[len(self.S0.pc):]
        for loc, info in v.M.items():
            if info[0] not in ('int', 'off') or not dirs.get(loc):
                continue
            try:
                x = self.getval(v, B, loc)
            except (UseUndef, KeyError):
                continue
            if x is None:
                continue
            c = cmp('ge' if dirs[loc] > 0 else 'le', v.fresh[(loc[0], loc[1], info[0])], x)
            if not isinstance(c, bool):
                res.append(keep(c))
        return res

    def solve2(self, lazy, hopeful=False):
        ex = self.ex
        t0 = time.time()
        variants, log, nested = self.discover(lazy, hopeful)
        if ex.lazy:
            # an outer loop is only finding out what is modified: any superset of the executions will do
            ex.cmp_log += log
            return [o for v in variants for o in v.outs]
        if nested or hopeful:
            outs = self.infer_around(variants, log)
        else:
            outs = self.infer(variants, log)
        ex.houdini_stats.append((ex.mod.base.get(self.f.name, self.f.name), self.hdr, len(variants),
                                 sum(len(v.inv) for v in variants), round(time.time() - t0, 2)))
        if ex.debug:
            print('LOOP', ex.houdini_stats[-1])
            for v in variants:
                for loc, i in v.M.items():
                    print('   mod', loc, i, v.base.mem[loc[0]].name, v.fresh.get((loc[0], loc[1], i[0])))
                for c in v.inv:
                    print('   inv', str(c).replace('\n', ' '))
        return outs

    def infer(self, variants, log):
        """a loop without loops in it: the incoming states do not depend on the invariants"""
        ex = self.ex
        for rnd in range(3):
            self.houdini(variants, log)
            # final run with the invariants assumed: obligations count
            snap = len(ex.obls)
            cov = dict(ex.covers)
            outs = []
            for v in variants:
                H = v.H.fork()
                H.pc = H.pc + [keep(c) for c in v.inv]
                if not ex.feasible(H):
                    v.newbacks = []
                    continue
                v.newbacks, o = self.runbody(H)
                outs += o
            bad = any(o.status in ('failed', 'unknown') for o in ex.obls[snap:])
            if not (bad or ex.suppress) or rnd == 2 or (rnd == 1 and ex.suppress):
                break
            for v in variants:
                v.backs = v.newbacks
            olds = [set(c.get_id() for c in v.inv) for v in variants]
            self.houdini(variants, log)
            if all(set(c.get_id() for c in v.inv) == o for v, o in zip(variants, olds)):
                break
            del ex.obls[snap:]
            ex.covers = cov
        return outs

    def infer_around(self, variants, log):
        """a loop around loops: the body is run under all candidates left, until none is refuted by its outcome
        (the invariants of the inner loops depend on those of this one)"""
        ex = self.ex
        for v in variants:
            v.pool = self.pool(v, [S for w in variants for S in w.backs] + [self.S0], log)
            v.alive = list(range(len(v.pool)))
        self.filter(variants[0], None, self.S0)
        for rnd in range(20):
            snap = len(ex.obls)
            cov = dict(ex.covers)
            outs = []
            quiet = rnd == 0
            ex.suppress += 1 if quiet else 0
            loglen = len(ex.cmp_log)
            try:
                dropped = False
                for v in variants:
                    v.inv = [v.pool[i][0] for i in v.alive]
                for v in variants:
                    H = v.H.fork()
                    H.pc = H.pc + [keep(c) for c in v.inv]
                    if not ex.feasible(H):
                        continue
                    backs, o = self.runbody(H)
                    outs += o
                    for B in backs:
                        w, B = self.place(variants, B)
                        if w.dirty:
                            if ex.debug:
                                print('CHANGED', rnd, variants.index(v), variants.index(w), w.M, [str(e) for e in B.pc[-8:]], 'INV', [str(c) for c in v.inv])
                            raise Unsupported('loop state changed during inference')
                        if self.filter(w, v, B):
                            dropped = True
            finally:
                ex.suppress -= 1 if quiet else 0
            if not dropped and not (quiet and ex.suppress == 0):
                return outs
            del ex.obls[snap:]
            del ex.cmp_log[loglen:]
            ex.covers = cov
        raise Unsupported('the invariants of nested loops do not converge')

    def place(self, variants, B):
        """the variant a state belongs to, with the state up to the names of the objects made in the loop"""
        why = []
        best = None
        for w in variants:
            C = self.align(w, B)
            try:
                new = self.match(w, C)
            except NoMatch as e:
                why.append(str(e))
                continue
            if best is None or len(new) < len(best[1]):
                best = (w, new, C)
                if not new:
                    break
        if best is None:
            if len(variants) >= 10:
                raise TooMany('too many loop states: ' + '; '.join(why))
            V = self.rebase(B)
            V.origin = B
            variants.append(V)
            if self.ex.debug:
                print('  new variant because', why)
            return V, B
        w, new, C = best
        if new:
            w.M.update(new)
            w.dirty = True
        return w, C

    def align(self, V, B):
        """B with the objects made in the loop named as their counterparts in V"""
        A = V.base
        if A is self.S0 or not self.S0.mem.keys() < A.mem.keys():
            return B
        S = self.S0.mem
        ren = {}

        def pair(x, y):
            if x == y or x in ren or y in ren or not isinstance(x, int) or not isinstance(y, int):
                return False
            if x in S or y in S or x not in A.mem or y not in B.mem:
                return False
            if A.mem[x].size != B.mem[y].size:
                return False
            ren[x], ren[y] = y, x
            return True
        work = []
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if oid in S and ob is not None and ob is not oa:
                work.append((oa, ob))
        while work:
            oa, ob = work.pop()
            if oa.cells is ob.cells:
                continue
            for k, (z, va) in oa.cells.items():
                cb = ob.cells.get(k)
                if cb is None or cb[0] != z:
                    continue
                vb = cb[1]
                if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.obj != vb.obj and same(va.off, vb.off):
                    if pair(va.obj, vb.obj):
                        work.append((A.mem[va.obj], B.mem[vb.obj]))
        if not ren or any(k[0] in ren for k in B.shared) or any(k[0] in ren for k in B.protect):
            return B
        C = B.fork()
        back = {}
        for oid, o in B.mem.items():
            n = None
            for k, (z, v) in o.cells.items():
                if isinstance(v, Ptr) and v.obj in ren:
                    n = n or o.copy()
                    n.cells[k] = (z, Ptr(ren[v.obj], v.off))
            if o.arr is not None and any(sl[1] in ren for sl in o.arr.slots.values()):
                return B
            if oid in ren:
                n = n or o.copy()
                n.id = ren[oid]
            if n is not None:
                back[oid] = n
        for oid in back:
            del C.mem[oid]
        for oid, n in back.items():
            C.mem[n.id] = n
        return C

    # -- candidate invariants
    def houdini(self, variants, log):
        ex = self.ex
        # incoming states of each variant
        inc = {id(v): [] for v in variants}
        inc[id(variants[0])].append((None, self.S0))
        for v in variants:
            for B in v.backs:
                w, B = self.place(variants, B)
                if w.dirty:
                    raise Unsupported('loop state changed during inference')
                inc[id(w)].append((v, B))
        for v in variants:
            v.pool = self.pool(v, [S for _, S in inc[id(v)]], log)
        # eliminate until inductive
        for v in variants:
            v.alive = list(range(len(v.pool)))
        changed = True
        while changed:
            changed = False
            for v in variants:
                for src, S in inc[id(v)]:
                    if self.filter(v, src, S):
                        changed = True
        for v in variants:
            v.inv = [v.pool[i][0] for i in v.alive]

    def filter(self, v, src, S):
        """drop the candidates of v that do not follow for incoming state S; True if any was dropped"""
        ex = self.ex
        if not v.alive:
            return False
        hyp = list(S.pc)
        if src is not None:
            hyp = hyp + [src.pool[i][0] for i in src.alive]
        goals = {}
        dropped = False
        keep_ = []
        for i in v.alive:
            g = v.pool[i][1](S)
            if g is True:
                keep_.append(i)
                continue
            if g is False or g is None:
                # only fine when S is infeasible
                g = z3.BoolVal(False)
            goals[i] = g
        if not goals:
            return False
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*hyp)
        s.add(*ex.ranges(hyp + list(goals.values())))
        t0 = time.time()
        bad = set()
        while goals:
            ex.checks += 1
            s.push()
            s.add(z3.Or([z3.Not(g) for g in goals.values()]))
            r = s.check()
            if r == z3.sat:
                m = s.model()
                kill = [i for i, g in goals.items() if z3.is_false(m.eval(g, model_completion=True))]
                s.pop()
                if not kill:
                    kill = list(goals)[:1]
                for i in kill:
                    del goals[i]
                    bad.add(i)
                continue
            s.pop()
            if r == z3.unsat:
                break
            # undecided: one by one
            for i in list(goals):
                s.push()
                s.add(z3.Not(goals[i]))
                if s.check() != z3.unsat:
                    bad.add(i)
                    del goals[i]
                s.pop()
            break
        ex.solver_s += time.time() - t0
        if bad:
            v.alive = [i for i in v.alive if i not in bad]
            return True
        return False

    def pool(self, V, incoming, log):
        """candidates: (formula over header symbols, function state -> formula)"""
        ex = self.ex
        ints, bools, strs, objs = [], [], [], []
        for loc, info in V.M.items():
            key = (loc[0], loc[1], info[0])
            if info[0] in ('int', 'off'):
                ints.append((loc, V.fresh[key]))
            elif info[0] == 'bool':
                bools.append((loc, V.fresh[key]))
            elif info[0] == 'str':
                strs.append((loc, V.fresh[key]))
            elif info[0] == 'obj':
                objs.append((loc, V.fresh[key]))
        # fields of generalised objects count as numbers too
        getters = {}
        for loc, t in ints + bools + strs:
            getters[t if isinstance(t, Lin) else id(t)] = None
        hdrvars = []        # (z3 const, getter)

        def g_loc(loc):
            return lambda S: self.getval(V, S, loc)
        terms = []
        for loc, t in ints:
            terms.append((t, g_loc(loc), self.entryval(V, loc)))
            hdrvars.append((t.t[0][1], g_loc(loc)))
        for loc, p in objs:
            o = V.H.mem[p.obj]
            for off, (size, v) in sorted(o.cells.items()):
                if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][0] == 1 and not self.preloop(v.t[0][1]):
                    def g(S, loc=loc, off=off, size=size):
                        q = self.getval(V, S, loc)
                        c = S.mem[q.obj].cells.get(add(q.off, off))
                        if c is None:
                            c = self.cellval(S.mem[q.obj], q.off + off, (size, 0))
                        return ex.num(c[1]) if c and c[1] is not UNDEF else None
                    e = None
                    try:
                        e = g(self.S0)
                    except Exception:
                        pass
                    terms.append((v, g, e))
                    hdrvars.append((v.t[0][1], g))
        bvars = []
        for loc, b in bools:
            bvars.append((b, g_loc(loc), self.entryval(V, loc)))
            hdrvars.append((b, g_loc(loc)))
        pool = []
        seen = set()

        def emit(formula):
            """formula over header variables; evaluated in a state by substitution"""
            if isinstance(formula, bool):
                return
            formula = keep(formula)
            i = formula.get_id()
            if i in seen:
                return
            seen.add(i)
            fv = vars_of(formula)
            hv = [(c, g) for c, g in hdrvars if c.get_id() in fv]
            if not hv:
                return

            def ev(S, formula=formula, hv=hv):
                subst = []
                for c, g in hv:
                    try:
                        x = g(S)
                    except UseUndef:
                        return None
                    if x is None:
                        return None
                    subst.append((c, bz(x) if z3.is_bool(c) else expr(x)))
                r = keep(z3.simplify(z3.substitute(formula, *subst)))
                return True if z3.is_true(r) else r
            pool.append((formula, ev))

        # invariant terms the code compares with
        T = []
        tseen = set()

        def addT(x):
            k = x if isinstance(x, int) else x.key
            if k not in tseen and len(T) < 14:
                tseen.add(k)
                T.append(x)
        for w in self.S0.wits:
            addT(w)
        for x, y in log:
            for z in (x, y):
                if self.preloop_lin(z) and not isinstance(z, int):
                    addT(z)
        for x, y in log:
            for z in (x, y):
                if isinstance(z, int) and abs(z) < 1 << 40:
                    addT(z)
        addT(0)
        for t, g, e in terms:
            if e is not None and self.preloop_lin(e):
                for op in ('eq', 'ge', 'le'):
                    emit(cmp(op, t, e))
            for c in T:
                for op in ('le', 'ge', 'lt', 'gt', 'eq', 'ne'):
                    emit(cmp(op, t, c))
                if isinstance(e, int) and not same(c, e):
                    emit(bor(cmp('eq', t, c), cmp('eq', t, e)))
                if e is not None and not isinstance(c, int) and self.preloop_lin(e):
                    for op in ('le', 'ge'):
                        emit(bor(cmp(op, t, c), cmp('eq', t, e)))
        for x, y in log:
            d = sub(x, y)
            if isinstance(d, int):
                continue
            if len(d.t) <= 4:
                for op in ('le', 'ge', 'lt', 'gt', 'eq'):
                    emit(cmp(op, d, 0))
        for i, (t, g, e) in enumerate(terms):
            for t2, g2, e2 in terms[i + 1:]:
                if e is not None and e2 is not None:
                    if self.preloop_lin(e) and self.preloop_lin(e2):
                        d1, d2 = sub(t, e), sub(t2, e2)
                        emit(cmp('eq', d1, d2))
                        emit(cmp('eq', d1, scale(d2, -1)))
                        emit(cmp('le', d1, d2))
                        emit(cmp('ge', d1, d2))
                for op in ('le', 'ge', 'eq'):
                    emit(cmp(op, t, t2))
        # numbers that move in step
        steps = []
        for t, g, e in terms:
            ds = set()
            for S in incoming:
                try:
                    x = g(S)
                    d = sub(x, t) if x is not None else None
                except (UseUndef, KeyError):
                    d = None
                if isinstance(d, int) and d:
                    ds.add(d)
            if len(ds) == 1 and e is not None and self.preloop_lin(e):
                steps.append((t, e, ds.pop()))
        for i, (t, e, d) in enumerate(steps):
            for t2, e2, d2 in steps[i + 1:]:
                if abs(d) != abs(d2):
                    emit(cmp('eq', scale(sub(t, e), d2), scale(sub(t2, e2), d)))
        for b, g, e in bvars:
            emit(b)
            emit(z3.Not(b))
            for b2, g2, e2 in bvars:
                if b2 is not b:
                    emit(z3.Implies(b, b2))
                    emit(z3.Implies(b, z3.Not(b2)))
                    emit(z3.Implies(z3.Not(b), b2))
        # witness relations
        guards = [b for b, _, _ in bvars] + [keep(z3.Not(b)) for b, _, _ in bvars]
        idxs = []
        for x, y in log:
            for p, q in ((x, y), (y, x)):
                if any(same(q, w) for w in self.S0.wits) and not self.preloop_lin(p):
                    idxs.append(p)
        # a number that says which iteration met the witness
        offs = []
        for p in idxs:
            pre = Lin(p.c, tuple((k, a) for k, a in p.t if self.preloop(a))) if isinstance(p, Lin) else p
            pre = pre if isinstance(pre, int) or pre.t else pre.c
            if all(not same(pre, o) for o in offs) and len(offs) < 4:
                offs.append(pre)
        for w in self.S0.wits:
            for o in offs:
                for t, g, e in terms:
                    emit(cmp('eq', t, sub(w, o)))
        for t, g, e in terms:
            idxs.append(t)
        for w in self.S0.wits:
            for x in idxs[:16]:
                for op in ('lt', 'le'):
                    c = cmp(op, w, x)
                    if not isinstance(c, bool):
                        guards.append(c)
                        guards.append(keep(z3.Not(c)))
        guards = guards[:80]
        # numbers that are equal whenever a flag has a certain value
        for b, g, e in bvars[:6]:
            for i, (t, g1, e1) in enumerate(terms):
                for t2, g2, e2 in terms[i + 1:]:
                    for S in incoming:
                        try:
                            x, y = g1(S), g2(S)
                        except (UseUndef, KeyError):
                            continue
                        if x is not None and y is not None and not isinstance(x, int) and same(x, y):
                            c = cmp('eq', t, t2)
                            if not isinstance(c, bool):
                                emit(z3.Implies(b, c))
                                emit(z3.Or(b, c))
                            break
        for t, g, e in terms:
            vals = []
            for S in incoming:
                try:
                    x = g(S)
                except (UseUndef, KeyError):
                    continue
                if isinstance(x, int):
                    vals.append(x)
                elif x is not None and e is not None and isinstance(sub(x, e), int) and self.preloop_lin(e):
                    vals.append(x)
                elif x is not None and e is not None and isinstance(sub(x, t), int) and self.preloop_lin(e):
                    vals.append(add(e, sub(x, t)))
                elif x is not None and self.preloop_lin(x):
                    if len(x.t) <= 2:
                        emit(cmp('eq', t, x))
                    if len(x.t) <= 8:
                        vals.append(x)
            if e is not None and self.preloop_lin(e):
                vals.append(e)
            u = []
            for x in vals:
                if x not in u:
                    u.append(x)
            for x in u[:4]:
                c = cmp('eq', t, x)
                if isinstance(c, bool):
                    continue
                for gd in guards:
                    emit(z3.Implies(gd, c))
        for b, g, e in bvars:
            for gd in guards:
                if gd is b:
                    continue
                emit(z3.Implies(gd, b))
                emit(z3.Implies(gd, z3.Not(b)))
        # witness splits of ints against witness value: K < x => ... handled above; contract supplied candidates
        for fn in self.S0.cands:
            def evc(S, fn=fn):
                try:
                    return self.evalcand(fn, S)
                except (Unsupported, UseUndef):
                    return None
            h = evc(V.H)
            if h is None or isinstance(h, bool):
                continue
            pool.append((keep(h), evc))
        # strings: unchanged or equal to entry
        for loc, t in strs:
            e = self.entryval(V, loc)
        return pool

    def evalcand(self, fn, S):
        ex = self.ex
        s = S.fork()
        n = len(s.pc)
        outs = ex.spec_call(s, fn, [])
        r = False
        for s2, b in outs:
            r = bor(r, band(*(list(s2.pc[n:]) + [ex.boolv(b)])))
        return r if isinstance(r, bool) else keep(r)

    def entryval(self, V, loc):
        o = self.S0.mem.get(loc[0])
        if o is None:
            return None
        c = o.cells.get(loc[1])
        if c is None:
            c = self.cellval(o, loc[1], (V.sizes[loc], 0))
        if c is None or c[1] is UNDEF or isinstance(c[1], _Forget):
            return None
        try:
            return self.getval(V, self.S0, loc)
        except Exception:
            return None


class TooMany(Unsupported):
    pass


class NeedLazy(Exception):
    def __init__(self, oid, lo):
        self.oid = oid
        self.lo = lo


FORGET = _Forget()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if type(a) != type(b):
        if isinstance(a, int) and a == 0 and isinstance(b, Ptr) and b.obj is None and b.off == 0:
            return True
        if isinstance(b, int) and b == 0 and isinstance(a, Ptr) and a.obj is None and a.off == 0:
            return True
        return False
    if isinstance(a, (int, Lin, Ptr, FnPtr, B2I, Str, float)):
        return a == b
    return False


def isbool(v):
    return isinstance(v, B2I) or (isinstance(v, int) and v in (0, 1))


def occurs(c, e):
    return c.get_id() in vars_of(e)


_NO = {}


def constno(i):
    r = _NO.get(i)
    if r is None:
        nm = CONST[i].decl().name()
        k = nm.rfind('!')
        r = int(nm[k + 1:]) if k >= 0 else 1 << 60
        _NO[i] = r
    return r
