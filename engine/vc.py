"""Deductive verifier for LLVM IR: symbolic execution of real function bodies, contracts at declared
functions, loop invariants inferred by Houdini and checked inductively, obligations discharged by z3."""
import time, math, struct
import z3
from ir import Module, Ty, I1, I8, I32, I64, PTR
from sym import *


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'zeros', 'havoc', 'lazy', 'kind', 'arr', 'alive', 'tag')

    def __init__(self, id, name, size):
        self.id = id
        self.name = name
        self.size = size
        self.cells = {}
        self.zeros = ()
        self.havoc = ()
        self.lazy = {}
        self.kind = None
        self.arr = None
        self.alive = True
        self.tag = None

    def copy(self):
        o = Obj(self.id, self.name, self.size)
        o.cells = dict(self.cells)
        o.zeros = self.zeros
        o.havoc = self.havoc
        o.lazy = self.lazy
        o.kind = self.kind
        o.arr = self.arr
        o.alive = self.alive
        o.tag = self.tag
        return o


class Arr:
    """abstract element store of a container: element `wit` is represented exactly, all others by the init function"""
    __slots__ = ('stride', 'wit', 'init', 'slots', 'owner', 'okind')

    def __init__(self, stride, wit, init, owner, okind):
        self.stride = stride
        self.wit = wit          # tuple of witness indices (int|Lin)
        self.init = init
        self.slots = {}         # 'K0','K1',.. or Lin key -> (idx, obj id)
        self.owner = owner
        self.okind = okind

    def copy(self):
        a = Arr(self.stride, self.wit, self.init, self.owner, self.okind)
        a.slots = dict(self.slots)
        return a


class State:
    __slots__ = ('mem', 'own', 'pc', 'shared', 'cands', 'wits', 'protect', 'x', 'dead', 'nds')

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.pc = []
        self.shared = {}
        self.cands = ()
        self.wits = ()
        self.protect = ()
        self.x = {}
        self.dead = False
        self.nds = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.pc = list(self.pc)
        s.shared = dict(self.shared)
        s.cands = self.cands
        s.wits = self.wits
        s.protect = self.protect
        s.x = dict(self.x)
        s.nds = self.nds
        return s

    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o


class Obligation:
    __slots__ = ('name', 'where', 'status', 'detail', 'ms', 'count', 'nds')

    def __init__(self, name, where, status, detail, ms):
        self.name = name
        self.where = where
        self.status = status
        self.detail = detail
        self.ms = ms
        self.nds = None


ORD = {'monotonic': 0, 'unordered': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5, None: -1}


class Ex:
    def __init__(self, mod, budget_s=200, log=None):
        self.mod = mod
        self.contracts = {}
        self.n = 0
        self.obls = []
        self.suppress = 0
        self.covers = {}
        self.steps = 0
        self.t_end = time.time() + budget_s
        self.solver_s = 0.0
        self.checks = 0
        self.stack = []
        self.spec_depth = 0
        self.cache = {}
        self.inc = z3.Solver()
        self.inc.set('timeout', 3000)
        self.inc_pc = []
        self.inc_new = []
        self.inc_vars = set()
        self.rngfacts = {}
        self.lazy = 0
        self.loopmon = []
        self.divcache = {}
        self.called = {}
        self.cmp_log = []
        self.elements = set()   # containers whose unnamed elements have been looked at
        self.trust = set()
        self.debug = False
        self.houdini_stats = []
        self.loops_solved = 0
        self.replaced = {}         # callee -> function standing for its contract
        self.used_contracts = {}
        self.dir = None
        self.havoccache = {}
        self.prefix = []
        self.terminate = None
        self.dump = False
        self.smt = []

    # ---------------------------------------------------------------- symbols / solver
    def fresh(self, hint, bits=64, lo=None, hi=None):
        self.n += 1
        a = keep(z3.Int('%s!%d' % (hint, self.n)))
        if lo is None:
            lo = -(1 << (bits - 1))
        if hi is None:
            hi = (1 << (bits - 1)) - 1
        RNG[a.get_id()] = (lo, hi)
        return Lin(0, ((1, a),))

    def freshb(self, hint):
        self.n += 1
        return keep(z3.Bool('%s!%d' % (hint, self.n)))

    def freshs(self, hint):
        self.n += 1
        return keep(z3.String('%s!%d' % (hint, self.n)))

    def ranges(self, exprs):
        """range facts of the atomic terms occurring in exprs"""
        seen = set()
        for e in exprs:
            seen |= vars_of(e)
        out = []
        for i in sorted(seen):
            if i in RNG:
                out += self.rngfact(i)
        return out

    def rngfact(self, i):
        r = self.rngfacts.get(i)
        if r is None or r[0] != RNG[i]:
            lo, hi = RNG[i]
            e = CONST[i]
            r = (RNG[i], [keep(e >= lo), keep(e <= hi)])
            self.rngfacts[i] = r
        return r[1]

    def sync(self, pc):
        k = 0
        m = min(len(pc), len(self.inc_pc))
        while k < m and self.inc_pc[k] is pc[k]:
            k += 1
        if len(self.inc_pc) > k:
            self.inc.pop(len(self.inc_pc) - k)
            del self.inc_pc[k:]
            for new in self.inc_new[k:]:
                self.inc_vars -= new
            del self.inc_new[k:]
        for e in pc[k:]:
            self.inc.push()
            self.inc.add(e)
            new = vars_of(e) - self.inc_vars
            for i in new:
                if i in RNG:
                    self.inc.add(*self.rngfact(i))
            self.inc_vars |= new
            self.inc_new.append(new)
            self.inc_pc.append(e)

    prop = None     # the property under check, None: all

    def check(self, st, extra=(), strong=False):
        """sat / unsat / unknown of the path condition with extra"""
        if time.time() > self.t_end:
            raise Unsupported('time budget exceeded')
        extra = [e for e in extra if e is not True]
        if any(e is False for e in extra):
            return z3.unsat
        key = (tuple(e.get_id() for e in st.pc), tuple(e.get_id() for e in extra))
        r = self.cache.get(key)
        if r is not None and not (strong and r == z3.unknown):
            return r
        t0 = time.time()
        self.checks += 1
        self.sync(st.pc)
        self.inc.push()
        for e in extra:
            keep(e)
            self.inc.add(e)
        for e in extra:
            for i in vars_of(e) - self.inc_vars:
                if i in RNG:
                    self.inc.add(*self.rngfact(i))
        r = self.inc.check()
        if r == z3.sat and strong:
            self.last_model = self.inc.model()
        self.inc.pop()
        if r == z3.unknown and strong:
            s = z3.Solver()
            s.set('timeout', 20000)
            al = list(st.pc) + extra
            s.add(*al)
            s.add(*self.ranges(al))
            s.add(*self.lemmas(al))
            r = s.check()
            if r == z3.sat:
                self.last_model = s.model()
        self.solver_s += time.time() - t0
        self.cache[key] = r
        return r

    def lemmas(self, exprs):
        """monotonicity instances for the nonlinear products occurring in exprs"""
        seen = set()
        prods = {}
        st = list(exprs)
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_mul(e):
                ch = [c for c in e.children() if not z3.is_int_value(c)]
                if len(ch) == 2:
                    prods[(ch[0].get_id(), ch[1].get_id())] = (ch[0], ch[1])
            st.extend(e.children())
        out = []
        ps = list(prods.values())
        for i, (a, b) in enumerate(ps):
            for x, y in ((a, b), (b, a)):
                out.append(z3.Implies(z3.And(x >= 0, y >= 1), x * y >= x))
                out.append(z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
            for c, d in ps[i + 1:]:
                for (p, q), (r, s) in (((a, b), (c, d)), ((a, b), (d, c)), ((b, a), (c, d)), ((b, a), (d, c))):
                    if q.eq(s):
                        out.append(z3.Implies(z3.And(q >= 0, p <= r), p * q <= r * s))
                        out.append(z3.Implies(z3.And(q >= 0, p >= r), p * q >= r * s))
                        out.append(z3.Implies(z3.And(q >= 0, p + 1 <= r), p * q + q <= r * s))
                        out.append(z3.Implies(z3.And(q >= 0, r + 1 <= p), r * q + q <= p * s))
        return out

    def feasible(self, st, c=True):
        if c is False:
            return False
        if c is True and not st.pc:
            return True
        return self.check(st, (c,)) != z3.unsat

    def prove(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        return self.check(st, (bnot(c),)) == z3.unsat

    def assume(self, st, c):
        if c is True:
            return True
        if c is False:
            st.dead = True
            return False
        st.pc.append(keep(c))
        return True

    def branch(self, st, c):
        """-> list of (truth, state) for the feasible sides; the given state is consumed"""
        if isinstance(c, bool):
            return [(c, st)]
        t = self.check(st, (c,)) != z3.unsat
        f = self.check(st, (bnot(c),)) != z3.unsat
        if t and f:
            s2 = st.fork()
            st.pc.append(keep(c))
            s2.pc.append(keep(bnot(c)))
            return [(True, st), (False, s2)]
        if t:
            st.pc.append(keep(c))
            return [(True, st)]
        if f:
            st.pc.append(keep(bnot(c)))
            return [(False, st)]
        st.dead = True
        return []

    def where(self):
        return ' > '.join(s for s in self.stack[-4:])

    def oblige(self, st, name, c, detail=''):
        """an obligation: c has to hold on this path. Assumes it afterwards; returns False if the path ends."""
        if self.prop and name[:1] == 'C' and name[1:3].isdigit() and name[3:4] == ' ' and name[:3] != self.prop:
            return True         # another property's: neither checked nor assumed
        if self.suppress == 0:
            if c is True:
                self.obls.append(Obligation(name, self.where(), 'simplified', '', 0))
            else:
                t0 = time.time()
                self.last_model = None
                r = z3.unsat if False else (self.check(st, (bnot(c),), strong=True) if c is not False
                                            else self.check(st, (), strong=True))
                ms = int(1000 * (time.time() - t0))
                if r == z3.unsat:
                    self.obls.append(Obligation(name, self.where(), 'proved', '', ms))
                    if self.dump and len(self.smt) < 4000:
                        self.smt.append(self.to_smt(st, c))
                elif r == z3.sat:
                    d = detail
                    if self.last_model is not None:
                        d += ' | counterexample: ' + self.model_str(self.last_model)
                    ob = Obligation(name, self.where(), 'failed', d, ms)
                    if self.last_model is not None:
                        ob.nds = self.nd_values(st, self.last_model)
                    self.obls.append(ob)
                else:
                    self.obls.append(Obligation(name, self.where(), 'unknown', detail, ms))
        if c is False:
            st.dead = True
            return False
        if c is not True:
            st.pc.append(keep(c))
        return True

    def nd_values(self, st, m):
        """the values of the arbitrary choices along the path in a counterexample, in order"""
        r = []
        for v in st.nds:
            e = bz(v) if (isinstance(v, bool) or z3.is_bool(v)) else expr(v)
            e = m.eval(e, model_completion=True) if z3.is_expr(e) else e
            if isinstance(e, int):
                r.append(e)
            elif z3.is_true(e) or z3.is_false(e):
                r.append(int(z3.is_true(e)))
            elif z3.is_int_value(e):
                r.append(e.as_long())
            else:
                break
        return r

    def to_smt(self, st, c):
        s = z3.Solver()
        al = list(st.pc) + [bnot(c)]
        al = [bz(a) for a in al]
        s.add(*al)
        s.add(*self.ranges(al))
        t = s.to_smt2()
        return '(set-logic ALL)\n' + t

    def model_str(self, m):
        l = []
        for d in sorted(m.decls(), key=lambda d: d.name()):
            if d.arity() == 0:
                l.append('%s=%s' % (d.name(), m[d]))
        return ', '.join(l[:60])

    # ---------------------------------------------------------------- integers
    def num(self, v):
        """-> int | Lin"""
        if isinstance(v, (int, Lin)) and not isinstance(v, bool):
            return v
        if isinstance(v, B2I):
            if isinstance(v.b, bool):
                return int(v.b)
            e = keep(z3.If(v.b, z3.IntVal(1), z3.IntVal(0)))
            RNG[e.get_id()] = (0, 1)
            return Lin(0, ((1, e),))
        if isinstance(v, bool):
            return int(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return self.num(B2I(v))
        if v is UNDEF:
            raise UseUndef()
        if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
            return v.off
        raise Unsupported('number expected, got %r' % (v,))

    def wrap(self, st, v, bits):
        if isinstance(v, int):
            v &= (1 << bits) - 1
            return v - (1 << bits) if v >> (bits - 1) else v
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        a, b = interval(v)
        if a is not None and a >= lo and b <= hi:
            return v
        if self.prove(st, band(cmp('ge', v, lo), cmp('le', v, hi))):
            return v
        m = 1 << bits
        e = keep(((expr(v) + (1 << (bits - 1))) % m) - (1 << (bits - 1)))
        RNG[e.get_id()] = (lo, hi)
        return Lin(0, ((1, e),))

    def u(self, st, v, bits):
        """unsigned reading of a canonical signed value"""
        if isinstance(v, int):
            return v & ((1 << bits) - 1)
        lo, hi = interval(v)
        if lo is not None and lo >= 0:
            return v
        if self.prove(st, cmp('ge', v, 0)):
            return v
        if self.prove(st, cmp('lt', v, 0)):
            return add(v, 1 << bits)
        e = keep(z3.If(expr(v) < 0, expr(v) + (1 << bits), expr(v)))
        RNG[e.get_id()] = (0, (1 << bits) - 1)
        return Lin(0, ((1, e),))

    def intbin(self, st, o, x, y, bits, fl):
        """-> list of (st, value)"""
        if bits == 1:
            bx, by = self.boolv(x), self.boolv(y)
            if o == 'and':
                return [(st, band(bx, by))]
            if o == 'or':
                return [(st, bor(bx, by))]
            if o in ('xor', 'add', 'sub'):
                if by is True:
                    return [(st, bnot(bx))]
                if by is False:
                    return [(st, bx)]
                if isinstance(bx, bool):
                    return [(st, bnot(by) if bx else by)]
                return [(st, keep(z3.Xor(bx, by)))]
            raise Unsupported('i1 ' + o)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return [(st, self.ptrint(st, o, x, y))]
        if isinstance(x, B2I) and isinstance(y, int) and o == 'xor' and y == 1:
            return [(st, B2I(bnot(x.b)))]
        if isinstance(x, B2I) and isinstance(y, B2I) and o in ('and', 'or'):
            return [(st, B2I(band(x.b, y.b) if o == 'and' else bor(x.b, y.b)))]
        if isinstance(y, B2I) and isinstance(x, int) and o in ('and', 'or', 'xor'):
            x, y = y, x
        if isinstance(x, B2I) and o == 'and' and isinstance(y, int):
            return [(st, x if y & 1 else 0)]
        if isinstance(x, B2I) and o in ('or', 'xor') and isinstance(y, int) and not isinstance(y, bool):
            if y == 0:
                return [(st, x)]
            if y == 1:
                return [(st, 1 if o == 'or' else B2I(bnot(x.b)))]
        if o == 'and' and isinstance(x, FnPtr) and y == 1:
            return [(st, 0)]            # functions are aligned (pointers to members carry a flag here)
        x, y = self.num(x), self.num(y)
        if o in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[o](x, y)
            if isinstance(r, Lin) and o == 'mul' and len(r.t) == 1:
                self.product_range(r)
            if 'nsw' in fl and self.in_spec():
                return [(st, r)]            # ghost arithmetic is mathematical
            if 'nsw' in fl:
                lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
                if isinstance(r, int):
                    if not lo <= r <= hi:
                        if not self.oblige(st, 'no signed overflow', False, '%s %s %s' % (x, o, y)):
                            return []
                else:
                    a, b = interval(r)
                    if a is None or a < lo or b > hi:
                        if not self.oblige(st, 'no signed overflow', band(cmp('ge', r, lo), cmp('le', r, hi)), '%s %s %s' % (x, o, y)):
                            return []
                return [(st, r)]
            return [(st, self.wrap(st, r, bits))]
        if o in ('sdiv', 'srem', 'udiv', 'urem'):
            return self.division(st, o, x, y, bits)
        if o in ('shl', 'lshr', 'ashr'):
            a, b = interval(y) if not isinstance(y, int) else (y, y)
            if a is None or b is None or a < 0 or b >= bits:
                if not self.oblige(st, 'no shift by the width of the type or more', band(cmp('ge', y, 0), cmp('lt', y, bits))):
                    return []
        if o == 'shl':
            if isinstance(y, int):
                return [(st, self.wrap(st, scale(x, 1 << y), bits))]
            if isinstance(x, int) and x == 1:
                # a table of the powers of two
                a, b = interval(y)
                a, b = max(0, a or 0), min(bits - 1, bits - 1 if b is None else b)
                e, ye = z3.IntVal(1 << b), expr(y)
                for k in range(b - 1, a - 1, -1):
                    e = z3.If(ye == k, z3.IntVal(1 << k), e)
                keep(e)
                RNG[e.get_id()] = (1 << a, 1 << b)
                return [(st, self.wrap(st, Lin(0, ((1, e),)), bits))]
            return [(s, self.wrap(s, scale(x, 1 << k), bits)) for s, k in self.concretize(st, y, bits + 1)]
        if o in ('lshr', 'ashr'):
            if not isinstance(y, int):
                out = []
                for s, k in self.concretize(st, y, bits + 1):
                    out += self.intbin(s, o, x, k, bits, fl)
                return out
            if isinstance(x, int):
                v = x >> y if o == 'ashr' else (x & ((1 << bits) - 1)) >> y
                return [(st, self.wrap(st, v, bits))]
            v = x if o == 'ashr' else self.u(st, x, bits)
            return [(st, self.fdiv(v, 1 << y))]
        if isinstance(x, int) and isinstance(y, int):
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[o]
            return [(st, self.wrap(st, r, bits))]
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            if o == 'xor' and y == -1:
                return [(st, sub(-1, x))]
            if o == 'and':
                return [(st, self.mask(st, x, y, bits))]
            if o == 'or':
                if y == 0:
                    return [(st, x)]
                # x | c = x + c - (x & c)
                return [(st, self.wrap(st, sub(add(x, y), self.mask(st, x, y, bits)), bits))]
            if o == 'xor':
                return [(st, self.wrap(st, sub(add(x, y), scale(self.mask(st, x, y, bits), 2)), bits))]
        bx = z3.Int2BV(expr(x), bits)
        by = z3.Int2BV(expr(y), bits)
        b = {'and': bx & by, 'or': bx | by, 'xor': bx ^ by}[o]
        e = keep(z3.BV2Int(b, True))
        RNG[e.get_id()] = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        return [(st, Lin(0, ((1, e),)))]

    def product_range(self, r):
        k, a = r.t[0]
        if a.get_id() in RNG:
            return
        ch = a.children()
        if len(ch) == 2 and ch[0].get_id() in RNG and ch[1].get_id() in RNG:
            p, q = RNG[ch[0].get_id()], RNG[ch[1].get_id()]
            c = [i * j for i in p for j in q]
            RNG[a.get_id()] = (min(c), max(c))

    def fdiv(self, v, d):
        """floor division by a positive constant"""
        if isinstance(v, int):
            return v // d
        if d == 1:
            return v
        if v.c % d == 0 and all(k % d == 0 for k, _ in v.t):
            return Lin(v.c // d, tuple((k // d, a) for k, a in v.t))
        lo, hi = interval(v)
        if lo is not None and hi is not None and lo // d == hi // d:
            return lo // d
        e = keep(expr(v) / z3.IntVal(d))
        if lo is not None:
            RNG[e.get_id()] = (lo // d, hi // d)
        return Lin(0, ((1, e),))

    def fmod(self, v, d):
        if isinstance(v, int):
            return v % d
        if v.c % d == 0 and all(k % d == 0 for k, _ in v.t):
            return 0
        lo, hi = interval(v)
        if lo is not None and hi is not None and lo // d == hi // d:
            return sub(v, d * (lo // d))
        e = keep(expr(v) % z3.IntVal(d))
        RNG[e.get_id()] = (0, d - 1)
        return Lin(0, ((1, e),))

    def mask(self, st, x, m, bits):
        """x & m for a constant m"""
        m &= (1 << bits) - 1
        if m == 0:
            return 0
        # bit k of a signed number is floor(x / 2^k) mod 2, also when it is negative
        top = 1 << (bits - 1)
        if m == 2 * top - 1:
            return x
        if m & (m + 1) == 0:            # low bits
            return self.fmod(x, m + 1)
        nm = ~m & (2 * top - 1)
        if nm & (nm + 1) == 0:          # everything but low bits
            return sub(x, self.fmod(x, nm + 1))
        r = 0
        i = 0
        if m & top:
            r = scale(self.fdiv(x, top), top)
            m -= top
        while i < bits:
            if m >> i & 1:
                j = i
                while m >> j & 1:
                    j += 1
                r = add(r, scale(self.fmod(self.fdiv(x, 1 << i), 1 << (j - i)), 1 << i))
                i = j
            else:
                i += 1
        return r

    def division(self, st, o, x, y, bits):
        if not self.oblige(st, 'no division by zero', cmp('ne', y, 0)):
            return []
        if o in ('udiv', 'urem'):
            x, y = self.u(st, x, bits), self.u(st, y, bits)
            return [(st, self.wrap(st, self.posdiv(st, x, y)[0 if o == 'udiv' else 1], bits))]
        if isinstance(x, int) and isinstance(y, int):
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return [(st, q if o == 'sdiv' else x - q * y)]
        if isinstance(x, Lin) and isinstance(y, int) and x.c % y == 0 and all(k % y == 0 for k, _ in x.t):
            return [(st, Lin(x.c // y, tuple((k // y, a) for k, a in x.t)) if o == 'sdiv' else 0)]
        out = []
        for sx, s in self.branch(st, cmp('ge', x, 0)):
            for sy, s2 in self.branch(s, cmp('gt', y, 0)):
                q, r = self.posdiv(s2, x if sx else scale(x, -1), y if sy else scale(y, -1))
                if o == 'sdiv':
                    out.append((s2, q if sx == sy else scale(q, -1)))
                else:
                    out.append((s2, r if sx else scale(r, -1)))
        return out

    def posdiv(self, st, x, y):
        """quotient and remainder of x >= 0 by y > 0"""
        if isinstance(y, int):
            return self.fdiv(x, y), (self.fmod(x, y) if not isinstance(x, int) else x % y)
        key = (x if isinstance(x, int) else x.key, y.key)
        qr = self.divcache.get(key)
        if qr is None:
            hi = interval(x)[1]
            qr = self.divcache[key] = (self.fresh('q', 64, 0, hi), self.fresh('r', 64, 0, hi))
        q, r = qr
        for c in (cmp('eq', add(mul(q, y), r), x), cmp('lt', r, y), cmp('ge', q, 0), cmp('ge', r, 0), cmp('le', q, x), cmp('le', r, x),
                  bor(cmp('lt', x, y), cmp('ge', q, 1)), bor(cmp('ge', x, y), band(cmp('eq', q, 0), cmp('eq', r, x)))):
            self.assume(st, c)
        return q, r

    def concretize(self, st, v, limit=16):
        """fork on every feasible concrete value of v"""
        if isinstance(v, int):
            return [(st, v)]
        out = []
        cur = st
        e = expr(v)
        while True:
            self.sync(cur.pc)
            self.inc.push()
            for q in self.ranges([e]):
                self.inc.add(q)
            r = self.inc.check()
            val = None
            if r == z3.sat:
                val = self.inc.model().eval(e, model_completion=True).as_long()
            self.inc.pop()
            self.checks += 1
            if r == z3.unsat:
                return out
            if r == z3.unknown or len(out) >= limit:
                raise Unsupported('cannot enumerate the values of %s' % e)
            nxt = cur.fork()
            nxt.pc.append(keep(e != val))
            cur.pc.append(keep(e == val))
            out.append((cur, val))
            cur = nxt

    def ptrint(self, st, o, x, y):
        if o == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj == y.obj:
                return sub(x.off, y.off)
            raise Unsupported('difference of unrelated pointers')
        if o == 'and' and isinstance(y, int) and 0 <= y < 16 and isinstance(x, Ptr):
            if isinstance(x.off, int):
                return x.off & y
        if o == 'add' and isinstance(x, Ptr) and not isinstance(y, Ptr):
            return Ptr(x.obj, add(x.off, self.num(y)))
        if o == 'sub' and isinstance(x, Ptr):
            return Ptr(x.obj, sub(x.off, self.num(y)))
        raise Unsupported('pointer arithmetic ' + o)

    def boolv(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, B2I):
            return v.b
        if z3.is_expr(v):
            return v
        if v is UNDEF:
            raise UseUndef()
        if isinstance(v, int):
            return v != 0
        raise Unsupported('bool expected, got %r' % (v,))

    def icmp(self, st, pred, x, y, bits):
        if bits == 1:
            bx, by = self.boolv(x), self.boolv(y)
            eq = (bx == by) if isinstance(bx, bool) and isinstance(by, bool) else \
                (by if bx is True else bnot(by) if bx is False else bx if by is True else bnot(bx) if by is False else keep(bx == by))
            if pred == 'eq':
                return eq
            if pred == 'ne':
                return bnot(eq)
            raise Unsupported('i1 icmp')
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            return self.ptrcmp(st, pred, x, y)
        for p, q in ((x, y), (y, x)):
            if isinstance(p, B2I) and isinstance(q, int) and pred in ('eq', 'ne'):
                if q in (0, 1):
                    r = p.b if q == 1 else bnot(p.b)
                    return r if pred == 'eq' else bnot(r)
                return pred == 'ne'
        if isinstance(x, B2I) and isinstance(y, B2I) and pred in ('eq', 'ne'):
            return self.icmp(st, pred, x.b, y.b, 1)
        x, y = self.num(x), self.num(y)
        if pred not in ('eq', 'ne'):
            if pred[0] == 'u':
                x, y = self.u(st, x, bits), self.u(st, y, bits)
            pred = pred[1:]
        if self.loopmon and not (isinstance(x, int) and isinstance(y, int)):
            self.cmp_log.append((x, y))
        return cmp(pred, x, y)

    def ptrcmp(self, st, pred, x, y):
        def nl(v):
            if isinstance(v, int) and v == 0:
                return NULL
            if v is UNDEF:
                raise UseUndef()
            return v
        x, y = nl(x), nl(y)
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            e = x == y
            return e if pred == 'eq' else not e
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            if isinstance(x, (int, Lin)) or isinstance(y, (int, Lin)):
                p, q = (x, y) if isinstance(x, Ptr) else (y, x)
                if p.obj is None:
                    return cmp(pred, p.off, q)
                return pred == 'ne'
            raise Unsupported('ptrcmp')
        if x.obj == y.obj:
            if pred in ('eq', 'ne'):
                if self.loopmon:
                    self.cmp_log.append((x.off, y.off))
                return cmp(pred, x.off, y.off)
            if self.loopmon:
                self.cmp_log.append((x.off, y.off))
            return cmp(pred[1:], x.off, y.off)
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        if pred in ('ult', 'ule', 'ugt', 'uge'):
            # std::less on unrelated pointers (aliasing checks): order of distinct objects is arbitrary but fixed
            if x.obj is None or y.obj is None:
                return {'u': {'lt': x.obj is None, 'le': x.obj is None, 'gt': y.obj is None, 'ge': y.obj is None}}['u'][pred[1:]]
            raise Unsupported('order of unrelated pointers')
        raise Unsupported('ptrcmp ' + pred)

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, name, size):
        self.n += 1
        o = Obj(self.n, name, size)
        st.mem[o.id] = o
        st.own.add(o.id)
        return o

    def gobj(self, st, name):
        oid = '@' + name
        if oid in st.mem:
            return oid
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported('global ' + name)
        g = self.mod.gparse(g)
        if isinstance(g.ty, tuple):
            raise Unsupported('alias ' + name)
        o = Obj(oid, name, self.mod.size(g.ty))
        if g.init is None:
            o.havoc = ((0, o.size, 0),)
            if self.mod.resolve(g.ty).k == 'ptr':
                q = self.new_obj(st, 'extern ' + name, 0)
                o.cells[0] = (8, Ptr(q.id, 0))
        else:
            self.ginit(o, 0, g.ty, g.init)
        o.tag = 'const' if g.const else 'global'
        st.mem[oid] = o
        st.own.add(oid)
        self.share_global(st, oid)
        return oid

    def share_global(self, st, oid):
        g = st.x.get('globals')
        o = st.mem[oid]
        if g and o.tag == 'global' and o.size == g[0] and self.mod.dem.get(o.name, o.name).startswith('oqpi::'):
            st.shared[(oid, 0)] = (g[0], g[1], g[2], True)

    def ginit(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if v[0] in ('zero', 'null') or (v[0] == 'int' and v[1] == 0 and False):
            o.zeros = o.zeros + ((off, off + self.mod.size(ty)),)
            return
        if v[0] == 'undef':
            return
        if v[0] == 'agg':
            if ty.k == 'arr':
                s = self.mod.size(ty.b)
                for i, (t, x) in enumerate(v[1]):
                    self.ginit(o, off + i * s, t, x)
            else:
                for i, (t, x) in enumerate(v[1]):
                    fo, _ = self.mod.field_off(ty, i)
                    self.ginit(o, off + fo, t, x)
            return
        if v[0] == 'cstr':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b - 256 if b > 127 else b)
            return
        o.cells[off] = (self.mod.size(ty), self.const(None, v, ty))

    def const(self, st, v, ty):
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'bool':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'float':
            return v[1]
        if k == 'zero':
            ty = self.mod.resolve(ty)
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'int':
                return False if ty.a == 1 else 0
            if ty.k == 'fp':
                return 0.0
            if ty.k == 'struct':
                return tuple(self.const(st, ('zero',), t) for t in ty.b)
            if ty.k == 'arr':
                return tuple(self.const(st, ('zero',), ty.b) for _ in range(ty.a))
        if k == 'global':
            n = v[1]
            if n in self.mod.funcs or n in self.mod.declared:
                return FnPtr(n)
            g = self.mod.globals.get(n)
            if g is not None and ' alias ' in ' ' + g.raw:
                g = self.mod.gparse(g)
                return self.const(st, g.ty[1], PTR)
            return Ptr('@' + n, 0)
        if k == 'cgep':
            base = self.const(st, v[2], PTR)
            off = base.off
            ty = v[1]
            for i, ix in enumerate(v[3]):
                n = ix[1] if ix[0] == 'int' else self.const(st, ix, I64)
                if i == 0:
                    off += n * self.mod.size(ty)
                else:
                    r = self.mod.resolve(ty)
                    if r.k == 'struct':
                        fo, ty = self.mod.field_off(r, n)
                        off += fo
                    else:
                        ty = r.b
                        off += n * self.mod.size(ty)
            return Ptr(base.obj, off)
        if k == 'ccast':
            return self.const(st, v[3], v[2])
        if k == 'cbin':
            a, b = self.const(st, v[3], v[2]), self.const(st, v[4], v[2])
            if v[1] == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return a.off - b.off
            if v[1] == 'add' and isinstance(a, int) and isinstance(b, int):
                return a + b
        if k == 'agg':
            return tuple(self.const(st, x, t) for t, x in v[1])
        raise Unsupported('constant %r' % (v,))

    def getobj(self, st, oid):
        if oid not in st.mem:
            if isinstance(oid, str) and oid[0] == '@':
                self.gobj(st, oid[1:])
            else:
                return None
        return st.mem[oid]

    def resolve(self, st, p, size):
        """-> list of (st, obj id, concrete offset)"""
        if isinstance(p, (int, Lin)) and not isinstance(p, bool):
            p = Ptr(None, p)
        if p is UNDEF:
            self.oblige(st, 'no use of an uninitialised pointer', False)
            return []
        if isinstance(p, FnPtr):
            raise Unsupported('access to code')
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        if p.obj is None:
            self.oblige(st, 'no null pointer access', False)
            return []
        o = self.getobj(st, p.obj)
        if o is None or not o.alive:
            self.oblige(st, 'no access to released memory', False, o.name if o else 'stack object')
            return []
        if o.arr is not None:
            return self.resolve_arr(st, o, p, size)
        off = p.off
        if type(o.tag) is tuple and o.tag[0] == 'chars':
            return [(st, p.obj, off)]
        if not isinstance(off, int):
            out = []
            for s, v in self.concretize(st, off, 24):
                out += self.resolve(s, Ptr(p.obj, v), size)
            return out
        if o.size is not None and (off < 0 or off + size > o.size):
            self.oblige(st, 'no access out of bounds', False, '%s + %d' % (o.name, off))
            return []
        return [(st, p.obj, off)]

    def resolve_arr(self, st, o, p, size):
        a = o.arr
        off = p.off
        if isinstance(off, int):
            idx, inner = divmod(off, a.stride)
        else:
            if any(k % a.stride for k, _ in off.t):
                raise Unsupported('irregular array offset')
            idx = Lin(off.c // a.stride, tuple((k // a.stride, t) for k, t in off.t))
            inner = off.c % a.stride
        # bounds
        if a.owner is not None and self.spec_depth == 0:
            lo, hi = self.arr_bounds(st, a)
            if not self.oblige(st, 'element access within the container', band(cmp('ge', p.off, lo), cmp('lt', p.off, hi))):
                return []
        out = []
        states = [st]
        for wi, w in enumerate(a.wit):
            nxt = []
            if self.loopmon and not isinstance(idx, int):
                self.cmp_log.append((idx, w))
            for s in states:
                for t, s2 in self.branch(s, cmp('eq', idx, w)):
                    if t:
                        slot = s2.mem[o.id].arr.slots['K%d' % wi]
                        out.append((s2, slot[1], inner))
                    else:
                        nxt.append(s2)
            states = nxt
        for s in states:
            key = idx if isinstance(idx, int) else idx.key
            slots = s.mem[o.id].arr.slots
            if key not in slots:
                self.elements.add(o.id)
                # a written generic slot might be the same element
                hit = None
                for k2, (i2, oid2) in list(slots.items()):
                    if isinstance(k2, str):
                        continue
                    if self.prove(s, cmp('eq', idx, i2)):
                        hit = oid2
                if hit is not None:
                    out.append((s, hit, inner))
                    continue
                sub_ = self.new_obj(s, o.name + '[*]', a.stride)
                ob = s.w(o.id)
                ob.arr = ob.arr.copy()
                ob.arr.slots[key] = (idx, sub_.id)
                for s2, _ in self.spec_call(s, a.init, [Ptr(sub_.id, 0), idx, 0]):
                    out.append((s2, sub_.id, inner))
            else:
                out.append((s, slots[key][1], inner))
        return out

    def arr_bounds(self, st, a):
        o = st.mem[a.owner.obj]
        b = a.owner.off
        if a.okind == 'vec':
            return o.cells[b][1].off, o.cells[b + 16][1].off
        if a.okind == 'deq':
            return o.cells[b + 16][1].off, add(o.cells[b + 48][1].off, a.stride)
        lo, hi = a.okind
        return lo, hi

    def spec_call(self, st, fn, args):
        name = fn.name if isinstance(fn, FnPtr) else fn
        self.spec_depth += 1
        self.suppress += 1
        try:
            return self.call(st, name, args)
        finally:
            self.spec_depth -= 1
            self.suppress -= 1

    def read(self, st, p, ty, order=None):
        """-> list of (st, value)"""
        if ty.k in ('struct', 'arr', 'named'):
            rt = self.mod.resolve(ty)
            if rt.k == 'struct':
                outs = [(st, ())]
                for i in range(len(rt.b)):
                    fo, ft = self.mod.field_off(rt, i)
                    nx = []
                    for s, acc in outs:
                        for s2, v in self.read(s, Ptr(p.obj, add(p.off, fo)), ft):
                            nx.append((s2, acc + (v,)))
                    outs = nx
                return outs
            ty = rt
        size = self.mod.size(ty)
        res = []
        for s, oid, off in self.resolve(st, p, size):
            if s.shared or s.protect:
                for s2 in self.shared_access(s, oid, off, size, False, order):
                    res += self.read_at(s2, oid, off, size, ty)
            else:
                res += self.read_at(s, oid, off, size, ty)
        return res

    def read_at(self, s, oid, off, size, ty):
        o = s.mem[oid]
        if type(o.tag) is tuple and o.tag[0] == 'chars':
            return [(s, self.charat(s, o.tag[1], off))]
        for lo, (lsz, fn, arg) in o.lazy.items():
            if lo < off + size and off < lo + lsz:
                ob = s.w(oid)
                ob.lazy = {k: v for k, v in ob.lazy.items() if k != lo}
                outs = []
                for s2, _ in self.spec_call(s, fn, [Ptr(oid, lo)]):
                    outs += self.read_at(s2, oid, off, size, ty)
                return outs
        return [(s, self.conv(self.read_raw(s, oid, off, size, ty), ty))]

    def charat(self, s, sv, i):
        if isinstance(sv.e, str) and isinstance(i, int):
            return ord(sv.e[i]) if i < len(sv.e) else 0
        z = sv.z()
        e = keep(z3.If(expr(i) < z3.Length(z), z3.StrToCode(z3.SubString(z, expr(i), z3.IntVal(1))), z3.IntVal(0)))
        RNG[e.get_id()] = (0, 127)
        return Lin(0, ((1, e),))

    def conv(self, v, ty):
        if ty.k == 'ptr':
            if isinstance(v, int) and not isinstance(v, bool) and v == 0:
                return NULL
            return v
        if ty.k == 'int' and ty.a == 1 and not isinstance(v, bool):
            return v if v is UNDEF else self.boolv(v)
        if ty.k == 'fp' and isinstance(v, int) and v == 0:
            return 0.0
        return v

    def read_raw(self, s, oid, off, size, ty):
        o = s.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        over = [(k, z, v) for k, (z, v) in o.cells.items() if k < off + size and off < k + z]
        if not over:
            for lo, hi in reversed(o.zeros):
                if lo <= off and off + size <= hi:
                    return NULL if ty.k == 'ptr' else 0.0 if ty.k == 'fp' else 0
            for h in reversed(o.havoc):
                if h[0] <= off and off + size <= h[1]:
                    if ty.k == 'ptr':
                        raise Unsupported('unconstrained pointer in %s+%d' % (o.name, off))
                    v = self.havocsym(o, off, size, h)
                    s.w(oid).cells[off] = (size, v)
                    return v
            return UNDEF
        if len(over) == 1 and over[0][0] <= off and over[0][0] + over[0][1] >= off + size:
            k, z, v = over[0]
            if v is UNDEF:
                return UNDEF
            if isinstance(v, (Ptr, FnPtr, Str, float)):
                raise Unsupported('partial read of %r' % (v,))
            v = self.num(v)
            uv = self.u(s, v, 8 * z)
            return self.wrap(s, self.fmod(self.fdiv(uv, 1 << (8 * (off - k))), 1 << (8 * size)), 8 * size)
        r = 0
        i = off
        while i < off + size:
            c = o.cells.get(i)
            if c is None:
                if any(lo <= i and i < hi for lo, hi in o.zeros):
                    i += 1
                    continue
                if any(h[0] <= i and i < h[1] for h in o.havoc):
                    v = self.read_raw(s, oid, i, 1, I8)
                    z = 1
                else:
                    return UNDEF
            else:
                z, v = c
            if i + z > off + size:
                raise Unsupported('overlapping read')
            if v is UNDEF:
                return UNDEF
            r = add(r, scale(self.u(s, self.num(v), 8 * z), 1 << (8 * (i - off))))
            i += z
        return self.wrap(s, r, 8 * size)

    def havocsym(self, o, off, size, h):
        key = (o.id, off, size, h[2])
        v = self.havoccache.get(key)
        if v is None:
            v = self.havoccache[key] = self.fresh('%s+%d' % (o.name[-20:], off), 8 * size)
        return v

    def dead_local(self, loop, oid):
        return False

    def write(self, st, p, ty, v, order=None):
        """-> list of st"""
        if ty.k in ('struct', 'named', 'arr'):
            rt = self.mod.resolve(ty)
            if rt.k == 'struct':
                outs = [st]
                if v is UNDEF:
                    v = (UNDEF,) * len(rt.b)
                for i in range(len(rt.b)):
                    fo, ft = self.mod.field_off(rt, i)
                    nx = []
                    for s in outs:
                        nx += self.write(s, Ptr(p.obj, add(p.off, fo)), ft, v[i])
                    outs = nx
                return outs
            ty = rt
        size = self.mod.size(ty)
        out = []
        for s, oid, off in self.resolve(st, p, size):
            if s.shared or s.protect:
                out += self.shared_write(s, oid, off, size, ty, v, order)
            else:
                self.write_at(s, oid, off, size, v)
                out.append(s)
        return out

    def write_at(self, s, oid, off, size, v):
        o = s.w(oid)
        if o.tag == 'const':
            self.oblige(s, 'no write to a constant', False, o.name)
            return
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            dele = []
            for k, (z, x) in cells.items():
                if k < off + size and off < k + z:
                    dele.append(k)
            for k in dele:
                z, x = cells[k]
                if k < off or k + z > off + size:
                    # keep the bytes outside of the written range
                    if not isinstance(x, (int, Lin, B2I)):
                        if x is UNDEF:
                            del cells[k]
                            continue
                        raise Unsupported('partial overwrite of %r' % (x,))
                    ux = self.u(s, self.num(x), 8 * z)
                    del cells[k]
                    for b in range(k, k + z):
                        if b < off or b >= off + size:
                            cells[b] = (1, self.wrap(s, self.fmod(self.fdiv(ux, 1 << (8 * (b - k))), 256), 8))
                else:
                    del cells[k]
            if o.lazy:
                o.lazy = {k: x for k, x in o.lazy.items() if not (k < off + size and off < k + x[0])}
        cells[off] = (size, v)

    # shared (atomic) cells: environment steps and guarantees
    def shared_access(self, s, oid, off, size, wr, order):
        if self.spec_depth or self.in_spec():
            return [s]
        for (o2, f2), (sz, rely, guar, live) in s.shared.items():
            if o2 == oid and f2 < off + size and off < f2 + sz:
                if order is None:
                    # plain access to a cell other threads access concurrently
                    if not self.oblige(s, 'shared state is only accessed atomically', False, '%s+%d' % (s.mem[oid].name, off)):
                        return []
                if rely is None:
                    return [s]
                return [x for x, _ in self.spec_call(s, rely, [Ptr(oid, f2), ORD[order]])]
        for (o2, lo, hi, lock) in s.protect:
            if o2 == oid and lo < off + size and off < hi:
                for s2, v in self.read(s, lock, I32, 'seq_cst'):
                    if not self.oblige(s2, 'protected state is only accessed with its lock held', cmp('eq', self.num(v), 1)):
                        return []
                return [s]
        return [s]

    def shared_write(self, s, oid, off, size, ty, v, order):
        if not (self.spec_depth or self.in_spec()):
            for (o2, f2), (sz, rely, guar, live) in list(s.shared.items()):
                if o2 == oid and f2 < off + size and off < f2 + sz:
                    out = []
                    for s2 in self.shared_access(s, oid, off, size, True, order):
                        for s3, old in self.read_at(s2, oid, off, size, ty):
                            self.write_at(s3, oid, off, size, v)
                            out += self.guarantee(s3, guar, oid, f2, old, v, order)
                    return out
            out = []
            for s2 in self.shared_access(s, oid, off, size, True, order):
                self.write_at(s2, oid, off, size, v)
                out.append(s2)
            return out
        self.write_at(s, oid, off, size, v)
        return [s]

    def guarantee(self, s, guar, oid, off, old, new, order):
        if guar is None:
            return [s]
        self.spec_depth += 1
        try:
            return [x for x, _ in self.call(s, guar.name, [Ptr(oid, off), self.as_long(old), self.as_long(new), ORD[order]])]
        finally:
            self.spec_depth -= 1

    def as_long(self, v):
        if isinstance(v, Ptr):
            return 0 if v.obj is None else v
        if v is UNDEF:
            return 0
        return self.num(v)

    def in_spec(self):
        return bool(self.stack) and self.stack_spec[-1]

    # ---------------------------------------------------------------- calls
    def is_spec_fn(self, name):
        if name.startswith('H_') or name.startswith('vf_'):
            return True
        b = self.mod.base.get(name, name)
        return not b.startswith(('oqpi::', 'std::', '__gnu_cxx::', 'concurrent_queue::'))

    def call(self, st, name, args, depth_name=None):
        """-> list of (st, ret)"""
        m = self.mod
        base = m.base.get(name, name)
        h = self.contracts.get(name) or self.contracts.get(base)
        if h is None:
            for p, g in self.prefix:
                if base.startswith(p):
                    h = g
                    break
        if h is not None:
            self.called[base] = self.called.get(base, 0) + 1
            r = h(self, st, args, name)
            if r is not NotImplemented:
                return r
        f = m.funcs.get(name)
        if base in self.replaced:
            g = m.funcs[self.replaced[base]]
            if f is not None and [repr(a[0]) for a in f.params] == [repr(a[0]) for a in g.params] and repr(f.ret) == repr(g.ret):
                self.used_contracts[base] = m.base.get(g.name, g.name)
                name, f, base = g.name, g, m.base.get(g.name, g.name)
        if f is None:
            raise Unsupported('external function without contract: %s' % m.dem.get(name, name))
        if len(self.stack) > 120:
            raise Unsupported('recursion')
        if self.stack_names.count(name) > 3:
            raise Unsupported('recursion: ' + base)
        m.body(f)
        regs = {}
        if len(args) < len(f.params):
            raise Unsupported('arity ' + base)
        for (ty, rn), a in zip(f.params, args):
            regs[rn] = a
        regs['#a'] = ()
        self.called[base] = self.called.get(base, 0) + 1
        self.stack.append(base)
        self.stack_names.append(name)
        self.stack_spec.append(self.is_spec_fn(name))
        try:
            outs = self.region([(st, regs, f.order[0], None, 0)], f, None, None)
        finally:
            self.stack.pop()
            self.stack_names.pop()
            self.stack_spec.pop()
        res = []
        for kind, s, v, rg in outs:
            assert kind == 'ret'
            for a in rg['#a']:
                s.mem.pop(a, None)
            res.append((s, v))
        return res

    stack_names = None

    def run(self, name, st=None, args=()):
        self.stack_names = []
        self.stack_spec = []
        self.stack = []
        st = st or State()
        return self.call(st, name, list(args))

    # ---------------------------------------------------------------- control flow
    def region(self, work, f, region, header):
        """executes from the given points until leaving region, returning, or reaching header again"""
        outs = []
        first = True
        while work:
            st, regs, blk, prev, ip = work.pop()
            while True:
                if ip == 0:
                    if region is not None and not (first):
                        if blk == header:
                            outs.append(('back', st, prev, regs))
                            break
                        if blk not in region:
                            outs.append(('edge', st, (prev, blk), regs))
                            break
                    if blk in f.loops and blk != header:
                        for o in self.do_loop(st, f, regs, blk, prev):
                            if o[0] == 'ret':
                                outs.append(o)
                            else:
                                work.append((o[1], o[3], o[2][1], o[2][0], 0))
                        break
                first = False
                b = f.blocks[blk]
                nxt = self.block(st, regs, f, b, prev, ip, work, outs, region)
                if nxt is None:
                    break
                st, regs, blk, prev = nxt
                ip = 0
            first = False
        return outs

    def val(self, st, regs, v, ty):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k == 'int':
            return v[1]
        return self.const(st, v, ty)

    def block(self, st, regs, f, b, prev, ip, work, outs, region):
        insts = b.insts
        n = len(insts)
        mod = self.mod
        while ip < n:
            ins = insts[ip]
            self.steps += 1
            if self.steps % 2048 == 0 and time.time() > self.t_end:
                raise Unsupported('time budget exceeded')
            op = ins.op
            a = ins.a
            try:
                if op == 'load':
                    r = self.read(st, self.val(st, regs, a['ptr'], PTR), ins.ty, a['order'])
                elif op == 'store':
                    v = self.val(st, regs, a['v'], ins.ty)
                    r = [(s, None) for s in self.write(st, self.val(st, regs, a['ptr'], PTR), ins.ty, v, a['order'])]
                elif op == 'alloca':
                    cnt = self.val(st, regs, a['cnt'], I64)
                    if not isinstance(cnt, int):
                        raise Unsupported('variable alloca')
                    o = self.new_obj(st, '%' + ins.res, cnt * mod.size(ins.ty))
                    regs['#a'] = regs['#a'] + (o.id,)
                    r = [(st, Ptr(o.id, 0))]
                elif op == 'gep':
                    r = [(st, self.gep(st, regs, ins))]
                elif op == 'br':
                    if a['c'] is None:
                        return st, regs, a['t'], b.name
                    c = self.boolv(self.val(st, regs, a['c'], I1))
                    br = self.branch(st, c)
                    if isinstance(c, bool) and region is not None and self.loopmon and self.loopmon[-1][0] == len(self.stack) \
                            and (a['t'] not in self.loopmon[-1][1] or a['f'] not in self.loopmon[-1][1]):
                        self.loopmon[-1][5] = True
                    if region is not None and self.loopmon and self.loopmon[-1][0] == len(self.stack) and len(br) == 2:
                        if (a['t'] not in self.loopmon[-1][1] or a['f'] not in self.loopmon[-1][1]):
                            if b.name == self.loopmon[-1][3] or self.loopmon[-1][2] is True:
                                self.loopmon[-1][2] = True
                            else:
                                self.loopmon[-1][2] = 'side'
                    elif region is not None and self.loopmon and len(br) == 1 and b.name == self.loopmon[-1][3] and self.loopmon[-1][0] == len(self.stack):
                        if a['t'] not in self.loopmon[-1][1] or a['f'] not in self.loopmon[-1][1]:
                            self.loopmon[-1][4] = 'const' if isinstance(c, bool) else True
                        else:
                            self.loopmon[-1][4] = False
                    for t, s in br[1:]:
                        work.append((s, dict(regs), a['t'] if t else a['f'], b.name, 0))
                    if not br:
                        return None
                    return br[0][1], regs, (a['t'] if br[0][0] else a['f']), b.name
                elif op == 'call':
                    r = self.do_call(st, regs, ins)
                elif op == 'ret':
                    v = None if a['v'] is None else self.val(st, regs, a['v'], ins.ty)
                    outs.append(('ret', st, v, regs))
                    return None
                elif op == 'icmp':
                    bits = 64 if ins.a['x'] is None else self.bits(ins.ty)
                    ty = self.opty(ins)
                    r = [(st, self.icmp(st, a['pred'], self.val(st, regs, a['x'], ty), self.val(st, regs, a['y'], ty), self.bits(ty)))]
                elif op == 'bin':
                    x, y = self.val(st, regs, a['x'], ins.ty), self.val(st, regs, a['y'], ins.ty)
                    if a['o'][0] == 'f':
                        r = [(st, self.fbin(a['o'], x, y, ins.ty))]
                    else:
                        r = self.intbin(st, a['o'], x, y, ins.ty.a, a['fl'])
                elif op == 'cast':
                    r = self.cast(st, a['kind'], self.val(st, regs, a['v'], a['fty']), a['fty'], ins.ty)
                elif op == 'phi':
                    # evaluate all phis of the block at once
                    vals = []
                    j = ip
                    while j < n and insts[j].op == 'phi':
                        for v, p in insts[j].a['inc']:
                            if p == prev:
                                vals.append((insts[j].res, self.val(st, regs, v, insts[j].ty)))
                        j += 1
                    for k, v in vals:
                        regs[k] = v
                    ip = j
                    continue
                elif op == 'select':
                    c = self.boolv(self.val(st, regs, a['c'], I1))
                    x, y = self.val(st, regs, a['x'], ins.ty), self.val(st, regs, a['y'], ins.ty)
                    r = self.select(st, c, x, y, ins.ty)
                elif op == 'rmw':
                    r = self.rmw(st, a['o'], self.val(st, regs, a['ptr'], PTR), self.val(st, regs, a['v'], ins.ty), ins.ty, a['order'])
                elif op == 'cmpxchg':
                    r = self.cmpxchg(st, self.val(st, regs, a['ptr'], PTR), self.val(st, regs, a['e'], ins.ty),
                                     self.val(st, regs, a['n'], ins.ty), ins.ty, a['weak'], a['order'])
                elif op == 'switch':
                    v = self.num(self.val(st, regs, a['v'], ins.ty))
                    cur = st
                    tg = []
                    for c, t in a['cases']:
                        nx = None
                        for tr, s in self.branch(cur, cmp('eq', v, c[1])):
                            if tr:
                                tg.append((s, t))
                            else:
                                nx = s
                        cur = nx
                        if cur is None:
                            break
                    if cur is not None:
                        tg.append((cur, a['d']))
                    if not tg:
                        return None
                    for s, t in tg[1:]:
                        work.append((s, dict(regs), t, b.name, 0))
                    return tg[0][0], regs, tg[0][1], b.name
                elif op == 'extractvalue':
                    v = self.val(st, regs, a['v'], ins.ty)
                    for i in a['idx']:
                        v = v[i] if v is not UNDEF else UNDEF
                    r = [(st, v)]
                elif op == 'insertvalue':
                    v = self.val(st, regs, a['v'], ins.ty)
                    r = [(st, self.insert(v, ins.ty, a['idx'], self.val(st, regs, a['e'], a['ety'])))]
                elif op == 'unreachable':
                    self.oblige(st, 'control never reaches an unreachable point', False, self.where())
                    return None
                elif op == 'fcmp':
                    ty = self.opty(ins)
                    r = [(st, self.fcmp(a['pred'], self.val(st, regs, a['x'], ty), self.val(st, regs, a['y'], ty)))]
                elif op == 'fneg':
                    r = [(st, -self.val(st, regs, a['x'], ins.ty))]
                elif op == 'freeze':
                    r = [(st, self.val(st, regs, a['v'], ins.ty))]
                elif op == 'fence':
                    r = [(st, None)]
                elif op == 'asm':
                    r = self.asm(st, ins)
                else:
                    raise Unsupported('instruction ' + ins.line.strip())
            except UseUndef:
                self.oblige(st, 'no use of an uninitialised value', False, ins.line.strip())
                return None
            r = [x for x in r if not x[0].dead]
            if not r:
                return None
            if len(r) > 1:
                for s, v in r[1:]:
                    g = dict(regs)
                    if ins.res is not None:
                        g[ins.res] = v
                    work.append((s, g, b.name, prev, ip + 1))
                # continue with the first on this path
                regs = dict(regs)
            st, v = r[0]
            if ins.res is not None:
                regs[ins.res] = v
            ip += 1
        return None

    def opty(self, ins):
        return ins.ty

    def bits(self, ty):
        return ty.a if ty.k == 'int' else 64

    def gep(self, st, regs, ins):
        base = self.val(st, regs, ins.a['base'], PTR)
        if base is UNDEF:
            raise UseUndef()
        if isinstance(base, int):
            base = Ptr(None, base)
        ty = ins.ty
        off = base.off if isinstance(base, Ptr) else None
        if off is None:
            raise Unsupported('gep on %r' % (base,))
        mod = self.mod
        for i, (it, ix) in enumerate(ins.a['idx']):
            n = ix[1] if ix[0] == 'int' else self.num(self.val(st, regs, ix, it))
            if i == 0:
                off = add(off, scale(n, mod.size(ty)))
            else:
                rt = mod.resolve(ty)
                if rt.k == 'struct':
                    fo, ty = mod.field_off(rt, n)
                    off = add(off, fo)
                else:
                    ty = rt.b
                    off = add(off, scale(n, mod.size(ty)))
        return Ptr(base.obj, off)

    def insert(self, v, ty, idx, e):
        ty = self.mod.resolve(ty)
        n = len(ty.b) if ty.k == 'struct' else ty.a
        l = list(v) if v is not UNDEF else [UNDEF] * n
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            l[idx[0]] = self.insert(l[idx[0]], ty.b[idx[0]] if ty.k == 'struct' else ty.b, idx[1:], e)
        return tuple(l)

    def cast(self, st, kind, v, fty, tty):
        if kind in ('bitcast', 'inttoptr', 'ptrtoint'):
            if kind == 'bitcast' and fty.k != tty.k:
                raise Unsupported('bitcast')
            if kind == 'inttoptr' and isinstance(v, (int, Lin)):
                return [(st, NULL if isinstance(v, int) and v == 0 else Ptr(None, v))]
            if kind == 'ptrtoint' and isinstance(v, Ptr) and v.obj is None:
                return [(st, v.off)]
            return [(st, v)]
        if v is UNDEF:
            return [(st, UNDEF)]
        if kind == 'zext':
            if fty.a == 1:
                return [(st, int(v) if isinstance(v, bool) else B2I(v) if not isinstance(v, (int,)) else v)]
            if isinstance(v, (B2I, Ptr)):
                return [(st, v)]
            return [(st, self.u(st, self.num(v), fty.a))]
        if kind == 'sext':
            if fty.a == 1:
                return [(st, scale(self.num(v), -1))]
            return [(st, v)]
        if kind == 'trunc':
            if tty.a == 1:
                if isinstance(v, B2I):
                    return [(st, v.b)]
                v = self.num(v)
                if isinstance(v, int):
                    return [(st, bool(v & 1))]
                return [(st, cmp('eq', self.fmod(v, 2), 1))]
            if isinstance(v, B2I):
                return [(st, v)]
            return [(st, self.wrap(st, self.num(v), tty.a))]
        if kind in ('fpext', 'fptrunc'):
            self.needfloat(v)
            return [(st, f32(v) if tty.a == 32 else v)]
        if kind in ('sitofp', 'uitofp'):
            v = self.num(v)
            out = []
            for s, k in self.concretize(st, v, 128):
                if kind == 'uitofp':
                    k &= (1 << fty.a) - 1
                out.append((s, f32(float(k)) if tty.a == 32 else float(k)))
            return out
        if kind in ('fptosi', 'fptoui'):
            self.needfloat(v)
            return [(st, int(v))]
        raise Unsupported(kind)

    def needfloat(self, v):
        if not isinstance(v, float):
            raise Unsupported('symbolic floating point')

    def fbin(self, o, x, y, ty):
        self.needfloat(x)
        self.needfloat(y)
        if o == 'fdiv' and y == 0:
            r = math.nan if x == 0 else math.copysign(math.inf, x)
        else:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y,
                 'frem': lambda: math.fmod(x, y)}[o]()
        return f32(r) if ty.a == 32 else r

    def fcmp(self, p, x, y):
        self.needfloat(x)
        self.needfloat(y)
        un = math.isnan(x) or math.isnan(y)
        r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}.get(p[1:])
        if r is None:
            return {'ord': not un, 'uno': un, 'true': True, 'false': False}[p]
        return (r and not un) if p[0] == 'o' else (r or un)

    def select(self, st, c, x, y, ty):
        if isinstance(c, bool):
            return [(st, x if c else y)]
        if ty.k == 'int' and ty.a == 1:
            bx, by = self.boolv(x), self.boolv(y)
            if by is False:
                return [(st, band(c, bx))]
            if bx is True:
                return [(st, bor(c, by))]
            return [(st, keep(z3.If(c, bz(bx), bz(by))))]
        if ty.k == 'int' and not isinstance(x, Ptr) and not isinstance(y, Ptr):
            x, y = self.num(x), self.num(y)
            e = keep(z3.If(c, expr(x), expr(y)))
            a, b = interval(x), interval(y)
            if a[0] is not None and b[0] is not None:
                RNG[e.get_id()] = (min(a[0], b[0]), max(a[1], b[1]))
            return [(st, Lin(0, ((1, e),)))]
        return [(s, x if t else y) for t, s in self.branch(st, c)]

    def rmw(self, st, o, p, v, ty, order):
        size = self.mod.size(ty)
        out = []
        for s, oid, off in self.resolve(st, p, size):
            for s2 in self.shared_access(s, oid, off, size, True, order):
                for s3, old in self.read_at(s2, oid, off, size, ty):
                    if old is UNDEF:
                        raise UseUndef()
                    if o == 'xchg':
                        rs = [(s3, v)]
                    elif o in ('add', 'sub', 'and', 'or', 'xor'):
                        rs = self.intbin(s3, o, old, v, ty.a, ())
                    else:
                        raise Unsupported('atomicrmw ' + o)
                    for s4, nv in rs:
                        self.write_at(s4, oid, off, size, nv)
                        for s5 in self.guar_at(s4, oid, off, size, old, nv, order):
                            out.append((s5, old))
        return out

    def guar_at(self, s, oid, off, size, old, new, order):
        if self.spec_depth or self.in_spec():
            return [s]
        for (o2, f2), (sz, rely, guar, live) in list(s.shared.items()):
            if o2 == oid and f2 < off + size and off < f2 + sz:
                return self.guarantee(s, guar, oid, f2, old, new, order)
        return [s]

    def cmpxchg(self, st, p, e, nv, ty, weak, order):
        size = self.mod.size(ty)
        out = []
        for s, oid, off in self.resolve(st, p, size):
            for s2 in self.shared_access(s, oid, off, size, True, order):
                for s3, old in self.read_at(s2, oid, off, size, ty):
                    eq = self.icmp(s3, 'eq', old, e, self.bits(ty))
                    if weak and not (self.spec_depth or self.in_spec()):
                        f = s3.fork()
                        out.append((f, (old, False)))
                    for t, s4 in self.branch(s3, eq):
                        if t:
                            self.write_at(s4, oid, off, size, nv)
                            for s5 in self.guar_at(s4, oid, off, size, old, nv, order):
                                out.append((s5, (old, True)))
                        else:
                            out.append((s4, (old, False)))
        return out

    def asm(self, st, ins):
        t = ins.a['text']
        if 'int $$3' in t or 'int $3' in t:
            self.oblige(st, 'the debugger break is never reached', False)
            return []
        raise Unsupported('inline assembly')

    def do_call(self, st, regs, ins):
        a = ins.a
        c = a['callee']
        args = [self.val(st, regs, v, ty) if v[0] != 'meta' else None for ty, v in a['args']]
        if c[0] == 'global':
            name = c[1]
            g = self.mod.globals.get(name)
            if g is not None and ' alias ' in ' ' + g.raw:
                name = self.const(st, c, PTR).name
            return self.call(st, name, args)
        fp = self.val(st, regs, c, PTR)
        if fp is UNDEF:
            raise UseUndef()
        if isinstance(fp, FnPtr):
            return self.call(st, fp.name, args)
        if isinstance(fp, Ptr) and fp.obj is None:
            self.oblige(st, 'no call through a null function pointer', False)
            return []
        raise Unsupported('indirect call through %r' % (fp,))

    # ---------------------------------------------------------------- loops
    UNROLL = 70

    def do_loop(self, st, f, regs, hdr, prev):
        """-> outcomes leaving the loop: ('ret',...) or ('edge', st, (prev, target), regs)"""
        region = f.loops[hdr]
        # 1. iterations whose exits are all decided are simply executed
        snap = len(self.obls)
        st0, regs0 = st.fork(), dict(regs)
        cov = dict(self.covers)
        outs = []
        cur = [(st, dict(regs), hdr, prev, 0)]
        ok = False
        loglen = len(self.cmp_log)
        tried = 0
        stuck = []
        for it in range(self.UNROLL):
            nxt = []
            bad = False
            solved = self.loops_solved
            side = False
            bounded = True      # one of the exits is decided by constants
            counted = True      # whether the loop goes on is decided by constants at its head
            before = st0 if it == 0 else cur[0][0].fork()
            for item in cur:
                mon = [len(self.stack), region, False, hdr, False, False]
                n0, at0 = self.n, item[0].fork()
                self.loopmon.append(mon)
                try:
                    res = self.region([item], f, region, hdr)
                finally:
                    self.loopmon.pop()
                for o in res:
                    if o[0] == 'back' and self.n == n0 and self.standing(at0, o[1]):
                        # nothing changed and nothing can change: the next iteration does the same
                        k = len(self.obls)
                        self.oblige(o[1], 'no loop goes on for ever without doing anything', False)
                        stuck += [x for x in self.obls[k:] if x.status == 'failed']
                res = [o for o in res if o[0] != 'back' or not o[1].dead]
                if (mon[2] is True or (mon[2] and not mon[4])) and not mon[5]:
                    bad = True
                    break
                bounded &= mon[5]
                side |= bool(mon[2])
                counted &= mon[4] == 'const'
                for o in res:
                    if o[0] == 'back':
                        nxt.append((o[1], o[3], hdr, o[2], 0))
                    else:
                        outs.append(o)
            tried += len(nxt)
            if bad or len(nxt) > 64 or (not counted and tried > 16):
                break
            if nxt and (side or self.loops_solved != solved) and (outs and not counted and not bounded or not self.counts(regs, before, nxt)):
                # a loop with undecided exits or around loops that needed invariants is unrolled only if it counts
                break
            cur = nxt
            if not cur:
                ok = True
                break
        if ok:
            del self.cmp_log[loglen:]
            return outs
        del self.obls[snap:]
        self.obls += stuck
        self.covers = cov
        from loops import LoopInv
        self.loops_solved += 1
        return LoopInv(self, st0, f, regs0, hdr, prev, region).solve()

    def standing(self, a, b):
        """two states at the head of a loop are the same"""
        from loops import LoopInv, NoMatch, NeedLazy
        if a.shared != b.shared or a.x != b.x:
            return False
        cmpr = LoopInv.__new__(LoopInv)
        cmpr.ex, cmpr.framelocals = self, ()
        try:
            return not cmpr.diff(a, b) and not [i for i in b.mem if i not in a.mem]
        except (NoMatch, NeedLazy, Unsupported):
            return False

    def counts(self, regs, before, nxt):
        """some local integer of this function goes from one constant to another in every iteration"""
        for oid in regs['#a']:
            o = before.mem.get(oid)
            if o is None:
                continue
            for off, (size, v) in o.cells.items():
                if size < 4 or isinstance(v, bool) or not (isinstance(v, int) or isinstance(v, Ptr) and isinstance(v.off, int) and v.obj is not None):
                    continue
                ok = True
                for item in nxt:
                    b = item[0].mem.get(oid)
                    c = b.cells.get(off) if b is not None else None
                    if c is None or type(c[1]) is not type(v) or c[1] == v or (isinstance(v, Ptr) and (c[1].obj != v.obj or not isinstance(c[1].off, int))):
                        ok = False
                        break
                if ok:
                    return True
        return False


class UseUndef(Exception):
    pass


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]
