"""Symbolic values: linear integer forms over z3 Int terms, pointers, helpers."""
import z3


def _get_id(self):
    """the identity of an expression never changes"""
    i = self.__dict__.get('_id')
    if i is None:
        i = self._id = z3.z3core.Z3_get_ast_id(self.ctx_ref(), self.as_ast())
    return i


z3.ExprRef.get_id = _get_id

KEEP = []          # keeps ASTs alive so that ids stay unique
RNG = {}           # ast id -> (lo, hi) known interval of an atomic term
CTX = z3.main_ctx()


class Lin:
    """c + sum coeff*term; immutable"""
    __slots__ = ('c', 't', 'key', '_e')

    def __init__(self, c, t):
        self.c = c
        self.t = t                       # tuple of (coeff, ast) sorted by ast id
        self.key = (c,) + tuple((k, a.get_id()) for k, a in t)
        self._e = None

    def expr(self):
        if self._e is None:
            e = None
            for k, a in self.t:
                x = a if k == 1 else z3.IntVal(k) * a
                e = x if e is None else e + x
            if self.c != 0 or e is None:
                e = z3.IntVal(self.c) if e is None else e + z3.IntVal(self.c)
            self._e = e
        return self._e

    def __repr__(self):
        return 'Lin(%s)' % self.expr()

    def __eq__(self, o):
        return isinstance(o, Lin) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


def keep(a):
    KEEP.append(a)
    return a


VARS = {}          # ast id -> frozenset of the ids of the constants occurring in it
CONST = {}         # id of a constant -> ast


def vars_of(e):
    """ids of the uninterpreted constants of an expression (memoised; keeps the expression alive)"""
    i = e.get_id()
    r = VARS.get(i)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        j = x.get_id()
        if j in VARS:
            stack.pop()
            continue
        ch = x.children()
        if not ch:
            KEEP.append(x)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                CONST[j] = x
                VARS[j] = frozenset((j,))
            else:
                VARS[j] = frozenset()
            stack.pop()
            continue
        todo = [c for c in ch if c.get_id() not in VARS]
        if todo:
            stack.extend(todo)
            continue
        KEEP.append(x)
        sets = [VARS[c.get_id()] for c in ch]
        big = max(sets, key=len)
        if all(q <= big for q in sets):
            VARS[j] = big
        else:
            VARS[j] = frozenset().union(*sets)
        stack.pop()
    return VARS[i]


def atom(a):
    keep(a)
    return Lin(0, ((1, a),))


def mk(c, d):
    t = tuple(sorted(((k, a) for k, a in d.values() if k != 0), key=lambda x: x[1].get_id()))
    if not t:
        return c
    return Lin(c, t)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return Lin(a.c + b, a.t)
    d = {x.get_id(): (k, x) for k, x in a.t}
    for k, x in b.t:
        i = x.get_id()
        d[i] = (d[i][0] + k, x) if i in d else (k, x)
    return mk(a.c + b.c, d)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((q * k, x) for q, x in a.t))


def sub(a, b):
    return add(a, scale(b, -1))


def expr(v):
    return z3.IntVal(v) if isinstance(v, int) else v.expr()


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    # product of linear forms: distribute over atoms, products of atoms are atoms
    r = a.c * b.c
    out = r
    out = add(out, scale(Lin(0, a.t), b.c) if b.c else 0)
    out = add(out, scale(Lin(0, b.t), a.c) if a.c else 0)
    for k1, x in a.t:
        for k2, y in b.t:
            p, q = (x, y) if x.get_id() <= y.get_id() else (y, x)
            out = add(out, scale(atom(p * q), k1 * k2))
    return out


def lin_of(e):
    """z3 Int expression -> int | Lin"""
    if z3.is_int_value(e):
        return e.as_long()
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = 0
        for c in e.children():
            r = add(r, lin_of(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = lin_of(ch[0])
        for c in ch[1:]:
            r = sub(r, lin_of(c))
        return r
    if k == z3.Z3_OP_UMINUS:
        return scale(lin_of(e.children()[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = 1
        for c in e.children():
            r = mul(r, lin_of(c))
        return r
    return atom(e)


def interval(v):
    if isinstance(v, int):
        return v, v
    lo = hi = v.c
    for k, a in v.t:
        r = RNG.get(a.get_id())
        if r is None:
            return None, None
        if k > 0:
            lo += k * r[0]
            hi += k * r[1]
        else:
            lo += k * r[1]
            hi += k * r[0]
    return lo, hi


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.off))


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class B2I:
    """a boolean stored in an integer (0/1)"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'B2I(%s)' % self.b

    def __eq__(self, o):
        return isinstance(o, B2I) and bsame(self.b, o.b)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class Str:
    """content of a std::string"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e          # python str or z3 Seq

    def __eq__(self, o):
        if not isinstance(o, Str):
            return False
        if isinstance(self.e, str) or isinstance(o.e, str):
            return isinstance(self.e, str) and isinstance(o.e, str) and self.e == o.e
        return self.e.eq(o.e)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 11

    def __repr__(self):
        return 'Str(%s)' % self.e

    def z(self):
        return z3.StringVal(self.e) if isinstance(self.e, str) else self.e


def bsame(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    return a.eq(b)


def band(*xs):
    l = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        l.append(x)
    if not l:
        return True
    return l[0] if len(l) == 1 else z3.And(*l)


def bor(*xs):
    l = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        l.append(x)
    if not l:
        return False
    return l[0] if len(l) == 1 else z3.Or(*l)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.children()[0]
    return z3.Not(x)


def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def cmp(op, a, b):
    """signed/mathematical comparison of linear forms"""
    d = sub(a, b)
    if isinstance(d, int):
        return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[op]
    lo, hi = interval(d)
    if lo is not None:
        if op == 'eq' and (lo > 0 or hi < 0):
            return False
        if op == 'ne' and (lo > 0 or hi < 0):
            return True
        if op == 'lt':
            if hi < 0:
                return True
            if lo >= 0:
                return False
        if op == 'le':
            if hi <= 0:
                return True
            if lo > 0:
                return False
        if op == 'gt':
            if lo > 0:
                return True
            if hi <= 0:
                return False
        if op == 'ge':
            if lo >= 0:
                return True
            if hi < 0:
                return False
    x, y = expr(a), expr(b)
    return keep({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
                 'gt': lambda: x > y, 'ge': lambda: x >= y}[op]())
