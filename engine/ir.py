"""Parser for the textual LLVM IR (clang 18, opaque pointers) of a harness translation unit."""
import re, subprocess, struct

TOK = re.compile(r'''
   (?P<cstr>c"(?:[^"])*")
 | (?P<lname>%"[^"]*"|%[-\w.$]+)
 | (?P<gname>@"[^"]*"|@[-\w.$]+)
 | (?P<str>"[^"]*")
 | (?P<meta>!"[^"]*"|![-\w.]*(?:\{[^}]*\})?)
 | (?P<attr>\#\d+)
 | (?P<comdat>\$"[^"]*"|\$[-\w.$]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[A-Za-z_][\w.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
 | (?P<cmt>;.*)
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('token %r' % s[i:i + 40])
        k = m.lastgroup
        i = m.end()
        if k == 'ws':
            continue
        if k == 'cmt':
            break
        t = m.group()
        if k in ('lname', 'gname') and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    return out


class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.b))
        if self.k == 'named':
            return '%' + self.a
        return self.k


I1 = Ty('int', 1)
I8 = Ty('int', 8)
I32 = Ty('int', 32)
I64 = Ty('int', 64)
PTR = Ty('ptr')
VOID = Ty('void')


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')

    def __init__(self, op, res=None, ty=None, line='', **a):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.line = line

    def __repr__(self):
        return self.line.strip()


class Block:
    __slots__ = ('name', 'insts', 'succ')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []


class Func:
    def __init__(self, name, ret, params, vararg):
        self.name = name
        self.ret = ret
        self.params = params      # list of (ty, regname)
        self.vararg = vararg
        self.lines = None
        self.blocks = None
        self.order = None
        self.loops = None


PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'writeonly', 'readonly',
              'readnone', 'immarg', 'returned', 'inreg', 'nest', 'swiftself', 'dead_on_unwind', 'writable',
              'noreturn', 'nofree', 'allocptr', 'allocalign', 'inalloca'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise IRError('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:200]))

    def type(self):
        k, t = self.t[self.i]
        self.i += 1
        if k == 'id':
            if re.fullmatch(r'i\d+', t):
                ty = Ty('int', int(t[1:]))
            elif t == 'ptr':
                ty = PTR
            elif t == 'void':
                ty = VOID
            elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                ty = Ty('fp', {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16, 'fp128': 128}[t])
            elif t in ('label', 'metadata', 'token', 'opaque'):
                ty = Ty(t)
            else:
                raise IRError('type ' + t)
        elif k == 'lname':
            ty = Ty('named', t[1:])
        elif t == '[':
            n = int(self.next())
            assert self.next() == 'x'
            e = self.type()
            self.expect(']')
            ty = Ty('arr', n, e)
        elif t == '{':
            ty = Ty('struct', False, self.typelist('}'))
        elif t == '<':
            if self.peek() == '{':
                self.next()
                l = self.typelist('}')
                self.expect('>')
                ty = Ty('struct', True, l)
            else:
                n = int(self.next())
                assert self.next() == 'x'
                e = self.type()
                self.expect('>')
                ty = Ty('vec', n, e)
        else:
            raise IRError('type? ' + t)
        if self.peek() == '(' and ty.k in ('void', 'int', 'ptr', 'fp', 'named', 'struct', 'arr') and self.fnty_ahead():
            self.next()
            depth = 1
            va = False
            while depth:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                elif x == '...':
                    va = True
            ty = Ty('fn', ty, va)
        return ty

    def fnty_ahead(self):
        # a function type in a call: "i32 (ptr, ptr, ...) @f("
        d = 0
        j = self.i
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
                    return nx[0] in ('gname', 'lname')
            j += 1
        return False

    def typelist(self, end):
        l = []
        if self.eat(end):
            return l
        while True:
            l.append(self.type())
            if self.eat(end):
                return l
            self.expect(',')

    def attrs(self):
        """skip parameter attributes"""
        while True:
            k, t = self.t[self.i] if self.i < len(self.t) else (None, None)
            if k == 'id' and t in PARAM_ATTR:
                self.i += 1
            elif k == 'id' and t in ('align',):
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
                else:
                    self.i += 1
            elif k == 'id' and t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures', 'range', 'nofpclass', 'memory', 'byref', 'preallocated'):
                self.i += 1
                self.skip_paren()
            elif k == 'str':
                self.i += 1
                if self.eat('='):
                    self.i += 1
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def value(self, ty):
        """operand of known type -> tuple"""
        k, t = self.t[self.i]
        self.i += 1
        if k == 'lname':
            return ('reg', t[1:])
        if k == 'gname':
            return ('global', t[1:])
        if k == 'num':
            if ty.k == 'fp':
                return ('float', float(t))
            return ('int', norm(int(t), ty.a) if ty.k == 'int' else int(t))
        if k == 'hex':
            if ty.k == 'fp':
                return ('float', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            return ('int', int(t, 16))
        if k == 'cstr':
            return ('cstr', unescape(t[2:-1]))
        if k == 'id':
            if t == 'true':
                return ('int', 1) if ty.k != 'int' or ty.a != 1 else ('bool', True)
            if t == 'false':
                return ('bool', False)
            if t == 'null':
                return ('null',)
            if t in ('undef', 'poison'):
                return ('undef',)
            if t == 'zeroinitializer':
                return ('zero',)
            if t == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                self.expect('(')
                sty = self.type()
                self.expect(',')
                pty = self.type()
                base = self.value(pty)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.type()
                    idx.append(self.value(it))
                self.expect(')')
                return ('cgep', sty, base, idx)
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                fty = self.type()
                v = self.value(fty)
                assert self.next() == 'to'
                tty = self.type()
                self.expect(')')
                return ('ccast', t, fty, v, tty)
            if t in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                while self.peek() in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('cbin', t, t1, a, b)
            raise IRError('value id ' + t)
        if t in ('{', '<', '['):
            end = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                r = self.agg('}')
                self.expect('>')
                return r
            return self.agg(end)
        if k == 'meta':
            return ('meta',)
        raise IRError('value %s %s' % (k, t))

    def agg(self, end):
        l = []
        if self.eat(end):
            return ('agg', l)
        while True:
            ty = self.type()
            l.append((ty, self.value(ty)))
            if self.eat(end):
                return ('agg', l)
            self.expect(',')

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def norm(v, n):
    if n == 1:
        return v
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'fastcc', 'ccc', 'externally_initialized'}


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'raw')


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.declared = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                self._typedef(l)
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = self._fnhead(l)
                f.lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
            elif l.startswith('declare '):
                f = self._fnhead(l)
                self.declared[f.name] = f
            i += 1
        self._size_cache = {}
        self._demangle()

    def _typedef(self, l):
        name, rest = l.split(' = type ', 1)
        name = name[1:]
        if name[0] == '"':
            name = name[1:-1]
        p = P(tokenize(rest), self)
        self.types[name] = p.type()

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
        g = Global()
        g.name = m.group(1).strip('"')
        g.raw = m.group(2)
        g.init = None
        g.ty = None
        g.const = None
        self.globals[g.name] = g

    def gparse(self, g):
        if g.const is not None:
            return g
        p = P(tokenize(g.raw), self)
        while p.peek() not in ('global', 'constant', 'alias'):
            p.next()
        k = p.next()
        g.const = (k == 'constant')
        if k == 'alias':
            p.type()
            p.expect(',')
            ty, v = p.tv()
            g.ty = ('alias', v)
            return g
        g.ty = p.type()
        if p.peek() not in (',', None):
            g.init = p.value(g.ty)
        return g

    def _fnhead(self, l):
        l = l.split(' {')[0] if l.startswith('define') and l.rstrip().endswith('{') and False else l
        p = P(tokenize(l.rstrip().rstrip('{')), self)
        p.next()
        while True:
            if p.peek() in LINK:
                t = p.next()
                if p.peek() == '(':
                    p.skip_paren()
            elif p.kind() == 'id' and p.peek() in PARAM_ATTR | {'align', 'dereferenceable', 'dereferenceable_or_null', 'range'}:
                p.attrs()
            elif p.kind() == 'str':
                p.next()
            else:
                break
        ret = p.type()
        name = p.next()[1:]
        p.expect('(')
        params = []
        vararg = False
        cnt = 0
        while not p.eat(')'):
            if p.eat(','):
                continue
            if p.eat('...'):
                vararg = True
                continue
            ty = p.type()
            p.attrs()
            if p.kind() == 'lname':
                rn = p.next()[1:]
            else:
                rn = str(cnt)
            cnt += 1
            params.append((ty, rn))
        return Func(name, ret, params, vararg)

    # ---- layout -------------------------------------------------------------------------------
    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.a]
        return ty

    def size(self, ty):
        k = repr(ty)
        r = self._size_cache.get(k)
        if r is None:
            r = self._size_cache[k] = self._sa(ty)
        return r[0]

    def align(self, ty):
        self.size(ty)
        return self._size_cache[repr(ty)][1]

    def _sa(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            b = (ty.a + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if ty.k == 'ptr':
            return 8, 8
        if ty.k == 'fp':
            s = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[ty.a]
            return s, s
        if ty.k == 'arr':
            return ty.a * self.size(ty.b), self.align(ty.b)
        if ty.k == 'struct':
            off = 0
            al = 1
            for e in ty.b:
                s, a = self.size(e), (1 if ty.a else self.align(e))
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al
        if ty.k == 'opaque':
            return 0, 1
        raise IRError('sizeof %r' % ty)

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, e in enumerate(ty.b):
            a = 1 if ty.a else self.align(e)
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.size(e)
        raise IRError('field')

    # ---- names --------------------------------------------------------------------------------
    def _demangle(self):
        names = list(self.funcs) + list(self.declared) + [g for g in self.globals if g.startswith('_Z')]
        out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt' if _exists('/usr/lib/llvm-18/bin/llvm-cxxfilt') else 'c++filt'],
                             input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.base = {n: base_name(d) for n, d in self.dem.items()}

    # ---- function bodies ----------------------------------------------------------------------
    def body(self, f):
        if f.blocks is not None:
            return f
        blocks = {}
        order = []
        cur = None
        nparams = sum(1 for _, r in f.params if r.isdigit())
        lines = f.lines
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = Block(m.group(1).strip('"'))
                blocks[cur.name] = cur
                order.append(cur.name)
                continue
            if cur is None:
                cur = Block(str(nparams) if False else 'entry')
                blocks[cur.name] = cur
                order.append(cur.name)
            if l.lstrip().startswith('switch') and not l.rstrip().endswith(']'):
                while not lines[i - 1].strip() == ']':
                    l += ' ' + lines[i].strip()
                    i += 1
            l = re.sub(r'(, ![-\w.$]+ !\d+)+$', '', l)
            inst = self.inst(l)
            if inst:
                cur.insts.append(inst)
        for b in blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = [t.a['t']] if t.a.get('c') is None else [t.a['t'], t.a['f']]
            elif t.op == 'switch':
                b.succ = [t.a['d']] + [x for _, x in t.a['cases']]
        f.blocks = blocks
        f.order = order
        f.loops = find_loops(blocks, order[0])
        return f

    def inst(self, l):
        p = P(tokenize(l), self)
        res = None
        if p.kind() == 'lname' and p.peek(1) == '=':
            res = p.next()[1:]
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            ty = p.type()
            cnt = ('int', 1)
            if p.eat(','):
                if p.peek() != 'align':
                    t2 = p.type()
                    cnt = p.value(t2)
            return Inst('alloca', res, ty, l, cnt=cnt)
        if op == 'load':
            atomic = p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            p.expect(',')
            _, ptr = p.tv()
            order = None
            if atomic:
                if p.peek() == 'syncscope':
                    p.next()
                    p.skip_paren()
                order = p.next()
            return Inst('load', res, ty, l, ptr=ptr, order=order)
        if op == 'store':
            atomic = p.eat('atomic')
            p.eat('volatile')
            ty, v = p.tv()
            p.expect(',')
            _, ptr = p.tv()
            order = None
            if atomic:
                order = p.next()
            return Inst('store', res, ty, l, v=v, ptr=ptr, order=order)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            ty = p.type()
            p.expect(',')
            _, base = p.tv()
            idx = []
            while p.eat(','):
                p.eat('inrange')
                it = p.type()
                idx.append((it, p.value(it)))
            return Inst('gep', res, ty, l, base=base, idx=idx)
        if op == 'call' or op == 'invoke':
            while p.peek() in LINK | {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn'}:
                p.next()
            p.attrs()
            if p.peek() == 'cc':
                p.next()
                p.next()
            ty = p.type()
            if p.peek() == 'asm':
                return Inst('asm', res, ty, l, text=l)
            if ty.k == 'fn':
                rty = ty.a
            else:
                rty = ty
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                if p.eat(','):
                    continue
                aty = p.type()
                p.attrs()
                if aty.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    args.append((aty, ('meta',)))
                    continue
                args.append((aty, p.value(aty)))
            return Inst('call', res, rty, l, callee=callee, args=args)
        if op == 'br':
            if p.eat('label'):
                return Inst('br', None, None, l, t=p.next()[1:], c=None)
            ty = p.type()
            c = p.value(ty)
            p.expect(',')
            p.next()
            t = p.next()[1:]
            p.expect(',')
            p.next()
            f = p.next()[1:]
            return Inst('br', None, None, l, c=c, t=t, f=f)
        if op == 'ret':
            ty = p.type()
            return Inst('ret', None, ty, l, v=None if ty.k == 'void' else p.value(ty))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf'):
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Inst(op, res, ty, l, pred=pred, x=a, y=b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            p.eat('nneg')
            ty, v = p.tv()
            assert p.next() == 'to'
            return Inst('cast', res, p.type(), l, kind=op, fty=ty, v=v)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'contract', 'reassoc', 'nnan', 'ninf', 'nsz', 'arcp', 'afn'):
                fl.add(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Inst('bin', res, ty, l, o=op, x=a, y=b, fl=fl)
        if op == 'fneg':
            ty = p.type()
            return Inst('fneg', res, ty, l, x=p.value(ty))
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.next()
            d = p.next()[1:]
            p.expect('[')
            cases = []
            while not p.eat(']'):
                t2 = p.type()
                c = p.value(t2)
                p.expect(',')
                p.next()
                cases.append((c, p.next()[1:]))
            return Inst('switch', None, ty, l, v=v, d=d, cases=cases)
        if op == 'phi':
            ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                inc.append((v, p.next()[1:]))
                p.expect(']')
                if not p.eat(','):
                    break
            return Inst('phi', res, ty, l, inc=inc)
        if op == 'select':
            cty = p.type()
            c = p.value(cty)
            p.expect(',')
            ty, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            return Inst('select', res, ty, l, c=c, x=a, y=b)
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.next()
            _, ptr = p.tv()
            p.expect(',')
            ty, v = p.tv()
            return Inst('rmw', res, ty, l, o=o, ptr=ptr, v=v, order=p.next())
        if op == 'cmpxchg':
            weak = p.eat('weak')
            p.eat('volatile')
            _, ptr = p.tv()
            p.expect(',')
            ty, e = p.tv()
            p.expect(',')
            _, nw = p.tv()
            o1 = p.next()
            o2 = p.next()
            return Inst('cmpxchg', res, ty, l, weak=weak, ptr=ptr, e=e, n=nw, order=o1, forder=o2)
        if op == 'fence':
            return Inst('fence', None, None, l, order=p.next())
        if op == 'extractvalue':
            ty, v = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Inst('extractvalue', res, ty, l, v=v, idx=idx)
        if op == 'insertvalue':
            ty, v = p.tv()
            p.expect(',')
            t2, e = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Inst('insertvalue', res, ty, l, v=v, e=e, ety=t2, idx=idx)
        if op == 'unreachable':
            return Inst('unreachable', None, None, l)
        if op == 'freeze':
            ty, v = p.tv()
            return Inst('freeze', res, ty, l, v=v)
        if op == 'va_arg':
            return Inst('unsupported', res, None, l)
        raise IRError('instruction: ' + l)


def _exists(p):
    import os
    return os.path.exists(p)


def find_loops(blocks, entry):
    """natural loops: header -> set of blocks (irreducible control flow is rejected later)"""
    # dominators, simple iterative
    names = []
    seen = set()

    def dfs(start):
        st = [(start, iter(blocks[start].succ))]
        seen.add(start)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(blocks[s].succ)))
                    break
            else:
                names.append(n)
                st.pop()
    dfs(entry)
    rpo = names[::-1]
    preds = {n: [] for n in rpo}
    for n in rpo:
        for s in blocks[n].succ:
            preds[s].append(n)
    dom = {n: None for n in rpo}
    dom[entry] = {entry}
    full = set(rpo)
    for n in rpo:
        if n != entry:
            dom[n] = full
    ch = True
    while ch:
        ch = False
        for n in rpo:
            if n == entry:
                continue
            d = None
            for q in preds[n]:
                d = dom[q] if d is None else d & dom[q]
            d = (d or set()) | {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    loops = {}
    for n in rpo:
        for s in blocks[n].succ:
            if s in dom[n]:
                body = loops.setdefault(s, {s})
                st = [n]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    return loops


def strip_templates(s):
    """remove balanced <...> except those of operator<, operator<<, operator->, <=, ..."""
    out = []
    d = 0
    i = 0
    while i < len(s):
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.match(r'operator(<<=|>>=|<=>|<<|>>|->\*|->|<=|>=|<|>)', s[i:])
            if m:
                if d == 0:
                    out.append(m.group())
                i += m.end()
                continue
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def base_name(d):
    """qualified name without template arguments, parameters and return type"""
    s = strip_templates(d)
    s = s.replace('(anonymous namespace)', '_anon_').replace('[abi:cxx11]', '')
    s = re.sub(r'\{lambda\([^{}]*\)#(\d+)\}', r'_lambda\1', s)
    s = re.sub(r'\{lambda\([^{}]*\)#(\d+)\}', r'_lambda\1', s)
    s = s.replace("operator()", "operator_call")
    # cut parameter list: first '(' at depth 0
    i = s.find('(')
    if i >= 0:
        # "decltype(...) f(...)": keep going for those
        pre = s[:i]
        if pre.endswith('decltype') or pre.endswith('auto'):
            j = s.rfind(' ', 0, s.rfind('('))
            pre = s[j + 1:s.rfind('(')]
        s2 = pre
        tail = s[i:]
        m = re.search(r'\)(?: const)?::(.*)$', tail)
        if m:
            s2 = pre + '()::' + base_name(m.group(1)) if m.group(1) else pre
        s = s2
    s = s.strip()
    if ' ' in s and 'operator ' not in s:
        s = s.split(' ')[-1]
    return s.strip()
