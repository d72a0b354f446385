"""Generator of C expressions with known values.

Every leaf is fresh storage (or a literal) holding a known value, and every
operator is evaluated here, exactly as C11 prescribes, while the text is built.
An operation that would be undefined for those values is replaced.  So each
program comes with its complete expected output: the oracle is this evaluator,
not another compiler.
"""
import math
import struct

from cgen import Types, FLOAT, DOUBLE, SPECIAL

M64 = (1 << 64) - 1


def f32(x):
    if x != x or math.isinf(x):
        return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def int_to_f(v, t):
    if t.size == 8:
        return float(v)
    a = abs(v)
    bl = a.bit_length()
    if bl > 53:
        sh = bl - 50
        top = a >> sh
        if a & ((1 << sh) - 1):
            top |= 1
        r = f32(math.ldexp(float(top), sh))
    else:
        r = f32(float(a))
    return -r if v < 0 else r


def fbits(x):
    if x != x:
        return 0x7ff8000000000000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def wrap(v, t):
    if t.name == '_Bool':
        return 1 if v else 0
    v &= t.hi - t.lo
    if t.signed and v > t.hi:
        v -= t.hi - t.lo + 1
    return v


class N:
    __slots__ = ('s', 't', 'v', 'const', 'atom', 'lv', 'pure', 'bits', 'bl')

    def __init__(self, s, t, v, const=False, atom=False, lv=None, pure=True, bits=0):
        self.s = s
        self.t = t
        self.v = v
        self.const = const    # a constant expression
        self.atom = atom
        self.lv = lv          # text of the lvalue, when it is one
        self.pure = pure      # has no side effect
        self.bits = bits      # bit-field width
        self.bl = False       # result of a comparison, && || or !

    def p(self):
        return self.s if self.atom else '(%s)' % self.s


def BL(*a, **kw):
    n = N(*a, **kw)
    n.bl = True
    return n


DEF = dict(flo=0, depth=3, const=35, exprs=(4, 12), funcs=(1, 4), long_size=8, side=14, bitfields=15, mem=35, tern=10,
           logic=10, comma=3, cast=16, cmp=16, shift=14, div=14, typ=25, vol=8, ctx=45, constctx=20, call=14,
           ptr=10, nan=1, constexprs=1, rv_narrow=1, div0=1, stmtexpr=4)


class CX:
    def __init__(self, src, **kw):
        self.s = src
        P = dict(DEF)
        P.update(kw)
        self.P = P
        self.ty = Types(P['long_size'])
        self.uid = 0
        self.glob = []
        self.loc = []
        self.params = []     # (ctype, name, literal)
        self.helpers = {}
        self.post = []       # (print text, expected) after an expression
        self.expect = []
        self.used = {}
        self.structs = []

    def nm(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    # ------------------------------------------------------------ types/values
    def it(self):
        s, ty = self.s, self.ty
        return s.weighted([(6, ty.int_), (5, ty.uint), (4, ty.llong), (4, ty.ullong), (4, ty.long_), (4, ty.ulong),
                           (3, ty.char), (3, ty.uchar), (3, ty.short), (3, ty.ushort), (2, ty.schar), (2, ty.bool_)])

    def at(self):
        if self.P['flo'] and self.s.p(self.P['flo']):
            return DOUBLE if self.s.p(60) else FLOAT
        return self.it()

    def ival(self, t, lo=None, hi=None):
        s = self.s
        lo = t.lo if lo is None else max(lo, t.lo)
        hi = t.hi if hi is None else min(hi, t.hi)
        for _ in range(3):
            k = s.i(8)
            if k <= 3:
                v = SPECIAL[s.i(len(SPECIAL))]
                if s.i(3) == 1:
                    v = -v
            elif k == 4:
                v = s.rng_(-20, 20)
            elif k == 5:
                b = s.i(64)
                v = (1 << b) + s.rng_(-1, 1)
                if s.i(2):
                    v = -v
            elif k == 6:
                v = s.choice([t.lo, t.hi, t.lo + 1, t.hi - 1])
            else:
                v = s.i(1 << 16) | s.i(1 << 16) << 16 | s.i(1 << 16) << 32 | s.i(1 << 16) << 48
                v = wrap(v, t)
            if lo <= v <= hi:
                return v
            v = wrap(v, t)
            if lo <= v <= hi:
                return v
        return lo if lo > 0 else (0 if hi >= 0 else hi)

    def fval(self, t):
        s = self.s
        k = s.i(9)
        if k == 0:
            v = float(s.rng_(0, 20))
        elif k == 1:
            v = s.i(4000) / 8.0
        elif k == 2:
            v = float(SPECIAL[s.i(len(SPECIAL))])
        elif k == 3:
            v = math.ldexp(1.0 + s.i(1 << 20) / float(1 << 20), s.rng_(-60, 60))
        elif k == 4:
            v = s.choice([0.1, 0.2, 0.3, 1e10, 1e-10, 3.14159265358979, 1 / 3.0, 1e15, 123456.789, 0.5, 1.5, 2.5,
                          4294967296.0, 4294967295.0, 2147483648.0, 2147483647.0, 9223372036854775808.0, 65536.5,
                          9007199254740993.0, 16777217.0, 16777216.0, 0.9999999999999999, 255.9, 256.0, 127.99])
        elif k == 5:
            v = math.ldexp(float(s.i(1 << 26) << 27 | s.i(1 << 27)), s.rng_(-80, 10))
        elif k == 6:
            v = s.choice([0.0, 1.0, 2.0, 0.25, 1e30, 1e-30])
        elif k == 7:
            v = s.choice([3.4028234663852886e38, 1.1754943508222875e-38, 1e-45, 1e-40] if t.size == 4 else
                         [1.7976931348623157e308, 2.2250738585072014e-308, 1e-310, 1e300, 5e-324])
        else:
            v = s.i(1000000) / 1000.0
        if s.i(3) == 1:
            v = -v
        return f32(v) if t.size == 4 else v

    def flit(self, v, t):
        """Literal for a finite value."""
        a = abs(v)
        if t.size == 4:
            x = '%.9g' % a
        else:
            x = repr(a)
        if 'e' not in x and '.' not in x:
            x += '.0'
        if 'e' in x and '.' not in x:
            m, e = x.split('e')
            x = m + ('.0e' if self.s.i(2) else '.e') + e
        elif self.s.i(6) == 1 and 'e' in x:
            x = x.replace('e', 'E')
        if t.size == 4:
            x += self.s.choice('fF')
        neg = math.copysign(1.0, v) < 0
        return ('-' + x, False) if neg else (x, True)

    def ilit(self, v):
        """A literal for v >= 0 and its type, by the C11 rules."""
        s, ty = self.s, self.ty
        base = s.weighted([(5, 10), (4, 16), (1, 8)])
        if base == 10:
            x = '%d' % v
        elif base == 16:
            x = s.choice(['0x%x', '0X%X'] if s.i(4) == 1 else ['0x%x']) % v
        else:
            x = '0%o' % v
        suf = s.weighted([(6, ''), (2, 'U'), (2, 'L'), (2, 'UL'), (1, 'LL'), (1, 'ULL'), (1, 'u'), (1, 'l'), (1, 'ull'),
                          (1, 'Lu')])
        k = suf.lower()
        nl = k.count('l')
        u = 'u' in k
        if k == 'lu':
            nl = 1
        cand = []
        rows = [(0, ty.int_, ty.uint), (1, ty.long_, ty.ulong), (2, ty.llong, ty.ullong)]
        for n, st, ut in rows:
            if n < nl:
                continue
            if not u:
                cand.append(st)
            if u or base != 10:
                cand.append(ut)
        for t in cand:
            if v <= t.hi:
                return x + suf, t
        return '%dULL' % v, ty.ullong

    def const(self, t):
        """A literal (possibly cast) of exactly type t."""
        if t.flo:
            v = self.fval(t)
            x, atom = self.flit(v, t)
            return N(x, t, v, True, atom)
        v = self.ival(t)
        return self.const_of(v, t)

    def const_of(self, v, t):
        if t.flo:
            x, atom = self.flit(v, t)
            return N(x, t, v, True, atom)
        s, ty = self.s, self.ty
        if t is ty.int_ and 32 <= v < 127 and s.i(6) == 1 and chr(v) not in "'\\":
            return N("'%s'" % chr(v), t, v, True, True)
        if v < 0:
            if -v == 1 << 63:
                x = '(-9223372036854775807LL - 1)'
                lt = ty.llong
            else:
                x, lt = self.ilit(-v)
                pt = ty.promote(lt)
                if wrap(wrap(v, pt), t) != v:
                    # unary minus of an unsigned literal wraps
                    x, lt = '%dLL' % -v, ty.llong
                x = '-' + x
                if lt is t:
                    return N(x, t, v, True)
                return N('(%s)%s' % (t.name, x), t, wrap(v, t), True)
            if lt is t:
                return N(x, t, v, True, True)
            return N('(%s)%s' % (t.name, x), t, v, True)
        x, lt = self.ilit(v)
        if lt is t:
            return N(x, t, v, True, True)
        return N('(%s)%s' % (t.name, x), t, v, True)

    def any_const(self):
        """A literal of whatever type it has."""
        if self.P['flo'] and self.s.p(self.P['flo']):
            return self.const(DOUBLE if self.s.p(60) else FLOAT)
        v = self.ival(self.ty.ullong)
        x, t = self.ilit(v)
        return N(x, t, v, True, True)

    # ------------------------------------------------------------ leaves
    def init_text(self, v, t):
        return self.const_of(v, t).s

    def leaf(self, t=None, write=False):
        s = self.s
        if t is None:
            t = self.at()
        if not write and s.p(self.P['const']):
            return self.const(t) if s.i(3) else self.any_const()
        v = self.fval(t) if t.flo else self.ival(t)
        return self.store(t, v)

    def instead(self, b, n):
        """n in place of b, keeping b's side effects."""
        if b.pure:
            return n
        return N('(%s, %s)' % (b.p(), n.p()), n.t, n.v, False, True, pure=False)

    def store(self, t, v, nobf=False):
        """Fresh storage of type t holding v."""
        s, P = self.s, self.P
        ini = self.init_text(v, t)
        vol = 'volatile ' if s.p(P['vol']) else ''
        k = s.i(3)
        if s.p(P['mem']):
            k = 3 + s.i(6)
        if k == 0:
            n = self.nm('v')
            self.loc.append('%s%s %s = %s;' % (vol, t.name, n, ini))
            self.use('local')
        elif k == 1:
            n = self.nm('g')
            self.glob.append('%s%s%s %s = %s;' % ('static ' if s.i(2) else '', vol, t.name, n, ini))
            self.use('global')
        elif k == 2 and len(self.params) < 9:
            n = self.nm('p')
            self.params.append((t.name, n, ini))
            self.use('param')
        elif k == 3:
            n = self.nm('a')
            sz = s.rng_(1, 5)
            i = s.i(sz)
            els = ['0'] * sz
            els[i] = ini
            d = '%s%s %s[%d] = {%s};' % (vol, t.name, n, sz, ', '.join(els))
            if s.i(2):
                self.loc.append(d)
            else:
                self.glob.append('static ' + d)
            if s.i(2):
                ix = '%d' % i
            else:
                it = s.choice([self.ty.int_, self.ty.uchar, self.ty.long_, self.ty.short, self.ty.uint, self.ty.ullong])
                x = self.nm('i')
                self.loc.append('%s %s = %d;' % (it.name, x, i))
                ix = x
            n = '%s[%s]' % (n, ix)
            self.use('array')
        elif k == 4:
            tag = self.nm('S')
            pre, post = s.choice([('', ''), ('char c; ', ''), ('', ' char z;'), ('short h; ', ' int z;'), ('double d; ', '')])
            self.structs.append('struct %s { %s%s x;%s };' % (tag, pre, t.name, post))
            n = self.nm('s')
            d = 'struct %s %s = {.x = %s};' % (tag, n, ini)
            g = s.i(2)
            (self.glob if g else self.loc).append(('static ' if g else '') + d)
            if s.i(3) == 1:
                q = self.nm('q')
                self.loc.append('struct %s *%s = &%s;' % (tag, q, n))
                n = q + '->x'
            else:
                n += '.x'
            self.use('member')
        elif k == 5:
            n = self.nm('v')
            q = self.nm('q')
            g = s.i(2)
            (self.glob if g else self.loc).append('%s%s %s = %s;' % ('static ' if g else '', t.name, n, ini))
            self.loc.append('%s *%s = &%s;' % (t.name, q, n))
            n = '(*%s)' % q if s.i(2) else '%s[0]' % q
            self.use('deref')
        elif k == 6 and not nobf and not t.flo and P['bitfields'] and t.name != '_Bool':
            return self.bitfield(t, v)
        elif k == 7:
            n = self.nm('v')
            q = self.nm('q')
            o = s.rng_(-3, 3)
            base = 4
            els = ['0'] * 9
            els[base + o] = ini
            g = s.i(2)
            (self.glob if g else self.loc).append('%s%s %s[9] = {%s};' % ('static ' if g else '', t.name, n, ', '.join(els)))
            self.loc.append('%s *%s = %s + 4;' % (t.name, q, n))
            n = '%s[%d]' % (q, o) if s.i(2) else '(*(%s %s %d))' % (q, '-' if o < 0 else '+', abs(o))
            self.use('ptroff')
        else:
            n = self.nm('v')
            self.loc.append('%s %s = %s;' % (t.name, n, ini))
            if s.i(2):
                # keep it in memory
                self.loc.append('%s *%s = &%s; (void)%s;' % (t.name, (q := self.nm('q')), n, q))
        return N(n, t, v, atom=True, lv=n)

    def bitfield(self, t, v):
        s = self.s
        w = s.rng_(1, 31 if t.size == 8 else min(t.size * 8, 32))
        v = v & ((1 << w) - 1)
        if t.signed and v >> (w - 1):
            v -= 1 << w
        tag = self.nm('S')
        pre = s.i(min(8, max(1, t.size * 8 - w + 1))) if w < t.size * 8 else 0
        self.structs.append('struct %s { %s%s x : %d;%s };' % (
            tag, ('%s y : %d; ' % (t.name, pre)) if pre else '', t.name, w,
            (' %s z : %d;' % (t.name, s.rng_(1, 7))) if s.i(2) else ''))
        n = self.nm('s')
        g = s.i(2)
        (self.glob if g else self.loc).append('%sstruct %s %s = {.x = %s%s};' % (
            'static ' if g else '', tag, n, self.init_text(v, t), ', .y = 1' if pre else ''))
        self.use('bitfield')
        return N(n + '.x', t, v, atom=True, lv=n + '.x', bits=w)

    def promoted(self, n):
        """Type of n after the integer promotions."""
        ty = self.ty
        if n.t.flo:
            return n.t
        if n.bits and n.bits < 32:
            return ty.int_
        if n.bits == 32:
            return ty.int_ if n.t.signed else ty.uint
        return ty.promote(n.t)

    def usual(self, a, b):
        if a.t.flo or b.t.flo:
            return self.ty.usual(a.t, b.t)
        return self.ty.usual(self.promoted(a), self.promoted(b))

    def convert(self, v, ft, t):
        """Value v of type ft converted to t; None when undefined."""
        if t.flo:
            if ft.flo:
                return f32(v) if t.size == 4 else v
            return int_to_f(v, t)
        if ft.flo:
            if t.name == '_Bool':
                return 1 if (v != v or v != 0) else 0
            if v != v or math.isinf(v):
                return None
            k = int(v)
            return k if t.lo <= k <= t.hi else None
        return wrap(v, t)

    # ------------------------------------------------------------ expressions
    def expr(self, d):
        s, P = self.s, self.P
        if d <= 0:
            return self.leaf()
        k = s.weighted([(8, 'leaf'), (30, 'arith'), (P['div'], 'div'), (P['shift'], 'shift'), (P['cmp'], 'cmp'),
                        (P['logic'], 'logic'), (12, 'un'), (P['cast'], 'cast'), (P['tern'], 'tern'),
                        (P['comma'], 'comma'), (P['side'], 'side'), (P['call'], 'call'), (P['stmtexpr'], 'sx')])
        return getattr(self, 'x_' + k)(d)

    def x_leaf(self, d):
        return self.leaf()

    def two(self, d):
        if self.s.i(2):
            return self.expr(d - 1), self.expr(d - 2)
        return self.expr(d - 2), self.expr(d - 1)

    def ints(self, d):
        a, b = self.two(d)
        return self.to_int(a), self.to_int(b)

    def to_int(self, n):
        if not n.t.flo:
            return n
        t = self.it()
        v = self.convert(n.v, n.t, t)
        if v is None:
            return BL('%s > 0' % n.p(), self.ty.int_, 1 if n.v > 0 else 0, n.const, pure=n.pure)
        return N('(%s)%s' % (t.name, n.p()), t, v, n.const, pure=n.pure)

    def x_arith(self, d):
        a, b = self.two(d)
        if a.t.flo or b.t.flo:
            return self.fbin(self.s.choice('+-*/'), a, b)
        return self.bin(self.s.weighted([(6, '+'), (6, '-'), (5, '*'), (3, '&'), (3, '|'), (3, '^')]), a, b)

    def fbin(self, op, a, b):
        t = self.usual(a, b)
        x = self.convert(a.v, a.t, t)
        y = self.convert(b.v, b.t, t)
        try:
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            else:
                if y == 0:
                    if not self.P['div0']:
                        op = '*'
                        r = x * y
                    elif x == 0 or x != x or y != y:
                        r = math.nan
                    else:
                        r = math.copysign(math.inf, x) * math.copysign(1.0, y)
                else:
                    r = x / y
        except OverflowError:
            r = math.inf
        if t.size == 4:
            r = f32(r)
        if r != r and not self.P['nan']:
            op, r = '-', x - x if not math.isinf(x) else 0.0
            return self.instead(a, self.instead(b, N('0.0', DOUBLE, 0.0, True, True)))
        return N('%s %s %s' % (a.p(), op, b.p()), t, r, a.const and b.const, pure=a.pure and b.pure)

    def bin(self, op, a, b):
        t = self.usual(a, b)
        x, y = wrap(a.v, t), wrap(b.v, t)
        r = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]
        if not t.lo <= r <= t.hi:
            if t.signed:
                # would overflow: take another operator, or compute it unsigned
                for o2, r2 in (('-', x - y), ('+', x + y)):
                    if o2 != op and t.lo <= r2 <= t.hi and self.s.i(2):
                        return N('%s %s %s' % (a.p(), o2, b.p()), t, r2, a.const and b.const, pure=a.pure and b.pure)
                u = self.ty.unsigned_of[t]
                a = N('(%s)%s' % (u.name, a.p()), u, wrap(x, u), a.const, pure=a.pure)
                return self.bin(op, a, b)
            r = wrap(r, t)
        return N('%s %s %s' % (a.p(), op, b.p()), t, r, a.const and b.const, pure=a.pure and b.pure)

    def x_div(self, d):
        s = self.s
        a, b = self.two(d)
        if (a.t.flo or b.t.flo) and s.i(2):
            return self.fbin('/', a, b)
        a, b = self.to_int(a), self.to_int(b)
        op = s.choice('/%')
        t = self.usual(a, b)
        x, y = wrap(a.v, t), wrap(b.v, t)
        if y == 0 or (t.signed and x == t.lo and y == -1):
            v = s.choice([1, 2, 3, 7, 8, 10, 16, 100, 255, 256, 1000, 65536, -2, -3, -7, -16, 1 << 31])
            b = self.instead(b, self.const_of(v, self.ty.llong) if abs(v) >= 1 << 31 else self.const_of(v, self.ty.int_))
            t = self.usual(a, b)
            x, y = wrap(a.v, t), wrap(b.v, t)
            if y == 0:
                return self.instead(b, a)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = q if op == '/' else x - q * y
        if not t.lo <= r <= t.hi:
            return self.instead(b, a)
        return N('%s %s %s' % (a.p(), op, b.p()), t, r, a.const and b.const, pure=a.pure and b.pure)

    def x_shift(self, d):
        s = self.s
        a = self.to_int(self.expr(d - 1))
        t = self.promoted(a)
        nb = t.size * 8
        op = s.choice(['<<', '>>'])
        x = a.v
        if op == '<<' and t.signed and (x < 0 or x.bit_length() > nb - 2):
            op = '>>'
        if op == '>>' and x < 0 and not t.signed:
            x = wrap(x, t)
        lim = nb - 1
        if op == '<<' and t.signed:
            lim = nb - 1 - x.bit_length()
        c = min(lim, s.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 5, 12]))
        b = self.amount(c)
        r = wrap(x << c, t) if op == '<<' else x >> c
        return N('%s %s %s' % (a.p(), op, b.p()), t, r, a.const and b.const, pure=a.pure and b.pure)

    def amount(self, c):
        s, ty = self.s, self.ty
        if s.p(self.P['const'] + 20):
            return self.const_of(c, s.choice([ty.int_, ty.int_, ty.uint, ty.long_, ty.uchar]))
        t = s.choice([ty.int_, ty.uint, ty.uchar, ty.char, ty.long_, ty.ullong, ty.short])
        return self.store(t, c, nobf=True)

    def x_cmp(self, d):
        s = self.s
        a, b = self.two(d)
        if s.i(4) == 1 and b.pure:
            # make near misses likely
            t0 = b.t
            v = self.convert(a.v, a.t, t0) if not (a.t.flo and a.v != a.v) else None
            if v is not None and not (t0.flo and (v != v or math.isinf(v))):
                if not t0.flo:
                    v = min(t0.hi, max(t0.lo, v + s.choice([0, 1, -1])))
                    b = self.store(t0, v) if s.i(2) else self.const_of(v, t0)
                elif v == v:
                    b = self.const_of(v, t0)
        op = s.choice(['<', '<=', '>', '>=', '==', '!='])
        t = self.usual(a, b)
        x, y = self.convert(a.v, a.t, t), self.convert(b.v, b.t, t)
        r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        return BL('%s %s %s' % (a.p(), op, b.p()), self.ty.int_, int(r), a.const and b.const, pure=a.pure and b.pure)

    def truth(self, n):
        return n.v != n.v or n.v != 0

    def x_logic(self, d):
        s = self.s
        a = self.expr(d - 1)
        op = s.choice(['&&', '||'])
        skip = (op == '&&') != self.truth(a)
        if skip:
            b = self.pure_expr(d - 1)
        else:
            b = self.expr(d - 1)
        r = (self.truth(a) and self.truth(b)) if op == '&&' else (self.truth(a) or self.truth(b))
        return BL('%s %s %s' % (a.p(), op, b.p()), self.ty.int_, int(r), a.const and b.const, pure=a.pure and b.pure)

    def pure_expr(self, d):
        """An expression that is not evaluated: its side effects must not happen."""
        np = len(self.post)
        old = self.notrun if hasattr(self, 'notrun') else False
        self.notrun = True
        e = self.expr(d)
        self.notrun = old
        return e

    def x_un(self, d):
        s, ty = self.s, self.ty
        a = self.expr(d - 1)
        op = s.choice('-~!+')
        if op == '!':
            return BL('!%s' % a.p(), ty.int_, 0 if self.truth(a) else 1, a.const, pure=a.pure)
        if a.t.flo:
            if op == '~':
                op = '-'
            return N('%s%s' % (op, a.p()), a.t, -a.v if op == '-' else a.v, a.const, pure=a.pure)
        t = self.promoted(a)
        x = a.v
        if op == '-':
            if t.signed and x == t.lo:
                op = '~'
                r = ~x
            else:
                r = wrap(-x, t)
        elif op == '~':
            r = wrap(~x, t)
        else:
            r = x
        return N('%s%s' % (op, a.p()), t, r, a.const, pure=a.pure)

    def x_cast(self, d):
        a = self.expr(d - 1)
        return self.cast(a, self.at())

    def cast(self, a, t):
        v = self.convert(a.v, a.t, t)
        if v is None:
            return N('(double)%s' % a.p(), DOUBLE, a.v, a.const, pure=a.pure)
        return N('(%s)%s' % (t.name, a.p()), t, v, a.const, pure=a.pure)

    def x_tern(self, d):
        c = self.expr(d - 1)
        if self.truth(c):
            a = self.expr(d - 1)
            b = self.pure_expr(d - 2)
            sel = a
        else:
            a = self.pure_expr(d - 2)
            b = self.expr(d - 1)
            sel = b
        t = self.usual(a, b)
        v = self.convert(sel.v, sel.t, t)
        return N('%s ? %s : %s' % (c.p(), a.p(), b.p()), t, v, c.const and a.const and b.const,
                 pure=a.pure and b.pure and c.pure)

    def x_comma(self, d):
        a = self.expr(d - 2)
        b = self.expr(d - 1)
        # comma operator is not allowed in constant expressions
        t = b.t
        if b.bits:
            b = self.cast(b, b.t)
        return (BL if b.bl else N)('(void)%s, %s' % (a.p(), b.p()), t, b.v, False, pure=a.pure and b.pure)

    def x_side(self, d):
        """Assignment operators on fresh storage; the stored value is printed afterwards."""
        s, ty = self.s, self.ty
        t = self.at()
        old = self.fval(t) if t.flo else self.ival(t)
        if s.i(3) == 1 and not t.flo:
            old = self.ival(t, -100, 100)
        np = len(self.params)
        n = self.store(t, old)
        t, old = n.t, n.v
        lv = n.lv
        k = s.i(3)
        if k == 0:
            op = s.choice(['++', '--'])
            pre = s.i(2)
            if t.flo:
                if t.size == 4:
                    new = f32(old + (1 if op == '++' else -1))
                else:
                    new = old + (1 if op == '++' else -1)
            else:
                new = old + (1 if op == '++' else -1)
                if t.name == '_Bool':
                    # bool: ++ gives 1, -- toggles
                    new = wrap(new, t)
                else:
                    pt = self.promoted(n)
                    if not pt.lo <= new <= pt.hi and pt.signed:
                        op = '--' if op == '++' else '++'
                        new = old + (1 if op == '++' else -1)
                    new = self.bwrap(new, n)
            r = new if pre else old
            txt = '%s%s' % (op, lv) if pre else '%s%s' % (lv, op)
            self.use('incdec')
        elif k == 1:
            e = self.expr(d - 1)
            v = self.convert(e.v, e.t, t)
            if v is None or (n.bits and e.t.flo and self.bwrap(v, n) != v):
                e = self.instead(e, self.const(t))
                v = e.v
            new = self.bwrap(v, n)
            r = new
            txt = '%s = %s' % (lv, e.p())
            self.use('assign')
        else:
            e = self.expr(d - 1)
            cur = N(lv, t, old, atom=True, bits=n.bits)
            res = self.compound(cur, e)
            if res is None:
                e = self.instead(e, self.const(t))
                new = self.bwrap(self.convert(e.v, e.t, t), n)
                txt = '%s = %s' % (lv, e.p())
            else:
                op, new, e = res
                new = self.bwrap(new, n)
                txt = '%s %s= %s' % (lv, op, e.p())
            r = new
            self.use('compound')
        if getattr(self, 'notrun', False):
            self.post.append((lv, t, old))
        else:
            self.post.append((lv, t, new))
        # value: in the type of the lvalue (a bit-field's assignment has the field's type)
        if n.bits:
            # whether such a value still promotes as a bit-field is not agreed between compilers
            return N('(%s)(%s)' % (t.name, txt), t, r, False, pure=False)
        return N(txt, t, r, False, pure=False)

    def bwrap(self, v, n):
        if n.t.flo or not n.bits:
            return v if n.t.flo else wrap(v, n.t)
        v &= (1 << n.bits) - 1
        if n.t.signed and v >> (n.bits - 1):
            v -= 1 << n.bits
        return v

    def compound(self, cur, e):
        """op, new value (converted to cur.t) and operand, or None."""
        s = self.s
        t = cur.t
        ops = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
        for _ in range(4):
            op = s.choice(ops)
            if t.flo or e.t.flo:
                if op in ('%', '&', '|', '^', '<<', '>>'):
                    op = '+-*/'[s.i(4)]
                if op == '/' and e.v == 0:
                    continue
                r = self.fbin(op, cur, e)
                if r.t.flo and '%s ' % op not in r.s:
                    continue
            elif op in ('<<', '>>'):
                pt = self.promoted(cur)
                c = e.v
                if not 0 <= c < pt.size * 8:
                    c = c & 7
                    e = self.instead(e, self.amount(c))
                x = cur.v
                if op == '<<':
                    if pt.signed and (x < 0 or x.bit_length() + c > pt.size * 8 - 1):
                        continue
                    r = N('', pt, wrap(x << c, pt))
                else:
                    r = N('', pt, x >> c)
            elif op in ('/', '%'):
                ut = self.usual(cur, e)
                x, y = wrap(cur.v, ut), wrap(e.v, ut)
                if y == 0 or (ut.signed and x == ut.lo and y == -1):
                    continue
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                r = N('', ut, q if op == '/' else x - q * y)
            else:
                ut = self.usual(cur, e)
                x, y = wrap(cur.v, ut), wrap(e.v, ut)
                v = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]
                if not ut.lo <= v <= ut.hi:
                    if ut.signed:
                        continue
                    v = wrap(v, ut)
                r = N('', ut, v)
            new = self.convert(r.v, r.t, t)
            if new is None or (cur.bits and r.t.flo and self.bwrap(new, cur) != new):
                continue    # floating value outside the range of the (bit-field's) type
            if t.flo and new != new and not self.P['nan']:
                continue
            return op, new, e
        return None

    def x_call(self, d):
        """Through a function: argument and return conversions."""
        s = self.s
        a = self.expr(d - 1)
        pt, rt = self.at(), self.at()
        v = self.convert(a.v, a.t, pt)
        if v is None:
            return a if not a.bits else self.cast(a, a.t)
        k = s.i(4)
        v2 = self.convert(v, pt, rt)
        if v2 is None:
            rt, v2 = pt, v
        pn = (pt.name + '_' + rt.name).replace(' ', '')
        if k == 3:
            key = 'fp_' + pn
            self.helpers.setdefault('id_' + pn, 'static %s id_%s(%s x) { return x; }' % (rt.name, pn, pt.name))
            self.helpers.setdefault(key, 'static %s (*%s)(%s) = id_%s;' % (rt.name, key, pt.name, pn))
            fn = key
        elif k == 2:
            key = 'k_' + pn
            self.helpers.setdefault(key, 'static %s %s(int a, %s x, double b) { return (a == 1 && b == 2.5) ? x : 0; }' % (
                rt.name, key, pt.name))
            # the conditional's type is the usual one of x and int
            ct = self.ty.usual(pt, self.ty.int_)
            v2 = self.convert(self.convert(v, pt, ct), ct, rt)
            if v2 is None or pt.name == '_Bool':
                return self.cast(a, pt)
            self.use('call')
            return N('%s(1, %s, 2.5)' % (key, a.p()), rt, v2, False, True, pure=a.pure)
        else:
            key = 'id_' + pn
            self.helpers.setdefault(key, 'static %s %s(%s x) { return x; }' % (rt.name, key, pt.name))
            fn = key
        self.use('call')
        arg = a.s if ', ' not in a.s else a.p()
        return N('%s(%s)' % (fn, arg), rt, v2, False, True, pure=a.pure)

    def x_sx(self, d):
        a = self.expr(d - 1)
        t = a.t
        n = self.nm('y')
        return N('({ %s %s = %s; %s; })' % (t.name, n, a.p(), n), t, a.v if not t.flo else a.v, False, True, pure=a.pure)

    # ------------------------------------------------------------ contexts
    def emit(self, body, txt, t, v, want=True):
        if t.flo:
            body.append('F(%s);' % txt)
            self.expect.append(fbits(v))
        else:
            body.append('O(%s);' % txt)
            self.expect.append(v & M64)

    def tcode(self, t):
        if t.flo:
            return 20 + t.size
        return {1: 'c', 2: 's', 4: 'i', 8: 'l'} and (t.size * 2 + (1 if t.signed else 0))

    def statement(self, body):
        s, ty, P = self.s, self.ty, self.P
        self.post = []
        e = self.expr(s.rng_(1, P['depth']))
        p = len(self.params)
        if s.p(P['ctx']):
            k = s.i(9)
        else:
            k = -1
        if k == 0:
            body.append('if (%s) O(1); else O(2);' % e.s)
            self.expect.append(1 if self.truth(e) else 2)
        elif k == 1:
            n = self.nm('k')
            body.append('{ int %s = 0; while (%s %s) { ++%s; if (%s >= 2) break; }' % (
                n, '%s < 3 &&' % n if not e.pure else '', e.p(), n, n)
                if e.pure else '{ int %s = 0; if (!(%s)) %s = 7;' % (n, e.s, n))
            body.append('O(%s); }' % n)
            if e.pure:
                self.expect.append(2 if self.truth(e) else 0)
            else:
                self.expect.append(0 if self.truth(e) else 7)
        elif k == 2:
            t = self.at()
            v = self.convert(e.v, e.t, t)
            if v is None:
                t, v = e.t, e.v
            if e.bits:
                v = self.convert(e.v, e.t, t)
            n = self.nm('w')
            body.append('{ %s %s = %s;' % (t.name, n, e.p()))
            self.emit(body, n, t, v)
            body.append('}')
        elif k == 3 and not e.t.flo:
            body.append(self.switch(e))
        elif k == 4:
            n = self.nm('k')
            body.append('{ int %s = 5; %s && (%s = 9); O(%s); }' % (n, e.p(), n, n))
            self.expect.append(9 if self.truth(e) else 5)
        elif k == 5 and not e.t.flo and not e.bits and not e.bl:
            if e.t.name != '_Bool':
                pt = e.t
                body.append('O(sizeof(%s) * 2 + ((__typeof__(%s))-1 < 0));' % (e.s, e.s))
                # unevaluated: side effects of e do not happen
                self.expect.append(pt.size * 2 + (1 if pt.signed else 0))
                self.post = []
                if s.i(2):
                    codes = {'char': 1, 'signed char': 2, 'unsigned char': 3, 'short': 4, 'unsigned short': 5, 'int': 6,
                             'unsigned int': 7, 'LONG': 8, 'unsigned LONG': 9, 'long long': 8, 'unsigned long long': 9}
                    if ty.long_.size == 4:
                        codes['LONG'] = 6
                        codes['unsigned LONG'] = 7
                    G = '_Generic(%s, %s)' % (e.p(), ', '.join('%s: %d' % kv for kv in codes.items()))
                    if e.lv is None and not e.t.rank < 3:
                        body.append('O(%s);' % G)
                        self.expect.append(codes.get(e.t.name, 10))
                        self.use('generic')
            else:
                body.append('O(%s);' % e.p())
                self.expect.append(e.v & M64)
        elif k == 6 and e.pure and not e.t.flo:
            f = self.nm('k')
            body.append('{ int %s; for (%s = 0; %s && %s < 3; %s++) ; O(%s); }' % (f, f, e.p(), f, f, f))
            self.expect.append(3 if self.truth(e) else 0)
        elif k == 7:
            n = self.nm('k')
            body.append('{ int %s = 0; do { if (++%s >= 3) break; } while (%s); O(%s); }' % (n, n, e.s, n)
                        if e.pure else '{ int %s = 4; if (%s) %s = 3; O(%s); }' % (n, e.s, n, n))
            if e.pure:
                self.expect.append(3 if self.truth(e) else 1)
            else:
                self.expect.append(3 if self.truth(e) else 4)
        elif k == 8:
            n = self.nm('k')
            body.append('{ int %s = %s ? 11 : 12; O(%s); }' % (n, e.p(), n))
            self.expect.append(11 if self.truth(e) else 12)
        else:
            self.emit(body, e.p(), e.t, e.v)
        for lv, t, v in self.post:
            self.emit(body, lv, t, v)

    def switch(self, e):
        s = self.s
        pt = self.promoted(e)
        vals = set()
        n = s.rng_(1, 7)
        dense = s.i(2)
        x = e.v
        for i in range(n):
            if dense:
                v = x + s.rng_(-4, 4)
            else:
                v = s.choice([self.ival(pt), x, x + (1 << 32), x ^ (1 << 31), -x, x + 256])
            v = wrap(v, pt)
            vals.add(v)
        vals = sorted(vals)
        if s.i(2):
            vals.reverse()
        out = ['switch (%s) {' % e.s]
        dflt = s.i(3)
        res = 99
        hit = False
        for i, v in enumerate(vals):
            if dflt == 1 and i == len(vals) // 2:
                out.append('default: O(77); break;')
            out.append('case %s: O(%d);%s' % (self.const_of(v, pt).s, i, ' break;'))
            if v == x:
                hit = True
                res = i
        if dflt == 2:
            out.append('default: O(78); break;')
        out.append('}')
        if hit:
            self.expect.append(res)
        elif dflt == 1:
            self.expect.append(77)
        elif dflt == 2:
            self.expect.append(78)
        self.use('switch')
        return ' '.join(out)

    def const_statement(self, body):
        """Constant expressions: evaluated by the compiler, in every place that needs one."""
        s, ty, P = self.s, self.ty, self.P
        sv = {k: P[k] for k in ('const', 'side', 'call', 'comma', 'stmtexpr', 'flo')}
        k = s.i(6)
        P.update(const=100, side=0, call=0, comma=0, stmtexpr=0, flo=0 if k in (1, 2, 3) else P['flo'])
        try:
            e = self.expr(s.rng_(1, P['depth']))
        finally:
            P.update(sv)
        if not e.const:
            return
        self.use('constexpr')
        if k == 0 or e.t.flo:
            t = self.at() if s.i(2) else e.t
            v = self.convert(e.v, e.t, t)
            if v is None:
                t, v = e.t, e.v
            n = self.nm('c')
            (self.glob if s.i(2) else self.loc).append('static %s %s = %s;' % (t.name, n, e.p()))
            self.emit(body, n, t, v)
        elif k == 1:
            v = wrap(e.v, ty.int_)
            n = self.nm('E')
            self.glob.append('enum { %s = (int)(%s), %sb };' % (n, e.s, n) if v != ty.int_.hi else 'enum { %s = (int)(%s) };' % (n, e.s))
            body.append('O(%s);' % n)
            self.expect.append(v & M64)
            if v != ty.int_.hi:
                body.append('O(%sb);' % n)
                self.expect.append((v + 1) & M64)
        elif k == 2:
            n = self.nm('A')
            v = (wrap(e.v, ty.ullong)) % 37 + 1
            (self.glob if s.i(2) else self.loc).append('static char %s[(unsigned long long)(%s) %% 37 + 1];' % (n, e.s))
            body.append('O(sizeof(%s));' % n)
            self.expect.append(v)
        elif k == 3:
            pt = self.promoted(e)
            x = self.store(pt, e.v, nobf=True)
            body.append('switch (%s) { case %s: O(5); break; default: O(6); }' % (x.s, e.s))
            self.expect.append(5)
        elif k == 4:
            n = self.nm('c')
            t = self.it()
            v = wrap(e.v, t)
            self.glob.append('%s %s[3] = {1, %s, 2};' % (t.name, n, e.p()))
            body.append('O(%s[1]);' % n)
            self.expect.append(v & M64)
        else:
            self.emit(body, e.p(), e.t, e.v)

    def function(self):
        s, P = self.s, self.P
        self.loc, self.params = [], []
        body = []
        for _ in range(s.rng_(*P['exprs'])):
            if P['constctx'] and s.p(P['constctx']):
                self.const_statement(body)
            else:
                self.statement(body)
        n = self.nm('t')
        txt = 'static void %s(%s) {\n  %s\n  %s\n}' % (
            n, ', '.join('%s %s' % (t, x) for t, x, _ in self.params) or 'void',
            '\n  '.join(self.loc), '\n  '.join(body))
        call = '%s(%s);' % (n, ', '.join(i for _, _, i in self.params))
        return txt, call

    def program(self, decl_write=None):
        s = self.s
        fs, calls = [], []
        for _ in range(s.rng_(*self.P['funcs'])):
            f, c = self.function()
            fs.append(f)
            calls.append(c)
        out = [RT_HEAD]
        out += self.structs
        out += self.glob
        out += list(self.helpers.values())
        out += fs
        out.append('int main(void) {\n  %s\n  flush_();\n  return 0;\n}' % '\n  '.join(calls))
        exp = ''.join('%x\n' % v for v in self.expect)
        return '\n'.join(out) + '\n', exp


RT_HEAD = r'''#ifndef LONG
#define LONG long
#endif
#include <unistd.h>
static char obuf_[65536]; static int olen_;
static void flush_(void) { if (olen_ > 0) write(1, obuf_, olen_); olen_ = 0; }
static void o_(unsigned long long v) {
  char t[20]; int n = 0;
  if (olen_ > 65000) flush_();
  do { t[n++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v != 0);
  while (n > 0) obuf_[olen_++] = t[--n];
  obuf_[olen_++] = '\n';
}
static void f_(double d) {
  union { double d; unsigned long long u; } x;
  if (d != d) { o_(0x7ff8000000000000ULL); return; }
  x.d = d;
  o_(x.u);
}
#define O(e) o_((unsigned long long)(e))
#define F(e) f_(e)
'''
