"""Generator of well-defined, deterministic C programs.

Everything it emits is free of undefined and unspecified behaviour by
construction: integer expressions carry a value interval, and an operation that
could overflow, divide by zero, over-shift or index out of bounds is rewritten
before it is emitted.  A variable with a side effect in a full expression occurs
nowhere else in it.  Every program prints its results as hexadecimal lines.
"""

M64 = (1 << 64) - 1


class T:
    """Integer type."""
    __slots__ = ('name', 'size', 'signed', 'rank', 'lo', 'hi', 'flo')

    def __init__(self, name, size, signed, rank, bits=None):
        self.name = name
        self.size = size
        self.signed = signed
        self.rank = rank
        self.flo = 0
        b = bits or size * 8
        if signed:
            self.lo, self.hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        else:
            self.lo, self.hi = 0, (1 << b) - 1

    def __repr__(self):
        return self.name


class F:
    """Floating type."""
    __slots__ = ('name', 'size', 'flo')

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.flo = 1

    def __repr__(self):
        return self.name


FLOAT = F('float', 4)
DOUBLE = F('double', 8)


class Types:
    def __init__(self, long_size=8):
        L = long_size
        self.bool_ = T('_Bool', 1, False, 0, 1)
        self.char = T('char', 1, True, 1)
        self.schar = T('signed char', 1, True, 1)
        self.uchar = T('unsigned char', 1, False, 1)
        self.short = T('short', 2, True, 2)
        self.ushort = T('unsigned short', 2, False, 2)
        self.int_ = T('int', 4, True, 3)
        self.uint = T('unsigned int', 4, False, 3)
        self.long_ = T('LONG', L, True, 4)
        self.ulong = T('unsigned LONG', L, False, 4)
        self.llong = T('long long', 8, True, 5)
        self.ullong = T('unsigned long long', 8, False, 5)
        self.ints = [self.int_, self.uint, self.char, self.uchar, self.short, self.ushort,
                     self.long_, self.ulong, self.llong, self.ullong, self.schar, self.bool_]
        self.unsigned_of = {self.int_: self.uint, self.long_: self.ulong, self.llong: self.ullong,
                            self.uint: self.uint, self.ulong: self.ulong, self.ullong: self.ullong}

    def promote(self, t):
        if t.rank < 3:
            return self.int_
        return t

    def usual(self, a, b):
        if a.flo or b.flo:
            if (a.flo and a.size == 8) or (b.flo and b.size == 8):
                return DOUBLE
            return FLOAT
        a, b = self.promote(a), self.promote(b)
        if a is b:
            return a
        if a.signed == b.signed:
            return a if a.rank > b.rank else b
        u, s = (a, b) if not a.signed else (b, a)
        if u.rank >= s.rank:
            return u
        if s.size > u.size:
            return s
        return self.unsigned_of[s]


class E:
    """Expression: text (fully parenthesised where needed), type, interval."""
    __slots__ = ('s', 't', 'lo', 'hi', 'const', 'cost')

    def __init__(self, s, t, lo=None, hi=None, const=False, cost=1):
        self.s = s
        self.t = t
        if t.flo:
            self.lo = lo
            self.hi = hi
        else:
            self.lo = t.lo if lo is None else lo
            self.hi = t.hi if hi is None else hi
        self.const = const
        self.cost = cost

    def __repr__(self):
        return self.s


class Struct:
    _n = 0

    def __init__(self, name, is_union=False):
        self.name = name
        self.is_union = is_union
        self.fields = []      # (fname, ftype, bits or None); ftype: T/F/Struct/Arr/Ptr
        self.flo = 0

    @property
    def cname(self):
        return ('union ' if self.is_union else 'struct ') + self.name

    def __repr__(self):
        return self.cname


class Arr:
    def __init__(self, elem, n):
        self.elem = elem
        self.n = n
        self.flo = 0


class Ptr:
    def __init__(self, to):
        self.to = to
        self.flo = 0


def decl(t, name):
    """C declarator of `name` with type t."""
    if isinstance(t, Arr):
        return decl(t.elem, '%s[%d]' % (name, t.n))
    if isinstance(t, Ptr):
        if isinstance(t.to, Arr):
            return decl(t.to, '(*%s)' % name)
        return decl(t.to, '*' + name)
    if isinstance(t, Struct):
        return '%s %s' % (t.cname, name)
    return '%s %s' % (t.name, name)


def tname(t):
    if isinstance(t, Struct):
        return t.cname
    if isinstance(t, Ptr):
        return decl(t, '').strip()
    return t.name


PRELUDE = r'''
#ifndef LONG
#define LONG long
#endif
typedef unsigned long long u64;
typedef long long i64;
@EXT@
static char obuf_[65536]; static int on_;
static void oflush_(void) { if (on_ > 0) OUTWRITE(obuf_, on_); on_ = 0; }
static void oc_(int c) { if (on_ >= 65000) oflush_(); obuf_[on_++] = (char)c; }
static void os_(const char *s) { while (*s) oc_(*s++); }
static void ox_(u64 v) { int i = 60; while (i > 0 && !((v >> i) & 15)) i -= 4; for (; i >= 0; i -= 4) oc_("0123456789abcdef"[(v >> i) & 15]); }
static void chk(const char *tag, u64 v) { os_(tag); oc_('='); ox_(v); oc_('\n'); }
@FLO@
'''

PRELUDE_FLO = r'''
static u64 dbits_(double d) { union { double d; u64 u; } x; x.d = d; if (d != d) return 0x7ff8000000000000ULL; return x.u; }
static u64 fbits_(float d) { union { float d; unsigned u; } x; x.d = d; if (d != d) return 0x7fc00000; return x.u; }
static i64 d2i_(double d) { return d > -9e18 && d < 9e18 ? (i64)d : 77; }
static double fcl_(double d, double lo, double hi) { return d > lo && d < hi ? d : lo; }
static float fclf_(float d, float lo, float hi) { return d > lo && d < hi ? d : lo; }
'''

EXT_UNISTD = '''#include <unistd.h>
#define OUTWRITE(p, n) write(1, p, n)
'''


class Prof:
    """Feature weights. 0 switches a feature off."""
    defaults = dict(
        depth=4, funcs=(1, 4), stmts=(3, 10), flo=20, structs=40, bitfields=40, unions=25,
        arrays=50, pointers=40, calls=35, structargs=30, varargs=20, fptr=15, goto=15, switch=30,
        loops=40, vla=0, stmtexpr=8, static_=15, volatile=10, globals_=(2, 6), params=(0, 6),
        compound=15, ternary=15, logic=15, comma=5, sideeff=20, intdiv=10, consts=25, long_size=8,
        bigswitch=10, nest=3, manylocals=0, generic=0, sizeof=5, anon=20, twod=25, enum_=10, casts=14,
        alloca=0, strlit=10, memberptr=1, ptr_in_struct=1, constexpr=8, floatcond=10, packed_consts=0,
        param_structs_float=1, inline_=12, impure=45, xb=30, doubleptr=12, ptrdiff=15, addr_local=30)

    def __init__(self, **kw):
        d = dict(self.defaults)
        d.update(kw)
        self.__dict__.update(d)


SPECIAL = [0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512,
           1000, 1023, 1024, 4095, 4096, 2047, 2048, 2049, 32767, 32768, 32769, 65535, 65536, 65537, 99999,
           (1 << 20) - 1, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1,
           (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 0x12345678, 0x9abcdef0, 0x0123456789abcdef,
           0xfedcba9876543210, (1 << 52) + 1, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 62), (1 << 63) - 1,
           1 << 63, (1 << 63) + 1, (1 << 64) - 1, (1 << 64) - 2, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555,
           0xff00ff00ff00ff00, 0x8000000000000001, 0xffffffff00000000, 0xffffffff80000000]


class Var:
    __slots__ = ('name', 't', 'lo', 'hi', 'ro', 'glob', 'addr', 'own')

    def __init__(self, name, t, lo=None, hi=None, ro=False, glob=False):
        self.name = name
        self.t = t
        self.lo = lo
        self.hi = hi
        self.ro = ro
        self.glob = glob
        self.addr = glob    # address taken, or reachable from elsewhere
        self.own = False    # pointer into an object of the current function


class Gen:
    def __init__(self, src, prof):
        self.s = src
        self.P = prof
        self.ty = Types(prof.long_size)
        self.uid = 0
        self.globals = []
        self.structs = []
        self.funcs = []       # dicts
        self.out = []
        self.scopes = []      # list of list of Var
        self.locked = set()
        self.readset = set()
        self.cur = None
        self.loopdepth = 0
        self.budget = 0
        self.helpers = []
        self.used = {}
        self.enums = []

    # ---- helpers
    def name(self, pfx):
        self.uid += 1
        return '%s%d' % (pfx, self.uid)

    def use(self, k):
        self.s.label(k)

    # ---- types
    def int_type(self):
        s = self.s
        if self.P.flo == 100:
            pass
        return s.weighted([(20, self.ty.int_), (14, self.ty.uint), (9, self.ty.char), (9, self.ty.uchar),
                           (8, self.ty.short), (8, self.ty.ushort), (9, self.ty.long_), (7, self.ty.ulong),
                           (9, self.ty.llong), (9, self.ty.ullong), (5, self.ty.schar), (4, self.ty.bool_)])

    def scalar_type(self):
        if self.P.flo and self.s.p(self.P.flo):
            return self.s.choice([DOUBLE, FLOAT])
        return self.int_type()

    def gen_struct(self):
        s = self.s
        un = bool(self.P.unions) and s.p(self.P.unions)
        st = Struct(self.name('U' if un else 'S'), un)
        n = s.rng_(1, 6)
        for i in range(n):
            fn = 'f%d' % i
            k = s.weighted([(60, 'scalar'),
                            (0 if un else self.P.bitfields, 'bit'),
                            (self.P.arrays // 4, 'arr'),
                            (20 if self.structs and not un else 0, 'struct'),
                            (12 if self.P.pointers and self.P.ptr_in_struct and not un else 0, 'ptr')])
            if k == 'scalar':
                if un:
                    st.fields.append((fn, self.int_type_union(), None))
                else:
                    st.fields.append((fn, self.scalar_type(), None))
            elif k == 'bit':
                bt = self.s.choice([self.ty.int_, self.ty.uint, self.ty.uchar, self.ty.char, self.ty.ushort,
                                    self.ty.short, self.ty.llong, self.ty.ullong, self.ty.bool_])
                if bt is self.ty.char:
                    bt = self.ty.schar
                w = s.rng_(1, 1 if bt is self.ty.bool_ else bt.size * 8)
                st.fields.append((fn, bt, w))
                if s.p(10):
                    st.fields.append(('', bt, 0 if s.p(50) else s.rng_(1, bt.size * 8 if bt is not self.ty.bool_ else 1)))
            elif k == 'arr':
                st.fields.append((fn, Arr(self.int_type_union() if un else self.scalar_type(), s.rng_(1, 5)), None))
            elif k == 'struct':
                inner = s.choice(self.structs)
                if un and _has_ptr(inner):
                    st.fields.append((fn, self.ty.int_, None))
                else:
                    st.fields.append((fn, inner, None))
            else:
                st.fields.append((fn, Ptr(self.int_type()), None))
        if not any(f[0] for f in st.fields):
            st.fields.append(('fz', self.ty.int_, None))
        self.structs.append(st)
        self.use('union' if un else 'struct')
        return st

    def int_type_union(self):
        # no _Bool in unions: other representations would be trap values
        while True:
            t = self.int_type()
            if t is not self.ty.bool_:
                return t
            return self.ty.int_

    def struct_def(self, st):
        body = ' '.join('%s%s;' % (decl(t, n), '' if b is None else ' : %d' % b) if n or b is not None
                        else '%s;' % decl(t, n) for n, t, b in st.fields)
        return '%s { %s };' % (st.cname, body)

    # ---- constants
    def lit(self, v, t):
        """A literal expression whose C type, after promotion, is t (or which is
        cast to t) and whose value is v."""
        ty = self.ty
        if t.rank < 3:
            if t is ty.bool_:
                return '(_Bool)%d' % v
            return '(%s)%s' % (t.name, '(%d)' % v if v < 0 else self.fmtnum(v, True))
        suf = {ty.int_: '', ty.uint: 'U', ty.long_: 'L', ty.ulong: 'UL', ty.llong: 'LL', ty.ullong: 'ULL'}[t]
        if t in (ty.long_, ty.ulong) and ty.long_.size == 4:
            # LONG is `int` in the reference build of a 32-bit-long target
            base = self.lit(v, ty.int_ if t.signed else ty.uint)
            return '(%s)%s' % (t.name, base)
        if v < 0:
            if v == t.lo:
                return '(-%d%s - 1)' % (t.hi, suf)
            return '(-%s%s)' % (self.fmtnum(-v, not suf), suf)
        return self.fmtnum(v, not suf) + suf

    def fmtnum(self, v, ch=False):
        k = self.s.i(4) if v < (1 << 31) else 1
        if k == 1 and v > 9:
            return '0x%x' % v
        if k == 2 and v > 9 and v < (1 << 30):
            return '0%o' % v
        if ch and k == 3 and 32 < v < 127 and chr(v) not in "'\\":
            return "'%s'" % chr(v)
        return str(v) if v < (1 << 63) else '0x%x' % v

    def const_val(self, t, lo=None, hi=None):
        s = self.s
        lo = t.lo if lo is None else lo
        hi = t.hi if hi is None else hi
        k = s.weighted([(30, 's'), (45, 'sp'), (15, 'r'), (10, 'edge')])
        if k == 's':
            v = s.rng_(0, 20)
            if s.p(40):
                v = -v
        elif k == 'sp':
            v = s.choice(SPECIAL)
            if s.p(40):
                v = -v
        elif k == 'edge':
            v = s.choice([t.lo, t.hi, t.hi - 1, t.lo + 1])
        else:
            v = (s.i(1 << 32) << 32) | s.i(1 << 32)
            v >>= s.i(64)
            if s.p(40):
                v = -v
        if v < lo or v > hi:
            span = hi - lo + 1
            v = lo + ((v - lo) % span)
        return v

    def const(self, t):
        v = self.const_val(t)
        return E(self.lit(v, t), t if t.rank >= 3 else t, v, v, const=True)

    def fconst(self, t):
        s = self.s
        k = s.weighted([(5, 0), (3, 1), (4, 2), (2, 3)])
        if k == 0:
            txt = '%d.%d' % (s.i(100), s.choice([0, 5, 25, 125, 75]))
        elif k == 1:
            txt = s.choice(['0.1', '1e10', '1.5e-5', '3.14159265358979', '0.0', '1.0', '2.0', '0x1p4', '123456789.0',
                            '.5', '7.', '1e3', '0.3333333333333333', '16777217.0', '9007199254740993.0'])
            if 'p' in txt:
                txt = '16.0'
        elif k == 2:
            txt = '%d.0' % s.i(1 << 20)
        else:
            txt = '%d.%de%d' % (s.i(10), s.i(1000), s.rng_(-20, 20))
        if s.p(30):
            txt = '-' + txt
        if t.size == 4:
            txt += 'f'
        return E('(%s)' % txt if txt[0] == '-' else txt, t)

    # ---- lvalues
    def visible(self):
        for sc in self.scopes:
            for v in sc:
                if v.name not in self.locked:
                    yield v
        for v in self.globals:
            if v.name not in self.locked:
                yield v

    def idx(self, n):
        """an index expression within [0, n)"""
        s = self.s
        if n == 1:
            return '0'
        k = s.weighted([(5, 'c'), (4, 'v'), (3, 'e')])
        if k == 'c' or self.xb <= 0 or self.inidx:
            return str(s.i(n))
        self.xb -= 1
        if k == 'v':
            vs = [v for v in self.visible() if isinstance(v.t, T) and v.lo is not None and v.lo >= 0 and v.hi < n]
            if vs:
                v = s.choice(vs)
                self.readset.add(v.name)
                return v.name
        self.inidx = True
        e = self.int_expr(1)
        self.inidx = False
        return self.mask(e, n)

    xb = 30
    inidx = False
    mult = 1
    fcost = 0
    impure = False

    def mask(self, e, n):
        """text of an expression with e's randomness and a value in [0, n)"""
        if e.lo >= 0 and e.hi < n:
            return e.s
        t = self.ty.promote(e.t)
        if n & (n - 1) == 0:
            return '(%s & %d)' % (e.s, n - 1)
        if e.lo >= 0:
            return '(%s %% %d)' % (e.s, n)
        return '((unsigned)%s %% %du)' % (e.s, n)

    def paths(self, name, t, ro=False, depth=0):
        """yield (thunk->text, scalar type, bits, ro) for all scalar leaves of an object"""
        if isinstance(t, (T, F)):
            yield (lambda: name), t, None
        elif isinstance(t, Arr):
            for th, lt, b in self.paths('@', t.elem, ro, depth + 1):
                yield (lambda th=th, t=t: th().replace('@', '%s[%s]' % (name, self.idx(t.n)), 1)), lt, b
        elif isinstance(t, Struct):
            for fn, ft, bits in t.fields:
                if not fn:
                    continue
                if bits is not None:
                    yield (lambda fn=fn: '%s.%s' % (name, fn)), ft, bits
                elif isinstance(ft, Ptr):
                    continue
                else:
                    for th, lt, b in self.paths('@', ft, ro, depth + 1):
                        yield (lambda th=th, fn=fn: th().replace('@', '%s.%s' % (name, fn), 1)), lt, b
        elif isinstance(t, Ptr) and isinstance(t.to, (T, F, Struct)):
            if isinstance(t.to, Struct):
                for th, lt, b in self.paths('@', t.to, ro, depth + 1):
                    yield (lambda th=th: th().replace('@.', name + '->', 1)), lt, b
            else:
                yield (lambda: '*' + name if not self.s.p(30) else name + '[0]'), t.to, None

    def leaf(self, want_flo=None, write=False, t=None):
        """pick a scalar lvalue among visible objects; returns (text, type, lo, hi) or None"""
        cands = []
        for v in self.visible():
            if write and (v.ro or (v.glob and not self.impure)):
                continue
            if write and isinstance(v.t, Ptr) and not (v.own or self.impure):
                continue
            if write and v.name in self.readset:
                continue
            cands.append(v)
        if not cands:
            return None
        for _ in range(4):
            v = self.s.choice(cands)
            ls = [x for x in self.paths(v.name, v.t)
                  if (want_flo is None or x[1].flo == want_flo) and (t is None or x[1] is t)]
            if not ls:
                continue
            th, lt, bits = self.s.choice(ls)
            txt = th()
            self.readset.add(v.name)
            if bits is not None:
                if lt is self.ty.bool_:
                    return txt, lt, 0, 1, v, bits
                if lt.signed:
                    return txt, lt, -(1 << (bits - 1)), (1 << (bits - 1)) - 1, v, bits
                return txt, lt, 0, (1 << bits) - 1, v, bits
            if isinstance(v.t, T):
                return txt, lt, v.lo, v.hi, v, None
            return txt, lt, None, None, v, None
        return None

    def promoted_bitfield(self, lt, bits):
        """C type of a bit-field value after integer promotion"""
        if lt is self.ty.bool_:
            return self.ty.int_
        if bits < 32 or (bits == 32 and lt.signed):
            return self.ty.int_
        if bits == 32:
            return self.ty.uint
        return lt

    # ---- integer expressions
    def int_leaf(self):
        s = self.s
        if s.p(self.P.consts):
            t = s.choice([self.ty.int_, self.ty.int_, self.ty.uint, self.ty.llong, self.ty.ullong, self.ty.long_,
                          self.ty.ulong, self.ty.uchar, self.ty.short])
            return self.const(t)
        if self.enums and s.p(self.P.enum_):
            n, v = s.choice(self.enums)
            return E(n, self.ty.int_, v, v, const=True)
        l = self.leaf(want_flo=0)
        if l is None:
            return self.const(self.ty.int_)
        txt, lt, lo, hi, v, bits = l
        if bits is not None:
            # the type of a wide bit-field expression is implementation-specific
            # when it exceeds int: pin it with a cast
            if lt.size == 8:
                return E('(%s)%s' % (lt.name, txt), lt, lo, hi)
            if bits == 32 and not lt.signed:
                return E('(%s)%s' % (lt.name, txt), lt, lo, hi)
            return E(txt, self.ty.int_, lo, hi)
        if txt[0] == '*':
            txt = '(%s)' % txt
        return E(txt, lt, lo, hi)

    def cast(self, e, t):
        if t is self.ty.bool_:
            if e.lo == e.hi:
                return E('(_Bool)%s' % self.par(e), t, int(e.lo != 0), int(e.lo != 0))
            return E('(_Bool)%s' % self.par(e), t, 0, 1)
        lo, hi = self.conv(e.lo, e.hi, t)
        return E('(%s)%s' % (t.name, self.par(e)), t, lo, hi, const=e.const)

    def conv(self, lo, hi, t):
        if lo >= t.lo and hi <= t.hi:
            return lo, hi
        if lo == hi:
            span = t.hi - t.lo + 1
            v = t.lo + ((lo - t.lo) % span)
            return v, v
        return t.lo, t.hi

    def par(self, e):
        t = e.s
        if t[0] == '(' and _balanced_outer(t):
            return t
        if all(c.isalnum() or c in '_.' for c in t):
            return t
        return '(%s)' % t

    def int_expr(self, d):
        s = self.s
        self.xb -= 1
        if self.xb < -8:
            return self.const(self.ty.int_)
        if d <= 0 or self.xb <= 0:
            return self.int_leaf()
        P = self.P
        k = s.weighted([(22, 'leaf'), (46, 'bin'), (P.intdiv, 'div'), (11, 'shift'), (12, 'cmp'), (P.logic, 'logic'),
                        (12, 'un'), (P.casts, 'cast'), (P.ternary, 'tern'), (P.comma, 'comma'),
                        (P.calls if self.callable() else 0, 'call'),
                        (P.flo // 4 if P.flo else 0, 'fcmp'), (P.flo // 6 if P.flo else 0, 'f2i'),
                        (P.sideeff // 2, 'side'), (P.stmtexpr, 'stmtexpr'), (P.sizeof, 'sizeof'),
                        (P.ptrdiff // 3 if P.pointers else 0, 'ptrdiff'), (P.strlit // 3, 'strlit')])
        return getattr(self, 'x_' + k)(d)

    def x_leaf(self, d):
        return self.int_leaf()

    def x_bin(self, d):
        s = self.s
        op = s.choice(['+', '-', '*', '&', '|', '^', '+', '-'])
        a = self.int_expr(d - 1)
        b = self.int_expr(d - 1) if not s.p(25) else self.const(s.choice([self.ty.int_, self.ty.uint, self.ty.llong]))
        if s.p(8):
            a, b = b, a
        return self.bin(op, a, b)

    def bin(self, op, a, b):
        ty = self.ty
        t = ty.usual(a.t, b.t)
        alo, ahi = self.conv(a.lo, a.hi, t)
        blo, bhi = self.conv(b.lo, b.hi, t)
        if op in '&|^':
            if op == '&' and alo >= 0 and blo >= 0:
                lo, hi = 0, min(ahi, bhi)
            elif op == '&' and blo >= 0:
                lo, hi = 0, bhi
            elif op == '&' and alo >= 0:
                lo, hi = 0, ahi
            elif alo >= 0 and blo >= 0:
                m = (1 << max(ahi.bit_length(), bhi.bit_length())) - 1
                lo, hi = 0, m
            else:
                lo, hi = t.lo, t.hi
            return E('(%s %s %s)' % (a.s, op, b.s), t, lo, min(hi, t.hi))
        if op == '+':
            lo, hi = alo + blo, ahi + bhi
        elif op == '-':
            lo, hi = alo - bhi, ahi - blo
        else:
            c = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
            lo, hi = min(c), max(c)
        if lo >= t.lo and hi <= t.hi:
            return E('(%s %s %s)' % (a.s, op, b.s), t, lo, hi)
        if not t.signed:
            return E('(%s %s %s)' % (a.s, op, b.s), t)
        # signed overflow possible: rewrite
        if self.s.p(55):
            u = ty.unsigned_of[t]
            if self.s.p(50):
                return E('((%s)%s %s %s)' % (u.name, self.par(a), op, b.s), u)
            return E('(%s)((%s)%s %s (%s)%s)' % (t.name, u.name, self.par(a), op, u.name, self.par(b)), t)
        # make the operands small
        bits = t.size * 8
        w = bits // 2 - 2 if op == '*' else bits - 3
        a2 = self.narrow(a, t, w)
        b2 = self.narrow(b, t, w)
        return self.bin(op, a2, b2)

    def narrow(self, e, t, w):
        lim = 1 << w
        if e.lo > -lim and e.hi < lim:
            return e
        k = self.s.i(3)
        if k == 0 or e.t.size * 8 <= w + 1:
            m = (1 << w) - 1
            lit = str(m) if m < (1 << 31) else '0x%xLL' % m
            mt = self.ty.usual(e.t, self.ty.int_ if m < (1 << 31) else self.ty.llong)
            # result could be a wider type than t; fine for the caller (recomputed)
            return E('(%s & %s)' % (e.s, lit), mt, 0, m)
        if k == 1:
            m = (1 << w) - 1 - self.s.i(1000)
            lit = str(m) if m < (1 << 31) else '%dLL' % m
            tt = self.ty.usual(e.t, self.ty.int_ if m < (1 << 31) else self.ty.llong)
            if tt.signed or e.lo >= 0:
                lo = -(m - 1) if e.lo < 0 else 0
                return E('(%s %% %s)' % (e.s, lit), tt, lo, m - 1)
            return E('(%s %% %s)' % (e.s, lit), tt, 0, m - 1)
        st = self.s.choice([self.ty.char, self.ty.uchar, self.ty.short, self.ty.ushort])
        if st.size * 8 > w:
            st = self.ty.char
        return self.cast(e, st)

    def x_div(self, d):
        s = self.s
        op = s.choice(['/', '%'])
        a = self.int_expr(d - 1)
        if s.p(45):
            t = s.choice([self.ty.int_, self.ty.int_, self.ty.uint, self.ty.llong, self.ty.ullong])
            v = 0
            while v == 0 or v == -1:
                v = self.const_val(t)
                if v in (0, -1):
                    v = 3
            b = E(self.lit(v, t), t, v, v, const=True)
        else:
            b = self.int_expr(d - 1)
        ty = self.ty
        t = ty.usual(a.t, b.t)
        blo, bhi = self.conv(b.lo, b.hi, t)
        if blo <= 0 <= bhi:
            k = s.i(2)
            if k == 0 or not t.signed:
                b = E('(%s | 1)' % b.s, ty.usual(b.t, ty.int_), b.lo if b.lo >= 0 else None, None)
                if b.lo == 0:
                    b.lo = 1
                elif b.lo is None:
                    b.lo = b.t.lo
            else:
                b = E('((%s & 0x7f) + 1)' % b.s, ty.usual(b.t, ty.int_), 1, 128)
            t = ty.usual(a.t, b.t)
            blo, bhi = self.conv(b.lo, b.hi, t)
        alo, ahi = self.conv(a.lo, a.hi, t)
        if t.signed and alo == t.lo and blo <= -1 <= bhi:
            a = self.narrow(a, t, t.size * 8 - 2)
            t2 = ty.usual(a.t, b.t)
            alo, ahi = self.conv(a.lo, a.hi, t2)
            if t2.signed and alo == t2.lo:
                return a
            t = t2
        if op == '/':
            m = max(abs(alo), abs(ahi))
            lo = -m if (alo < 0 or (t.signed and blo < 0)) else 0
            return E('(%s / %s)' % (a.s, b.s), t, max(lo, t.lo), min(m, t.hi))
        m = max(abs(self.conv(b.lo, b.hi, t)[0]), abs(self.conv(b.lo, b.hi, t)[1])) - 1
        m = min(m, max(abs(alo), abs(ahi)))
        return E('(%s %% %s)' % (a.s, b.s), t, -m if alo < 0 else 0, m)

    def x_shift(self, d):
        s = self.s
        op = s.choice(['<<', '>>'])
        a = self.int_expr(d - 1)
        t = self.ty.promote(a.t)
        bits = t.size * 8
        if s.p(60):
            n = s.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 30, 31, 32, 33, 48, 63, s.i(64)]) % bits
            cnt, clo, chi = str(n), n, n
        else:
            b = self.int_expr(d - 1)
            cnt = '(%s & %d)' % (b.s, bits - 1)
            clo, chi = 0, bits - 1
        if op == '<<':
            if t.signed:
                if a.lo < 0 or (a.hi << chi) > t.hi:
                    u = self.ty.unsigned_of[t]
                    return E('((%s)%s << %s)' % (u.name, self.par(a), cnt), u)
                return E('(%s << %s)' % (a.s, cnt), t, a.lo << clo, a.hi << chi)
            return E('(%s << %s)' % (a.s, cnt), t)
        lo = a.lo >> (chi if a.lo >= 0 else clo)
        hi = a.hi >> (clo if a.hi >= 0 else chi)
        return E('(%s >> %s)' % (a.s, cnt), t, lo, hi)

    def x_cmp(self, d):
        s = self.s
        op = s.choice(['==', '!=', '<', '>', '<=', '>='])
        a = self.int_expr(d - 1)
        if s.p(35):
            b = self.const(s.choice([a.t if a.t.rank >= 3 else self.ty.int_, self.ty.int_, self.ty.uint]))
        else:
            b = self.int_expr(d - 1)
        if s.p(10):
            a, b = b, a
        return E('(%s %s %s)' % (a.s, op, b.s), self.ty.int_, 0, 1)

    def cond(self, d):
        """text of a condition"""
        s = self.s
        k = s.weighted([(50, 'cmp'), (20, 'logic'), (20, 'e'), (8, 'not'), (self.P.floatcond if self.P.flo else 0, 'f'),
                        (2, 'const')])
        if k == 'cmp':
            t = self.x_cmp(d).s
            return t[1:-1]
        if k == 'logic':
            return self.x_logic(d).s[1:-1]
        if k == 'f':
            return self.x_fcmp(d).s
        if k == 'not':
            return '!%s' % self.par(self.int_expr(d - 1))
        if k == 'const':
            return s.choice(['1', '0', '1 == 2', '-1'])
        return self.int_expr(d).s

    def x_logic(self, d):
        s = self.s
        k = s.choice(['&&', '||', '!'])
        a = self.int_expr(d - 1)
        if k == '!':
            return E('(!%s)' % self.par(a), self.ty.int_, 0, 1)
        b = self.int_expr(d - 1) if not s.p(35) else self.x_cmp(d - 1)
        return E('(%s %s %s)' % (a.s, k, b.s), self.ty.int_, 0, 1)

    def x_un(self, d):
        s = self.s
        op = s.choice(['-', '~', '+'])
        a = self.int_expr(d - 1)
        t = self.ty.promote(a.t)
        if op == '-':
            if t.signed and a.lo == t.lo:
                u = self.ty.unsigned_of[t]
                return E('(-(%s)%s)' % (u.name, self.par(a)), u)
            if t.signed:
                return E('(-%s)' % self.par(a), t, -a.hi, -a.lo)
            return E('(-%s)' % self.par(a), t)
        if op == '~':
            if t.signed:
                return E('(~%s)' % self.par(a), t, ~a.hi, ~a.lo)
            return E('(~%s)' % self.par(a), t)
        return E('(+%s)' % self.par(a), t, a.lo, a.hi)

    def x_cast(self, d):
        e = self.cast(self.int_expr(d - 1), self.int_type())
        e.s = '(%s)' % e.s
        return e

    def x_tern(self, d):
        c = self.cond(d - 1)
        a = self.int_expr(d - 1)
        b = self.int_expr(d - 1)
        t = self.ty.usual(a.t, b.t)
        alo, ahi = self.conv(a.lo, a.hi, t)
        blo, bhi = self.conv(b.lo, b.hi, t)
        return E('(%s ? %s : %s)' % (c, a.s, b.s), t, min(alo, blo), max(ahi, bhi))

    def x_comma(self, d):
        a = self.int_expr(d - 2)
        b = self.int_expr(d - 1)
        return E('((void)%s, %s)' % (self.par(a), b.s), b.t, b.lo, b.hi)

    def x_fcmp(self, d):
        op = self.s.choice(['==', '!=', '<', '>', '<=', '>='])
        a, b = self.flo_expr(d - 1), self.flo_expr(d - 1)
        return E('(%s %s %s)' % (a.s, op, b.s), self.ty.int_, 0, 1)

    def x_f2i(self, d):
        e = self.flo_expr(d - 1)
        if self.s.p(40):
            return E('d2i_(%s)' % e.s, self.ty.llong)
        t = self.int_type()
        if t is self.ty.bool_:
            return E('(_Bool)(%s)' % e.s, t)
        # every value in [lo, hi] is representable after truncation
        lo, hi = {1: (-127, 127), 2: (-32767, 32767), 4: (-2147483000, 2147483000),
                  8: (-9200000000000000000, 9200000000000000000)}[t.size]
        if not t.signed:
            lo, hi = 0, hi * 2
        fn = 'fclf_' if (e.t.size == 4 and t.size != 4) else 'fcl_'
        sfx = 'f' if fn == 'fclf_' else ''
        return E('((%s)%s(%s, %d.0%s, %d.0%s))' % (t.name, fn, e.s, lo, sfx, hi, sfx), t, lo if t.size < 8 or not t.signed else None, hi if t.size < 8 else None)

    def x_sizeof(self, d):
        t = self.int_type()
        if t is self.ty.bool_:
            t = self.ty.int_     # sizeof(_Bool) is implementation-defined
        n = self.s.rng_(1, 9)
        return E(self.s.choice(['(int)sizeof(%s)' % t.name, '(int)sizeof(%s[%d])' % (t.name, n)]), self.ty.int_, 0, 80) \
            if self.P.long_size == 8 else E('(int)sizeof(%s)' % t.name, self.ty.int_, 0, 80)

    def x_strlit(self, d):
        s = self.s
        txt = ''.join(s.choice(['a', 'b', 'z', '0', ' ', '\\n', '\\t', '\\0', '\\x41" "', '\\101', '\\\\', '~', '\\"', '%', '?', '\\xff" "', '\\377'])
                      for _ in range(s.rng_(1, 6)))
        n = 4
        self.use('strlit')
        return E('("%s" "____")[%s]' % (txt, self.idx(n)), self.ty.char)

    def x_ptrdiff(self, d):
        vs = [v for v in self.visible() if isinstance(v.t, Arr) and isinstance(v.t.elem, (T, F, Struct))]
        if not vs:
            return self.int_leaf()
        v = self.s.choice(vs)
        self.use('ptrdiff')
        n = v.t.n
        a, b = self.idx(n), self.idx(n)
        if self.s.p(50):
            return E('(int)(&%s[%s] - &%s[%s])' % (v.name, a, v.name, b), self.ty.int_, -n, n)
        op = self.s.choice(['<', '>', '==', '!=', '<=', '>='])
        return E('(&%s[%s] %s &%s[%s])' % (v.name, a, op, v.name, b), self.ty.int_, 0, 1)

    def x_side(self, d):
        """an expression with a side effect on a variable not used elsewhere in
        the full expression"""
        s = self.s
        cands = [v for v in self.visible() if isinstance(v.t, T) and not v.ro and not v.glob and not v.addr
                 and v.name not in self.readset]
        if not cands or self.nolock:
            return self.int_leaf()
        v = s.choice(cands)
        self.locked.add(v.name)
        self.use('side-effect')
        t = v.t
        k = s.weighted([(40, 'inc'), (30, 'asg'), (30, 'casg')])
        if k == 'inc' and (not t.signed or t.rank < 3) and t is not self.ty.bool_:
            op = s.choice(['++', '--'])
            return E('(%s)' % (v.name + op if s.p(50) else op + v.name), t)
        if k == 'casg':
            txt = self.casg_text(v.name, t, None, d - 1)
            return E('(%s)' % txt, t)
        e = self.int_expr(d - 1)
        return E('(%s = %s)' % (v.name, e.s), t)

    nolock = False

    def x_stmtexpr(self, d):
        # only a simple form: ({ T x = e; x op= ...; x; })
        t = self.int_type()
        n = self.name('q')
        if self.cur is None:
            return self.int_leaf()
        e = self.int_expr(d - 1)
        self.use('stmtexpr')
        self.scopes.append([Var(n, t)])
        save = self.nolock
        self.nolock = True
        body = self.casg_text(n, t, None, d - 2)
        self.nolock = save
        self.scopes.pop()
        return E('({ %s = %s; %s; %s; })' % (decl(t, n), e.s, body, n), t)

    def casg_text(self, lv, t, bits, d):
        """a defined compound assignment to lvalue text lv of integer type t"""
        s = self.s
        ty = self.ty
        lo, hi = t.lo, t.hi
        if bits is not None:
            if t is ty.bool_:
                lo, hi = 0, 1
            elif t.signed:
                lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
            else:
                lo, hi = 0, (1 << bits) - 1
        pt = ty.promote(t) if bits is None else self.promoted_bitfield(t, bits)
        op = s.choice(['+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '/=', '%='])
        if op in ('<<=', '>>='):
            nb = pt.size * 8
            if bits is not None and pt.size == 8:
                nb = 32          # gcc gives wide bit-fields a narrower type
            if op == '<<=' and pt.signed:
                # value might be negative or overflow
                op = '>>='
            if s.p(60):
                return '%s %s %d' % (lv, op, s.i(nb))
            return '%s %s (%s & %d)' % (lv, op, self.int_expr(d).s, nb - 1)
        if op in ('/=', '%='):
            if s.p(60):
                v = s.choice([2, 3, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 4096, 65536, 123456789])
                return '%s %s %d' % (lv, op, v)
            return '%s %s ((%s & 0x3f) + 1)' % (lv, op, self.int_expr(d).s)
        e = self.int_expr(d)
        if op in ('&=', '|=', '^='):
            return '%s %s %s' % (lv, op, e.s)
        ct = ty.usual(pt, e.t)
        elo, ehi = self.conv(e.lo, e.hi, ct)
        l2, h2 = self.conv(lo, hi, ct)
        if op == '+=':
            r = (l2 + elo, h2 + ehi)
        elif op == '-=':
            r = (l2 - ehi, h2 - elo)
        else:
            c = [l2 * elo, l2 * ehi, h2 * elo, h2 * ehi]
            r = (min(c), max(c))
        if ct.signed and (r[0] < ct.lo or r[1] > ct.hi):
            if pt.rank < 4 and pt.size < 8 and s.p(50):
                ex = self.narrow(e, ty.int_, 30)
                return '%s %s (long long)%s' % (lv, op, self.par(ex))
            return '%s %s (unsigned long long)%s' % (lv, op, self.par(e))
        return '%s %s %s' % (lv, op, e.s)

    # ---- floating expressions
    def flo_leaf(self):
        s = self.s
        if s.p(30):
            return self.fconst(s.choice([DOUBLE, FLOAT]))
        l = self.leaf(want_flo=1)
        if l is None:
            return self.fconst(s.choice([DOUBLE, FLOAT]))
        txt = l[0]
        if txt[0] == '*':
            txt = '(%s)' % txt
        return E(txt, l[1])

    def flo_expr(self, d):
        s = self.s
        self.xb -= 1
        if d <= 0 or self.xb <= 0:
            return self.flo_leaf()
        k = s.weighted([(25, 'leaf'), (40, 'bin'), (10, 'neg'), (10, 'cast'), (12, 'i2f'), (8, 'tern'), (8, 'mixed'),
                        (8 if self.callable(1) else 0, 'call')])
        if k == 'leaf':
            return self.flo_leaf()
        if k == 'bin':
            op = s.choice(['+', '-', '*', '/'])
            a, b = self.flo_expr(d - 1), self.flo_expr(d - 1)
            return E('(%s %s %s)' % (a.s, op, b.s), self.ty.usual(a.t, b.t))
        if k == 'neg':
            a = self.flo_expr(d - 1)
            return E('(-%s)' % self.par(a), a.t)
        if k == 'cast':
            t = s.choice([DOUBLE, FLOAT])
            return E('((%s)%s)' % (t.name, self.par(self.flo_expr(d - 1))), t)
        if k == 'i2f':
            t = s.choice([DOUBLE, FLOAT])
            a = self.int_expr(d - 1)
            return E('((%s)%s)' % (t.name, self.par(a)), t)
        if k == 'tern':
            c = self.cond(d - 1)
            a, b = self.flo_expr(d - 1), self.flo_expr(d - 1)
            return E('(%s ? %s : %s)' % (c, a.s, b.s), self.ty.usual(a.t, b.t))
        if k == 'call':
            return self.call(self.s.choice(self.callable(1)), d)
        op = s.choice(['+', '-', '*', '/'])
        a, b = self.flo_expr(d - 1), self.int_expr(d - 1)
        if s.p(50):
            return E('(%s %s %s)' % (a.s, op, b.s), a.t)
        return E('(%s %s %s)' % (b.s, op, a.s), a.t)

    def expr_for(self, t, d):
        if t.flo:
            if self.s.p(15):
                return self.int_expr(d).s
            return self.flo_expr(d).s
        if self.P.flo and self.s.p(4):
            return 'd2i_(%s)' % self.flo_expr(d - 1).s
        return self.int_expr(d).s

    # ---- calls
    def callable(self, flo=0):
        return [f for f in self.funcs if f['ret'] is not None and not isinstance(f['ret'], Struct) and f['ret'].flo == flo
                and not f['impure'] and self.mult * f['cost'] < 20000 and not self.inidx]

    def stmt_callable(self, ret=False):
        return [f for f in self.funcs if (ret is False or f['ret'] is ret) and self.mult * f['cost'] < 20000
                and (self.impure or not f['impure'])]

    def x_call(self, d):
        fs = self.callable(0)
        if not fs:
            return self.int_leaf()
        return self.call(self.s.choice(fs), d)

    def call(self, f, d):
        txt = self.call_text(f, d)
        self.use('call')
        r = f['ret']
        return E(txt, r) if not r.flo else E(txt, r)

    def call_text(self, f, d):
        args = []
        self.fcost += self.mult * f['cost']
        save = self.nolock
        for p in f['params']:
            args.append(self.arg(p, d - 1))
        for v in f.get('vargs', ()):
            args.append(self.arg(v, d - 1, va=True))
        self.nolock = save
        nm = f['name']
        if f.get('ptr') and self.s.p(50):
            nm = f['ptr']
            self.use('fptr-call')
        return '%s(%s)' % (nm, ', '.join(args))

    def arg(self, t, d, va=False):
        if isinstance(t, Struct):
            vs = [v for v in self.visible() if v.t is t]
            if vs:
                v = self.s.choice(vs)
                self.readset.add(v.name)
                return v.name
            return '(%s){%s}' % (t.cname, self.init_list(t))
        if isinstance(t, Ptr):
            return self.ptr_value(t)
        e = self.expr_for(t, min(d, 2))
        if va:
            return '(%s)%s' % (t.name, self.par(E(e, self.ty.int_)))
        return e

    def ptr_value(self, t, own=False):
        """an rvalue pointer to a live object of type t.to (never null).  With
        own, only to an object of the current function, or None"""
        cands = []
        for v in self.visible():
            if isinstance(v.t, Ptr):
                if v.t.to is t.to and (v.own or not own):
                    cands.append((v, v.name))
                continue
            if own and v.glob or v.ro:
                continue
            if v.t is t.to:
                cands.append((v, '&' + v.name))
            elif isinstance(v.t, Arr) and v.t.elem is t.to:
                cands.append((v, None))
            elif isinstance(v.t, Struct):
                for fn, ft, b in v.t.fields:
                    if fn and b is None and ft is t.to and not v.t.is_union:
                        cands.append((v, '&%s.%s' % (v.name, fn)))
        if not own:
            cands.append((None, '&' + self.cell(t.to)))
        if not cands:
            return None
        v, c = self.s.choice(cands)
        if v is not None:
            v.addr = True
            self.readset.add(v.name)
        if c is None:
            i = self.idx(v.t.n)
            return self.s.choice(['&%s[%s]' % (v.name, i), '(%s + %s)' % (v.name, i)])
        return c

    def cell(self, t):
        """name of a global cell of type t that pointers can always target"""
        k = ('cell', id(t))
        if k not in self.used:
            n = self.name('cell')
            self.used[k] = n
            self.predecl.append('%s;' % decl(t, n))
            self.cells.append((n, t))
        return self.used[k]

    # ---- initialisers
    def init(self, t, const=True):
        s = self.s
        if isinstance(t, (Arr, Struct)):
            return '{%s}' % self.init_list(t, const)
        if isinstance(t, Ptr):
            return '&' + self.cell(t.to)
        if t.flo:
            return self.fconst(t).s
        v = self.const_val(t)
        return self.lit(v, t)

    def init_list(self, t, const=True):
        s = self.s
        if isinstance(t, Arr):
            n = t.n if s.p(70) else s.rng_(1, t.n)
            if s.p(15):
                order = sorted(set(s.i(t.n) for _ in range(n)))
                return ', '.join('[%d] = %s' % (i, self.init(t.elem)) for i in order)
            return ', '.join(self.init(t.elem) for _ in range(n))
        fs = [f for f in t.fields if f[0]]
        if t.is_union:
            # the largest member, wholly: every byte of the union is then defined
            f = max(fs, key=lambda f: _size(f[1]))
            if isinstance(f[1], Arr):
                val = '{%s}' % ', '.join(self.init(f[1].elem) for _ in range(f[1].n))
            else:
                val = self.field_init(f)
            return val if f is fs[0] and s.p(50) else '.%s = %s' % (f[0], val)
        if s.p(30):
            out = []
            for f in fs:
                if s.p(70):
                    out.append('.%s = %s' % (f[0], self.field_init(f)))
            if out:
                return ', '.join(out)
        n = len(fs) if s.p(80) else s.rng_(1, len(fs))
        return ', '.join(self.field_init(f) for f in fs[:n])

    def field_init(self, f):
        fn, t, bits = f
        if bits is not None:
            if t is self.ty.bool_:
                return str(self.s.i(2))
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t.signed else (0, (1 << bits) - 1)
            v = self.const_val(t, lo, hi)
            return self.lit(v, t if t.rank >= 3 else self.ty.int_)
        return self.init(t)

    # ---- statements
    def new_local(self, t=None, force=None):
        s = self.s
        P = self.P
        ind = self.ind()
        k = force or s.weighted([(60, 'scalar'), (P.arrays // 3, 'arr'), (P.structs // 3 if self.structs else 0, 'struct'),
                                 (P.pointers // 3, 'ptr'), (P.vla // 3, 'vla')])
        n = self.name('v')
        pre = ''
        if k == 'scalar':
            t = t or self.scalar_type()
            if P.static_ and s.p(P.static_ // 2):
                # a static local: persistent across calls, so its value is
                # unsequenced w.r.t. other calls: write-only accumulator-free use
                pre = ''
            if s.p(P.volatile):
                pre = 'volatile '
                self.use('volatile')
            elif s.p(4):
                pre = 'register '
            v = Var(n, t)
            txt = '%s%s = %s;' % (pre, decl(t, n), self.expr_for(t, P.depth - 1))
            self.scopes[-1].append(v)
            return [ind + txt]
        if k == 'arr':
            self.use('array')
            et = self.scalar_type() if not (self.structs and s.p(20)) else s.choice(self.structs)
            if isinstance(et, (T, F)) and s.p(P.twod):
                t = Arr(Arr(et, s.rng_(1, 4)), s.rng_(1, 4))
            else:
                t = Arr(et, s.rng_(1, 8))
            self.scopes[-1].append(Var(n, t))
            return [ind + '%s = %s;' % (decl(t, n), self.init(t))]
        if k == 'struct':
            t = s.choice(self.structs)
            fs = self.stmt_callable(t)
            vs = [v.name for v in self.visible() if v.t is t]
            self.use('struct-local')
            r = s.i(4)
            if r == 1 and vs:
                txt = '%s = %s;' % (decl(t, n), s.choice(vs))
            elif r == 2 and fs:
                txt = '%s = %s;' % (decl(t, n), self.call_text(s.choice(fs), 2))
            else:
                txt = '%s = %s;' % (decl(t, n), self.init(t))
            self.scopes[-1].append(Var(n, t))
            return [ind + txt]
        if k == 'vla':
            self.use('vla')
            et = self.int_type()
            m = self.name('n')
            ln = s.rng_(1, 9)
            i = self.name('k')
            out = [ind + 'int %s = %d;' % (m, ln), ind + '%s %s[%s];' % (et.name, n, m),
                   ind + 'for (int %s = 0; %s < %s; ++%s) %s[%s] = (%s)(%s * %d);' % (i, i, m, i, n, i, et.name, i, s.rng_(1, 99))]
            self.scopes[-1].append(Var(n, Arr(et, ln)))
            return out
        self.use('pointer')
        to = self.scalar_type() if not (self.structs and s.p(30)) else s.choice(self.structs)
        t = Ptr(to)
        init = self.ptr_value(t, True)
        nv = Var(n, t)
        nv.own = init is not None
        if init is None:
            init = self.ptr_value(t)
        self.scopes[-1].append(nv)
        return [ind + '%s = %s;' % (decl(t, n), init)]

    def ind(self):
        return '  ' * len(self.scopes)

    def block(self, n, braces=True):
        self.scopes.append([])
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            out += self.stmt()
        self.scopes.pop()
        return out

    def full(self):
        self.locked = set()
        self.readset = set()
        self.xb = self.P.xb
        self.nolock = False
        self.fcost += self.mult

    def stmt(self):
        s = self.s
        P = self.P
        self.full()
        deep = len(self.scopes) > P.nest + 1
        k = s.weighted([(26, 'assign'), (22, 'local'), (P.compound, 'casg'), (12, 'incdec'),
                        (0 if deep else 22, 'if'), (0 if deep or self.loopdepth >= 3 else P.loops // 2, 'loop'),
                        (0 if deep else P.switch // 2, 'switch'), (8, 'acc'),
                        (P.structs // 4 if self.structs else 0, 'sassign'),
                        (P.calls // 3 if self.stmt_callable() else 0, 'callstmt'),
                        (P.goto // 3 if not deep else 0, 'goto'), (3 if not deep else 0, 'block'),
                        (4 if self.loopdepth and self.inloop else 0, 'brk'),
                        (P.pointers // 6, 'padv')])
        r = getattr(self, 's_' + k)()
        self.locked = set()
        self.readset = set()
        return r

    def s_local(self):
        return self.new_local()

    def s_assign(self):
        flo = 1 if self.P.flo and self.s.p(self.P.flo) else 0
        l = self.leaf(want_flo=flo, write=True) or self.leaf(write=True)
        if l is None:
            return self.new_local(force='scalar')
        self.locked.add(l[4].name)
        txt, t = l[0], l[1]
        self.fixrange(l[4])
        return [self.ind() + '%s = %s;' % (txt, self.expr_for(t, self.P.depth))]

    def fixrange(self, v):
        pass

    def s_casg(self):
        flo = 1 if self.P.flo and self.s.p(self.P.flo // 2) else 0
        l = self.leaf(want_flo=flo, write=True)
        if l is None:
            return self.s_assign()
        self.locked.add(l[4].name)
        txt, t, bits = l[0], l[1], l[5]
        if t.flo:
            op = self.s.choice(['+=', '-=', '*=', '/='])
            return [self.ind() + '%s %s %s;' % (txt, op, self.expr_for(t, self.P.depth - 1))]
        return [self.ind() + self.casg_text(txt, t, bits, self.P.depth - 1) + ';']

    def s_incdec(self):
        l = self.leaf(want_flo=1 if self.P.flo and self.s.p(8) else 0, write=True)
        if l is None:
            return self.s_assign()
        txt, t, bits = l[0], l[1], l[5]
        op = self.s.choice(['++', '--'])
        if txt[0] == '*':
            txt = '(%s)' % txt
        if not t.flo:
            pt = self.ty.promote(t) if bits is None else self.promoted_bitfield(t, bits)
            lo, hi = (t.lo, t.hi) if bits is None else (0, 0)
            if t is self.ty.bool_:
                return [self.ind() + '%s = !%s;' % (txt, txt)] if self.side_free(txt) else []
            if bits is None and t.signed and t.rank >= 3 or (bits is not None and t.signed and bits >= 32):
                # could overflow: guard through a defined form
                if not self.side_free(txt):
                    return []
                lim = t.hi if bits is None else (1 << (bits - 1)) - 1
                if op == '++':
                    return [self.ind() + 'if (%s < %d) %s;' % (txt, min(lim, 1000), txt + op)]
                return [self.ind() + 'if (%s > -%d) %s;' % (txt, 1000, op + txt)]
        return [self.ind() + (txt + op if self.s.p(50) else op + txt) + ';']

    def side_free(self, txt):
        return '++' not in txt and '--' not in txt and '=' not in txt.replace('==', '').replace('<=', '').replace('>=', '').replace('!=', '') and '({' not in txt and 'fn' not in txt

    def s_acc(self):
        if self.P.flo and self.s.p(self.P.flo // 2):
            return [self.ind() + 'acc = acc * 31 + dbits_(%s);' % self.flo_expr(self.P.depth).s]
        e = self.int_expr(self.P.depth)
        return [self.ind() + 'acc = acc * 31 + (u64)%s;' % self.par(e)]

    def s_if(self):
        s = self.s
        self.use('if')
        c = self.cond(self.P.depth - 1)
        ind = self.ind()
        out = [ind + 'if (%s) {' % c] + self.block(s.rng_(1, 4))
        n = 0
        while n < 3 and s.p(25):
            self.full()
            c = self.cond(2)
            out += [ind + '} else if (%s) {' % c] + self.block(s.rng_(1, 3))
            n += 1
        if s.p(45):
            out += [ind + '} else {'] + self.block(s.rng_(1, 4))
        return out + [ind + '}']

    inloop = False

    def s_loop(self):
        s = self.s
        ind = self.ind()
        n = s.rng_(1, 6)
        i = self.name('i')
        k = s.weighted([(50, 'for'), (25, 'while'), (20, 'do'), (10, 'fordown'), (6, 'forever')])
        self.use('loop-' + k)
        self.loopdepth += 1
        self.mult *= n
        save = self.inloop
        self.inloop = True
        it = s.choice([self.ty.int_, self.ty.int_, self.ty.uint, self.ty.char, self.ty.uchar, self.ty.short, self.ty.llong,
                       self.ty.ullong, self.ty.ushort])
        self.scopes.append([Var(i, it, 0, n, ro=True)])
        if k == 'for':
            st = s.choice(['++%s', '%s++', '%s += 1', '%s = %s + 1'])
            st = st.replace('%s', i)
            body = self.block(s.rng_(1, 5))
            out = [ind + 'for (%s %s = 0; %s < %d; %s) {' % (it.name, i, i, n, st)] + body + [ind + '}']
        elif k == 'fordown':
            body = self.block(s.rng_(1, 5))
            out = [ind + 'for (%s %s = %d; %s > 0; --%s) {' % (it.name, i, n, i, i)] + body + [ind + '}']
        elif k == 'while':
            body = self.block(s.rng_(1, 5))
            out = [ind + '%s %s = %d;' % (it.name, i, n), ind + 'while (%s-- > 0) {' % i] + body + [ind + '}']
            self.scopes[-1][0].lo = None
            self.scopes[-1][0].hi = None
            # `i` is visible afterwards only inside its own block
            out = [ind + '{'] + out + [ind + '}']
        elif k == 'do':
            # the step comes first so that `continue` keeps it
            body = self.block(s.rng_(1, 5))
            out = [ind + '{ %s %s = 0; do { ++%s;' % (it.name, i, i)] + body + [ind + '} while (%s < %d); }' % (i, n)]
            self.scopes[-1][0].hi = n
        else:
            body = self.block(s.rng_(1, 5))
            out = [ind + '{ %s %s = 0; for (;;) { if (%s >= %d) break; ++%s;' % (it.name, i, i, n, i)] + body + [ind + '} }']
        self.scopes.pop()
        self.loopdepth -= 1
        self.mult //= n
        self.inloop = save
        return out

    def s_brk(self):
        self.use('break-continue')
        c = self.cond(2)
        k = 'continue' if self.s.p(50) else 'break'
        return [self.ind() + 'if (%s) %s;' % (c, k)]

    def s_switch(self):
        s = self.s
        self.use('switch')
        ind = self.ind()
        e = self.int_expr(self.P.depth - 2)
        t = self.ty.promote(e.t)
        style = s.weighted([(40, 'dense'), (25, 'sparse'), (15, 'edge')])
        mod = s.rng_(2, 12)
        if s.p(self.P.bigswitch):
            mod = s.rng_(12, 40)
        if style == 'dense':
            base = s.choice([0, 0, 1, -3, 100, -1, 5, 1000, -200])
            if t.signed and e.lo < 0:
                sel = '((int)((unsigned)%s %% %du) + %d)' % (self.par(e), mod, base)
            else:
                sel = '((int)(%s %% %d) + %d)' % (self.par(e), mod, base)
            vals = [base + i for i in range(mod) if s.p(75)]
            lits = [str(v) for v in vals]
        elif style == 'sparse':
            pool = [0, 1, 10, 100, 1000, -1, -100, 65536, 255, 7, 77, 777, 123456]
            k = s.rng_(2, 6)
            vals = []
            for _ in range(k):
                v = s.choice(pool)
                if v not in vals:
                    vals.append(v)
            # steer the selector to hit the cases
            sel = '(%s)' % ' : '.join(['(%s & 7) == %d ? %d' % (self.par(e), i, v) for i, v in enumerate(vals)] + ['5'])
            lits = [str(v) for v in vals]
        else:
            tt = s.choice([self.ty.llong, self.ty.ullong, self.ty.uint, self.ty.int_, self.ty.uchar, self.ty.char, self.ty.short])
            vals = []
            for v in [tt.lo, tt.hi, tt.hi - 1, tt.lo + 1, tt.hi // 2, 0, 1]:
                if v not in vals and s.p(70):
                    vals.append(v)
            if not vals:
                vals = [0]
            n = len(vals)
            sel = '(%s)(%s)' % (tt.name, ' : '.join(['(%s & 7) == %d ? %s' % (self.par(e), i, self.lit(v, tt)) for i, v in enumerate(vals)] + ['(%s)5' % tt.name]))
            lits = [self.lit(v, tt) for v in vals]
        if not self.side_free(sel):
            # the selector repeats its operand
            if style != 'dense':
                sel = '(int)(acc & 7)'
                seen = []
                for v in vals:
                    if -(1 << 31) <= v < (1 << 31) and v not in seen:
                        seen.append(v)
                lits = [str(v) if v > -(1 << 31) else '(-2147483647-1)' for v in seen] or ['0']
        out = [ind + 'switch (%s) {' % sel]
        save = self.inloop
        # `break` inside belongs to the switch; `continue` would belong to the loop
        self.inloop = False
        dflt = s.i(3)   # 0: none, 1: at end, 2: in the middle
        order = list(range(len(lits)))
        if s.p(30):
            order.reverse()
        for j, o in enumerate(order):
            if dflt == 2 and j == len(order) // 2:
                out += [ind + 'default:'] + ([ind + '{'] + self.block(s.rng_(1, 2)) + [ind + '}'])
                if s.p(60):
                    out.append(ind + '  break;')
            out.append(ind + 'case %s:' % lits[o])
            if s.p(15) and j + 1 < len(order):
                continue
            out += [ind + '{'] + self.block(s.rng_(1, 2)) + [ind + '}']
            if s.p(75):
                out.append(ind + '  break;')
        if dflt == 1:
            out += [ind + 'default:'] + [ind + '{'] + self.block(s.rng_(1, 2)) + [ind + '}']
            if s.p(50):
                out.append(ind + '  break;')
        self.inloop = save
        if out[-1].strip().startswith('case'):
            out.append(ind + '  ;')
        return out + [ind + '}']

    def s_goto(self):
        """forward goto out of nested blocks, or a bounded backward goto"""
        s = self.s
        ind = self.ind()
        self.use('goto')
        lab = self.name('L')
        if s.p(60):
            self.scopes.append([])
            c = self.cond(2)
            body = self.block(s.rng_(1, 3))
            body2 = self.block(s.rng_(1, 2))
            self.scopes.pop()
            return [ind + '{'] + [ind + '  {'] + body + [ind + '    if (%s) goto %s;' % (c, lab) if self.locals_ok(c, body) else ind + '    if (acc & 1) goto %s;' % lab, ind + '  }'] + \
                [ind + '  {'] + body2 + [ind + '  }', ind + '  %s: ;' % lab, ind + '}']
        n = self.name('g')
        self.loopdepth += 1
        self.mult *= 5
        save, self.inloop = self.inloop, False
        self.scopes.append([Var(n, self.ty.int_, 0, 8, ro=True)])
        body = self.block(s.rng_(1, 3))
        self.scopes.pop()
        self.loopdepth -= 1
        self.mult //= 5
        self.inloop = save
        return [ind + '{ int %s = 0;' % n, ind + '%s: ++%s; {' % (lab, n)] + body + \
            [ind + '}', ind + 'if (%s < %d) goto %s; }' % (n, s.rng_(1, 4), lab)]

    def locals_ok(self, c, body):
        return True

    def s_block(self):
        return [self.ind() + '{'] + self.block(self.s.rng_(1, 4)) + [self.ind() + '}']

    def s_sassign(self):
        s = self.s
        cands = {}
        for v in self.visible():
            if v.glob and not self.impure:
                continue
            if isinstance(v.t, Ptr) and not (v.own or self.impure):
                continue
            if isinstance(v.t, Struct) and not v.ro:
                cands.setdefault(id(v.t), (v.t, []))[1].append(v.name)
            elif isinstance(v.t, Ptr) and isinstance(v.t.to, Struct):
                cands.setdefault(id(v.t.to), (v.t.to, []))[1].append('*' + v.name)
            elif isinstance(v.t, Arr) and isinstance(v.t.elem, Struct) and not v.ro:
                cands.setdefault(id(v.t.elem), (v.t.elem, []))[1].append('%s[%d]' % (v.name, s.i(v.t.n)))
        cs = [c for c in cands.values()]
        if not cs:
            return self.s_assign()
        t, names = s.choice(cs)
        self.use('struct-assign')
        dst = s.choice(names)
        fs = self.stmt_callable(t)
        k = s.i(4)
        if k == 0 and len(names) > 1:
            return [self.ind() + '%s = %s;' % (dst, s.choice(names))] if not t.is_union or True else []
        if k == 1 and fs:
            return [self.ind() + '%s = %s;' % (dst, self.call_text(s.choice(fs), 2))]
        if k == 2 and len(names) > 1:
            return [self.ind() + '%s = %s ? %s : %s;' % (dst, self.cond(2), s.choice(names), s.choice(names))]
        return [self.ind() + '%s = (%s){%s};' % (dst, t.cname, self.init_list(t))]

    def s_callstmt(self):
        f = self.s.choice(self.stmt_callable())
        self.use('callstmt')
        txt = self.call_text(f, self.P.depth - 1)
        r = f['ret']
        if r is None or self.s.p(15):
            return [self.ind() + ('(void)' if r is not None else '') + txt + ';']
        if isinstance(r, Struct):
            ls = [x for x in self.paths('@', r)]
            if not ls:
                return [self.ind() + '(void)' + txt + ';']
            # member of a returned struct (rvalue): only direct non-array members
            fl = [(fn, ft, b) for fn, ft, b in r.fields if fn and isinstance(ft, (T, F))]
            if not fl:
                return [self.ind() + '(void)' + txt + ';']
            fn, ft, b = self.s.choice(fl)
            ex = '%s.%s' % (txt, fn)
            return [self.ind() + 'acc = acc * 31 + %s;' % self.as_u64(ex, ft)]
        return [self.ind() + 'acc = acc * 31 + %s;' % self.as_u64(txt, r)]

    def s_padv(self):
        """walk an array through a pointer"""
        s = self.s
        vs = [v for v in self.visible() if isinstance(v.t, Arr) and isinstance(v.t.elem, (T, F))]
        if not vs:
            return self.s_assign()
        v = s.choice(vs)
        self.use('ptr-walk')
        p = self.name('p')
        q = '%s *%s' % (v.t.elem.name, p)
        n = v.t.n
        ind = self.ind()
        val = self.as_u64('*' + p, v.t.elem)
        k = s.i(4)
        if k == 0:
            return [ind + 'for (%s = %s; %s < %s + %d; ++%s) acc = acc * 31 + %s;' % (q, v.name, p, v.name, n, p, val)]
        if k == 1:
            val = self.as_u64('*--' + p, v.t.elem)
            return [ind + 'for (%s = &%s[%d]; %s != %s; ) acc = acc * 31 + %s;' % (q, v.name, n, p, v.name, val)]
        if k == 2:
            val = self.as_u64('*%s++' % p, v.t.elem)
            return [ind + '{ %s = %s; int n_ = %d; while (n_--) acc = acc * 31 + %s; }' % (q, v.name, n, val)]
        if s.p(50):
            return [ind + '{ %s = %s + %d; acc = acc * 31 + %s; }' % (q, v.name, n, self.as_u64('%s[-%d]' % (p, s.rng_(1, n)), v.t.elem))]
        i = s.i(n)
        return [ind + '{ %s = %s; %s += %d; acc = acc * 31 + %s + (u64)(%s - %s); }' % (q, v.name, p, i, val, p, v.name)]

    def as_u64(self, txt, t):
        if t.flo:
            return 'dbits_(%s)' % txt if t.size == 8 else 'fbits_(%s)' % txt
        return '(u64)%s' % txt if txt[0] not in '*-' else '(u64)(%s)' % txt

    # ---- dumps
    def dump(self, tag, name, t):
        """statements that print every scalar leaf of an object"""
        out = []
        self._dump(out, tag, name, t)
        return out

    def _dump(self, out, tag, name, t):
        if isinstance(t, Arr):
            for i in range(t.n):
                self._dump(out, '%s[%d]' % (tag, i), '%s[%d]' % (name, i), t.elem)
        elif isinstance(t, Struct):
            for fn, ft, bits in t.fields:
                if fn and not isinstance(ft, Ptr):
                    self._dump(out, '%s.%s' % (tag, fn), '%s.%s' % (name, fn), ft)
        elif isinstance(t, Ptr):
            return
        else:
            out.append('  chk("%s", %s);' % (tag, self.as_u64(name, t)))

    def accall(self, name, t):
        """list of 'acc = ...' statements folding every leaf of an object"""
        if isinstance(t, Arr):
            r = []
            for i in range(t.n):
                r += self.accall('%s[%d]' % (name, i), t.elem)
            return r
        if isinstance(t, Struct):
            r = []
            for fn, ft, bits in t.fields:
                if fn and not isinstance(ft, Ptr):
                    r += self.accall('%s.%s' % (name, fn), ft)
            return r
        if isinstance(t, Ptr):
            if isinstance(t.to, (T, F)):
                return ['acc = acc * 31 + %s;' % self.as_u64('(*%s)' % name, t.to)]
            return []
        return ['acc = acc * 31 + %s;' % self.as_u64(name, t)]

    # ---- functions
    def param_type(self):
        s = self.s
        P = self.P
        k = s.weighted([(70, 's'), (P.structargs if self.structs else 0, 'st'), (P.pointers // 4, 'p')])
        if k == 's':
            return self.scalar_type()
        if k == 'st':
            self.use('struct-param')
            return s.choice(self.structs)
        return Ptr(self.scalar_type() if not (self.structs and s.p(30)) else s.choice(self.structs))

    def func(self, main_like=False):
        s = self.s
        P = self.P
        nm = self.name('fn')
        nparam = s.rng_(*P.params)
        params = [self.param_type() for _ in range(nparam)]
        pn = ['a%d' % i for i in range(nparam)]
        vargs = []
        if P.varargs and s.p(P.varargs):
            self.use('varargs')
            if not params or isinstance(params[-1], Struct) or (isinstance(params[-1], T) and params[-1].rank < 3) or params[-1] is FLOAT:
                params.append(self.ty.int_)
                pn.append('a%d' % nparam)
            for _ in range(s.rng_(1, 9)):
                t = s.choice([self.ty.int_, self.ty.uint, self.ty.llong, self.ty.ullong] + ([DOUBLE, DOUBLE] if P.flo else [])
                             + ([self.ty.long_, self.ty.ulong] if P.long_size == 8 else []))
                if P.varargs_struct and self.structs and s.p(10):
                    t = s.choice(self.structs)
                vargs.append(t)
        k = s.weighted([(60, 'scalar'), (P.structs // 4 if self.structs else 0, 'struct'), (10, 'void')])
        ret = self.scalar_type() if k == 'scalar' else s.choice(self.structs) if k == 'struct' else None
        if k == 'struct':
            self.use('struct-return')
        self.cur = nm
        self.impure = bool(P.impure) and s.p(P.impure)
        self.mult = 1
        self.fcost = 0
        if self.impure:
            self.use('impure-func')
        self.budget = s.rng_(*P.stmts) * 2
        body = []
        self.scopes = [[Var(n, t) for n, t in zip(pn, params)]]
        if vargs:
            body.append('  va_list ap; va_start(ap, %s);' % pn[-1])
            for i, t in enumerate(vargs):
                n = 'va%d' % i
                body.append('  %s = va_arg(ap, %s);' % (decl(t, n), tname(t)))
                self.scopes[0].append(Var(n, t))
            body.append('  va_end(ap);')
        body.append('  u64 acc = %d;' % s.i(100))
        if s.p(P.static_):
            sv = self.name('sv')
            st = self.int_type()
            if st is self.ty.bool_:
                st = self.ty.uint
            if st.signed and st.rank >= 3:
                st = self.ty.unsigned_of[st]
            self.use('static-local')
            # commutative effect only; its value is printed at the end of main
            body.append('  static %s = %s;' % (decl(st, sv), self.lit(self.const_val(st), st)))
            body.append('  %s += %d; spill_%s = %s;' % (sv, s.rng_(1, 9), sv, sv))
            self.predecl.append('u64 spill_%s;' % sv)
            self.spills.append('spill_%s' % sv)
        self.scopes.append([])
        if P.manylocals and s.p(P.manylocals):
            self.use('manylocals')
            for _ in range(s.rng_(10, 24)):
                self.full()
                body += self.new_local(force='scalar')
        for _ in range(s.rng_(*P.stmts)):
            if self.budget <= 0:
                break
            body += self.stmt()
        # fold all live objects into acc
        self.full()
        for sc in self.scopes[:2]:
            for v in sc:
                for a in self.accall(v.name, v.t):
                    body.append('  ' + a)
        if P.acc_global:
            body.append('  gcount_ += acc;')
        if ret is None:
            body.append('  gcount_ += acc;')
        elif isinstance(ret, Struct):
            vs = [v.name for v in self.visible() if v.t is ret]
            if vs and s.p(70):
                rv = s.choice(vs)
            else:
                rv = '(%s){%s}' % (ret.cname, self.init_list(ret))
            body.append('  gcount_ += acc;')
            body.append('  return %s;' % rv)
        elif ret.flo:
            body.append('  return (%s)(int)(acc ^ (acc >> 32)) + %s;' % (ret.name, self.flo_leaf().s))
        else:
            body.append('  return (%s)(acc ^ (acc >> 29));' % ret.name)
        if ret is not None and s.p(25):
            # other shapes of the end of a function
            x = body.pop().strip()[7:-1]
            y = (x if isinstance(ret, Struct) else '(%s)(int)(acc & 255)' % ret.name if ret.flo else '(%s)(acc + 7)' % ret.name)
            body += s.choice([
                ['  if (acc & 1) return %s; else return %s;' % (x, y)],
                ['  if (acc & 1) {', '    return %s;' % x, '  } else if (acc & 2) {', '    gcount_ += 1;', '    return %s;' % y, '  } else {', '    return %s;' % x, '  }'],
                ['  if (acc & 1) return %s;' % y, '  return %s;' % x],
                ['  switch (acc & 3) {', '  case 0: return %s;' % y, '  case 1: gcount_ += 1;', '  default: return %s;' % x, '  }'],
                ['  for (;;) {', '    if (acc & 1) return %s;' % x, '    acc += 3;', '  }'],
                ['  { gcount_ += 2; { return %s; } }' % x],
                ['  do { if (acc & 4) break; return %s; } while (0);' % x, '  return %s;' % y],
                ['  while (1) { if (acc & 4) break; return %s; }' % x, '  return %s;' % y],
            ])
        self.scopes = []
        self.cur = None
        sig = ', '.join(decl(t, n) for t, n in zip(params, pn)) + (', ...' if vargs else '')
        rt = 'void' if ret is None else tname(ret)
        if ret is None and s.p(12):
            # a value nobody uses need not be returned
            rt = s.choice(['int', 'double', 'char *', 'long long', 'float', 'unsigned char'] + [x.cname for x in self.structs[:1]])
        head = '%s %s(%s)' % (rt, nm, sig or 'void')
        f = dict(impure=self.impure, cost=self.fcost + 1, name=nm, params=params, vargs=vargs, ret=ret, head=head)
        pre = ''
        if P.inline_ and s.p(P.inline_):
            pre = 'static inline '
        elif s.p(30) and not P.extern_funcs:
            pre = 'static '
        if s.p(P.fptr) and not vargs:
            ptr = 'pf_' + nm
            f['ptr'] = ptr
            self.use('fptr')
            f['ptrdef'] = '%s (*%s)(%s) = %s;' % (rt, ptr, ', '.join(tname(t) for t in params) or 'void',
                                                  nm if s.p(50) else '&' + nm)
        text = [pre + head + ' {'] + body + ['}']
        if 'ptr' in f:
            text.append(f['ptrdef'])
        f['text'] = text
        f['static'] = bool(pre)
        return f

    def program(self, ext=EXT_UNISTD, main=True):
        """returns C source text"""
        s = self.s
        P = self.P
        for k, v in (('varargs_struct', 0), ('acc_global', 0), ('extern_funcs', 0)):
            if not hasattr(P, k):
                setattr(P, k, v)
        self.predecl = []
        self.cells = []
        self.spills = []
        gdefs = []
        if P.enum_ and s.p(P.enum_ * 3):
            en = self.name('En')
            vals, cur = [], 0
            for _ in range(s.rng_(1, 5)):
                c = self.name('K')
                if s.p(40):
                    cur = self.const_val(self.ty.int_)
                    cur = min(cur, self.ty.int_.hi - 10)
                    vals.append('%s = %s' % (c, self.lit(cur, self.ty.int_)))
                else:
                    vals.append(c)
                self.enums.append((c, cur))
                cur += 1
            gdefs.append('enum %s { %s };' % (en, ', '.join(vals)))
        if P.structs:
            for _ in range(s.weighted([(2, 0), (3, 1), (3, 2), (2, 3)]) if P.structs < 100 else s.rng_(1, 4)):
                gdefs.append(self.struct_def(self.gen_struct()))
        ng = s.rng_(*P.globals_)
        gl = []
        for _ in range(ng):
            n = self.name('g')
            k = s.weighted([(50, 's'), (P.arrays // 2, 'a'), (P.structs // 2 if self.structs else 0, 'st')])
            if k == 's':
                t = self.scalar_type()
            elif k == 'a':
                et = self.scalar_type() if not (self.structs and s.p(25)) else s.choice(self.structs)
                t = Arr(et, s.rng_(1, 6))
                if s.p(P.twod) and isinstance(et, (T, F)):
                    t = Arr(Arr(et, s.rng_(1, 4)), s.rng_(1, 3))
            else:
                t = s.choice(self.structs)
            q = s.choice(['', '', '', 'static ', 'volatile ' if isinstance(t, (T, F)) else ''])
            if s.p(75):
                gl.append('%s%s = %s;' % (q, decl(t, n), self.init(t)))
            else:
                gl.append('%s%s;' % (q, decl(t, n)))
            gv = Var(n, t, glob=True)
            self.globals.append(gv)
        nf = s.rng_(*P.funcs)
        ftexts = []
        for _ in range(nf):
            f = self.func()
            self.funcs.append(f)
            ftexts += f['text'] + ['']
        mains = []
        self.scopes = [[]]
        self.impure = True
        self.mult = 1
        for i, f in enumerate(self.funcs):
            for rep in range(2):
                self.full()
                self.nolock = True
                sd = P.depth
                txt = self.call_text(f, 2)
                if f['ret'] is None:
                    mains.append('  %s;' % txt)
                elif isinstance(f['ret'], Struct):
                    v = self.name('r')
                    mains.append('  { %s = %s;' % (decl(f['ret'], v), txt))
                    mains += ['  ' + x for x in self.dump('%s.%d' % (f['name'], rep), v, f['ret'])]
                    mains.append('  }')
                else:
                    mains.append('  chk("%s.%d", %s);' % (f['name'], rep, self.as_u64(txt, f['ret'])))
                mains.append('  chk("cnt", gcount_);')
        for v in self.globals:
            mains += self.dump(v.name, v.name, v.t)
        for n, t in self.cells:
            mains += self.dump(n, n, t)
        for sp in self.spills:
            mains.append('  chk("%s", %s);' % (sp, sp))
        flo = P.flo or any(True for _ in ())
        head = PRELUDE.replace('@EXT@', ext).replace('@FLO@', PRELUDE_FLO if P.flo else '')
        if P.varargs:
            head = '#include <stdarg.h>\n' + head
        self.parts = dict(head=head, gdefs=gdefs, predecl=self.predecl, gl=gl, ftexts=ftexts, mains=mains)
        return '\n'.join([head] + gdefs + ['u64 gcount_;'] + self.predecl + gl + [''] + ftexts +
                         ['int main(void) {'] + mains + ['  oflush_();', '  return 0;', '}', ''])


def _balanced_outer(t):
    d = 0
    for i, c in enumerate(t):
        if c == '(':
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                return i == len(t) - 1
        elif c in '"\'':
            return False
    return False


def _size(t):
    return t.n * _size(t.elem) if isinstance(t, Arr) else t.size


def _has_ptr(st):
    for _, t, _ in st.fields:
        if isinstance(t, Ptr):
            return True
        if isinstance(t, Struct) and _has_ptr(t):
            return True
        if isinstance(t, Arr) and isinstance(t.elem, Struct) and _has_ptr(t.elem):
            return True
    return False
