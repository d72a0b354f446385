"""Generator of programs made of calls, with their complete expected output.

Functions have arbitrary parameter lists (scalars, pointers, structs, variadic
tails) and straight-line bodies of actions.  Each action is emitted as C text
and as a Python closure; the expected output is what the closures print.
"""
import math

from cexpr import CX, N, M64, fbits, wrap, f32
from cgen import FLOAT, DOUBLE


class Ptr:
    flo = 0
    name = 'char *'
    size = 8

    def __repr__(self):
        return 'ptr'


PTR = Ptr()


class ST:
    flo = 0

    def __init__(self, name, fields, union=False):
        self.name = 'struct ' + name
        self.fields = fields      # (fname, type, array length or 0)
        self.leaves = []
        for fn, t, n in fields:
            for i in range(n or 1):
                p = '.' + fn + ('[%d]' % i if n else '')
                if isinstance(t, ST):
                    self.leaves += [(p + q, u) for q, u in t.leaves]
                else:
                    self.leaves.append((p, t))

    def decl(self):
        return '%s { %s };' % (self.name, ' '.join('%s %s%s;' % (t.name, f, '[%d]' % n if n else '')
                                                  for f, t, n in self.fields))

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, name, ret, params, va, tu):
        self.name, self.ret, self.params, self.va, self.tu = name, ret, params, va, tu
        self.rec = False
        self.acts = []
        self.code = []
        self.weight = 1

    def proto(self):
        ps = ['%s %s' % (t.name, n) for t, n in self.params]
        if self.va is not None:
            ps.append('...')
        return '%s %s(%s)' % (self.ret.name if self.ret else 'void', self.name, ', '.join(ps) or 'void')


class CallGen(CX):
    def __init__(self, src, structs=40, varargs=30, va_structs=1, tus=1, ptr=1, nfuncs=(3, 8), maxparams=18, rec=20,
                 bigframe=12, interop=False, flo=30, **kw):
        self.interop = interop
        super().__init__(src, flo=flo, **kw)
        self.c_structs, self.c_va, self.va_structs, self.tus = structs, varargs, va_structs, tus
        self.nfuncs, self.maxparams, self.c_rec, self.bigframe = nfuncs, maxparams, rec, bigframe
        self.interop = interop
        self.sts = []
        self.fns = []
        self.out = None

    # ---------------------------------------------------------------- types
    def scalar(self):
        s = self.s
        k = s.i(10)
        if k < 5:
            return self.it()
        if k < 7:
            return DOUBLE
        if k == 7:
            return FLOAT
        if k == 8:
            return PTR
        return self.ty.int_

    def new_struct(self):
        s = self.s
        fs = []
        for i in range(s.weighted([(4, 2), (3, 1), (3, 3), (2, 4), (1, 6), (1, 9)])):
            n = s.weighted([(6, 0), (1, 2), (1, 3), (1, 5), (1, 16)])
            if self.sts and s.p(12):
                t, n = s.choice(self.sts), 0
            else:
                t = self.scalar()
                while t is PTR:
                    t = self.it()
            fs.append(('m%d' % i, t, n))
        st = ST(self.nm('T'), fs)
        if len(st.leaves) > 40:
            return self.new_struct() if s.prefix is None else ST(self.nm('T'), [('m0', self.ty.int_, 0)])
        self.sts.append(st)
        return st

    def it(self):
        t = super().it()
        # xcc's _Bool is 4 bytes wide: not shared with other compilers
        return self.ty.uchar if self.interop and t is self.ty.bool_ else t

    def wide(self, t):
        return self.ty.int_ if t is not PTR and not t.flo and t.rank < 3 else t

    def anytype(self, structs=True):
        s = self.s
        if structs and self.c_structs and s.p(self.c_structs):
            return s.choice(self.sts)
        return self.scalar()

    # ---------------------------------------------------------------- values
    def val(self, t):
        if isinstance(t, ST):
            return [self.val(u) for _, u in t.leaves]
        if t is PTR:
            return self.s.i(64)
        return self.fval(t) if t.flo else self.ival(t)

    def text(self, v, t):
        if isinstance(t, ST):
            it = iter(v)

            def go(st):
                o = []
                for f, u, n in st.fields:
                    e = [go(u) if isinstance(u, ST) else self.text(next(it), u) for _ in range(n or 1)]
                    o.append('{%s}' % ', '.join(e) if n else e[0])
                return '{%s}' % ', '.join(o)
            return go(t)
        if t is PTR:
            return '(buf_ + %d)' % v if v else 'buf_'
        return self.const_of(v, t).s

    def conv(self, v, ft, t):
        """Conversion that is defined for every value, else None."""
        if ft is t:
            return v
        if isinstance(ft, ST) or isinstance(t, ST) or ft is PTR or t is PTR:
            return None
        if ft.flo and not t.flo:
            return None
        return self.convert(v, ft, t)

    def convertible(self, ft, t):
        if ft is t:
            return True
        if isinstance(ft, ST) or isinstance(t, ST) or ft is PTR or t is PTR:
            return False
        return not (ft.flo and not t.flo)

    def dumpcode(self, x, t):
        if isinstance(t, ST):
            return ' '.join(self.dumpcode(x + p, u) for p, u in t.leaves)
        if t is PTR:
            return 'O(%s - buf_);' % x
        return ('F(%s);' if t.flo else 'O(%s);') % x

    def dumpval(self, v, t):
        if isinstance(t, ST):
            for a, (_, u) in zip(v, t.leaves):
                self.dumpval(a, u)
        elif t.flo:
            self.out.append(fbits(v))
        else:
            self.out.append(v & M64)

    # ---------------------------------------------------------------- functions
    def va_type(self):
        s, ty = self.s, self.ty
        k = s.i(12)
        if self.va_structs and self.c_structs and k == 11:
            return s.choice(self.sts)
        return [ty.int_, DOUBLE, ty.uint, ty.llong, ty.ullong, ty.long_, ty.ulong, PTR, DOUBLE, ty.int_, DOUBLE,
                ty.int_][k]

    def new_fn(self):
        s = self.s
        k = s.weighted([(6, 4), (4, 8), (2, 14), (1, self.maxparams)])
        params = [(self.anytype(), 'a%d' % i) for i in range(s.i(min(k, self.maxparams) + 1))]
        if self.interop:
            # the upper bits of a narrow argument on the stack are unspecified by the psABI
            params = [(self.wide(t) if i >= 5 else t, n) for i, (t, n) in enumerate(params)]
        ret = None if s.i(7) == 6 else self.anytype()
        va = None
        if self.c_va and s.p(self.c_va):
            if not params:
                params = [(self.ty.int_, 'a0')]
            # the last named parameter must not have a type changed by promotion
            t = params[-1][0]
            if t is FLOAT or (not isinstance(t, ST) and t is not PTR and not t.flo and t.rank < 3):
                params[-1] = (self.ty.int_, params[-1][1])
            va = [self.va_type() for _ in range(s.i(s.choice([4, 8, 16])))]
        f = Fn(self.nm('f'), ret, params, va, s.i(self.tus))
        if va is None and s.p(self.c_rec):
            f.rec = True
            f.params.insert(0, (self.ty.int_, 'n_'))
        self.build(f)
        f.idx = len(self.fns)
        self.fns.append(f)
        return f

    def build(self, f):
        """Body: parallel lists of C text and closures over env (name -> value)."""
        s = self.s
        vars_ = list(f.params)
        names = {n: t for t, n in vars_}
        decl, code, acts = [], [], []
        if self.interop:
            code.append('ALIGNED;')
            acts.append(lambda e: None)

        def add(c, a):
            code.append(c)
            acts.append(a)

        idn = self.ival(self.ty.uint)
        if s.i(2):
            add('O(%du);' % (idn & 0xffffffff), lambda e: self.out.append(idn & 0xffffffff))
        if f.va is not None:
            self.va_part(f, add, vars_, decl)
        order = ['dump'] * s.rng_(1, 3) + [s.choice(['set', 'addr', 'call', 'expr', 'dump', 'local', 'fexpr', 'loop',
                                                     'ptr', 'scopy'])
                                         for _ in range(s.i(6))]
        if s.p(self.bigframe):
            order.append('big')
        if s.i(3):
            order = order[1:] + order[:1]
        if f.rec:
            def rec(e, f=f):
                if e['n_'] > 0:
                    a = dict(e)
                    args = [a[n] for _, n in f.params]
                    args[0] = e['n_'] - 1
                    r = self.run(f, args)
                    if f.ret:
                        self.dumpval(r, f.ret)
            call = '%s(%s)' % (f.name, ', '.join(['n_ - 1'] + [n for _, n in f.params[1:]]))
            if f.ret:
                c = 'if (n_ > 0) { %s r_ = %s; %s }' % (f.ret.name, call, self.dumpcode('r_', f.ret))
            else:
                c = 'if (n_ > 0) %s;' % call
            add(c, rec)
            f.weight = 3
        for k in order:
            getattr(self, 'b_' + k)(f, add, vars_, decl)
        # every parameter is finally observed
        for t, n in f.params:
            if s.i(4):
                self.b_dump1(add, t, n)
        self.b_return(f, add, vars_, decl)
        f.code = decl + code
        f.acts = acts

    def b_dump1(self, add, t, n):
        add(self.dumpcode(n, t), lambda e, n=n, t=t: self.dumpval(e[n], t))

    def b_dump(self, f, add, vars_, decl):
        if vars_:
            t, n = self.s.choice(vars_)
            self.b_dump1(add, t, n)

    def target(self, vars_, leaf=True):
        """(text, type, getter, setter) of some variable or leaf of one."""
        s = self.s
        t, n = s.choice(vars_)
        if isinstance(t, ST) and leaf and t.leaves:
            i = s.i(len(t.leaves))
            p, u = t.leaves[i]

            def set_(e, v, n=n, i=i):
                e[n] = e[n][:i] + [v] + e[n][i + 1:]
            return n + p, u, (lambda e, n=n, i=i: e[n][i]), set_

        def set1(e, v, n=n):
            e[n] = v
        return n, t, (lambda e, n=n: e[n]), set1

    def writable(self, vars_):
        return [(t, n) for t, n in vars_ if n != 'n_']

    def b_set(self, f, add, vars_, decl):
        w = self.writable(vars_)
        if not w:
            return
        x, t, g, st = self.target(w)
        v = self.val(t)
        if isinstance(t, ST):
            add('%s = (%s)%s;' % (x, t.name, self.text(v, t)), lambda e: st(e, v))
        else:
            add('%s = %s;' % (x, self.text(v, t)), lambda e: st(e, v))

    def b_addr(self, f, add, vars_, decl):
        w = self.writable(vars_)
        if not w:
            return
        x, t, g, st = self.target(w)
        v = self.val(t)
        q = self.nm('q')
        if t is PTR:
            add('{ char **%s = &%s; *%s = %s; }' % (q, x, q, self.text(v, t)), lambda e: st(e, v))
        else:
            add('{ %s *%s = &%s; *%s = %s%s; }' % (t.name, q, x, q, '(%s)' % t.name if isinstance(t, ST) else '',
                                                  self.text(v, t)), lambda e: st(e, v))

    def b_scopy(self, f, add, vars_, decl):
        """Copies between aggregates of the same type."""
        s = self.s
        st = [(t, n) for t, n in vars_ if isinstance(t, ST)]
        if not st:
            return
        t, n = s.choice(st)
        m = self.nm('c')
        add('%s %s = %s; %s' % (t.name, m, n, self.dumpcode(m, t)) if s.i(2) else
            '%s %s; { %s *p_ = &%s, *q_ = &%s; *p_ = *q_; } %s' % (t.name, m, t.name, m, n, self.dumpcode(m, t)),
            lambda e: (e.__setitem__(m, e[n]), self.dumpval(e[n], t)))
        vars_.append((t, m))

    def b_local(self, f, add, vars_, decl):
        t = self.anytype()
        n = self.nm('l')
        v = self.val(t)
        add('%s %s = %s;' % (t.name, n, self.text(v, t)), lambda e: e.__setitem__(n, v))
        vars_.append((t, n))

    def b_big(self, f, add, vars_, decl):
        s = self.s
        n = self.nm('b')
        sz = s.choice([100, 130, 260, 600, 2040, 2100, 4090, 4200, 9000, 33000])
        i, j = s.i(sz), s.i(sz)
        u, v = s.i(100), s.i(100)
        add('char %s[%d]; %s[%d] = %d; %s[%d] = %d; O(%s[%d]);' % (n, sz, n, i, u, n, j, v, n, i),
            lambda e: self.out.append(v if i == j else u))
        f.weight += 1

    def b_loop(self, f, add, vars_, decl):
        """Reads parameters in a loop that also calls."""
        s = self.s
        ints = [(t, n) for t, n in vars_ if not isinstance(t, ST) and t is not PTR and not t.flo]
        g = self.callee(ret='int', light=True)
        if not ints or g is None:
            return
        k = s.rng_(1, 4)
        t, n = s.choice(ints)
        ct, av, ap = self.args_in(g, vars_)

        def act(e):
            acc = 0
            for i in range(k):
                acc = (acc * 3 + (e[n] & M64) + (self.run(g, av(e)) & M64) + i) & M64
            self.out.append(acc)
        add('{ unsigned long long x_ = 0; int i_; for (i_ = 0; i_ < %d; i_++) x_ = x_ * 3 + %s + %s + i_; O(x_); }' % (
            k, n, ct), act)
        f.weight += k * g.weight

    def b_ptr(self, f, add, vars_, decl):
        """Passes the address of something to a helper that updates it."""
        s = self.s
        w = self.writable(vars_)
        if not w:
            return
        x, t, g, st = self.target(w)
        if isinstance(t, ST) or t is PTR or t.flo or t.rank < 3:
            return
        c = self.ival(t)
        key = 'add_' + t.name.replace(' ', '')
        self.helpers.setdefault(key, '%s %s(%s *p, unsigned long long v);' % (t.name, key, t.name))
        self.hbodies[key] = '%s %s(%s *p, unsigned long long v) { *p = (%s)((unsigned long long)*p + v); return *p; }' % (
            t.name, key, t.name, t.name)

        def act(e):
            v = wrap((g(e) & M64) + (c & M64) & M64, t)
            st(e, v)
            self.out.append(v & M64)
            self.out.append(v & M64)
        add('O(%s(&%s, %s)); O(%s);' % (key, x, self.text(c, t), x), act)

    # calls to previously built functions, whose closures know their output
    def callee(self, ret=None, light=False):
        s = self.s
        c = [g for g in self.fns if g.va is None and g.weight <= (4 if light else 30)]
        if ret == 'int':
            c = [g for g in c if g.ret is not None and not isinstance(g.ret, ST) and g.ret is not PTR and not g.ret.flo]
        elif ret == 'flo':
            c = [g for g in c if g.ret is DOUBLE]
        elif ret is not None:
            c = [g for g in c if g.ret is ret]
        if not c:
            return None
        return s.choice(c)

    def args_in(self, g, vars_):
        """Arguments from the caller's variables or literals:
        (call text, closure giving argument values)."""
        s = self.s
        txt, fs = [], []
        for t, n in g.params:
            if n == 'n_':
                k = s.i(3)
                txt.append(str(k))
                fs.append(lambda e, k=k: k)
                continue
            c = [(u, m, None) for u, m in vars_ if self.convertible(u, t)]
            for u, m in vars_:
                if isinstance(u, ST):
                    c += [(w, m, i) for i, (p, w) in enumerate(u.leaves) if self.convertible(w, t)][:3]
            if c and s.i(4):
                u, m, i = s.choice(c)
                if i is None:
                    txt.append(m)
                    fs.append(lambda e, u=u, m=m, t=t: self.conv(e[m], u, t))
                else:
                    p = next(q for (x, y) in vars_ if y == m for q in [x.leaves[i][0]])
                    txt.append(m + p)
                    fs.append(lambda e, u=u, m=m, i=i, t=t: self.conv(e[m][i], u, t))
            else:
                v = self.val(t)
                x = self.text(v, t)
                txt.append('(%s)%s' % (t.name, x) if isinstance(t, ST) else x)
                fs.append(lambda e, v=v: v)
        name = g.name
        if s.i(6) == 5:
            name = self.fptr(g)
        return '%s(%s)' % (name, ', '.join(txt)), (lambda e: [h(e) for h in fs]), None

    def fptr(self, g):
        n = 'fp_' + g.name
        ps = ', '.join(t.name for t, _ in g.params) or 'void'
        if g.va is not None:
            ps += ', ...'
        self.fpt.setdefault(n, '%s (*%s[2])(%s) = {0, %s};' % (g.ret.name if g.ret else 'void', n, ps, g.name))
        return self.s.choice(['%s[1]', '(*%s[1])']) % n

    def b_call(self, f, add, vars_, decl):
        g = self.callee()
        if g is None:
            return
        ct, av, _ = self.args_in(g, vars_)
        f.weight += g.weight
        s = self.s
        if g.ret is None or s.i(6) == 5:
            add(ct + ';', lambda e: self.run(g, av(e)))
            return
        r = self.nm('r')
        k = s.i(4)
        if k == 3 and isinstance(g.ret, ST):
            i = s.i(len(g.ret.leaves))
            p, u = g.ret.leaves[i]
            if '[' not in p:
                add(self.dumpcode(ct + p, u), lambda e: self.dumpval(self.run(g, av(e))[i], u))
                return
        if k == 2:
            h = self.callee_taking(g.ret)
            if h is not None:
                j = s.choice([j for j, (t, n) in enumerate(h.params) if t is g.ret and n != 'n_'])
                txts, fs = [], []
                for q, (t, n) in enumerate(h.params):
                    if q == j:
                        txts.append(ct)
                        continue
                    v = self.val(t) if n != 'n_' else 0
                    txts.append(('(%s)' % t.name if isinstance(t, ST) else '') + self.text(v, t))
                    fs.append((q, v))

                def act(e):
                    a = [None] * len(h.params)
                    for q, v in fs:
                        a[q] = v
                    a[j] = self.run(g, av(e))
                    self.run(h, a)
                add('%s(%s);' % (h.name, ', '.join(txts)), act)
                f.weight += h.weight
                return
        if k == 1:
            add('%s %s; %s = %s; %s' % (g.ret.name, r, r, ct, self.dumpcode(r, g.ret)),
                lambda e: (e.__setitem__(r, self.run(g, av(e))), self.dumpval(e[r], g.ret)))
        else:
            add('%s %s = %s; %s' % (g.ret.name, r, ct, self.dumpcode(r, g.ret)),
                lambda e: (e.__setitem__(r, self.run(g, av(e))), self.dumpval(e[r], g.ret)))
        vars_.append((g.ret, r))

    def callee_taking(self, t):
        c = [h for h in self.fns if h.va is None and h.weight <= 20 and
             any(u is t and n != 'n_' for u, n in h.params)]
        return self.s.choice(c) if c else None

    def b_expr(self, f, add, vars_, decl):
        """Integer arithmetic that stays live across a call."""
        s = self.s
        ints = [(t, n) for t, n in vars_ if not isinstance(t, ST) and t is not PTR and not t.flo]
        g = self.callee(ret='int')
        if g is None or not ints:
            return
        ct, av, _ = self.args_in(g, vars_)
        f.weight += g.weight
        (t1, n1), (t2, n2) = s.choice(ints), s.choice(ints)
        m = s.rng_(2, 99)

        def act(e):
            r = self.run(g, av(e))
            self.out.append(((e[n1] & M64) * m + (r & M64) + ((e[n2] & M64) ^ m)) & M64)
        add('O((unsigned long long)%s * %du + (unsigned long long)%s + ((unsigned long long)%s ^ %du));' % (
            n1, m, ct, n2, m), act)

    def b_fexpr(self, f, add, vars_, decl):
        s = self.s
        ds = [(t, n) for t, n in vars_ if t is DOUBLE or t is FLOAT]
        g = self.callee(ret='flo')
        if g is None or not ds:
            return
        ct, av, _ = self.args_in(g, vars_)
        f.weight += g.weight
        (t1, n1), (t2, n2) = s.choice(ds), s.choice(ds)

        def act(e):
            r = self.run(g, av(e))
            x = fmul(e[n1], 2.5)
            x = x + r
            x = x + (0.5 - e[n2])
            self.out.append(fbits(x))
        add('F(%s * 2.5 + %s + (0.5 - %s));' % (n1, ct, n2), act)

    def b_return(self, f, add, vars_, decl):
        s = self.s
        t = f.ret
        if t is None:
            if s.i(2):
                add('return;', lambda e: None)
            return
        c = [(u, n) for u, n in vars_ if self.convertible(u, t)]
        k = s.i(4)
        if k == 3:
            g = self.callee(ret=t)
            if g is not None:
                ct, av, _ = self.args_in(g, vars_)
                f.weight += g.weight
                add('return %s;' % ct, lambda e: e.__setitem__('return', self.run(g, av(e))))
                return
        if c and k:
            u, n = s.choice(c)
            add('return %s;' % n, lambda e: e.__setitem__('return', self.conv(e[n], u, t)))
            return
        v = self.val(t)
        x = self.text(v, t)
        if isinstance(t, ST):
            if s.i(2):
                n = self.nm('k')
                x = '{ static %s %s = %s; return %s; }' % (t.name, n, x, n)
            else:
                x = 'return (%s)%s;' % (t.name, x)
        else:
            x = 'return %s;' % x
        add(x, lambda e: e.__setitem__('return', v))

    def va_part(self, f, add, vars_, decl):
        s = self.s
        last = f.params[-1][1]
        ap = self.nm('ap')
        add('va_list %s; va_start(%s, %s);' % (ap, ap, last), lambda e: None)
        copy_at = s.i(len(f.va) + 1) if f.va and s.p(35) else -1
        split = s.i(len(f.va) + 1) if f.va and s.p(30) else -1
        cp = self.nm('ap')
        i = 0
        while i < len(f.va):
            if i == copy_at:
                add('va_list %s; va_copy(%s, %s);' % (cp, cp, ap), lambda e: None)
            if i == split:
                # the rest is read by a helper that receives the va_list
                h = self.nm('vh')
                rest = f.va[i:]
                body = []
                for j, t in enumerate(rest):
                    body.append('{ %s v_ = va_arg(ap, %s); %s }' % (t.name, t.name, self.dumpcode('v_', t)))
                self.vhelp.append((f.tu if self.interop else s.i(self.tus), 'void %s(int k, va_list ap)' % h, '{ O(k); %s }' % ' '.join(body)))

                def act(e, i=i, rest=rest):
                    self.out.append(i)
                    for v, t in zip(e['va'][i:], rest):
                        self.dumpval(v, t)
                add('%s(%d, %s);' % (h, i, ap), act)
                break
            t = f.va[i]
            if s.i(2):
                n = self.nm('w')
                add('%s %s = va_arg(%s, %s);' % (t.name, n, ap, t.name),
                    lambda e, n=n, i=i: e.__setitem__(n, e['va'][i]))
                vars_.append((t, n))
                self.b_dump1(add, t, n)
            elif isinstance(t, ST):
                add('{ %s v_ = va_arg(%s, %s); %s }' % (t.name, ap, t.name, self.dumpcode('v_', t)),
                    lambda e, i=i, t=t: self.dumpval(e['va'][i], t))
            else:
                add(self.dumpcode('va_arg(%s, %s)' % (ap, t.name), t),
                    lambda e, i=i, t=t: self.dumpval(e['va'][i], t))
            i += 1
        if 0 <= copy_at < len(f.va) and (split < 0 or copy_at <= split):
            for j in range(copy_at, len(f.va)):
                t = f.va[j]
                add('{ %s v_ = va_arg(%s, %s); %s }' % (t.name, cp, t.name, self.dumpcode('v_', t)),
                    lambda e, j=j, t=t: self.dumpval(e['va'][j], t))
            add('va_end(%s);' % cp, lambda e: None)
        add('va_end(%s);' % ap, lambda e: None)

    def run(self, f, args, va=None):
        self.steps += 1
        if self.steps > 4000:
            raise TooLong()
        e = {n: v for (t, n), v in zip(f.params, args)}
        e['va'] = va
        e['return'] = None
        for a in f.acts:
            a(e)
        return e['return']

    # ---------------------------------------------------------------- call sites
    def value_expr(self, t):
        """An arbitrary expression convertible to t, with the converted value."""
        if isinstance(t, ST):
            return self.struct_value(t)
        if t is PTR:
            v = self.val(t)
            return self.text(v, t), v
        for _ in range(3):
            n = self.expr(self.s.i(3))
            v = self.convert(n.v, n.t, t)
            if v is not None:
                return (n.s if ', ' not in n.s else n.p()), v
        n = self.const(t)
        return n.s, n.v

    def struct_value(self, t):
        s = self.s
        v = self.val(t)
        x = self.text(v, t)
        k = s.i(6)
        if k == 0:
            return '(%s)%s' % (t.name, x), v
        n = self.nm('s')
        if k == 1:
            self.glob.append('static %s %s = %s;' % (t.name, n, x))
            return n, v
        if k == 2:
            self.loc.append('%s %s = %s;' % (t.name, n, x))
            return n, v
        if k == 3:
            self.glob.append('static %s %s[3] = {{0}, %s};' % (t.name, n, x))
            return '%s[1]' % n, v
        if k == 4:
            q = self.nm('q')
            self.loc.append('%s %s = %s; %s *%s = &%s;' % (t.name, n, x, t.name, q, n))
            return '*' + q, v
        m = self.nm('s')
        self.loc.append('%s %s = %s; %s %s; %s = %s;' % (t.name, n, x, t.name, m, m, n))
        return m, v

    def va_expr(self, t):
        """An argument that promotes to t."""
        ty = self.ty
        if isinstance(t, ST) or t is PTR:
            return self.value_expr(t)
        for _ in range(4):
            n = self.expr(self.s.i(3))
            pt = self.promoted(n)
            if pt is FLOAT:
                pt = DOUBLE
            if n.bits or n.bl:
                continue
            if pt is t:
                return (n.s if ', ' not in n.s else n.p()), n.v
            v = self.convert(n.v, n.t, t)
            if v is not None:
                return '(%s)%s' % (t.name, n.p()), v
        n = self.const(t)
        return n.s, n.v

    def call_site(self, body):
        s = self.s
        f = s.choice(self.fns)
        txt, vals = [], []
        for t, n in f.params:
            if n == 'n_':
                k = s.i(4)
                txt.append(str(k))
                vals.append(k)
            else:
                x, v = self.value_expr(t)
                txt.append(x)
                vals.append(v)
        va = None
        if f.va is not None:
            va = []
            for t in f.va:
                x, v = self.va_expr(t)
                txt.append(x)
                va.append(v)
        name = f.name if s.i(5) else self.fptr(f)
        ct = '%s(%s)' % (name, ', '.join(txt))
        n0 = len(self.out)
        r = self.run(f, vals, va)
        if f.ret is None or s.i(8) == 7:
            body.append(ct + ';')
            return
        if isinstance(f.ret, ST):
            x = self.nm('r')
            if s.i(3) == 0:
                i = s.i(len(f.ret.leaves))
                p, u = f.ret.leaves[i]
                if '[' not in p:
                    body.append(self.dumpcode('(%s)%s' % (ct, p), u))
                    self.dumpval(r[i], u)
                    return
            body.append('{ %s %s = %s; %s }' % (f.ret.name, x, ct, self.dumpcode(x, f.ret)))
            self.dumpval(r, f.ret)
            return
        if f.ret is PTR:
            body.append('O(%s - buf_);' % ct)
            self.dumpval(r, PTR)
            return
        # the value stays in flight together with other live values
        if s.i(2) and not f.ret.flo:
            e = self.expr(s.i(3))
            if not e.t.flo:
                m = self.nm('m')
                body.append('{ unsigned long long %s = (unsigned long long)(%s); O(%s * 7 + (unsigned long long)%s); }' % (
                    m, e.p(), m, ct))
                self.out.append(((e.v & M64) * 7 + (r & M64)) & M64)
                return
        body.append(self.dumpcode(ct, f.ret))
        self.dumpval(r, f.ret)

    def programs(self):
        """-> (texts of the translation units, expected output)"""
        s = self.s
        self.out = []
        self.fpt = {}
        self.vhelp = []
        self.hbodies = {}
        self.steps = 0
        if self.c_structs:
            for _ in range(s.rng_(1, 4)):
                self.new_struct()
        for _ in range(s.rng_(*self.nfuncs)):
            self.new_fn()
        ts, calls = [], []
        for _ in range(s.rng_(1, 3)):
            self.loc, self.params = [], []
            body = []
            for _ in range(s.rng_(1, 5)):
                mark = len(self.out)
                b0 = len(body)
                try:
                    self.call_site(body)
                except TooLong:
                    del self.out[mark:]
                    del body[b0:]
                self.steps = 0
            n = self.nm('t')
            ts.append('static void %s(%s) {\n  %s\n  %s\n}' % (
                n, ', '.join('%s %s' % (t, x) for t, x, _ in self.params) or 'void',
                '\n  '.join(self.loc), '\n  '.join(body)))
            calls.append('%s(%s);' % (n, ', '.join(i for _, _, i in self.params)))
        common = [HEAD0]
        common += [st.decl() for st in self.sts]
        idp = {k: v for k, v in self.helpers.items() if k not in self.hbodies}
        common += [v for k, v in self.helpers.items() if k in self.hbodies]
        common += [p + ';' for _, p, _ in self.vhelp]
        common += [f.proto() + ';' for f in self.fns]
        units = [[], []]
        order = list(self.fns)
        for f in order:
            units[f.tu].append('%s {\n  %s\n}' % (f.proto(), '\n  '.join(f.code)))
        for tu, p, b in self.vhelp:
            units[tu].append('%s %s' % (p, b))
        units[0] += list(self.hbodies.values())
        u0 = common + ['char buf_[64];'] + [BODY0] + self.structs + self.glob + \
            [v for v in self.fpt.values()] + list(idp.values()) + units[0] + ts
        u0.append('int main(void) {\n  %s\n  flush_();\n  return 0;\n}' % '\n  '.join(calls))
        texts = ['\n'.join(u0) + '\n']
        if self.tus == 2:
            ext = []
            for v in self.fpt.values():
                ext.append('extern ' + v[:v.index(' = {0,')] + ';')
            texts.append('\n'.join(common + ['extern char buf_[64];'] + ext + units[1]) + '\n')
        exp = ''.join('%x\n' % v for v in self.out)
        return texts, exp


class TooLong(Exception):
    pass


def fmul(a, b):
    return a * b


HEAD0 = r'''#include <stdarg.h>
#ifndef LONG
#define LONG long
#endif
void o_(unsigned long long v);
void f_(double d);
#define O(e) o_((unsigned long long)(e))
#define F(e) f_(e)
#ifdef __XCC
#define ALIGNED
#else
#define ALIGNED if ((unsigned long)__builtin_frame_address(0) & 15) o_(0xbadull)
#endif
'''

BODY0 = r'''#include <unistd.h>
static char obuf_[65536]; static int olen_;
static void flush_(void) { if (olen_ > 0) write(1, obuf_, olen_); olen_ = 0; }
void o_(unsigned long long v) {
  char t[20]; int n = 0;
  if (olen_ > 65000) flush_();
  do { t[n++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v != 0);
  while (n > 0) obuf_[olen_++] = t[--n];
  obuf_[olen_++] = '\n';
}
void f_(double d) {
  union { double d; unsigned long long u; } x;
  if (d != d) { o_(0x7ff8000000000000ULL); return; }
  x.d = d;
  o_(x.u);
}
'''
