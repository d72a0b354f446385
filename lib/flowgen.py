"""Generator of control-flow programs with known output.

Functions over a handful of scalar variables (never addressed, so they live in
registers), with loops, jumps, switches and many copies among the variables.
Every function is emitted twice: as C, and as code of a small machine that is
interpreted here to obtain the expected output.  Unsigned arithmetic only, so
nothing is undefined; every cycle is bounded by a counter."""
import struct

from cexpr import RT_HEAD

M32, M64 = 0xffffffff, 0xffffffffffffffff
# name: (C type, mask, arithmetic type)
TY = {'I': ('unsigned', M32), 'L': ('unsigned long long', M64), 'C': ('unsigned char', 255), 'H': ('unsigned short', 65535), 'D': ('double', None)}


class TooLong(Exception):
    pass


class Fn:
    def __init__(self, g, k):
        self.g, self.s, self.k = g, g.s, k
        s = self.s
        self.name = 'f%d' % k
        mode = s.weighted([(40, 'I'), (25, 'L'), (25, 'mix'), (10, 'D')])
        n = s.weighted([(6, s.rng_(2, 5)), (4, s.rng_(4, 9)), (2, s.rng_(9, 16))])
        pool = {'I': 'I', 'L': 'L', 'mix': 'IIILLCH', 'D': 'DDDI'}[mode]
        self.t = [s.choice(pool) for _ in range(n)]
        self.np = s.rng_(0, min(n, s.choice([2, 4, 8])))
        self.code = []          # (op, ...)
        self.lab = 0
        self.out = []
        self.depth = 0
        self.loops = []         # (continue label or None, break label)
        self.gotos = []
        self.tmp = 0
        self.budget = s.choice([4, 8, 14, 22])
        self.labels = {}
        self.cnt = 0

    def e(self, *ins):
        self.code.append(ins)

    def L(self):
        self.lab += 1
        return self.lab

    def put(self, l):
        self.code.append(('lab', l))

    def w(self, text):
        self.out.append('  ' * (self.depth + 1) + text)

    def v(self, pool=None):
        """index of a variable"""
        c = [k for k in range(len(self.t)) if pool is None or self.t[k] in pool]
        return self.s.choice(c) if c else None

    def const(self, t):
        s = self.s
        if t == 'D':
            x = s.choice([0, 1, 2, 3, 5, 100])
            return '%d.0' % x, float(x)
        x = s.weighted([(6, s.i(10)), (2, s.i(300)), (1, s.choice([0xffff, 0x80000000, M32, 0x7fffffff])), (1, s.choice([1 << 32, M64, 1 << 63]) if t == 'L' else 255)])
        return ('%dULL' % x if t == 'L' else '%du' % x), x

    # expressions: (C text, python text over V)
    def atom(self, t):
        s = self.s
        v = self.v('D' if t == 'D' else 'ILCH')
        if v is None or s.p(25):
            c, x = self.const(t)
            return c, repr(x)
        vt = self.t[v]
        if t == 'D':
            return 'v%d' % v, 'V[%d]' % v
        if t == 'I' and vt == 'L':
            return '(unsigned)v%d' % v, '(V[%d]&%d)' % (v, M32)
        if t == 'I' and vt in 'CH':
            return s.choice(['(unsigned)v%d', '(v%d + 0u)']) % v, 'V[%d]' % v
        if t == 'L' and vt != 'L':
            return '(unsigned long long)v%d' % v, 'V[%d]' % v
        return 'v%d' % v, 'V[%d]' % v

    def expr(self, t, d=2):
        s = self.s
        if t == 'D':
            k = s.weighted([(5, 'a'), (3, '+')])
            if k == 'a' or d == 0:
                return self.atom('D')
            a, b = self.expr('D', d - 1), self.const('D')
            return '(%s + %s)' % (a[0], b[0]), '(%s+%r)' % (a[1], b[1])
        m = TY[t][1]
        if d == 0 or s.p(30):
            return self.atom(t)
        k = s.weighted([(22, 'ar'), (5, 'sh'), (6, 'cmp'), (4, 'tern'), (4, 'neg'), (4, 'div'), (5 if self.k and self.g.calls else 0, 'call')])
        if k == 'ar':
            op = s.choice('+-*&|^+-')
            a, b = self.expr(t, d - 1), self.expr(t, d - 1)
            return '(%s %s %s)' % (a[0], op, b[0]), '((%s%s%s)&%d)' % (a[1], op, b[1], m)
        if k == 'sh':
            a = self.expr(t, d - 1)
            n = s.i(32)
            op = s.choice(['<<', '>>'])
            return '(%s %s %d)' % (a[0], op, n), '((%s%s%d)&%d)' % (a[1], op, n, m)
        if k == 'cmp':
            c = self.cond(d - 1)
            return ('(unsigned)(%s)' if t == 'I' else '(unsigned long long)(%s)') % c[0], 'int(%s)' % c[1]
        if k == 'tern':
            c, a, b = self.cond(d - 1), self.expr(t, d - 1), self.expr(t, d - 1)
            return '(%s ? %s : %s)' % (c[0], a[0], b[0]), '(%s if %s else %s)' % (a[1], c[1], b[1])
        if k == 'neg':
            a = self.expr(t, d - 1)
            op = s.choice('-~')
            return '(%s%s)' % (op, a[0]), '((%s%s)&%d)' % (op, a[1], m)
        if k == 'div':
            a = self.expr(t, d - 1)
            c = s.choice([1, 2, 3, 7, 10, 16, 255])
            op = s.choice('/%')
            b = (str(c) + ('u' if t == 'I' else 'ULL'), str(c))
            if s.p(40):
                x = self.atom(t)
                b = '(%s | 1)' % x[0], '(%s|1)' % x[1]
            return '(%s %s %s)' % (a[0], op, b[0]), '(%s%s%s)' % (a[1], '//' if op == '/' else '%', b[1])
        f = self.g.fns[s.i(self.k)]
        return self.call(f, t, d)

    def call(self, f, t, d):
        self.g.ncall += 1
        args = [self.atom(x) if x in 'DIL' else self.atom('I') for x in f.t[:f.np]]
        ct = '%s(%s)' % (f.name, ', '.join(a[0] for a in args))
        py = 'CALL(%d,[%s])' % (f.k, ','.join(a[1] for a in args))
        if t == 'I':
            return '(unsigned)%s' % ct, '(%s&%d)' % (py, M32)
        return ct, py

    def cond(self, d=1):
        s = self.s
        k = s.weighted([(10, 'cmp'), (3, 'log'), (2, 'not'), (3, 'truth')])
        if k == 'log' and d > 0:
            a, b = self.cond(d - 1), self.cond(d - 1)
            op = s.choice(['&&', '||'])
            return '(%s %s %s)' % (a[0], op, b[0]), '(%s %s %s)' % (a[1], {'&&': 'and', '||': 'or'}[op], b[1])
        if k == 'not' and d > 0:
            a = self.cond(d - 1)
            return '!%s' % (a[0] if a[0][0] == '(' else '(%s)' % a[0]), '(not %s)' % a[1]
        t = s.choice([x if x in 'DIL' else 'I' for x in self.t])
        if k == 'truth' and t != 'D':
            a = self.atom(t)
            return '(%s & 1)' % a[0] if s.p(50) else '(%s != 0)' % a[0], None if 0 else '((%s)%s)' % (a[1], '&1' if self.last(0) else '!=0')
        op = s.choice(['<', '>', '<=', '>=', '==', '!='])
        a, b = self.expr(t, d - 1 if d > 0 else 0), self.atom(t)
        return '(%s %s %s)' % (a[0], op, b[0]), '(%s%s%s)' % (a[1], op, b[1])

    def last(self, _):
        return self.s.rec[-1]

    # --- statements
    def assign(self, v, ex, text=None):
        self.e('x', v, ex[1], TY[self.t[v]][1])
        self.w(text or 'v%d = %s;' % (v, ex[0]))

    def st(self):
        s = self.s
        d = self.depth
        deep = d < 4 and self.budget > 0
        k = s.weighted([(26, 'copy'), (24, 'asg'), (10, 'casg'), (14, 'perm'), (8, 'inc'), (16 if deep else 0, 'if'), (16 if deep else 0, 'loop'),
                        (7 if deep else 0, 'switch'), (6 if self.loops else 0, 'brk'), (3 if d > 0 else 0, 'ret'), (5 if deep else 0, 'goto'),
                        (4 if self.k else 0, 'call'), (3 if deep else 0, 'block')])
        self.budget -= 1
        getattr(self, 's_' + k)()

    def s_copy(self):
        a = self.v()
        same = [k for k in range(len(self.t)) if self.t[k] == self.t[a]]
        b = self.s.choice(same)
        self.assign(a, ('v%d' % b, 'V[%d]' % b))

    def s_asg(self):
        v = self.v()
        t = self.t[v]
        at = t if t in 'DIL' else 'I'
        if self.s.p(15):
            w = self.v()
            wt = self.t[w]
            a = self.expr(wt if wt in 'DIL' else 'I', 2)
            self.e('x', w, a[1], TY[wt][1])
            b = self.expr(at, 2)
            return self.assign(v, b, 'v%d = (v%d = %s, %s);' % (v, w, a[0], b[0]))
        self.assign(v, self.expr(at, self.s.i(4)))

    def s_casg(self):
        v = self.v()
        t = self.t[v]
        if t == 'D':
            c = self.const('D')
            return self.assign(v, ('', 'V[%d]+%r' % (v, c[1])), 'v%d += %s;' % (v, c[0]))
        op = self.s.choice('+-*&|^')
        e = self.expr(t if t in 'DIL' else 'I', 1)
        self.assign(v, ('', '(V[%d]%s%s)' % (v, op, e[1])), 'v%d %s= %s;' % (v, op, e[0]))

    def s_inc(self):
        v = self.v('ILCH')
        if v is None:
            return self.s_copy()
        op = self.s.choice(['++', '--'])
        self.assign(v, ('', 'V[%d]%s1' % (v, op[0])), (op + 'v%d;' if self.s.p(50) else 'v%d' + op + ';') % v)

    def s_perm(self):
        """rotations, swaps and general parallel copies through temporaries"""
        s = self.s
        a = self.v()
        same = [k for k in range(len(self.t)) if self.t[k] == self.t[a]]
        n = min(len(same), s.rng_(2, 5))
        vs = []
        for _ in range(n):
            x = s.choice([k for k in same if k not in vs])
            vs.append(x)
        if s.p(60):         # rotate left through one temporary
            r = s.rng_(0, 1)
            vs2 = vs if r else vs[::-1]
            T = 't%d' % self.tmp
            self.tmp += 1
            self.w('%s %s = v%d;' % (TY[self.t[a]][0], T, vs2[0]))
            for x, y in zip(vs2, vs2[1:]):
                self.w('v%d = v%d;' % (x, y))
            self.w('v%d = %s;' % (vs2[-1], T))
            self.e('p', vs2, ['V[%d]' % k for k in vs2[1:] + vs2[:1]])
            return
        srcs = [s.choice(vs) for _ in vs]
        ts = []
        for x in srcs:
            T = 't%d' % self.tmp
            self.tmp += 1
            ts.append(T)
            self.w('%s %s = v%d;' % (TY[self.t[a]][0], T, x))
        for x, T in zip(vs, ts):
            self.w('v%d = %s;' % (x, T))
        self.e('p', vs, ['V[%d]' % k for k in srcs])

    def s_call(self):
        f = self.g.fns[self.s.i(self.k)]
        v = self.v('IL')
        if v is None:
            return self.s_copy()
        self.assign(v, self.call(f, self.t[v], 1))

    def body(self, braces=True):
        self.depth += 1
        for _ in range(self.s.rng_(1, self.s.choice([2, 3, 5]))):
            self.st()
        self.depth -= 1

    def s_block(self):
        self.w('{')
        self.body()
        self.w('}')

    def s_if(self):
        s = self.s
        if s.p(15):
            w = self.v('ILCH')
        else:
            w = None
        if w is not None:
            a = self.expr(self.t[w] if self.t[w] in 'IL' else 'I', 2)
            self.e('x', w, a[1], TY[self.t[w]][1])
            c, op = self.const('I'), s.choice(['<', '>', '==', '!='])
            c = '((v%d = %s) %s %s)' % (w, a[0], op, c[0]), '(V[%d]%s%s)' % (w, op, c[1])
        else:
            c = self.cond()
        l1, l2 = self.L(), self.L()
        self.e('jf', c[1], l1)
        self.w('if (%s) {' % c[0])
        self.body()
        if s.p(50):
            self.e('j', l2)
            self.put(l1)
            self.w('} else {')
            self.body()
            self.w('}')
            self.put(l2)
        else:
            self.put(l1)
            self.w('}')

    def s_loop(self):
        s = self.s
        k = s.weighted([(5, 'for'), (3, 'while'), (3, 'do'), (2, 'forever'), (2, 'down')])
        i = 'i%d' % self.tmp
        self.tmp += 1
        ci = self.cnt
        self.cnt += 1
        n = s.rng_(1, s.choice([2, 4, 7]))
        extra = self.cond() if s.p(40) else None
        cont, brk, top = self.L(), self.L(), self.L()
        ex, exp = (' && %s' % extra[0], ' and %s' % extra[1]) if extra else ('', '')
        self.e('c', ci, '0')
        self.loops.append((cont, brk))
        if k == 'for':
            self.put(top)
            self.e('jf', '(C[%d]<%d%s)' % (ci, n, exp), brk)
            self.w('for (int %s = 0; %s < %d%s; ++%s) {' % (i, i, n, ex, i))
            self.body()
            self.put(cont)
            self.e('c', ci, 'C[%d]+1' % ci)
            self.e('j', top)
            self.w('}')
        elif k == 'down':
            self.e('c', ci, str(n))
            self.put(top)
            self.put(cont)
            self.e('c', ci, 'C[%d]-1' % ci)
            self.e('jf', '(C[%d]>=0%s)' % (ci, exp), brk)
            self.w('int %s = %d;' % (i, n))
            self.w('while (%s-- > 0%s) {' % (i, ex))
            self.body()
            self.e('j', top)
            self.w('}')
        elif k == 'while':
            self.put(top)
            self.put(cont)
            self.e('jf', '(C[%d]<%d%s)' % (ci, n, exp), brk)
            self.e('c', ci, 'C[%d]+1' % ci)
            self.w('int %s = 0;' % i)
            self.w('while (%s < %d%s) {' % (i, n, ex))
            self.depth += 1
            self.w('++%s;' % i)
            self.depth -= 1
            self.body()
            self.e('j', top)
            self.w('}')
        elif k == 'do':
            self.w('int %s = 0;' % i)
            self.w('do {')
            self.put(top)
            self.body()
            self.put(cont)
            self.e('c', ci, 'C[%d]+1' % ci)
            self.e('jf', '(C[%d]<%d%s)' % (ci, n, exp), brk)
            self.e('j', top)
            self.w('} while (++%s < %d%s);' % (i, n, ex))
        else:
            self.w('for (int %s = 0;;) {' % i)
            self.put(top)
            self.put(cont)
            self.e('c', ci, 'C[%d]+1' % ci)
            self.e('jt', 'C[%d]>%d' % (ci, n), brk)
            self.w('  if (++%s > %d) break;' % (i, n))
            self.body()
            self.e('j', top)
            self.w('}')
        self.put(brk)
        self.loops.pop()

    def s_brk(self):
        s = self.s
        cont, brk = self.loops[-1]
        b = s.p(50) or cont is None
        if cont is None:
            cs = [x for x in self.loops if x[0] is not None]
            if cs and s.p(40):
                b, cont = False, cs[-1][0]
        c = self.cond()
        self.e('jt', c[1], brk if b else cont)
        self.w('if (%s) %s;' % (c[0], 'break' if b else 'continue'))

    def s_ret(self):
        c = self.cond()
        vs = [k for k in range(len(self.t)) if self.s.p(50)]
        self.e('rt', c[1], vs)
        self.w('if (%s) return %s;' % (c[0], self.mix(vs)))

    def mix(self, vs):
        r = '7ULL'
        for k in vs:
            r = '(%s * 31 + %s)' % (r, 'd_(v%d)' % k if self.t[k] == 'D' else 'v%d' % k)
        return r

    def s_switch(self):
        s = self.s
        v = self.v('ILCH')
        if v is None:
            return self.s_if()
        n = s.rng_(1, 7)
        base = s.choice([0, 0, 1, 3, 250])
        vals, x = [], base
        for _ in range(n):
            vals.append(x)
            x += s.choice([1, 1, 1, 2, 5, 1000]) if self.t[v] in 'IL' else 1
        vals = [y for y in vals if y <= TY[self.t[v]][1]]
        mod = s.choice([None, 8, 4, 300])
        ex = ('v%d' % v, 'V[%d]' % v)
        if mod:
            ex = ('v%d %% %d' % (v, mod), 'V[%d]%%%d' % (v, mod))
        brk = self.L()
        labs = [self.L() for _ in vals]
        dfl = self.L() if s.p(60) else None
        order = list(zip(vals, labs))
        if s.p(30):
            order.reverse()
        if dfl:
            order.insert(s.i(len(order) + 1), (None, dfl))
        self.e('sw', ex[1], dict(zip(vals, labs)), dfl or brk)
        self.w('switch (%s) {' % ex[0])
        self.loops.append((None, brk))
        for val, l in order:
            self.put(l)
            self.w('default:' if val is None else 'case %d:' % val)
            k = s.weighted([(5, 'body'), (2, 'empty'), (3, 'fall')])
            if k != 'empty':
                self.w('{')
                self.body()
                self.w('}')
            if k == 'body':
                self.e('j', brk)
                self.w('  break;')
        self.w('  ;')
        self.w('}')
        self.loops.pop()
        self.put(brk)

    def s_goto(self):
        """a forward jump over statements, or a bounded backward jump"""
        s = self.s
        l = self.L()
        name = 'L%d' % l
        if not self.g.goto:
            return self.s_if()
        if s.p(50):
            c = self.cond()
            self.e('jt', c[1], l)
            self.w('if (%s) goto %s;' % (c[0], name))
            self.w('{')
            self.body()
            self.w('}')
            self.put(l)
            self.w('%s:;' % name)
        else:
            ci = self.cnt
            self.cnt += 1
            i = 'g%d' % self.tmp
            self.tmp += 1
            self.e('c', ci, '0')
            self.w('int %s = 0;' % i)
            self.put(l)
            self.w('%s:;' % name)
            self.w('{')
            self.body()
            self.w('}')
            n = s.rng_(1, 4)
            c = self.cond()
            self.e('c', ci, 'C[%d]+1' % ci)
            self.e('jt', '(C[%d]<%d and %s)' % (ci, n, c[1]), l)
            self.w('if (++%s < %d && %s) goto %s;' % (i, n, c[0], name))

    def build(self):
        s = self.s
        ps = ', '.join('%s v%d' % (TY[t][0], k) for k, t in enumerate(self.t[:self.np]))
        head = 'static unsigned long long %s(%s) {' % (self.name, ps or 'void')
        for k in range(self.np, len(self.t)):
            c, x = self.const(self.t[k])
            self.w('%s v%d = %s;' % (TY[self.t[k]][0], k, c))
            self.e('x', k, repr(x), TY[self.t[k]][1])
        while self.budget > 0:
            self.st()
        self.e('rt', 'True', list(range(len(self.t))))
        self.w('return %s;' % self.mix(range(len(self.t))))
        self.text = head + '\n' + '\n'.join(self.out) + '\n}\n'
        # link
        pos, code = {}, []
        for ins in self.code:
            if ins[0] == 'lab':
                pos[ins[1]] = len(code)
            else:
                code.append(ins)
        lines = ['def F(V,C,CALL):', ' return [']
        fs = []
        for ins in code:
            if ins[0] == 'x':
                fs.append(ins[2] if ins[3] is None else '(%s)&%d' % (ins[2], ins[3]))
            elif ins[0] == 'p':
                fs.append('[%s]' % ','.join(ins[2]))
            elif ins[0] == 'c':
                fs.append(ins[2])
            elif ins[0] in ('jf', 'jt', 'rt', 'sw'):
                fs.append(ins[1])
            else:
                fs.append('0')
        lines += ['  lambda: %s,' % f for f in fs]
        lines.append(' ]')
        ns = {}
        exec('\n'.join(lines), ns)
        self.F = ns['F']
        self.code = code
        self.pos = pos

    def run(self, args):
        V = [x & TY[t][1] if t != 'D' else x for x, t in zip(args, self.t)] + [0] * (len(self.t) - self.np)
        C = [0] * (self.cnt + 1)
        g = self.g
        fs = self.F(V, C, g.docall)
        pc = 0
        while True:
            g.steps += 1
            if g.steps > 30000:
                raise TooLong()
            ins = self.code[pc]
            x = fs[pc]()
            pc += 1
            op = ins[0]
            if op == 'x':
                V[ins[1]] = x
            elif op == 'p':
                for k, y in zip(ins[1], x):
                    V[k] = y
            elif op == 'c':
                C[ins[1]] = x
            elif op == 'j':
                pc = self.pos[ins[1]]
            elif op == 'jf':
                if not x:
                    pc = self.pos[ins[2]]
            elif op == 'jt':
                if x:
                    pc = self.pos[ins[2]]
            elif op == 'sw':
                pc = self.pos[ins[2].get(x, ins[3])]
            elif op == 'rt':
                if x:
                    r = 7
                    for k in ins[2]:
                        y = V[k]
                        if self.t[k] == 'D':
                            y = struct.unpack('<Q', struct.pack('<d', y))[0]
                        r = (r * 31 + y) & M64
                    return r


class FlowGen:
    def __init__(self, src, goto=True, calls=True, nf=(2, 7)):
        self.s = src
        self.goto, self.calls = goto, calls
        self.nf = nf
        self.fns = []
        self.steps = 0
        self.ncall = 0

    def docall(self, k, args):
        return self.fns[k].run(args)

    def program(self):
        s = self.s
        for k in range(s.rng_(*self.nf)):
            f = Fn(self, k)
            f.build()
            self.fns.append(f)
        exp, calls = [], []
        for f in self.fns:
            for _ in range(s.rng_(2, 5)):
                args, ca = [], []
                for t in f.t[:f.np]:
                    if t == 'D':
                        x = float(s.i(9))
                        ca.append('%d.0' % x)
                    else:
                        x = s.weighted([(6, s.i(12)), (2, s.i(1 << 16)), (1, s.i(1 << 32))])
                        ca.append('%dULL' % x if t == 'L' else '%du' % x)
                    args.append(x)
                self.steps = 0
                try:
                    exp.append('%x\n' % f.run(args))
                except TooLong:
                    continue
                calls.append('O(%s(%s));' % (f.name, ', '.join(ca)))
        text = (RT_HEAD + 'static unsigned long long d_(double d) { union { double d; unsigned long long u; } x; x.d = d; return x.u; }\n' +
                ''.join(f.text for f in self.fns) + 'int main(void) {\n  %s\n  flush_();\n  return 0;\n}\n' % '\n  '.join(calls))
        return text, ''.join(exp)
