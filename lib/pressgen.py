"""Generator of programs with many values alive across calls, with their complete expected output.

Functions hold up to 40 integer and floating locals, call each other in the middle (in straight line, in
conditions and in loops) and then use every local: each value must survive in its register or in its slot.
All floating values are small nonnegative integers, so every operation is exact.
"""
from callgen import BODY0

M64 = (1 << 64) - 1
ITY = {'unsigned int': (32, 0), 'unsigned long long': (64, 0), 'int': (32, 1), 'short': (16, 1), 'unsigned char': (8, 0), 'signed char': (8, 1),
       'unsigned short': (16, 0), 'long long': (64, 1)}
OUT = 'typedef unsigned long long U;\n' + BODY0


def wrapt(v, ty):
    b, s = ITY[ty]
    v &= (1 << b) - 1
    return v - (1 << b) if s and v >> (b - 1) else v


class PressGen:
    def __init__(self, s):
        self.s = s

    def program(self):
        s = self.s
        nf = s.rng_(2, 5)
        fns = []
        cost = [0] * nf
        prof = s.weighted([(4, 'd'), (2, 'i'), (4, 'mix'), (1, 'f')])
        for k in range(nf):     # signatures
            ps = [self.ty(prof, 50) for _ in range(s.weighted([(6, s.rng_(1, 4)), (2, s.rng_(5, 12))]))]
            fns.append(dict(name='f%d' % k, params=ps, ret=s.choice(['U', 'double', 'unsigned int', 'float']), static=s.p(40)))
        for k in reversed(range(nf)):
            f = fns[k]
            nl = s.weighted([(3, s.rng_(2, 9)), (5, s.rng_(8, 20)), (3, s.rng_(16, 40))])
            f['locals'] = [(self.ty(prof, 70), s.i(len(f['params'])), s.rng_(1, 5), s.rng_(0, 60)) for _ in range(nl)]
            c = 1
            ops = []
            for _ in range(s.rng_(1, 6)):
                kind = s.weighted([(6, 'call'), (3, 'loop'), (3, 'upd'), (2, 'cond')])
                if kind == 'upd' or k == nf - 1:
                    ops.append(('upd', s.i(nl), s.i(nl)))
                    continue
                g = s.rng_(k + 1, nf - 1)
                n = s.rng_(2, 3) if kind == 'loop' else 1
                if c + n * cost[g] > 400:
                    continue
                c += n * cost[g]
                args = [(s.p(70), s.i(nl), s.rng_(0, 99)) for _ in fns[g]['params']]
                ops.append((kind, s.i(nl), g, args, n, s.rng_(0, 50), s.i(nl), s.i(nl)))
            f['ops'] = ops
            cost[k] = c
        # text
        t = [OUT]
        for f in fns:
            t.append('%s%s %s(%s);' % ('static ' if f['static'] else '', f['ret'], f['name'], ', '.join(f['params'])))
        order = list(range(nf))
        if s.p(50):
            order.reverse()
        for k in order:
            t.append(self.text(fns, fns[k]))
        m = ['int main(void) {']
        exp = []
        for _ in range(s.rng_(2, 6)):
            k = s.i(nf) if s.p(40) else 0
            args = [s.rng_(0, 99) for _ in fns[k]['params']]
            m.append('  o_((U)%s(%s));' % (fns[k]['name'], ', '.join(map(str, args))))
            exp.append('%x\n' % self.call(fns, k, args))
        m.append('  flush_();\n  return 0;\n}')
        t.append('\n'.join(m))
        return '\n'.join(t) + '\n', ''.join(exp)

    def ty(self, prof, pc):
        s = self.s
        if prof == 'f':
            return s.choice(['float', 'double'])
        if prof == 'd' and s.p(pc + 15):
            return 'double' if s.p(85) else 'float'
        if prof == 'mix' and s.p(45):
            return s.choice(['double', 'double', 'float'])
        return s.choice(list(ITY))

    def conv(self, v, ty):
        return v if ty in ('float', 'double') else wrapt(v, 'unsigned long long' if ty == 'U' else ty)

    def arg(self, e, v, fromty, to):
        """value of a local as an argument: kept small"""
        return '(%s)((U)%s %% 97)' % (to, e), (v & M64) % 97

    def text(self, fns, f):
        t = ['%s%s %s(%s) {' % ('static ' if f['static'] else '', f['ret'], f['name'], ', '.join('%s p%d' % (p, i) for i, p in enumerate(f['params'])))]
        L = f['locals']
        for i, (ty, p, m, c) in enumerate(L):
            fl = f['params'][p] in ('float', 'double')      # out of range for a narrow type: through U
            t.append('  %s v%d = %s * %d + %d;' % (ty, i, '(U)p%d' % p if fl else 'p%d' % p, m, c))
        t.append('  U h = 7;')
        for op in f['ops']:
            if op[0] == 'upd':
                _, a, b = op
                t.append('  v%d = %s;' % (a, self.upd(L, a, b)))
                continue
            kind, a, g, args, n, lim, b, c = op
            ca = ', '.join(('(%s)((U)v%d %% 97)' % (to, l) if useloc else '%d' % k) for (useloc, l, k), to in zip(args, fns[g]['params']))
            call = '(U)%s(%s)' % (fns[g]['name'], ca)
            if kind == 'loop':
                t.append('  for (int i = 0; i < %d; ++i) { h = h * 31 + %s; v%d = %s; }' % (n, call, a, self.upd(L, a, b)))
            elif kind == 'cond':
                t.append('  if ((U)v%d %% 64 > %d) h = h * 5 + %s; else v%d = %s;' % (c, lim, call, a, self.upd(L, a, b)))
            else:
                t.append('  h = h * 3 + %s;' % call)
        for i, (ty, p, m, c) in enumerate(L):
            t.append('  h = h * 31 + (U)v%d;' % i)
        t.append('  return %s;\n}' % ('h' if f['ret'] == 'U' else '(%s)(h %% 10007)' % f['ret']))
        return '\n'.join(t)

    def upd(self, L, a, b):
        if L[a][0] in ('float', 'double'):
            if L[b][0] in ('float', 'double') and a != b:
                return 'v%d + v%d > 4000 ? 3 : v%d + v%d' % (a, b, a, b)
            return 'v%d > 3000 ? 1 : v%d + 1' % (a, a)
        if L[b][0] in ('float', 'double'):
            return '(%s)((U)v%d + (U)v%d)' % (L[a][0], a, b)
        return '(%s)((U)v%d ^ (U)v%d << 1)' % (L[a][0], a, b)

    def updv(self, L, v, a, b):
        if L[a][0] in ('float', 'double'):
            if L[b][0] in ('float', 'double') and a != b:
                return 3 if v[a] + v[b] > 4000 else v[a] + v[b]
            return 1 if v[a] > 3000 else v[a] + 1
        if L[b][0] in ('float', 'double'):
            return wrapt(v[a] + v[b], L[a][0])
        return wrapt(v[a] ^ (v[b] & M64) << 1, L[a][0])

    def call(self, fns, k, args):
        f = fns[k]
        L = f['locals']
        p = [self.conv(a, ty) for a, ty in zip(args, f['params'])]
        v = [self.conv(p[i] * m + c, ty) for ty, i, m, c in L]
        h = 7
        for op in f['ops']:
            if op[0] == 'upd':
                _, a, b = op
                v[a] = self.updv(L, v, a, b)
                continue
            kind, a, g, ca, n, lim, b, c = op

            def docall():
                return self.call(fns, g, [(v[l] & M64) % 97 if u else k2 for u, l, k2 in ca])
            if kind == 'loop':
                for _ in range(n):
                    h = (h * 31 + docall()) & M64
                    v[a] = self.updv(L, v, a, b)
            elif kind == 'cond':
                if (v[c] & M64) % 64 > lim:
                    h = (h * 5 + docall()) & M64
                else:
                    v[a] = self.updv(L, v, a, b)
            else:
                h = (h * 3 + docall()) & M64
        for x in v:
            h = (h * 31 + (x & M64)) & M64
        return h if f['ret'] == 'U' else h % 10007
