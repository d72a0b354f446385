"""Random initializers and constant expressions on declgen types."""
import declgen

STRS = ['abc', '', 'x', 'hello world', 'a\\0b', 'tab\\there', '\\x41\\102', 'quote\\"q', '%d', 'long string with several words in it', '\\\\', "it's"]


def strval_len(t):
    n, k = 0, 0
    while k < len(t):
        if t[k] == '\\':
            k += 4 if t[k + 1] == 'x' or t[k + 1:k + 4].isdigit() else 2
        else:
            k += 1
        n += 1
    return n


class CX:
    """integer constant expressions of type int with known value"""

    def __init__(self, s, enums, types=()):
        self.s, self.enums, self.types = s, enums, list(types)

    def gen(self, d=3):
        for _ in range(20):
            r = self.try_(d)
            if r is not None and -(1 << 31) <= r[1] < 1 << 31:
                return r
        return '1', 1

    def leaf(self):
        s = self.s
        k = s.i(9)
        if k <= 2:
            v = s.rng_(0, 9)
            return str(v), v
        if k == 3:
            v = s.choice([127, 128, 255, 256, 32767, 65535, 2147483647, 1000000])
            return s.choice([str(v), hex(v), '0%o' % v]), v
        if k == 4:
            c = s.rng_(33, 126)
            return ("'%s'" % chr(c) if chr(c) not in "'\\" else "'\\%s'" % chr(c)), c
        if k == 5 and self.enums:
            return s.choice(self.enums)
        if k == 6:
            c, v = s.choice([("'\\n'", 10), ("'\\0'", 0), ("'\\x7f'", 127), ("'\\377'", -1), ("'\\t'", 9)])
            return c, v
        if k == 7:
            t, v = s.choice([('char', 1), ('short', 2), ('int', 4), ('long long', 8), ('double', 8), ('float', 4), ('char[7]', 7)])
            return '(int)sizeof(%s)' % t, v
        f, v = s.choice([('2.75', 2), ('1e3', 1000), ('-3.99', -3), ('0.5f', 0)])
        return '(int)%s' % f, v

    def try_(self, d):
        s = self.s
        if d <= 0 or s.p(30):
            return self.leaf()
        k = s.i(8)
        if k == 0:
            op = s.choice('-~!+')
            t, v = self.gen(d - 1)
            return '%s(%s)' % (op, t), {'-': -v, '~': ~v, '!': int(not v), '+': v}[op]
        if k == 1:
            ty, lo, n = s.choice([('char', -128, 8), ('unsigned char', 0, 8), ('short', -32768, 16), ('unsigned short', 0, 16),
                                  ('signed char', -128, 8)])
            t, v = self.gen(d - 1)
            return '(%s)(%s)' % (ty, t), (v - lo) % (1 << n) + lo
        a, x = self.gen(d - 1)
        b, y = self.gen(d - 1)
        if k == 2:
            c, z = self.gen(d - 1)
            return '(%s) ? (%s) : (%s)' % (a, b, c), y if x else z
        op = s.choice(['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||'])
        if op in '/%':
            if y == 0 or (x == -(1 << 31) and y == -1):
                return None
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            v = q if op == '/' else x - q * y
        elif op in ('<<', '>>'):
            y %= 8
            b = str(y)
            if op == '<<' and x < 0:
                return None
            v = x << y if op == '<<' else x >> y
        else:
            v = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y, '<': int(x < y), '>': int(x > y),
                 '<=': int(x <= y), '>=': int(x >= y), '==': int(x == y), '!=': int(x != y), '&&': int(bool(x and y)),
                 '||': int(bool(x or y))}[op]
        return '(%s) %s (%s)' % (a, op, b), v


class InitGen(declgen.DeclGen):
    const = True

    def children(self, t):
        """[(designator or None, path suffix, type, bits, member index)]"""
        if t[0] == 'a':
            return [('[%d]' % k, '[%d]' % k, t[1], None, k) for k in range(t[2])]
        out = []
        for j, (m, u, b) in enumerate(self.aggs[t[1]].mem):
            if m is None and (b is not None or not self.children(u)):
                continue
            out.append(('.' + m if m else None, '.' + m if m else '@%d' % j, u, b, j))
        return out

    def live_count(self, t):
        self.active = {}
        return len(self.live(t, ''))

    def is_union(self, t):
        return t[0] == 'r' and self.aggs[t[1]].union

    def scalar_init(self, t, bits):
        s = self.s
        k = t[2]
        if k == 'i':
            if bits is None and s.p(12):
                r = s.choice(['-1', '0x7fffffffffffffffLL', '18446744073709551615ULL', '-2147483647-1', '4294967295U', '1LL << 40',
                              '-9223372036854775807LL - 1', '3000000000', '(unsigned char)-1', '-1U >> 1', '(char)200', '3.99'])
            else:
                r = self.cx.gen(s.weighted([(5, 0), (3, 2), (1, 4)]))[0]
            if not self.const and r != '3.99' and s.p(30):
                r = s.choice(['v%d + (%s)', 'id(v%d, %s)', '(v%d, %s)', '(%s) * 1 + v%d']).replace('%d', str(s.i(4))) % r
            return r
        if k == 'f':
            r = s.choice(['1.5', '-2', '1e3', '0.1f', '1.0 / 3', '(float)1 / 3', "'a'", '3 * 0.5', '-0.0', '16777217', '1e-40', '.5e1', '0x1.8p3',
                          '9007199254740993', '1.0f * 3', '-(2.5)', '1 ? 2.5 : 3', '(1 + 2) * 3'])
            if not self.const and s.p(30):
                r = 'v%d + %s' % (s.i(4), r)
            return r
        if k == 'fn':
            return s.choice(['f0', '&f1', '0', 'f2', '(void *)0' if False else '0'])
        if k == 'cp' and s.p(65):
            x = s.choice(STRS)
            n = strval_len(x)
            r = s.weighted([(5, '"%s"' % x), (2, '"%s" + %d' % (x, s.rng_(0, n))), (1, '&"%s"[%d]' % (x, s.rng_(0, n))),
                            (1, '"%s" "%s"' % (x, 'tail')), (1, '"p" "" "%s"' % x)])
            if not self.const and s.p(15):
                r = 'v1 ? %s : 0' % r
            return r
        ty = '(%s)' % t[1] if t[1] != 'void *' else ''
        k = s.rng_(0, declgen.NG - 1)
        c, v = self.cx.gen(1)
        v = v % declgen.NG
        r = s.choice(['0', '&G[%d]' % k, 'G + %d' % k, '(G + 5) - %d' % s.rng_(0, 5), 'GS.d[%d].b' % s.i(3), '&GS.d[%d].b[%d]' % (s.i(3), s.i(4)),
                      'GS.d[%d].c + %d' % (s.i(3), s.i(8)), '((char *)&GS + %d)' % s.rng_(0, 40), '(&GS.d[0] + %d)' % s.i(3), '%d' % s.rng_(1, 60),
                      '&*G', '&G[((%s) & 7)]' % c, 'GS.d', '&GS', '((char *)G + %d)' % s.rng_(0, 60), '&((char *)G)[%d]' % s.rng_(0, 60),
                      '1 ? G : 0', '&GS.d[%d]' % s.i(3), 'GM[%d]' % s.i(3), '&GM[%d][%d]' % (s.i(3), s.i(4)), 'GM + %d' % s.i(3), 'GM[%d] + %d' % (s.i(3), s.i(4)),
                      '2 + G', '&GS.a', 'PS[1].q', '&PS[%d].p' % s.i(3), '&PS[1].r[%d]' % s.i(5)])
        if t[1] == 'void *' and r.isdigit():
            ty = '(void *)'
        return '%s%s' % (ty, '(%s)' % r if ty else r)

    def str_ok(self, t):
        return t[0] == 'a' and t[1][0] == 's' and t[1][1] in ('char', 'signed char', 'unsigned char')

    def touch(self, path):
        self.touched.append(path)

    def is_touched(self, path):
        """a proper or improper part of path, or path itself, was initialised"""
        return any(p == path or p.startswith(path) and p[len(path)] in '.[@' or path.startswith(p) and path[len(p)] in '.[@' for p in self.touched)

    def init(self, t, path, depth=0):
        """text initialising the whole of t"""
        s = self.s
        if t[0] == 's':
            self.touch(path)
            r = self.scalar_init(t, None)
            return '{%s}' % r if s.p(3) else r
        if self.str_ok(t) and s.p(60):
            return self.string(t, path)
        if not self.children(t):
            return '{}'
        if t[0] == 'r' and not self.const and s.p(8) and not self.is_union(t) and depth:
            a = self.aggs[t[1]]
            return '(%s)%s' % (a.spell(), self.braces(t, path, depth)) if a.tag or a.td else self.braces(t, path, depth)
        return self.braces(t, path, depth)

    def string(self, t, path):
        s = self.s
        c = [x for x in STRS if strval_len(x) <= t[2]]
        self.touch(path)
        r = '"%s"' % s.choice(c)
        if s.p(10):
            r = '{%s}' % r
        elif s.p(10) and t[2] >= 3:
            r = '"a" "b"'
        return r

    def enter(self, t, path, j):
        """remember the union member in use; False when another one already is"""
        if not self.is_union(t):
            return True
        return self.active.setdefault(path, j) == j

    def braces(self, t, path, depth):
        s = self.s
        ents = []
        stack = [(t, 0, path)]        # aggregate, next child position, its path
        budget = s.weighted([(3, 0), (5, s.rng_(1, 5)), (5, 40)])
        prev = ''
        while budget > 0:
            budget -= 1
            des = ''
            while stack:
                u, k, p = stack[-1]
                ch = self.children(u)
                if k < len(ch) and not (self.is_union(u) and k > 0):
                    break
                stack.pop()
                if stack:
                    a, kk, pp = stack[-1]
                    stack[-1] = (a, kk + 1, pp)
            if not stack or s.p(18):
                r = self.designate(t, path)
                if r is None:
                    break
                des, stack = r
            u, k, p = stack[-1]
            ch = self.children(u)
            d, suf, ct, bits, j = ch[k]
            if not des and self.is_union(u) and self.active.get(p, j) != j:
                break
            cp = p + suf
            # descend by brace elision?
            mark = len(self.touched)
            ok = True
            elided = False
            while ct[0] != 's':
                cc = self.children(ct)
                if not cc:
                    break
                if self.is_touched(cp):
                    ok = False
                    break
                # within an aggregate entered without its brace, a `{` would open that aggregate itself
                if self.str_ok(ct) and s.p(50) or not s.p(95 if elided else 40):
                    break
                elided = True
                if not self.enter(u, p, j):
                    ok = False
                    break
                stack.append((ct, 0, cp))
                u, k, p = stack[-1]
                d, suf, ct, bits, j = cc[0]
                cp = p + suf
            if not ok or not self.enter(u, p, j):
                break
            if ct[0] == 's':
                if self.is_touched(cp) and (any(q != cp and cp.startswith(q) for q in self.touched) or s.p(60)):
                    break
                self.touch(cp)
                v = self.scalar_init(ct, bits)
                if not elided and (des or len(stack) == 1) and s.p(7):
                    v = '{%s%s}' % (v, ',' if s.p(15) else '')
            else:
                if self.is_touched(cp):
                    break
                if self.str_ok(ct) and (elided or s.p(50)):
                    v = self.string(ct, cp)
                    if elided and v.startswith('{'):
                        v = v[1:-1]
                elif elided:
                    break
                else:
                    v = self.init(ct, cp, depth + 1)
                    if v == '{}' and not s.p(50):
                        v = '{}'
                self.touch(cp)
            # (gcc and clang misplace a string that follows a designated element)
            if not des and '"' in v and prev.endswith(']'):
                del self.touched[mark:]
                break
            prev = des[:-3] if des else ''
            ents.append(des + v)
            stack[-1] = (u, k + 1, p)
        return '{%s%s}' % (', '.join(ents), ',' if ents and s.p(15) else '')

    def designate(self, t, path):
        s = self.s
        text = ''
        stack = []
        u, p = t, path
        fresh = True
        for lvl in range(4):
            ch = self.children(u)
            if not ch:
                return None
            opts = [k for k in range(len(ch))]
            k = s.choice(opts)
            d, suf, ct, bits, j = ch[k]
            if self.is_union(u) and self.active.get(p, j) != j:
                return None
            stack.append((u, k, p))
            if d is None:             # anonymous member: must go on inside
                self.enter(u, p, j)
                u, p = ct, p + suf
                continue
            text += d
            cp = p + suf
            if ct[0] != 's' and self.children(ct) and s.p(45):
                if any(q == cp or cp.startswith(q) and cp[len(q)] in '.[@' for q in self.touched):
                    return None
                self.enter(u, p, j)
                u, p = ct, cp
                continue
            if self.is_touched(cp) and (ct[0] != 's' or cp not in self.touched):
                return None
            return text + ' = ', stack
        return None

    def live(self, t, path):
        """leaves with defined values given the active union members"""
        if t[0] == 's':
            return [(path, t)]
        out = []
        ch = self.children(t)
        if self.is_union(t):
            j = self.active.get(path)
            ch = [c for c in ch if c[4] == j] if j is not None else ch[:1]
        for d, suf, u, b, j in ch:
            out += self.live(u, path + suf)
        return out
