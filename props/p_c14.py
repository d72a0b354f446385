"""Directives: conditional inclusion, file inclusion, #line, comments and line splicing; against gcc -E."""
import os
import re
import shutil
import ppgen
from core import Res, fail, run

ID = 'C14'
N = {'quick': 18000, 'thorough': 400000}
BUILDS = ('native',)
RULE = ('a case is a main file and up to 6 headers in 4 directories (searched by quotes, -I, -isystem, -idirafter, include_next; '
        'guarded, #pragma once or repeatable) with nested conditionals, skipped garbage, #line, comments and line splices; the '
        'pp-tokens, the value of __LINE__/__FILE__ and the line each marker is attributed to are compared with gcc -E (clang must '
        'agree with gcc); evaluations = markers compared; non-trivial when at least 4 markers survive')
ASSUMPTIONS = ['#if arithmetic stays within int64 and does not mix negative values with unsigned suffixes (known finding C14-unsigned)',
               'nesting of __FILE__ is compared by base name']


class G:
    def __init__(self, src):
        self.s = src
        self.n = 0
        self.files = {}
        self.names = ['M%d' % k for k in range(6)]
        self.obj = {}
        self.incs = 0

    def mark(self):
        self.n += 1
        s = self.s
        t = '__mk%d ' % self.n
        t += s.choice(['__LINE__', '__LINE__', 'x', '__FILE__', 'M%d' % s.i(6), '"a"', "'\"'", '/* c */ y', '__LINE__ + M%d' % s.i(6), '"//" z // c',
                       'p\\\nq', 'a \\\n  b __LINE__', '/* c\n c2 */ __LINE__', '"s\\\nt"', 'L /* " */ \' \' '])
        return t + ';\n'

    # --- #if expressions: (text, value), value None = invalid (division by zero)
    def expr(self, d):
        s = self.s
        c = s.weighted([(30, 'lit'), (15, 'mac'), (12, 'def'), (8, 'undefd'), (35 if d else 0, 'bin'), (10 if d else 0, 'un'), (8 if d else 0, 'ter'),
                        (12 if d else 0, 'par'), (8 if d else 0, 'sc'), (5, 'chr'), (6, 'fun')])
        if c == 'lit':
            v = s.choice([0, 1, 2, 3, 10, 255, 201112, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 40, s.i(1000)])
            return s.choice(['%d', '%d', '%#x', '%dL', '%dLL', '%dl']) % v if v or 1 else '0', v
        if c == 'mac':
            n = s.choice(self.names)
            v = self.obj.get(n, 0)
            if v is None or isinstance(v, str):
                return '1', 1
            return n, v
        if c == 'def':
            n = s.choice(self.names)
            return s.choice(['defined %s', 'defined(%s)', 'defined ( %s )', '!defined %s']) % n, None
        if c == 'undefd':
            return s.choice(['UNDEF', 'foo', 'true_', 'int', 'if']), 0
        if c == 'chr':
            return s.choice([("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'0'", 48), ("'\\x41'", 65), ("'\\''", 39), ("'\\\\'", 92)])
        if c == 'fun':
            a, _ = self.expr(0)
            return s.choice(['FN(%s)', 'FN( %s )', 'FN2(%s, 3)']) % a, None
        if c == 'par':
            return '(%s)' % self.expr(d - 1)[0], None
        if c == 'un':
            return s.choice(['!', '-', '~', '+', '- ', '!!']) + '(' + self.expr(d - 1)[0] + ')', None
        if c == 'ter':
            return '%s ? %s : %s' % (self.operand(d - 1), self.expr(d - 1)[0], self.operand(d - 1)), None
        if c == 'sc':
            z = s.choice(['1/0', '5 % 0', '1 / (2 - 2)'])
            return s.choice(['(0 && (%s))', '(1 || (%s))', '(1 ? 7 : (%s))', '(0 ? (%s) : 4)']) % z, None
        op = s.choice(['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '&&', '||'])
        b = self.operand(d - 1)
        if op in ('/', '%'):
            b = '%d' % s.r(1, 9)
        if op in ('<<', '>>'):
            b = '%d' % s.i(12)
        if op == '*':
            b = '%d' % s.i(99)
        sp = s.choice([' ', ' ', ''])
        if op in ('<<', '>>'):
            return '(' + self.operand(d - 1) + sp + op + sp + b + ')', None
        return self.operand(d - 1) + sp + op + sp + b, None

    def operand(self, d):
        t, _ = self.expr(d)
        if ' ' in t or any(ch in t for ch in '+-*/%<>=&|^?'):
            if self.s.p(55) or '?' in t:
                return '(' + t + ')'
        if t[0] in '-+':
            return '(' + t + ')'
        return t

    def garbage(self):
        s = self.s
        return s.choice(["it's broken\n", '#error no\n', '#bogus directive\n', '#include "no_such_file.h"\n', '#include NOSUCH\n', '@ ` $\n',
                         '/* #endif\n #else */\n', '// #endif\n', '"unclosed // #endif" \n', '#define M%d garbage(\n' % s.i(6), '#undef M%d\n' % s.i(6),
                         '__mk9999 \n', '#line 7\n', "'\"' x\n", '#if 0\n#else\nzz\n#endif\n', '#ifdef\n#endif\n', '#if 1 +\n#elif )\n#endif\n',
                         '#pragma once\n', '#\n', '\\\n#else_not\n', "'\n", '/\\\n* #endif *\\\n/\n', '#if 1/0\n#endif\n'])

    def cond(self, d, live):
        s = self.s
        out = s.choice(['#', '# ', ' #', '#']) + s.weighted([(60, 'if ' + self.expr(3)[0]), (20, 'ifdef M%d' % s.i(6)), (20, 'ifndef M%d' % s.i(6))])
        out += s.choice(['', '', ' /* c */', ' // c']) + '\n'
        out += self.block(d - 1, live)
        for _ in range(s.choice([0, 0, 1, 2])):
            out += '#elif ' + self.expr(2)[0] + '\n' + self.block(d - 1, live)
        if s.p(50):
            out += '#else' + s.choice(['', ' /* c */', ' // x']) + '\n' + self.block(d - 1, live)
        return out + '#endif' + s.choice(['', '', ' // M', ' /* M */']) + '\n'

    def block(self, d, live=True):
        s = self.s
        out = ''
        for _ in range(s.r(1, 4)):
            out += self.item(d, live)
        return out

    def item(self, d, live):
        s = self.s
        c = s.weighted([(40, 'mark'), (18 if d > 0 else 0, 'cond'), (12, 'def'), (6, 'undef'), (10 if d > 0 else 0, 'skip'), (10 if self.incs < 7 else 0, 'inc'),
                        (3, 'line'), (8, 'blank'), (3, 'null')])
        if c == 'mark':
            return self.mark()
        if c == 'cond':
            return self.cond(d, live)
        if c == 'def':
            n = s.choice(self.names)
            v = s.choice(['1', '0', '42', '-3', '(2+5)', 'M%d' % s.i(6), '', '0x10', 'FN(2)', '7 /* c\n d */', '1 \\\n + 2'])
            self.obj[n] = v
            if v == '':
                v = '0'
            return '#undef %s\n#define %s %s\n' % (n, n, v)
        if c == 'undef':
            return '#undef %s\n' % s.choice(self.names)
        if c == 'skip':
            body = ''.join(self.garbage() for _ in range(s.r(1, 4)))
            if s.p(50):
                return '#if 0\n' + body + s.choice(['', '#else\n' + self.mark(), '#elif 1\n' + self.mark()]) + '#endif\n'
            return '#if 1\n' + self.mark() + '#else\n' + body + '#endif\n'
        if c == 'inc':
            self.incs += 1
            h = 'h%d.h' % s.i(5)
            return '#' + s.choice(['', ' ']) + 'include ' + s.choice(['"%s"', '<%s>', '"%s"', 'INC(%s)' if 0 else '"%s"']) % h + s.choice(['', '', ' // c', ' /* c */']) + '\n'
        if c == 'line':
            return '#line %d%s\n' % (s.choice([1, 7, 100, 2000000]), s.choice(['', ' "foo.c"', ' "dir/bar.h"']))
        if c == 'blank':
            return s.choice(['\n', '\n\n\n', ' \t\n', '/* a\n b\n c\n d\n e\n f */\n', '\n' * 7, '// c \\\n still a comment\n'])
        return '#\n'

    def header(self, k):
        s = self.s
        style = s.weighted([(30, 'guard'), (25, 'once'), (20, 'plain'), (15, 'next')])
        body = ''.join(self.hitem() for _ in range(s.r(1, 3)))
        self.k = k
        if style == 'guard':
            g = 'H%d_%d' % (k, s.i(2))
            return '#ifndef %s\n#define %s\n%s#endif\n' % (g, g, body)
        if style == 'once':
            return '#pragma once\n' + body
        return body

    def hitem(self):
        s = self.s
        c = s.i(6)
        if c < 3:
            return self.mark()
        if c == 3:
            return '#define HX%d\n' % s.i(3)
        if c == 4:
            return self.cond(1, True)
        return '\n'

    def program(self):
        s = self.s
        self.incs = 99
        dirs = ['.', 'd1', 'd2', 'd3']
        for k in range(s.r(2, 6)):
            d = s.choice(dirs)
            h = 'h%d.h' % s.i(5)
            t = self.header(k)
            if h > 'h0.h' and s.p(30):      # include a header of smaller number: no recursion
                t += '#include %s\n' % (s.choice(['"h%d.h"', '<h%d.h>']) % s.i(int(h[1])))
                t += self.mark()
            if d != 'd3' and s.p(20):
                t += '#include_next <%s>\n' % h
            self.files[d + '/' + h] = t
        for k in range(5):
            self.files.setdefault('d3/h%d.h' % k, '__mk%d\n' % (9000 + k))
        self.incs = 0
        main = '#define FN(x) ((x) + 1)\n#define FN2(x, y) x == y\n' + self.block(3) + self.block(3)
        self.files['main.c'] = main
        opts = []
        for n in self.names:
            if s.p(15):
                opts.append('-D' + n + s.choice(['', '=5', '=(1)', '=M0 + 1' if n != 'M0' else '=3']))
        order = s.choice([['-Id1', '-isystem', 'd2'], ['-I', 'd2', '-Id1'], ['-isystem', 'd1', '-Id2'], ['-Id1', '-Id2']])
        return self.files, opts + order + ['-idirafter', 'd3']


def gen(src, ctx):
    return G(src).program()


LM = re.compile(rb'^#\s*(?:line\s+)?(\d+)\s+"([^"]*)"')
MK = re.compile(rb'__mk(\d+)')


def linemap(out):
    """marker -> list of (file, line) it is attributed to by the line markers"""
    d = {}
    f, ln = b'', 1
    for l in out.split(b'\n'):
        m = LM.match(l)
        if m:
            ln, f = int(m.group(1)), os.path.basename(m.group(2))
            continue
        for k in MK.findall(l):
            d.setdefault(int(k), []).append((f, ln))
        ln += 1
    return d


def norm(out):
    out = re.sub(rb'"[^"\n]*/([^"/\n]*)"', rb'"\1"', out)   # __FILE__: base name (also drops "//" uniformly)
    return ppgen.tokens(re.sub(rb'(?m)^\s*#.*$', b'', out))


def check(case, ctx):
    files, opts = case
    top = os.path.join(ctx.dir, 'inc')
    shutil.rmtree(top, ignore_errors=True)
    for n, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(top, n)) or top, exist_ok=True)
        with open(os.path.join(top, n), 'w') as f:
            f.write(t)
    for d in ('d1', 'd2', 'd3'):
        os.makedirs(os.path.join(top, d), exist_ok=True)
    g = run(['gcc', '-E', '-w', '-std=gnu11', '-nostdinc', *opts, 'main.c'], cwd=top, cpu=10)
    if g.rc != 0:
        return Res('skip', False, 'gcc: ' + g.err.decode('latin1')[:150])
    x = run([os.path.join(ctx.builds['native'], 'xcc'), '-E', '-nostdinc', *opts, 'main.c'], cwd=top, cpu=10)
    tg, tx = norm(g.out), norm(x.out)
    lg, lx = linemap(g.out), linemap(x.out)
    nm = sum(len(v) for v in lg.values())
    if x.rc == 0 and tg == tx and lg == lx:
        return Res('pass', nm >= 4, units=nm)
    c = run(['/usr/bin/clang-18', '-E', '-w', '-std=gnu11', '-nostdinc', *opts, 'main.c'], cwd=top, cpu=10)
    if c.rc != 0 or norm(c.out) != tg:
        return Res('skip', False, 'clang differs from gcc')
    if x.rc != 0:
        return fail('cpp failed: ' + x.short())
    if tg != tx:
        k = next((k for k in range(min(len(tg), len(tx))) if tg[k] != tx[k]), min(len(tg), len(tx)))
        return fail('token %d: expected ...%r, got ...%r' % (k, b' '.join(tg[max(0, k - 6):k + 8]), b' '.join(tx[max(0, k - 6):k + 8])))
    lc = linemap(c.out)
    for k in lg:
        if lg[k] == lc.get(k) and lg[k] != lx.get(k):
            return fail('__mk%d is attributed to %r, expected %r' % (k, lx.get(k), lg[k]))
    return Res('pass', True, units=nm)


def render(case):
    files, opts = case
    return 'xcc -E -nostdinc ' + ' '.join(opts) + ' main.c\n' + ''.join('=== %s ===\n%s' % x for x in sorted(files.items()))


def replay_known(k, ctx):
    """True when the listed input still fails."""
    if k['id'] == 'C14-unsigned':
        with open('ku.c', 'w') as f:
            f.write('#if -1 > 0u\nyes\n#else\nno\n#endif\n')
        x = run([os.path.join(ctx.builds['native'], 'xcc'), '-E', 'ku.c'], cwd=ctx.dir, cpu=10)
        return b'yes' not in x.out
    return False
