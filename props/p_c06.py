"""Initializers and constant expressions: programs against gcc and clang wasm32."""
import os
import re

import declgen
import initgen
from core import Res, fail, run
from diffprog import bare_ref, first_diff, prepare_bare, ub_free, xcc
from p_c07 import wasm_ref, wcc_run, worker_exit, worker_init  # noqa: F401

ID = 'C06'
N = {'quick': 3600, 'thorough': 120000}
BUILDS = ('native', 'wcc')
RULE = ('a case is a program with generated types and initialised objects (global, static, local, compound literals); evaluations = '
        'scalar values read back; non-trivial when at least 8 are compared; distinct by text')
ASSUMPTIONS = ['gcc -O0 (x86-64) and clang (wasm32) define what an initializer means; on x86-64 an alarm also needs gcc with '
               'ASan+UBSan and clang -O2 to agree', 'GNU range designators and overriding part of an initialised aggregate are not generated',
               'Node 22 executes wasm correctly']
HEAD = '''#ifdef CLW
extern void outll(long long);
#define O(x) outll((long long)(x))
void *memset(void *d, int c, unsigned long n) { volatile char *p = d; while (n--) *p++ = c; return d; }
void *memcpy(void *d, const void *s, unsigned long n) { volatile char *p = d; const char *q = s; while (n--) *p++ = *q++; return d; }
#else
extern int printf(const char *, ...);
#define O(x) printf("%lld\\n", (long long)(x))
#endif
static long G[24];
static struct { int a; struct { short b[4]; char c[8]; } d[3]; } GS;
static int GM[3][4];
struct ps { char *p; int *q; short r[5]; };
static struct ps PS[3];
static int f0(int x) { return x; }
static int f1(int x) { return x + 1; }
static int f2(int x) { return x + 2; }
static volatile int v0 = 3, v1 = 1, v2 = -7, v3 = 100;
static int id(int a, int b) { return a + b; }
static int in(const volatile void *p, void *o, int n) { return (char *)p >= (char *)o && (char *)p < (char *)o + n; }
static void OP(const volatile void *p) {
  const char *s = (const char *)p; unsigned h = 5381; int n = 0;
  if (p == 0) O(-1);
  else if (in(p, G, sizeof G)) O(1000000 + (s - (char *)G));
  else if (in(p, &GS, sizeof GS)) O(2000000 + (s - (char *)&GS));
  else if (in(p, GM, sizeof GM)) O(2500000 + (s - (char *)GM));
  else if (in(p, PS, sizeof PS)) O(2700000 + (s - (char *)PS));
  else if ((unsigned long)p <= 64) O(3000000 + (unsigned long)p);
  else { while (*s) { h = h * 33 + (unsigned char)*s++; n++; } O(h); O(n); }
}
static void OX(int (*f)(int)) { O(f == 0 ? 0 : f == f0 ? 1 : f == f1 ? 2 : f == f2 ? 3 : 4); }
static void OF(double d) { union { double d; long long l; } u; u.d = d; O(u.l); }
static int soil(int n) { volatile unsigned char b[2500]; int i, r = 0; for (i = 0; i < 2500; ++i) b[i] = 0xa5 ^ n; for (i = 0; i < 2500; ++i) r += b[i]; return r; }
'''


def outs(g, live, base):
    ls = []
    for p, t in live:
        p = re.sub(r'@\d+', '', p)
        e = base + p
        k = t[2]
        ls.append('OF(%s);' % e if k == 'f' else 'OX(%s);' % e if k == 'fn' else 'OP(%s);' % e if k in ('p', 'cp', 'p0') else 'O((int)%s);' % e if t[1].startswith('enum') else 'O(%s);' % e)
    return ls


def gen(src, ctx):
    s = src
    wasm = s.p(35)
    g = initgen.InitGen(s, 32 if wasm else 64)
    g.bitfields = s.p(30)
    g.allow_fam = False
    g.cx = initgen.CX(s, g.enums)
    g.preamble(s.rng_(1, 6))
    glob, fns, calls = list(g.out), [], []
    n = 0
    for k in range(s.rng_(2, 7)):
        t = g.type(0) if not g.aggs or s.p(35) else ('r', s.i(len(g.aggs)))
        u = t
        while u[0] == 'a':
            u = u[1]
        if u[0] == 'r' and not (g.aggs[u[1]].tag or g.aggs[u[1]].td):
            continue
        if t[0] == 'r' and s.p(20):
            t = ('a', t, s.rng_(1, 3))
        if not g.live_count(t) or g.live_count(t) > 150:
            continue
        kind = s.weighted([(4, 'global'), (4, 'auto'), (2, 'lstatic'), (2, 'lit'), (1, 'glit')])
        if kind in ('lit', 'glit') and t[0] == 's':
            kind = 'global'
        if kind == 'lit' and t[0] == 'a' and t[1][0] == 'a':
            kind = 'auto'
        g.const = kind not in ('auto', 'lit')
        g.active, g.touched = {}, []
        unsized = t[0] == 'a' and s.p(35)
        v = 'o%d' % k
        txt = g.init(t, '', 0)
        live = g.live(t, '')
        n += len(live)
        if unsized and kind != 'lit':
            # the length follows from the highest element initialised
            if txt.startswith('"') or txt.startswith('{"') and g.str_ok(t):
                dt = ('a', t[1], None)
                m = None
                q = outs(g, [], '') + ['{ int i; for (i = 0; i < (int)(sizeof %s / sizeof %s[0]); ++i) O(%s[i]); }' % (v, v, v)]
            else:
                top = [int(re.match(r'\[(\d+)\]', p).group(1)) for p in g.touched if p.startswith('[')]
                m = max(top) + 1 if top else 0
                if m == 0:
                    continue
                dt = ('a', t[1], None)
                q = outs(g, [x for x in live if int(re.match(r'\[(\d+)\]', x[0]).group(1)) < m], v)
            q = ['O(sizeof %s / sizeof %s[0]);' % (v, v)] + q
        else:
            dt = t
            q = outs(g, live, v)
        if kind == 'global':
            qual = s.choice(['', 'static ', 'static ', 'const ', 'static const '])
            if qual.endswith('const ') and g.decl(dt, 'x').startswith(('const', 'int (*')):
                qual = 'static '
            glob.append('%s = %s;' % (g.decl(dt, v, qual), txt))
            fns.append('static void t%d(void) {\n  %s\n}' % (k, '\n  '.join(q)))
        elif kind == 'glit' and t[0] in 'ar':
            ty = g.decl(t, '')
            if t[0] == 'a':
                glob.append('static %s = %s;' % (g.decl(('a', t[1], None), v), txt) if not txt.startswith('(') else '')
                fns.append('static void t%d(void) {\n  %s\n}' % (k, '\n  '.join(outs(g, [], '') or ['O(1);'])))
            else:
                ty = g.aggs[t[1]].spell()
                glob.append('static %s *%s = &(%s)%s;' % (ty, v, ty, txt))
                fns.append('static void t%d(void) {\n  %s\n}' % (k, '\n  '.join(outs(g, live, '(*%s)' % v))))
        elif kind == 'lit':
            if t[0] == 'r':
                ty = g.aggs[t[1]].spell()
                if s.p(50):
                    fns.append('static void t%d(void) {\n  %s *p = &(%s)%s;\n  %s\n}' % (k, ty, ty, txt, '\n  '.join(outs(g, live, '(*p)'))))
                else:
                    fns.append('static void t%d(void) {\n  %s %s;\n  %s = (%s)%s;\n  %s\n}' % (k, ty, v, v, ty, txt, '\n  '.join(q)))
            else:
                e = g.decl(t, '*p') if t[1][0] == 's' and t[1][2] == 'fn' else None
                if e:
                    continue
                el = g.decl(t[1], '')
                if txt.startswith('"'):
                    txt = '{%s}' % txt
                fns.append('static void t%d(void) {\n  %s = (%s[%s])%s;\n  %s\n}' % (
                    k, g.decl(t[1], '*p'), el, t[2] if not unsized else t[2], txt, '\n  '.join(outs(g, live, 'p'))))
        elif kind == 'lstatic':
            fns.append('static void t%d(void) {\n  static %s = %s;\n  %s\n}' % (k, g.decl(dt, v), txt, '\n  '.join(q)))
        else:
            pre = 'int z%d = %d;\n  ' % (k, s.i(9)) if s.p(30) else ''
            fns.append('static void t%d(void) {\n  %s%s = %s;\n  %s\n}' % (k, pre, g.decl(dt, v), txt, '\n  '.join(q)))
        calls.append('soil(%d); t%d();' % (s.i(200), k))
        if kind == 'lstatic' and s.p(30):
            calls.append('t%d();' % k)
    # constant expressions in other places
    for k in range(s.rng_(0, 4)):
        c, v = g.cx.gen(4)
        w = s.i(4)
        if w == 0:
            glob.append('enum { KX%d = %s, KY%d };' % (k, c, k) if v < (1 << 31) - 1 else 'enum { KX%d = %s };' % (k, c))
            calls.append('O(KX%d);' % k + (' O(KY%d);' % k if v < (1 << 31) - 1 else ''))
        elif w == 1:
            glob.append('static char AX%d[((%s) & 63) + 1];' % (k, c))
            calls.append('O(sizeof AX%d);' % k)
        elif w == 2:
            fns.append('static int sw%d(int x) { switch (x) { case %s: return 1; default: return 0; } }' % (k, c))
            calls.append('O(sw%d(%s)); O(sw%d(%s));' % (k, v if v > -(1 << 31) else '-2147483647-1', k, 0 if v else 1))
        else:
            glob.append('struct BX%d { unsigned b : ((%s) & 15) + 1; };' % (k, c))
            calls.append('{ struct BX%d b; b.b = -1; O(b.b); }' % k)
        n += 1
    text = HEAD + '\n'.join(glob + fns) + '\nint main(void) {\n  ' + '\n  '.join(calls) + '\n  return 0;\n}\n'
    return wasm, n, text


prepare = prepare_bare


def check(case, ctx):
    wasm, n, text = case
    ctx.write('p.c', text)
    if wasm:
        ref, why = wasm_ref(ctx, text)
        if ref is None:
            return Res('skip', False, why)
        out, why = wcc_run(ctx)
        if out is None:
            return fail(why)
        if out != ref:
            return fail('wasm: ' + first_diff(ref, out))
        return Res('pass', n >= 8, units=ref.count(b'\n'))
    r, why = bare_ref(ctx, ['p.c'])
    if r is None:
        return Res('skip', False, why)
    msg = None
    x = run([xcc(ctx), '-o', 'x.out', 'p.c'], cwd=ctx.dir, cpu=20)
    if x.rc != 0:
        msg = 'xcc rejects the program: ' + x.short()
    else:
        x = run([os.path.join(ctx.dir, 'x.out')], cwd=ctx.dir, cpu=5)
        if x.rc != 0:
            msg = 'program failed: ' + x.short()
        elif x.out != r.out:
            msg = 'x64: ' + first_diff(r.out, x.out)
    if msg:
        bad = ub_free(ctx, ['p.c'], r.out)
        if bad:
            return Res('skip', False, 'not usable as an oracle: %s / %s' % (bad, msg))
        return fail(msg)
    return Res('pass', n >= 8, units=r.out.count(b'\n'))


def render(case):
    return '/* %s */\n%s' % ('wasm' if case[0] else 'x64', case[2])
