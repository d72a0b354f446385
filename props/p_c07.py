"""Type layout against gcc (x86-64) and clang --target=wasm32."""
import os

import declgen
from core import Res, fail, run
from diffprog import bare_ref, first_diff, gcc_ref, prepare_bare, xcc
from wasm import Node

ID = 'C07'
N = {'quick': 3600, 'thorough': 120000}
BUILDS = ('native', 'wcc')
RULE = ('a case is a set of generated struct/union/enum/typedef declarations compiled for one target; evaluations = sizes, '
        'alignments, offsets and bit-field images compared; non-trivial when at least 8 of them come from aggregates; distinct by text')
ASSUMPTIONS = ['the layout of gcc on x86-64 and of clang on wasm32 is the platform ABI xcc follows; an alarm also needs clang on x86-64 to agree with gcc',
               '_Bool and long double are left out: xcc gives them other sizes (documented by its headers)',
               'Node 22 executes wasm correctly']
CLW = ['clang', '--target=wasm32', '-O0', '-w', '-std=gnu11', '-ffreestanding', '-nostdlib', '-Wl,--no-entry', '-Dmain=run_main', '-Wl,--export=run_main',
       '-Wl,--allow-undefined', '-Wl,--export-memory', '-Wl,-z,stack-size=200000']
HEAD = '''#include <stddef.h>
#ifdef CLW
extern void outll(long long);
#define O(x) outll((long long)(x))
#else
extern int printf(const char *, ...);
#define O(x) printf("%lld\\n", (long long)(x))
#endif
static unsigned char *by; static int bn;
static void clr(void *p, int n) { int i; by = p; bn = n; for (i = 0; i < n; ++i) by[i] = 0; }
static void set(void *p, int n) { int i; for (i = 0; i < n; ++i) ((unsigned char *)p)[i] = 0xff; }
static void image(void) { int i; for (i = 0; i < bn; ++i) if (by[i]) O(i * 256 + by[i]); O(-1); }
'''


def paths(g, t, path, out):
    """non-bit-field members (path, type) and bit-fields (path, bits), arrays through one element"""
    if t[0] == 'a':
        u = t[1]
        if u[0] != 's':
            paths(g, u, path + '[%d]' % (t[2] - 1), out)
    elif t[0] == 'r':
        a = g.aggs[t[1]]
        for m, u, b in a.mem:
            dot = '.' if path else ''
            if m is None:
                if b is None:
                    paths(g, u, path, out)
            elif b is not None:
                out.append((path + dot + m, b))
            else:
                out.append((path + dot + m, None))
                paths(g, u, path + dot + m, out)
        if a.fam:
            out.append((path + dot + a.fam[0], -1))


def gen(src, ctx):
    s = src
    wasm = s.p(35)
    g = declgen.DeclGen(s, 32 if wasm else 64)
    g.bitfields = s.p(35)
    g.allow_fam = not g.bitfields
    g.preamble(s.rng_(1, 9))
    fns, body = [], []
    plan = []
    n = 0
    for k, a in enumerate(g.aggs):
        if not (a.tag or a.td):
            continue
        sp = a.spell()
        if g.bitfields:
            lv = leaves(g, ('r', k), '', ())[:60]
            ls = ['O(sizeof(%s)); O(_Alignof(%s));' % (sp, sp)]
            pl = []
            for p, t, b, trail in lv:
                if b is None:
                    ls.append('clr(&u, sizeof u); set(&u.%s, sizeof u.%s); image();' % (p, p))
                    pl.append((p, None, None, trail))
                else:
                    ls.append('clr(&u, sizeof u); u.%s = -1; O(u.%s); image();' % (p, p))
                    pl.append((p, t[1], b, trail))
            plan.append((sp, tuple(pl)))
            n += len(pl)
        else:
            ps = []
            paths(g, ('r', k), '', ps)
            ls = ['O(sizeof(%s));' % sp, 'O(_Alignof(%s));' % sp]
            if a.mem and not a.fam and s.p(25):
                ls.append('O(sizeof(%s[%d]));' % (sp, s.rng_(1, 5)))
                ls.append('{ struct { char c; %s t; char d; } *q = 0; O((size_t)&q->t); O((size_t)&q->d); O(sizeof *q); }' % sp)
            for p, b in ps:
                ls.append('O(offsetof(%s, %s));' % (sp, p))
                if b is None:
                    ls.append('O(sizeof(((%s *)0)->%s));' % (sp, p))
                n += 2
        fns.append('static void t%d(void) {\n  static %s u;\n  %s\n}' % (k, sp, '\n  '.join(ls)))
        body.append('t%d();' % k)
    if not g.bitfields:
        for d, t in g.tds:
            body.append('O(sizeof(%s)); O(_Alignof(%s));' % (d, d))
        for e, v in g.enums:
            body.append('O(%s);' % e)
        for _ in range(s.rng_(0, 4)):
            t = g.type(0)
            x = g.nm('v')
            g.out.append('static %s;' % g.decl(t, x))
            body.append('O(sizeof(%s)); O(sizeof %s);' % (x, x))
            if t[0] == 'a':
                body.append('O((char *)&%s[1] - (char *)&%s[0]); O(sizeof(%s) / sizeof(%s[0]));' % (x, x, x, x))
    text = HEAD + '\n'.join(g.out + fns) + '\nint main(void) {\n  ' + '\n  '.join(body) + '\n  return 0;\n}\n'
    return wasm, n, text, tuple(plan)


def leaves(g, t, path, trail):
    """members that hold storage: (path, type, bits, trail); trail = ((aggregate node, is union, member index), ...)"""
    out = []
    a = g.aggs[t[1]]
    run = set()          # base types of the current run of bit-fields
    for j, (m, u, b) in enumerate(a.mem):
        if b is None:
            run = set()
        else:
            run.add(g.width(u[1]))
        tr = trail + ((path, a.union, j),)
        p = path + ('.' if path and m else '') + (m or '')
        if m is None:
            if b is None:
                tr = trail + ((path + '/%d' % len(trail), a.union, j),)
                out += leaves(g, u, path, tr)
        elif b is not None:
            out.append((p, u, b, tr if len(run) == 1 else trail + ((path, a.union, j, 'mixed'),)))
        elif u[0] == 'r':
            out += leaves(g, u, p, tr)
        else:
            out.append((p, u, None, tr))
    return out


def consistent(plan, out, lb):
    """bit-field layout rules over the images the program printed"""
    it = iter([int(x) for x in out.split()])
    n = 0
    for sp, pl in plan:
        size, al = next(it), next(it)
        if size < 0 or al <= 0 or size % al or al & (al - 1):
            return n, '%s: sizeof %d, _Alignof %d' % (sp, size, al)
        im = []
        prev = None
        for p, t, b, tr in pl:
            val = next(it) if b is not None else None
            bits = 0
            for x in iter(lambda: next(it), -1):
                bits |= (x & 255) << (x >> 8) * 8
                if x >> 8 >= size:
                    return n, '%s.%s changes bytes outside the object' % (sp, p)
            n += 2
            if bits == 0:
                if b is None:        # an empty struct
                    continue
                return n, '%s.%s has no storage' % (sp, p)
            lo = (bits & -bits).bit_length() - 1
            w = bits.bit_length() - lo
            if bits >> lo != (1 << w) - 1 or (b is not None and w != b) or (b is None and (lo % 8 or w % 8)):
                return n, '%s.%s (%s bits) occupies %x' % (sp, p, b, bits)
            if b is not None:
                unsigned = t.startswith('unsigned')
                want = (1 << b) - 1 if unsigned else -1
                if b == 64 and unsigned:
                    want = -1
                if val != want:
                    return n, '%s.%s = -1 reads back as %d' % (sp, p, val)
                tw = declgen.BITS[t] if t not in ('long', 'unsigned long') else lb
                if prev and len(tr[-1]) == 3 and prev[0] == tw and prev[3][:-1] == tr[:-1] and not tr[-1][1] and prev[3][-1][0] == tr[-1][0] and prev[3][-1][2] + 1 == tr[-1][2]:
                    end = prev[1]
                    if end % tw and end % tw + b <= tw and lo != end:
                        return n, '%s.%s is not packed behind its neighbour: bit %d, expected %d' % (sp, p, lo, end)
                prev = (tw, lo + w, b, tr)
            else:
                prev = None
            for p2, bits2, tr2 in im:
                for (n1, u1, j1, *_), (n2, u2, j2, *_) in zip(tr, tr2):
                    if j1 != j2:
                        break
                if not u1 and bits & bits2:
                    return n, '%s: %s and %s share storage' % (sp, p, p2)
            im.append((p, bits, tr))
    return n, None


prepare = prepare_bare


def worker_init(ctx):
    ctx.x['node'] = Node(ctx.dir)


def worker_exit(ctx):
    ctx.x['node'].stop()


def wasm_ref(ctx, text, cfile='p.c', opts=()):
    """output lines of clang's wasm32 build, or None"""
    r = run([*CLW, *opts, '-DCLW', '-o', 'c.wasm', cfile], cwd=ctx.dir, cpu=60)
    if r.rc != 0:
        return None, 'clang wasm32: ' + r.short()
    o = ctx.x['node'].run('c.wasm', timeout=20, bare='run_main')
    if o['code'] != 0:
        return None, 'clang wasm32 run: %s' % o['err']
    return o['out'], ''


def wcc_run(ctx, cfile='p.c', opts=()):
    try:
        os.unlink('x.wasm')
    except OSError:
        pass
    r = run([os.path.join(ctx.builds['wcc'], 'wcc'), '--stack-size=200000', *opts, '-o', 'x.wasm', cfile], cwd=ctx.dir, cpu=30)
    if r.rc != 0 or not os.path.exists('x.wasm'):
        return None, 'wcc failed: ' + r.short()
    o = ctx.x['node'].run('x.wasm', timeout=20)
    if o['code'] != 0:
        return None, 'wasm program failed: code %s %s' % (o['code'], o['err'])
    return o['out'], ''


def check(case, ctx):
    wasm, n, text, plan = case
    ctx.write('p.c', text)
    ref = None
    if not plan:
        if wasm:
            ref, why = wasm_ref(ctx, text)
        else:
            r, why = bare_ref(ctx, ['p.c'])
            ref = r.out if r else None
        if ref is None:
            return Res('skip', False, why)
    if wasm:
        out, why = wcc_run(ctx)
        if out is None:
            return fail(why)
    else:
        x = run([xcc(ctx), '-o', 'x.out', 'p.c'], cwd=ctx.dir, cpu=20)
        if x.rc != 0:
            return fail('xcc rejects the program: ' + x.short())
        x = run([os.path.join(ctx.dir, 'x.out')], cwd=ctx.dir, cpu=5)
        if x.rc != 0:
            return fail('program failed: ' + x.short())
        out = x.out
    where = 'wasm' if wasm else 'x64'
    if plan:
        try:
            k, msg = consistent(plan, out, 32 if wasm else 64)
        except StopIteration:
            return fail(where + ': output ends early')
        return fail('%s: %s' % (where, msg)) if msg else Res('pass', n >= 8, units=k)
    if out != ref:
        if not wasm:
            c, why = gcc_ref(ctx, ['p.c'], 'c.out', cc=['clang', '-w', '-std=gnu11'])
            if c is None or c.out != ref:
                return Res('skip', False, 'clang differs from gcc ' + why)
        return fail('%s: %s' % (where, first_diff(ref, out)))
    return Res('pass', n >= 8, units=ref.count(b'\n'))


def render(case):
    return '/* %s */\n%s' % ('wasm' if case[0] else 'x64', case[2])
