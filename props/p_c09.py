"""Self-hosting: the tools compiled by the compiler itself do exactly what the tools compiled by the host compiler do."""
import os
import re

import callgen  # noqa: F401
import cgprop
import crossprop
import declgen  # noqa: F401
import linkgen as lg
import p_c06
import p_c07
import p_c13
import p_c14
import p_c15
import p_c17
import p_c23
from build import REPO
from core import Res, fail, run
from diffprog import prepare_bare  # noqa: F401

ID = 'C09'
N = {'quick': 2500, 'thorough': 30000}
BUILDS = ('native', 'gen2')
RULE = ('a case is an input of one of the other generators (programs of C01-C07, erroneous units of C23, preprocessor input of C13/C14, assembly of C15, modules to link '
        'of C17), one of the compiler\'s own sources, or any of the C texts with random bytes changed; it goes through cpp, cc1, as and ld of both generations; non-trivial when at '
        'least one tool of each produced output; evaluations = pairs of tool runs whose output, messages and exit status were compared')
ASSUMPTIONS = ['the other properties judge what the tools do: this one only compares the two generations',
               'floating literals other than multiples of 1/4 are not used: C leaves the choice between neighbours to the implementation, and it is made by strtod of the C library']
# options of a build that decide what is in the preprocessed text
DEFS = ['-D__XCC', '-D__LP64__', '-D__x86_64__', '-D__linux__', '-D__STDC__', '-D__STDC_VERSION__=201112L', '-D__SIZEOF_POINTER__=8', '-D__SIZEOF_INT__=4',
        '-D__SIZEOF_LONG__=8', '-D__SIZEOF_LONG_LONG__=8', '-D__SIZEOF_SIZE_T__=8']


def own_sources():
    r = []
    for d in ('src', 'libsrc'):
        for p, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if x not in ('tests', 'math', 'obj', 'wcc', 'www', 'node_modules'))
            r += [os.path.relpath(os.path.join(p, f), REPO) for f in sorted(fs) if f.endswith('.c')]
    return sorted(r)


def mutate(s, t):
    b = bytearray(t.encode('latin1', 'replace'))
    for _ in range(s.weighted([(4, 1), (3, 2), (2, 5), (1, 12)])):
        if not b:
            break
        p = s.i(len(b))
        k = s.i(5)
        if k == 0:
            del b[p:p + s.rng_(1, 8)]
        elif k == 1:
            b[p:p] = s.choice([b'(', b')', b'{', b'}', b';', b'*', b'&', b'"', b"'", b',', b'.', b'->', b'[', b']', b'=', b'#', b'\\', b'int ', b'struct ', b'if ', b'0', b'1e', b'0x', b'/*', b':', b'?'])
        elif k == 2:
            b[p] = s.i(256)
        elif k == 3:
            q = s.i(len(b))
            b[p:p] = b[q:q + s.rng_(1, 30)]
        else:
            q = min(len(b) - 1, p + s.rng_(1, 12))
            b[p], b[q] = b[q], b[p]
    return bytes(b).decode('latin1')


def gen(s, ctx):
    c = gen0(s, ctx)
    if c.get('only') != 'cpp':
        for g in ('files', 'heads'):
            c[g] = {f: quarters(t) for f, t in c.get(g, {}).items()}
    return c


def gen0(s, ctx):
    k = s.weighted([(8, 'prog'), (3, 'layout'), (2, 'init'), (4, 'err'), (2, 'macro'), (2, 'dir'), (3, 'asm'), (2, 'link'), (6, 'mut'), (3, 'own')])
    s.label('kind:' + k)
    opts = s.choice([[], [], ['--apply-ssa'], ['-Wall'], ['-O2']])
    if k in ('prog', 'mut'):
        kk, o, texts, _ = crossprop.gen(s, ctx)
        texts = list(texts)
        if k == 'mut':
            if s.p(30):
                texts = [p_c23.PRE + p_c23.build(p_c23.gen(s, ctx))[0].split('\n', 1)[1]]
            texts = [mutate(s, texts[0])]
        return {'k': k, 'files': {'p%d.c' % i: t for i, t in enumerate(texts)}, 'opts': opts, 'link': k == 'prog'}
    if k in ('layout', 'init'):
        c = (p_c07 if k == 'layout' else p_c06).gen(s, ctx)
        return {'k': k, 'files': {'p0.c': c[2]}, 'opts': opts, 'link': False}
    if k == 'err':
        return {'k': k, 'files': {'p0.c': p_c23.build(p_c23.gen(s, ctx))[0]}, 'heads': {'inc.h': p_c23.PRE}, 'opts': opts, 'link': False}
    if k == 'macro':
        return {'k': k, 'files': {'p0.c': p_c13.gen(s, ctx)}, 'opts': [], 'link': False, 'only': 'cpp'}
    if k == 'dir':
        files, po = p_c14.gen(s, ctx)
        return {'k': k, 'files': {'main.c': files['main.c']}, 'heads': {f: t for f, t in files.items() if f != 'main.c'}, 'popts': list(po), 'opts': [], 'link': False, 'only': 'cpp'}
    if k == 'asm':
        c = p_c15.gen(s, ctx)
        t = '\n'.join(c[1]) + '\n' if c[0] == 'combo' else c[0]
        return {'k': k, 'files': {'p0.s': mutate(s, t) if s.p(25) else t}, 'opts': [], 'link': False}
    if k == 'link':
        c = lg.gen_case(s)
        return {'k': k, 'case': c, 'files': {}, 'opts': []}
    return {'k': k, 'own': s.choice(own_sources()), 'opts': opts, 'files': {}, 'link': False}


FLOAT = re.compile(r'(?<![\w.])(0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)[pP][-+]?\d+|(?:\d+\.\d*|\.\d+)(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)(?=[fFlL]?(?![\w.]))')


def quarters(t):
    """the text with every floating literal brought to a multiple of 1/4 below 2**20: which of the neighbours of any other literal is taken may
    depend on the strtod of the C library that the compiler is linked with"""
    def f(m):
        try:
            v = float.fromhex(m.group(1)) if m.group(1)[:2] in ('0x', '0X') else float(m.group(1))
        except (ValueError, OverflowError):
            v = 1.0
        return '%.2f' % (round((v if v < 1 << 20 else 1048576.0) * 4) / 4)
    return FLOAT.sub(f, t)


def render(case):
    if case['k'] == 'own':
        return 'the tree\'s own %s, cc1 %s\n' % (case['own'], ' '.join(case['opts']))
    if case['k'] == 'link':
        return p_c17.render(case['case'])
    return ''.join('==== %s (cc1 %s)\n%s' % (f, ' '.join(case['opts']), t) for f, t in list(case.get('heads', {}).items()) + list(case['files'].items()))


class Diff(Exception):
    pass


def both(ctx, tool, args, st, inp=None, out=None):
    """run a tool of each generation on the same input -> (rc, output)"""
    res = []
    for g in ('', 'gen2'):
        b = ctx.builds['gen2']
        if out:
            try:
                os.unlink(os.path.join(ctx.dir, out))
            except OSError:
                pass
        r = run([os.path.join(b, g + tool), *args], cwd=ctx.dir, inp=inp, cpu=20)
        d = r.out
        if out:
            try:
                with open(os.path.join(ctx.dir, out), 'rb') as f:
                    d = f.read()
            except OSError:
                d = None
        res.append((r, d))
    (a, da), (c, dc) = res
    st[0] += 1
    if a.timeout or c.timeout:
        if a.timeout != c.timeout:
            raise Diff('%s %s: only one of the generations ends in time' % (tool, ' '.join(args)))
        return 1, None
    if a.rc < 0 or c.rc < 0:
        if (a.rc < 0) != (c.rc < 0) and not (a.rc > 0 or c.rc > 0):
            raise Diff('%s %s: generation 1 ends with %s, generation 2 with %s' % (tool, ' '.join(args), a.short(), c.short()))
        return 1, None
    if a.rc != c.rc:
        raise Diff('%s %s: generation 1 ends with %s, generation 2 with %s' % (tool, ' '.join(args), a.short(), c.short()))
    if a.err.replace(b'gen2' + tool.encode(), tool.encode()) != c.err.replace(b'gen2' + tool.encode(), tool.encode()):
        raise Diff('%s %s: generation 1 says %r, generation 2 %r' % (tool, ' '.join(args), a.err[-400:], c.err[-400:]))
    if da != dc:
        p = next((i for i, (x, y) in enumerate(zip(da or b'', dc or b'')) if x != y), min(len(da or b''), len(dc or b'')))
        raise Diff('%s %s: output differs at byte %d: %r and %r' % (tool, ' '.join(args), p, (da or b'')[max(0, p - 60):p + 60], (dc or b'')[max(0, p - 60):p + 60]))
    if da:
        st[1] += 1
    return a.rc, da


def check(case, ctx):
    st = [0, 0]
    try:
        go(case, ctx, st)
    except Diff as e:
        return fail(str(e))
    return Res('pass', st[1] > 0, units=st[0], labels={'kind:' + case['k']: 1, 'outputs compared': st[1]})


def go(case, ctx, st):
    inc = os.path.join(ctx.builds['gen2'], 'include')
    for f in os.listdir(ctx.dir):
        if f.endswith(('.o', '.s', '.c', '.i', '.out')):
            os.unlink(os.path.join(ctx.dir, f))
    for f, t in case.get('heads', {}).items():
        os.makedirs(os.path.dirname(os.path.join(ctx.dir, f)), exist_ok=True)
        ctx.write(f, t)
    if case['k'] == 'link':
        return go_link(case, ctx, st)
    if case['k'] == 'own':
        d = os.path.dirname(os.path.join(REPO, case['own']))
        incs = [x for p in ('src/util', 'src/cc', 'src/cc/frontend', 'src/cc/backend', 'src/cpp', 'src/as', 'src/ld', 'src/cc/arch/x64', 'src/_debug', 'libsrc/_mylib', 'libsrc')
                for x in ('-I', os.path.join(REPO, p))]
        return stages(case, ctx, st, os.path.join(REPO, case['own']), ['-I', d, *incs, '-idirafter', inc])
    objs = []
    for f, t in case['files'].items():
        ctx.write(f, t)
        if f.endswith('.s'):
            both(ctx, 'as', ['-o', 'p.o', f], st, out='p.o')
            continue
        o = stages(case, ctx, st, f, case.get('popts', []) + ['-idirafter', inc], f[:-2])
        if o:
            objs.append(o)
    if case.get('link') and len(objs) == len(case['files']):
        b = ctx.builds['gen2']
        both(ctx, 'ld', ['-o', 'p.out', '-L', os.path.join(b, 'lib'), *objs, os.path.join(b, 'lib', 'crt0.a'), '-lc'], st, out='p.out')


def stages(case, ctx, st, src, popts, base='p'):
    rc, i = both(ctx, 'cpp', [*DEFS, *popts, src], st)
    if rc != 0 or case.get('only') == 'cpp':
        return None
    rc, a = both(ctx, 'cc1', [*case['opts'], '-'], st, inp=i)
    if rc != 0:
        return None
    with open(os.path.join(ctx.dir, base + '.s'), 'wb') as f:
        f.write(a)
    rc, _ = both(ctx, 'as', ['-o', base + '.o', base + '.s'], st, out=base + '.o')
    return base + '.o' if rc == 0 else None


def go_link(case, ctx, st):
    c = case['case']
    b = ctx.builds['gen2']
    p_c17.clean(ctx)
    for n, t in p_c17.texts(c):
        ctx.write(n, t)
    stage, r = p_c17.build(ctx, c, 'x', [os.path.join(b, 'xcc')], [os.path.join(b, 'as')])
    if stage:
        return
    opts = ['-e', c['entry']]
    both(ctx, 'ld', ['-o', 'x.out', *opts, *p_c17.cmdline(c, 'x', [])[0]], st, out='x.out')
