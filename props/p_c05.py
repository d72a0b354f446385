"""Calls, arguments, returns, variadics; scalar interoperation with gcc objects."""
import os
from callgen import CallGen
from pressgen import PressGen
from core import Res, fail, run
from diffprog import compile_run, first_diff, xcc, XCPU

ID = 'C05'
N = {'quick': 6000, 'thorough': 250000}
BUILDS = ('native',)
RULE = ('a case is a program of 3-8 functions with random parameter lists (scalars, pointers, structs by value, variadic '
        'tails), bodies that observe and change their parameters and call each other, and call sites whose arguments '
        'are generated expressions; expected output computed while generating (lib/callgen.py); modes: many values alive across calls (lib/pressgen.py), one unit, two '
        'units linked by xcc, two units one of which is compiled by gcc -O2; non-trivial when at least 2 lines are '
        'compared; distinct by program text')
ASSUMPTIONS = ['scalar/pointer calls follow the System V psABI; va_list layout, structs by value, _Bool and the upper '
               'bits of narrow stack arguments are private to xcc and not part of the interoperation check']

PROFILES = [('one', {}), ('one', dict(structs=80)), ('one', dict(varargs=80)), ('one', dict(structs=0, flo=60)),
            ('two', {}), ('two', dict(varargs=60, structs=60)),
            ('gx', {}), ('xg', {}), ('gx', dict(varargs=70)), ('xg', dict(varargs=70)),
            ('one', dict(rec=60, bigframe=50)), ('one', dict(nfuncs=(8, 14), maxparams=30))]


def gen(src, ctx):
    if src.p(8):
        src.label('mode:press')
        t, e = PressGen(src).program()
        return 'one', (t,), e
    mode, kw = PROFILES[src.i(len(PROFILES))]
    if mode != 'one':
        kw = dict(kw, tus=2, bitfields=0)
    if mode in ('gx', 'xg'):
        kw.update(structs=0, interop=True)
    g = CallGen(src, **kw)
    texts, exp = g.programs()
    src.label('mode:' + mode)
    return mode, texts, exp


def check(case, ctx):
    mode, texts, exp = case
    exp = exp.encode()
    files = []
    for k, t in enumerate(texts):
        files.append('p%d.c' % k)
        ctx.write(files[-1], t)
    if mode in ('one', 'two'):
        ok, r, stage = compile_run(ctx, files, [])
    else:
        x, g = (0, 1) if mode == 'xg' else (1, 0)
        r = run([xcc(ctx), '-c', '-o', 'x.o', files[x]], cwd=ctx.dir, cpu=XCPU)
        if r.rc != 0:
            return fail('xcc -c failed: ' + r.short())
        r = run(['gcc', '-w', '-O2', '-std=gnu11', '-ffp-contract=off', '-fno-strict-aliasing', '-c', '-o', 'g.o', files[g]],
                cwd=ctx.dir, cpu=60)
        if r.rc != 0:
            return Res('skip', False, 'gcc: ' + r.short())
        r = run(['gcc', '-no-pie', '-o', 'x.out', 'x.o', 'g.o'], cwd=ctx.dir, cpu=60)
        if r.rc != 0:
            return fail('an xcc object does not link with a gcc object: ' + r.short())
        r = run([os.path.join(ctx.dir, 'x.out')], cwd=ctx.dir, cpu=10)
        ok, stage = r.rc == 0, 'run'
    if not ok:
        return fail('%s: %s failed: %s' % (mode, stage, r.short()))
    if r.out != exp:
        return fail('%s: wrong output: %s' % (mode, first_diff(exp, r.out)))
    n = exp.count(b'\n')
    return Res('pass', n >= 2, units=n)


def render(case):
    mode, texts, exp = case
    return 'mode %s\n' % mode + '\n/* ---- next unit ---- */\n'.join(texts) + '\n/* expected:\n' + exp + '*/\n'
