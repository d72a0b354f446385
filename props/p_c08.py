"""--apply-ssa keeps the meaning of every program."""
import time
from cexpr import CX
from callgen import CallGen
from flowgen import FlowGen
from pressgen import PressGen
import cgprop
from core import Res, fail, run
from diffprog import compile_run, first_diff, against_expected
import p_c01
import p_c02
import p_c03
import p_c04
import p_c05

ID = 'C08'
N = {'quick': 8000, 'thorough': 300000}
BUILDS = ('native',)
RULE = ('a case is a generated program of one of four kinds: control flow over register variables (lib/flowgen.py), expressions '
        'or calls, each with known expected output, compiled '
        'with --apply-ssa, or a control-flow/aggregate program compiled with and without --apply-ssa whose outputs must '
        'agree; non-trivial when at least 2 lines are compared; distinct by program text')
ASSUMPTIONS = []
FLOW = p_c02.PROFILES + p_c03.PROFILES[:3]
CALLS = [kw for m, kw in p_c05.PROFILES if m == 'one']


def gen(src, ctx):
    k = src.weighted([(6, 'vm'), (4, 'flow'), (3, 'int'), (2, 'flo'), (2, 'call'), (1, 'press')])
    src.label('kind:' + k)
    if k == 'vm':
        t, e = FlowGen(src).program()
        return k, t, e
    if k == 'flow':
        return k, cgprop.gen(src, FLOW), ''
    if k == 'press':
        t, e = PressGen(src).program()
        return k, t, e
    if k == 'call':
        g = CallGen(src, **CALLS[src.i(len(CALLS))])
        t, e = g.programs()
        return k, t[0], e
    ps = p_c01.PROFILES if k == 'int' else p_c04.PROFILES
    t, e = CX(src, **ps[src.i(len(ps))]).program()
    return k, t, e


def check(case, ctx):
    k, text, exp = case
    if k != 'flow':
        msg = against_expected(ctx, text, exp, [('--apply-ssa', ['--apply-ssa'])])
        if msg:
            return fail(msg)
        n = exp.count('\n')
        return Res('pass', n >= 2, units=n)
    ctx.write('p.c', text)
    ok, r, stage = compile_run(ctx, ['p.c'], [])
    if not ok or r.timeout:
        return Res('skip', False, 'baseline %s: %s' % (stage, r.short()))
    t0 = time.time()
    ok2, r2, stage = compile_run(ctx, ['p.c'], ['--apply-ssa'], out='s.out')
    if not ok2 and stage == 'compile' and time.time() - t0 > 15 and len(text) > 8000:
        return Res('skip', False, 'the optimiser is slow on this big function')
    if not ok2:
        msg = '--apply-ssa: %s failed: %s' % (stage, r2.short())
    elif r2.out != r.out:
        msg = '--apply-ssa changes the output: ' + first_diff(r.out, r2.out)
    else:
        n = r.out.count(b'\n')
        return Res('pass', n >= 2, units=n)
    # only a program without undefined behaviour counts
    from diffprog import bare_ref, ub_free
    ref, why = bare_ref(ctx, ['p.c'])
    if ref is None:
        return Res('skip', False, why)
    bad = ub_free(ctx, ['p.c'], ref.out)
    if bad:
        return Res('skip', False, bad)
    if ref.out == (r2.out if ok2 else None):
        return Res('skip', False, 'the default mode is the wrong one: ' + msg)
    return fail(msg)


def render(case):
    return case[1] + ('\n/* expected:\n' + case[2] + '*/\n' if case[2] else '')
