"""WebAssembly: programs compiled by wcc and run by Node."""
import os

import cgen
import p_c01
import p_c03
import p_c04
import p_c05
from callgen import CallGen
from cexpr import CX
from core import Res, fail, run
from diffprog import bare_ref, first_diff, prepare_bare as prepare, ub_free  # noqa: F401
from flowgen import FlowGen
from pressgen import PressGen
from wasm import Node

ID = 'C10'
N = {'quick': 8000, 'thorough': 100000}
BUILDS = ('wcc',)
RULE = ('a case is a program of the generators of C01 (integer expressions, ILP32), C02 (control flow without goto), C04 (floating point), C03 (aggregates; against gcc, long defined as int) or '
        'C05 (calls, in one or two units), compiled by wcc with its libc and run by Node; non-trivial when it prints at least 3 lines; '
        'evaluations = lines compared')
ASSUMPTIONS = ['Node 22 executes wasm correctly', 'ILP32: long and pointers have 32 bits; otherwise as C01, C02, C04 and C05']
CALLS = [(m, kw) for m, kw in p_c05.PROFILES if m in ('one', 'two')]


def worker_init(ctx):
    ctx.x['node'] = Node(ctx.dir)


def worker_exit(ctx):
    ctx.x['node'].stop()


def gen(s, ctx):
    k = s.weighted([(5, 'int'), (4, 'flo'), (4, 'vm'), (5, 'call'), (5, 'agg'), (1, 'press')])
    s.label('kind:' + k)
    if k in ('int', 'flo'):
        ps = (p_c01 if k == 'int' else p_c04).PROFILES
        t, e = CX(s, **dict(ps[s.i(len(ps))], long_size=4)).program()
        return k, (t,), e
    if k == 'vm':
        t, e = FlowGen(s, goto=False).program()
        return k, (t,), e
    if k == 'press':
        t, e = PressGen(s).program()
        return k, (t,), e
    if k == 'agg':
        ps = p_c03.PROFILES
        return k, (cgen.Gen(s, cgen.Prof(**dict(ps[s.i(len(ps))], long_size=4, goto=0))).program(),), None
    mode, kw = CALLS[s.i(len(CALLS))]
    kw = dict(kw, long_size=4, va_structs=0)
    if mode != 'one':
        kw = dict(kw, tus=2, bitfields=0)
    t, e = CallGen(s, **kw).programs()
    return k, tuple(t), e


def check(case, ctx):
    k, texts, exp = case
    files = []
    for j, t in enumerate(texts):
        files.append('p%d.c' % j)
        ctx.write(files[-1], t)
    try:
        os.unlink('x.wasm')
    except OSError:
        pass
    ref = None
    if exp is None:
        ctx.write('q.c', '#define LONG int\n' + texts[0])
        g, why = bare_ref(ctx, ['q.c'])
        if g is None:
            return Res('skip', False, why)
        ref = g.out

    def bad(msg):
        why = ref is not None and ub_free(ctx, ['q.c'], ref)
        return Res('skip', False, 'program not usable as an oracle: ' + why) if why else fail(msg)

    r = run([os.path.join(ctx.builds['wcc'], 'wcc'), '--stack-size=200000', '-o', 'x.wasm', *files], cwd=ctx.dir, cpu=30)
    if r.rc != 0 or not os.path.exists('x.wasm'):
        return bad('wcc failed: ' + r.short())
    o = ctx.x['node'].run('x.wasm', timeout=20)
    if o['code'] != 0:
        return bad('the program failed: code %s %s' % (o['code'], o['err']))
    exp = exp.encode() if ref is None else ref
    if o['out'] != exp:
        return bad('wrong output: ' + first_diff(exp, o['out']))
    n = exp.count(b'\n')
    return Res('pass', n >= 3, units=n)


def render(case):
    k, texts, exp = case
    return k + '\n' + '\n/* ---- next unit ---- */\n'.join(texts) + ('\n/* expected:\n' + exp + '*/\n' if exp is not None else '\n')
