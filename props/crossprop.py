"""Shared body of the properties of the cross compilers: programs of C01-C05 and C08, run by the emulator in /verif/emu."""
import os

import cgprop
import p_c01
import p_c02
import p_c03
import p_c04
import p_c05
from build import VERIF
from callgen import CallGen
from cexpr import CX
from core import Res, fail, run
from diffprog import against_expected, compile_run, first_diff, prepare_bare
from flowgen import FlowGen
from pressgen import PressGen

RULE = ('a case is a program of the generators of C01 (integer expressions), C02 (control flow), C03 (aggregates), C04 (floating point) or C05 '
        '(calls, in one or two units; or many values alive across calls, lib/pressgen.py), compiled, assembled and linked by the %s build of xcc with its own libc and run by the emulator, '
        'a quarter of them with --apply-ssa; non-trivial when it prints at least 2 lines; evaluations = lines compared')
ASSUMPTIONS = ['emu/emu.c executes the instructions as the architecture manual says; it refuses encodings it does not know, misaligned stack '
               'pointers, writes to text and wild accesses, and starts with garbage in the registers',
               'aggregate programs are compared with gcc on x86-64, as in C03']
CALLS = [(m, kw) for m, kw in p_c05.PROFILES if m in ('one', 'two')]


def prepare(ctx):
    prepare_bare(ctx)
    out = os.path.join(ctx.root, 'emu')
    r = run(['gcc', '-O2', '-fno-strict-aliasing', '-ffp-contract=off', '-fwrapv', '-o', out, os.path.join(VERIF, 'emu', 'emu.c'), '-lm'], cwd=ctx.root, cpu=60)
    assert r.rc == 0, r.short()
    os.chmod(out, 0o755)
    ctx.x['emu'] = out


def target(ctx, variant):
    ctx.x['variant'] = variant
    ctx.x['runner'] = (ctx.x['emu'],)


def gen(s, ctx):
    k = s.weighted([(5, 'int'), (4, 'flo'), (4, 'vm'), (2, 'flow'), (3, 'agg'), (5, 'call'), (2, 'press')])
    opts = ('--apply-ssa',) if s.p(25) else ()
    s.label('kind:' + k)
    if k in ('int', 'flo'):
        ps = (p_c01 if k == 'int' else p_c04).PROFILES
        t, e = CX(s, **ps[s.i(len(ps))]).program()
        return k, opts, (t,), e
    if k == 'vm':
        t, e = FlowGen(s).program()
        return k, opts, (t,), e
    if k == 'press':
        t, e = PressGen(s).program()
        return k, opts, (t,), e
    if k in ('flow', 'agg'):
        return k, opts, (cgprop.gen(s, p_c02.PROFILES if k == 'flow' else p_c03.PROFILES),), ''
    mode, kw = CALLS[s.i(len(CALLS))]
    if mode != 'one':
        kw = dict(kw, tus=2, bitfields=0)
    t, e = CallGen(s, **kw).programs()
    return k, opts, tuple(t), e


def check(case, ctx):
    k, opts, texts, exp = case
    if k in ('flow', 'agg'):
        return cgprop.check(texts[0], ctx, (('xcc', list(opts)),))
    if k != 'call':
        msg = against_expected(ctx, texts[0], exp, (('xcc', list(opts)),))
        if msg:
            return fail(msg)
        n = exp.count('\n')
        return Res('pass', n >= 2, units=n)
    files = []
    for j, t in enumerate(texts):
        files.append('p%d.c' % j)
        ctx.write(files[-1], t)
    ok, r, stage = compile_run(ctx, files, list(opts))
    if not ok:
        return fail('%s failed: %s' % (stage, r.short()))
    exp = exp.encode()
    if r.out != exp:
        return fail('wrong output: ' + first_diff(exp, r.out))
    n = exp.count(b'\n')
    return Res('pass', n >= 2, units=n)


def render(case):
    k, opts, texts, exp = case
    return '%s %s\n' % (k, ' '.join(opts)) + '\n/* ---- next unit ---- */\n'.join(texts) + ('\n/* expected:\n' + exp + '*/\n' if exp else '')
