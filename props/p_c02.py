"""Control flow: generated programs against gcc, and against an interpreter."""
import cgprop
from cgprop import ASSUMPTIONS, prepare  # noqa: F401
from core import Res, fail
from diffprog import against_expected
from flowgen import FlowGen

ID = 'C02'
N = {'quick': 6400, 'thorough': 250000}
BUILDS = ('native',)
RULE = ('a case is a generated program: either of lib/flowgen.py, whose functions are also code of a small machine interpreted '
        'here for the expected output, or of lib/cgen.py (UB-free), compared with gcc; non-trivial when it prints at least 4 '
        'lines; distinct by program text; evaluations = output lines compared')
PROFILES = [
    dict(goto=60, switch=70, loops=80, flo=5, structs=10, unions=0, varargs=0, nest=4),
    dict(goto=0, switch=90, bigswitch=60, loops=40, flo=0, structs=0, unions=0),
    dict(goto=90, switch=20, loops=40, flo=5, structs=0, unions=0, funcs=(2, 5)),
    dict(loops=95, nest=5, goto=5, stmts=(2, 6), flo=10, structs=10),
    dict(logic=50, ternary=50, comma=20, sideeff=45, loops=40, floatcond=40, flo=25, structs=10),
    dict(calls=80, loops=40, funcs=(4, 8), stmts=(2, 6), structs=10, static_=50),
    dict(stmts=(10, 25), funcs=(1, 2), nest=4, params=(0, 8)),
]


def gen(src, ctx):
    if src.p(30):
        src.label('cgen')
        return 'cgen', cgprop.gen(src, PROFILES), ''
    src.label('flowgen')
    t, e = FlowGen(src).program()
    return 'vm', t, e


def check(case, ctx):
    k, text, exp = case
    if k == 'cgen':
        return cgprop.check(text, ctx)
    msg = against_expected(ctx, text, exp)
    if msg:
        return fail(msg)
    n = exp.count('\n')
    return Res('pass', n >= 4, units=n)


def render(case):
    return case[1] + ('\n/* expected:\n' + case[2] + '*/\n' if case[2] else '')
