"""Floating-point expressions: cexpr programs against their evaluated expectation."""
from cexpr import CX
from core import Res, fail
from diffprog import against_expected

ID = 'C04'
N = {'quick': 10000, 'thorough': 400000}
BUILDS = ('native',)
RULE = ('a case is a generated program of up to 50 expressions mixing float, double and integer types, each with its value '
        'computed from C11 by the evaluator in lib/cexpr.py; non-trivial when it has at least 3 value lines; '
        'distinct by program text; evaluations = value lines compared')
ASSUMPTIONS = ['LP64, two\'s complement, arithmetic right shift of negative values, as documented in DESIGN.md',
               'the evaluator was validated against gcc -fsanitize=undefined on the same generator']

PROFILES = [
    dict(flo=50), dict(flo=50), dict(flo=80), dict(flo=50, depth=4), dict(flo=50, depth=5, exprs=(2, 6)),
    dict(flo=60, const=80), dict(flo=60, const=80, ctx=80), dict(flo=50, side=40, mem=60), dict(flo=50, ctx=90),
    dict(flo=60, cast=40), dict(flo=60, cmp=45, logic=25, tern=25), dict(flo=70, constctx=80), dict(flo=60, const=0),
    dict(flo=50, const=5, depth=4, call=40), dict(flo=30, bitfields=40),
]


def gen(src, ctx):
    kw = PROFILES[src.i(len(PROFILES))]
    g = CX(src, **kw)
    text, exp = g.program()
    for k, v in g.used.items():
        src.label(k, v)
    return text, exp


def check(case, ctx):
    text, exp = case
    msg = against_expected(ctx, text, exp)
    if msg:
        return fail(msg)
    n = exp.count('\n')
    return Res('pass', n >= 3, units=n)


def render(case):
    return case[0] + '\n/* expected:\n' + case[1] + '*/\n'
