"""Integer expressions: cexpr programs against their evaluated expectation."""
from cexpr import CX
from core import Res, fail
from diffprog import against_expected

ID = 'C01'
N = {'quick': 10000, 'thorough': 400000}
BUILDS = ('native',)
RULE = ('a case is a generated program of up to 50 integer expressions over every integer type, each with its value '
        'computed from C11 by the evaluator in lib/cexpr.py; non-trivial when it has at least 3 value lines; '
        'distinct by program text; evaluations = value lines compared')
ASSUMPTIONS = ['LP64, two\'s complement, arithmetic right shift of negative values, as documented in DESIGN.md',
               'the evaluator was validated against gcc -fsanitize=undefined on the same generator']

PROFILES = [
    {}, {}, dict(depth=4), dict(depth=5, exprs=(2, 6)), dict(const=80), dict(const=80, ctx=80, constctx=60),
    dict(bitfields=50, mem=60), dict(side=40, mem=60), dict(ctx=90), dict(shift=40, div=40), dict(cast=40),
    dict(constctx=80), dict(const=0), dict(const=5, depth=4, call=30), dict(cmp=45, logic=25, tern=25),
]


def gen(src, ctx):
    kw = PROFILES[src.i(len(PROFILES))]
    g = CX(src, **kw)
    text, exp = g.program()
    for k, v in g.used.items():
        src.label(k, v)
    return text, exp


def check(case, ctx):
    text, exp = case
    msg = against_expected(ctx, text, exp)
    if msg:
        return fail(msg)
    n = exp.count('\n')
    return Res('pass', n >= 3, units=n)


def render(case):
    return case[0] + '\n/* expected:\n' + case[1] + '*/\n'


def replay_known(k, ctx):
    """True when the listed input still fails."""
    if k['id'] == 'C01-bool-type':
        return against_expected(ctx, 'int printf(const char*,...);int main(){printf("%d\\n",_Generic(1<2,int:1,default:0));return 0;}\n', '1\n') is not None
    return False
