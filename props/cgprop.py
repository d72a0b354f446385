"""Shared body of the properties decided on cgen programs against gcc."""
import cgen
from core import Res
from diffprog import against_gcc, prepare_bare as prepare  # noqa: F401

ASSUMPTIONS = ['gcc -O0 -ffp-contract=off defines the expected output of a generated program; a disagreement is charged '
               'to xcc only when gcc -O1 with ASan+UBSan is clean and agrees, and clang -O2 agrees',
               'LP64, signed char, arithmetic right shift']
RULE = ('a case is a generated UB-free program (lib/cgen.py, profile stressing this property) whose checksums of all '
        'state are printed; non-trivial when it prints at least 4 lines; distinct by program text; evaluations = output '
        'lines compared')


def gen(src, profiles):
    kw = profiles[src.i(len(profiles))]
    g = cgen.Gen(src, cgen.Prof(**kw))
    return g.program()


def check(text, ctx, modes=(('xcc', []),)):
    r = against_gcc(ctx, text, modes)
    if r.status == 'pass':
        r.nontrivial = r.units >= 4
    return r
