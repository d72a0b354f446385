"""Macro definition and expansion: token streams against gcc -E, confirmed by clang -E."""
import os
import ppgen
import ppmodel
from core import Res, fail, run

ID = 'C13'
N = {'quick': 18000, 'thorough': 400000}
BUILDS = ('native',)
RULE = ('a case is a text of 4-9 macro definitions (object-like, function-like, variadic, with # and ##, redefined on the way) '
        'and 8-25 uses; evaluations = uses whose pp-token sequence was compared with gcc -E (a difference counts only if clang -E '
        'agrees with gcc and a Prosser hide-set model does not give the same answer as cpp); non-trivial when at least 5 uses expand something')
ASSUMPTIONS = ['a comment between two tokens of a macro body pastes them (tests/cpptest.sh asks for it); generated comments there '
               'stand beside white space', 'pp-numbers are valid literals', 'UCNs, digraphs and _Pragma are not generated']
PROFILES = [{}, dict(concat=40), dict(strz=40), dict(variadic=70), dict(gnu=45, variadic=50), dict(multiline=40, comments=40),
            dict(undef=50), dict(punct=90, comments=5), dict(objs=9, funs=9, depth=4), dict(objs=2, funs=2, undef=40)]


def gen(src, ctx):
    k = src.i(len(PROFILES))
    src.label('profile:%d' % k)
    return ppgen.PPGen(src, **PROFILES[k]).program()


def check(case, ctx):
    ctx.write('a.c', case)
    g = run(['gcc', '-E', '-w', '-std=gnu11', '-P', 'a.c'], cwd=ctx.dir, cpu=10)
    if g.rc != 0:
        return Res('skip', False, 'gcc: ' + g.short())
    if len(g.out) > 40000:
        return Res('skip', False, 'the expansion is too big')
    x = run([os.path.join(ctx.builds['native'], 'cpp'), 'a.c'], cwd=ctx.dir, cpu=10)
    eg, ex = ppgen.by_mark(g.out), ppgen.by_mark(x.out)
    if x.rc == 0 and eg == ex:
        return Res('pass', sum(len(v) > 4 for v in eg.values()) >= 5, units=len(eg))
    c = run(['/usr/bin/clang-18', '-E', '-w', '-std=gnu11', '-P', 'a.c'], cwd=ctx.dir, cpu=10)
    if c.rc != 0:
        return Res('skip', False, 'clang: ' + c.short())
    ec = ppgen.by_mark(c.out)
    if x.rc != 0:
        return fail('cpp failed: ' + x.short())
    em = None
    for k in eg:
        if eg[k] == ec.get(k) and ex.get(k) != eg[k]:
            # C leaves nested replacement partly unspecified (6.10.3.4p4): Prosser's answer is as good as gcc's
            if em is None:
                try:
                    em = ppgen.by_mark(None, ppmodel.Model(case.encode()).run())
                except ppmodel.TooBig:
                    return Res('skip', False, 'model: too big')
            if em.get(k) == ex.get(k):
                continue
            return fail('use %d: expected %r, got %r' % (k, b' '.join(eg[k])[:600], b' '.join(ex.get(k, [b'<nothing>']))[:600]))
    return Res('pass', True, units=sum(eg[k] == ec.get(k) for k in eg))


def render(case):
    return case
