"""Compile-and-run helpers: run a program under xcc and compare its behaviour
with a known expected output, or with the output gcc's build of it gives."""
import os

from core import Res, fail, run

GCC = ['gcc', '-O0', '-w', '-std=gnu11', '-ffp-contract=off', '-fno-strict-aliasing']
XCPU = 20


def first_diff(a, b):
    a = a.split(b'\n')
    b = b.split(b'\n')
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'line %d: expected %r, got %r' % (k + 1, x[:200], y[:200])
    return 'expected %d lines, got %d; first missing/extra: %r' % (
        len(a), len(b), ((a[len(b):] or b[len(a):]) or [b''])[0][:200])


def xcc(ctx):
    return os.path.join(ctx.builds[ctx.x.get('variant', 'native')], 'xcc')


def compile_run(ctx, cfiles, opts, out='x.out', args=(), inp=None):
    """-> (ok, R of the run or of the failing compilation, stage)"""
    try:
        os.unlink(out)
    except OSError:
        pass
    r = run([xcc(ctx), *opts, '-o', out, *cfiles], cwd=ctx.dir, cpu=XCPU)
    if r.rc != 0 and not r.err:     # out of time? --apply-ssa is superlinear in the size of a function
        r = run([xcc(ctx), *opts, '-o', out, *cfiles], cwd=ctx.dir, cpu=4 * XCPU, wall=120)
    if r.rc != 0 or not os.path.exists(os.path.join(ctx.dir, out)):
        return False, r, 'compile'
    x = run([*ctx.x.get('runner', ()), os.path.join(ctx.dir, out), *args], cwd=ctx.dir, cpu=10, inp=inp)
    return x.rc == 0 and not x.timeout, x, 'run'


def against_expected(ctx, text, exp, modes=(('xcc', []),), fname='p.c'):
    """None if every mode prints `exp`, else a failure message."""
    ctx.write(fname, text)
    exp = exp if isinstance(exp, bytes) else exp.encode()
    for name, opts in modes:
        ok, r, stage = compile_run(ctx, [fname], opts)
        if not ok:
            return '%s: %s failed: %s' % (name, stage, r.short())
        if r.out != exp:
            return '%s: wrong output: %s' % (name, first_diff(exp, r.out))
    return None


def gcc_ref(ctx, cfiles, out='g.out', opts=(), cc=None, inp=None):
    """R of the reference run, or None if the reference is unusable."""
    r = run([*(cc or GCC), *opts, '-o', out, *cfiles, '-lm'], cwd=ctx.dir, cpu=60)
    if r.rc != 0:
        return None, 'reference compiler: ' + r.short()
    g = run([os.path.join(ctx.dir, out)], cwd=ctx.dir, cpu=5, inp=inp)
    if g.rc != 0 or g.timeout:
        return None, 'reference run: ' + g.short()
    return g, ''


def prepare_bare(ctx):
    """crt.o: lets reference programs be linked without libc, which is quicker."""
    from build import VERIF
    out = os.path.join(ctx.root, 'crt.o')
    r = run(['gcc', '-O1', '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-c', '-o', out,
             os.path.join(VERIF, 'harness', 'crt.c')], cwd=ctx.root)
    if r.rc == 0:
        os.chmod(out, 0o644)
        ctx.x['crt'] = out


def bare_ref(ctx, cfiles, out='g.out'):
    if 'crt' not in ctx.x:
        return gcc_ref(ctx, cfiles, out)
    r = run([*GCC, '-nostdlib', '-static', '-o', out, *cfiles, ctx.x['crt']], cwd=ctx.dir, cpu=60)
    if r.rc != 0:
        return gcc_ref(ctx, cfiles, out)
    g = run([os.path.join(ctx.dir, out)], cwd=ctx.dir, cpu=5)
    if g.rc != 0 or g.timeout:
        return None, 'reference run: ' + g.short()
    return g, ''


def ub_free(ctx, cfiles, ref, inp=None):
    """The program must be clean under UBSan/ASan and mean the same to clang -O2:
    only then is a disagreement charged to xcc."""
    san, why = gcc_ref(ctx, cfiles, 'u.out', cc=['gcc', '-O1', '-w', '-std=gnu11', '-ffp-contract=off',
                                                 '-fsanitize=undefined,address', '-fno-sanitize=float-divide-by-zero',
                                                 '-fno-sanitize-recover=undefined'], inp=inp)
    if san is None:
        return why
    if san.out != ref or b'runtime error' in san.err:
        return 'sanitized reference differs'
    cl, why = gcc_ref(ctx, cfiles, 'c.out', cc=['clang', '-O2', '-w', '-std=gnu11', '-ffp-contract=off'], inp=inp)
    if cl is None:
        return why
    if cl.out != ref:
        return 'clang differs'
    return None


def against_gcc(ctx, text, modes=(('xcc', []),), fname='p.c', inp=None, **kw):
    """Res comparing each mode with gcc -O0."""
    ctx.write(fname, text)
    ref, why = gcc_ref(ctx, [fname], inp=inp) if inp else bare_ref(ctx, [fname])
    if ref is None:
        return Res('skip', False, why)
    for name, opts in modes:
        ok, r, stage = compile_run(ctx, [fname], opts, inp=inp)
        if ok and r.out == ref.out:
            continue
        if ok:
            msg = '%s: wrong output: %s' % (name, first_diff(ref.out, r.out))
        else:
            msg = '%s: %s failed: %s' % (name, stage, r.short())
        bad = ub_free(ctx, [fname], ref.out, inp)
        if bad:
            return Res('skip', False, 'program not usable as an oracle: ' + bad + ' / ' + msg)
        return fail(msg)
    return Res('pass', True, units=max(1, ref.out.count(b'\n')), **kw)
