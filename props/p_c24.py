"""The driver: whichever way a program is put through xcc, it is the same program; a failing step says so and leaves nothing behind."""
import os
import shutil

from core import Res, fail, run

ID = 'C24'
N = {'quick': 3000, 'thorough': 40000}
BUILDS = ('native',)
RULE = ('a case is a project of 1-5 C files (headers of the same name in several directories, -I/-isystem/-idirafter/-D, sub-directories, names with dots) taken '
        'to an executable by a generated route per file (in one command, -c with and without -o, -S, -E, standard input, the tools by hand, archives found by -l or named), '
        'or a project with one planted error; non-trivial when a file takes a route of more than one step or an error is planted; evaluations = printed '
        'values, produced files and exit codes compared')
ASSUMPTIONS = ['GNU ar makes correct archives']
DIRS = ['.', 'sub', 'inc0', 'inc1.d', 'inc2']
NAMES = ['a', 'b', 'foo.bar', 'x-y', 'main2', 'e.f.g', '_u', 'z9']
FAULTS = ['nosrc', 'noinc', 'syntax', 'undecl', 'error', 'undef', 'nolib', 'ext', 'badobj', 'badasm', 'dup']


def gen(s, ctx):
    c = {'heads': {}}
    nh = s.rng_(1, 3)
    for j in range(nh):
        c['heads'][str(j)] = sorted({s.choice(DIRS) for _ in range(s.rng_(1, 4))})
    c['nest'] = {str(j): (s.i(j) if j and s.p(40) else None) for j in range(nh)}
    c['inc'] = [[s.choice(['-I', '-I', '-isystem', '-idirafter']), d, s.p(50)] for d in sorted(DIRS, key=lambda _: s.i(1000)) if s.p(60)]
    c['defs'] = [[n, s.choice(['plain', 'val', 'expr', 'str']), s.rng_(1, 99), s.p(50)] for n in ['D0', 'D1', 'D2'] if s.p(60)]
    k = s.rng_(1, 5)
    names = sorted(NAMES, key=lambda _: s.i(1000))[:k]
    c['files'] = []
    for i in range(k):
        f = {'name': names[i], 'dir': s.choice(['.', '.', 'sub', 'inc1.d']), 'K': s.rng_(1, 9), 'C': s.rng_(0, 99),
             'incs': [[j, s.p(50)] for j in range(nh) if s.p(60)], 'calls': [j for j in range(i) if s.p(35)],
             'route': s.choice(['direct', 'obj', 'objdef', 'S', 'Sdef', 'S-c', 'E', 'Ec', 'stdin', 'stdin-c', 'tools', 'ar']), 'libname': s.p(50), 'big': s.p(8)}
        c['files'].append(f)
    c['mainfirst'] = s.p(50)
    c['mainroute'] = s.choice(['direct', 'direct', 'obj', 'S'])
    c['opt'] = s.choice([None, None, '-O0', '-O1', '-O2', '-O'])
    c['out'] = s.choice([None, 'prog', 'sub/prog.x', 'inc1.d/p'])
    c['ojoin'] = s.p(30)
    c['olast'] = s.p(50)
    c['optlast'] = s.p(30)
    c['call'] = s.rng_(-20, 20)
    c['fault'] = s.choice(FAULTS) if s.p(35) else None
    c['fpos'] = s.i(100)
    c['fmode'] = s.choice(['link', 'link', '-c', '-S', '-E'])
    c['fout'] = s.p(70)
    return c


def hval(j, d):
    return 100 * (int(j) + 1) + 7 * DIRS.index(d)


def defarg(d):
    n, kind, v, _ = d
    return {'plain': n, 'val': '%s=%d' % (n, v), 'expr': '%s=(%d + 1)' % (n, v), 'str': '%s=(int)sizeof("%s")' % (n, 'x' * v)}[kind]


def defuse(d):
    """(text, value)"""
    n, kind, v, _ = d
    return {'plain': (n, 1), 'val': (n, v), 'expr': (n + ' * 2', (v + 1) * 2), 'str': (n, v + 1)}[kind]


def path(f, ext='c'):
    return f['name'] + '.' + ext if f['dir'] == '.' else '%s/%s.%s' % (f['dir'], f['name'], ext)


def search(c, j, angle, cur):
    order = ([] if angle or cur is None else [cur]) + [d for k, d, _ in c['inc'] if k == '-I'] + [
        d for k, d, _ in c['inc'] if k == '-isystem'] + [d for k, d, _ in c['inc'] if k == '-idirafter']
    for d in order:
        if d in c['heads'][str(j)]:
            return d
    return None


def includes(c, f):
    """macros the includes of f define, and None when one of them is not found"""
    got = {}

    def inc(j, angle, cur):
        d = search(c, j, angle, cur)
        if d is None:
            return False
        if c['nest'][str(j)] is not None and not inc(c['nest'][str(j)], False, d):
            return False
        got.setdefault(j, hval(j, d))
        return True
    cur = '.' if f['route'] in ('stdin', 'stdin-c') else f['dir']
    keep = []
    for j, angle in f['incs']:
        g = dict(got)
        if inc(j, angle, cur):
            keep.append((j, angle))
        else:
            got = g
    return keep, got


def source(c, i, fault=None):
    f = c['files'][i]
    keep, got = includes(c, f)
    t = ''
    for j, angle in keep:
        t += '#include <h%d.h>\n' % j if angle else '#include "h%d.h"\n' % j
    if fault == 'noinc':
        t += '#include "no_such_header.h"\n'
    if fault == 'error':
        t += '#error planted\n'
    e = ['x * %d + %d' % (f['K'], f['C'])] + ['H%d' % j for j in sorted(got)] + [defuse(d)[0] for d in c['defs']]
    for j in f['calls']:
        t += 'int f%d(int);\n' % j
        e.append('f%d(x + %d)' % (j, j))
    if f['big']:
        t += 'static int pad0(int x) { return x; }\n' + ''.join('static int pad%d(int x) { return pad%d(x + 1) ^ %d; }\n' % (k + 1, k, k) for k in range(1500))
        e.append('(pad0(0))')
    if fault == 'undecl':
        e.append('no_such_name')
    if fault == 'undef':
        t += 'int no_such_function(int);\n'
        e.append('no_such_function(x)')
    t += 'int f%d(int x) {\n  return %s;\n}\n' % (i, ' + '.join(e))
    t += 'const char *n%d(void) { return __FILE__; }\nint l%d(void) { return __LINE__; }\n' % (i, i)
    if fault == 'syntax':
        t += 'int oops(int {\n'
    return t


def value(c, i, x):
    f = c['files'][i]
    _, got = includes(c, f)
    return x * f['K'] + f['C'] + sum(got.values()) + sum(defuse(d)[1] for d in c['defs']) + sum(value(c, j, x + j) for j in f['calls'])


def main_source(c):
    t = '#include <stdio.h>\n'
    for i in range(len(c['files'])):
        t += 'int f%d(int); const char *n%d(void); int l%d(void);\n' % (i, i, i)
    t += 'int main(int argc, char *argv[]) {\n'
    for i in range(len(c['files'])):
        t += '  printf("%%d %%s %%d\\n", f%d(%d), n%d(), l%d());\n' % (i, c['call'], i, i)
    return t + '  return %d;\n}\n' % (len(c['files']) + 40)


def expected(c):
    t = ''
    for i, f in enumerate(c['files']):
        src = source(c, i)
        line = next(k + 1 for k, l in enumerate(src.split('\n')) if '__LINE__' in l)
        t += '%d %s %d\n' % (value(c, i, c['call']), '*' if f['route'] in ('stdin', 'stdin-c') else path(f), line)
    return t


def options(c):
    """options for the preprocessor, as the driver takes them"""
    r = []
    for k, d, j in c['inc']:
        r += [k + d] if j and k == '-I' else [k, d]
    for d in c['defs']:
        r += ['-D' + defarg(d)] if d[3] else ['-D', defarg(d)]
    return r


def write_all(c, ctx, fault=None, at=None):
    shutil.rmtree(os.path.join(ctx.dir, 'w'), ignore_errors=True)
    for d in DIRS:
        os.makedirs(os.path.join(ctx.dir, 'w', d), exist_ok=True)
    for j, ds in c['heads'].items():
        for d in ds:
            n = c['nest'][j]
            ctx.write('w/%s/h%s.h' % (d, j), ('#include "h%d.h"\n' % n if n is not None else '') + '#ifndef H%s\n#define H%s %d\n#endif\n' % (j, j, hval(j, d)))
    for i, f in enumerate(c['files']):
        ctx.write('w/' + path(f), source(c, i, fault if i == at else None))
    ctx.write('w/zmain.c', main_source(c))


def listing(d):
    r = set()
    for p, _, fs in os.walk(d):
        r |= {os.path.relpath(os.path.join(p, f), d) for f in fs}
    return r


class Bad(Exception):
    pass


def render(c):
    t = 'opts: %s\n' % ' '.join(options(c))
    for j, ds in c['heads'].items():
        t += 'h%s.h in %s%s\n' % (j, ds, '' if c['nest'][j] is None else ', includes h%d.h' % c['nest'][j])
    for i, f in enumerate(c['files']):
        t += '==== %s  route %s\n%s' % (path(f), f['route'], source(c, i) if not f['big'] else '(big)\n')
    return t + '==== out=%s opt=%s fault=%s %s\n==== expected\n%s' % (c['out'], c['opt'], c['fault'], c['fmode'], expected(c))


def check(c, ctx):
    try:
        return check_fault(c, ctx) if c['fault'] else check_routes(c, ctx)
    except Bad as e:
        return fail(str(e))


def step(w, cmd, makes, inp=None):
    """run a command that has to succeed and create exactly the files it is said to"""
    for m in makes:
        try:
            os.unlink(os.path.join(w, m))
        except OSError:
            pass
    before = listing(w)
    r = run(cmd, cwd=w, inp=inp, cpu=20)
    what = ' '.join(os.path.basename(cmd[0]) if k == 0 else x for k, x in enumerate(cmd))
    if r.rc != 0:
        raise Bad('%s: %s' % (what, r.short()))
    new = listing(w) - before
    if new != set(makes):
        raise Bad('%s: created %s instead of %s' % (what, sorted(new), sorted(makes)))
    return r.out


def read(w, p):
    with open(os.path.join(w, p), 'rb') as f:
        return f.read()


def check_routes(c, ctx):
    write_all(c, ctx)
    w = os.path.join(ctx.dir, 'w')
    b = ctx.builds['native']
    X = os.path.join(b, 'xcc')
    op = options(c)
    oc = [c['opt']] if c['opt'] else []
    units = 0

    def xcc(args, src):
        return [X, *args, src, *op, *oc] if c['optlast'] else [X, *oc, *op, *args, src]

    link = []
    libs = []
    steps = 0
    for i, f in enumerate(c['files']):
        src = path(f)
        base = src[:-2]
        rt = f['route']
        steps += rt != 'direct'
        dfl = f['name']     # default outputs go to the current directory
        if rt == 'direct':
            link.append(src)
        elif rt in ('obj', 'ar'):
            step(w, xcc(['-c', '-o', base + '.o'], src), [base + '.o'])
            if rt == 'ar':
                a = 'lib%s.a' % f['name'] if f['libname'] else '%s/%s.a' % (f['dir'], f['name'])
                r = run(['ar', 'rcs', a, base + '.o'], cwd=w)
                if r.rc != 0:
                    return Res('skip', False, 'ar: ' + r.short())
                libs.append(['-l' + f['name']] if f['libname'] and c['ojoin'] else ['-l', f['name']] if f['libname'] else [a])
            else:
                link.append(base + '.o')
        elif rt == 'objdef':
            step(w, xcc(['-c'], src), [dfl + '.o'])
            link.append(dfl + '.o')
        elif rt in ('S', 'S-c', 'Sdef'):
            sfile = dfl + '.s' if rt == 'Sdef' else base + '.s'
            step(w, xcc(['-S'] if rt == 'Sdef' else ['-S', '-o', sfile], src), [sfile])
            if rt == 'S':
                link.append(sfile)
            else:
                step(w, [X, '-c', '-o', base + '.o', sfile], [base + '.o'])
                step(w, xcc(['-c', '-o', base + '.oo'], src), [base + '.oo'])
                if read(w, base + '.o') != read(w, base + '.oo'):
                    raise Bad('%s: -c and -S followed by -c make different objects' % src)
                units += 1
                link.append(base + '.o')
        elif rt in ('E', 'Ec'):
            out = step(w, xcc(['-E'] if rt == 'E' else ['-E', '-o', base + '.i'], src), [] if rt == 'E' else [base + '.i'])
            if rt == 'E':
                with open(os.path.join(w, base + '.i'), 'wb') as g:
                    g.write(out)
            step(w, [X, *oc, '-c', '-o', base + '.o', '-x', 'c', base + '.i'], [base + '.o'])
            link.append(base + '.o')
        elif rt in ('stdin', 'stdin-c'):
            text = read(w, src)
            if rt == 'stdin':
                step(w, xcc(['-S', '-x', 'c', '-o', base + '.s'], '-'), [base + '.s'], text)
                step(w, [X, '-x', 'assembler', '-c', '-o', base + '.o', base + '.s'], [base + '.o'])
            else:
                step(w, xcc(['-c', '-x', 'c', '-o', base + '.o'], '-'), [base + '.o'], text)
            link.append(base + '.o')
        elif rt == 'tools':
            i1 = step(w, [os.path.join(b, 'cpp'), '-D__x86_64__', *op, src], [])
            s1 = step(w, [os.path.join(b, 'cc1'), *oc, '-'], [], i1)
            with open(os.path.join(w, base + '.s'), 'wb') as g:
                g.write(s1)
            if step(w, xcc(['-S', '-o', '-'], src), []) != s1:
                raise Bad('%s: -S and cpp | cc1 make different assembly' % src)
            units += 1
            step(w, [os.path.join(b, 'as'), '-o', base + '.o', base + '.s'], [base + '.o'])
            link.append(base + '.o')
        units += 1
    mr = c['mainroute']
    m = 'zmain.c'
    if mr == 'obj':
        step(w, [X, '-c', m], ['zmain.o'])
        m = 'zmain.o'
    elif mr == 'S':
        step(w, [X, '-S', m], ['zmain.s'])
        m = 'zmain.s'
    # libraries come after what uses them, in the reverse order of the files: a file only calls files before it
    files = ([m] + link if c['mainfirst'] else link + [m])
    lf = [a for l in reversed(libs) for a in l]
    if any(f['route'] != 'ar' and any(c['files'][j]['route'] == 'ar' for j in f['calls']) for f in c['files']) or libs:
        # a library may call objects (they are loaded anyway) and libraries of earlier files
        files = files + lf
    out = c['out'] or 'a.out'
    o = [] if not c['out'] else ['-o' + out] if c['ojoin'] else ['-o', out]
    lp = ['-L.'] if c['ojoin'] else ['-L', '.']
    cmd = [X, *oc, *(o if not c['olast'] else []), *lp, *op, *files, *(o if c['olast'] else [])]
    step(w, cmd, [out])
    r = run([os.path.join(w, out)], cwd=w)
    exp = expected(c).split('\n')
    got = r.out.decode('latin1').split('\n')
    for e, g in zip(exp, got):
        e, g = e.split(' '), g.split(' ')
        if len(e) == 3 and e[1] == '*' and len(g) == 3:
            e[1] = g[1]
        if e != g:
            raise Bad('the program printed %s, expected %s' % (g, e))
    if len(exp) != len(got) or r.rc != len(c['files']) + 40:
        raise Bad('the program ended with %s' % r.short())
    units += len(c['files']) * 3 + 1
    labels = {'linked': 1}
    for f in c['files']:
        labels['route ' + f['route']] = labels.get('route ' + f['route'], 0) + 1
    return Res('pass', steps > 0, units=units, labels=labels)


def check_fault(c, ctx):
    ft = c['fault']
    at = c['fpos'] % len(c['files'])
    mode = c['fmode']
    if ft in ('undef', 'nolib', 'badobj', 'dup') or mode == '-E' and ft not in ('nosrc', 'noinc', 'error'):
        mode = 'link'
    if mode != 'link' and ft == 'badasm':
        mode = '-c'
    write_all(c, ctx, ft, at)
    w = os.path.join(ctx.dir, 'w')
    X = os.path.join(ctx.builds['native'], 'xcc')
    op = options(c)
    oc = [c['opt']] if c['opt'] else []
    srcs = [path(f) for f in c['files']] + ['zmain.c']
    bad = srcs[at]
    extra = None
    if ft == 'nosrc':
        bad = extra = 'no_such_file.c'
    elif ft == 'nolib':
        extra = '-lno_such_lib'
    elif ft == 'ext':
        bad = extra = 'what.xyz'
        ctx.write('w/what.xyz', 'int q;\n')
    elif ft == 'badobj':
        bad = extra = 'garbage.o'
        ctx.write('w/garbage.o', 'this is not an object file, whatever its name says\n' * 5)
    elif ft == 'badasm':
        bad = extra = 'bad.s'
        ctx.write('w/bad.s', '.text\nq:\n  frobnicate %eax, $1\n  ret\n')
    elif ft == 'dup':
        extra = 'dup.c'
        ctx.write('w/dup.c', 'int f%d(int x) { return 1; }\n' % at)
    if mode == 'link':
        if extra:
            srcs.insert(c['fpos'] // 7 % (len(srcs) + 1), extra)
        out = c['out'] or 'a.out'
    else:
        srcs = [bad]
        out = 'sub/out.x' if c['fout'] else bad.split('/')[-1].rsplit('.', 1)[0] + {'-c': '.o', '-S': '.s', '-E': '.i'}[mode]
    o = [] if mode == 'link' and not c['out'] or mode != 'link' and not c['fout'] else ['-o', out]
    before = listing(w)
    cmd = [X, *oc, *op, *([mode] if mode != 'link' else []), *(o if not c['olast'] else []), *srcs, *(o if c['olast'] else [])]
    r = run(cmd, cwd=w, cpu=20)
    what = 'xcc ' + ' '.join(cmd[1:])
    if r.rc == 0:
        return fail('%s: succeeded in spite of the error (%s)' % (what, ft))
    if r.rc < 0 or r.rc > 127 or r.timeout:
        return fail('%s: crashed: %s' % (what, r.short()))
    if not r.err.strip():
        return fail('%s: fails without a message' % what)
    new = listing(w) - before
    if new:
        return fail('%s: failed (%s) but left %s' % (what, ft, sorted(new)))
    if before - listing(w):
        return fail('%s: removed %s' % (what, sorted(before - listing(w))))
    return Res('pass', True, units=3, labels={'error reported': 1, 'fault ' + ft: 1})
