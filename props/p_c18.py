"""The WebAssembly linker: programs in several modules and archives against a model of what linking means."""
import os
import re

import linkgen as lg
import p_c17
from core import Res, fail, run
from wasm import Node

lg.SZ['p'] = 4
lg.FSZ = 1        # a function's address is its index in a table

ID = 'C18'
N = {'quick': 3200, 'thorough': 60000}
BUILDS = ('wcc',)
RULE = ('a case is a program of 1-14 C modules (global, static and weak functions, global and static objects, references with addends across modules, constructors, '
        'destructors, exported names), some in archives, compiled and linked by wcc in a generated order and run by Node; non-trivial when the '
        'model reaches at least 2 modules or a link error; evaluations = printed values, addresses and exports compared')
ASSUMPTIONS = ['Node 22 validates and executes wasm correctly', 'the model of linking is that of C17, confirmed there with GNU ld',
               'programs whose meaning depends on the order in which one archive\'s members are loaded are not generated']
RT = '''#include <unistd.h>
long sys_write(int fd, const char *p, long n) { return write(fd, p, n); }
void main_(int);
void finish_(void);
int main(void) { main_(0); finish_(); return 0; }
'''
AR = '/usr/lib/llvm-18/bin/llvm-ar'


def worker_init(ctx):
    ctx.x['node'] = Node(ctx.dir)


def worker_exit(ctx):
    ctx.x['node'].stop()


def gen(s, ctx):
    case = lg.gen_case(s, only_c=True)
    case['entry'] = '_start'
    names = sorted({f['name'] for m in case['mods'] for f in m['funcs'] if f['bind'] != 's'})
    case['exports'] = sorted({s.choice(names) for _ in range(s.rng_(1, 3))}) if names and s.p(40) else []
    case['exjoin'] = s.p(50)
    case['ljoin'] = s.p(50)
    for n in case['exports']:       # an exported name is one main refers to, so that it is linked in
        case['ev'].append(['f', n, s.rng_(0, 50)])
    return case


def adapt(t):
    t = t.replace('unsigned long', 'unsigned long long').replace('(u64)(unsigned long long)', '(u64)')
    t = re.sub(r'(\d)UL\b', r'\1ULL', t)
    return re.sub(r"out\('([AP])', \(u64\)", r"out('\1', (u64)(unsigned long)", t)


def texts(case):
    v = lg.View(case)
    main = adapt(lg.render_main(case, v))
    main = main.replace('static int nlog;', 'static int nlog, over;').replace(
        'void ctor_log(int x) { logs[nlog++] = x; }', 'void out(int, u64); void ctor_log(int x) { if (over) { len = 0; out(\'D\', x); sys_write(1, buf, len); } else logs[nlog++] = x; }').replace(
        "logs_out('D'); sys_write(1, buf, len); }", 'over = 1; sys_write(1, buf, len); }')
    r = [('main.c', main), ('start.c', RT)]
    for i, _ in enumerate(case['mods']):
        r.append(('m%d.c' % i, adapt(lg.render_c(case, i, v))))
    return r


def render(case):
    t = ''.join('==== %s\n%s' % x for x in texts(case) if x[0] != 'start.c')
    return t + '==== link: %s exports=%s fault=%s\n==== model: %s\n' % (p_c17.cmdline(case, 'x', [])[0], case['exports'], case['fault'], p_c17.model(case)[1:])


def check(case, ctx):
    exp = p_c17.model(case)
    if exp[0] == 'bad':
        return Res('skip', False, exp[1])
    p_c17.clean(ctx)
    wcc = os.path.join(ctx.builds['wcc'], 'wcc')
    for name, text in texts(case):
        ctx.write(name, text)
        r = run([wcc, '-c', '-o', 'x' + name[:-2] + '.o', name], cwd=ctx.dir)
        if r.rc != 0:
            return fail('compiling %s failed: %s' % (name, r.short()))
    files, ars = p_c17.cmdline(case, 'x', [])
    for i in range(len(files)):     # -l NAME means wlibNAME.a, which has to be the file libxlibK.a is
        if files[i].endswith('.a'):
            files[i] = 'w' + files[i]
    if case['ljoin']:
        while '-l' in files:
            k = files.index('-l')
            files[k:k + 2] = ['-l' + files[k + 1]]
    for k, ms in ars.items():
        r = run([AR, 'rcs', '--format=gnu', 'wlibxlib%d.a' % k, *ms], cwd=ctx.dir)
        if r.rc != 0:
            return Res('skip', False, 'llvm-ar: ' + r.short())
    try:
        os.unlink(os.path.join(ctx.dir, 'x.wasm'))
    except OSError:
        pass
    ex = case['exports']
    opts = (['-e', ','.join(ex)] if case['exjoin'] else [o for n in ex for o in ('-e', n)]) if ex else []
    r = run([wcc, '-o', 'x.wasm', *opts, *files], cwd=ctx.dir, cpu=20)
    units = 0
    if exp[0] == 'error':
        names = exp[1] + exp[2]
        if r.rc == 0:
            return fail('linked although duplicate %s, unresolved %s' % (exp[1], exp[2]))
        if r.rc < 0 or r.rc > 127 or r.timeout:
            return fail('wcc crashed instead of reporting %s: %s' % (names, r.short()))
        if not any(n.encode() in r.err + r.out for n in names):
            return fail('wcc failed without naming any of %s: %s' % (names, r.short()))
        return Res('pass', True, units=len(names), labels={'expected link error': 1})
    if r.rc != 0:
        return fail('wcc failed: ' + r.short())
    want = {}
    if ex:
        ev = lg.Eval(case)
        ev.expect()             # what the program has written by then
        for n in ex:
            want[n] = ev.call(ev.where(-1, n), n, 11)
    o = ctx.x['node'].run('x.wasm', timeout=20, after=[[n, '11'] for n in ex])
    if o['code'] != 0:
        return fail('the program failed: code %s %s' % (o['code'], o['err']))
    # destructors run in any order of modules
    exp = exp[0], exp[1], [[x for g in exp[2] for x in g]] if any(exp[2]) else [], exp[3]
    msg, addr = p_c17.judge(case, exp, o['out'])
    if msg:
        return fail(msg)
    for n, got in zip(ex, o.get('vals') or ['none'] * len(ex)):
        try:
            v = int(got) & lg.M64
        except ValueError:
            return fail('exported %s cannot be called: %s' % (n, got))
        if v != want[n]:
            return fail('exported %s(11): expected %x, got %x' % (n, want[n], v))
    units = len(exp[3]) + 1 + len(ex)
    nl = sum(len(g) for g in lg.resolve(case)[0])
    return Res('pass', nl >= 2, units=units, labels={'linked': 1, 'modules loaded': nl, 'modules left out of archives': len(case['mods']) - nl})
