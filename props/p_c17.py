"""The ELF linker: programs in several modules and archives against a model of what linking means."""
import os
import re

import linkgen as lg
from core import Res, fail, run

ID = 'C17'
N = {'quick': 4500, 'thorough': 80000}
BUILDS = ('native',)
RULE = ('a case is a program of 1-14 modules in C and assembly (global, static, weak and common functions and objects in text, data, rodata '
        'and bss, references with addends across modules, constructors, destructors), some in archives, linked in a generated order by ld with '
        '-o/-e/-l/-L/-Map; non-trivial when the model reaches at least 2 modules or a link error; evaluations = printed values, addresses and '
        'map lines compared')
ASSUMPTIONS = ['a mismatch is charged to xcc only when the same sources built by gcc, GNU as, ar and ld behave as the model says',
               'programs whose meaning depends on the order in which one archive\'s members are loaded are not generated',
               'a symbol is not both weak and common; commons of one name have one size']


def gen(src, ctx):
    return lg.gen_case(src)


def texts(case):
    v = lg.View(case)
    r = [('main.c', lg.render_main(case, v)), ('start.s', lg.START)]
    for i, m in enumerate(case['mods']):
        r.append(('m%d.%s' % (i, m['kind']), (lg.render_c if m['kind'] == 'c' else lg.render_s)(case, i, v)))
    return r


def render(case):
    t = ''.join('==== %s\n%s' % x for x in texts(case) if x[0] != 'start.s')
    return t + '==== link: %s entry=%s fault=%s\n==== model: %s\n' % (cmdline(case, 'x', [])[0], case['entry'], case['fault'], model(case)[1:])


def model(case):
    try:
        return ('ok',) + lg.Eval(case).expect()
    except lg.LinkError as e:
        return 'error', e.args[0], e.args[1]
    except lg.Bad as e:
        return 'bad', str(e)


def needs_common(m):
    return any(o['bind'] == 'c' for o in m['objs'])


def cmdline(case, pre, names):
    """-> (files in link order with -l/-L, archives to build)"""
    out, ars = [], {}
    for it in case['order']:
        if it[0] == 'o':
            out.append('%sm%d.o' % (pre, it[1]))
        elif it[0] == 'a':
            ms = ['%sm%d.o' % (pre, i) for i in lg.ar_members(case, it[1])]
            if not ms:
                continue
            ars[it[1]] = ms
            if it[2]:
                out += ['-L', '.', '-l', '%slib%d' % (pre, it[1])]
            else:
                out.append('lib%slib%d.a' % (pre, it[1]))
        else:
            out.append('%s%s.o' % (pre, it[0]))
    return out, ars


def build(ctx, case, pre, cc, asm):
    """compile every module and make the archives"""
    for name, text in texts(case):
        o = pre + name[:-2] + '.o'
        if name.endswith('.c'):
            m = case['mods'][int(name[1:-2])] if name[0] == 'm' and name != 'main.c' else None
            r = run([*cc, *(['-fcommon'] if m and needs_common(m) else []), '-c', '-o', o, name], cwd=ctx.dir)
        else:
            r = run([*asm, '-o', o, name], cwd=ctx.dir)
        if r.rc != 0:
            return name, r
    _, ars = cmdline(case, pre, [])
    for k, ms in ars.items():
        r = run(['ar', 'rcs', 'lib%slib%d.a' % (pre, k), *ms], cwd=ctx.dir)
        if r.rc != 0:
            return 'ar', r
    return None, None


def link(ctx, case, pre, ld):
    out = pre + '.out'
    try:
        os.unlink(os.path.join(ctx.dir, out))
    except OSError:
        pass
    opts = ['-o', out]
    if case['entry'] != '_start' or case['explicit_entry']:
        opts += ['-e', case['entry']]
    if case['map'] and pre == 'x':
        opts += ['-Map', 'x.map'] if ld[0] != 'ld' else []
    return run([*ld, *opts, *cmdline(case, pre, [])[0]], cwd=ctx.dir), out


def clean(ctx):
    for f in os.listdir(ctx.dir):
        if f.endswith(('.o', '.a', '.map', '.out', '.s', '.c')):
            os.unlink(os.path.join(ctx.dir, f))


def judge(case, exp, out):
    """None when the printed lines are what the model says; also -> addresses printed"""
    lines = []
    for l in out.decode('latin1').split('\n'):
        if l:
            a = l.split(' ')
            lines.append((a[0], int(a[1], 16)))
    _, ctors, dtors, evs = exp
    pos = 0

    def log(tag, groups):
        nonlocal pos
        for g in groups:
            want = sorted(x for m in g for x in m)
            got = [l for l in lines[pos:pos + len(want)]]
            if [t for t, _ in got] != [tag] * len(want) or sorted(v for _, v in got) != want or any(
                    [v for _, v in got if v in m] != m for m in g):
                return '%s: expected %s (module by module), got %s' % ('constructors' if tag == 'I' else 'destructors', g, got)
            pos += len(want)
        return None
    if not lines or lines[0] != ('E', lg.ENTRIES.index(case['entry'])):
        return 'entry point: expected %s, got %s' % (case['entry'], lines[:1]), None
    pos = 1
    m = log('I', ctors)
    if m:
        return m, None
    addr = {}
    later = []
    for e in evs:
        if pos >= len(lines):
            return 'output ends early', None
        tag, v = lines[pos]
        pos += 1
        if tag != e[0]:
            return 'line %d: expected %s, got %s %x' % (pos, e, tag, v), None
        if tag == 'V' and v != e[1]:
            return 'line %d: expected value %x, got %x' % (pos, e[1], v), None
        if tag == 'A':
            if addr.setdefault(e[1], v) != v:
                return 'two addresses of %s: %x and %x' % (e[1], addr[e[1]], v), None
        if tag == 'P':
            later.append((e[1], v))
    m = log('D', dtors)
    if m:
        return m, None
    if pos != len(lines):
        return 'output goes on: %s' % (lines[pos:pos + 3],), None
    for p, v in later:
        if p is None:
            if v != 0:
                return 'null pointer is %x' % v, None
        elif addr.setdefault((p[0], p[1]), v - p[2]) != v - p[2]:
            return 'pointer to %s + %d is %x, but its address is %x' % (p[1], p[2], v, addr[(p[0], p[1])]), None
    spans = []
    for (i, n), a in addr.items():
        for o in case['mods'][i]['objs']:
            if o['name'] == n:
                if a % (o['align'] if o['bind'] != 'c' else lg.SZ[o['ty']]):
                    return '%s is at %x, not aligned to %d' % (n, a, o['align']), None
                spans.append((a, a + o['n'] * lg.SZ[o['ty']], n))
        for f in case['mods'][i]['funcs']:
            if f['name'] == n:
                spans.append((a, a + lg.FSZ, n))
    spans.sort()
    for x, y in zip(spans, spans[1:]):
        if x[1] > y[0]:
            return '%s (%x-%x) and %s (%x) overlap' % (x[2], x[0], x[1], y[2], y[0]), None
    return None, addr


def check_map(ctx, case, addr):
    try:
        t = open(os.path.join(ctx.dir, 'x.map'), errors='replace').read()
    except OSError:
        return 'no map file', 0
    n = 0
    for (i, name), a in addr.items():
        x = [y for y in case['mods'][i]['objs'] + case['mods'][i]['funcs'] if y['name'] == name][0]
        where = ('m%d' % i)
        got = re.findall(r'^\s*([0-9a-f]+): (\S) %s  \((.*)\)$' % re.escape(name), t, re.M)
        if x['bind'] == 's':
            ok = any(int(h, 16) == a and f == 'L' and where in w for h, f, w in got)
        else:
            ok = any(int(h, 16) == a and f in 'Gw' for h, f, w in got)
        if not ok:
            return 'map: %s is at %x, the map says %s' % (name, a, got), n
        n += 1
    return None, n


def check(case, ctx):
    exp = model(case)
    if exp[0] == 'bad':
        return Res('skip', False, exp[1])
    clean(ctx)
    for name, text in texts(case):
        ctx.write(name, text)
    b = ctx.builds['native']
    # own compiler, assembler, linker
    stage, r = build(ctx, case, 'x', [os.path.join(b, 'xcc')], [os.path.join(b, 'as')])
    units = 0
    msg = None
    if stage:
        msg = 'building %s failed: %s' % (stage, r.short())
    else:
        r, out = link(ctx, case, 'x', [os.path.join(b, 'ld')])
        if exp[0] == 'error':
            names = exp[1] + exp[2]
            if r.rc == 0:
                msg = 'linked although duplicate %s, unresolved %s' % (exp[1], exp[2])
            elif r.rc < 0 or r.rc > 127 or r.timeout:
                msg = 'ld crashed instead of reporting %s: %s' % (names, r.short())
            elif not any(n.encode() in r.err + r.out for n in names):
                msg = 'ld failed without naming any of %s: %s' % (names, r.short())
            units = len(names)
        elif r.rc != 0:
            msg = 'ld failed: ' + r.short()
        else:
            x = run([os.path.join(ctx.dir, out)], cwd=ctx.dir, cpu=5)
            if x.rc != 0 or x.timeout:
                msg = 'the program fails: ' + x.short()
            else:
                msg, addr = judge(case, exp, x.out)
                units = len(exp[3]) + 1
                if not msg and case['map']:
                    msg, n = check_map(ctx, case, addr)
                    units += n
    if msg:
        why = unconfirmed(ctx, case, exp)
        if why:
            return Res('skip', False, 'model not confirmed by GNU ld: ' + why + ' / ' + msg)
        return fail(msg)
    nl = sum(len(g) for g in lg.resolve(case)[0]) if exp[0] == 'ok' else 0
    labels = {'expected link error' if exp[0] == 'error' else 'linked': 1}
    if exp[0] == 'ok':
        labels['modules loaded'] = nl
        labels['modules left out of archives'] = len(case['mods']) - nl
    return Res('pass', nl >= 2 or exp[0] == 'error', units=max(1, units), labels=labels)


def unconfirmed(ctx, case, exp):
    stage, r = build(ctx, case, 'g', ['gcc', '-O0', '-w', '-fno-pic', '-mcmodel=small', '-fno-stack-protector', '-fno-common', '-fcf-protection=none'], ['as'])
    if stage:
        return 'building %s: %s' % (stage, r.short())
    r, out = link(ctx, case, 'g', ['ld', '-static', '-z', 'noexecstack'])
    if exp[0] == 'error':
        return None if r.rc != 0 else 'it links'
    if r.rc != 0:
        return 'ld: ' + r.short()
    x = run([os.path.join(ctx.dir, out)], cwd=ctx.dir, cpu=5)
    if x.rc != 0:
        return 'program: ' + x.short()
    m, _ = judge(case, exp, x.out)
    return m
