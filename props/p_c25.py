"""No text makes cpp, cc1, as or wcc access memory outside its objects, fail an internal check or run forever."""
import os
import re

import p_c09
import p_c23
from core import Res, fail, run

ID = 'C25'
N = {'quick': 5500, 'thorough': 80000}
BUILDS = ('asan', 'asanwcc')
RULE = ('a case is a text of one of the other generators (C programs, erroneous units, preprocessor input, assembly) with 0-12 mutations of bytes, tokens and lines, put through cpp, cc1 '
        'and as, or wcc, built with AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial when the text was mutated and not rejected at its '
        'first token; evaluations = runs of a tool')
ASSUMPTIONS = ['the sanitizers of gcc 13 report each invalid access']
TOK = re.compile(r'\s+|\w+|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|.', re.S)
CTOK = ['(', ')', '{', '}', '[', ']', ';', ',', '.', '->', '...', '*', '&', '&&', '+', '++', '--', '=', '==', '<<', '?', ':', '#', '##', '"', "'", '\\', '0', '1', '0x', '1e', '1.0', "'a'", '""', 'int', 'long',
        'unsigned', 'struct', 'union', 'enum', 'typedef', 'static', 'extern', 'const', 'void', 'char', 'double', 'float', 'short', 'signed', '_Bool', 'inline', 'volatile', 'restrict', 'register', 'auto',
        'if', 'else', 'while', 'for', 'do', 'switch', 'case', 'default', 'break', 'continue', 'return', 'goto', 'sizeof', '_Alignof', '_Alignas', '_Generic', '_Noreturn', '__attribute__', '__asm', 'main', 'x', 'S', '-1', '4294967296', '99999999999999999999',
        '\n', '/*', '*/', '//', '__func__', '__builtin_va_arg', '_Static_assert', 'struct S', 'int f(', '[]', '{0}', '(int)', '({', '})']
PTOK = ['\n#define F(x) ', '\n#define M ', '\n#if ', '\n#ifdef ', '\n#else\n', '\n#elif ', '\n#endif\n', '\n#include ', '\n#undef ', '\n#line ', '\n#error ', '\n#pragma once\n', '#', '##', '__VA_ARGS__', '__VA_OPT__', 'defined', '(', ')', ',', '...',
        '"', "'", '\\\n', '/*', '*/', '//', '__FILE__', '__LINE__', 'F(', 'F', 'M', '<', '>', '0', '1', '1/0', '?', ':']
ATOK = ['.globl', '.byte', '.quad', '.long', '.ascii', '.string', '.align', '.section', '.comm', '.data', '.text', '%rax', '%eax', '%xmm0', '%st', '$', '(', ')', ',', '*', '-', '+', ':', '"', '\\', '0x', '#', '%', '@', '\n', '9223372036854775808', 'L1', 'mov', 'jmp', 'add', '.']


def tokmut(s, t, toks, nmax):
    ts = TOK.findall(t)
    for _ in range(s.weighted([(2, 0), (5, 1), (4, 2), (3, 4), (1, nmax)])):
        if not ts:
            break
        p = s.i(len(ts))
        k = s.i(8)
        if k == 0:
            del ts[p:p + s.weighted([(5, 1), (3, 3), (1, 20)])]
        elif k in (1, 2):
            ts.insert(p, s.choice(toks))
        elif k in (3, 4):
            ts[p] = s.choice(toks)
        elif k == 5:
            q = s.i(len(ts))
            ts[p:p] = ts[q:q + s.rng_(1, 12)]
        elif k == 6:
            q = min(len(ts) - 1, p + s.rng_(1, 8))
            ts[p], ts[q] = ts[q], ts[p]
        else:
            if s.p(50):
                del ts[p:]          # cut short
            else:
                c = ts[p]
                ts[p] = c[:len(c) // 2] + chr(s.i(256)) + c[len(c) // 2:]
    return ''.join(ts)


def gen(s, ctx):
    while True:
        c = p_c09.gen0(s, ctx)
        if c['k'] not in ('link', 'own'):
            break
    k = c['k']
    toks = PTOK if c.get('only') == 'cpp' else ATOK if k == 'asm' else CTOK + (PTOK if s.p(10) else [])
    fs = {f: tokmut(s, t, toks, 12) for f, t in c['files'].items()}
    hs = c.get('heads', {})
    if k == 'dir':
        hs = {f: tokmut(s, t, toks, 3) for f, t in hs.items()}
    w = k != 'asm' and c.get('only') != 'cpp' and s.p(25)
    return {'k': k, 'files': fs, 'heads': hs, 'popts': c.get('popts', []), 'opts': c['opts'], 'wcc': w, 'only': c.get('only')}


def render(case):
    return p_c09.render(case)


BAD = re.compile(rb'ERROR: AddressSanitizer|runtime error|LeakSanitizer|[Aa]ssertion|Unhandled|SUMMARY')


def judge(tool, args, r):
    e = r.err
    if r.timeout:
        return '%s %s does not end within the time limit' % (tool, ' '.join(args))
    if r.rc < 0 or BAD.search(e):
        m = re.search(rb'([^\n]*(?:ERROR: AddressSanitizer|runtime error|[Aa]ssertion|Unhandled)[^\n]*)', e)
        at = re.findall(rb'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?(src/[^\n:]*:\d+)', e)
        return '%s %s: %s %s' % (tool, ' '.join(args), (m.group(1)[:200] if m else b'').decode('latin1') or r.short(),
                                 ' < '.join('%s %s' % (a.decode(), b.decode()) for a, b in at[:4]))
    return None


def check(case, ctx):
    n = 0
    lab = {'kind:' + case['k']: 1}
    for f in os.listdir(ctx.dir):
        if f.endswith(('.o', '.s', '.c', '.i', '.out', '.wasm')):
            os.unlink(os.path.join(ctx.dir, f))
    for f, t in case['heads'].items():
        os.makedirs(os.path.dirname(os.path.join(ctx.dir, f)), exist_ok=True)
        ctx.write(f, t.encode('latin1', 'replace'))
    b = ctx.builds['asan']
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')

    def go(tool, args, inp=None, bb=b):
        nonlocal n
        n += 1
        r = run([os.path.join(bb, tool), *args], cwd=ctx.dir, inp=inp, cpu=20, env=env)
        return r, judge(tool, args, r)
    deep = False
    for f, t in case['files'].items():
        ctx.write(f, t.encode('latin1', 'replace'))
        if case['wcc']:
            bb = ctx.builds['asanwcc']
            r, m = go('wcc', ['-c', '-o', 'p.o', f], bb=bb)
            if m:
                return fail(m)
            deep = True
            continue
        if f.endswith('.s'):
            s = f
        else:
            inc = os.path.join(ctx.builds['asan'], 'include')
            r, m = go('cpp', [*p_c09.DEFS, *case['popts'], '-idirafter', inc, f])
            if m:
                return fail(m)
            if case['only'] == 'cpp':
                deep = True
                continue
            r, m = go('cc1', [*case['opts'], '-'], inp=r.out)
            if m:
                return fail(m)
            deep = True
            if r.rc:
                continue
            s = f[:-2] + '.s'
            ctx.write(s, r.out)
        r, m = go('as', ['-o', 'p.o', s])
        if m:
            return fail(m)
        deep = True
    return Res('pass', deep, units=n, labels=lab)
