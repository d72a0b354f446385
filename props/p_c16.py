"""The RISC-V and AArch64 assemblers against LLVM's, and random jump mazes run by the emulator."""
import os
import random
import re

from asmrisc import A64, Rv
from core import Res, fail, run
from crossprop import prepare as _prepare
from elf import Elf
from mazegen import maze

ID = 'C16'
N = {'quick': 3200, 'thorough': 100000}
BUILDS = ('riscv64', 'aarch64')
RULE = ('a case is either up to 60 instructions of one target, each in a form the assembler knows, with values in and out of range, or a program of '
        'labels, jumps, branches, calls and data references over distances from 0 to 1.2 MB; evaluations = instructions compared with LLVM\'s plus '
        'blocks of the maze visited; non-trivial when at least 4 instructions were compared, or 4 blocks visited')
ASSUMPTIONS = ['llvm-mc 18 defines which instructions exist and what they mean; instructions are compared as disassembled by llvm-objdump, compressed ones expanded, '
               'and integer sequences that differ are compared by evaluation on random registers',
               'an absent rounding mode means the nearest (frm is never changed)', 'emu/emu.c decodes jumps correctly (mazes)']
TRIPLE = {'riscv64': ('riscv64', '+m,+a,+f,+d'), 'aarch64': ('aarch64', '+neon')}
MASK = (1 << 64) - 1


def prepare(ctx):
    _prepare(ctx)


def gen(s, ctx):
    arch = s.choice(['riscv64', 'aarch64'])
    if s.p(15):
        s.label('maze')
        return ('maze', arch) + maze(s, arch)
    g = Rv(s) if arch == 'riscv64' else A64(s)
    return ('forms', arch, tuple(g.inst() for _ in range(s.rng_(1, 60))))


def render(case):
    if case[0] == 'forms':
        return '# %s\n' % case[1] + '\n'.join(case[2]) + '\n'
    return '# %s, expected %r\n' % (case[1], case[3]) + '\n# ---- next unit\n'.join(case[2])


def src(lines):
    return '\t.text\n' + ''.join('\t.globl L%d\n' % k for k in range(len(lines) + 1)) + \
        ''.join('L%d:\n\t%s\n' % (k, l) for k, l in enumerate(lines)) + 'L%d:\n' % len(lines)


# ---------- disassembly

def disasm(ctx, arch, obj, n):
    """-> [[instruction text]] per line"""
    e = Elf(open(os.path.join(ctx.dir, obj), 'rb').read())
    pos = []
    for k in range(n + 1):
        y = e.sym('L%d' % k)
        if y is None:
            return None
        pos.append(y['value'])
    r = run(['llvm-objdump', '-d', '-j', '.text', '--no-show-raw-insn', '-M', 'no-aliases,numeric' if arch == 'riscv64' else 'no-aliases',
             '--mattr=' + TRIPLE[arch][1] + (',+c' if arch == 'riscv64' else ''), obj], cwd=ctx.dir)
    at = {}
    for l in r.out.decode('latin1').splitlines():
        m = re.match(r'\s*([0-9a-f]+):\s+(\S.*)$', l)
        if m:
            at[int(m.group(1), 16)] = re.sub(r'\s*<.*>', '', m.group(2).replace('\t', ' ')).strip()
    if pos != sorted(pos):
        return None
    return [[at[a] for a in sorted(at) if pos[k] <= a < pos[k + 1]] for k in range(n)] if all(
        pos[k] in at or pos[k] == pos[k + 1] for k in range(n)) else [[at[a] for a in sorted(at) if pos[k] <= a < pos[k + 1]] + ([] if pos[k] in at or pos[k] == pos[k + 1] else ['split']) for k in range(n)]


def expand(t):
    """a RISC-V instruction as printed -> (op, operands) of its 32-bit form"""
    op, _, rest = t.partition(' ')
    a = [x.strip() for x in rest.split(',')] if rest else []
    m = re.match(r'(.*)\((.*)\)$', a[-1]) if a else None
    if m:
        a[-1:] = [m.group(1) or '0', m.group(2)]
    if op.startswith('c.'):
        o = op[2:]
        if o.split()[0] == 'nop':
            return ('addi', ['x0', 'x0', '0'])
        if o == 'li':
            return ('addi', [a[0], 'x0', a[1]])
        if o == 'mv':
            return ('add', [a[0], 'x0', a[1]])
        if o in ('add', 'sub', 'and', 'or', 'xor', 'addw', 'subw', 'addi', 'addiw', 'andi', 'slli', 'srli', 'srai'):
            return (o, [a[0], a[0]] + a[1:] if len(a) == 2 else a)
        if o in ('addi16sp', 'addi4spn'):
            return ('addi', [a[0], 'x2', a[-1]])
        if o in ('slli64', 'srli64', 'srai64'):
            return (o[:4], [a[0], a[0], '0'])
        if o.endswith('sp'):
            return (o[:-2], a)
        if o == 'jr':
            return ('jalr', ['x0', '0', a[0]])
        if o == 'jalr':
            return ('jalr', ['x1', '0', a[0]])
        return (o, a)
    if op.startswith('f') and a and a[-1] in ('dyn', 'rne'):
        a = a[:-1]
    return (op, a)


def num(x):
    return int(x, 0)


def sx(v, b):
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


ALU = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'addw': lambda a, b: sx(a + b, 32), 'subw': lambda a, b: sx(a - b, 32),
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'sll': lambda a, b: a << (b & 63), 'srl': lambda a, b: (a & MASK) >> (b & 63), 'sra': lambda a, b: sx(a, 64) >> (b & 63),
    'sllw': lambda a, b: sx(a << (b & 31), 32), 'srlw': lambda a, b: sx((a & 0xffffffff) >> (b & 31), 32), 'sraw': lambda a, b: sx(a, 32) >> (b & 31),
    'slt': lambda a, b: int(sx(a, 64) < sx(b, 64)), 'sltu': lambda a, b: int((a & MASK) < (b & MASK)),
}


def evaluate(seq, seed):
    r = random.Random(seed)
    x = [0] + [r.choice([r.getrandbits(64), r.getrandbits(32), MASK, r.getrandbits(8), 1 << 63, 0]) for _ in range(31)]
    for op, a in seq:
        if op == 'lui':
            v = sx(num(a[1]) << 12, 32)
        else:
            o = {'sltiu': 'sltu', 'addiw': 'addw', 'slliw': 'sllw', 'srliw': 'srlw', 'sraiw': 'sraw'}.get(op) or (op if op in ALU else op[:-1])
            if o not in ALU:
                return None
            v = ALU[o](x[int(a[1][1:])], x[int(a[2][1:])] if a[2][0] == 'x' else num(a[2]))
        d = int(a[0][1:])
        if d:
            x[d] = v & MASK
    return x


def same_rv(p, q):
    p, q = [expand(t) for t in p], [expand(t) for t in q]
    if norm(p) == norm(q):
        return True
    for seed in range(6):
        try:
            a, b = evaluate(p, seed), evaluate(q, seed)
        except (ValueError, IndexError, KeyError):
            return False
        if a is None or b is None or a != b:
            return False
    return True


def norm(seq):
    out = []
    for op, a in seq:
        b = []
        for x in a:
            try:
                b.append(num(x))
            except ValueError:
                b.append(x)
        out.append((op, b))
    return out


def mov_value(seq):
    """the constant a sequence of AArch64 mov instructions leaves -> (register, value)"""
    v = reg = None
    for t in seq:
        m = re.match(r'(movz|movn|movk|orr) ([wx])(\d+|zr), (?:[wx]zr, )?#(-?\w+)(?:, lsl #(\d+))?$', t)
        if not m:
            return None
        op, w, n, i, sh = m.groups()
        mask = MASK if w == 'x' else 0xffffffff
        i, sh = int(i, 0), int(sh or 0)
        if op == 'movk':
            if v is None:
                return None
            v = (v & ~(0xffff << sh) | i << sh) & mask
        else:
            v = (i << sh if op == 'movz' else ~(i << sh) if op == 'movn' else i) & mask
        if reg not in (None, n):
            return None
        reg = n
    return reg, v


def only_logical(line):
    m = re.match(r'mov (\w+), #(-?\w+)$', line)
    mask = 0xffffffff if m.group(1)[0] == 'w' else MASK
    v = int(m.group(2), 0)
    return not any(q & mask & ~(0xffff << sh) == 0 for q in (v, ~v) for sh in (0, 16, 32, 48))


def same_a64(p, q):
    return p == q or (mov_value(p) is not None and mov_value(p) == mov_value(q))


def check(case, ctx):
    kind, arch = case[:2]
    asm = os.path.join(ctx.builds[arch], 'as')
    if kind == 'maze':
        return check_maze(case, ctx)
    trip, attr = TRIPLE[arch]
    lines = list(case[2])
    ctx.write('r.s', src(lines))
    mc = ['llvm-mc', '--triple=' + trip, '--mattr=' + attr, '--filetype=obj', '-o', 'r.o', 'r.s']
    r = run(mc, cwd=ctx.dir)
    bad = []
    if r.rc != 0:
        base = 1 + len(lines) + 1
        unpredictable = set()       # encodable, with no defined meaning: an assembler may take it or not
        for m in re.finditer(r'r\.s:(\d+):\d+: error(: unpredictable)?', r.err.decode('latin1')):
            k = int(m.group(1)) - base
            i = (k - 1) // 2
            if 0 <= i < len(lines) and i not in bad:
                bad.append(i)
            if m.group(2):
                unpredictable.add(i)
        badl = [lines[i] for i in bad if i not in unpredictable]
        lines = [l for i, l in enumerate(lines) if i not in bad]
        ctx.write('r.s', src(lines))
        r = run(mc, cwd=ctx.dir)
        if r.rc != 0:
            return Res('skip', False, 'llvm-mc: ' + r.short())
        for l in badl[:3]:
            ctx.write('b.s', '\t.text\n\t%s\n' % l)
            x = run([asm, '-o', 'b.o', 'b.s'], cwd=ctx.dir)
            if x.rc == 0:
                return fail('%s: accepted, but there is no such instruction: %s' % (arch, l))
            if x.rc < 0:
                return fail('%s: the assembler is killed by signal %d: %s' % (arch, -x.rc, l))
    want = disasm(ctx, arch, 'r.o', len(lines))
    if want is None:
        return Res('skip', False, 'no symbols in the reference')
    if arch == 'aarch64':       # constants that only a logical immediate can make are an extra of LLVM's
        keep = [k for k, w in enumerate(want) if not (lines[k].startswith('mov ') and '#' in lines[k] and only_logical(lines[k]))]
        lines, want = [lines[k] for k in keep], [want[k] for k in keep]
    ctx.write('x.s', src(lines))
    try:
        os.unlink(os.path.join(ctx.dir, 'x.o'))
    except OSError:
        pass
    x = run([asm, '-o', 'x.o', 'x.s'], cwd=ctx.dir)
    if x.rc != 0:
        return fail('%s: refused: %s' % (arch, x.short()))
    got = disasm(ctx, arch, 'x.o', len(lines))
    if got is None:
        return fail('%s: labels missing or out of order' % arch)
    same = same_rv if arch == 'riscv64' else same_a64
    for l, w, g in zip(lines, want, got):
        if not same(w, g):
            return fail('%s: %s: encoded as %s, should be %s' % (arch, l, '; '.join(g), '; '.join(w)))
    return Res('pass', len(lines) + len(bad) >= 4, units=len(lines) + min(3, len(bad)))


def check_maze(case, ctx):
    _, arch, units, exp, visited = case
    files = []
    for k, t in enumerate(units):
        files.append('m%d.s' % k)
        ctx.write(files[-1], t)
    try:
        os.unlink(os.path.join(ctx.dir, 'm.out'))
    except OSError:
        pass
    objs = []
    for f in files:
        o = f[:-1] + 'o'
        r = run([os.path.join(ctx.builds[arch], 'as'), '-o', o, f], cwd=ctx.dir)
        if r.rc != 0:
            return fail('%s: maze refused: %s' % (arch, r.short()))
        objs.append(o)
    r = run([os.path.join(ctx.builds[arch], 'ld'), '-o', 'm.out', *objs], cwd=ctx.dir)
    if r.rc != 0:
        return fail('%s: maze not linked: %s' % (arch, r.short()))
    e = run([ctx.x['emu'], 'm.out'], cwd=ctx.dir, cpu=10)
    if e.rc != exp:
        return fail('%s: maze ends with %s, should be %d' % (arch, e.short(), exp))
    return Res('pass', visited >= 4, units=visited)
