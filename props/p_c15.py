"""The x86-64 assembler against GNU as."""
import os
import re
import struct

from asmx64 import AsmX64
from core import Res, fail, run
from elf import Elf

ID = 'C15'
N = {'quick': 13000, 'thorough': 200000}
BUILDS = ('native',)
RULE = ('a case is an assembly file (up to 60 instructions of every form the assembler parses, labels, jumps, data directives, '
        'alignments, symbol attributes); evaluations = instructions and data items compared after linking; non-trivial when at '
        'least 4 instructions or data items are compared; distinct by text')
ASSUMPTIONS = ['GNU as and ld 2.42 define what an instruction, directive or relocation means; two encodings are equal when '
               'objdump shows the same instruction', 'padding bytes in text are not compared',
               'only operands GNU as accepts are generated']

TEXT, RO, DATA = 0x400000, 0x600000, 0x800000
EXT = {'ext0': 0x404000, 'ext1': 0x300123, 'ext_data': 0x801230 + 0x100000}


MNEMONICS = """mov movb movw movl movq movsx movzx lea add addq sub subq mul div idiv neg not inc incb incw incl incq dec decb decw decl decq
and or xor shl shr sar cmp test cwtl cltd cqto seto setno setb setae sete setne setbe seta sets setns setp setnp setl setge setle setg jmp
jo jno jb jae je jne jbe ja js jns jp jnp jl jge jle jg call ret push pop int syscall movsd addsd subsd mulsd divsd xorpd comisd ucomisd
cvtsi2sd cvttsd2si sqrtsd movss addss subss mulss divss xorps comiss ucomiss cvtsi2ss cvttss2si cvtsd2ss cvtss2sd endbr64""".split()
UNKNOWN = ['nop', 'imul', 'movabs', 'xchg', 'adc', 'sbb', 'bt', 'movaps', 'leaq', 'addl', 'subb', 'movsbl', 'fld', 'jcxz', 'moov', 'ad', 'adds', 'cqo', 'retq', 'j', '.', 'mov.', 'push1']


def operand(s, g):
    k = s.i(20)
    if k < 9:
        return '%' + g.reg(s.choice([64, 64, 32, 16, 8]), True)
    if k < 11:
        return '%%xmm%d' % s.i(16)
    if k < 13:
        return '$' + g.num(g.imm(s.choice([8, 16, 32, 64]), True))
    if k < 16:
        return g.mem(s.p(35))[0]
    if k == 16:
        return s.choice(['$ext0', 'ext0', 'ext0+4', '12', '0x404000', '-8'])
    if k == 17:
        return '*%' + g.reg(64)
    if k == 18:
        return '*' + g.mem(s.p(35))[0]
    return s.choice(['ext_data(%rip)', 'ext_data+8(%rip)', '(%rip)', '8(%rip)', '%cl', '%rip', '%fs', '%eip', '%r16', '%xmm16', '(%eax)', '8(%rax,%rbx,3)', '(%rax,%rsp)',
                     '(,%rax,4)', '4(,%rbx,8)', '(%rbx,%rcx', '()', '$', '%', '*', '*ext0', '', '(%xmm0)', '8', '-1(%rax)junk'])


def gen_combo(s):
    """lines of a mnemonic and any operands: what is accepted must be right, the rest must be refused"""
    g = AsmX64(s, ['ext0'], [])
    out = []
    for _ in range(s.rng_(1, 30)):
        op = s.choice(MNEMONICS) if s.p(93) else s.choice(UNKNOWN)
        ops = [operand(s, g) for _ in range(s.weighted([(10, 2), (6, 1), (2, 0), (1, 3)]))]
        out.append(op + (' ' + s.choice([', ', ', ', ',', ' , ']).join(ops) if ops else ''))
    return ('combo', tuple(out))


def gen(src, ctx):
    s = src
    if s.p(30):
        return gen_combo(s)
    nt = s.weighted([(5, s.rng_(1, 12)), (4, s.rng_(8, 40)), (2, s.rng_(40, 90))])
    big = s.p(25)
    pre = s.choice(['L', '.L', 'lab_', '_x.', 'f'])
    labs = ['%s%d' % (pre, k) for k in range(s.rng_(1, 6))]
    dl = ['%sd%d' % (pre, k) for k in range(s.rng_(0, 4))]
    rl = ['%sr%d' % (pre, k) for k in range(s.rng_(0, 2))]
    bl = ['%sb%d' % (pre, k) for k in range(s.rng_(0, 3))]
    cl = ['%sc%d' % (pre, k) for k in range(s.rng_(0, 2))]
    g = AsmX64(s, labs + (['ext0', 'ext1'] if s.p(40) else []), dl + rl + bl + cl + (['ext_data'] if s.p(30) else []))
    out = []          # lines
    items = []        # text items in order: ('i',form) / ('lab',name) / ('gap',)
    tail = []
    where = {}
    for k, l in enumerate(labs):
        where.setdefault(s.rng_(0, nt), []).append(l)
    glob = set()
    for l in labs + dl + rl + bl:
        if s.p(35):
            glob.add(l)
            k = s.p(15)
            d = '.weak' if k and l not in labs else '.globl'
            (out if s.p(60) else tail).append('\t%s %s' % (d, l))
    out.append('\t.text')
    gaps = 0
    for k in range(nt + 1):
        for l in where.get(k, ()):
            if s.p(15):
                out.append('\t.type %s, @function' % l)
            out.append('%s:' % l + ('' if s.p(80) else '  '))
            items.append(('lab', l))
        if k == nt:
            break
        if s.p(4):
            gl = 'G%d' % gaps
            gaps += 1
            out += ['\t.globl ' + gl]
            if s.p(50):
                out += ['\t.align %d' % s.choice([1, 2, 4, 8, 16, 32])] if s.p(50) else ['\t.p2align %d' % s.rng_(0, 5)]
            else:
                out += ['\t.byte %d' % s.i(256) for _ in range(s.rng_(1, 3))]
            if big and s.p(40):
                out += ['\t.zero %d' % s.choice([100, 120, 127, 128, 130, 200, 5000])]
            out += [gl + ':']
            items.append(('gap', gl))
        f, t = g.inst()
        s.label('form:' + f)
        items.append(('i', f))
        out.append('\t' + t + ('' if s.p(90) else s.choice([' ', '\t'])))
        if s.p(3):
            out.append(s.choice(['', '  ', '\t']))
    # every gap needs its own label in the symbol table, labels too when they are global
    dat = []

    def vnum(bits):
        v = g.imm(bits, True)
        return v

    def dsec(name, labels, allow_ptr):
        lay = []
        off = 0
        lines = ['\t' + name]
        todo = list(labels)
        al = 1

        def align(a):
            nonlocal off
            off = (off + a - 1) // a * a
        n = s.rng_(1, 8) if labels or s.p(50) else 0
        for k in range(n + len(todo)):
            if todo and (k >= n or s.p(40)):
                l = todo.pop(0)
                if s.p(20):
                    lines.append('\t.type %s, @object' % l)
                lines.append(l + ':')
                lay.append((off, 'lab', l))
            c = s.weighted([(3, 'int'), (2, 'str'), (1, 'zero'), (2, 'flo'), (2 if allow_ptr else 0, 'ptr'), (2, 'align'), (1, 'expr')])
            if c == 'int':
                d, b = s.choice([('byte', 8), ('short', 16), ('long', 32), ('quad', 64)])
                v = vnum(b)
                lines.append('\t.%s %s' % (d, g.num(v)))
                lay.append((off, 'raw', b // 8))
                off += b // 8
            elif c == 'expr':
                a, b2, c2 = s.rng_(0, 900), s.rng_(0, 30), s.rng_(1, 9)
                e = s.choice(['%d + %d' % (a, b2), '%d-%d' % (a, b2), '%d*%d' % (b2, c2), '%d + %d * %d' % (a, b2, c2),
                              '%d / %d' % (a, c2), '- %d + %d' % (a, b2), '%d - %d - %d' % (a, b2, c2), '+%d' % a, '-%d*-%d' % (b2, c2)])
                lines.append('\t.long ' + e)
                lay.append((off, 'raw', 4))
                off += 4
            elif c == 'str':
                t, m = '', 0
                for _ in range(s.rng_(0, 10)):
                    q = s.i(8)
                    t += s.choice(['\\n', '\\t', '\\"', '\\\\', '\\r', '\\b', '\\f', '\\x41', '\\0']) if q == 0 else chr(s.rng_(32, 126)) if q < 7 else 'é'
                t2 = re.sub(r'(?<!\\)"', "'", t)
                t2 = fixstr(t2)
                m = strlen(t2)
                z = s.p(50)
                lines.append('\t.%s "%s"' % ('string' if z else 'ascii', t2))
                if m + z:
                    lay.append((off, 'raw', m + z))
                off += m + z
            elif c == 'zero':
                m = s.rng_(1, 20)
                lines.append('\t.zero %d' % m)
                lay.append((off, 'raw', m))
                off += m
            elif c == 'flo':
                d = s.choice(['float', 'double'])
                v = s.choice(['0.0', '1', '1.5', '-2.25', '3.14159265358979', '1e10', '-1e-5', '6.25e-2', '-0.0', '123456789', '.5', '-7'])
                lines.append('\t.%s %s' % (d, v))
                lay.append((off, 'raw', 4 if d == 'float' else 8))
                off += 4 if d == 'float' else 8
            elif c == 'ptr':
                align(8)
                al = 8
                lines.append('\t.align 8')
                t = s.choice(g.targets + g.datas + ['ext0'])
                o = s.choice(['', '', '+1', ' + 8', '+0x10 + 5'])
                lines.append('\t.quad %s%s' % (t, o))
                lay.append((off, 'ptr', 8))
                off += 8
            else:
                a = s.choice([1, 2, 4, 8, 16])
                al = max(al, a)
                align(a)
                lines.append('\t.align %d' % a if s.p(60) else '\t.p2align %d' % (a.bit_length() - 1))
        return lines, lay, off

    d1, lay_d, n_d = dsec('.data', dl, True)
    d2, lay_r, n_r = dsec('.section .rodata', rl, s.p(50))
    dat += d1 + d2
    for l in bl:
        dat.append('\t.bss')
        if s.p(50):
            dat.append('\t.align %d' % s.choice([1, 2, 4, 8, 16]))
        dat.append(l + ':')
        dat.append('\t.zero %d' % s.rng_(1, 40))
    for l in cl:
        dat.append('\t.local ' + l)
        dat.append('\t.comm %s, %d%s' % (l, s.rng_(1, 40), s.choice([', 1', ', 4', ', 8', ', 16', ',32'])))
    if s.p(25):
        out = dat + out
    else:
        out = out + dat
    text = '\n'.join(out + tail) + '\n'
    return text, tuple(items), tuple(lay_d), tuple(lay_r), tuple(sorted(glob))


def fixstr(t):
    """no bare quote, and no hex escape followed by a hex digit (GNU as takes any number of digits)"""
    t = re.sub(r'(\\x41|\\0)(?=[0-9a-fA-F])', r'\1 ', t)
    out, k = '', 0
    while k < len(t):
        if t[k] == '\\':
            if k + 1 >= len(t) or t[k + 1] not in 'ntrbfx0"\\':
                k += 1
                out += '/'
                continue
            if t[k + 1] == 'x' and t[k + 2:k + 4] != '41':
                k += 2
                out += '_'
                continue
            out += t[k:k + 2]
            k += 2
            continue
        out += "'" if t[k] == '"' else t[k]
        k += 1
    return re.sub(r'(\\x41|\\0)(?=[0-9a-fA-F])', r'\1 ', out)


def strlen(t):
    n, k = 0, 0
    while k < len(t):
        if t[k] == '\\':
            k += 4 if t[k + 1] == 'x' else 2
            n += 1
        else:
            n += len(t[k].encode())
            k += 1
    return n


LINE = re.compile(r'^\s*([0-9a-f]+):\t(.*?)\s*$')


def disasm(ctx, f):
    r = run(['objdump', '-dz', '--no-show-raw-insn', '-j', '.text', f], cwd=ctx.dir)
    out = []
    for l in r.out.decode('latin1').split('\n'):
        m = LINE.match(l)
        if m:
            out.append((int(m.group(1), 16), m.group(2)))
    return out


def align_items(items, dis, elf):
    """-> ({label: address}, [instruction text]) following the source's items"""
    pos, seq = {}, []
    idx = {a: k for k, (a, _) in enumerate(dis)}
    t = elf.sec('.text')
    end = t['addr'] + t['size'] if t else 0
    k = 0
    for it in items:
        if it[0] == 'gap':
            y = elf.sym(it[1])
            if y is None or (y['value'] not in idx and y['value'] != end):
                return None, 'label %s: %s' % (it[1], 'missing' if y is None else 'not at an instruction boundary')
            k = idx.get(y['value'], len(dis))
            pos[it[1]] = y['value']
        elif it[0] == 'lab':
            pos[it[1]] = dis[k][0] if k < len(dis) else end
        else:
            if k >= len(dis):
                return None, 'too few instructions'
            seq.append(dis[k][1])
            k += 1
    return pos, seq


ADDR = re.compile(r'^(j[a-z]+|call)\s+(?:[0-9a-f]*:)?([0-9a-f]+)(?: <.*>)?$')
RIP = re.compile(r'^(\S+\s+)(-?0x[0-9a-f]+)?\(%rip\)(.*?)\s+# (?:0x)?([0-9a-f]+)(?: <.*>)?$')
SHIFT1 = re.compile(r'^(shl|shr|sar)([bwlq]?)\s+(%\S+)$')
MOVI = re.compile(r'^(mov|movabs|movl|movq)\s+\$(0x[0-9a-f]+),%(\w+)$')
R32 = {'eax': 'rax', 'ecx': 'rcx', 'edx': 'rdx', 'ebx': 'rbx', 'esp': 'rsp', 'ebp': 'rbp', 'esi': 'rsi', 'edi': 'rdi',
       **{'r%dd' % k: 'r%d' % k for k in range(8, 16)}}


def normal(t, where):
    """(text without addresses, the places the address may stand for)"""
    m = ADDR.match(t)
    if m:
        return m.group(1) + ' @', where(int(m.group(2), 16))
    m = RIP.match(t)
    if m:
        return m.group(1) + '@' + m.group(3), where(int(m.group(4), 16))
    if t == 'int3':
        return 'int $0x3', NOWHERE
    m = SHIFT1.match(t)
    if m and ',' not in m.group(3):
        return '%s%s $0x1,%s' % m.groups(), NOWHERE
    m = MOVI.match(t)
    if m:
        v, r = int(m.group(2), 16), m.group(3)
        if r in R32 or r in R32.values():
            return 'set %s=%x' % (R32.get(r, r), v), NOWHERE
    return re.sub(r'\s+', ' ', re.sub(r'\s*<[^>]*>$', '', t)), NOWHERE


NOWHERE = frozenset([''])


def places(e, pos):
    """address -> every (label, small offset) it can be; other addresses are themselves"""
    t = e.sec('.text')
    com = [y for y in e.syms() if y['bind'] and y['type'] == 1 and y['size']]

    def f(a):
        if t and t['addr'] <= a <= t['addr'] + t['size'] + 140:
            return frozenset((n, a - v) for n, v in pos.items() if 0 <= a - v <= 140)
        for y in com:
            if y['value'] <= a < y['value'] + y['size']:
                return frozenset([(y['name'], a - y['value']), a])
        return frozenset([a])
    return f


def link(ctx, o, out):
    r = run(['ld', '-o', out, o, '-e', '0', '--no-relax', '-z', 'norelro', '--no-warn-rwx-segments', '--section-start=.text=%#x' % TEXT,
             '--section-start=.rodata=%#x' % RO, '-Tdata=%#x' % DATA, '-z', 'max-page-size=4096', '-z', 'noseparate-code',
             '--unresolved-symbols=report-all',
             *['--defsym=%s=%#x' % kv for kv in EXT.items()]], cwd=ctx.dir)
    return r


ERRLINE = re.compile(rb'^a\.s\((\d+)\): ', re.M)
GERRLINE = re.compile(rb'^a\.s:(\d+): ', re.M)


def check_combo(case, ctx):
    lines = list(case[1])
    asm = os.path.join(ctx.builds['native'], 'as')
    total = len(lines)
    refused = 0
    for _ in range(6):
        if not lines:
            return Res('pass', total >= 4, units=total, labels={'lines refused': refused})
        ctx.write('a.s', '\t.text\n' + ''.join('\t%s\n' % l for l in lines))
        try:
            os.unlink('x.o')
        except OSError:
            pass
        r = run([asm, '-o', 'x.o', 'a.s'], cwd=ctx.dir)
        if r.timeout or r.rc < 0 or r.rc > 127:
            return fail('as crashes: ' + r.short())
        if r.rc == 0:
            break
        bad = {int(x) - 2 for x in ERRLINE.findall(r.err)}
        if not bad or not all(0 <= b < len(lines) for b in bad):
            return fail('as fails without naming a line: ' + r.short())
        refused += len(bad)
        lines = [l for k, l in enumerate(lines) if k not in bad]
    else:
        return fail('as names other lines each time: ' + r.short())
    # what GNU as has no single reading for is left out
    r = run(['as', '-o', 'g.o', 'a.s'], cwd=ctx.dir)
    unsure = set()
    for m in re.finditer(rb'^a\.s:(\d+): (Warning|Error): (.*)$', r.err, re.M):
        k = int(m.group(1)) - 2
        if m.group(2) == b'Error':
            return fail('as accepts %r, which is no instruction (GNU as: %s)' % (lines[k], m.group(3).decode('latin1')))
        unsure.add(k)
    lines = [l for k, l in enumerate(lines) if k not in unsure]
    if not lines:
        return Res('pass', total >= 4, units=total, labels={'lines refused': refused})
    res = compare('\t.text\n' + ''.join('\t%s\n' % l for l in lines), tuple(('i', l) for l in lines), (), (), ctx)
    if res.status == 'pass':
        res.units = total
        res.nontrivial = total >= 4
        res.labels = {'lines refused': refused, 'lines accepted': len(lines)}
    return res


def check(case, ctx):
    if case[0] == 'combo':
        return check_combo(case, ctx)
    return compare(*case[:4], ctx)


def compare(text, items, lay_d, lay_r, ctx):
    for f in ('g.o', 'x.o', 'g.out', 'x.out'):
        try:
            os.unlink(f)
        except OSError:
            pass
    ctx.write('a.s', text)
    r = run(['as', '-o', 'g.o', 'a.s'], cwd=ctx.dir)
    if r.rc != 0:
        return Res('skip', False, 'GNU as: ' + r.short())
    r = run([os.path.join(ctx.builds['native'], 'as'), '-o', 'x.o', 'a.s'], cwd=ctx.dir)
    if r.rc != 0 or not os.path.exists('x.o'):
        return fail('as rejects the file: ' + r.short())
    r = link(ctx, 'g.o', 'g.out')
    if r.rc != 0:
        return Res('skip', False, 'reference link: ' + r.short())
    r = link(ctx, 'x.o', 'x.out')
    if r.rc != 0:
        return fail('GNU ld rejects the object file: ' + r.short())
    try:
        xo = Elf(open('x.o', 'rb').read())
        x = Elf(open('x.out', 'rb').read())
    except Exception as e:
        return fail('unreadable ELF file: %r' % e)
    go = Elf(open('g.o', 'rb').read())
    g = Elf(open('g.out', 'rb').read())
    msg = objcheck(xo, go)
    if msg:
        return fail(msg)
    n = 0
    ds = []
    pg, sg = align_items(items, disasm(ctx, 'g.out'), g)
    if pg is None:
        return Res('skip', False, 'reference: ' + sg)
    px, sx = align_items(items, disasm(ctx, 'x.out'), x)
    if px is None:
        return fail(sx)

    wg, wx = places(g, pg), places(x, px)
    for k, (a, b) in enumerate(zip(sg, sx)):
        n += 1
        (ta, fa), (tb, fb) = normal(a, wg), normal(b, wx)
        if ta != tb or not fa & fb:
            return fail('instruction %d: GNU as %r %s, xcc as %r %s' % (k, a, sorted(map(str, fa)), b, sorted(map(str, fb))))
    for nm, lay, base in (('.data', lay_d, DATA), ('.rodata', lay_r, RO)):
        bg, bx = g.bytes(g.sec(nm)), x.bytes(x.sec(nm))
        if len(bg) != len(bx):
            return fail('%s has %d bytes, GNU as %d' % (nm, len(bx), len(bg)))
        raw = bytearray(bx)
        rag = bytearray(bg)
        for off, k, v in lay:
            if k == 'ptr':
                a, b = struct.unpack_from('<Q', bg, off)[0], struct.unpack_from('<Q', bx, off)[0]
                a, b = wg(a), wx(b)
                n += 1
                if not a & b:
                    return fail('%s+%d: pointer to %s, GNU as: %s' % (nm, off, sorted(map(str, b)), sorted(map(str, a))))
                raw[off:off + 8] = rag[off:off + 8] = bytes(8)
            elif k == 'raw':
                n += 1
        if raw != rag:
            j = [k for k in range(len(raw)) if raw[k] != rag[k]][0]
            return fail('%s+%d: byte %02x, GNU as %02x' % (nm, j, raw[j], rag[j]))
    return Res('pass', n >= 4, units=n)


def objcheck(x, g):
    """symbol attributes and section properties of the object files"""
    def table(e):
        t = {}
        for y in e.syms():
            if y['bind'] and y['name']:
                sec = {0: 'UND', 0xfff1: 'ABS', 0xfff2: 'COM'}.get(y['shndx'])
                if sec is None:
                    sec = e.sh[y['shndx']]['name'] if y['shndx'] < len(e.sh) else 'bad'
                t[y['name']] = (y['bind'], y['type'], sec, y['size'] if sec == 'COM' else 0, y['value'] if sec == 'COM' else 0)
        return t
    tx, tg = table(x), table(g)
    for k in tg:
        if k not in tx:
            return 'global symbol %s is missing from the object file' % k
        a, b = tx[k], tg[k]
        if a != b and not (a[2] == b[2] == 'COM' and a[0] == b[0] and a[3:] == b[3:]):
            return 'symbol %s: (bind, type, section, size, align) %r, GNU as %r' % (k, a, b)
    for k in tx:
        if k not in tg:
            return 'symbol %s should not be global or undefined' % k
    for s in x.sh:
        if s['type'] == 2:
            loc = [y['bind'] == 0 for y in x.syms()]
            if s['info'] != sum(loc) or any(loc[s['info']:]):
                return 'sh_info of the symbol table is %d, local symbols %d' % (s['info'], sum(loc))
        r = g.sec(s['name'])
        if r is not None and s['name'] in ('.text', '.data', '.bss', '.rodata'):
            if s['align'] < r['align'] and s['size']:
                return 'section %s: alignment %d, GNU as %d' % (s['name'], s['align'], r['align'])
            if s['type'] != r['type']:
                return 'section %s: type %d, GNU as %d' % (s['name'], s['type'], r['type'])
            if s['name'] != '.rodata' and (s['flags'] & 7) != (r['flags'] & 7):
                return 'section %s: flags %d, GNU as %d' % (s['name'], s['flags'], r['flags'])
    return None


def render(case):
    return '\n'.join(case[1]) + '\n' if case[0] == 'combo' else case[0]
