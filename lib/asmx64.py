"""Generator of x86-64 assembly in the dialect xcc's assembler accepts."""
from pbt import Src  # noqa: F401

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % k for k in range(8, 16)]
R32 = ['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + ['r%dd' % k for k in range(8, 16)]
R16 = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + ['r%dw' % k for k in range(8, 16)]
R8 = ['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + ['r%db' % k for k in range(8, 16)]
R8H = ['ah', 'ch', 'dh', 'bh']
REX8 = set(R8[4:])
CC = ['o', 'no', 'b', 'ae', 'e', 'ne', 'be', 'a', 's', 'ns', 'p', 'np', 'l', 'ge', 'le', 'g']
XMM = ['xmm%d' % k for k in range(16)]
BY = {8: R8, 16: R16, 32: R32, 64: R64}


class AsmX64:
    def __init__(self, s, targets=(), datas=()):
        self.s = s
        self.targets = list(targets)
        self.datas = list(datas)

    def reg(self, bits, high=False):
        s = self.s
        if bits == 8 and high and s.p(12):
            return s.choice(R8H)
        return s.choice(BY[bits])

    def bits(self):
        return self.s.choice([64, 32, 8, 16])

    def num(self, v):
        """spelling of a number"""
        s = self.s
        k = s.weighted([(6, 0), (3, 1), (1, 2)])
        a = abs(v)
        t = str(a) if k == 0 or a == 0 else ('0x%x' % a if k == 1 else '0%o' % a)
        return ('-' if v < 0 else '') + t

    def imm(self, bits, wide=False):
        s = self.s
        n = 64 if bits == 64 and wide else min(bits, 32)
        lo, hi = -(1 << (n - 1)), (1 << n) - 1
        if bits == 64 and not wide:
            hi = (1 << 31) - 1
        k = s.i(4)
        if k == 0:
            v = s.choice([0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
                          2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, hi, lo])
        elif k == 1:
            v = s.rng_(-130, 260)
        else:
            v = s.rng_(0, (1 << s.rng_(1, n)) - 1)
            if s.p(40):
                v = -v
        if not lo <= v <= hi:
            v = lo + (v - lo) % (hi - lo + 1)
        return v

    def disp(self):
        s = self.s
        k = s.i(5)
        if k == 0:
            return 0
        if k < 3:
            return s.rng_(-129, 129)
        if k == 3:
            return s.choice([127, 128, -128, -129, 2147483647, -2147483648, 1 << 16])
        v = s.rng_(0, (1 << s.rng_(1, 31)) - 1)
        return -v if s.p(50) else v

    def mem(self, index=False):
        """(text, registers)"""
        s = self.s
        d = self.disp()
        t = '' if d == 0 and s.p(70) else (self.dnum(d))
        b = s.choice(R64)
        if not index:
            return '%s(%%%s)' % (t, b), (b,)
        i = s.choice([r for r in R64 if r != 'rsp'])
        sc = s.choice(['', ', 1', ', 2', ', 4', ',8'])
        return '%s(%%%s, %%%s%s)' % (t, b, i, sc), (b, i)

    def dnum(self, v):
        return ('-' if v < 0 else '') + (str(abs(v)) if self.s.p(70) else '0x%x' % abs(v))

    @staticmethod
    def rexless(*regs):
        return not any(r in REX8 or r[:2] in ('r8', 'r9') or (r[0] == 'r' and r[1:2] == '1') for r in regs)

    def pair8(self, bits, other=()):
        """register of that size combinable with registers `other`"""
        r = self.reg(bits, True)
        if r in R8H and not self.rexless(*other):
            r = self.s.choice(R8)
        return r

    def inst(self):
        """-> (form name, text without label)"""
        s = self.s
        return self.s.choice(FORMS)(self)


FORMS = []


def form(w=1):
    def f(fn):
        for _ in range(w):
            FORMS.append(fn)
        return fn
    return f


def rr(g, ops):
    op = g.s.choice(ops)
    b = g.bits()
    x = g.reg(b, True)
    y = g.pair8(b, (x,))
    if x in R8H and not g.rexless(y):
        x = g.s.choice(R8)
    return op + ' rr', '%s %%%s, %%%s' % (op, x, y)


ALU = ['add', 'sub', 'and', 'or', 'xor', 'cmp']


@form(5)
def f_alu_rr(g):
    return rr(g, ALU + ['test', 'mov', 'mov'])


@form(5)
def f_alu_imr(g):
    op = g.s.choice(ALU + ['mov', 'mov'])
    b = g.bits()
    v = g.imm(b, op == 'mov')
    if op in ('add', 'sub') and b == 32 and v >= 1 << 31:    # refused
        v -= 1 << 32
    return op + ' imr', '%s $%s, %%%s' % (op, g.num(v), g.reg(b, True))


def load(g, op, index, noext=False):
    b = g.bits()
    m, rs = g.mem(index)
    r = g.pair8(b, rs)
    return '%s %sir' % (op, 'i' if index else ''), '%s %s, %%%s' % (op, m, r)


@form(4)
def f_mov_ir(g):
    return load(g, g.s.choice(['mov', 'mov', 'add', 'sub']), False)


@form(4)
def f_mov_iir(g):
    return load(g, g.s.choice(['mov', 'mov', 'add', 'sub']), True)


@form(4)
def f_mov_ri(g):
    b = g.bits()
    m, rs = g.mem()
    return 'mov ri', 'mov %%%s, %s' % (g.pair8(b, rs), m)


@form(3)
def f_movx_imi(g):
    b = g.bits()
    c = {8: 'b', 16: 'w', 32: 'l', 64: 'q'}[b]
    m, _ = g.mem()
    return 'mov%s imi' % c, 'mov%s $%s, %s' % (c, g.num(g.imm(b)), m)


@form(1)
def f_movx_imd(g):
    b = g.bits()
    c = {8: 'b', 16: 'w', 32: 'l', 64: 'q'}[b]
    return 'mov%s imd' % c, 'mov%s $%s, %s' % (c, g.num(g.imm(b)), g.num(g.s.rng_(0, (1 << g.s.rng_(1, 31)) - 1)))


@form(4)
def f_movsz(g):
    op = g.s.choice(['movsx', 'movzx'])
    a, b = g.s.choice([(8, 16), (8, 32), (8, 64), (16, 32), (16, 64), (32, 64)])
    if (a, b, op) == (32, 64, 'movzx'):
        a = 16
    y = g.reg(b)
    x = g.reg(a, b != 64)
    if x in R8H and not g.rexless(y):
        x = 'al'
    return '%s %d,%d' % (op, a, b), '%s %%%s, %%%s' % (op, x, y)


@form(3)
def f_lea(g):
    i = g.s.p(50)
    m, _ = g.mem(i)
    return 'lea ' + ('iir' if i else 'ir'), 'lea %s, %%%s' % (m, g.s.choice(R64))


@form(1)
def f_addq(g):
    op = g.s.choice(['addq', 'subq'])
    m, _ = g.mem()
    return op, '%s $%s, %s' % (op, g.num(g.imm(64)), m)


@form(4)
def f_unary(g):
    op = g.s.choice(['mul', 'div', 'idiv', 'neg', 'not', 'inc', 'dec'])
    return op, '%s %%%s' % (op, g.reg(g.bits(), True))


@form(3)
def f_incmem(g):
    op = g.s.choice(['inc', 'dec']) + g.s.choice('bwlq')
    return op, '%s %s' % (op, g.mem()[0])


@form(4)
def f_shift(g):
    op = g.s.choice(['shl', 'shr', 'sar'])
    if g.s.p(40):
        return op + ' cl', '%s %%cl, %%%s' % (op, g.reg(g.bits(), True))
    return op + ' im', '%s $%s, %%%s' % (op, g.num(g.s.choice([1, g.s.rng_(0, 63), g.s.rng_(0, 255)])), g.reg(g.bits(), True))


@form(2)
def f_plain(g):
    op = g.s.choice(['cwtl', 'cltd', 'cqto', 'ret', 'syscall', 'endbr64', 'int'])
    if op == 'int':
        return op, 'int $%s' % g.num(g.s.choice([0x80, g.s.rng_(0, 255)]))
    return op, op


@form(2)
def f_set(g):
    op = 'set' + g.s.choice(CC)
    return op, '%s %%%s' % (op, g.reg(8, True))


@form(2)
def f_pushpop(g):
    k = g.s.i(3)
    if k == 0:
        return 'push im', 'push $%s' % g.num(g.imm(64))
    op = ['', 'push', 'pop'][k]
    return op, '%s %%%s' % (op, g.s.choice(R64))


@form(6)
def f_jump(g):
    if not g.targets:
        return f_plain(g)
    t = g.s.choice(g.targets)
    op = g.s.choice(['jmp', 'call'] + ['j' + c for c in CC])
    return op + ' d', '%s %s' % (op, t)


@form(2)
def f_jind(g):
    k = g.s.i(4)
    if k < 2:
        op = ['jmp', 'call'][k]
        return op + ' der', '%s *%%%s' % (op, g.s.choice(R64))
    m, _ = g.mem(k == 3)
    if m[0] == '(':
        m = '0' + m
    return 'jmp dei' + 'i' * (k - 2), 'jmp *%s' % m


@form(4)
def f_learip(g):
    t = g.targets + g.datas
    if not t:
        return f_lea(g)
    o = g.s.choice(['', '', '+1', ' + 8', '+0x7f', '+ 3 + 4'])
    if g.s.p(30):
        return 'mov rip', 'mov %s%s(%%rip), %%%s' % (g.s.choice(t), o, g.reg(g.bits()))
    return 'lea rip', 'lea %s%s(%%rip), %%%s' % (g.s.choice(t), o, g.s.choice(R64))


@form(6)
def f_sse(g):
    op = g.s.choice(['movsd', 'movss', 'addsd', 'subsd', 'mulsd', 'divsd', 'xorpd', 'comisd', 'ucomisd', 'sqrtsd', 'addss', 'subss',
                     'mulss', 'divss', 'xorps', 'comiss', 'ucomiss', 'cvtsd2ss', 'cvtss2sd'])
    return op + ' xx', '%s %%%s, %%%s' % (op, g.s.choice(XMM), g.s.choice(XMM))


@form(3)
def f_ssemem(g):
    op = g.s.choice(['movsd', 'movss'])
    m, _ = g.mem()
    x = g.s.choice(XMM)
    return (op + ' ix', '%s %s, %%%s' % (op, m, x)) if g.s.p(50) else (op + ' xi', '%s %%%s, %s' % (op, x, m))


@form(3)
def f_cvt(g):
    if g.s.p(50):
        op = g.s.choice(['cvtsi2sd', 'cvtsi2ss'])
        return op, '%s %%%s, %%%s' % (op, g.reg(g.s.choice([32, 64])), g.s.choice(XMM))
    op = g.s.choice(['cvttsd2si', 'cvttss2si'])
    return op, '%s %%%s, %%%s' % (op, g.s.choice(XMM), g.reg(g.s.choice([32, 64])))


@form(1)
def f_seg(g):
    return 'mov sr', 'mov %%fs:%s, %%%s' % (g.s.choice(['0', '8', '0x28', '40', '-8', '0x7fffffff']), g.s.choice(R64))


@form(2)
def f_direct(g):
    b = g.bits()
    d = g.num(g.s.rng_(0, (1 << g.s.rng_(1, 31)) - 1))
    r = g.reg(b)
    return ('mov dr', 'mov %s, %%%s' % (d, r)) if g.s.p(50) else ('mov rd', 'mov %%%s, %s' % (r, d))
