"""Random instructions of RISC-V (RV64IMFDC) and AArch64 in the syntax shared by xcc's assembler and LLVM."""

RV_X = ['zero', 'ra', 'sp', 'gp', 'tp', 't0', 't1', 't2', 's0', 's1'] + ['a%d' % k for k in range(8)] + ['s%d' % k for k in range(2, 12)] + ['t3', 't4', 't5', 't6']
RV_F = ['ft%d' % k for k in range(8)] + ['fs0', 'fs1'] + ['fa%d' % k for k in range(8)] + ['fs%d' % k for k in range(2, 12)] + ['ft8', 'ft9', 'ft10', 'ft11']


class Rv:
    def __init__(self, s):
        self.s = s
        self.pool = [s.i(32) for _ in range(3)]

    def no(self):
        s = self.s
        if s.p(35):
            return s.choice(self.pool)
        if s.p(15):
            return s.choice([0, 2, 1, 8])
        return s.rng_(8, 15) if s.p(50) else s.i(32)

    def x(self):
        n = self.no()
        if n == 8 and self.s.p(40):
            return 'fp'
        return RV_X[n] if self.s.p(75) else 'x%d' % n

    def f(self):
        n = self.no()
        return RV_F[n] if self.s.p(75) else 'f%d' % n

    def num(self, v):
        if self.s.p(15):
            return hex(v) if v >= 0 else '-' + hex(-v)
        return str(v)

    def imm12(self):
        s = self.s
        c = s.i(10)
        if c < 3:
            return self.num(s.rng_(-34, 34))
        if c < 5:
            return self.num(s.choice([-2048, 2047, -2047, 2046, 0, 16, -16, 496, -512, 512, 1024, -33, 31, 32, -32]))
        if c == 5 and s.p(60):
            return self.num(s.choice([2048, -2049, 4095, 4096, -4096, 10000, 65536, 1 << 31, -(1 << 31), 1 << 32]))
        return self.num(s.rng_(-2048, 2047))

    def sh(self, w):
        s = self.s
        if s.p(8):
            return self.num(s.choice([w, w + 1, 63, 64, 65, 127, 128, -1]))
        return self.num(s.i(w) if s.p(60) else s.choice([0, 1, w - 1, w // 2]))

    def ofs(self, scale):
        s = self.s
        c = s.i(10)
        if c == 0:
            return ''
        if c < 4:
            return self.num(s.i(64) * scale)
        if c < 6:
            return self.num(s.choice([0, 124, 128, 248, 256, 504, 512, 252, 508, -8, -4, 2047, -2048, 2040]))
        if c == 6 and s.p(50):
            return self.num(s.choice([2048, -2049, 4096, 5000, -4096, 1 << 20]))
        return self.num(s.rng_(-2048, 2047))

    def li(self):
        s = self.s
        c = s.i(8)
        if c == 0:
            v = s.rng_(-40, 40)
        elif c == 1:
            v = s.rng_(-5000, 5000)
        elif c == 2:
            v = (1 << s.i(64)) + s.rng_(-2, 2)
        elif c == 3:
            v = -(1 << s.i(64)) + s.rng_(-2, 2)
        elif c == 4:
            v = s.rng_(-(1 << 31), (1 << 31) - 1)
        elif c == 5:
            v = (s.rng_(-(1 << 19), (1 << 19) - 1) << 12) + s.choice([0, 0x7ff, 0x800, 0xfff, 1, 31, 32])
        elif c == 6:
            v = (s.rng_(-(1 << 51), (1 << 51) - 1) << 12) + s.choice([0, 0x7ff, 0x800, 0xfff, 1])
        else:
            v = s.rng_(-(1 << 63), (1 << 63) - 1)
        v = max(-(1 << 63), min((1 << 63) - 1, v))
        return self.num(v)

    def inst(self):
        s, x, f = self.s, self.x, self.f
        k = s.weighted([(6, '3r'), (6, '2ri'), (3, 'sh'), (3, '2r'), (4, 'li'), (5, 'ld'), (4, 'st'), (2, 'fld'), (2, 'fst'), (3, '3f'), (2, '2f'), (2, 'fcmp'),
                        (2, 'fi'), (2, 'if'), (2, 'mv'), (1, 'misc'), (2, 'addsp')])
        s.label('rv:' + k)
        if k == '3r':
            op = s.choice('add addw sub subw mul mulw div divu divw divuw rem remu remw remuw and or xor sll sllw srl srlw sra sraw slt sltu'.split())
            a, b, c = x(), x(), x()
            if s.p(30):
                b = a
            elif s.p(20):
                c = a
            return '%s %s, %s, %s' % (op, a, b, c)
        if k == '2ri':
            op = s.choice('addi addiw andi ori xori slti sltiu'.split())
            a = x()
            return '%s %s, %s, %s' % (op, a, a if s.p(40) else x(), self.imm12())
        if k == 'addsp':
            return 'addi sp, sp, %s' % self.num(s.rng_(-40, 40) * 16 if s.p(70) else s.rng_(-600, 600))
        if k == 'sh':
            op = s.choice('slli srli srai slliw srliw sraiw'.split())
            a = x()
            return '%s %s, %s, %s' % (op, a, a if s.p(40) else x(), self.sh(32 if op[-1] == 'w' else 64))
        if k == '2r':
            return '%s %s, %s' % (s.choice('neg not sext.b sext.h sext.w zext.b zext.h zext.w seqz snez sltz sgtz'.split()), x(), x())
        if k == 'mv':
            return 'mv %s, %s' % (x(), x())
        if k == 'li':
            return 'li %s, %s' % (x(), self.li())
        if k == 'ld':
            op, n = s.choice([('lb', 1), ('lh', 2), ('lw', 4), ('ld', 8), ('lbu', 1), ('lhu', 2), ('lwu', 4)])
            return '%s %s, %s(%s)' % (op, x(), self.ofs(n), x())
        if k == 'st':
            op, n = s.choice([('sb', 1), ('sh', 2), ('sw', 4), ('sd', 8)])
            return '%s %s, %s(%s)' % (op, x(), self.ofs(n), x())
        if k in ('fld', 'fst'):
            op, n = s.choice([('fl' if k == 'fld' else 'fs') + t for t in 'wd']), 8
            return '%s %s, %s(%s)' % (op, f(), self.ofs(n), x())
        if k == '3f':
            return '%s.%s %s, %s, %s' % (s.choice('fadd fsub fmul fdiv fsgnj fsgnjn fsgnjx'.split()), s.choice('sd'), f(), f(), f())
        if k == '2f':
            return '%s %s, %s' % (s.choice('fsqrt.d fsqrt.s fmv.d fneg.d fmv.s fneg.s fcvt.d.s fcvt.s.d'.split()), f(), f())
        if k == 'fcmp':
            return '%s.%s %s, %s, %s' % (s.choice(['feq', 'flt', 'fle']), s.choice('sd'), x(), f(), f())
        if k == 'fi':
            return 'fcvt.%s.%s %s, %s' % (s.choice('sd'), s.choice(['w', 'wu', 'l', 'lu']), f(), x())
        if k == 'if':
            if s.p(25):
                return '%s %s, %s' % (s.choice(['fmv.x.d', 'fmv.x.w']), x(), f())
            return 'fcvt.%s.%s %s, %s%s' % (s.choice(['w', 'wu', 'l', 'lu']), s.choice('sd'), x(), f(), s.choice(['', ', rtz', ', rtz', ', rne', ', rdn', ', rup', ', rmm']))
        op = s.choice(['jr', 'jalr', 'ret', 'ecall'])
        return op if op in ('ret', 'ecall') else '%s %s' % (op, x())


class A64:
    def __init__(self, s):
        self.s = s

    def n(self):
        s = self.s
        return s.i(31)

    def r(self, b, z=True):
        s = self.s
        n = self.n()
        if z and s.p(6):
            return 'xzr' if b else 'wzr'
        if n == 29 and b and s.p(40):
            return 'fp'
        if n == 30 and b and s.p(40):
            return 'lr'
        return ('x%d' if b else 'w%d') % n

    def rs(self, b):
        return 'sp' if b and self.s.p(25) else self.r(b, False)

    def f(self, b):
        return ('d%d' if b else 's%d') % self.s.i(32)

    def num(self, v):
        if self.s.p(15):
            return '#' + (hex(v) if v >= 0 else '-' + hex(-v))
        return '#%d' % v

    def inst(self):
        s, r, f, num = self.s, self.r, self.f, self.num
        b = s.p(60)
        k = s.weighted([(3, 'mov'), (4, 'movi'), (2, 'movk'), (5, 'addsub'), (4, 'addi'), (3, 'addx'), (4, '3r'), (2, '4r'), (3, 'cmp'), (3, 'lsi'), (2, 'lsr'), (2, 'ext'),
                        (8, 'mem'), (3, 'pair'), (2, 'cset'), (1, 'br'), (4, 'fp'), (3, 'fcvt')])
        s.label('a64:' + k)
        if k == 'mov':
            if b and s.p(40):
                return 'mov %s, %s' % (('sp', self.r(1, False)) if s.p(50) else (self.r(1, False), 'sp'))
            return 'mov %s, %s' % (r(b), r(b))
        if k == 'movi':
            c = s.i(6)
            v = (s.i(65536) if c < 2 else -s.rng_(1, 65536) if c < 4 else s.choice([0, 65535, 65536, 65537, -65536, -65537, 1 << 16, 0x12340000, 0xffff0000, 1 << 32, 
                                                                                     0xff, 0xffffffff, -1, -2, 1 << 63, 0x123456789, 0xabcd << 48, 0xfff0])) if c < 5 else (s.i(65536) << s.choice([0, 16, 32, 48]))
            if not b and abs(v) >> 32:          # LLVM 18 cuts these to 32 bits
                v = v >> 32 or 1
            return 'mov %s, %s' % (r(b), num(v))
        if k == 'movk':
            return 'movk %s, %s, lsl #%d' % (r(b), num(s.i(65536) if s.p(93) else s.choice([65536, -1, 70000])), s.choice([0, 16, 32, 48]) if b or s.p(10) else s.choice([0, 16]))
        if k == 'addsub':
            op = s.choice(['add', 'sub'])
            if b and s.p(20):
                d, n = ('sp', self.r(1, False)) if s.p(40) else (self.r(1, False), 'sp') if s.p(60) else ('sp', 'sp')
                return '%s %s, %s, %s' % (op, d, n, r(b, False))
            return '%s %s, %s, %s' % (op, r(b), r(b), r(b))
        if k == 'addi':
            v = s.i(4096) if s.p(60) else s.choice([0, 1, 4095, 4096, 4097, 8192, 0xfff000, 0x1000000, -1, -4095, -4096, -4097, 0x12345, 409600, -409600])
            return '%s %s, %s, %s' % (s.choice(['add', 'sub']), self.rs(b), self.rs(b), num(v))
        if k == 'addx':
            op = s.choice(['add', 'sub'])
            if s.p(50):
                sh = s.choice(['lsl', 'lsr', 'asr'])
                w = 64 if b else 32
                return '%s %s, %s, %s, %s #%d' % (op, r(b), r(b), r(b), sh, s.i(w) if s.p(92) else s.choice([w, 32, 63, 64]))
            e = s.choice(['uxtb', 'uxth', 'uxtw', 'sxtb', 'sxth', 'sxtw'])
            if not b:
                return '%s %s, %s, %s, %s%s' % (op, r(0, False), r(0, False), r(0), e, s.choice(['', ' #%d' % s.i(5), ' #%d' % s.i(6)]))
            return '%s %s, %s, %s, %s%s' % (op, r(1, False), r(1, False), r(1), s.choice(['uxtx', 'sxtx']), s.choice(['', ' #%d' % s.i(5)]))
        if k == '3r':
            return '%s %s, %s, %s' % (s.choice('mul sdiv udiv and orr eor eon'.split()), r(b), r(b), r(b))
        if k == '4r':
            return '%s %s, %s, %s, %s' % (s.choice(['madd', 'msub']), r(b), r(b), r(b), r(b))
        if k == 'cmp':
            op = s.choice(['cmp', 'cmn'])
            if s.p(50):
                return '%s %s, %s' % (op, r(b), r(b))
            v = s.i(4096) if s.p(70) else s.choice([0, 4095, 4096, 8192, 4097, -1, -5, -4095, 0xfff000, -4096])
            return '%s %s, %s' % (op, self.r(b, False), num(v))
        if k == 'lsi':
            w = 64 if b else 32
            return '%s %s, %s, %s' % (s.choice(['lsl', 'lsr', 'asr']), r(b), r(b), num(s.i(w) if s.p(85) else s.choice([0, w - 1, w, 32, 63, 64, -1])))
        if k == 'lsr':
            return '%s %s, %s, %s' % (s.choice(['lsl', 'lsr', 'asr']), r(b), r(b), r(b))
        if k == 'ext':
            op = s.choice(['sxtb', 'sxth', 'uxtb', 'uxth', 'sxtw', 'uxtw'])
            return '%s %s, %s' % (op, r(1 if op in ('sxtw',) else 0 if op[0] == 'u' else b), r(0))
        if k == 'mem':
            op, n, d = s.choice([('ldrb', 1, 'w'), ('ldrh', 2, 'w'), ('ldr', 8, 'x'), ('ldr', 4, 'w'), ('ldrsb', 1, 'wx'), ('ldrsh', 2, 'wx'), ('strb', 1, 'w'), ('strh', 2, 'w'),
                                 ('str', 8, 'x'), ('str', 4, 'w'), ('ldr', 8, 'd'), ('ldr', 4, 's'), ('str', 8, 'd'), ('str', 4, 's')])
            d = s.choice(d)
            t = f(d == 'd') if d in 'ds' else r(d == 'x')
            base = self.rs(1)
            if base == 'fp':
                base = 'x29'
            for _ in range(9):
                if t.lstrip('wx') == base.lstrip('x') or (t, base) in (('fp', 'x29'), ('lr', 'x30')) or base == t:
                    base = self.rs(1)
            m = s.i(10)
            if m == 0:
                a = '[%s]' % base
            elif m < 4:
                v = s.i(4096) * n if s.p(60) else s.choice([0, -1, -256, 255, 256, -257, 4095 * n, 4096 * n, 4096, n - 1, 32760, 257])
                a = '[%s, %s]' % (base, num(v))
            elif m < 7:
                v = s.rng_(-256, 255) if s.p(85) else s.choice([256, -257, 512, 4096])
                a = '[%s, %s]!' % (base, num(v)) if s.p(50) else '[%s], %s' % (base, num(v))
            else:
                lg = n.bit_length() - 1
                q = s.i(4)
                if q == 0:
                    a = '[%s, %s]' % (base, r(1, False))
                elif q == 1:
                    a = '[%s, %s, lsl #%d]' % (base, r(1, False), lg if s.p(85) else s.choice([0, 1, 2, 3, 4])) if lg else '[%s, %s]' % (base, r(1, False))
                elif q == 2:
                    a = '[%s, %s, %s]' % (base, r(0, False), s.choice(['sxtw', 'uxtw']))
                else:
                    a = '[%s, %s, %s #%d]' % (base, r(0, False), s.choice(['sxtw', 'uxtw']), lg if s.p(85) else s.choice([0, 1, 2, 3]))
                    if not lg:
                        a = '[%s, %s, sxtx]' % (base, r(1, False))
            return '%s %s, %s' % (op, t, a)
        if k == 'pair':
            op = s.choice(['ldp', 'stp'])
            c = s.choice('wxds')
            n = 8 if c in 'xd' else 4
            n1, n2 = s.i(29), s.i(29)
            if n1 == n2:
                n2 = (n1 + 1) % 29
            base = s.choice(['sp', 'x29', 'x30'])
            v = s.rng_(-64, 63) * n if s.p(80) else s.choice([-64 * n, 63 * n, 64 * n, -65 * n, n // 2, 1, 512, -520])
            a = '[%s, %s]!' % (base, num(v)) if s.p(35) else '[%s], %s' % (base, num(v)) if s.p(50) else '[%s, %s]' % (base, num(v)) if s.p(80) else '[%s]' % base
            return '%s %s%d, %s%d, %s' % (op, c, n1, c, n2, a)
        if k == 'cset':
            return 'cset %s, %s' % (r(b), s.choice('eq ne hs lo mi pl vs vc hi ls ge lt gt le'.split()))
        if k == 'br':
            op = s.choice(['br', 'blr', 'ret', 'svc'])
            return 'ret' if op == 'ret' else 'svc #%d' % s.choice([0, 1, 128, 65535]) if op == 'svc' else '%s %s' % (op, r(1, False))
        if k == 'fp':
            op = s.choice('fmov fadd fsub fmul fdiv fcmp fneg fsqrt'.split())
            return '%s %s' % (op, ', '.join(f(b) for _ in range(2 if op in ('fmov', 'fcmp', 'fneg', 'fsqrt') else 3)))
        q = s.i(5)
        if q == 0:
            return 'fcvt %s, %s' % (f(b), f(not b))
        if q < 3:
            return '%s %s, %s' % (s.choice(['scvtf', 'ucvtf']), f(s.p(50)), r(b))
        return '%s %s, %s' % (s.choice(['fcvtzs', 'fcvtzu']), r(b), f(s.p(50)))
