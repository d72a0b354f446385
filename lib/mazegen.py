"""Random programs of blocks joined by every kind of jump over random distances: each block mixes a constant into a hash, and
the program exits with 42 when the hash at the end is the one expected, 7 otherwise."""
M64 = (1 << 64) - 1


def maze(s, arch):
    """-> (units, expected exit code, number of blocks visited)"""
    rv = arch == 'riscv64'
    nu = s.weighted([(3, 1), (2, 2)])
    n = s.rng_(2, 14)
    unit = [s.i(nu) for _ in range(n)]
    unit[0] = 0
    leafs = [(k, s.i(nu)) for k in range(s.rng_(0, 3))]
    dist = s.weighted([(5, 'near'), (4, 'mid'), (2, 'far'), (1, 'huge')])
    s.label('maze:%s:%s' % (arch, dist))
    body = [[] for _ in range(n)]
    data = [[] for _ in range(nu)]
    acc = s.i(1 << 30)
    init = acc
    globs = set()

    def mix(out, c):
        nonlocal acc
        if rv:
            out += ['li t0, %d' % c, 'xor s2, s2, t0', 'slli t1, s2, 5', 'add s2, s2, t1']
        else:
            out += ['mov x9, #%d' % c, 'eor x19, x19, x9', 'lsl x10, x19, #5', 'add x19, x19, x10']
        step(c)

    def step(c):
        nonlocal acc
        acc ^= c
        acc = (acc + (acc << 5)) & M64

    def ref(frm, to):
        """a label of another unit must be global"""
        u, name = to
        if u != frm:
            globs.add((u, name))
            return name
        return name
    # data words that are loaded and mixed in
    words = []
    for k in range(s.rng_(0, 3)):
        words.append(('W%d' % k, s.i(nu), s.rng_(-(1 << 31), (1 << 31) - 1)))
    lc = [s.i(60000) for _ in leafs]

    def address(reg, u, to):
        name = ref(u, to)
        if rv:
            return ['la %s, %s' % (reg, name)]
        return ['adrp %s, %s' % (reg, name), 'add %s, %s, :lo12:%s' % (reg, reg, name)]

    visited = 0
    order = list(range(n))
    for i in range(1, n - 1):       # block 0 is first, the last block visited is n-1
        j = s.rng_(i, n - 2)
        order[i], order[j] = order[j], order[i]
    if s.p(20) and n > 3:           # not all blocks are visited
        order = order[:-2] + order[-1:]
    jt = 0
    for pos, b in enumerate(order):
        out = body[b]
        u = unit[b]
        mix(out, s.i(60000))
        visited += 1
        for _ in range(s.i(3)):
            k = s.i(3)
            if k == 0 and leafs:
                q, lu = s.choice(leafs)
                f = 'F%d' % q
                if s.p(30):
                    out += address('t2' if rv else 'x11', u, (lu, f)) + (['jalr t2'] if rv else ['blr x11'])
                else:
                    out += [('call ' if rv else 'bl ') + ref(u, (lu, f))]
                step(lc[q])
            elif k == 1 and words:
                w, wu, v = s.choice(words)
                out += address('t2' if rv else 'x11', u, (wu, w))
                out += ['ld t0, 0(t2)', 'xor s2, s2, t0'] if rv else ['ldr x9, [x11]', 'eor x19, x19, x9']
                acc ^= v & M64
            else:
                c = s.i(2000)
                out += ['addi s2, s2, %d' % c] if rv else ['add x19, x19, #%d' % c]
                acc = (acc + c) & M64
        if pos == len(order) - 1:
            break
        nx = order[pos + 1]
        nl, nlu = 'B%d' % nx, unit[nx]
        decoys = [k for k in range(n) if unit[k] == u]
        for _ in range(s.i(3) if dist != 'huge' else 0):     # branches not taken
            d = 'B%d' % s.choice(decoys)
            if rv:
                out += [s.choice(['bne a0, a0, %s', 'beq a0, a1, %s', 'blt a1, a0, %s', 'bge a0, a1, %s', 'bltu a1, a0, %s', 'bgeu a0, a1, %s', 'beq a1, zero, %s', 'bne s3, zero, %s',
                                  'blt a0, a0, %s', 'bne a2, zero, %s', 'beq a0, zero, %s']) % d]
            else:
                out += ['cmp x1, x2', s.choice(['beq', 'bgt', 'bge', 'bhi', 'bhs', 'bpl', 'bvs']) + ' ' + d]
        same = nlu == u
        k = s.weighted([(4 if same and dist != 'huge' else 0, 'j'), (6 if same and dist != 'huge' else 0, 'b'), (2, 'la'), (2, 'tab'), (2, 'call')])
        s.label('jump:' + k)
        if k == 'j':
            out += [('j ' if rv else 'b ') + nl]
        elif k == 'b':
            if rv:
                out += [s.choice(['beq a0, a0, %s', 'bne a0, a1, %s', 'blt a0, a1, %s', 'bge a1, a0, %s', 'bltu a0, a1, %s', 'bgeu a1, a0, %s', 'bne a1, zero, %s', 'beq s3, zero, %s',
                                  'beq a2, zero, %s', 'bge a0, a0, %s', 'beq zero, zero, %s']) % nl]
            else:
                out += ['cmp x1, x2', s.choice(['bne', 'blt', 'ble', 'blo', 'bls', 'bmi', 'bvc', 'bal']) + ' ' + nl]
            out += ['j FAIL%d' % u] if rv else ['b FAIL%d' % u]
        elif k == 'call':
            out += [('call ' if rv else 'bl ') + ref(u, (nlu, nl))]
        elif k == 'la':
            out += address('t2' if rv else 'x11', u, (nlu, nl)) + (['jr t2'] if rv else ['br x11'])
        else:
            t = 'T%d' % jt
            jt += 1
            du = s.i(nu)
            o = s.choice([0, 0, 8])
            data[du] += ['.align 8', '%s: .quad 0' % t if o else '%s:' % t, '.quad ' + ref(du, (nlu, nl))]
            r = 't2' if rv else 'x11'
            out += address(r, u, (du, t)) + (['ld t2, %d(t2)' % o, 'jr t2'] if rv else ['ldr x11, [x11, #%d]' % o, 'br x11'])
    last = body[order[-1]]
    if rv:
        last += ['li t0, %d' % (acc - (1 << 64) if acc >> 63 else acc), 'li a0, 7', 'bne t0, s2, 1f_', 'li a0, 42', '1f_:', 'li a7, 93', 'ecall']
    else:
        last += ['mov x9, #%d' % (acc & 0xffff)] + ['movk x9, #%d, lsl #%d' % (acc >> q & 0xffff, q) for q in (16, 32, 48)]
        last += ['mov x0, #7', 'cmp x9, x19', 'bne 1f_', 'mov x0, #42', '1f_:', 'mov x8, #93', 'svc #0']
    last = [l.replace('1f_', 'DONE') for l in last]
    body[order[-1]] = last
    for w, wu, v in words:
        data[wu] += ['.align 8', '%s: .quad %d' % (w, v)]

    def filler():
        if dist == 'near':
            v = s.choice([0, 0, 2, 4, 8, 20, 60, 120, 200, 250, 256, 260])
        elif dist == 'mid':
            v = s.choice([0, 4, 100, 1900, 2030, 2048, 2100, 3900, 4080, 4096, 4200, 8000])
        elif dist == 'far':
            v = s.choice([0, 8, 4096, 20000, 32760, 33000, 60000])
        else:
            v = s.choice([0, 16, 5000, 100000, 400000])
        return v if rv else v // 4 * 4

    units = []
    for u in range(nu):
        o = ['.text']
        blocks = [k for k in range(n) if unit[k] == u]
        for i in range(len(blocks) - 1):
            j = s.rng_(i, len(blocks) - 1)
            blocks[i], blocks[j] = blocks[j], blocks[i]
        if u == 0:
            o += ['.globl _start', '_start:']
            if rv:
                o += ['li s2, %d' % init, 'li a0, 5', 'li a1, 9', 'li a2, 0', 'li s3, 0', 'la t2, B0', 'jr t2']
            else:
                o += ['mov x19, #%d' % (init & 0xffff), 'movk x19, #%d, lsl #16' % (init >> 16), 'mov x1, #5', 'mov x2, #9', 'adrp x11, B0', 'add x11, x11, :lo12:B0', 'br x11']
        for k in blocks:
            f = filler()
            if f:
                o += ['.zero %d' % f]
            o += ['B%d:' % k] + body[k]
            if k not in order and dist != 'huge':
                o += ['j FAIL%d' % u if rv else 'b FAIL%d' % u]
        if s.p(50) and filler():
            o += ['.zero %d' % filler()]
        o += ['FAIL%d:' % u] + (['li a0, 9', 'li a7, 93', 'ecall'] if rv else ['mov x0, #9', 'mov x8, #93', 'svc #0'])
        for q, lu in leafs:
            if lu == u:
                o += ['F%d:' % q]
                save = acc
                b = []
                mix(b, lc[q])
                acc = save
                o += b + ['ret']
        if data[u]:
            o += ['.data'] + data[u]
        o = ['.globl ' + name for uu, name in sorted(globs) if uu == u] + o
        t = ''
        for l in o:
            if ':' in l.split(' ')[0] and ' ' in l and not l.startswith('.') and ':lo12' not in l:
                a, b = l.split(' ', 1)
                t += a + '\n\t' + b + '\n'
            else:
                t += (l if l.endswith(':') else '\t' + l) + '\n'
        units.append(t)
    return tuple(units), 42, visited
