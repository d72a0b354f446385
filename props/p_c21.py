"""stdlib.h: number conversions, sort/search, pseudo-random numbers, the allocator and getenv, against models."""
import struct
from fractions import Fraction
import libcdrv
from core import Res, fail
from libcdrv import worker_init, worker_exit  # noqa: F401

ID = 'C21'
N = {'quick': 60000, 'thorough': 1500000}
BUILDS = ('native', 'wcc')
RULE = ('a case is a batch of up to 40 requests (number texts in every base, arrays to sort and search, generator seeds, or a '
        'history of malloc/calloc/realloc/free on 64 slots with every byte checked), run natively and on wasm; non-trivial '
        'when at least 8 requests ran; evaluations = answers compared')
ASSUMPTIONS = ['errno is not part of the property', 'strtod is exact for integers below 2^53 and for hexadecimal floats that '
               'fit, else within 8 ulps (xcc\'s libc does not promise correct rounding)', 'comparators are consistent']
ULPS = 8
WS = ' \t\n\v\f\r'


def prepare(ctx):
    libcdrv.prepare(ctx, 'libc_num')


def digits(src, base, n):
    al = '0123456789abcdefghijklmnopqrstuvwxyz'
    up = src.p(30)
    s = ''.join(al[src.i(base)] for _ in range(n))
    return s.upper() if up else s


def num_text(src, base):
    """A text that begins (perhaps) with a number in `base`."""
    s = ''.join(src.choice(WS) for _ in range(src.choice([0, 0, 0, 1, 3])))
    s += src.choice(['', '', '-', '+', '-'])
    if src.p(4):
        s += src.choice([' ', '+', '-'])
    b = base or src.choice([8, 10, 16])
    if base in (0, 16) and src.p(50) or src.p(4):
        s += src.choice(['0x', '0X'])
        if base == 0:
            b = 16
    elif base == 0 and b == 8:
        s += '0'
    k = src.weighted([(30, 'n'), (40, 'b'), (20, 'l')])
    if k == 'n':
        s += digits(src, b, src.r(1, 8))
    elif k == 'l':
        s += digits(src, b, src.r(1, 70))
    else:
        v = src.choice([1 << 31, 1 << 32, 1 << 63, 1 << 64, 10 ** 18, 1 << 62]) + src.r(-2, 2)
        if src.p(25):
            v *= src.choice([b, b * b, 2, 3])
        v = max(v, 0)
        t = ''
        while v or not t:
            t = '0123456789abcdefghijklmnopqrstuvwxyz'[v % b] + t
            v //= b
        s += '0' * src.i(3) * src.p(30) + t
    s += src.choice(['', '', 'z', ' ', '.5', '_1', '-', '8', 'g', 'x1', '\xff'])
    return s


def parse_int(s, base):
    i = 0
    while i < len(s) and s[i] in WS:
        i += 1
    neg = False
    if i < len(s) and s[i] in '+-':
        neg = s[i] == '-'
        i += 1

    def dv(c):
        c = ord(c)
        if 48 <= c <= 57:
            return c - 48
        if 65 <= c <= 90:
            return c - 55
        if 97 <= c <= 122:
            return c - 87
        return 99
    if base in (0, 16) and s[i:i + 2].lower() == '0x' and i + 2 < len(s) and dv(s[i + 2]) < 16:
        i += 2
        base = 16
    elif base == 0:
        base = 8 if s[i:i + 1] == '0' else 10
    j = i
    v = 0
    while j < len(s) and dv(s[j]) < base:
        v = v * base + dv(s[j])
        j += 1
    return neg, v, (j if j > i else 0)


def sconv(s, base, bits):
    neg, v, e = parse_int(s, base)
    v = -v if neg else v
    return max(-(1 << bits - 1), min((1 << bits - 1) - 1, v)), e


def uconv(s, base, bits):
    neg, v, e = parse_int(s, base)
    m = (1 << bits) - 1
    if v > m:
        v = m
    elif neg:
        if v == m:
            return None, e        # known finding C21-strtoul-max
        v = -v & m
    if bits == 64 and v >> 63:
        v -= 1 << 64
    return v, e


def flo_text(src):
    s = src.choice(['', '', ' ', '\t\n'])
    neg = src.choice(['', '', '-', '+'])
    k = src.weighted([(30, 'i'), (45, 'd'), (20, 'x'), (5, 's')])
    tail = src.choice(['', '', 'x', ' 1', 'z', ',', '-'])
    if k == 's':
        t = src.choice(['inf', 'infinity', 'nan'])
        v = {'i': 'inf', 'n': 'nan'}[t[0]]
        return s + neg + t + src.choice(['', ' ', ',']), ('s', v, neg == '-'), len(s + neg + t)
    if k == 'i':
        v = src.choice([src.i(1 << 53), src.i(1000), src.i(10 ** 6), (1 << 53) - src.i(3)])
        t = '0' * src.i(2) + str(v) + src.choice(['', '.', '.0'])
        return s + neg + t + tail, ('x', Fraction(v), neg == '-'), len(s + neg + t)
    if k == 'x':
        nd = src.r(1, 6)
        nf = src.choice([0, 0, src.r(1, 6)])
        m = digits(src, 16, nd)
        f = digits(src, 16, nf)
        e = src.r(-60, 60)
        t = src.choice(['0x', '0X']) + m + ('.' + f if nf else '')
        v = Fraction(int(m + f, 16), 16 ** nf)
        if src.p(75):
            t += src.choice('pP') + (('+' if src.p(30) else '') if e >= 0 else '') + str(e)
            v *= Fraction(2) ** e
        tail = src.choice(['', 'z', ' 1', ',', '-'] + ([] if 'p' in t.lower() else ['p', 'P-', 'px', 'p+ 1']))
        return s + neg + t + tail, ('x', v, neg == '-'), len(s + neg + t)
    m = digits(src, 10, src.r(1, 17))
    f = digits(src, 10, src.choice([0, 1, 3, src.r(1, 17)]))
    e = src.choice([0, 0, src.r(-9, 9), src.r(-25, 25), src.r(-200, 200)])
    t = m + ('.' + f if f or src.p(20) else '')
    if src.p(5) and f:
        t = '.' + f
        m = ''
    v = Fraction(int((m or '0') + f), 10 ** len(f))
    if e or src.p(20):
        t += src.choice('eE') + ('+' if e >= 0 and src.p(40) else '') + str(e)
        v *= Fraction(10) ** e
    elif src.p(20):
        tail = src.choice(['e', 'E+', 'ex', 'e-', 'e +1'])
    return s + neg + t + tail, ('d', v, neg == '-'), len(s + neg + t)


def flo_ok(hexs, want):
    kind, v, neg = want
    raw = bytes.fromhex(hexs)
    d = struct.unpack('<d', raw)[0]
    if kind == 's':
        if v == 'nan':
            return d != d
        return d == (float('-inf') if neg else float('inf'))
    if (raw[7] >> 7) != int(neg):
        return False
    try:
        w = float(v)
    except OverflowError:
        return None
    w = -w if neg else w
    if kind == 'x' or v == 0:
        return d == w
    key = lambda x: struct.unpack('<q', struct.pack('<d', abs(x)))[0]
    if key(w) < 0x0080000000000000:
        return None
    return abs(key(w) - key(d)) <= ULPS


def lcg(x):
    return (x * 0x5deece66d + 11) & ((1 << 48) - 1)


def gen_alloc(src, add):
    live = {}
    big = src.choice([64, 600, 5000, 40000])
    for _ in range(src.r(10, 60)):
        k = src.weighted([(35, 'm'), (10, 'c'), (20, 'r'), (30, 'f'), (8, 'v')])
        i = src.i(64) if src.p(40) or not live else src.choice(sorted(live))
        n = src.choice([src.i(9), src.i(40), src.i(big), src.i(big), 16 * src.i(20)])
        if k == 'm':
            add(('malloc', i, n), bytes([20, i]) + n.to_bytes(3, 'little'), 'ok')
            live[i] = n
        elif k == 'c':
            add(('calloc', i, n), bytes([21, i]) + n.to_bytes(3, 'little'), 'ok')
            live[i] = n
        elif k == 'r':
            add(('realloc', i, n), bytes([22, i]) + n.to_bytes(3, 'little'), 'ok')
            live[i] = n
        elif k == 'f':
            add(('free', i), bytes([23, i]), 'ok')
            live.pop(i, None)
        else:
            add(('verify',), bytes([24]), 'ok')
    for i in sorted(live):
        if src.p(70):
            add(('free', i), bytes([23, i]), 'ok')
    add(('verify',), bytes([24]), 'ok')


def gen(src, ctx):
    ops, req, exp = [], bytearray(), []

    def add(op, data, e, label=None):
        ops.append(op)
        req.extend(data)
        exp.append(e)
        src.label(label or op[0])
    kind = src.weighted([(40, 'int'), (20, 'flo'), (20, 'sort'), (8, 'rand'), (25, 'alloc'), (3, 'env')])
    if kind == 'alloc':
        gen_alloc(src, add)
    for _ in range(src.r(8, 40) if kind not in ('alloc', 'sort') else src.r(1, 8) if kind == 'sort' else 0):
        if kind == 'int':
            base = src.choice([10, 10, 16, 0, 8, 2, 36, src.r(2, 36)])
            s = num_text(src, base)
            f = src.i(7)
            b = s.encode('latin1') + b'\0'
            if f < 4:
                nm = ['strtol', 'strtoll', 'strtoul', 'strtoull'][f]
                e = []
                for lb in (64, 32):
                    v, end = (sconv if f < 2 else uconv)(s, base, lb if f in (0, 2) else 64)
                    e.append(None if v is None else '%d %d' % (v, end))
                if None in e:
                    continue
                add((nm, s, base), bytes([1 + f, base, len(b)]) + b, tuple(e))
            else:
                s = num_text(src, 10)
                b = s.encode('latin1') + b'\0'
                nm = ['atoi', 'atol', 'atoll'][f - 4]
                e = []
                for lb in (64, 32):
                    neg, v, end = parse_int(s, 10)
                    bits = {'atoi': 32, 'atol': lb, 'atoll': 64}[nm]
                    if v > (1 << bits - 1) - (not neg):
                        e.append(None)
                    else:
                        e.append(str(-v if neg else v))
                if None in e:
                    continue
                add((nm, s), bytes([5 + f - 4, len(b)]) + b, tuple(e))
        elif kind == 'flo':
            s, want, end = flo_text(src)
            b = s.encode('latin1') + b'\0'
            add(('strtod', s), bytes([8, len(b)]) + b, ('flo', want, end))
        elif kind == 'sort':
            n = src.choice([src.i(4), src.i(20), src.i(120), src.i(300)])
            es = src.choice([1, 2, 4, 8, 3, 12, 24, 17])
            ko = src.i(es)
            rng = src.choice([2, 5, 40, 256])
            pat = src.i(5)
            vals = [src.i(rng) for _ in range(n)]
            if pat == 1:
                vals.sort()
            elif pat == 2:
                vals.sort(reverse=True)
            elif pat == 3:
                vals = sorted(vals[:n // 2]) + sorted(vals[n // 2:], reverse=True)
            arr = []
            for k, v in enumerate(vals):
                e = bytearray((k * 37 + j * 11) & 255 for j in range(es))
                e[ko] = v
                arr.append(bytes(e))
            if src.p(55):
                rev = src.i(2)
                add(('qsort', n, es, ko, rev, vals), bytes([9]) + n.to_bytes(2, 'little') + bytes([es, ko, rev]) + b''.join(arr),
                    ('sort', arr, es, ko, rev))
            else:
                arr.sort(key=lambda e: e[ko])
                kv = src.i(rng)
                if n and src.p(70):
                    kv = src.choice(arr)[ko]
                key = bytearray(es)
                key[ko] = kv
                add(('bsearch', n, es, ko, kv, [e[ko] for e in arr]), bytes([10]) + n.to_bytes(2, 'little') + bytes([es, ko]) + key + b''.join(arr),
                    'hit %d' % kv if any(e[ko] == kv for e in arr) else 'null')
        elif kind == 'rand':
            if src.p(50):
                x = src.i(1 << 48)
                k = src.i(10)
                e = ''
                y = x
                for _ in range(k):
                    y = lcg(y)
                    e += '%d ' % (y >> 17)
                y = lcg(y)
                add(('nrand48', x, k), bytes([11]) + x.to_bytes(6, 'little') + bytes([k]),
                    e + struct.pack('<d', (y >> 17) / 2.0 ** 31).hex() + ' ' + y.to_bytes(6, 'little').hex())
            else:
                seed = src.choice([src.i(1 << 32), src.i(10), 0xffffffff - src.i(3)])
                k = src.i(12)
                y = (seed << 16 | 0x330e) & ((1 << 48) - 1)
                e = ''
                for j in range(k - 1, -1, -1):
                    y = lcg(y)
                    e += '%d ' % (y >> 17)
                    if j % 4 == 1:
                        y = lcg(y)
                        e += struct.pack('<d', (y >> 17) / 2.0 ** 31).hex() + ' '
                add(('srand48', seed, k), bytes([12]) + seed.to_bytes(4, 'little') + bytes([k]), e)
        elif kind == 'env':
            v = src.choice([src.i(1 << 31), -src.i(1 << 31), src.i(1 << 62), -src.i(1 << 62)])
            iv = ((v & 0xffffffff) ^ 0x80000000) - 0x80000000
            if iv == -(1 << 31):
                continue
            add(('abs', v), bytes([13]) + (v & (1 << 64) - 1).to_bytes(8, 'little'), '%d %d %d' % (abs(iv), abs(iv), abs(v)))
            nm = src.choice(['A', 'AB', 'ABC', 'PATH', 'NO', 'A=', 'EMPTY'])
            add(('getenv', nm), bytes([25, len(nm) + 1]) + nm.encode() + b'\0', ('env', nm))
    return ops, exp, bytes(req)


ENV = {'AB': 'x=1', 'A': 'one', 'ABC': 'three', 'EMPTY': ''}


def judge(op, e, g, wasm):
    """None when the answer is right."""
    if isinstance(e, str):
        return None if g == e else e
    if e[0] == 'flo':
        p = g.split(' ')
        if len(p) != 5 or int(p[1]) != e[2] or int(p[4]) != e[2] or p[2] != p[0] or p[3] != p[0]:
            return '(end %d, same value from atof and strtold)' % e[2]
        return '%s' % (e[1],) if flo_ok(p[0], e[1]) is False else None
    if e[0] == 'sort':
        _, arr, es, ko, rev = e
        raw = bytes.fromhex(g)
        got = [raw[i:i + es] for i in range(0, len(raw), es)]
        keys = [x[ko] for x in got]
        if sorted(got) != sorted(arr) or keys != sorted(keys, reverse=bool(rev)):
            return 'a sorted permutation'
        return None
    if e[0] == 'env':
        if wasm:
            return None
        w = ENV.get(e[1], '(none)') if e[1] != 'PATH' else None
        return None if w is None or g == w else w
    w = e[1] if wasm else e[0]
    return None if g == w else w


def check(case, ctx):
    ops, exp, req = case
    n = 0
    for what, f in (('native', libcdrv.native), ('wasm', libcdrv.wasm)):
        msg, out = f(ctx, req, **({'env': ENV} if what == 'native' else {}))
        got = out.decode('latin1').split('\n')
        for k, o in enumerate(ops):
            if k >= len(got) - 1:
                return fail('%s: no answer to %r: %s' % (what, o, msg))
            try:
                w = judge(o, exp[k], got[k], what == 'wasm')
            except Exception:
                w = exp[k]
            if w is not None:
                return fail('%s: %r: expected %s, got %r' % (what, o, str(w)[:300], got[k][:300]))
        if msg:
            return fail(msg)
        n += len(ops)
    return Res('pass', len(ops) >= 8 or any(o[0] in ('qsort', 'bsearch') for o in ops), units=n)


def render(case):
    return '\n'.join('%r -> %s' % (o, str(e)[:200]) for o, e in zip(case[0], case[1]))


def replay_known(k, ctx):
    """True when the listed input still fails."""
    if k['id'] == 'C21-strtoul-max':
        b = b'-18446744073709551615\0'
        msg, out = libcdrv.native(ctx, b''.join(bytes([op, 10, len(b)]) + b for op in (3, 4)))
        return msg is not None or out != b'1 21\n1 21\n'
    return False
