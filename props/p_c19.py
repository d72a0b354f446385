"""printf family: generated formats and arguments against a model of C's formatting rules."""
import struct
import libcdrv
from core import Res, fail
from libcdrv import worker_init, worker_exit  # noqa: F401

ID = 'C19'
N = {'quick': 30000, 'thorough': 1500000}
BUILDS = ('native', 'wcc')
RULE = ('a case is a batch of 30 calls of vsnprintf/vsprintf/vfprintf/snprintf with generated formats (all flags, widths, '
        'precisions, length modifiers, * arguments, several conversions) and arguments, run natively and on wasm; '
        'non-trivial when at least 8 calls ran; evaluations = calls compared (result, every byte written, no byte beyond)')
ASSUMPTIONS = ['conversions d i u o x X c s p e E f F g G %; long double is double', 'the model of floating conversions is '
               'Python\'s exact dtoa-based formatting']


def prepare(ctx):
    libcdrv.prepare(ctx, 'libc_printf')


def fmt_int(v, conv, fl, width, prec):
    neg = v < 0
    a = abs(v)
    base = {'o': 8, 'x': 16, 'X': 16}.get(conv, 10)
    d = {8: '%o', 10: '%d', 16: '%x'}[base] % a
    if conv == 'X':
        d = d.upper()
    if prec is not None:
        if a == 0 and prec == 0:
            d = ''
        d = d.rjust(prec, '0')
    if base == 8 and '#' in fl and not d.startswith('0'):
        d = '0' + d
    pre = ''
    if conv in 'di':
        pre = '-' if neg else '+' if '+' in fl else ' ' if ' ' in fl else ''
    elif base == 16 and '#' in fl and a:
        pre = '0' + conv
    elif conv == 'p':
        pre = '0x'
    if '-' in fl:
        return (pre + d).ljust(width)
    if '0' in fl and prec is None:
        return pre + d.rjust(width - len(pre), '0')
    return (pre + d).rjust(width)


def fmt_flo(v, conv, fl, width, prec):
    f = ''.join(c for c in '#+ ' if c in fl)
    if v != v or v in (float('inf'), float('-inf')):
        s = 'nan' if v != v else 'inf'
        neg = struct.pack('>d', v)[0] >> 7
        s = ('-' if neg else '+' if '+' in fl else ' ' if ' ' in fl else '') + s
        if conv in 'EFG':
            s = s.upper()
        return s.ljust(width) if '-' in fl else s.rjust(width)
    s = ('%' + f + '.' + str(6 if prec is None else prec) + conv) % v
    if '-' in fl:
        return s.ljust(width)
    if '0' in fl:
        sign = s[0] if s[0] in '+- ' else ''
        return sign + s[len(sign):].rjust(width - len(sign), '0')
    return s.rjust(width)


def i32(v):
    return ((v & 0xffffffff) ^ 0x80000000) - 0x80000000


LENS = {'': 32, 'hh': 8, 'h': 16, 'l': (64, 32), 'll': 64, 'j': 64, 'z': (64, 32), 't': (64, 32)}
KIND = {'': 0, 'hh': 0, 'h': 0, 'l': 1, 'll': 2, 'j': 2, 'z': 3, 't': 3}


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def gint(src):
    return src.choice([src.i(10), src.i(1000), -src.i(1000), src.i(1 << 31), src.i(1 << 64), 0, -1, (1 << 31) - src.i(2), 1 << 32,
                       (1 << 63) - src.i(2), 10 ** src.i(20), -(10 ** src.i(19)), 1 << src.i(64)]) & ((1 << 64) - 1)


def gflo(src):
    k = src.i(9)
    if k == 0:
        return float(src.i(1000))
    if k == 1:
        return src.i(100000) / 100.0
    if k == 2:
        return src.i(1 << 16) / 256.0
    if k == 3:
        return struct.unpack('<d', src.i(1 << 64).to_bytes(8, 'little'))[0]
    if k == 4:
        return float(src.choice(['inf', '-inf', '0', '-0.0', '5e-324', '1.7976931348623157e308', '1e22', '1e23', '1e-5', '9.9999995', '0.5',
                                 '1e15', '123456789', '999999.5', '0.000099999995', '2.5', '1e6', '99999.95', '0.0001']))
    if k == 5:
        return -src.i(10 ** 9) / 1000.0
    if k == 6:
        return src.i(10 ** 17) * 10.0 ** (src.i(60) - 40)
    if k == 7:
        return (src.i(2000) + 0.5) / 10 ** src.i(4)
    return 10.0 ** (src.i(30) - 15) * (1 - src.i(3) * 1e-7)


def spec(src, conv):
    fl = ''.join(src.choice('-+ 0#') for _ in range(src.choice([0, 0, 1, 1, 2, 3])))
    if conv in 'cspdiu' and '#' in fl:
        fl = fl.replace('#', '')
    if conv in 'csp':
        fl = fl.replace('0', '').replace('+', '').replace(' ', '')
    if conv in 'uoxX':
        fl = fl.replace('+', '').replace(' ', '')
    w = src.choice([None, None, src.i(12) + 1, src.i(12) + 1, src.i(45) + 1])
    p = src.choice([None, None, 0, src.i(5), src.i(12), src.i(30)])
    if conv in 'cp':
        p = None
    return fl, w, p


def conversion(src, conv=None, kind=None, stars=True):
    """-> (kind, fmt, stars, s1, s2, argbytes, (text native, text wasm))"""
    if conv is None:
        conv = src.weighted([(30, 'd'), (6, 'i'), (14, 'u'), (8, 'o'), (14, 'x'), (8, 'X'), (5, 'c'), (18, 's'), (5, 'p'), (14, 'f'), (3, 'F'),
                             (14, 'g'), (3, 'G'), (10, 'e'), (3, 'E')])
    fl, w, p = spec(src, conv)
    st = []
    ws = '' if w is None else str(w)
    ps = '' if p is None else '.' + (str(p) if p or src.p(50) else '')
    if stars and w is not None and src.p(25):
        ws = '*'
        if src.p(30):
            st.append(-w)
        else:
            st.append(w)
    if stars and src.p(25) and conv not in 'cp':
        ps = '.*'
        if p is None:
            st.append(-1 - src.i(3))
        else:
            st.append(p)
    f = '%' + fl + ws
    fl2 = fl + ('-' if ws == '*' and st[0] < 0 else '')
    width = w or 0
    f += ps
    if conv in 'diuoxX':
        ln = src.weighted([(40, ''), (8, 'hh'), (8, 'h'), (20, 'l'), (20, 'll'), (5, 'j'), (10, 'z'), (5, 't')])
        if kind == 0:
            ln = src.choice(['', '', 'h', 'hh'])
        elif kind == 2:
            ln = src.choice(['ll', 'ang'[0:0] + 'll', 'j'])
        v = gint(src)
        bits = LENS[ln]
        out = []
        for k in range(2):
            b = bits if isinstance(bits, int) else bits[k]
            out.append(fmt_int(wrap(v, b, conv in 'di'), conv, fl2, width, p))
        k = KIND[ln]
        return k, f + ln + conv, st, (v & 0xffffffff).to_bytes(4, 'little') if k == 0 else v.to_bytes(8, 'little'), out
    if conv == 'c':
        v = src.r(1, 255) if src.p(80) else gint(src) | 1
        s = chr(v & 255)
        return 0, f + 'c', st, (v & 0xffffffff).to_bytes(4, 'little'), [s.ljust(width) if '-' in fl2 else s.rjust(width)] * 2
    if conv == 's':
        s = ''.join(chr(src.r(32, 255)) for _ in range(src.choice([0, src.i(5), src.i(20), src.i(60)])))
        b = s.encode('latin1')
        t = s if p is None else s[:p]
        t = t.ljust(width) if '-' in fl2 else t.rjust(width)
        return 6, f + 's', st, bytes([len(b) + 1]) + b + b'\0', [t] * 2
    if conv == 'p':
        v = src.choice([src.i(1 << 31), 0, src.i(1 << 16)])
        return 5, f + 'p', st, v.to_bytes(8, 'little'), [fmt_int(v, 'x', fl2.replace('0', ''), 0, None).join(['0x', '']).ljust(width)
                                                        if '-' in fl2 else ('0x%x' % v).rjust(width)] * 2
    v = gflo(src)
    if v != v:
        v = float('nan')
    if kind == 4 or not src.p(15):
        k, ln = 4, src.choice(['', '', '', 'l'])
    else:
        k, ln = 7, 'L'
    return k, f + ln + conv, st, struct.pack('<d', v), [fmt_flo(v, conv, fl2, width, p)] * 2


def literal(src):
    s = ''.join(src.choice('ab %\n\xe9xyz:') for _ in range(src.choice([0, 0, 1, 3, 9])))
    return s.replace('%', '%%'), s


def gen(src, ctx):
    ops, req, exp = [], bytearray(), []
    for _ in range(30):
        how = src.weighted([(40, 0), (20, 1), (20, 2)])
        kind = src.weighted([(70, 'one'), (8, 8), (8, 9), (8, 10), (8, 11), (3, 12)])
        fmt, texts = '', ['', '']
        st, arg = [], b''

        def lit():
            nonlocal fmt
            a, b = literal(src)
            fmt += a
            texts[0] += b
            texts[1] += b

        def conv(c=None, k=None, stars=False):
            nonlocal fmt, arg
            kk, f, s, a, o = conversion(src, c, k, stars)
            fmt += f
            arg += a
            texts[0] += o[0]
            texts[1] += o[1]
            st.extend(s)
            return kk
        lit()
        if kind == 'one':
            kind = conv(stars=True)
        elif kind == 8:
            conv(src.choice('diuoxXc'), 0)
            lit()
            conv(src.choice('feg'), 4)
            lit()
            conv('s')
            lit()
            conv(src.choice('diuoxX'), 2)
        elif kind == 9:
            for _ in range(10):
                conv(src.choice('fegEG'), 4)
                lit()
        elif kind == 10:
            for _ in range(9):
                conv(src.choice('diuoxXc'), 0)
                lit()
        elif kind == 11:
            for c in 'qqfqqqfqqq':
                if c == 'q':
                    conv(src.choice('diuoxX'), 2)
                else:
                    conv(src.choice('fegEG'), 4)
        elif kind == 12 and how == 2:
            how = 1
        lit()
        fb = fmt.encode('latin1') + b'\0'
        if len(fb) > 255 or max(len(t) for t in texts) > 8000:
            continue
        L = len(texts[0])
        size = max(1, src.choice([L + 1, L + 1 + src.i(20), L, max(1, L - 1 - src.i(10)), 1, 4000 if L < 3900 else L + 1]))
        s1 = st[0] if st else 0
        s2 = st[1] if len(st) > 1 else 0
        req += bytes([kind, how]) + size.to_bytes(2, 'little') + bytes([len(fb)]) + fb + bytes([len(st)])
        req += (s1 & 0xffffffff).to_bytes(4, 'little') + (s2 & 0xffffffff).to_bytes(4, 'little') + arg
        e = []
        for t in texts:
            b = t.encode('latin1')
            n = min(len(b), size - 1) if how == 0 else len(b)
            e.append((len(b), b[:n] + b'\0', how))
        ops.append((fmt, st, arg.hex(), ['vsnprintf %d' % size, 'vsprintf', 'vfprintf'][how]))
        exp.append(e)
        src.label('how:%d' % how)
    return ops, exp, bytes(req)


def check(case, ctx):
    ops, exp, req = case
    n = 0
    for w, (what, f) in enumerate((('native', libcdrv.native), ('wasm', libcdrv.wasm))):
        msg, out = f(ctx, req)
        got = out.decode('latin1').split('\n')
        for k, o in enumerate(ops):
            ln, b, how = exp[k][w]
            g = got[k] if k < len(got) - 1 else 'nothing'
            p = g.split(' ')
            ok = len(p) == 2 and p[0] == str(ln) and p[1].startswith(b.hex())
            if ok and how < 2:
                rest = bytes.fromhex(p[1])[len(b):]
                ok = all(x == 0x5a for x in rest)
            if not ok:
                return fail('%s: %r: expected %d %r, got %r' % (what, o, ln, b, (p[0], bytes.fromhex(p[1])) if len(p) == 2 else g))
        if msg:
            return fail(msg)
        n += len(ops)
    return Res('pass', len(ops) >= 8, units=n)


def render(case):
    return '\n'.join('%r -> %r' % (o, e[0]) for o, e in zip(case[0], case[1]))
