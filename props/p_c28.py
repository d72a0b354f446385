"""math.h: exact functions bit for bit, the others within a stated accuracy."""
import math
import struct
import libcdrv
from core import Res, fail
from libcdrv import worker_init, worker_exit  # noqa: F401

ID = 'C28'
N = {'quick': 70000, 'thorough': 1000000}
BUILDS = ('native', 'wcc')
RULE = ('a case is a batch of 40 calls of math.h functions on generated bit patterns, run natively and on wasm; floor ceil round '
        'fabs copysign modf frexp ldexp sqrt and the classifications are compared exactly, the others within 1e-8 relative '
        '(plus 1e-8 absolute for the trigonometric ones) inside a moderate domain; evaluations = calls compared')
ASSUMPTIONS = ['default rounding; the sign and payload of NaN results are unspecified', 'accuracy of 1e-8 is what is claimed for '
               'transcendental functions and fmod, on the domains in p_c28.py']
NAMES = ('floor ceil round fabs fabsf copysign modf frexp ldexp sqrt cls fmod sin cos tan asin acos atan atan2 sinh cosh tanh '
         'asinh acosh atanh exp log log10 log2 pow').split()


def prepare(ctx):
    libcdrv.prepare(ctx, 'libc_math')


def bits(d):
    return struct.pack('<d', d).hex()


def gd(src):
    k = src.i(8)
    if k == 0:
        return struct.unpack('<d', src.i(1 << 64).to_bytes(8, 'little'))[0]
    if k == 1:
        return src.i(2000) / 2.0 - 500
    if k == 2:
        return src.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                           0.49999999999999994, -0.49999999999999994, 0.5, -0.5, 1.5, 2.5, -2.5, 4503599627370495.5,
                           4503599627370496.0, 9007199254740991.0, -4503599627370495.5, 1.0, -1.0, 2251799813685247.75])
    if k == 3:
        e = src.r(1010, 1080)
        return struct.unpack('<d', (e << 52 | src.i(1 << 52) | src.i(2) << 63).to_bytes(8, 'little'))[0]
    if k == 4:
        return struct.unpack('<d', (src.i(1 << src.i(53)) | src.i(2) << 63).to_bytes(8, 'little'))[0]
    if k == 5:
        v = float(1 << src.i(55))
        return (v + src.choice([0, 1, -1, 0.5, -0.5, 0.25])) * src.choice([1, -1])
    if k == 6:
        return (src.i(1 << 30) / (1 << 28)) * src.choice([1, -1])
    return (src.i(10 ** 9) / 10 ** 9.0) * 10.0 ** src.r(-9, 9) * src.choice([1, -1])


def uni(src, a, b):
    return a + (b - a) * (src.i((1 << 40) + 1) / (1 << 40))


DOM = {'sin': (-1e4, 1e4), 'cos': (-1e4, 1e4), 'tan': (-1.5, 1.5), 'asin': (-1, 1), 'acos': (-1, 1), 'atan': (-1e6, 1e6),
       'sinh': (-30, 30), 'cosh': (-30, 30), 'tanh': (-10, 10), 'asinh': (-100, 100), 'acosh': (1, 100), 'atanh': (-.999, .999),
       'exp': (-600, 600), 'fmod': (-1000, 1000)}
TRIG = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'tanh', 'asinh', 'atanh', 'acosh', 'fmod', 'log', 'log2', 'log10'}


def c_frexp(x):
    return math.frexp(x)


def gen(src, ctx):
    ops, req = [], bytearray()
    for _ in range(40):
        op = src.i(len(NAMES))
        nm = NAMES[op]
        n = 0
        y = 0.0
        if op <= 10:
            x = gd(src)
            y = gd(src)
            n = src.choice([src.r(-60, 60), src.r(-1100, 1100), src.r(-2200, 2200), src.choice([0x7fffffff, -0x80000000])])
            if nm == 'fabsf':
                try:
                    x = struct.unpack('<f', struct.pack('<f', x))[0]
                except OverflowError:
                    x = 1.5
            if nm == 'floor':
                exp = bits(x if not math.isfinite(x) or x == 0 or abs(x) > 2 ** 60 else float(math.floor(x)) if math.floor(x) else 0.0)
            elif nm == 'ceil':
                exp = bits(x if not math.isfinite(x) or x == 0 or abs(x) > 2 ** 60 else math.copysign(float(math.ceil(x)), x))
            elif nm == 'round':
                if not math.isfinite(x) or abs(x) > 2 ** 60:
                    exp = bits(x)
                else:
                    a = math.floor(abs(x))
                    exp = bits(math.copysign(float(a + (abs(x) - a >= 0.5)), x))
            elif nm in ('fabs', 'fabsf'):
                exp = bits(abs(x))
            elif nm == 'copysign':
                exp = bits(math.copysign(x, y))
            elif nm == 'modf':
                f, i = (math.copysign(0.0, x), x) if math.isinf(x) else math.modf(x)
                exp = bits(f) + ' ' + bits(i)
            elif nm == 'frexp':
                f, e = math.frexp(x)
                exp = bits(f) + ' ' + str(e)
            elif nm == 'ldexp':
                try:
                    exp = bits(math.ldexp(x, n))
                except OverflowError:
                    exp = bits(math.copysign(math.inf, x))
            elif nm == 'sqrt':
                exp = bits(math.sqrt(x)) if x >= 0 or x == 0 else bits(math.nan)
            else:
                c = 0 if x != x else 1 if math.isinf(x) else 2 if x == 0 else 3 if abs(x) < 2.2250738585072014e-308 else 4
                exp = '%d%d%d%d%d%d' % (x != x, c == 1, c >= 2, c >= 2, struct.pack('>d', x)[0] >> 7, c)
            if x != x and nm != 'cls':
                exp = None
            exp = ('x', exp)
        else:
            if nm in DOM:
                a, b = DOM[nm]
                x = uni(src, a, b) if src.p(50) else uni(src, max(a, -4), min(b, 4))
                if src.p(10):
                    x = float(src.choice([max(0, a), min(1, b), max(a, -1), 0.5 if a < 1 else 1.0]))
                y = src.choice([uni(src, 0.5, 50), float(src.r(1, 12)), -uni(src, 1, 9)])
            elif nm == 'atan2':
                x, y = (src.choice([uni(src, -9, 9), float(src.r(-2, 2))]) for _ in range(2))
                if x == 0 or y == 0:
                    x, y = 1.0, -3.0
            elif nm == 'pow':
                if src.p(40):
                    x = float(src.choice([-3, -2, -1, 2, 3, 10, 0.5, -0.5, 7, 1.5]))
                    y = float(src.r(-30, 30))
                else:
                    x = 10 ** uni(src, -3, 3)
                    y = uni(src, -60, 60)
            else:
                x = 10 ** uni(src, -300, 300) if src.p(60) else uni(src, 0.01, 20)
            f = getattr(math, nm)
            exp = ('~', f(x, y) if nm in ('atan2', 'pow', 'fmod') else f(x), 1e-8 if nm in TRIG else 0.0)
            if nm == 'fmod':
                # a quotient next to an integer may be off by one divisor
                if min(abs(exp[1]), abs(abs(y) - abs(exp[1]))) < 1e-7 * max(1, abs(x)):
                    continue
        src.label(nm)
        ops.append((nm, x, y, n, exp))
        req += bytes([op]) + (n & 0xffffffff).to_bytes(4, 'little') + struct.pack('<dd', x, y)
    return ops, bytes(req)


def isnan_hex(h):
    try:
        d = struct.unpack('<d', bytes.fromhex(h))[0]
    except Exception:
        return False
    return d != d


def check(case, ctx):
    ops, req = case
    n = 0
    for what, f in (('native', libcdrv.native), ('wasm', libcdrv.wasm)):
        msg, out = f(ctx, req)
        got = out.decode('latin1').split('\n')
        for k, (nm, x, y, ni, e) in enumerate(ops):
            g = got[k].strip() if k < len(got) - 1 else 'nothing'
            if e[0] == 'x':
                if e[1] is None or isnan_hex(e[1]):
                    ok = isnan_hex(g.split(' ')[0])
                else:
                    ok = g == e[1]
                want = e[1]
            else:
                want = e[1]
                try:
                    d = struct.unpack('<d', bytes.fromhex(g))[0]
                    ok = abs(d - e[1]) <= 1e-8 * abs(e[1]) + e[2]
                    g = d
                except Exception:
                    ok = False
            if not ok:
                return fail('%s: %s(%r, %r, %d): expected %s, got %s %s' % (what, nm, x, y, ni, want, g, msg or ''))
        if msg:
            return fail(msg)
        n += len(ops)
    return Res('pass', True, units=n)


def render(case):
    return '\n'.join('%s(%r, %r, %d) -> %r' % o for o in case[0])
