"""string.h, strings.h, ctype.h and libgen.h: histories of operations on an arena against a model."""
import libcdrv
from core import Res, fail
from libcdrv import worker_init, worker_exit  # noqa: F401

ID = 'C20'
N = {'quick': 100000, 'thorough': 3000000}
BUILDS = ('native', 'wcc')
RULE = ('a case is a history of up to 40 string operations on an 80-byte arena (the arena after every operation is compared '
        'with the model), run natively and on wasm; non-trivial when at least 8 operations ran; evaluations = operations compared')
ASSUMPTIONS = ['only the sign of comparison results is specified', 'C locale', 'paths do not start with // (implementation-defined)']
NN = 80


def prepare(ctx):
    libcdrv.prepare(ctx, 'libc_string')


class Skip(Exception):
    pass


class M:
    """The model: the arena and what C says each function does to it."""

    def __init__(self, m):
        self.m = bytearray(m)
        self.tok = None
        self.save = None

    def s(self, a):
        e = self.m.find(0, a)
        if e < 0:
            raise Skip
        return bytes(self.m[a:e])

    def put(self, a, data):
        if a + len(data) > NN - 1:
            raise Skip
        self.m[a:a + len(data)] = data

    @staticmethod
    def overlap(a, n, b, k):
        return a < b + k and b < a + n and n and k

    def tokr(self, p, q, c, st):
        d = self.s(q)
        cur = st if c else p
        if cur is None:
            raise Skip
        # the delimiters must not be changed by the writes (same string): skip overlapping
        rest = self.s(cur)
        if self.overlap(cur, len(rest) + 1, q, len(d) + 1):
            raise Skip
        k = 0
        while k < len(rest) and rest[k] in d:
            k += 1
        if k == len(rest):
            return None, cur + k
        e = k
        while e < len(rest) and rest[e] not in d:
            e += 1
        if e < len(rest):
            self.m[cur + e] = 0
            return cur + k, cur + e + 1
        return cur + k, cur + e

    def do(self, op, a, b, n, c):
        m = self.m
        sg = lambda x, y: (x > y) - (x < y)
        ptr = lambda x: 'null' if x is None else str(x)
        cc = c & 255
        fold = lambda s: bytes(x + 32 if 65 <= x <= 90 else x for x in s)
        if op == 1:
            return str(len(self.s(a)))
        if op == 2:
            if a + n > NN:
                raise Skip
            e = m.find(0, a, a + n)
            return str(n if e < 0 else e - a)
        if op == 3:
            s = self.s(a) + b'\0'
            k = s.find(cc)
            return ptr(None if k < 0 else a + k)
        if op == 4:
            s = self.s(a) + b'\0'
            k = s.rfind(cc)
            return ptr(None if k < 0 else a + k)
        if op == 5:
            k = self.s(a).find(self.s(b))
            return ptr(None if k < 0 else a + k)
        if op in (6, 8):
            return str(sg(self.s(a), self.s(b)))
        if op == 7:
            return str(sg(self.s(a)[:n], self.s(b)[:n]))
        if op == 26:
            return str(sg(fold(self.s(a)), fold(self.s(b))))
        if op == 27:
            return str(sg(fold(self.s(a)[:n]), fold(self.s(b)[:n])))
        if op in (9, 11):
            s = self.s(b) + b'\0'
            if self.overlap(a, len(s), b, len(s)):
                raise Skip
            self.put(a, s)
            return str(a if op == 9 else a + len(s) - 1)
        if op in (10, 12):
            s = self.s(b)
            t = (s + b'\0' * n)[:n]
            if self.overlap(a, n, b, min(n, len(s) + 1)):
                raise Skip
            self.put(a, t)
            return str(a if op == 10 else a + min(n, len(s)))
        if op in (13, 14):
            d = self.s(a)
            s = self.s(b)
            if op == 14:
                s = s[:n]
            if self.overlap(a, len(d) + len(s) + 1, b, len(self.s(b)) + 1):
                raise Skip
            self.put(a + len(d), s + b'\0')
            return str(a)
        if op == 15:
            if b + n > NN or self.overlap(a, n, b, n):
                raise Skip
            self.put(a, bytes(m[b:b + n]))
            return str(a)
        if op == 16:
            if b + n > NN or self.overlap(a, n, b, n):
                raise Skip
            k = bytes(m[b:b + n]).find(cc)
            self.put(a, bytes(m[b:b + (n if k < 0 else k + 1)]))
            return ptr(None if k < 0 else a + k + 1)
        if op == 17:
            if b + n > NN:
                raise Skip
            self.put(a, bytes(m[b:b + n]))
            return str(a)
        if op == 18:
            self.put(a, bytes([cc]) * n)
            return str(a)
        if op == 19:
            if a + n > NN:
                raise Skip
            k = bytes(m[a:a + n]).find(cc)
            return ptr(None if k < 0 else a + k)
        if op == 20:
            if max(a, b) + n > NN:
                raise Skip
            return str(sg(bytes(m[a:a + n]), bytes(m[b:b + n])))
        if op in (21, 22, 23):
            s, t = self.s(a), self.s(b)
            k = 0
            while k < len(s) and (s[k] in t) == (op == 21):
                k += 1
            if op == 23:
                return ptr(None if k == len(s) else a + k)
            return str(k)
        if op == 24:
            r, self.tok = self.tokr(a, b, c, self.tok)
            return ptr(r)
        if op == 25:
            r, self.save = self.tokr(a, b, c, self.save)
            return ptr(r)
        if op == 28:
            return self.s(a).decode('latin1')
        if op == 29:
            return self.s(a)[:n].decode('latin1')
        if op in (30, 31):
            s = self.s(a)
            if s.startswith(b'//'):
                raise Skip
            if not s:
                return '.'
            t = s.rstrip(b'/')
            if op == 30:
                if not t:
                    self.m[a + 1] = 0
                    return str(a)
                if len(t) < len(s):
                    return None  # may or may not write the terminator: handled by the caller
                return str(a + t.rfind(b'/') + 1)
            if not t:
                return str(a)
            k = t.rfind(b'/')
            if k < 0:
                return '.'
            d = t[:k].rstrip(b'/')
            end = a + (len(d) or 1)
            self.m[end] = 0
            return str(a)
        if op == 32:
            bits = 0
            if -1 <= c <= 255:
                A = 65 <= c <= 90 or 97 <= c <= 122
                D = 48 <= c <= 57
                f = [D, D or 65 <= c <= 70 or 97 <= c <= 102, A, A or D, c in (9, 10, 11, 12, 13, 32), 65 <= c <= 90,
                     97 <= c <= 122, 0 <= c <= 127, 32 <= c <= 126, 33 <= c <= 126, 0 <= c <= 31 or c == 127,
                     33 <= c <= 126 and not (A or D)]
                bits = sum(1 << i for i, x in enumerate(f) if x)
            else:
                raise Skip
            return '%d %d %d' % (bits, c + 32 if 65 <= c <= 90 else c, c - 32 if 97 <= c <= 122 else c)
        raise AssertionError(op)


NAMES = ['', 'strlen', 'strnlen', 'strchr', 'strrchr', 'strstr', 'strcmp', 'strncmp', 'strcoll', 'strcpy', 'strncpy', 'stpcpy',
         'stpncpy', 'strcat', 'strncat', 'memcpy', 'memccpy', 'memmove', 'memset', 'memchr', 'memcmp', 'strspn', 'strcspn',
         'strpbrk', 'strtok', 'strtok_r', 'strcasecmp', 'strncasecmp', 'strdup', 'strndup', 'basename', 'dirname', 'ctype']
ALPH = [b'ab', b'abAB', b'a/b', b'ab,; ', b'xyzXYZ019 @[`{', bytes(range(1, 256)), b'\xe9\x69\x80\x7f\xffA']


def gen(src, ctx):
    al = src.choice(ALPH)
    z = src.choice([8, 4, 15])
    arena = bytearray(al[src.i(len(al))] if src.i(z) else 0 for _ in range(NN))
    arena[NN - 1] = 0
    if src.p(25):      # equal stretches, so that comparisons and searches go deep
        k = src.i(30)
        arena[40:40 + k] = arena[0:k]
    if al == b'a/b' and src.p(50) or src.p(5):
        for k in range(NN - 1):
            if src.p(30):
                arena[k] = 0x2f
    md = M(arena)
    ops, exp, req = [], [], bytearray(b'\0' + arena)
    for _ in range(src.rng_(8, 40)):
        op = src.rng_(1, 32)
        if al == b'a/b' and src.p(40):
            op = src.rng_(30, 31)
        elif src.p(10):
            op = src.rng_(24, 25)
        a = src.i(NN)
        b = src.i(NN)
        n = src.choice([src.i(4), src.i(12), src.i(40), src.i(80)])
        if op == 32:
            c = src.rng_(-1, 255)
        elif op in (24, 25):
            c = src.i(2) if (md.tok if op == 24 else md.save) is not None else 0
            if not c and src.p(60):
                a = 0
        else:
            c = al[src.i(len(al))] if src.p(75) else src.i(256)
            if src.p(10):
                c |= src.rng_(1, 3) << 8
            if src.p(15) and c & 128:
                c = (c & 255) - 256
            if src.p(8):
                c = 0
        keep = bytes(md.m)
        try:
            r = md.do(op, a, b, n, c)
        except Skip:
            md.m = bytearray(keep)
            src.label('skipped-op')
            continue
        if r is None:      # basename with trailing slashes: compare only the value, then resynchronise
            continue
        src.label(NAMES[op])
        ops.append((NAMES[op], a, b, n, c))
        exp.append((r + ' ').encode('latin1') + md.m.hex().encode())
        if b'\n' in exp[-1]:
            ops.pop()
            exp.pop()
            md.m = bytearray(keep)
            continue
        req += bytes([op, a, b, n]) + (c & 0xffffffff).to_bytes(4, 'little')
    return bytes(arena), ops, exp, bytes(req)


def check(case, ctx):
    arena, ops, exp, req = case
    n = 0
    for what, f in (('native', libcdrv.native), ('wasm', libcdrv.wasm)):
        msg, out = f(ctx, req)
        d = libcdrv.compare(exp, out, what, ops)
        if msg or d:
            return fail((msg or '') + ' ' + (d or ''))
        n += len(ops)
    return Res('pass', len(ops) >= 8, units=n)


def render(case):
    arena, ops, exp, req = case
    return 'arena %r\n' % arena + '\n'.join('%r -> %s' % (o, e.split(b' ')[0].decode('latin1')) for o, e in zip(ops, exp))
