"""stdio.h streams: histories of operations, xcc's libc against glibc, plus the contents of the files left behind."""
import os

from build import VERIF
from core import Res, fail, run

ID = 'C22'
N = {'quick': 40000, 'thorough': 800000}
BUILDS = ('native',)
RULE = ('a case is a history of up to 80 operations on up to 14 streams (files in every mode, stdin, fdopen, tmpfile, fmemopen, '
        'open_memstream, atexit handlers, leaving through exit or return), executed with xcc\'s libc and with glibc; compared: every '
        'answer, the exit code and every file left behind; non-trivial when at least 10 operations ran; evaluations = answers compared')
ASSUMPTIONS = ['glibc is right on the histories generated, which stay within what C/POSIX define (between a write and a read of an '
               'update stream comes fflush or fseek; one pushed-back character; no two open streams on one file)',
               'buffering policy, errno and getline\'s capacity are not part of the property']
NAMES = 5


class W:
    def __init__(self):
        self.b = bytearray()

    def u(self, *v):
        self.b += bytes(x & 255 for x in v)

    def n(self, v, k):
        self.b += (v & ((1 << 8 * k) - 1)).to_bytes(k, 'little')


def data(s, n):
    k = s.i(4)
    if k == 0:
        return bytes(s.i(256) for _ in range(min(n, 40))).ljust(n, b'#') if n < 400 else bytes([s.i(256)]) * n
    if k == 1:
        return (b'line %d\n' % s.i(1000) * (n // 5 + 1))[:n]
    w = s.choice([7, 16, 63, 127, 128, 129, 255, 256])
    x = (bytes(97 + (i * 7 + w) % 26 for i in range(w)) + b'\n') * (n // w + 1)
    return x[:n]


SIZES = [0, 1, 2, 3, 5, 10, 15, 31, 63, 64, 100, 127, 128, 129, 130, 191, 192, 193, 200, 250, 255, 256, 257, 258, 300, 383, 384, 385, 500, 511, 512, 513, 700,
         1000, 1023, 1024, 1500, 3000]


def gen(src, ctx):
    s = src
    w = W()
    files = {}
    for k in range(NAMES):
        if s.p(50):
            files[k] = data(s, s.choice(SIZES))
    init = dict(files)
    stdin = data(s, s.choice(SIZES)) if s.p(50) else b''
    st = {0: dict(kind='in', r=True, w=False, a=False, last='', name=None)}
    ops = []
    hooks = 0
    used_names = set()
    n = s.rng_(5, 80)

    def log(t):
        ops.append(t)

    while len(ops) < n:
        live = [k for k in st]
        opensl = [k for k in range(1, 14) if k not in st]
        if (len(live) < 2 or s.p(14)) and opensl:
            k = s.choice(opensl)
            kind = s.weighted([(70, 'file'), (8, 'fd'), (7, 'mem'), (8, 'memw'), (5, 'tmp'), (7, 'gmem')])
            if kind in ('file', 'fd'):
                free = [x for x in range(NAMES) if x not in used_names]
                if not free:
                    continue
                nm = s.choice(free)
                mode = s.choice(['r', 'w', 'a', 'r+', 'w+', 'a+', 'rb', 'wb', 'ab', 'r+b', 'rb+', 'wb+', 'w+b', 'a+b', 'ab+'])
                exists = nm in files
                if kind == 'fd':
                    acc = s.i(3)
                    if acc == 0 and not exists:
                        acc = 2
                    mode = s.choice(['r', 'rb']) if acc == 0 else s.choice(['w', 'wb']) if acc == 1 else s.choice(['r+', 'rb+', 'w+'])
                    w.u(26, k, nm, len(mode) + 1)
                    w.b += mode.encode() + b'\0'
                    w.u(acc)
                    log('%d=fdopen(f%d,%s,%d)' % (k, nm, mode, acc))
                    files[nm] = b''
                else:
                    w.u(1, k, nm, len(mode) + 1)
                    w.b += mode.encode() + b'\0'
                    log('%d=fopen(f%d,%s)' % (k, nm, mode))
                    if not exists and mode[0] == 'r':
                        continue
                    files.setdefault(nm, b'')
                used_names.add(nm)
                st[k] = dict(kind='file', r=mode[0] == 'r' or '+' in mode, w=mode[0] != 'r' or '+' in mode, a=mode[0] == 'a', last='', name=nm)
            elif kind == 'tmp':
                w.u(23, k)
                log('%d=tmpfile' % k)
                st[k] = dict(kind='file', r=True, w=True, a=False, last='', name=None)
            elif kind == 'gmem':
                w.u(17, k)
                log('%d=open_memstream' % k)
                st[k] = dict(kind='gmem', r=False, w=True, a=False, last='', name=None)
            else:
                cap = s.rng_(1, 50)
                m = s.rng_(0, 60)
                w.u(16, k, cap, m)
                w.b += data(s, m)
                w.u(1 if kind == 'memw' else 0)
                log('%d=fmemopen(%d,%s)' % (k, cap, kind))
                st[k] = dict(kind=kind, r=kind == 'mem', w=kind == 'memw', a=False, last='', name=None, left=cap - 1)
            continue
        k = s.choice(live)
        f = st[k]
        op = s.weighted([(30, 'io'), (5, 'seek'), (5, 'tell'), (5, 'eof'), (4, 'flush'), (4, 'close'), (3, 'dump'), (1, 'remove'), (2, 'atexit')])
        if op == 'close':
            if k == 0:
                continue
            w.u(2, k)
            log('fclose(%d)' % k)
            del st[k]
            used_names.discard(f['name'])
            if f['kind'] == 'gmem':
                w.u(27, k)
                log('mem(%d)' % k)
                w.u(25, k)
                log('free(%d)' % k)
            if f['kind'] == 'mem' or f['kind'] == 'memw' and f.get('dirty'):
                w.u(24, k)
                log('fmem(%d)' % k)
        elif op == 'dump':
            x = s.i(NAMES)
            if x in used_names:
                y = [q for q in st if st[q]['name'] == x]
                if st[y[0]]['w'] and st[y[0]]['last'] == 'w':
                    w.u(13, y[0])
                    log('fflush(%d)' % y[0])
                    st[y[0]]['last'] = 'f'
            w.u(20, 0, x)
            log('content(f%d)' % x)
        elif op == 'remove':
            free = [x for x in range(NAMES) if x not in used_names]
            if free:
                x = s.choice(free)
                w.u(19, 0, x)
                log('remove(f%d)' % x)
                files.pop(x, None)
        elif op == 'atexit':
            if hooks < 30 and (f['kind'] == 'file' and f['w'] or s.p(40)) and k:
                # a handler that writes needs a stream that may be written then
                if f['kind'] == 'file' and not (f['w'] and not f['r']):
                    continue
                for _ in range(s.choice([1, 1, 1, 2, 3, 12])):
                    if hooks < 30:
                        hooks += 1
                        w.u(21, k if f['kind'] == 'file' else 13 if 13 not in st else k)
                        log('atexit(%d)' % k)
        elif op == 'flush':
            if f['last'] == 'r' or f['kind'] == 'in' or not f['w']:
                continue
            if f['kind'] == 'gmem':
                w.u(18, k)
                log('fflush,mem(%d)' % k)
            else:
                w.u(13, k)
                log('fflush(%d)' % k)
                if f['kind'] == 'memw' and f.get('dirty'):
                    w.u(24, k)
                    log('fmem(%d)' % k)
            if f['last'] == 'w':
                f['last'] = 'f'
        elif op == 'tell':
            if f['kind'] == 'in' or f['a'] and f['last'] not in ('s', 'r'):
                continue
            w.u(11, k)
            log('ftell(%d)' % k)
        elif op == 'eof':
            w.u(12, k)
            log('feof(%d)' % k)
        elif op == 'seek':
            if f['kind'] in ('in', 'gmem', 'memw'):
                continue
            if f['kind'] == 'mem':
                wh = s.weighted([(3, 0), (2, 1), (1, 2)])
                off = s.rng_(0, f['left'] + 1) if wh == 0 else s.choice([0, 1, -1, 2, -3, 5]) if wh == 1 else -s.rng_(0, f['left'] + 1)
            else:
                wh = s.i(3)
                if wh == 1 and f['a'] and f['last'] not in ('s', 'r'):
                    wh = 0
                off = s.choice([0, 1, 5, 100, 127, 128, 255, 256, 300, 1000]) if wh == 0 else s.choice([0, 1, -1, 3, -3, -100, -128, 50]) if wh == 1 else \
                    s.choice([0, 0, -1, -5, -128, -256, 10, 200])
            w.u(10, k)
            w.n(off, 4)
            w.u(wh)
            log('fseek(%d,%d,%s)' % (k, off, ('SET', 'CUR', 'END')[wh]))
            f['last'] = 's'
        else:
            rd = f['r'] and (not f['w'] or s.p(50))
            if f['r'] and f['w']:
                if f['last'] == 'r':
                    rd = True
                elif f['last'] == 'w':
                    rd = False
            for _ in range(s.choice([1, 1, 2, 3])):
                if rd:
                    f['last'] = 'r'
                    x = s.i(6)
                    if x == 0:
                        sz = s.choice([1, 1, 1, 2, 3, 4, 7])
                        ct = s.choice(SIZES) // (1 if sz == 1 else sz)
                        # a partial last item leaves the position where the implementation wants it
                        sz = 1 if s.p(85) else sz
                        if sz > 1:
                            continue
                        w.u(4, k)
                        w.n(sz, 2)
                        w.n(ct, 2)
                        log('fread(%d,%d,%d)' % (k, sz, ct))
                    elif x == 1:
                        c = s.choice([1, 1, 2, 3, 10, 60, 200])
                        w.u(5, k, c)
                        log('fgetc(%d)*%d' % (k, c))
                    elif x == 2:
                        c = s.choice([1, 2, 3, 8, 20, 64, 100, 128, 129, 300, 1000])
                        w.u(7, k)
                        w.n(c, 2)
                        log('fgets(%d,%d)' % (k, c))
                    elif x == 3:
                        c = s.choice([0, 65, 97, 10, 255, 128])
                        w.u(9, k, c)
                        log('ungetc(%d,%d)' % (k, c))
                    elif x == 4 and not f.get('err'):      # (glibc's getline refuses after any error)
                        w.u(14, k)
                        log('getline(%d)' % k)
                    else:
                        w.u(12, k)
                        log('feof(%d)' % k)
                elif f['w']:
                    f['last'] = 'w'
                    nz = f['kind'] == 'memw'      # (glibc does not add a terminator after a NUL)
                    room = f.get('left', 100000)
                    x = s.i(5)
                    if x == 0:
                        sz = s.choice([1, 1, 1, 2, 3, 8])
                        d = data(s, min(s.choice(SIZES), room) // sz * sz)
                        if nz:
                            d = d.replace(b'\0', b'0')
                        w.u(3, k)
                        w.n(sz, 2)
                        w.n(len(d) // sz, 2)
                        w.b += d
                        log('fwrite(%d,%d,%d)' % (k, sz, len(d) // sz))
                        room -= len(d)
                    elif x in (1, 2):
                        if room < 1:
                            continue
                        c = s.choice([s.i(255) + 1, 10, 65, 255, 0][:4 if nz else 5])
                        w.u(6, k, c)
                        log('fputc(%d,%d)' % (k, c))
                        room -= 1
                    elif x == 3:
                        d = data(s, min(s.choice(SIZES), room)).replace(b'\0', b'0')
                        w.u(8, k)
                        w.n(len(d) + 1, 2)
                        w.b += d + b'\0'
                        log('fputs(%d,%d)' % (k, len(d)))
                        room -= len(d)
                    else:
                        d = data(s, s.choice([0, 1, 5, 20, 60, 130, 200])).replace(b'\0', b'0')[:220]
                        if room < len(d) + 40:
                            continue
                        w.u(15, k)
                        w.n(s.choice([0, 1, -1, 123456, -2147483648]), 4)
                        w.u(len(d) + 1)
                        w.b += d + b'\0'
                        log('fprintf(%d,%d)' % (k, len(d)))
                        room -= len(d) + 40
                    if 'left' in f:
                        if room < f['left']:
                            f['dirty'] = True
                        f['left'] = max(room, 0)
                else:
                    break
            if f['r'] != f['w'] and s.p(5):
                # the wrong direction: refused, nothing happens
                if f['r']:
                    x = s.i(4)
                    if x == 0:
                        w.u(6, k, 65)
                    elif x == 1:
                        w.u(3, k, 1, 0, 3, 0)
                        w.b += b'abc'
                    elif x == 2:
                        w.u(8, k, 4, 0)
                        w.b += b'xyz\0'
                    else:
                        w.u(15, k, 1, 0, 0, 0, 2)
                        w.b += b'p\0'
                    log('write to reader %d' % k)
                    f['err'] = True
                elif f['kind'] == 'file' and f['last'] != 'w':
                    x = s.i(3)
                    if x == 0:
                        w.u(5, k, 2)
                    elif x == 1:
                        w.u(4, k, 1, 0, 9, 0)
                    else:
                        w.u(7, k, 20, 0)
                    log('read from writer %d' % k)
                    f['err'] = True
    if s.p(40):
        w.u(22, 0, s.i(100))
        log('exit')
    return dict(init=init, req=bytes(w.b), ops=ops, stdin=stdin)


def check(case, ctx):
    res = []
    for which in ('ref', 'x'):
        d = os.path.join(ctx.dir, which)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        for k, v in case['init'].items():
            with open(os.path.join(d, 'f%d' % k), 'wb') as f:
                f.write(v)
        with open(os.path.join(d, 'req'), 'wb') as f:
            f.write(case['req'])
        r = run([ctx.x[which], 'req'], cwd=d, inp=case['stdin'], cpu=5)
        cont = {}
        for f in sorted(os.listdir(d)):
            if f != 'req':
                with open(os.path.join(d, f), 'rb') as g:
                    cont[f] = g.read()
        res.append((r, cont))
    (a, fa), (b, fb) = res
    if a.rc < 0 or a.timeout:
        return Res('skip', False, 'reference: ' + a.short())
    la, lb = a.out.split(b'\n'), b.out.split(b'\n')
    for k, e in enumerate(la):
        g = lb[k] if k < len(lb) else b'<nothing>'
        if e != g:
            return fail('operation %d %s: expected %r, got %r' % (k, case['ops'][k] if k < len(case['ops']) else 'at exit', e[:200], g[:200]) +
                        (' [%s]' % b.short() if b.rc < 0 else ''))
    if b.rc != a.rc or b.timeout:
        return fail('exit code %d, expected %d: %s' % (b.rc, a.rc, b.short()))
    if len(lb) != len(la):
        return fail('extra output %r' % lb[len(la):][:2])
    for f in sorted(set(fa) | set(fb)):
        if fa.get(f) != fb.get(f):
            return fail('file %s at the end: expected %s, got %s' % (f, desc(fa.get(f)), desc(fb.get(f))))
    return Res('pass', len(case['ops']) >= 10, units=len(la))


def desc(x):
    return 'none' if x is None else '%d bytes ...%r' % (len(x), x[-60:])


def prepare(ctx):
    src = os.path.join(VERIF, 'harness', 'libc_stdio.c')
    for which, cmd in (('ref', ['gcc', '-w', '-O0']), ('x', [os.path.join(ctx.builds['native'], 'xcc')])):
        out = os.path.join(ctx.root, 'stdio_' + which)
        r = run([*cmd, '-o', out, src], cwd=ctx.root, cpu=30)
        if r.rc == 0:
            os.chmod(out, 0o755)
        ctx.x[which] = out


def render(case):
    return 'stdin: %d bytes; files: %s\n%s' % (len(case['stdin']), {k: len(v) for k, v in case['init'].items()}, '; '.join(case['ops']))
