"""Reference model of macro replacement: Prosser's algorithm (hide sets)."""
import re
from ppgen import TOK

COMMENT = re.compile(rb'''("(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')|/\*.*?\*/|//[^\n]*''', re.S)


class TooBig(Exception):
    pass


def lex(line):
    """-> list of (text, space-before, hideset)"""
    out, sp = [], False
    for m in TOK.finditer(line):
        t = m.group('t')
        if t is None:
            sp = True
        else:
            out.append((t, sp, frozenset()))
            sp = False
    return out


def is_id(t):
    return t[:1].isalpha() or t[:1] == b'_'


PLACE = (b'', False, frozenset())


class Model:
    def __init__(self, text):
        text = COMMENT.sub(lambda m: m.group(1) or b' ' + b'\n' * m.group(0).count(b'\n'), text)
        self.lines = text.split(b'\n')
        self.k = 0
        self.macros = {}
        self.fuel = 60000

    def next_line(self):
        """Tokens of the next non-directive line, or None."""
        while self.k < len(self.lines):
            l = self.lines[self.k]
            self.k += 1
            if l.lstrip().startswith(b'#'):
                self.directive(l.lstrip()[1:].strip())
                continue
            t = lex(l)
            if t:
                t[0] = (t[0][0], True, t[0][2])
                return t
        return None

    def directive(self, d):
        m = re.match(rb'undef\s+(\w+)$', d)
        if m:
            self.macros.pop(m.group(1), None)
            return
        m = re.match(rb'define\s+(\w+)(\(([^)]*)\))?(.*)$', d, re.S)
        name, par, plist, body = m.group(1), m.group(2), m.group(3), m.group(4)
        body = lex(body.strip())
        if par is None:
            self.macros[name] = (None, None, body)
            return
        ps = [p.strip() for p in plist.split(b',')] if plist.strip() else []
        va = None
        if ps and ps[-1].endswith(b'...'):
            va = ps.pop()[:-3].strip() or b'__VA_ARGS__'
        self.macros[name] = (ps, va, body)

    def expand(self, ts, more):
        """Prosser's expand; `more()` gives further tokens of the source or None."""
        ts = list(ts)
        out = []
        i = 0
        while i < len(ts):
            self.fuel -= 1
            if self.fuel < 0:
                raise TooBig
            t, sp, hs = ts[i]
            m = self.macros.get(t) if is_id(t) else None
            if m is None or t in hs:
                out.append(ts[i])
                i += 1
                continue
            ps, va, body = m
            if ps is None:
                r = self.subst(body, [], None, {}, hs | {t})
                ts[i:i + 1] = self.spaced(r, sp)
                continue
            j = i + 1
            if j >= len(ts):
                x = more()
                if x:
                    ts += x
            if j >= len(ts) or ts[j][0] != b'(':
                out.append(ts[i])
                i += 1
                continue
            args, cur, depth = [], [], 0
            j += 1
            while True:
                if j >= len(ts):
                    x = more()
                    if not x:
                        raise ValueError('unterminated')
                    ts += x
                u = ts[j]
                if u[0] == b'(':
                    depth += 1
                elif u[0] == b')':
                    if depth == 0:
                        break
                    depth -= 1
                if u[0] == b',' and depth == 0 and (va is None or len(args) < len(ps)):
                    args.append(cur)
                    cur = []
                else:
                    cur.append(u)
                j += 1
            if not (not args and not cur and not ps and va is None):
                args.append(cur)
            if va is not None and len(args) == len(ps):
                args.append([])
            names = ps + ([va] if va is not None else [])
            if len(args) != len(names):
                raise ValueError('count')
            r = self.subst(body, names, va, dict(zip(names, args)), (hs & ts[j][2]) | {t})
            ts[i:j + 1] = self.spaced(r, sp)
        return out

    @staticmethod
    def spaced(r, sp):
        if r:
            r[0] = (r[0][0], sp, r[0][2])
        return r

    def subst(self, body, names, va, ap, hs):
        out = []
        exp = {}
        i = 0
        while i < len(body):
            t, sp, _ = body[i]
            nxt = body[i + 1][0] if i + 1 < len(body) else None
            if t == b'#' and names and nxt in ap:
                out.append((self.stringize(ap[nxt]), sp, frozenset()))
                i += 2
            elif t == b'##' and out:
                if nxt in ap:
                    a = ap[nxt]
                    if a:
                        self.glue(out, a[0])
                        out += a[1:]
                else:
                    self.glue(out, body[i + 1])
                i += 2
            elif t in ap and nxt == b'##':
                out += self.spaced(list(ap[t]), sp) or [PLACE]
                i += 1
            elif t in ap:
                if t not in exp:
                    exp[t] = self.expand(ap[t], lambda: None)
                out += self.spaced(list(exp[t]), sp)
                i += 1
            elif t == b',' and nxt == b'##' and va and i + 2 < len(body) and body[i + 2][0] == va:
                if ap[va]:
                    out.append(body[i])
                    out += ap[va]
                i += 3
            elif t == b'__VA_OPT__' and va:
                j = next(k for k in range(i, len(body)) if body[k][0] == b')')
                if ap[va]:
                    out += body[i + 2:j]
                i = j + 1
            else:
                out.append(body[i])
                i += 1
        return [(t, sp, h | hs) for t, sp, h in out if t]

    @staticmethod
    def glue(out, r):
        l = out[-1]
        if not l[0]:
            out[-1] = (r[0], l[1], r[2])
        else:
            out[-1] = (l[0] + r[0], l[1], l[2] & r[2])

    @staticmethod
    def stringize(a):
        s = b''
        for k, (t, sp, _) in enumerate(a):
            if sp and k:
                s += b' '
            if t[:1] in b'"\'' or t[-1:] in b'"\'' and len(t) > 1:
                t = t.replace(b'\\', b'\\\\').replace(b'"', b'\\"')
            s += t
        return b'"' + s + b'"'

    def run(self):
        toks = []
        while True:
            l = self.next_line()
            if l is None:
                return [t for t, _, _ in toks]
            toks += self.expand(l, self.next_line)
