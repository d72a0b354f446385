"""Generator of macro-heavy text for the preprocessor, and a pp-tokenizer."""
import re

TOK = re.compile(rb'''\s+|(?P<t>(?:u8|[uUL])?"(?:\\.|[^"\\\n])*"|[uUL]?'(?:\\.|[^'\\\n])*'|\.?[0-9](?:[eEpP][-+]|[0-9A-Za-z_.])*'''
                 rb'''|[A-Za-z_$][A-Za-z_$0-9]*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\#\#|.)''', re.S)
MARK = re.compile(rb'^__mk(\d+)$')


def tokens(out):
    """pp-tokens of preprocessed text, line markers dropped."""
    toks = []
    for line in out.split(b'\n'):
        if line.lstrip().startswith(b'#'):
            continue
        toks += [m.group('t') for m in TOK.finditer(line) if m.group('t')]
    return toks


def by_mark(out, toks=None):
    d, cur = {}, None
    for t in toks or tokens(out):
        m = MARK.match(t)
        if m:
            cur = int(m.group(1))
            d[cur] = []
        elif cur is not None:
            d[cur].append(t)
    return d


PUNCT = ['+', '-', '*', '/', '%', '&', '|', '^', '~', '!', '<', '>', '=', '?', ':', ';', '.', '[', ']', '{', '}', '==', '!=',
         '<=', '>=', '&&', '||', '<<', '>>', '++', '--', '->', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '...']
PLAIN = ['x', 'y', 'z', 'foo', '_a1', 'int', 'return', 'while', 'defined_', 'L', 'e1']
NUMS = ['0', '1', '42', '0x1F', '1.5', '2e3', '10UL', '.5', '1e+5', '3.f', '07', '0b101']
STRS = ['"s"', '"a b"', '"\\n"', '"\\""', "'c'", "'\\''", '"/*no*/"', '"//"', '""', '"a\\\\"', "'\"'", '"F0(x)"', "'\\\\'", '"O1"']


class PPGen:
    def __init__(self, src, **kw):
        self.s = src
        k = dict(objs=5, funs=5, concat=15, strz=15, variadic=25, gnu=10, undef=20, multiline=15, comments=20, uses=(8, 25), depth=3,
                 punct=40, vaopt=0, tight=30)
        k.update(kw)
        self.k = k
        self.macros = {}       # name -> None | (params, variadic name or None)
        self.arity = {}
        for j in range(k['funs']):
            ps = src.choice([['a'], ['a', 'b'], ['p'], ['a', 'p'], ['p', 'a'], ['p', 'b', 'q'], ['a', 'b', 'c'], []])
            va = None
            if src.p(k['variadic']):
                va = 'r' if src.p(30) and k['gnu'] else '__VA_ARGS__'
            self.arity['F%d' % j] = (ps, va)
        self.lines = []
        self.n = 0

    def sp(self, inbody=False):
        s = self.s
        if inbody:      # a comment between two tokens of a macro body pastes them (documented by cpptest.sh)
            return s.choice([' ', ' ', '', '  ', '\t']) if not s.p(self.k['comments']) else s.choice([' /* c */ ', ' /**/', '/*F0(*/ '])
        return s.choice([' ', ' ', '', '  ', '\t']) if s.p(60) else '' if not s.p(self.k['comments']) else s.choice(['/**/', ' /* c */ ', '/*F0(*/'])

    def name(self):
        s = self.s
        return s.choice(['O%d' % s.i(self.k['objs']), 'F%d' % s.i(self.k['funs'])])

    def plain(self):
        s = self.s
        return s.weighted([(30, s.choice(PLAIN)), (20, s.choice(NUMS)), (12, s.choice(STRS)), (self.k['punct'], s.choice(PUNCT))])

    def invocation(self, depth, params=(), inbody=False):
        s = self.s
        f = 'F%d' % s.i(self.k['funs'])
        if s.p(5):
            return f
        ps, va = self.arity[f]
        n = len(ps)
        if va is not None:
            n += s.choice([0, 1, 1, 2, 3]) if n else s.choice([1, 1, 2, 3])
            if n == len(ps) and n and not self.k['gnu']:
                n += 1
        if n == 0:
            return f + self.sp0() + '(' + self.sp0() + ')'
        args = [self.safe_arg() if j < len(ps) and ps[j] in 'pq' else self.arg(depth - 1, params, inbody) for j in range(n)]
        return f + self.sp0() + '(' + ','.join(args) + ')'

    def safe_arg(self):
        """An argument whose pasting with an identifier character on its left and a digit on its right is a token."""
        s = self.s
        return s.choice(['', ' ']) + s.choice(['x', '1', 'O0', 'F1', 'O', 'F', 'v_', '', '', '0', 'O1', 'y']) + s.choice(['', ' '])

    def sp0(self):
        return ' ' if self.s.p(20) else ''

    def arg(self, depth, params, inbody):
        s = self.s
        if s.p(12):
            return s.choice(['', ' '])
        return self.seq(s.r(1, 3), depth, params, inbody, arg=True)

    def seq(self, n, depth, params=(), inbody=False, arg=False):
        """Token sequence; balanced parentheses, no top-level commas in arguments."""
        s = self.s
        out = []
        for _ in range(n):
            c = s.weighted([(40, 'plain'), (25 if params else 0, 'param'), (20, 'name'), (15 if depth > 0 else 0, 'inv'),
                            (6 if depth > 0 else 0, 'paren'), (3 if not arg else 0, 'comma'), (4, 'bare')])
            if c == 'plain':
                t = self.plain()
            elif c == 'param':
                t = s.choice(params)
            elif c == 'name':
                t = 'O%d' % s.i(self.k['objs'])
            elif c == 'bare':
                t = 'F%d' % s.i(self.k['funs'])
            elif c == 'inv':
                t = self.invocation(depth, params, inbody)
            elif c == 'paren':
                t = '(' + self.seq(s.r(1, 3), depth - 1, params, inbody) + ')'
            else:
                t = ','
            out.append(t)
            if s.p(self.k['multiline']) and not inbody and depth < self.k['depth']:
                out.append('\n')
            else:
                out.append(self.sp(inbody))
        return self.join(out)

    def join(self, parts):
        """Concatenate, keeping adjacent tokens apart where gluing would change them."""
        r = ''
        for p in parts:
            if r and p and not p[0].isspace() and not r[-1].isspace() and not self.safe(r, p):
                r += ' '
            r += p
        return r

    @staticmethod
    def safe(r, p):
        a, b = r[-1], p[0]
        if (a.isalnum() or a in '_.$') and (b.isalnum() or b in '_."\'+-'):
            return False
        if not a.isalnum() and not b.isalnum() and a not in ')(,;]}{[\'"' and b not in ')(,;]}{[\'"':
            return False
        if r.endswith('/') and b in '*/':
            return False
        return True

    def define(self):
        s = self.s
        nm = self.name()
        if nm in self.macros and not s.p(0):
            self.lines.append('#undef ' + nm)
        if nm[0] == 'O':
            body = self.body((), None)
            self.macros[nm] = None
            self.lines.append('#%sdefine %s %s' % (s.choice(['', '', ' ']), nm, body))
            return
        ps, va = self.arity[nm]
        self.macros[nm] = (ps, va)
        body = self.body(ps, va)
        pl = ps + ([] if va is None else ['...'] if va == '__VA_ARGS__' else ['r...'])
        sep = s.choice([',', ', '])
        self.lines.append('#define %s(%s) %s' % (nm, sep.join(pl), body))

    def body(self, ps, va):
        s = self.s
        params = list(ps) + ([va] if va else [])
        out = []
        for _ in range(s.choice([1, 2, 3, 4, 6, 0])):
            if params and s.p(self.k['strz']):
                out += ['#' + s.choice(['', ' ']) + s.choice(params), ' ']
            elif s.p(self.k['concat']):
                out += [self.concat(ps), ' ']
            else:
                out += [self.seq(1, 2, params, True), self.sp(True)]
        return self.join(out).strip()

    def concat(self, ps):
        """a ## b forming a valid token."""
        s = self.s
        sep = s.choice([' ## ', '##', '## ', ' ##'])
        ps = [p for p in ps if p in 'pq']
        if ps and s.p(80):
            l = s.choice(ps + ['x', 'F', 'O', 'v_'])
            r = s.choice(ps + ['1', '0', 'y', '2']) if not l in ps else s.choice(ps + ['1', '0', '2'])
            t = l + sep + r
            if s.p(15):
                t += sep + s.choice(ps + ['3'])
            return t
        return s.choice(['x' + sep + 'y', 'O' + sep + '1', 'F' + sep + '0', '<' + sep + '<', '+' + sep + '+', '-' + sep + '>', '1' + sep + '2',
                         'L' + sep + "'a'", '&' + sep + '&', 'e' + sep + '1', '=' + sep + '=', '1' + sep + '.5', '.' + sep + '5'])

    def gnu(self):
        """GNU comma deletion and __VA_OPT__, called with plain arguments only."""
        s = self.s
        g = 'G%d' % s.i(2)
        n = s.r(1, 2)
        ps = ['a', 'b'][:n]
        va = s.choice(['__VA_ARGS__', 'r'])
        self.lines.append('#undef ' + g)
        if s.p(60):
            t = ' , ## ' + va
        else:
            va = '__VA_ARGS__'
            t = ' __VA_OPT__(' + s.choice([',', '+', ', y ,', 'x']) + ') ' + va
        self.lines.append('#define %s(%s, %s) %s%s %s' % (g, ', '.join(ps), '...' if va == '__VA_ARGS__' else 'r...',
                                                         s.choice(['f(a', 'b(a', '{ # a', '[ a b', 'x']), t, s.choice([')', '}', ''])))
        for _ in range(s.r(1, 3)):
            self.n += 1
            args = [s.choice(['p', 'q r', '1', '(s, t)', '', '"s"']) for _ in range(n)]
            args += [s.choice(['p', 'q r', '(1, 2)', '+', '"s"', 'u']) for _ in range(s.i(4))]
            self.lines.append('__mk%d %s(%s)' % (self.n, g, ', '.join(args)))

    def program(self):
        s = self.s
        if s.p(self.k['gnu'] * 2):
            self.gnu()
        for _ in range(s.r(4, 9)):
            self.define()
        for _ in range(s.r(*self.k['uses'])):
            if s.p(self.k['undef']):
                self.define()
            self.n += 1
            self.lines.append('__mk%d %s' % (self.n, self.seq(s.r(1, 4), self.k['depth'])))
        return '\n'.join(self.lines) + '\n'
