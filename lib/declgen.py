"""Random type declarations and initializers.

Types:  ('s', ctype, kind)      scalar; kind i (integer) / f / p (object pointer) / fn / cp (char pointer)
        ('a', elem, n)          array
        ('r', index)            aggregate number `index` of the generator
"""
INTS = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
        'long long', 'unsigned long long']
BITS = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
        'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
NFN = 3
NG = 24


class Agg:
    def __init__(self, union, tag):
        self.union, self.tag, self.mem, self.td, self.fam, self.depth = union, tag, [], None, None, 0
        # mem: (name or None, type, bits or None)

    def spell(self):
        return self.td or '%s %s' % ('union' if self.union else 'struct', self.tag)


class DeclGen:
    def __init__(self, src, long_bits=64, wide=True):
        self.s = src
        self.aggs = []
        self.n = 0
        self.lb = long_bits
        self.out = []
        self.enums = []      # (name, value)
        self.tds = []        # (typedef name, type)
        self.funcs = []
        self.anon_depth = 0

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def width(self, t):
        b = BITS[t]
        return self.lb if t in ('long', 'unsigned long') else b

    # ---- types
    def scalar(self):
        s = self.s
        k = s.weighted([(12, 'i'), (3, 'f'), (2, 'p'), (2, 'cp'), (1, 'fn'), (1 if self.enums else 0, 'e')])
        if k == 'i':
            return ('s', s.choice(INTS), 'i')
        if k == 'f':
            return ('s', s.choice(['double', 'float']), 'f')
        if k == 'p':
            return ('s', s.choice(['void *', 'long *', 'short *', 'const int *', 'double *']), 'p')
        if k == 'cp':
            return ('s', s.choice(['char *', 'const char *']), 'cp')
        if k == 'fn':
            return ('s', 'fn', 'fn')
        return ('s', self.enum_name, 'i')

    def type(self, depth, agg=True):
        s = self.s
        if agg and self.aggs and s.p(30):
            c = [k for k, a in enumerate(self.aggs) if a.depth + depth <= 3 and not a.fam and (a.tag or a.td)]
            if c:
                t = ('r', s.choice(c))
                return ('a', t, s.rng_(1, 3)) if s.p(25) else t
        t = self.scalar()
        if s.p(28):
            if s.p(30) and t[2] == 'i':
                t = ('s', 'char', 'i')
                return ('a', t, s.rng_(1, 9))
            t = ('a', t, s.weighted([(5, s.rng_(1, 4)), (1, s.rng_(4, 20))]))
            if s.p(25):
                t = ('a', t, s.rng_(1, 3))
        return t

    def decl(self, t, name, quals=''):
        """declaration text of `name` with type t"""
        if self.s.p(4) and name.isidentifier():      # redundant parentheses
            name = self.s.choice(['(%s)', '((%s))']) % name
        suffix = ''
        while t[0] == 'a':
            suffix += '[%s]' % (t[2] if t[2] is not None else '')
            t = t[1]
        if t[0] == 'r':
            return '%s%s %s%s' % (quals, self.aggs[t[1]].spell(), name, suffix)
        if t[2] == 'fn':
            return 'int (*%s%s)(int)' % (name, suffix)
        for d, u in self.tds:
            if u == t and self.s.p(50):
                return '%s%s %s%s' % (quals, d, name, suffix)
        if t[1].endswith('*'):
            return '%s%s%s' % (t[1], name, suffix)
        return '%s%s %s%s' % (quals, self.spelling(t[1]), name, suffix)

    def spelling(self, t):
        s = self.s
        if s.p(85):
            return t
        alt = {'short': ['short int', 'signed short', 'int short'], 'unsigned short': ['short unsigned int', 'unsigned short int'],
               'int': ['signed', 'signed int'], 'unsigned int': ['unsigned'], 'long': ['long int', 'signed long', 'long signed int'],
               'unsigned long': ['unsigned long int', 'long unsigned'], 'long long': ['long long int', 'signed long long'],
               'unsigned long long': ['long long unsigned int', 'unsigned long long int']}.get(t)
        return s.choice(alt) if alt else t

    def members(self, a, n, bitp, depth, prefix=''):
        s = self.s
        lines = []
        for _ in range(n):
            if s.p(bitp):
                bt = s.choice(['int', 'unsigned int', 'int', 'unsigned int', 'char', 'unsigned char', 'short', 'unsigned short',
                               'long', 'unsigned long', 'long long', 'unsigned long long', 'signed char'])
                w = self.width(bt)
                if s.p(15):
                    b = 0 if s.p(40) else s.rng_(1, w)
                    lines.append('%s : %d;' % (bt, b))
                    a.mem.append((None, ('s', bt, 'i'), b))
                else:
                    b = s.weighted([(3, s.rng_(1, w)), (3, s.rng_(1, min(w, 9))), (1, w), (1, 1)])
                    m = self.nm('b')
                    lines.append('%s %s : %s;' % (bt, m, b if s.p(85) else '%d + %d' % (b - 1, 1)))
                    a.mem.append((m, ('s', bt, 'i'), b))
            elif depth < 2 and s.p(9):
                b = Agg(s.p(50), '')
                b.depth = 1
                ls = self.members(b, s.rng_(1, 4), bitp // 2, depth + 1)
                self.aggs.append(b)
                k = len(self.aggs) - 1
                kw = 'union' if b.union else 'struct'
                if s.p(70):
                    lines.append('%s { %s };' % (kw, ' '.join(ls)))
                    a.mem.append((None, ('r', k), None))
                    b.tag = None
                else:
                    b.tag = self.nm('N')
                    m = self.nm('m')
                    dim = s.rng_(1, 3) if s.p(30) else 0
                    lines.append('%s %s { %s } %s%s;' % (kw, b.tag, ' '.join(ls), m, '[%d]' % dim if dim else ''))
                    a.mem.append((m, ('a', ('r', k), dim) if dim else ('r', k), None))
                a.depth = max(a.depth, b.depth + 1)
            else:
                t = self.type(depth + 1)
                m = self.nm('m')
                u = t
                while u[0] == 'a':
                    u = u[1]
                if u[0] == 'r':
                    a.depth = max(a.depth, self.aggs[u[1]].depth + 1)
                if t[0] == 's' and t[2] == 'i' and s.p(12):       # several declarators
                    m2, m3 = self.nm('m'), self.nm('m')
                    d = s.rng_(1, 4)
                    lines.append('%s %s, *%s, %s[%d];' % (self.spelling(t[1]), m, m2, m3, d))
                    a.mem += [(m, t, None), (m2, ('s', 'void *', 'p0'), None), (m3, ('a', t, d), None)]
                else:
                    lines.append(self.decl(t, m) + ';')
                    a.mem.append((m, t, None))
        return lines

    def agg(self):
        s = self.s
        a = Agg(s.p(30), self.nm('T'))
        a.depth = 1
        n = s.weighted([(6, s.rng_(1, 5)), (3, s.rng_(4, 10)), (1, s.rng_(9, 24))])
        lines = self.members(a, n, s.choice([10, 30, 50, 70]) if self.bitfields else 0, 0)
        if all(m[0] is None and m[2] is not None for m in a.mem):
            m = self.nm('m')
            lines.append('int %s;' % m)
            a.mem.append((m, ('s', 'int', 'i'), None))
        if not a.union and s.p(7) and self.allow_fam:
            t = self.scalar()
            m = self.nm('x')
            a.fam = (m, t)
            lines.append(self.decl(('a', t, None), m) + ';')
        kw = 'union' if a.union else 'struct'
        body = '{ %s }' % ' '.join(lines)
        k = s.i(5)
        if k == 1:
            a.td = self.nm('D')
            self.out.append('typedef %s %s %s;' % (kw, body, a.td))
        elif k == 2:
            a.td = self.nm('D')
            self.out.append('typedef %s %s %s;\n%s %s %s;' % (kw, a.tag, a.td, kw, a.tag, body))
        else:
            self.out.append('%s %s %s;' % (kw, a.tag, body))
        self.aggs.append(a)
        return len(self.aggs) - 1

    def enum(self):
        s = self.s
        e = self.nm('E')
        self.enum_name = 'enum ' + e
        v = 0
        it = []
        for _ in range(s.rng_(1, 5)):
            c = self.nm('K')
            if s.p(45):
                v = s.choice([0, 1, -1, 7, 100, -5, 255, 65536, 2147483000, s.rng_(-500, 500)])
                r = '%d' % v
                if self.enums and s.p(30):
                    n0, v0 = s.choice(self.enums)
                    d = s.rng_(0, 9)
                    if abs(v0) < 1 << 30:
                        v, r = v0 + d, '%s + %d' % (n0, d)
                it.append('%s = %s' % (c, r))
            else:
                it.append(c)
            self.enums.append((c, v))
            v += 1
        self.out.append('enum %s { %s };' % (e, ', '.join(it) + (',' if s.p(30) else '')))

    allow_fam = True
    bitfields = False
    enum_name = ''

    def preamble(self, n):
        s = self.s
        for _ in range(n):
            k = s.i(10)
            if k == 0:
                self.enum()
            elif k == 1:
                t = self.type(2, agg=False)
                if t[0] == 's' and t[2] != 'fn':
                    d = self.nm('Y')
                    self.out.append('typedef %s;' % (t[1] + d if t[1].endswith('*') else t[1] + ' ' + d))
                    self.tds.append((d, t))
            else:
                self.agg()

    # ---- leaves of a type
    def leaves(self, t, path=''):
        """(access path, scalar type, bits) of every named scalar reachable in t; union: every member"""
        if t[0] == 's':
            return [(path, t, None)]
        if t[0] == 'a':
            out = []
            for k in range(t[2]):
                out += self.leaves(t[1], path + '[%d]' % k)
            return out
        out = []
        a = self.aggs[t[1]]
        for m, u, b in a.mem:
            if m is None:
                if b is None:
                    out += self.leaves(u, path)
            elif b is not None:
                out.append((path + '.' + m, u, b))
            else:
                out += self.leaves(u, path + '.' + m)
        return out
