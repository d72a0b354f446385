"""Generator and model of programs in several modules: what the linker must make of them."""

M64 = (1 << 64) - 1
SZ = {'u64': 8, 'u32': 4, 'u16': 2, 'u8': 1, 'p': 8}
CT = {'u64': 'unsigned long', 'u32': 'unsigned int', 'u16': 'unsigned short', 'u8': 'unsigned char', 'p': 'void *'}
FSZ = 4   # least distance of two functions
CS = 10   # ctor log


class LinkError(Exception):
    pass


class Bad(Exception):
    pass


# ---------------------------------------------------------------- generation
def gen_case(s, only_c=False):
    """only_c: C modules, without weak or common objects"""
    nm = s.weighted([(6, s.rng_(1, 4)), (3, s.rng_(3, 8)), (1, s.rng_(6, 14))])
    nar = s.weighted([(4, 0), (4, 1), (2, 2), (1, 3)])
    pool = []
    style = s.i(5)

    def fresh(kind):
        k = len(pool)
        n = ['%s%d' % (kind, k), 'x%d' % k, '%s_%s' % ('long_name_' * s.rng_(1, 6), k), 'a' * (k + 1), '_%s%d_' % (kind, k * 7)][style]
        pool.append(n)
        return n
    mods = []
    places = []
    for i in range(nm):
        places.append(['a', s.i(nar)] if nar and s.p(55) else ['o'])
    statics_f = ['sf%d' % k for k in range(3)]
    statics_o = ['so%d' % k for k in range(3)]
    gf, go = [], []          # (name) of globals so far, any module may refer to any
    weakf, weako, commons = [], [], []
    for i in range(nm):
        kind = 'c' if only_c else s.weighted([(5, 'c'), (4, 's')])
        m = dict(kind=kind, place=places[i], objs=[], funcs=[], ctors=[], dtors=[], tail=0)
        mods.append(m)
        inar = places[i][0] == 'a'
        for _ in range(s.rng_(0, 5)):
            b = s.weighted([(6, 'g'), (3, 's')] if only_c else [(6, 'g'), (3, 's'), (1, 'w'), (1, 'c')])
            if kind == 'c' and b == 'w':
                b = 'g'
            if b == 'c' and inar:
                b = 'g'
            ty = s.choice(['u64', 'u32', 'p', 'u8', 'u16'])
            sec = s.weighted([(4, 'data'), (3, 'bss'), (3, 'ro')])
            if b == 's':
                nmx = s.choice(statics_o)
                if any(o['name'] == nmx for o in m['objs']):
                    continue
            elif b == 'w':
                cand = [w for w in weako if w['name'] not in [o['name'] for o in m['objs']] and (not inar or not w['ar'])]
                if cand and s.p(60):
                    w = s.choice(cand)
                    nmx, ty, n = w['name'], w['ty'], w['n']
                    b = 'w' if w['strong'] or s.p(60) else 'g'
                    if b == 'g':
                        w['strong'] = True
                else:
                    nmx = fresh('w')
                    w = dict(name=nmx, ty=ty, n=s.rng_(1, 4), ar=False, strong=False)
                    weako.append(w)
                    n = w['n']
                w['ar'] = w['ar'] or inar
            elif b == 'c':
                cand = [c for c in commons if c['name'] not in [o['name'] for o in m['objs']]]
                if cand and s.p(70):
                    c = s.choice(cand)
                    nmx, ty, n = c['name'], c['ty'], c['n']
                    sec = 'com'
                    if not c['def'] and s.p(30):
                        c['def'] = True
                        sec = s.choice(['data', 'bss']) if kind == 's' else 'data'
                        b = 'g'
                else:
                    nmx = fresh('c')
                    c = dict(name=nmx, ty=ty, n=s.rng_(1, 5), **{'def': False})
                    commons.append(c)
                    n = c['n']
                    sec = 'com'
            else:
                nmx = fresh('o')
                go.append(nmx)
            if b not in 'wc' and not (b == 'g' and nmx in [w['name'] for w in weako] + [c['name'] for c in commons]):
                n = s.weighted([(6, s.rng_(1, 5)), (2, s.rng_(6, 40)), (1, s.choice([500, 1000, 4096, 9000]))])
            if sec == 'com':
                b = 'c'
            o = dict(name=nmx, bind=b, sec=sec, ty=ty, n=n, init=None,
                     align=s.weighted([(5, SZ[ty]), (2, s.choice([8, 16, 32, 64])), (1, s.choice([128, 256, 1024, 4096]))]) if kind == 's' else SZ[ty])
            o['align'] = max(o['align'], SZ[ty])
            m['objs'].append(o)
        for _ in range(s.rng_(0, 4)):
            b = s.weighted([(6, 'g'), (3, 's'), (2, 'w')])
            if b == 's':
                nmx = s.choice(statics_f)
                if any(f['name'] == nmx for f in m['funcs']):
                    continue
            elif b == 'w':
                cand = [w for w in weakf if w['name'] not in [f['name'] for f in m['funcs']] and (not inar or not w['ar'])]
                if cand and s.p(60):
                    w = s.choice(cand)
                    nmx = w['name']
                    b = 'w' if w['strong'] or s.p(60) else 'g'
                    if b == 'g':
                        w['strong'] = True
                else:
                    nmx = fresh('w')
                    w = dict(name=nmx, ar=False, strong=False)
                    weakf.append(w)
                w['ar'] = w['ar'] or inar
            else:
                nmx = fresh('f')
                gf.append(nmx)
            m['funcs'].append(dict(name=nmx, bind=b, K=s.rng_(1, 99), C=s.rng_(0, 999), reads=[], calls=[], pad=s.weighted([(12, 0), (1, s.choice([100, 1000, 4000]))])))
        if s.p(30):
            m['tail'] = s.i(8)
    # ranks keep the calls acyclic: a function refers only to names of a higher rank
    rank = {}
    allg = gf + [w['name'] for w in weakf]
    for n in allg:
        rank[n] = s.i(60)
    gobj = {}
    for m in mods:
        for o in m['objs']:
            if o['bind'] != 's':
                gobj.setdefault(o['name'], o)
    allo = list(gobj)
    home = {}
    for i, m in enumerate(mods):
        for x in m['objs'] + m['funcs']:
            if x['bind'] != 's':
                home.setdefault(x['name'], i)

    def okref(i, name):
        """archives are searched once, in order: mostly refer to what is found"""
        return True

    for i, m in enumerate(mods):
        lo = {o['name']: o for o in m['objs']}
        for o in m['objs']:
            if o['sec'] in ('bss', 'com'):
                continue
            init = []
            for k in range(o['n']):
                if k >= 12 and k % 97:
                    init.append(None if o['ty'] == 'p' else 0)
                elif o['ty'] == 'p':
                    init.append(gen_ptr(s, m, lo, gobj, allo, allg))
                else:
                    v = s.i(1 << (8 * SZ[o['ty']] - 1)) if s.p(50) else s.rng_(0, 120)
                    init.append(v)
            o['init'] = init
        lf = {}
        nst = [f for f in m['funcs'] if f['bind'] == 's']
        for k, f in enumerate(nst):
            lf[f['name']] = 60 + k * 2
        for f in m['funcs']:
            r = lf.get(f['name'], rank.get(f['name'], 0))
            objs = list(lo) * 2 + allo
            for _ in range(s.rng_(0, 3)):
                if not objs:
                    break
                on = s.choice(objs)
                ob = lo.get(on) or gobj[on]
                k = s.i(min(ob['n'], 12)) if s.p(80) else ob['n'] - 1
                if ob['ty'] == 'p':
                    f['reads'].append(['deref', on, k])
                else:
                    f['reads'].append(['read', on, k])
            fs = [x for x in lf if lf[x] > r] * 2 + [x for x in allg if rank[x] > r]
            for _ in range(s.rng_(0, 2)):
                if fs:
                    f['calls'].append([s.choice(fs), s.rng_(0, 9), s.p(20)])
        if s.p(25):
            m['ctors'] = [CS * (i + 1) + k for k in range(s.rng_(1, 2))]
        if s.p(20):
            m['dtors'] = [CS * (i + 1) + 5 + k for k in range(1)]
    # main
    ev = []
    for _ in range(s.rng_(2, 20)):
        k = s.i(6)
        if k in (0, 1) and allg:
            ev.append(['f', s.choice(allg), s.rng_(0, 50)])
        elif k in (2, 3) and allo:
            n = s.choice(allo)
            o = gobj[n]
            if o['ty'] == 'p':
                ev.append(['pd', n, s.i(min(o['n'], 12))])
            else:
                ev.append(['o', n, s.i(o['n'])])
        elif k == 4 and allo:
            n = s.choice(allo)
            o = gobj[n]
            if o['ty'] != 'p' and all(x['sec'] != 'ro' for m in mods for x in m['objs'] if x['name'] == n and x['bind'] != 's'):
                ev.append(['w', n, s.i(o['n']), s.i(256)])
        elif allo or allg:
            ev.append(['a', s.choice(allo + allg)])
    # command line: order of files
    objs = [['o', i] for i in range(nm) if places[i][0] == 'o']
    order = []
    for o in objs:
        order.insert(s.i(len(order) + 1), o)
    order.insert(s.i(len(order) + 1), ['main'])
    order.insert(s.i(len(order) + 1), ['start'])
    for k in range(nar):
        pos = len(order) if s.p(85) else s.rng_(0, len(order))
        order.insert(pos, ['a', k, s.p(30)])
    if nar and s.p(8):
        order.append(['a', s.i(nar), False])
    fault = None
    if s.p(10) and nm:
        fault = [s.choice(['undef-f', 'undef-o', 'dup-f', 'dup-o']), s.i(nm), s.choice(allg + allo) if allg + allo else 'nothing']
    arorder = [s.i(1000) for _ in range(nm)]
    case = dict(mods=mods, ev=ev, order=order, entry=s.choice(['_start', 'begin', 'other_entry', '_start2']), fault=fault, arorder=arorder,
                map=s.p(40), explicit_entry=s.p(50), commonflag=s.p(60))
    apply_fault(case)
    return case


def gen_ptr(s, m, lo, gobj, allo, allg):
    k = s.i(10)
    names = list(lo) * 2 + allo
    if k == 0 or not (names or allg):
        return None
    if k <= 2 and allg:
        return ['f', s.choice(allg)]
    if not names:
        return None
    n = s.choice(names)
    o = lo.get(n) or gobj[n]
    e = s.i(min(o['n'], 20)) if s.p(80) else o['n'] - 1
    return ['o', n, e * SZ[o['ty']]]


def apply_fault(case):
    f = case['fault']
    if not f:
        return
    kind, i, name = f
    m = case['mods'][i]
    if kind == 'undef-f':
        m['funcs'].append(dict(name='zz_caller', bind='g', K=3, C=1, reads=[], calls=[['zz_missing', 1, False]], pad=0))
    elif kind == 'undef-o':
        m['objs'].append(dict(name='zz_ptr', bind='g', sec='data', ty='p', n=1, init=[['x', 'zz_missing_obj', 8]], align=8))
    elif kind == 'dup-f':
        if not any(x['name'] == name for x in m['funcs'] + m['objs']) and is_func(case, name):
            m['funcs'].append(dict(name=name, bind='g', K=3, C=1, reads=[], calls=[], pad=0))
    elif kind == 'dup-o':
        o = [o for mm in case['mods'] for o in mm['objs'] if o['name'] == name and o['bind'] != 's']
        if o and not any(x['name'] == name for x in m['funcs'] + m['objs']):
            m['objs'].append(dict(name=name, bind='g', sec='data', ty=o[0]['ty'], n=o[0]['n'], init=[0 if o[0]['ty'] != 'p' else None] * o[0]['n'], align=8))


def is_func(case, name):
    return any(f['name'] == name and f['bind'] != 's' for m in case['mods'] for f in m['funcs'])


# ---------------------------------------------------------------- the linker's model
def undefined(m, used=False):
    """names a module needs from elsewhere; `used`: without what only unused static functions and objects refer to"""
    have = {x['name']: x for x in m['objs'] + m['funcs']}
    r = set()
    todo = [n for n, x in have.items() if not (used and m['kind'] == 'c' and x['bind'] == 's')]
    seen = set(todo)
    while todo:
        x = have[todo.pop()]
        if 'calls' in x:
            ns = {n for _, n, _ in x['reads']} | {n for n, _, _ in x['calls']}
        else:
            ns = {p[1] for p in x['init'] or () if isinstance(p, list)}
        for n in ns:
            if n not in have:
                r.add(n)
            elif n not in seen:
                seen.add(n)
                todo.append(n)
    if m['ctors'] or m['dtors']:
        r.add('ctor_log')
    return r


def main_undefined(case):
    return {e[1] for e in case['ev']}


def ar_members(case, k):
    """module indices in the order the archive was made"""
    ms = [i for i, m in enumerate(case['mods']) if m['place'] == ['a', k]]
    return sorted(ms, key=lambda i: (case['arorder'][i], i))


def strength(x):
    return {'g': 2, 'w': 1, 'c': 1}[x['bind']]


def link(case, last=False, used=False):
    """-> (loaded: list of groups of module indices in order, defs: name -> module index); LinkError with the names"""
    mods = case['mods']
    defs = {'ctor_log': (-1, 2), 'main_': (-1, 2), 'out': (-1, 2)}
    undef = {n: 1 for n in case.get('exports', ())}      # the linker is asked for these from the start
    loaded = []
    dup = set()
    done = set()

    def add(i):
        if i in done:
            raise Bad('loaded twice')
        done.add(i)
        m = mods[i]
        for x in m['objs'] + m['funcs']:
            if x['bind'] == 's':
                continue
            n = x['name']
            undef.pop(n, None)
            if n in defs:
                a, b = defs[n][1], strength(x)
                if a == 2 and b == 2:
                    dup.add(n)
                elif b > a:
                    defs[n] = (i, b)
            else:
                defs[n] = (i, strength(x))
        for n in undefined(m, used):
            if n not in defs:
                undef[n] = 1

    for it in case['order']:
        if it[0] == 'o':
            add(it[1])
            loaded.append([it[1]])
        elif it[0] == 'main':
            for n in main_undefined(case):
                if n not in defs:
                    undef[n] = 1
        elif it[0] == 'a':
            g = []
            ms = ar_members(case, it[1])
            index = {}
            for i in ms:
                for x in mods[i]['objs'] + mods[i]['funcs']:
                    if x['bind'] in 'gw':
                        index.setdefault(x['name'], i)
            while True:
                c = [index[n] for n in undef if n in index and index[n] not in done]
                if not c:
                    break
                k = c[-1 if last else 0]
                add(k)
                g.append(k)
            loaded.append(g)
    if dup or undef:
        raise LinkError(sorted(dup), sorted(undef))
    return loaded, {n: v[0] for n, v in defs.items()}


def resolve(case):
    """link(), when what it gives does not depend on the order in which an archive's members are loaded"""
    def one(last, used=False):
        try:
            l, d = link(case, last, used)
            return 'ok', [sorted(g) for g in l], d
        except LinkError as e:
            return 'error', e.args[0], e.args[1]
    a, b = one(False), one(True)
    if a[0] != b[0] or (a[0] == 'ok' and a != b):
        raise Bad('depends on the order of archive members')
    if one(False, True) != a:
        raise Bad('depends on unused statics')
    return link(case)


# ---------------------------------------------------------------- evaluation
class Eval:
    def __init__(self, case):
        self.case = case
        self.loaded, self.defs = resolve(case)
        self.mem = {}
        self.steps = 0
        for g in self.loaded:
            for i in g:
                for o in case['mods'][i]['objs']:
                    v = o['init'] if o['init'] is not None else [0 if o['ty'] != 'p' else None] * o['n']
                    self.mem[(i, o['name'])] = (o, list(v))

    def where(self, i, name):
        """the definition `name` means in module i"""
        if i >= 0:
            for x in self.case['mods'][i]['objs'] + self.case['mods'][i]['funcs']:
                if x['name'] == name and x['bind'] == 's':
                    return i
        return self.defs[name]

    def obj(self, i, name):
        w = self.where(i, name)
        return (w, name)

    def read(self, key, k):
        return self.mem[key][1][k]

    def deref(self, key, k):
        """what main makes of a pointer"""
        p = self.read(key, k)
        if p is None:
            return 77
        if p[0] == 'f':
            return self.call(self.where(key[0], p[1]), p[1], 7)
        return self.pointee(key, k)

    def pointee(self, key, k):
        """what a function makes of a pointer: it calls nothing"""
        p = self.read(key, k)
        if p is None or p[0] == 'f':
            return 99
        t = self.obj(key[0], p[1])
        o = self.mem[t][0]
        return 88 if o['ty'] == 'p' else self.read(t, p[2] // SZ[o['ty']])

    def call(self, i, name, x):
        self.steps += 1
        if self.steps > 20000:
            raise Bad('too long')
        f = [f for f in self.case['mods'][i]['funcs'] if f['name'] == name][0]
        r = (x * f['K'] + f['C']) & M64
        for kind, n, k in f['reads']:
            key = self.obj(i, n)
            v = self.read(key, k) if kind == 'read' else self.pointee(key, k)
            r = (r * 3 + v) & M64
        for n, a, via in f['calls']:
            r = (r * 5 + self.call(self.where(i, n), n, (x + a) & M64)) & M64
        return r

    def expect(self):
        """lines the program prints; A/P lines carry what is known about the address"""
        case = self.case
        out = []
        ctors = [[case['mods'][i]['ctors'] for i in g] for g in self.loaded]
        dtors = [[case['mods'][i]['dtors'] for i in g] for g in self.loaded]
        for e in case['ev']:
            if e[0] == 'f':
                out.append(['V', self.call(self.where(-1, e[1]), e[1], e[2])])
            elif e[0] == 'o':
                out.append(['V', self.read(self.obj(-1, e[1]), e[2])])
            elif e[0] == 'w':
                key = self.obj(-1, e[1])
                self.mem[key][1][e[2]] = e[3]
                out.append(['V', e[3]])
            elif e[0] == 'pd':
                key = self.obj(-1, e[1])
                p = self.read(key, e[2])
                out.append(['P', None if p is None else (self.where(key[0], p[1]), p[1], 0 if p[0] == 'f' else p[2])])
                out.append(['V', self.deref(key, e[2])])
            elif e[0] == 'a':
                out.append(['A', (self.defs[e[1]], e[1])])
        return ctors, dtors, out


# ---------------------------------------------------------------- rendering
class View:
    """what the text of a module assumes about the objects it refers to"""

    def __init__(self, case):
        self.case = case
        try:
            self.ev = Eval(case)
        except (LinkError, Bad):
            self.ev = None

    def obj(self, i, name):
        """-> (defining module, object)"""
        ms = self.case['mods']
        if i >= 0:
            for o in ms[i]['objs']:
                if o['name'] == name and o['bind'] == 's':
                    return i, o
        if self.ev:
            d = self.ev.defs.get(name)
            if d is not None and d >= 0:
                for o in ms[d]['objs']:
                    if o['name'] == name:
                        return d, o
        for k, m in enumerate(ms):
            for o in m['objs']:
                if o['name'] == name and o['bind'] != 's':
                    return k, o
        return None, None

    def pointee(self, i, name, k):
        """type of what element k of pointer array `name` points to, or None"""
        d, o = self.obj(i, name)
        if o is None or o['init'] is None:
            return 'null'
        p = o['init'][k]
        if p is None:
            return 'null'
        if p[0] == 'f':
            return 'f'
        t = self.obj(d, p[1])[1]
        return t['ty'] if t else 'null'


def render_c(case, i, view):
    m = case['mods'][i]
    t = ['typedef unsigned long u64;']
    funcs = {f['name']: f for f in m['funcs']}
    objs = {o['name']: o for o in m['objs']}
    has_common = any(o['bind'] == 'c' for o in m['objs'])
    ext = sorted(undefined(m))
    for n in ext:
        if n == 'ctor_log':
            t.append('void ctor_log(int);')
        elif n in ('zz_missing',) or is_func(case, n):
            t.append('u64 %s(u64);' % n)
        else:
            o = view.obj(i, n)[1]
            t.append('extern %s %s[];' % (CT[o['ty']] if o else 'unsigned char', n))
    for f in m['funcs']:
        t.append('%su64 %s(u64)%s;' % ('static ' if f['bind'] == 's' else '', f['name'], ''))
    for o in m['objs']:
        c = o['sec'] == 'ro'
        ty = ('void *const ' if o['ty'] == 'p' else 'const ' + CT[o['ty']] + ' ') if c else CT[o['ty']] + ' '
        t.append('%s%s%s[%d];' % ('static ' if o['bind'] == 's' else 'extern ', ty, o['name'], o['n']))
    for o in m['objs']:
        c = o['sec'] == 'ro'
        ty = ('void *const ' if o['ty'] == 'p' else 'const ' + CT[o['ty']] + ' ') if c else CT[o['ty']] + ' '
        d = '%s%s%s[%d]' % ('static ' if o['bind'] == 's' else '', ty, o['name'], o['n'])
        if o['init'] is None:
            t.append(d + (' = {0};' if has_common and o['bind'] == 'g' else ';'))
            continue
        v = []
        for x in o['init']:
            if x is None:
                v.append('0')
            elif isinstance(x, list):
                v.append('(void*)%s' % x[1] if x[0] == 'f' else '(char*)%s + %d' % (x[1], x[2]) if x[2] else '(void*)%s' % x[1])
            else:
                v.append('%dUL' % x if o['ty'] == 'u64' else '%d' % x)
        while len(v) > 1 and v[-1] == '0':
            v.pop()
        t.append('%s = {%s};' % (d, ', '.join(v)))
    if m['tail']:
        t.append('char tail_%d[%d] = {1};' % (i, m['tail']))
    for f in m['funcs']:
        pre = 'static ' if f['bind'] == 's' else '__attribute__((weak)) ' if f['bind'] == 'w' else ''
        t.append('%su64 %s(u64 x) {\n  u64 r = x * %d + %d;' % (pre, f['name'], f['K'], f['C']))
        for kind, n, k in f['reads']:
            if kind == 'read' and f['C'] % 3 == 0 and n not in objs and view.obj(i, n)[1]:
                # declared again in the block
                t.append('  { extern %s %s[]; r = r * 3 + %s[%d]; }' % (CT[view.obj(i, n)[1]['ty']], n, n, k))
            elif kind == 'read':
                t.append('  r = r * 3 + %s[%d];' % (n, k))
            else:
                w = view.pointee(i, n, k)
                # refer to the object in any case: which statics are used must not depend on what they hold
                e = '%d + (%s[%d] == (void*)-1L)' % (88 if w == 'p' else 99, n, k) if w in ('null', 'f', 'p') else '*(%s*)%s[%d]' % (CT[w], n, k)
                t.append('  r = r * 3 + %s;' % e)
        for n, a, via in f['calls']:
            if via:
                t.append('  { u64 (*p)(u64) = %s; r = r * 5 + p(x + %d); }' % (n, a))
            elif f['C'] % 4 == 1 and n not in funcs:
                t.append('  { %su64 %s(u64); r = r * 5 + %s(x + %d); }' % ('extern ' if a & 1 else '', n, n, a))
            else:
                t.append('  r = r * 5 + %s(x + %d);' % (n, a))
        t.append('  return r;\n}')
    for c in m['ctors']:
        t.append('__attribute__((constructor)) static void ctor%d(void) { ctor_log(%d); }' % (c, c))
    for c in m['dtors']:
        t.append('__attribute__((destructor)) static void dtor%d(void) { ctor_log(%d); }' % (c, c))
    return '\n'.join(t) + '\n'


def render_s(case, i, view):
    m = case['mods'][i]
    t = []
    dirs = {8: '.quad', 4: '.long', 2: '.short', 1: '.byte'}
    for o in m['objs']:
        n = o['name']
        sz = SZ[o['ty']]
        if o['bind'] == 'c':
            t += ['\t.globl %s' % n, '\t.comm %s, %d, %d' % (n, sz * o['n'], o['align'])]
            continue
        t.append({'data': '\t.data', 'bss': '\t.bss', 'ro': '\t.section .rodata'}[o['sec']])
        t.append('\t%s %s' % ({'g': '.globl', 's': '.local', 'w': '.weak'}[o['bind']], n))
        t.append('\t.type %s, @object' % n)
        t.append('\t.p2align %d' % (o['align'].bit_length() - 1))
        t.append(n + ':')
        if o['init'] is None:
            t.append('\t.zero %d' % (sz * o['n']))
            continue
        zeros = 0
        for x in list(o['init']) + ['end']:
            if x is None or x == 0:
                zeros += sz
                continue
            if zeros:
                t.append('\t.zero %d' % zeros)
                zeros = 0
            if x == 'end':
                break
            if isinstance(x, list):
                t.append('\t.quad %s%s' % (x[1], ' + %d' % x[2] if x[0] != 'f' and x[2] else ''))
            else:
                t.append('\t%s %d' % (dirs[sz], x))
    if m['tail']:
        for sec in ('.data', '.section .rodata', '.text'):
            t.append('\t' + sec)
            t += ['\t.byte %d' % (k + 1) for k in range(m['tail'])]
    t.append('\t.text')
    for f in m['funcs']:
        n = f['name']
        t.append('\t%s %s' % ({'g': '.globl', 's': '.local', 'w': '.weak'}[f['bind']], n))
        t.append('\t.type %s, @function' % n)
        t.append(n + ':')
        t += ['\tpush %rbx', '\tpush %r12', '\tmov %rdi, %r12', '\tmov $%d, %%rax' % f['K'], '\tmul %rdi', '\tmov $%d, %%rcx' % f['C'], '\tadd %rcx, %rax']
        for kind, o, k in f['reads']:
            ob = view.obj(i, o)[1]
            t.append('\tlea (%rax,%rax,2), %rax')
            if kind == 'read':
                off = k * SZ[ob['ty']]
                src = '%s%s(%%rip)' % (o, '+%d' % off if off else '')
                t += load(ob['ty'], src)
            else:
                w = view.pointee(i, o, k)
                off = k * 8
                t.append('\tmov %s%s(%%rip), %%rdx' % (o, '+%d' % off if off else ''))
                if w in ('null', 'f', 'p'):
                    t.append('\tmov $%d, %%ecx' % (88 if w == 'p' else 99))
                else:
                    t += load(w, '(%rdx)')
            t.append('\tadd %rcx, %rax')
        for g, a, via in f['calls']:
            t += ['\tmov %rax, %rbx', '\tlea %d(%%r12), %%rdi' % a]
            t += ['\tlea %s(%%rip), %%rax' % g, '\tcall *%rax'] if via else ['\tcall %s' % g]
            t += ['\tlea (%rbx,%rbx,4), %rbx', '\tadd %rbx, %rax']
        t += ['\tpop %r12', '\tpop %rbx', '\tret']
        if f['pad']:
            t.append('\t.zero %d' % f['pad'])
    for what, l in (('ctor', m['ctors']), ('dtor', m['dtors'])):
        for c in l:
            t += ['\t.text', '%s%d:' % (what, c), '\tmov $%d, %%edi' % c, '\tsub $8, %rsp', '\tcall ctor_log', '\tadd $8, %rsp', '\tret']
        if l:
            t += ['\t.section .%s_array' % ('init' if what == 'ctor' else 'fini'), '\t.p2align 3'] + ['\t.quad %s%d' % (what, c) for c in l]
    return '\n'.join(t) + '\n'


def load(ty, src):
    if ty in ('u64', 'p'):
        return ['\tmov %s, %%rcx' % src]
    if ty == 'u32':
        return ['\tmov %s, %%ecx' % src]
    return ['\txor %ecx, %ecx', '\tmov %s, %s' % (src, '%cx' if ty == 'u16' else '%cl')]


def render_main(case, view):
    t = ['typedef unsigned long u64;', 'long sys_write(int, const char*, long);']
    for n in sorted(main_undefined(case)):
        if is_func(case, n):
            t.append('u64 %s(u64);' % n)
        else:
            o = view.obj(-1, n)[1]
            t.append('extern %s %s[];' % (CT[o['ty']], n))
    t.append('static char buf[20000]; static int len;\nstatic int nlog; static int logs[400];')
    t.append('void ctor_log(int x) { logs[nlog++] = x; }')
    t.append("""void out(int tag, u64 v) {
  buf[len++] = tag; buf[len++] = ' ';
  for (int k = 60; k >= 0; k -= 4) buf[len++] = "0123456789abcdef"[(v >> k) & 15];
  buf[len++] = 10;
}
static void logs_out(int tag) { for (int k = 0; k < nlog; ++k) out(tag, logs[k]); nlog = 0; }
void main_(int entry) {
  out('E', entry);
  logs_out('I');""")
    for e in case['ev']:
        if e[0] == 'f':
            t.append("  out('V', %s(%d));" % (e[1], e[2]))
        elif e[0] == 'o':
            t.append("  out('V', %s[%d]);" % (e[1], e[2]))
        elif e[0] == 'w':
            t.append("  %s[%d] = %d; out('V', %s[%d]);" % (e[1], e[2], e[3], e[1], e[2]))
        elif e[0] == 'a':
            t.append("  out('A', (u64)%s);" % e[1])
        elif e[0] == 'pd':
            w = view.pointee(-1, e[1], e[2])
            x = '%s[%d]' % (e[1], e[2])
            t.append("  out('P', (u64)%s);" % x)
            v = '77' if w == 'null' else '88' if w == 'p' else '((u64(*)(u64))%s)(7)' % x if w == 'f' else '*(%s*)%s' % (CT[w], x)
            t.append("  out('V', %s);" % v)
    t.append("}\nvoid finish_(void) { logs_out('D'); sys_write(1, buf, len); }")
    return '\n'.join(t) + '\n'


ENTRIES = ['_start', 'begin', 'other_entry', '_start2']
START = '\t.text\n' + ''.join('\t.globl %s\n%s:\n\tmov $%d, %%edi\n\tjmp .Lcommon\n' % (e, e, k) for k, e in enumerate(ENTRIES)) + """
.Lcommon:
	mov %rdi, %r15
	and $-16, %rsp
	lea __init_array_start(%rip), %rbx
	lea __init_array_end(%rip), %r12
.L1:
	cmp %r12, %rbx
	jae .L2
	mov (%rbx), %rax
	call *%rax
	add $8, %rbx
	jmp .L1
.L2:
	mov %r15, %rdi
	call main_
	lea __fini_array_start(%rip), %rbx
	lea __fini_array_end(%rip), %r12
.L3:
	cmp %r12, %rbx
	jae .L4
	mov (%rbx), %rax
	call *%rax
	add $8, %rbx
	jmp .L3
.L4:
	call finish_
	xor %edi, %edi
	mov $60, %eax
	syscall
	.globl sys_write
sys_write:
	mov $1, %eax
	syscall
	ret
"""
