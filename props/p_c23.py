"""Diagnostics: a translation unit with planted constraint violations is rejected with messages at their lines; without them it is accepted."""
import os
import re

from core import Res, fail, run

ID = 'C23'
N = {'quick': 24000, 'thorough': 100000}
BUILDS = ('native',)
RULE = ('a case is a translation unit of valid declarations, nested statements and a header, with 0-4 planted constraint or syntax violations (200 kinds) at known lines; '
        'non-trivial when a violation is planted, or at least 20 valid look-alike fragments are accepted; evaluations = violations and fragments judged')
ASSUMPTIONS = ['every fragment was classified by gcc -std=c11 -pedantic-errors', 'one violation of a kind after which parsing may stop (syntax) is planted only as the last one']

PRE = '''struct S { int a; double d; int *p; unsigned b : 3; struct T { int x, y; } t; int arr[4]; };
union U { int a; float f; };
enum E { EA, EB = 5, EC };
typedef int Int;
typedef struct S S_t;
extern int gi;
const int gc = 3;
int ga[5];
struct S gs;
int *gp;
double gd;
int fi(int);
void fv(void);
int fva(const char*, ...);
double fd(double, int);
struct Inc;
struct S fs(void);
'''
SIG = 'int fn@(int x, int *p, double d, struct S *s, const int *cp, char ch) {'
LOC = '  int i = 0, j = 1; unsigned u = 2; long l = 3; float f = 4; const int ci = 5; int a[4] = {0}; struct S st = gs; union U un = {1}; int (*fp)(int) = fi; struct T tt = {1, 2};'

# `!!` marks the line at which the violation is to be reported; @ is a number of its own
BAD = '''
i = undeclared@;
undeclared@ = 1;
undeclared@.x = 1;
i = s->nomember@;
i = st.nomember@;
st.t.nomember@ = 1;
i = i.a;
i = i->a;
i = st->a;
i = s.a;
i = *i;
i = *d;
i = gd[1];
i = i[1.5];
i = p[d];
i = fi(1, 2);
i = fi();
fv(1);
i = fp(1, 2);
i = i(1);
i = st(1);
i = fd(1.0);
1 = i;
i + j = 3;
fi(1) = 2;
(i ? i : j) = 3;
a = p;
ci = 3;
++ci;
ci += 2;
*cp = 1;
cp[2]++;
gc = 1;
&i = p;
p = &1;
p = &(i + j);
p = &fi(1);
p = (int*)&st.b;
++1;
(i + j)++;
fi = 0;
a++;
i = st;
st = i;
st = tt;
i = st + 1;
i = st == st;
i = !st;
i = ~d;
i = -p;
i = ~p;
d = d % 2;
d = d << 1;
d = d & 1;
d = d | i;
d = d ^ i;
d %= 2;
d <<= i;
i = p * 2;
p = p + p;
p = 2 - p;
p *= 2;
p = p / 2;
p = p % 2;
p += d;
i = p & 1;
i = p << 1;
i = (int)st;
st = (struct S)i;
i = (struct S)st ? 1 : 2;
if (st) i = 1;
while (st) i = 1;
for (; st;) i = 1;
do i = 1; while (st);
i = st ? 1 : 2;
i = st && 1;
i = 1 || st;
switch (d) { case 1: break; }
switch (p) { case 1: break; }
i = fv();
i = fv() + 1;
i = -fv();
fi(fv());
fva("x", fv());
fva("x", i, *(struct Inc*)p);
if (fv()) i = 1;
return;
return fv();
return st;
struct Inc inc@; (void)&inc@;
i = sizeof(struct Inc);
struct Inc *ip@ = 0; i = ip@->x;
void v@; (void)&v@;
int neg@[-1]; (void)neg@;
goto nolabel@;
break_@: i = 1; break_@: i = 2;
int dup@; long dup@; (void)dup@;
int dupv@ = 1; int dupv@ = 2; (void)dupv@;
switch (i) { case 1: break; case 1: break; }
switch (i) { case EB: break; case 5: break; }
switch (i) { default: break; case 2: break; default: break; }
switch (i) { case i: break; }
switch (i) { case 1.5: break; }
int big@[2] = {1, 2, 3}; (void)big@;
char str@[2] = "abcdef"; (void)str@;
struct T tx@ = {1, 2, 3}; (void)tx@;
struct T td@ = {.nomem = 3}; (void)td@;
int id@[2] = {[5] = 1}; (void)id@;
int idx@[3] = {[-1] = 1}; (void)idx@;
int sc@ = {1, 2}; (void)sc@;
static int si@ = i; (void)si@;
struct { int m; int m; } dm@; (void)&dm@;
struct { int w : 40; } bw@; (void)&bw@;
struct { int z : 0; int q; } ok@; struct { int zz : -1; } bn@; (void)&bn@; (void)&ok@;
struct { int n : 0; } bz@; (void)&bz@;
struct { double bd : 3; } bfd@; (void)&bfd@;
enum { DUPE@, DUPE@ }; i = 0;
enum { NC@ = i }; i = 0;
union S us@; (void)&us@;
enum U eu@ = 0; (void)eu@;
p = &((register int){1}) + fv;
signed unsigned su@ = 0; (void)su@;
long char lc@ = 0; (void)lc@;
short double sd@ = 0; (void)sd@;
float int fl@ = 0; (void)fl@;
sizeof(st.b);
i = _Alignof(struct Inc);
typedef int Ty@; Ty@ = 3;
i = Int;
i = (unknown_t@)3;
unknown_t@ uv@;
i = i +;
i = (i;
i = i);
i = ;
i = 1 2;
i = a[1;
if i) i = 1;
if (i i = 1;
; else i = 2;
for (i = 0; i < 3) i++;
do i = 1; until (i);
do { i = 1; } while (i) j = 2;
case 3: i = 1;
default: i = 1;
return 1 2;
i = 'a;
i = "abc;
int = 3;
int 3x@;
i = 0x;
i = 09;
i = 1.2.3;
i = @#;
int arr@[] ; (void)arr@;
int fa@[3](int); (void)fa@;
int ff@(int)(int);
struct S { int q; } redef@;
extern int ex@ = 3;
i = _Generic(i, long: 1, char: 2);
i = p - d;
i = p - (double*)0;
i = p == d;
i = d == st;
i = s < st;
i = &st.t == 1 ? st : 2;
const const_int@ = 1;
int q@ = st; (void)q@;
struct S sq@ = 1; (void)&sq@;
int *pq@ = st; (void)pq@;
p = st;
s = st;
fp = st;
return p, st;
'''
BADG = '''
int g@ = gi;
int g@ = fi(1);
static int g@ = undeclared@;
int g@ = 1; int g@ = 2;
int g@; double g@;
int g@(int); double g@(int);
int g@(int a) { return a; } int g@(int a) { return a; }
int g@(int a) { return a; } int g@;
typedef int g@; int g@;
struct g@ { int a; }; struct g@ { int b; };
struct g@ { int a; }; union g@ v@;
enum g@ { X@ }; struct g@ v@;
enum g@ { Y@ }; enum h@ { Y@ };
struct g@ { struct g@ x; };
struct g@ { int a[]; int b; };
struct g@ { void v; };
struct g@ { int f(int); };
int g@[0 - 1];
int g@[gi];
int g@[] = 3;
int g@[3] = 3;
void g@;
struct Inc g@;
int g@(int a, int a) { return a; }
int g@(void) { return undeclared@; }
int g@(int) { return 1; }
int g@(int a { return 1; }
int g@(void) { return 1; 
int g@ = ;
int g@ 3;
int g@[3;
struct g@ { int a };
struct g@ { int a; } v@ 1;
enum { , };
enum { Z@ = 1.5 };
break;
return 1;
if (1) ;
i = 3;
auto int g@;
int g@ = (1;
char *g@ = "abc;
int g@ = {1, 2};
struct T g@ = {1, 2, 3};
struct T g@ = {.q = 1};
int g@[2] = {1, 2, 3};
void g@(void) { return 1; }
int g@(void) { break; }
int g@(void) { continue; }
int g@(void) { goto l; }
int g@(int a) { int a; return a; }
static extern int g@;
typedef extern int g@;
int g@(void) { int *p = &gs.b; return *p; }
long long long g@;
unsigned double g@;
int g@ = 1 / 0 + sizeof(struct Inc);
'''
GOOD = '''
i = j + u * l;
i = s->a + st.a;
st.t.x = s->t.y;
i = *p + p[1] + 1[p];
i = fi(1) + fp(2) + (*fp)(3);
fv();
d = fd(1, 2);
fva("x", 1, 2.0, p);
i = fva("x");
p = a;
p = &i;
p = &a[1];
p = &st.a;
p = &*p;
cp = p;
i = *cp + ci;
st = gs;
st = *s;
st = fs();
i = fs().a;
*s = st;
tt = st.t;
i = !p + !d;
i = ~u + ~i;
d = -d + +d;
i = p - a;
p += 2;
p++;
p = 2 + p;
i = p == a;
i = p < a + 1;
i = p == 0;
p = 0;
if (p) i = 1;
if (d) i = 1; else i = 2;
while (i > 1000000) i--;
for (int k@ = 0; k@ < 3; ++k@) i += k@;
do i = 1; while (p == 0 && d > 1e30);
switch (i) { case 1: break; case EB: break; default: i = 1; }
switch (ch) { case 'a': case 'b': i = 2; }
i = i ? j : l;
s = i ? s : 0;
i = sizeof(struct S) + sizeof st + sizeof(a);
i = sizeof(i++);
(void)st;
(void)i;
i = (int)d;
s = (struct S*)p;
u = (unsigned)(long)p;
st.b = 3;
i = st.b++;
un.f = 1.5;
un.a = EA | EC;
struct Inc *inc@ = 0; (void)inc@;
int loc@[] = {1, 2, 3}; i = loc@[1];
int des@[5] = {[3] = 1, 2}; i = des@[4];
char str@[] = "abc"; ch = str@[0];
char str@[3] = "abc"; ch = str@[0];
struct T td@ = {.y = 3, .x = 1}; i = td@.x;
struct S ss@ = {1, 2.0, 0, 3, {1, 2}, {1, 2, 3, 4}}; i = ss@.a;
static int st@ = 3 * 4 + sizeof(int); i = st@;
static int *sp@ = &ga[2]; p = sp@;
static int (*sf@)(int) = fi; fp = sf@;
enum { LE@ = 3, LF@ }; i = LF@;
{ int i = 1; { int i = 2; j = i; } }
lab@: i++; if (i < 0) goto lab@;
typedef int Loc@; Loc@ v@ = 1; i = v@;
{ struct S { int other; } sh@; sh@.other = 1; i = sh@.other; }
struct { int x : 3; int : 0; int y : 4; } bf@; bf@.y = 1; i = bf@.y;
i = (Int)3;
int (*arrp@)[4] = &a; i = (*arrp@)[1];
int *ap@[2] = {p, a}; i = *ap@[1];
i = (1, 2, 3);
i = "abc"[1];
i = 'a' + '\\n' + '\\x41';
i = _Generic(i, long: 1, int: 2);
i = ((struct T){1, 2}).y;
p = (int[]){1, 2, 3};
int vla@[i + 1]; vla@[0] = 1; i = vla@[0];
extern int gi; i = gi;
int fi(int); i = fi(2);
const int *const cc@ = cp; i = *cc@;
volatile int vv@ = 1; i = vv@;
unsigned long long int ull@ = 1; i = ull@;
long unsigned int lui@ = 1; i = lui@;
i = 0x1fU + 017 + 1e3 + 1.5f + 10LL;
;
{}
if (i) ; else ;
i = i >> 1 << 2 & 3 | 4 ^ 5;
i &= 3, i |= 4, i ^= 5, i <<= 1, i >>= 1, i %= 7;
d += 1, d -= i, d *= 2, d /= 3;
i = &st == s;
s = &st, s->a = 1;
i = d == 1 && p != a || !s;
void *vp@ = p; p = vp@;
i = *(int*)(void*)&d;
return i;
for (;;) { break; }
while (1) { if (i) continue; break; }
switch (i) { case 1: { int q@ = 2; i = q@; } }
'''
GOODG = '''
int g@ = 3;
int g@; int g@;
extern int g@; int g@ = 1;
int g@(int); int g@(int a) { return a; }
static int g@(void) { return 1; }
typedef int g@; typedef int g@;
struct g@ { struct g@ *next; };
struct g@; struct g@ { int a; };
struct g@ { int n; int a[]; };
enum g@ { X@, Y@ = 3, Z@, };
int g@[] = {1, 2, 3};
char g@[] = "abc";
int g@[3] = {[1] = 2};
struct T g@ = {.x = 1};
int *g@ = &ga[1];
int *g@ = &gs.a;
int (*g@)(int) = fi;
const char *g@ = "abc" "def";
int g@(int a) { { int a = 1; return a; } }
int g@(int a[], int n) { return a[n]; }
int g@(int (*f)(int)) { return f(1); }
int g@ = sizeof(struct S) * 2;
int g@ = EB;
int g@ = 1 ? 2 : 3;
double g@ = 1;
int g@(void) { l: if (gi) goto l; return 1; }
struct { int a; } g@;
union { int a; struct { int b, c; }; } g@;
extern struct Inc g@;
void g@(void) { return; }
int g@(void), h@;
unsigned g@ : 3 ? 1 : 2;
long long g@ = 0x7fffffffffffffffLL;
int g@(a) int a; { return a; }
'''


def lines(t):
    return [l for l in t.split('\n') if l]


# no violation in C11, or one this compiler takes without a word: not planted
SKIP = {'return;', 'int arr@[] ; (void)arr@;', 'int fa@[3](int); (void)fa@;', 'int ff@(int)(int);', 'struct S { int q; } redef@;', 'const const_int@ = 1;',
        'struct g@ { int f(int); };', 'int g@(int) { return 1; }', 'int g@(void) { return 1; ', 'auto int g@;',
        'unsigned g@ : 3 ? 1 : 2;', 'int g@(a) int a; { return a; }'}
BADS = [l for l in lines(BAD) if l not in SKIP]
BADGS = [l for l in lines(BADG) if l not in SKIP]
GOODS = [l for l in lines(GOOD) if l not in SKIP]
GOODGS = [l for l in lines(GOODG) if l not in SKIP]
# after these nothing more may be reported
FATAL = {
    'i = Int;', 
    'd = d % 2;', 
    'd = d & 1;', 
    'd = d | i;', 
    'd = d ^ i;', 
    'd %= 2;', 
    'd <<= i;', 
    'i = p * 2;', 
    'p *= 2;', 
    'p = p / 2;', 
    'p = p % 2;', 
    'i = p & 1;', 
    'char str@[2] = "abcdef"; (void)str@;', 
    'static int si@ = i; (void)si@;', 
    'struct { double bd : 3; } bfd@; (void)&bfd@;', 
    'enum U eu@ = 0; (void)eu@;', 
    'typedef int Ty@; Ty@ = 3;', 
    'i = i +;', 
    'i = i);', 
    'i = ;', 
    '; else i = 2;', 
    "i = 'a;", 
    'i = "abc;', 
    'int = 3;', 
    'int 3x@;', 
    'i = 0x;', 
    'i = @#;', 
    'i = p - (double*)0;', 
    'int g@ = ;', 
    'enum { , };', 
    'char *g@ = "abc;', 
    'static extern int g@;', 
    'typedef extern int g@;', 
}
CPP = {"i = 'a;", 'i = "abc;', 'char *g@ = "abc;', 'i = @#;', 'int 3x@;', 'i = 0x;', 'i = 09;', 'i = 1.2.3;'}     # the preprocessor may be the one to complain
LATE = {'goto nolabel@;', 'int g@(void) { goto l; }'}
WRAP = ['if (x) {', 'else {', 'while (x > 3) {', 'for (i = 0; i < 3; ++i) {', 'do {', '{', 'for (int q = 0; q < x; q++) {', 'if (p != 0 && *p) {']


def gen(s, ctx):
    nbad = s.weighted([(30, 0), (40, 1), (15, 2), (10, 3), (5, 5)])
    items = []      # a tree of [kind, text, ...]
    nfn = [0]

    def stmts(depth):
        r = []
        for _ in range(s.rng_(1, 7 if depth == 0 else 4)):
            k = s.i(10)
            if k < 2 and depth < 3:
                w = s.choice([x for x in WRAP if x != 'else {'])
                r.append(['w', w, stmts(depth + 1)])
                if w.startswith('if') and s.p(40):
                    r.append(['w', 'else {', stmts(depth + 1)])
            else:
                r.append(['g', s.choice(GOODS)])
            if s.p(12) and not (r[-1][0] == 'w' and r[-1][1].startswith('if')):
                r.append(['n', s.choice(['', '// comment', '/* two', '#line', ' ; ;']), s.rng_(1, 9)])
        return r
    for _ in range(s.rng_(1, 7)):
        if s.p(45):
            items.append(['f', stmts(0)])
            nfn[0] += 1
        else:
            items.append(['G', s.choice(GOODGS)])
        if s.p(15):
            items.append(['n', s.choice(['', '// comment', '/* two', '#line']), s.rng_(1, 9)])
    bads = []
    for _ in range(nbad):
        if s.p(70) and any(x[0] == 'f' for x in items):
            f = s.choice([x for x in items if x[0] == 'f'])
            where = f[1]
            while True:
                inner = [x[2] for x in where if x[0] == 'w']
                if inner and s.p(60):
                    where = s.choice(inner)
                else:
                    break
            at = s.rng_(0, len(where))
            while 0 < at < len(where) and where[at][0] == 'w' and where[at][1] == 'else {':
                at += 1
            where.insert(min(at, len(where)), ['b', s.choice(BADS)])
        else:
            items.insert(s.rng_(0, len(items)), ['B', s.choice(BADGS)])
    return {'items': items, 'opt': s.choice([None, None, None, '-O2', '-Wall']), 'mode': s.choice(['-S', '-c', 'link'])}


def build(case):
    """-> (text, [(line, file, fragment)])"""
    out = ['#include "inc.h"']
    marks = []
    n = [0]
    shift = [0]
    good = [0]

    def put(l):
        out.append(l)

    def frag(t, ind):
        n[0] += 1
        put('  ' * ind + t.replace('@', str(n[0])))

    def noise(x):
        if x[1] == '/* two':
            put('/* two')
            put('   lines */')
        elif x[1] == '#line':
            put('int line_%d\\' % len(out))
            put(';')
        else:
            put(x[1])

    def block(b, ind):
        for x in b:
            if x[0] == 'g':
                frag(x[1], ind)
                good[0] += 1
            elif x[0] == 'b':
                marks.append((len(out) + 1, x[1]))
                frag(x[1], ind)
            elif x[0] == 'n':
                noise(x)
            else:
                put('  ' * ind + x[1])
                block(x[2], ind + 1)
                put('  ' * ind + ('} while (x < 0);' if x[1] == 'do {' else '}'))
    for x in case['items']:
        if x[0] == 'f':
            n[0] += 1
            put(SIG.replace('@', str(n[0])))
            put(LOC)
            block(x[1], 1)
            put('  return 0;')
            put('}')
        elif x[0] in 'GB':
            if x[0] == 'B':
                marks.append((len(out) + 1, x[1]))
            else:
                good[0] += 1
            frag(x[1], 0)
        else:
            noise(x)
    put('int main(void) { return 0; }')
    return '\n'.join(out) + '\n', marks, good[0]


def render(case):
    t, marks, _ = build(case)
    return '# inc.h is the fixed header of props/p_c23.py\n%s# planted: %s\n' % (t, marks)


LINK = 'int gi; int fi(int x) { return x; } void fv(void) {} int fva(const char *f, ...) { return 0; } double fd(double x, int y) { return x; }\nstruct S { int a; double d; int *p; unsigned b : 3; struct T { int x, y; } t; int arr[4]; }; struct S fs(void) { struct S s; return s; }\n'


def check(case, ctx):
    text, marks, good = build(case)
    ctx.write('inc.h', PRE)
    ctx.write('t.c', text)
    ctx.write('l.c', LINK)
    X = os.path.join(ctx.builds['native'], 'xcc')
    args = {'-S': ['-S', '-o', 't.s', 't.c'], '-c': ['-c', '-o', 't.o', 't.c'], 'link': ['-o', 't.out', 't.c', 'l.c']}[case['mode']]
    r = run([X, *([case['opt']] if case['opt'] else []), *args], cwd=ctx.dir, cpu=10)
    if r.rc < 0 or r.rc > 127 or r.timeout or b'Assertion' in r.err or b'Aborted' in r.err:
        return fail('crashed or hung: ' + r.short())
    err = r.err.decode('latin1')
    got = []
    for f, ln, m in re.findall(r'^(\S+)\((\d+)\): (.*)$', err, re.M):
        if not m.startswith('warning:'):
            got.append((f, int(ln), m))
    if not marks:
        if r.rc != 0 or got:
            return fail('a valid translation unit is rejected: %s' % (got[:3] or r.short()))
        return Res('pass', good >= 20, units=good, labels={'accepted': 1, 'good fragments': good})
    if r.rc == 0:
        return fail('accepted in spite of %s' % (marks,))
    if not got:
        return fail('rejected without a message that names a line: %s' % r.short())
    want = {ln for ln, _ in marks}
    if any(f != 't.c' or ln not in want for f, ln, _ in got[:1]):
        return fail('reported %s, but the errors are %s' % (got[:1], marks))
    wrong = [g for g in got if g[0] != 't.c' or g[1] not in want]
    fatal = any(t in FATAL or t in CPP for _, t in marks)
    if wrong and not fatal:
        return fail('reported %s besides the errors %s' % (wrong[:3], marks))
    need = set()
    if not any(t in CPP for _, t in marks):
        for ln, t in marks:
            if t in LATE and fatal:
                continue
            need.add(ln)
            if t in FATAL:
                break
    have = {ln for _, ln, _ in got}
    if need - have and len(got) < 20:
        return fail('said nothing about line %s (%s)' % (sorted(need - have), marks))
    return Res('pass', True, units=len(marks) + good, labels={'rejected': 1, 'violations': len(marks), 'good fragments': good})
