"""C10: the bytes of statically initialised objects."""
import random
from harness import Unit, run_tv
import initgen
LEVEL = 'translation_validation'
CI = ['0', '1', '-1', '127', '-128', '255', '0x7fff', '-32768', '65535', '0x7fffffff', '-2147483647-1', '0xffffffffu', '0x123456789abcdefL', '-5L', '0x7fffffffffffffffL', '0xffffffffffffffffUL', "'a'", "'\\377'", '3 * 7 - 2', '1 << 20', '(char)300', '~0', '!3', 'sizeof(int)', '1 ? -7 : 2', '(unsigned char)-1', '0x80000000', '1.5', '-2.75', '1e10 > 5', '10 / 3', '-10 % 3', '3.9']
CF = ['0', '1', '-1', '1.5', '-2.25f', '1e10', '0.1', '0.1f', '-0.0', '3e-5', '1e30', '12345678901L', '0xffffffffu', "'a'", '1.0 / 3', '1 / 2', '2.5f * 3', '100000000000000000', '0x1p-20', '(float)0.1', '0xffffffffffffffffUL']
def cval(r):
    def f(t, bits):
        if t in ('float', 'double'): return r.choice(CF)
        c = r.choice(CI)
        if '-2.75' in c and 'unsigned' in t: c = '2.75'
        if bits and ('.' in c or '1e' in c): c = '5'
        if '.' in c or 'e10' in c: return c if t in ('int', 'long', 'short', '_Bool') else '(int)' + c
        return c
    return f

def gen_unit(k, n=10):
    s = []
    r = random.Random(k * 77 + 5)
    for j in range(n):
        g = initgen.G(k * 1000 + j, cval(r))
        t = g.agg('st' if r.random() < 0.85 else 'un', 3) if r.random() < 0.8 else ('a', r.randint(1, 4), g.agg('st', 2))
        ini = g.init(t)
        st = r.choice(['static ', '', 'const ', 'static const '])
        s.append('%s%s = %s;' % (st, g.decl(t, 'x%d' % j), ini))
        s.append('TEST int rd%d(u32 i)\n{ if(i >= sizeof x%d) return -1; return ((u8 *)&x%d)[i]; }' % (j, j, j))
        if r.random() < 0.3:
            ini = g.init(t)
            s.append('TEST int lo%d(u32 i)\n{ static %s = %s; if(i >= sizeof y) return -1; return ((u8 *)&y)[i]; }' % (j, g.decl(t, 'y'), ini))
    return Unit('init%d' % k, '\n'.join(s) + '\n', opts={'addr_lim': 900})

SCALARS = []
for t in initgen.SC:
    for c in (CF if t in ('float', 'double') else CI):
        if not ('-2.75' in c and 'unsigned' in t): SCALARS.append((t, c))
def scalar_unit():
    s = []
    for k in range(0, len(SCALARS), 8):
        for j, (t, c) in enumerate(SCALARS[k:k + 8]):
            s.append('static %s zs%d = %s; static %s zt%d[2] = { %s };' % (t, k + j, c, t, k + j, c))
        s.append('TEST void sc%d(u32 i)\n{ %s }' % (k, ' '.join('evc(((u8 *)&zs%d)[i & (sizeof zs%d - 1)]); evc(((u8 *)zt%d)[i & (sizeof zt%d - 1)]);' % (k + j, k + j, k + j, k + j) for j in range(len(SCALARS[k:k + 8])))))
    return Unit('scalar', '\n'.join(s) + '\n')

# every bitfield position with neighbours, through constants: width/offset/value all vary
def bf_unit(k):
    r = random.Random(k)
    s = []
    for j in range(12):
        ms, ini = [], []
        for m in range(r.randint(2, 7)):
            t, w = r.choice(initgen.BF)
            b = r.choice([1, w, r.randint(1, w), r.randint(1, min(w, 12))])
            if r.random() < 0.12: ms.append('%s :%d;' % (t, r.choice([0, b]))); continue
            if r.random() < 0.15: ms.append('char c%d;' % m); ini.append(str(r.randint(-9, 99))); continue
            ms.append('%s f%d:%d;' % (t, m, b))
            ini.append(('.f%d = ' % m if r.random() < 0.15 else '') + r.choice(['-1', '1', '0', str(r.randrange(1 << 31)), '0x%xL' % r.randrange(1 << 62), '0x5555555555555555L', '-%d' % r.randrange(1, 1 << 20)]))
        if not ini: continue
        s.append('static struct { %s } x%d = { %s };' % (' '.join(ms), j, ', '.join(ini)))
        s.append('TEST int rd%d(u32 i)\n{ if(i >= sizeof x%d) return -1; return ((u8 *)&x%d)[i]; }' % (j, j, j))
    return Unit('bits%d' % k, '\n'.join(s) + '\n')

ADDR = '''
static int arr[10] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 }; static struct P { char c; int v; struct { short a, b[4]; } in[3]; } st[3];
int fn(int x){ return x + 5; }
static int *p0 = arr, *p1 = arr + 3, *p2 = &arr[7], *p3 = &arr[9] - 2, *p4 = 4 + arr, *pe = arr + 10, *p5 = (int *)((char *)arr + 8), *pn = 0, *pm = (void *)0, *pk = (int *)0x1234, *p6 = &*(arr + 2), *p7 = 1 ? arr + 1 : 0, *pneg = &arr[-1] + 3;
static char *s0 = "hello", *s1 = "hello" + 2, *s2 = &"abcdef"[3], sa[] = "ab\\0cd\\x41\\101\\n", sb[3] = "abc", sc[8] = { "xy" }, sd[] = { 'a', 'b', 0 }, *st_[] = { "one", "two", 0, "three" }, s2d[3][4] = { "abc", "defg", "h" };
static short *q0 = &st[1].in[2].b[3], *q1 = st[2].in[0].b + 1, *q2 = &st->in->a; static struct P *ps = &st[2]; static int *pv = &st[1].v, (*pf)(int) = fn, (*pg)(int) = &fn, (*tab[3])(int) = { 0, fn, fn }, (*pa)[10] = &arr, **pp = &p1, ***ppp = &pp;
static long asl = (long)&arr[2], diff = &arr[7] - &arr[2], off = (long)&((struct P *)0)->in[1].b[2]; static struct P *self = (struct P *)&self; struct N { struct N *next; int v; }; static struct N n1, n2 = { &n1, 2 }, n1 = { &n2, 1 };
static struct { int *p; char *s; int (*f)(int); double d; } mix = { arr + 1, "mix" "ed", fn, 2.5 }; static int *cl = (int[]){ 4, 5, 6 }; static struct P *clp = &(struct P){ .v = 9, .in[1].b[2] = 7 };
static int inf[] = { 1, [5] = 6, 7, [2] = 3 }; static int inf2[][2] = { 1, 2, 3, { 4 }, 5 }; static char infs[] = { [3] = 'd', 'e' }; static int rng[] = { [2 ... 4] = 9, 1, [0] = 5 };
int tent; int tent; static int stent; static int stent = 4; extern int ext; int ext = 6; const int cst = 12; static char zl[4]; int zi[5] = { 0 };
static int wl[] = L"ab\\x1234"; static int *wp = L"xyz"; static unsigned char us[4] = "\\xff\\200\\0";
#define E(x) evl((long)(x))
TEST void ptrs(void)
{ E(p0 - arr); E(p1 - arr); E(p2 - arr); E(p3 - arr); E(p4 - arr); E(pe - arr); E(p5 - arr); E(pn); E(pm); E(pk); E(p6 - arr); E(p7 - arr); E(pneg - arr); }
TEST void deref(u32 i)
{ i %= 3; E(p0[i]); E(p1[i]); E(p2[i]); E(*p3); E(p4[i]); E(pe[-1]); E((*pa)[i]); E(**pp); E(***ppp); E(*(int *)asl); E(diff); E(off); }
TEST void strs(u32 i)
{ i %= 6; E(s0[i]); E(s1[i % 4]); E(s2[i % 4]); E(sizeof sa); E(sa[i]); E(sa[i + 3]); E(sb[i % 3]); E(sc[i]); E(sc[i + 2]); E(sizeof sd); E(sd[i % 3]); E(s2d[i % 3][i & 3]); }
TEST void strt(u32 i)
{ i %= 4; E(st_[0][i]); E(st_[1][i]); E(st_[2]); E(st_[3][i + 2]); E(sizeof st_); E(us[i]); E(wl[i]); E(sizeof wl); E(wp[i]); }
TEST void membs(void)
{ E((char *)q0 - (char *)st); E((char *)q1 - (char *)st); E((char *)q2 - (char *)st); E(ps - st); E((char *)pv - (char *)st); E(self == (void *)&self); }
TEST void fns(int x)
{ E(pf(x)); E(pg(x)); E(tab[0]); E(tab[1](x)); E(mix.f(x)); E(*mix.p); E(mix.s[4]); evd(mix.d); }
TEST void lists(void)
{ E(n1.next->v); E(n2.next->v); E(n1.next->next == &n1); E(cl[2]); E(clp->v); E(clp->in[1].b[2]); E(clp->in[1].b[1]); }
TEST void infer(u32 i)
{ E(sizeof inf); E(inf[i % 7]); E(sizeof inf2); E(inf2[i % 3][i & 1]); E(sizeof infs); E(infs[i % 5]); E(sizeof rng); E(rng[i % 6]); E(tent); E(stent); E(ext); E(cst); E(zl[i & 3]); E(zi[i % 5]); }
TEST int counter(void)
{ static int n = 41; static const int k[2] = { 7, 8 }; n++; return n + k[1]; }
TEST void cmps(void)
{ static int a = 3 < 4, b = 3.5 > 4, c = !0.0, d = 1 && 0, e = -1 < 0u, f = (char)200 < 0, g = 5 / 2 * 2.0, h = sizeof(arr) / sizeof *arr; static double x = 1 / 2, y = 1 / 2., z = (float)1 / 3; static float w = 16777217, w2 = 1e-40; E(a); E(b); E(c); E(d); E(e); E(f); E(g); E(h); evd(x); evd(y); evd(z); evf(w); evf(w2); }
'''
NEST = '''
struct In { short a; char b[3]; }; struct Out { int x; struct In i[2]; union { long l; double d; char c[5]; } u; struct { int p, q; }; int tail; };
static struct Out o0 = { 1, { { 2, "ab" }, { 3, { 'c' } } }, { 4 }, { 5, 6 }, 7 }, o1 = { 1, 2, 'a', 'b', 'c', 3, 'd', 'e', 'f', 4, 5, 6, 7 }, o2 = { .tail = 9, .i[1].b[2] = 3, .x = 1 }, o3 = { .i[1] = { 5 }, { .c = "hey" }, .q = 8, 9 }, o4 = { .i = { [1].a = 4, [0].b = "xyz" }, .u.d = 2.5 }, o5 = { .i[0].b[1] = 5, 6, .i[1].a = 7, 8, 9, 10, 11 }, o6 = { .p = 3, 4, 5 }, o7 = { 1, .i[0] = { 1, { 2, 3 } }, .i[0].a = 9 }, o8 = { .u = { .c = { [3] = 1 } }, .u = { 6 } };
static struct Out oa[3] = { [1] = { .x = 4 }, { 5, .tail = 6 }, [0].i[1].b = "zz" }, ob[] = { [2].x = 1, 2, [1] = { 3 } }; static int m3[2][3][2] = { { { 1 }, { 2, 3 } }, { [1] = { 4, 5 } } }, m4[2][3][2] = { 1, 2, 3, { 4, 5 }, 6 }, m5[2][3][2] = { [1][2] = { 7 }, [0][1][1] = 8, 9, 10 };
struct F { int n; short d[]; }; static struct F fl = { 3, { 1, 2, 3 } }, fl0 = { 4 };
union U { int a; struct { char c; long l; } s; float f; }; static union U u0 = { 5 }, u1 = { .s = { 1, 2 } }, u2 = { .f = 1.5 }, u3[2] = { { .s.l = 3 }, 4 }, u4 = { .a = 1, .f = 2.5f };
struct B { unsigned a:3; int b:9; unsigned :4; int c:17; char d; long e:40; _Bool f:1; }; static struct B b0 = { 5, -3, 1234, 'x', -5, 1 }, b1 = { .c = -1 }, b2 = { .a = 9, .e = 0x123456789aL, .f = 4 }, b3[2] = { 1, 2, 3, 4, 5, 1, 7, 8 };
struct E { enum { A1, A2 = 5, A3 } e; char *s; } static es[] = { { A2, "x" }, { A3 }, A1, "y" }; struct { struct { struct { int z; } y; } x; } static deep = { { { 4 } } }, deep2 = { 4 }, deep3 = { .x.y.z = 4 };
#define R(n) TEST int r_##n(u32 i)
''' + ''.join('TEST int r_%s(u32 i)\n{ if(i >= sizeof %s) return -1; return ((u8 *)&%s)[i]; }\n' % (n, n, n) for n in
   ['o%d' % i for i in range(9)] + ['oa', 'ob', 'm3', 'm4', 'm5', 'fl0', 'u0', 'u1', 'u2', 'u3', 'u4', 'b0', 'b1', 'b2', 'b3', 'deep', 'deep2', 'deep3']) + '''
TEST long esz(u32 i)
{ evl(sizeof es); evl(sizeof ob); i %= 3; ev(es[i].e); evl(fl.d[i]); return i == 1 ? (long)es[i].s : es[i].s[0]; }
'''
def units(ctx):
    n = 12 if ctx.quick() else 90
    return [Unit('addr', ADDR), Unit('nest', NEST, opts={'addr_lim': 900}), scalar_unit()] + [gen_unit(k) for k in range(n)] + [bf_unit(k) for k in range(6 if ctx.quick() else 40)]
def run(ctx):
    us = units(ctx)
    us = us + [Unit(us[0].name, us[0].src, flags=['-fpic'], tag='pic')]
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us if not x.tag]
    run_tv(ctx, us, per_unit_s=250 if ctx.quick() else 800)
