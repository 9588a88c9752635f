"""C26: variadic functions.  Caller and callee each compiled by ucc or the oracle; every value."""
import random
from harness import Unit, run_tv
LEVEL = 'translation_validation'
MODES = [('uu', 'uu'), ('ug', 'ug'), ('gu', 'gu')]
# name: (declared parameter type, va_arg type, how to log v)
SC = {'i': ('int', 'int', 'ev(%s);'), 'u': ('u32', 'u32', 'evu(%s);'), 'l': ('s64', 's64', 'evl(%s);'), 'U': ('u64', 'u64', 'evul(%s);'),
      'c': ('s8', 'int', 'ev(%s);'), 'C': ('u8', 'int', 'ev(%s);'), 's': ('s16', 'int', 'ev(%s);'), 'S': ('u16', 'int', 'ev(%s);'), 'b': ('_Bool', 'int', 'ev(%s);'),
      'f': ('float', 'double', 'evd(%s);'), 'd': ('double', 'double', 'evd(%s);'), 'p': ('u64', 'char *', 'evul((u64)%s);')}
SD = '''struct A1 { char a; }; struct A2 { int a, b; }; struct A3 { long a; int b; }; struct A4 { double a; }; struct A5 { double a, b; }; struct A6 { long a; double b; };
struct A7 { double a; int b; }; struct A8 { long a, b, c; }; struct A9 { char a[20]; }; struct A10 { float a, b; int c; }; struct A11 { float a, b; }; struct A12 { char a[3]; };
static void lg(const void *p, int n){ const u8 *q = p; for(int i = 0; i < n; i++) evuc(q[i]); }
'''
NS = 12
SZ = [1, 8, 12, 8, 16, 16, 12, 24, 20, 12, 8, 3]   # bytes without tail padding
VA = '#define va_list __builtin_va_list\n#define va_start __builtin_va_start\n#define va_arg __builtin_va_arg\n#define va_end __builtin_va_end\n#define va_copy __builtin_va_copy\n'
def lists(seed):
    r = random.Random(seed)
    L = []
    for fx in ['', 'l', 'ld', 'llllll', 'lllllll', 'llllllllll', 'd', 'dddddddd', 'ddddddddd', 'lllldddd', 'sfc']:
        for k in range(3):
            n = r.choice([1, 3, 6, 9, 12])
            L.append((fx, ''.join(r.choice('iulUcCsSbfdp' if k else 'ild') for _ in range(n))))
    for v in ['iiiiiiiiiiii', 'dddddddddddd', 'idididididididid', 'llllllllll', 'ffffffffffff', 'diiiiiiiiddddddddi', '', 'p', 'dddddddddi', 'iiiiiid']:
        L.append(('i', v))
    return L
def scal(seed, n0=0):
    a, b, de = [], [], []
    for k, (fx, va) in enumerate(lists(seed)):
        k += n0
        fx = fx or 'i'
        fp = ', '.join('%s f%d' % (SC[t][0], i) for i, t in enumerate(fx))
        vp = ', '.join('%s v%d' % (SC[t][0], i) for i, t in enumerate(va))
        sig = fp + (', ' + vp if vp else '')
        call = ', '.join(['f%d' % i for i in range(len(fx))] + [('(char *)v%d' if t == 'p' else 'v%d') % i for i, t in enumerate(va)])
        if len(fx) + len(va) > 26: continue
        de.append('long w%d(%s, ...);' % (k, fp))
        a.append('TEST long c%d(%s)\n{ return w%d(%s); }' % (k, sig, k, call))
        lf = ''.join(SC[t][2].replace('%s', ('(char *)' if t == 'p' else '') + 'f%d' % i) for i, t in enumerate(fx))
        lv = ''.join('{ %s t = va_arg(ap, %s); %s }' % (SC[t][1], SC[t][1], SC[t][2] % 't') for t in va)
        b.append('long w%d(%s, ...){ va_list ap; %s va_start(ap, f%d); %s va_end(ap); return 3; }' % (k, fp, lf, len(fx) - 1, lv))
    return de, a, b
MISC = '''
long m_kind(const char *fmt, ...); int m_sum(int n, ...); double m_dsum(int n, ...); long m_copy(int n, ...); int m_twice(int n, ...); long m_fwd(int n, ...); long m_ptr(int n, ...); long m_expr(int n, ...); int m_cond(int n, ...); void m_none(int n, ...); long m_live(long a, long b, ...);
long m_arr(int n, ...); double m_fix(double a, float b, ...); long m_loop(int n, ...); long m_skip(int n, ...); long m_addr(int n, ...); long m_nest(int n, ...);
struct RB { long a, b, c; }; struct RS { int a; long b; };
struct RB r_big(int n, ...); struct RS r_sm(int n, ...); struct RB r_b2(long a, long b, long c, long d, long e, long f, double g, ...);
#ifdef PA
TEST long k1(int a, double b, long c)
{ return m_kind("idl", a, b, c); }
TEST long k2(int a, double b, long c, float d, s8 e)
{ return m_kind("ldididdddddddddl", c, b, a, d, e, b, d, b, d, b, d, b, d, b, d, c); }
TEST long k3(long c, int a)
{ return m_kind("lilililili", c, a, c + 1, a, c, a + 2, c, a, c, a - 9); }
TEST int s1(int n, int a, int b, int c, int d, int e, int f, int g) PRE(n >= 0 && n <= 7)
{ return m_sum(n, a, b, c, d, e, f, g); }
TEST void d1(double a, double b, float c)
{ evd(m_dsum(3, a, b, c)); evd(m_dsum(10, a, b, c, a, b, c, a, b, c, a)); evd(m_dsum(0)); }
TEST long cp(int a, long b, double c)
{ return m_copy(1, a, b, c) + m_copy(2, 1, 2, 3, 4, 5, a, b); }
TEST int tw(int a, int b)
{ return m_twice(2, a, b) + m_twice(2, b, a) * 3; }
TEST long fw(int a, long b, double c)
{ return m_fwd(3, a, b, c, b, c, b, b, b, c); }
TEST long pt(int a, int b, int *p/*2*/)
{ return m_ptr(a, p, &b, p + 1); }
TEST long ex(int a, int b, long c, double d)
{ return m_expr(a, b, c, d, b, c); }
TEST int cn(int n, int a, double d)
{ return m_cond(n, a, d, a + 1, d); }
TEST void no(int n, double d)
{ m_none(n); m_none(n, n, d); m_none(3, d); }
TEST long li(long a, long b, long c, int d)
{ return m_live(a + 1, b, c, d, c, d, c, d, c) - a; }
TEST long ar(int a, int b)
{ int x[3] = { a, b, 5 }; char s[] = "xy"; return m_arr(2, x, s, "lit", &x[1]); }
TEST double fi(double a, float b, double c, int d)
{ return m_fix(a, b, c, d, b); }
TEST long lp(int n, long a, double b) PRE(n >= 0 && n < 6)
{ return m_loop(n, a, b, a + 1, b, a + 2, b, a + 3, b, a + 4, b, a + 5, b); }
TEST long sk(int n, long a) PRE(n >= 0 && n < 8)
{ return m_skip(n, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8); }
TEST long ad(int n, long a)
{ return m_addr(n, a, 3L, a); }
TEST long fpn(int k, int a, double d)
{ long (*f)(int, ...) = k ? m_fwd : m_expr; return f(a, a, 5l, d, a, 5l, d, 2, 3, d); }
TEST long bs(_Bool b, s8 c, u8 d, s16 e, u16 f)
{ return m_sum(5, b, c, d, e, f); }
TEST long ne(int a)
{ return m_nest(a, m_sum(2, a, m_sum(1, a + 1)), m_nest(a, 3, 4L), 7L); }
TEST void rb(int n, long a, double b, struct RB *p/*3*/) PRE(n >= 0 && n < 7)
{ *p = r_big(n, a, b, a + 1, a + 2, b, a + 3, a + 4, a + 5, a + 6); }
TEST long rs(int n, long a, double b) PRE(n >= 0 && n < 7)
{ struct RS t = r_sm(n, a, b, a + 1, a + 2, b, a + 3, a + 4, a + 5, a + 6); return t.a ^ t.b; }
TEST long r2(long a, double b, long c, int d)
{ struct RB t = r_b2(a, 2, c, d, a, c, b, d, b, c); evl(t.a); evl(t.b); return t.c; }
#endif
#ifdef PB
struct RB r_big(int n, ...){ va_list ap; struct RB r = { n, 1, 2 }; va_start(ap, n); r.a ^= va_arg(ap, long); evd(va_arg(ap, double)); for(; n > 0; n--){ r.b = r.b * 3 + va_arg(ap, long); if(n == 3) evd(va_arg(ap, double)); } va_end(ap); return r; }
struct RS r_sm(int n, ...){ va_list ap; struct RS r = { n, 1 }; va_start(ap, n); r.a ^= va_arg(ap, long); evd(va_arg(ap, double)); for(; n > 0; n--){ r.b = r.b * 3 + va_arg(ap, long); if(n == 3) evd(va_arg(ap, double)); } va_end(ap); return r; }
struct RB r_b2(long a, long b, long c, long d, long e, long f, double g, ...){ va_list ap; va_start(ap, g); struct RB r = { a, b + c, d }; evl(e); evl(f); r.b += va_arg(ap, int); evd(va_arg(ap, double)); evd(g); r.c ^= va_arg(ap, long); va_end(ap); return r; }
#endif
#ifdef PB
long m_kind(const char *fmt, ...){ va_list ap; long r = 0; va_start(ap, fmt); for(; *fmt; fmt++) switch(*fmt){ case 'i': ev(va_arg(ap, int)); r++; break; case 'l': evl(va_arg(ap, long)); r += 3; break; case 'd': evd(va_arg(ap, double)); r += 5; } va_end(ap); return r; }
int m_sum(int n, ...){ va_list ap; va_start(ap, n); int r = 0; while(n-- > 0) r = r * 2 + va_arg(ap, int); va_end(ap); return r; }
double m_dsum(int n, ...){ va_list ap; va_start(ap, n); double r = 0; while(n-- > 0) evd(r = va_arg(ap, double)); va_end(ap); return r; }
long m_copy(int n, ...){ va_list ap, aq; va_start(ap, n); int a = va_arg(ap, int); va_copy(aq, ap); long r = 0; if(n == 1){ evl(va_arg(ap, long)); evd(va_arg(ap, double)); evl(va_arg(aq, long)); evd(va_arg(aq, double)); } else { for(int i = 0; i < 5; i++) ev(va_arg(ap, int)); evl(va_arg(ap, long)); for(int i = 0; i < 5; i++) ev(va_arg(aq, int)); r = va_arg(aq, long); } va_end(aq); va_end(ap); return r + a; }
int m_twice(int n, ...){ va_list ap; va_start(ap, n); int a = va_arg(ap, int); va_end(ap); va_start(ap, n); int b = va_arg(ap, int), c = va_arg(ap, int); va_end(ap); return a * 3 + b * 5 + c; }
static long vf(int n, va_list ap){ long r = 0; for(int i = 0; i < n; i++){ ev(va_arg(ap, int)); r += va_arg(ap, long); evd(va_arg(ap, double)); if(i == 0){ r ^= va_arg(ap, long); evd(va_arg(ap, double)); break; } } return r; }
long m_fwd(int n, ...){ va_list ap; va_start(ap, n); long r = vf(1, ap); evl(va_arg(ap, long)); va_end(ap); return r; }
long m_ptr(int n, ...){ va_list ap; va_start(ap, n); int *p = va_arg(ap, int *), *q = va_arg(ap, int *); va_list *pa = &ap; int *s = va_arg(*pa, int *); va_end(ap); *q += *s; return *p + *q; }
long m_expr(int n, ...){ va_list ap; va_start(ap, n); long r = n * 3 + va_arg(ap, int); r = r - (n ^ va_arg(ap, long)); evd(va_arg(ap, double) + n); r = r * va_arg(ap, int); r += ev(n) - va_arg(ap, long); va_end(ap); return r; }
int m_cond(int n, ...){ va_list ap; va_start(ap, n); int r = 1; if(n > 3) r = va_arg(ap, int); else if(n > 0){ r = va_arg(ap, int); evd(va_arg(ap, double)); r = r && va_arg(ap, int) ? n : r; } va_end(ap); return r; }
void m_none(int n, ...){ ev(n); }
long m_live(long a, long b, ...){ va_list ap; va_start(ap, b); long x = a * b; for(int i = 0; i < 3; i++){ x += va_arg(ap, long) * a - b; x ^= va_arg(ap, int); } va_end(ap); return x + va_arg(ap, long); }
long m_arr(int n, ...){ va_list ap; va_start(ap, n); int *p = va_arg(ap, int *); char *s = va_arg(ap, char *), *t = va_arg(ap, char *); int *q = va_arg(ap, int *); return p[0] + s[1] + t[2] + q[0] * 3 + (q - p); }
double m_fix(double a, float b, ...){ va_list ap; va_start(ap, b); evd(a); evf(b); evd(va_arg(ap, double)); ev(va_arg(ap, int)); a = va_arg(ap, double); va_end(ap); return a; }
long m_loop(int n, ...){ va_list ap; va_start(ap, n); long r = 0; for(int i = 0; i < n; i++){ r += va_arg(ap, long); evd(va_arg(ap, double)); } va_end(ap); return r; }
long m_skip(int n, ...){ va_list ap; va_start(ap, n); for(; n; n--) (void)va_arg(ap, long); long r = va_arg(ap, long); va_end(ap); return r; }
long m_addr(int n, ...){ va_list ap; va_start(ap, n); long t[3]; long *p = t; *p++ = va_arg(ap, long); *p++ = va_arg(ap, long); p[0] = va_arg(ap, long); n = 5; return t[0] - t[1] * t[2] + n; }
long m_nest(int n, ...){ va_list ap; va_start(ap, n); int a = va_arg(ap, int); long b = va_arg(ap, long); va_end(ap); return a * 3 + b; }
#endif
'''
def units(ctx):
    u = []
    L = []
    for c in range(3 if ctx.quick() else 12):
        L.append(('sc%d' % c, scal(100 + c), 22))
    for m, p in MODES:
        for n, (de, a, b), sz in L:
            for k in range(0, len(a), sz):
                src = VA + '\n'.join(de) + '\n#ifdef PA\n' + '\n'.join(a[k:k + sz]) + '\n#endif\n#ifdef PB\n' + '\n'.join(b[k:k + sz]) + '\n#endif\n'
                u.append(Unit('%s_%d_%s' % (n, k // sz, m), src, parts={'u': list(zip(p, ['PA', 'PB'])), 'g': [('g', 'PA'), ('g', 'PB')]}))
        u.append(Unit('misc_' + m, VA + MISC, parts={'u': list(zip(p, ['PA', 'PB'])), 'g': [('g', 'PA'), ('g', 'PB')]}))
    return u
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', parts=x.parts, tag='clang') for x in us] + [Unit(x.name, x.src, flags=f, parts=x.parts, tag=t) for x in us for f, t in ((['-fpic'], 'pic'), (['-fstack-protector-all'], 'sp'))]
    run_tv(ctx, us, per_unit_s=200 if ctx.quick() else 600)
