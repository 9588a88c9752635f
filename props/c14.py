"""C14: float and double operators, comparisons and conversions."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
FT = {'f': 'float', 'd': 'double'}
IT = ['s8', 'u8', 's16', 'u16', 's32', 's64', 'u64', '_Bool']
NN = lambda *v: 'PRE(%s)' % ' && '.join('%s == %s' % (x, x) for x in v)
def ops(t, T, ul=True):
    s = []
    D = {'T': T}
    def add(n, ret, sig, body, pre=''): s.append('TEST %s %s(%s) %s\n{ %s }' % (ret, n, sig % D, pre, body % D))
    for n, o in [('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')]:
        add(n, T, '%(T)s a, %(T)s b', 'return a %s b;' % o)
        add(n + 'r', T, '%(T)s a, %(T)s b', 'return b %s a;' % o)
        add(n + 'c', T, '%(T)s a', 'return a %s 3.5%s;' % (o, 'f' if t == 'f' else ''))
        add(n + 'cl', T, '%(T)s a', 'return 2 %s a;' % o)
        add(n + 'ca', T, '%(T)s *p/*1*/, %(T)s b', 'return *p %s= b;' % o)
        add(n + 'ci', T, '%(T)s *p/*1*/, int b', 'return *p %s= b;' % o)
        add(n + 'mix', 'double', 'float a, double b, int i', 'return a %s b %s i;' % (o, o))
        add(n + 'mix2', 'double', 'float a, double b, int i', 'return i %s (b %s a);' % (o, o))
        add(n + 'un', T, '%(T)s a, unsigned short u', 'return a %s u;' % o)
        if ul: add(n + 'ul', T, '%(T)s a, long u, u64 v', 'return (a %s u) %s v;' % (o, o))
        add(n + 'sp', T, '%(T)s a, %(T)s b, %(T)s c', 'return (a %s b) %s (b %s c);' % (o, o, o))
        add(n + 'mem', T, '%(T)s *p/*4*/, u32 i', 'i &= 3; return p[i] %s p[3 - i];' % o)
        add(n + 'ev', T, '%(T)s a, int b', 'return a %s ev%s(a);' % (o, t))
        add(n + 'cst', T, '', 'return 7.25%s %s 0.5;' % ('f' if t == 'f' else '', o))
    for n, o in [('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>='), ('eq', '=='), ('ne', '!=')]:
        add(n, 'int', '%(T)s a, %(T)s b', 'return a %s b;' % o)
        add(n + 'n', 'int', '%(T)s a, %(T)s b', 'return !(a %s b);' % o)
        add(n + 'if', 'int', '%(T)s a, %(T)s b', 'if(a %s b) return ev(1); return ev(2);' % o)
        add(n + 'ifn', 'int', '%(T)s a, %(T)s b', 'if(!(a %s b)) return ev(1); else return ev(2);' % o)
        add(n + 'wh', 'int', '%(T)s a, %(T)s b', 'int n = 0; while(a %s b && n < 2) n++; return n;' % o)
        add(n + 'tern', 'int', '%(T)s a, %(T)s b', 'return a %s b ? 5 : 6;' % o)
        add(n + 'and', 'int', '%(T)s a, %(T)s b, %(T)s c', 'return a %s b && b %s c;' % (o, o))
        add(n + 'or', 'int', '%(T)s a, %(T)s b, %(T)s c', 'if(a %s b || b %s c) return 1; return 2;' % (o, o))
        add(n + 'c', 'int', '%(T)s a', 'return (a %s 0) + 2 * (1.5 %s a);' % (o, o))
        add(n + 'i', 'int', '%(T)s a, int i', 'return a %s i;' % o)
        add(n + 'mix', 'int', 'float a, double b', 'return a %s b;' % o)
        add(n + 'dbl', 'int', '%(T)s a, %(T)s b', 'int x = a %s b, y = b %s a; return x + y * 2;' % (o, o))
        add(n + 'for', 'int', '%(T)s a, %(T)s b', 'int i; for(i = 0; a %s b; i++) if(i == 2) break; return i;' % o)
        add(n + 'do', 'int', '%(T)s a, %(T)s b', 'int i = 0; do i++; while(a %s b && i < 2); return i;' % o)
    add('neg', T, '%(T)s a', 'return -a;', NN('a'))
    add('pos', T, '%(T)s a', 'return +a;')
    if not ul: add('negneg', T, '%(T)s a, %(T)s b', 'return -(a - -b);', 'PRE(a > -1e30f && a < 1e30f && b > -1e30f && b < 1e30f)')
    add('negmem', T, '%(T)s *p/*2*/', 'p[0] = -p[1]; return -p[0];', NN('p[1]'))
    add('nt', 'int', '%(T)s a', 'return !a;', NN('a'))
    add('tt', 'int', '%(T)s a', 'return a ? 3 : 4;', NN('a'))
    add('ift', 'int', '%(T)s a', 'if(a) return ev(1); return ev(2);', NN('a'))
    add('ifnt', 'int', '%(T)s a', 'if(!a) return ev(1); return ev(2);', NN('a'))
    add('andt', 'int', '%(T)s a, %(T)s b', 'return (a && b) + 2 * (a || b);', NN('a', 'b'))
    add('wht', 'int', '%(T)s a', 'int n = 0; while(a){ if(n++) break; } return n;', NN('a'))
    add('bool', '_Bool', '%(T)s a', 'return a;', NN('a'))
    add('boolc', 'int', '%(T)s a', '_Bool b = a; return b + (_Bool)a;', NN('a'))
    add('inc', T, '%(T)s a', 'a++; ++a; return a--;')
    add('inc2', T, '%(T)s *p/*1*/', '%(T)s r = (*p)++; return r;')
    add('dec2', T, '%(T)s *p/*1*/', 'return --*p;')
    add('chain', T, '%(T)s *p/*3*/, int i', 'return p[0] = p[1] = p[2] = i;')
    add('neg2', 'int', '%(T)s a', 'return (-a > 1) + 2 * (- -a < 3);')
    add('elv', T, '%(T)s a, %(T)s b', 'return a ?: b;', NN('a'))
    add('cond', T, '%(T)s a, %(T)s b, int c', 'return c ? a : b;')
    add('condm', 'double', '%(T)s a, int i, int c', 'return c ? a : i;')
    add('condm2', 'double', 'float a, double b, int c', 'return c ? a : b;')
    add('comma', T, '%(T)s a, %(T)s b', 'return (a++, b);')
    add('many', T, ', '.join('%s a%d' % (T, i) for i in range(8)), 'return ((a0 - a1) * (a2 - a3)) / ((a4 - a5) * (a6 - a7));')
    add('many2', T, ', '.join('%s a%d' % (T, i) for i in range(8)), 'return a0 + (a1 + (a2 + (a3 + (a4 + (a5 + (a6 + a7))))));')
    add('st', T, '%(T)s a, %(T)s b', 'struct { char c; %(T)s x, y[2]; } s; s.x = a; s.y[1] = b; s.y[0] = s.x; return s.y[1] - s.y[0];')
    add('glob', T, '%(T)s a', 'static %(T)s g = 1.5, h[2]; h[1] = g; g = a; return h[1] - g;')
    add('call', T, '%(T)s a, %(T)s b', 'return ev%s(a) * b;' % t)
    add('callexp', T, '%(T)s a, %(T)s b', '%%(T)s x = ev%s(a); %%(T)s y = ev%s(b); return x - y;' % (t, t))
    add('poly', T, '%(T)s x', 'return ((2.5 * x + 1) * x - 3) * x + .25;')
    add('ptr', T, '%(T)s *p/*4*/', '%(T)s *e = p + 4, s = 0; while(p < e) s += *p++; return s;')
    add('cast', 'int', '%(T)s a', 'return (a > 0) - (a < 0);')
    return Unit('op_' + t, '\n'.join(s) + '\n')
RNG = {'s8': (-128, 127), 'u8': (0, 255), 's16': (-32768, 32767), 'u16': (0, 65535), 's32': (-2147483648, 2147483647), 'u32': (0, 4294967295)}
def inrange(t, a, ft):
    if t == '_Bool': return '%s == %s' % (a, a)
    if t == 's64': return '%s >= -9223372036854775808.0 && %s < 9223372036854775808.0' % (a, a)
    if t == 'u64': return '%s > -1.0 && %s < 18446744073709551616.0' % (a, a)
    return '%s > %d.0 && %s < %d.0' % (a, RNG[t][0] - 1, a, RNG[t][1] + 1) if ft == 'double' or t not in ('s32', 'u32') else '%s > %s && %s < %d.0' % (a, '-1.0' if t == 'u32' else '-2147483904.0', a, RNG[t][1] + 1)
def conv(t, T, its=IT, ul=True):
    s = []
    for i in its:
        p = 'PRE(%s)' % inrange(i, 'a', T)
        s.append('TEST %s to_%s(%s a) %s\n{ return a; }' % (i, i, T, p))
        s.append('TEST %s toc_%s(%s *p/*1*/, %s a) %s\n{ *p = a; %s x = *p; return x; }' % (i, i, T, T, p, i))
        s.append('TEST int ton_%s(%s a) %s\n{ return (%s)a < 5; }' % (i, T, p, i))
        s.append('TEST %s fr_%s(%s a)\n{ return a; }' % (T, i, i))
        bo = ' PRE(((u8 *)p)[1] <= 1)' if i == '_Bool' else ''
        s.append('TEST %s frm_%s(%s *p/*2*/)' % (T, i, i) + bo + '\n{ %s x = p[1]; return x; }' % T)
        s.append('TEST %s frx_%s(%s a)\n{ return (%s)(%s)(a); }' % (T, i, 's64', T, i))
        s.append('TEST %s frc_%s(int c, %s a, %s b)\n{ return c ? a : b; }' % (T, i, i, T))
        s.append('TEST %s arg_%s(%s a)\n{ return ev%s(a); }' % (T, i, i, t))
        if ul or i != 'u64': s.append('TEST void st_%s(%s *p/*2*/, %s *q/*2*/, %s x)' % (i, i, T, i) + bo + '\n{ q[0] = p[1]; q[1] = x; }')
        if i not in ('_Bool', 'u64', 's64'):
            s.append('TEST %s ca_%s(%s *p/*1*/, %s a) PRE(a >= 0 && a < 1)\n{ *p = 5; *p += a; return *p; }' % (i, i, i, T))
    if 'u32' in its: return Unit('u32_' + t, '\n'.join(s) + '\n')
    s.append('TEST float tof(%s a)\n{ return a; }' % T)
    s.append('TEST double tod(%s a)\n{ return a; }' % T)
    s.append('TEST double toff(%s a)\n{ return (float)a; }' % T)
    s.append('TEST float todf(float a) PRE(a == a)\n{ double x = a; float y = x; return y; }')
    s.append('TEST void stc(float *p/*2*/, double *q/*2*/)\n{ p[0] = q[1]; q[0] = p[1]; }')
    s.append('TEST double retmix(int k, float f, double d, long l)\n{ if(k == 1) return f; if(k == 2) return l; if(k == 3) return k; return d; }')
    s.append('TEST float retmixf(int k, double d, u64 l, u16 u)\n{ switch(k){ case 0: return d; case 1: return l; case 2: return u; } return 1.0 / 3; }')
    s.append('enum En { EA = -1, EB = 7 };\nTEST %s fren(int i) PRE(i == -1 || i == 7)\n{ enum En e = i; return e; }' % T)
    s.append('TEST %s bf(int i, %s a)\n{ struct { int x:7; unsigned y:5; } s = { i, i }; return s.y * a; }' % (T, T))
    s.append('TEST int tobf(%s a) PRE(a > -60 && a < 60)\n{ struct { int x:7; int y:9; } s = { 1, 2 }; s.x = a; return s.x * 1000 + s.y; }' % T)
    s.append('TEST int idx(%s a, int *p/*4*/) PRE(a >= 0 && a < 4)\n{ return p[(int)a]; }' % T)
    s.append('TEST int sw(%s a) PRE(a > -1000 && a < 1000)\n{ switch((int)a){ case 0: return ev(1); case -3: return ev(2); case 9 : return ev(3); } return 4; }' % T)
    return Unit('conv_' + t, '\n'.join(s) + '\n')
LITS = ['0.0', '1.', '.5', '0.1', '1e10', '1e-10', '1.7976931348623157e308', '2.2250738585072014e-308', '4.9e-324', '1e-320', '123456789.123456789', '0x1p3', '0x1.8p-2', '0x.8p0', '0x1.fffffffffffffp1023', '0x1p-1074', '9007199254740993.0', '3.14159265358979323846', '1e22', '1e23', '5e-324', '0.3', '1e308', '16777217.0', '2.5e-1', '1E5', '1e+5', '09.5', '007.25', '1e400 * 0', '0x1.000001p0', '0x1.0000010000001p0', '8.5e-46', '1.17549435e-38', '3.4028234e38', '0.1e1', '00.1']
def lits():
    s = []
    for j, l in enumerate(LITS):
        if '*' in l: continue
        s.append('TEST double ld%d(void)\n{ return %s; }' % (j, l))
        if not any(x in l for x in ('e308', '-32', '1023', 'e-308', '-1074')):
            s.append('TEST float lf%d(void)\n{ return %sf; }' % (j, l))
            s.append('TEST float lc%d(void)\n{ return %s; }' % (j, l))
            s.append('TEST float lcf%d(void)\n{ return (float)%s; }' % (j, l))
            s.append('TEST double ln%d(double a) PRE(a == a)\n{ return -%s - a; }' % (j, l))
        s.append('TEST int li%d(double a)\n{ return a < %s; }' % (j, l))
    return Unit('lits', '\n'.join(s) + '\n')
CF = '''
TEST double c1(void)
{ return 1 / 3.0 + 2; }
TEST double c2(void)
{ return (float)0.1 * 3; }
TEST float c3(void)
{ return 0.1f * 3.0f; }
TEST double c4(void)
{ return 1 / 2 * 3.0; }
TEST float c5(void)
{ return 16777216.0f + 1.0f; }
TEST double c6(void)
{ return -0.0; }
TEST double c7(void)
{ return 0.0 * -1; }
TEST int c8(void)
{ return (int)3.99 + (int)-3.99 * 10 + (char)65.7; }
TEST int c9(void)
{ return (0.1 + 0.2 == 0.3) + 2 * (0.1f == 0.1) + 4 * (1.0 == 1) + 8 * (0.5f == 0.5); }
TEST u64 c10(void)
{ return (u64)1e19; }
TEST u64 c11(void)
{ return (u32)4e9; }
TEST s64 c12(void)
{ return (s64)-9e18; }
TEST double c13(void)
{ return 0xffffffffffffffffUL; }
TEST float c14(void)
{ return 0x7fffffff; }
TEST double c15(void)
{ return (double)(float)16777217; }
TEST double c16(void)
{ return 9007199254740993L; }
TEST float c17(void)
{ return 9007199254740993UL; }
TEST int c18(void)
{ return !0.5 + 2 * !0.0 + 4 * !-0.0 + 8 * (0.1 && 1) + 16 * (0.0 || -0.0); }
TEST int c19(void)
{ return 1.5 ? 2.5 : 3; }
TEST double c20(int a)
{ return a ? 1 : 2.5; }
TEST double c21(void)
{ return 1e308 * 10; }
TEST double c22(void)
{ return -1e308 * 10; }
TEST int c23(void)
{ return 1.0 > 0.5 && -1.0 < 0 && !(1.0 <= 0.99999999999999999) + 0; }
TEST float c24(void)
{ return 1.0f / 3.0f; }
TEST float c25(void)
{ return 1.0 / 3.0; }
TEST double c26(void)
{ return 1.0f / 3.0f; }
TEST double c27(float f)
{ return f * 2 + 1; }
TEST int c28(void)
{ return (_Bool)0.1 + (_Bool)0.0 * 2 + (_Bool)-0.0 * 4; }
TEST float c29(void)
{ const float k = 3.3; return k; }
TEST double c30(void)
{ enum { K = (int)2.9 }; int a[(int)3.5]; return K + sizeof a; }
TEST double c31(void)
{ double x = 5; x /= 3; x -= 0.5f; x *= 2; return x; }
TEST double c32(void)
{ return +1.5 - -2.5 + - +3.5; }
TEST s64 c33(void)
{ return (s64)(float)0x7fffffL + (s64)1e15; }
TEST float c34(void)
{ return (float)1e-46 + (float)1e-45; }
TEST float c35(void)
{ return 3.4e38f * 10 > 1 ? 1 : 2; }
static double gd = 1 / 3.; static float gf = 1 / 3.f; static float gg = 0.1; static double gh = 0.1f, gi = 1e16 + 1.0, gj = (float)1e8 + 1, gk = -0.0, gl = 5; static long gm = 3.99, gn = -2.5;
TEST void c36(void)
{ evd(gd); evf(gf); evf(gg); evd(gh); evd(gi); evd(gj); evd(gk); evd(gl); evl(gm); evl(gn); }
TEST void c37(float f, double d)
{ evdi(1, f, 2, d); evdi(f == d, d, 3L, f); evd(f); evf(d); }
struct V { float x, y, z; double w; char c; float a[3]; };
TEST void c38(struct V *p/*B48*/, struct V *q/*B48*/, u32 i) PRE(i < 3)
{ p->x = q->y - q->z; p->w = q->x * p->y; p->a[i] = q->w; q->a[i] += p->c; *p = *q; }
TEST double c39(double *p/*6*/, u32 i, u32 j) PRE(i < 2 && j < 3)
{ double (*m)[3] = (double (*)[3])p; m[i][j] *= 2; return m[1 - i][j] - m[i][2 - j]; }
TEST int c40(double a, float b, int c)
{ int r = 0; if(a < b && c) r |= 1; if(!(a >= b) || c > 3) r |= 2; if((a == b) == c) r |= 4; return r; }
TEST double c41(double a, double b) PRE(a == a)
{ return a < b ? a : b > 2 ? b : -a; }
TEST double c42(int n, double x) PRE(n >= 0 && n < 4)
{ double r = 1; while(n--) r *= x; return r; }
static double rec(double x, int n){ return n ? rec(x * 2, n - 1) + x : x; }
TEST double c43(double x)
{ return rec(x, 2); }
TEST float c44(float a, float b, double c, int k)
{ float (*fp)(float) = evf; float t = fp(a); return k ? t : (float)(b + c); }
TEST double c45(volatile double *p/*1*/)
{ *p = *p + 1; return *p * 2; }
'''
def units(ctx, ul=True):
    u = [ops('f', 'float', ul), ops('d', 'double', ul), conv('f', 'float', IT, ul), conv('d', 'double', IT, ul), conv('f', 'float', ['u32']), conv('d', 'double', ['u32']), lits(), Unit('misc', CF)]
    return u
def run(ctx):
    us = units(ctx)
    us += [Unit(x.name, x.src, oracle='clang', tag='clang') for x in units(ctx, not ctx.quick())]
    run_tv(ctx, us, per_unit_s=300 if ctx.quick() else 900)
