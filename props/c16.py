"""C16: the type of every expression, seen through _Generic, sizeof, typeof, types_compatible_p and
the signedness of what is done with the result."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
T = ['_Bool', 'char', 's8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', 'longlong', 'ulonglong', 'float', 'double']
INT = T[:12]
HDR = '''typedef long long longlong; typedef unsigned long long ulonglong;
#define ID(e) _Generic((e), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, float: 13, double: 14, default: 15)
#define SZ(e) (sizeof(e) * 16ul + ID(e))
#define TC(a, b) __builtin_types_compatible_p(a, b)
#define TY(e, t) TC(__typeof(e), t)
'''
N = lambda t: t.lstrip('_')
def sig(t): return {'longlong': 's64', 'ulonglong': 'u64'}.get(t, t)
def val(t, v): return '(%s)%s' % (t, v)
def isf(t): return t in ('float', 'double')
def pair(a, b):
    s = []
    A, B = sig(a), sig(b)
    dcl = '%s a = (%s)x; %s b = (%s)y;' % (a, a, b, b)
    def t(n, ret, body, pre=''): s.append('TEST %s %s(%s x, %s y) %s\n{ %s %s }' % (ret, n, A, B, pre, dcl, body))
    ops = ['+', '-', '*', '/'] + ([] if isf(a) or isf(b) else ['%', '&', '|', '^', '<<', '>>'])
    h = ' + '.join('(u64)%d * ID(a %s b)' % (16 ** i, o) for i, o in enumerate(ops))
    t('arith', 'u64', 'return %s;' % h)
    t('sizes', 'u64', 'return sizeof(a + b) + 16 * sizeof(a * b) + 256 * sizeof(1 ? a : b) + 4096 * sizeof(a, b) + 65536 * sizeof(a = b) + 0x100000 * sizeof(a < b) + 0x1000000ul * _Alignof(__typeof(a - b));')
    ops2 = ['a < b', 'a >= b', 'a == b', 'a != b', 'a && b', 'a || b', '1 ? a : b', '0 ? b : a', 'a, b', 'a = b', 'a += b', 'a *= b', '-a + b', '!a + b', '(a) - (+b)']
    t('other', 'u64', 'return %s;' % ' + '.join('(u64)%dul * ID(%s)' % (16 ** i, '(' + e + ')') for i, e in enumerate(ops2)))
    if not isf(a) and not isf(b):
        t('neg', 's64', 'return ((a + b) < 0) + ((a - b) < -1) * 2 + ((a ^ b) > -1) * 4 + ((a | b) / 2 < 0) * 8;')
        t('tneg', 's64', '__typeof(a - b) r = a - b; __typeof(1 ? a : b) q = x & 1 ? a : b; return (s64)r ^ (r < 0) ^ ((s64)q * 3) ^ (q < 0);')
        t('cond', 'u64', 'return x & 1 ? a : b;')
        t('condw', 's64', 'return (s64)((y & 1 ? a : b) * 1) + ((y & 2 ? b : a) < 0);')
        if a in ('s32', 'u32', 'u8', 's16', 's64', 'u64'):
            t('shr', 's64', 'return (s64)(a >> (b & 3)) + (s64)(a >> (b & 1));')
            t('mod', 's64', 'if((b | 1) == -1) return 1; return (s64)(a % (b | 1)) + (s64)(a / (b | 1));') if 'bool' not in (a + b).lower() and a not in ('s64', 'u64') and b not in ('s64', 'u64', 'longlong', 'ulonglong') and a[1:] != '32' else 0
    return s
def one(a):
    A = sig(a); s = []
    def t(n, ret, body): s.append('TEST %s %s(%s x)\n{ %s a = (%s)x; %s }' % (ret, n, A, a, a, body))
    u = ['+a', '-a', '!a', 'a++', '--a', 'a', '(a)', '*&a', '(const __typeof(a))a', '(a, a)', 'a ? a : a', '({ a; })', '&a ? 1 : 0']
    if not isf(a): u += ['~a', 'a << 1ul']
    t('un', 'u64', 'return %s;' % ' + '.join('(u64)%dul * ID((%s))' % (16 ** i, e) for i, e in enumerate(u)))
    lit = ['1', '1u', '1l', '1ul', "'a'", '1.0', '1.0f', '(char)1', '0x80000000', 'sizeof 1', '(_Bool)1', '(short)1', '1ll', '1ull']
    for k in range(2):
        t('lit%d' % k, 'u64', 'return %s;' % ' + '.join('(u64)%dul * ID(%s)' % (16 ** i, ('a + %s' if k == 0 else '1 ? %s : a') % (e if k == 0 else e)) for i, e in enumerate(lit)))
    t('alk', 'u64', 'return _Alignof(a) + 16 * _Alignof(%s) + 256 * sizeof(%s) + 4096 * sizeof a + 65536 * sizeof(&a) + 0x100000 * sizeof(%s[7]) + 0x10000000ul * sizeof(*&a);' % (a, a, a))
    t('tyof', 'u64', 'return TY(a, %s) + 2 * TY(&a, %s *) + 4 * TY(a + 1, %s) + 8 * TC(const %s, %s) + 16 * TC(const %s *, %s *) + 64 * TC(%s[2], %s[3]) + 128 * TC(%s(%s), %s(%s)) + 256 * TC(%s *const, %s *);' % ((a, a) + (a,) * 13))
    for b in T:
        s.append('TEST int tc_%s(void)\n{ return TC(%s, %s) + 2 * TC(%s *, %s *) + 4 * TC(%s[3], %s[3]) + 8 * TC(%s (*)(void), %s (*)(void)) + 16 * TC(int(%s), int(%s)) + 32 * _Generic((%s)0, %s: 1, default: 0) + 64 * _Generic((%s *)0, %s *: 1, default: 0) + 128 * _Generic((%s **)0, %s *const *: 2, %s **: 1, default: 0); }' % ((N(b),) + (a, b) * 8 + (b,)))
    return s
MISC = '''
struct S { int m; const char c; unsigned b3 : 3; int s5 : 5; unsigned b32 : 32; u8 b8 : 8; _Bool b1 : 1; long *lp; short arr[4]; struct { u16 n; } in; };
struct S gs_s; const struct S kcs = { 1 }; int gs_arr[3][4]; enum E { EA, EB = 4 }; u8 gs_k = 200;
static int fn(char a, double b){ return a; } static void vf(void){} const char *const kstr = "abc";
TEST u64 mem(void)
{ return ID(gs_s.m) + 16 * ID(gs_s.c) + 256 * ID(kcs.m) + 4096 * ID(gs_s.in.n) + 65536ul * ID(*gs_s.lp) + 0x100000ul * ID(gs_s.arr[1]) + 0x1000000ul * ID((&gs_s)->in.n); }
TEST u64 bf(void)
{ return ID(+gs_s.b3) + 16 * ID(+gs_s.s5) + 256 * ID(+gs_s.b32) + 4096 * ID(+gs_s.b8) + 65536ul * ID(+gs_s.b1) + 0x100000ul * ID(gs_s.b3 + gs_s.b32) + 0x1000000ul * ID(gs_s.b3 << 1) + 0x10000000ul * ID(-gs_s.b3) + 0x100000000ul * ID(gs_s.b3 + 1u) + 0x1000000000ul * ID(~gs_s.b8); }
TEST s64 bfv(u32 x)
{ struct S s; s.b3 = x; s.s5 = x >> 3; s.b32 = x; s.b8 = x >> 5; s.b1 = x >> 9; return (s64)(s.b3 - 5) + (s64)(s.b32 - 5) * 3 + (s64)(s.b8 - 300) + (s64)(s.b1 - 2) + (s64)(s.s5 - 6u) + (-s.b3 < 0) + (-s.b32 < 0) * 2 + (~s.b8 < 0) * 4; }
TEST int ptrs(void)
{ return TY(&gs_s.m, int *) + 2 * TY(&gs_s.c, const char *) + 4 * TY(&kcs.m, const int *) + 8 * TY(gs_arr, int[3][4]) + 16 * TY(*gs_arr, int[4]) + 32 * TY(&gs_arr, int(*)[3][4]) + 64 * TY(gs_arr + 1, int(*)[4]) + 128 * TY(**gs_arr, int) + 256 * TY(&*gs_arr, int(*)[4]) + 512 * TY(&gs_arr[1][2], int *) + 1024 * TY(gs_s.arr, short[4]) + 2048 * TY(gs_s.arr + 0, short *); }
TEST int fns(void)
{ return TY(fn, int(char, double)) + 2 * TY(&fn, int(*)(char, double)) + 4 * TY(*fn, int(char, double)) + 8 * TY(fn(1, 2), int) + 16 * TY(1 ? fn : 0, int(*)(char, double)) + 32 * TY(vf(), void) + 64 * TY(0 ? 0 : &fn, int(*)(char, double)) + 128 * TY(fn, int(char, float)) + 256 * TY(fn, int(char)); }
TEST int gen_fn(void)
{ return _Generic(fn, int(*)(char, double): 1, default: 0); }
TEST int gen_arr(void)
{ return _Generic("x", char *: 1, default: 0) + 2 * _Generic(gs_s.arr, short *: 1, default: 0); }
TEST int strs(void)
{ return TY("abc", char[4]) + 2 * (sizeof("abc") == 4) + 4 * (sizeof "a" "bc" == 4) + 32 * _Generic(&"x", char(*)[2]: 1, default: 0) + 64 * TY(*"x", char) + 128 * TY("x" + 0, char *) + 256 * TY(L"ab"[0], int) + 512 * (sizeof(L"ab") == 12) + 1024 * TY(&kstr, const char *const *) + 2048 * sizeof(kstr); }
TEST int pdiff(void)
{ return ID(&gs_s.m - &gs_s.m) + 16 * ID((char *)0 - (char *)0) + 256 * ID(gs_arr[1] - gs_arr[0]) + 4096 * ID(&gs_s == 0) + 65536 * ID(!&gs_s) + 0x100000 * ID(&gs_s && 1) + 0x1000000 * ID((long)&gs_s); }
TEST int cqual(int c)
{ const int *a = 0; int *b = 0; volatile int *v = 0; void *w = 0; const void *cw = 0; return TY(c ? a : b, const int *) + 2 * TY(c ? b : b, int *) + 4 * TY(c ? v : a, const volatile int *) + 8 * TY(c ? b : w, void *) + 16 * TY(c ? a : w, const void *) + 32 * TY(c ? b : 0, int *) + 64 * TY(c ? 0 : a, const int *) + 128 * TY(c ? b : (void *)0, int *) + 256 * TY(c ? cw : b, const void *) + 512 * TY(c ? (const int *)0 : (void *)0, const int *) + 1024 * TY(c ? v : cw, const volatile void *) + 2048 * TY(c ? w : 0, void *); }
TEST int condarr(int c)
{ int x[3]; const int y[4] = { 0 }; return TY(c ? x : x, int *) + 2 * TY(c ? x : y, const int *) + 4 * TY(c ? "a" : 0, char *) + 8 * TY(c ? gs_arr : gs_arr, int(*)[4]) + 16 * TY((c, x), int *) + 32 * (sizeof(c ? x : x) == 8) + 64 * (sizeof(0, x) == 8) + 128 * TY(c ? vf() : vf(), void); }
TEST int generic(u8 a, s16 b, const int c, float f)
{ return _Generic(a, int: 1, unsigned char: 2, default: 3) + 4 * _Generic(a + 0, int: 1, unsigned char: 2, default: 3) + 16 * _Generic(b, default: 1, short: 2) + 64 * _Generic(c, int: 1, default: 3) + 256 * _Generic(f, double: 1, float: 2, default: 3) + 1024 * _Generic(&c, int *: 1, const int *: 2, default: 3) + 4096 * _Generic(f + a, double: 1, float: 2, default: 3) + 16384 * _Generic((const int)3, int: 1, default: 2); }
TEST int gensel(int x, long y)
{ return _Generic(x, int: ev, long: evl)(x) + (int)_Generic(y, int: ev, long: evl)(y) + _Generic(x, long: ev(99), default: 5, char: ev(98)); }
TEST int genstr(void)
{ struct S s; const struct S *p = &kcs; return _Generic(s, struct S: 1, default: 2) + 4 * _Generic(*p, struct S: 1, const struct S: 2, default: 3) + 16 * _Generic(p, struct S *: 1, const struct S *: 2, default: 3) + 64 * _Generic(&p->in, const __typeof(s.in) *: 1, default: 2) + 256 * _Generic(&p->arr[1], const short *: 1, short *: 2, default: 3); }
TEST int enums(void)
{ return ID(EA) + 16 * ID(EB) + 256 * ID(EA + 1) + 4096 * ID(EB * 1u) + 65536 * sizeof(enum E) + 0x100000 * ID(EA ? EA : EB) + 0x1000000 * ID(-EB); }
TEST int sizes(int n) PRE(n > 0 && n < 5)
{ int i = 3; int r = sizeof(i++) + sizeof(char[i]) + i; char v[n]; short w[n][3]; r += 100 * sizeof v + 1000 * sizeof w + 100000 * sizeof w[0] + sizeof(int[n++]); return r * 8 + n; }
TEST int sizeexpr(void)
{ return sizeof(int) * 2 + sizeof gs_arr + sizeof gs_arr[0] * 3 + sizeof(struct S) + sizeof((struct S *)0)->arr + sizeof(char) - 1; }
TEST int sizeexpr2(void)
{ return (sizeof(int) - 5 > 0) + 2 * (sizeof(char) - 2 < 0) + 4 * (-1 < sizeof 1) + 8 * (_Alignof(int) - 5 > 0); }
TEST int clit(void)
{ return TY(((int[]){ 1, 2, 3 }), int[3]) + 2 * TY((struct S){ 1 }.arr, short[4]) + 4 * TY(&(const int){ 3 }, const int *) + 8 * (sizeof((char[]){ "abc" }) == 4) + 16 * TY((short){ 1 }, short) + 32 * TY(((int[]){ [5] = 1 }), int[6]); }
TEST int stmtx(int a)
{ return ID(({ a; })) + 16 * ID(({ u8 q = a; q; })) + 256 * ID(({ char c = 2; c + 1; })) + 8192 * TY(({ (void)0; }), void) + 65536 * ID(({ u32 q = a; q; }) + 1); }
TEST int compl1(u8 a, u16 b, s8 c)
{ return (~a < 0) + 2 * (~b > 0) + 4 * (a - b < 0) + 8 * ((u8)~a < 0) + 16 * (-c > 0) + 64 * ((u8)(a + 200) > 255) + 256 * (a * 256 > 255); }
TEST int tyofq(void)
{ const int ci = 3; volatile long vl = 2; __typeof(ci) a = 1; __typeof(+ci) b = 2; b++; __typeof(&vl) c = &vl; __typeof(gs_arr) d = { { 1 } }; __typeof(int *) e = &b, f = e; return TY(&a, const int *) + 2 * TY(&b, int *) + 4 * TY(c, volatile long *) + 8 * TY(d, int[3][4]) + 16 * TY(f, int *) + 32 * TY(vl + 0, long) + d[0][0] * 64 + *f * 128; }
TEST int autot(u8 x, s64 y)
{ __auto_type a = x; __auto_type b = y + 1u; __auto_type c = &x; __auto_type d = gs_arr; return ID(a) + 16 * ID(b) + 256 * TY(c, u8 *) + 512 * TY(d, int(*)[4]) + (a == x) * 1024 + (b == y + 1) * 2048; }
TEST s64 shifts(u8 a, s32 b, u32 c, s64 d) PRE(b >= 0 && b < 8 && c < 8)
{ return (a << b) * 1L + (s64)(c << d % 1) + ((1 << b) < 0) + (1u << b) + (s64)(1L << c) + ((-1 >> b) < 0) + ((0x80000000 >> b) > 0) * 4 + (s64)((int)c >> 1l); }
TEST u64 literal(void)
{ return ID(2147483647) + 16 * ID(2147483648) + 256 * ID(0x7fffffff) + 4096 * ID(0x80000000) + 65536ul * ID(0xffffffff) + 0x100000ul * ID(0x100000000) + 0x1000000ul * ID(9223372036854775807) + 0x10000000ul * ID(0x8000000000000000) + 0x100000000ul * ID(017777777777) + 0x1000000000ul * ID(037777777777) + 0x10000000000ul * ID(4294967295u) + 0x100000000000ul * ID(4294967296u) + 0x1000000000000ul * ID(1lu) + 0x10000000000000ul * ID(0b1) + 0x100000000000000ul * ID(1LLU); }
TEST u64 literal2(void)
{ return ID('a') + 16 * ID(L'a') + 256 * ID(1.f) + 4096 * ID(1e3) + 65536ul * ID(0x1p3) + 0x100000ul * ID(-2147483648) + 0x1000000ul * ID(2147483648u) + 0x10000000ul * ID(4294967295l) + 0x100000000ul * ID(0x80000000l) + 0x1000000000ul * ID(0xffffffffffffffff) + 0x10000000000ul * ID(1l) + 0x100000000000ul * ID(1ll) + 0x1000000000000ul * ID(0xfull) + 0x10000000000000ul * ID(__LINE__); }
TEST int builtins(int a)
{ return __builtin_expect(a, 1) * 0x100000 + 16 * ID(__builtin_offsetof(struct S, arr)) + 256 * ID(a + __builtin_types_compatible_p(int, long)) + 65536 * TY(__builtin_choose_expr(1, (short)1, 2l), short) + 0x20000 * TY(__builtin_choose_expr(0, (short)1, 2l), long); }
TEST int vlat(int n) PRE(n > 1 && n < 4)
{ int v[n][2]; __typeof(v) w; __typeof(&v[0]) p = v; w[1][1] = 5; n = 7; return sizeof v + sizeof w * 2 + TY(p, int(*)[2]) + TY(*p, int[2]) * 2 + (int)((char *)(p + 1) - (char *)p) * 1000 + w[1][1]; }
'''
def units(ctx):
    u = []
    cur, n = [], 0
    for a in T:
        for b in T:
            ts = pair(a, b)
            u.append(Unit('p_%s_%s' % (N(a), N(b)), HDR + '\n'.join(ts) + '\n'))
        u.append(Unit('o_' + N(a), HDR + '\n'.join(one(a)) + '\n'))
    u.append(Unit('misc', HDR + MISC))
    return u
def run(ctx):
    us = units(ctx)
    if not ctx.quick(): us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us]
    run_tv(ctx, us, per_unit_s=200)
