"""C02: conversions between scalar types."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
T = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', '_Bool', 'char']
X = T + ['enum_i', 'ptr']
DECL = 'enum ei { EI_A = -1, EI_B = 5 };\ntypedef enum ei enum_i; typedef char *ptr;\n'
def sig(t):   # declared parameter type: the harness knows the basic names only
    return {'enum_i': 's32', 'ptr': 'u64'}.get(t, t)
def inn(t, v):
    return {'enum_i': '(enum_i)%s', 'ptr': '(ptr)%s'}.get(t, '%s') % v
def out(t, e):
    return '(u64)(%s)' % e if t == 'ptr' else e
def pair(a, b):
    """a -> b"""
    ra = 'u64' if b == 'ptr' else sig(b)
    s = [DECL]
    A, B = sig(a), b
    viaint = (a == 'ptr') != (b == 'ptr') and '_Bool' not in (a, b)
    s.append('TEST %s cast(%s x)\n{ return %s; }' % (ra, A, out(b, '(%s)%s' % (B, inn(a, 'x')))))
    s.append('TEST s64 wide(%s x)\n{ return (s64)(%s)%s; }' % (A, B, inn(a, 'x')))
    s.append('TEST u64 uwide(%s x)\n{ return (u64)(%s)%s; }' % (A, B, inn(a, 'x')))
    s.append('TEST int truth(%s x)\n{ return (%s)%s ? 7 : 9; }' % (A, B, inn(a, 'x')))
    s.append('TEST int isneg(%s x)\n{ %s y = (%s)%s; return %s; }' % (A, B, B, inn(a, 'x'), '(s64)y < 0' if b == 'ptr' else 'y < 0'))
    if not viaint and (a, b) != ('_Bool', 'ptr'):
        s.append('TEST %s assign(%s x)\n{ %s y; y = %s; return %s; }' % (ra, A, B, inn(a, 'x'), out(b, 'y')))
        s.append('TEST %s init(%s x)\n{ %s y = %s; return %s; }' % (ra, A, B, inn(a, 'x'), out(b, 'y')))
        s.append('static %s helper(%s y){ return y; }\nTEST %s arg(%s x)\n{ return %s; }' % (B, B, ra, A, out(b, 'helper(%s)' % inn(a, 'x'))))
        s.append('static %s retconv(%s y){ return %s; }\nTEST s64 ret(%s x)\n{ return (s64)retconv(x); }' % (B, A, inn(a, 'y'), A))
        s.append('TEST void store(%s x, %s *p/*%s*/)\n{ *p = %s; }' % (A, 'u64' if b == 'ptr' else sig(b), '2', out(b, '(%s)' % B + inn(a, 'x'))))
    if a != '_Bool':
        s.append('TEST %s load(%s *p/*2*/)\n{ return %s; }' % (ra, A, out(b, '(%s)%s' % (B, inn(a, 'p[1]')))))
    for c in ('s8', 'u16', 's32', 'u64', '_Bool'):
        if b == 'ptr' and c != '_Bool': c2 = '(%s)(u64)' % c
        else: c2 = '(%s)' % c
        s.append('TEST s64 ch_%s(%s x)\n{ return (s64)%s(%s)%s; }' % (c, A, c2, B, inn(a, 'x')))
    return Unit('c_%s_%s' % (a, b), '\n'.join(s) + '\n')

MISC = '''
enum eu { EU_A, EU_B = 5, EU_C = 0x7fffffff };
TEST u64 enumu(int x)
{ enum eu e = x & 0x7fffffff; return e; }
TEST s64 enumu2(int x, s64 y)
{ enum eu e = (enum eu)(x & 0x7fffffff); return (e < y) + e * 2L; }
TEST s64 enumu3(u32 *p/*2*/) PRE(p[0] <= 0x7fffffff && p[1] <= 0x7fffffff)
{ enum eu *e = (enum eu *)p; return (u64)e[0] + (s64)e[1] + (s64)(e[0] > e[1]); }
TEST int enumsw(u32 x) PRE(x <= 0x7fffffff)
{ enum eu e = x; switch(e){ case EU_A: return 1; case EU_B: return 2; case EU_C: return 3; } return 4; }

int eb(_Bool b);
TEST int boolarith(_Bool a, _Bool b)
{ return a + b * 2 + !a * 4 + (a & b) * 8 + (a ^ b) * 16 + (a | b) * 32; }
TEST int boolinc(_Bool a, _Bool b)
{ a++; b += 5; return a * 2 + b; }
TEST int boolmul(_Bool a, int b)
{ a *= b; return a; }
TEST int boolcmpd(_Bool a, int b)
{ a = b > 3; return a; }
TEST int boolptr(u64 a)
{ _Bool b = (char *)a; return b; }
TEST int booldbl(double d)
{ _Bool b = d; return b; }
TEST int boolflt(float d)
{ return (_Bool)d; }
TEST _Bool retbool(int x)
{ return x; }
TEST _Bool retboolc(s8 x)
{ return x & 0x10; }
TEST int callb(int x)
{ return evb(x) + evb(x >> 31); }
TEST int calls(int x)
{ return evc(x) + evuc(x) + evs(x) + evus(x); }
TEST long calll(int x, u32 y)
{ return evl(x) + evl(y) + evul(x) + evul(y) + evl((s8)x); }
TEST int tern(int c, s8 a, u16 b)
{ return c ? a : b; }
TEST long ternl(int c, int a, long b)
{ return c ? a : b; }
TEST u64 ternu(int c, int a, u64 b)
{ return c ? a : b; }
TEST u64 ternu2(int c, int a, u32 b)
{ return c ? a : b; }
TEST s64 mixcmp(int a, u32 b, s64 c, u64 d)
{ return (a < b) + (a < c) * 2 + (a < d) * 4 + (b < c) * 8 + (c < d) * 16; }
TEST s64 chain(s64 x)
{ return (s8)(u16)(s32)x + (u8)(s16)(u32)x - (s16)(s8)x; }
TEST int narrowidx(u8 i, s8 *p/*4*/) PRE(i < 4)
{ return p[i]; }
TEST s64 negate(u8 a, u16 b, u32 c)
{ return -a + -b + -c; }
TEST s64 compl(u8 a, u16 b, u32 c)
{ return ~a + ~b + ~c; }
TEST u8 shiftn(u8 a)
{ return ~a >> 4; }
TEST s64 enumconv(int a)
{ enum ei { M = -3, N } e = a; return e + M; }
TEST s64 comma(int a, s8 b)
{ return (a, b); }
TEST s64 assignchain(s64 a, u8 *p/*1*/, s16 *q/*1*/)
{ s64 r; r = *q = *p = a; return r; }
TEST s64 assigns(int a, s8 *p/*1*/)
{ return (*p = a) + 1; }
TEST int castvoid(int a)
{ (void)ev(a); (void)a; return 3; }
TEST u64 ptrint(s8 *p/*4*/, int i) PRE(i >= 0 && i < 4)
{ return (u64)(p + i) - (u64)p; }
TEST u64 intptr(u32 x)
{ return (u64)(void *)(u64)x; }
TEST s64 fnptr(u64 x)
{ int (*f)(int) = (int (*)(int))x; return (s64)f + (f != 0); }
'''
def units(ctx):
    return [pair(a, b) for a in X for b in X] + [Unit('misc', MISC)]
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us] + [Unit(x.name, x.src, flags=['-fcast-with-builtin-types'], tag='cwbt') for x in us]
    run_tv(ctx, us, per_unit_s=200)
