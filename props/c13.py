"""C13: pointer arithmetic, subscripting, VLAs."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
IT = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64']
ELEM = [('s8', 1), ('u8', 1), ('s16', 2), ('u16', 2), ('s32', 4), ('u32', 4), ('s64', 8), ('u64', 8), ('struct S3', 3), ('struct S12', 12), ('struct S16', 16), ('struct S24', 24), ('struct S40', 40), ('_Bool', 1), ('charp', 8)]
DECL = 'struct S3 { char a, b, c; }; struct S12 { int a; short b; int c; }; struct S16 { long a; int b, c; }; struct S24 { char a; long b; short c; }; struct S40 { int a, b; long c[4]; }; typedef char *charp;\n'
def elem_unit(e, n):
    s = [DECL]
    st = e.startswith('struct')
    P = '%s *p/*B%d*/' % (e, n * 4)
    val = '.c' if st else ''
    if e == 'struct S40': val = '.c[1]'
    R = 's64' if e != 'charp' else 's64'
    cast = '(s64)' if e == 'charp' else ''
    for t in IT:
        s.append('TEST %s *add_%s(%s, %s i)\n{ return p + i; }' % (e, t, P, t))
        s.append('TEST %s *radd_%s(%s, %s i)\n{ return i + p; }' % (e, t, P, t))
        s.append('TEST %s *sub_%s(%s, %s i)\n{ return p - i; }' % (e, t, P, t))
        s.append('TEST %s *ca_%s(%s, %s i)\n{ p += i; p++; return p; }' % (e, t, P, t))
        s.append('TEST %s *cs_%s(%s, %s i)\n{ p -= i; --p; return p; }' % (e, t, P, t))
        s.append('TEST %s *adr_%s(%s, %s i)\n{ return &p[i]; }' % (e, t, P, t))
        s.append('TEST %s *adr2_%s(%s, %s i)\n{ return &i[p] + 1; }' % (e, t, P, t))
        s.append('TEST s64 ld_%s(%s, %s i) PRE(i >= 0 && i < 4)\n{ return %sp[i]%s; }' % (t, P, t, cast, val))
        s.append('TEST void st_%s(%s, %s i, %s v) PRE(i >= 0 && i < 4)\n{ p[i]%s = %sv; }' % (t, P, t, 's64', val, '(char *)' if cast else ''))
        s.append('TEST s64 ldm_%s(%s, %s i) PRE(i >= 1 && i < 4)\n{ return %s(p + 4)[-i]%s; }' % (t, P, t, cast, val) if t[0] == 's' else
                 'TEST s64 ldm_%s(%s, %s i) PRE(i >= 1 && i < 4)\n{ return %s(*(p + 4 - i))%s; }' % (t, P, t, cast, val))
        s.append('TEST s64 expr_%s(%s, %s i, %s j) PRE(i < 4 && i >= 0 && j >= 0 && j <= i)\n{ return %sp[i - j]%s; }' % (t, P, t, t, cast, val))
        s.append('TEST s64 diff_%s(%s, %s i, %s j)\n{ %s *a = p + (i & 63), *b = p + (j & 63); return a - b; }' % (t, P, t, t, e))
    s.append('TEST s64 diffp(s64 a, s64 b) PRE((a - b) %% %d == 0)\n{ return (%s *)a - (%s *)b; }' % (n, e, e) if n in (1, 2, 4, 8, 16) else
             'TEST s64 diffp(s64 a, s64 b) PRE(a >= -5000 && a < 5000 && b > 0 && b < 300)\n{ %s *q = (%s *)(b * %d); return (%s *)(a * %d + b * %d) - q; }' % (e, e, n, e, n, n))
    for k in (-129, -128, -3, -1, 0, 1, 2, 15, 127, 128, 70000, 0x7fffffff // n, 0x80000000 // n + 1):
        s.append('TEST %s *k%s(%s)\n{ return p + %s; }' % (e, str(k).replace('-', 'm'), P, '(%d)' % k if k <= 0x7fffffff else '%dL' % k))
        s.append('TEST %s *kk%s(%s)\n{ %s *q = p; q -= %d; return &q[%d]; }' % (e, str(k).replace('-', 'm'), P, e, k // 2, k))
    for nm, op in [('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>='), ('eq', '=='), ('ne', '!=')]:
        s.append('TEST int %s(u64 a, u64 b) PRE(a < 1UL << 47 && b < 1UL << 47)\n{ %s *p = (%s *)a, *q = (%s *)b; return p %s q; }' % (nm, e, e, e, op))
        s.append('TEST int if%s(u64 a, u64 b) PRE(a < 1UL << 47 && b < 1UL << 47)\n{ %s *p = (%s *)a, *q = (%s *)b; if(p %s q) return ev(1); return ev(2); }' % (nm, e, e, e, op))
        if nm in ('eq', 'ne'): s.append('TEST int z%s(u64 a)\n{ %s *p = (%s *)a; return (p %s 0) + (!p) * 2 + (p && a) * 4 + (p ? 8 : 16); }' % (nm, e, e, op))
    s.append('TEST s64 postp(%s)\n{ %s *q = p; %s *r = q++; %s *u = ++q; return (r - p) * 100 + (u - p) * 10 + (q-- - p) + (--q - p) * 1000; }' % (P, e, e, e))
    s.append('TEST s64 deref(%s, u32 i) PRE(i < 2)\n{ %s *q = p; q += i; return %s(*q++)%s + (s64)%s(*++q)%s; }' % (P, e, cast, val, cast, val) if not cast else
             'TEST s64 deref(%s, u32 i) PRE(i < 2)\n{ %s *q = p; q += i; return (s64)(*q++) + (s64)*++q; }' % (P, e))
    s.append('static %s arr[6]; TEST s64 glob(u32 i, s64 v) PRE(i < 6)\n{ arr[i]%s = %sv; return %s(&arr[5] - i)->%s == 3; }' % (e, val, '(char *)' if cast else '', '', val[1:]) if st else
             'static %s arr[6]; TEST s64 glob(u32 i, s64 v) PRE(i < 6)\n{ arr[i] = %sv; return *(&arr[5] - i) == 0; }' % (e, '(char *)' if cast else ''))
    s.append('TEST s64 loc(u32 i, u32 j, s64 v) PRE(i < 3 && j < 3)\n{ %s a[3]; a[0]%s = a[1]%s = a[2]%s = 0; a[i]%s = %sv; return (s64)a[j]%s + (&a[j] - a) + sizeof a; }' % (e, val, val, val, val, '(char *)' if cast else '', val))
    s.append('TEST s64 two(u32 i, u32 j, s64 v) PRE(i < 2 && j < 3)\n{ %s a[2][3]; for(int x = 0; x < 2; x++) for(int y = 0; y < 3; y++) a[x][y]%s = (%s)(s64)(x * 8 + y); a[i][j]%s = %sv; return (s64)a[1][j]%s * 3 + (s64)a[i][2]%s + (s64)(*(*(a + i) + j))%s + sizeof a[i] + sizeof *a[0]; }' % (
        e, val, {'struct S3': 'char', 'struct S12': 'int', 'struct S16': 'int', 'struct S24': 'short', 'struct S40': 'long'}.get(e, e), val, '(char *)' if cast else '', val, val, val))
    return Unit('e_' + e.replace('struct ', ''), '\n'.join(s) + '\n')

MISC = DECL + '''
TEST int three(u8 *p/*24*/, u32 i, u32 j, u32 k) PRE(i < 2 && j < 3 && k < 4)
{ u8 (*q)[3][4] = (u8 (*)[3][4])p; q[i][j][k] += 3; return q[i][j][k] * 3 + (*q)[j][k] + *(*(*(q + i) + j) + k) + (&q[i][j][k] - p); }
TEST s64 rowdiff(u8 *p/*24*/, u32 i, u32 j) PRE(i < 6 && j < 6)
{ int (*q)[3] = (int (*)[3])p; return (q + i) - (q + j) + ((char *)(q + i) - (char *)q) + (q[i] - q[j]); }
TEST s64 rowadd(s64 a, s32 i)
{ short (*q)[5] = (short (*)[5])a; return (s64)(q + i) + (s64)&q[i][2] - (s64)*q; }
struct In { char c; int v[3]; struct { short s; u8 b[2]; } in[2]; };
TEST int inner(struct In *p/*B40*/, u32 i, u32 j, s32 v) PRE(i < 2 && j < 2)
{ p->in[i].b[j] = v; p->v[i + j] = v; (*p).in[j].s ^= v; return p->in[i].b[j] + p->v[j] + (&p->in[1].b[1] - p->in[i].b > 3); }
TEST s64 offs(struct In *p/*B40*/, s32 i)
{ return (char *)&p->in[i].b - (char *)p + ((char *)&p[i].v[1] - (char *)p) * 1000; }
TEST s64 offs2(struct In *p/*B40*/, s64 i, u8 j)
{ return (s64)&p[i].in[j].s; }
TEST int strlit(u32 i) PRE(i < 6)
{ return "hello"[i] + i["abcde"] + *("xyzwv" + i); }
TEST int ptrptr(u64 *p/*3*/, u32 i, u32 j) PRE(i < 3 && j < 3)
{ u64 *t[3] = { p, p + 1, p + 2 }; u64 **q = t; return *q[i] == **(t + j) ? 1 : (q + i)[0][0] > *t[j]; }
TEST int fnarr(u32 i, int x) PRE(i < 3)
{ int (*t[3])(int) = { ev, 0, ev }; return t[i] ? t[i](x) : 5; }
TEST int fnptr(int x)
{ int (*f)(int) = &ev; int (**g)(int) = &f; return (*f)(x) + (**g)(x + 1) + (***g)(x + 2); }
TEST s64 voidp(s64 a, s32 i)
{ void *p = (void *)a; return (s64)(p + i) - (s64)((char *)p - i) + (((void *)(a + 8)) - p); }
TEST int incin(u8 *p/*6*/)
{ u8 *q = p; int s = 0; s += *q++ * 2; s += *++q; s += q[-1]; (*q)++; ++*q; s += (*q)--; s += *q--; return s * 10 + (q - p); }
TEST int ppinc(u8 *p/*6*/, int c)
{ u8 *q = p, **r = &q; (*r)++; *(*r)++ = c; **r += 1; (*r)[1]--; return q - p; }
TEST int revloop(u8 *p/*4*/)
{ int s = 0; for(u8 *q = p + 4; q-- > p;) s = s * 3 + *q; return s; }
TEST int cmpnull(s64 a)
{ char *p = (char *)a; if(!p) return 1; if(p == (char *)-1) return 2; if(a > 0 && p > (char *)0x7ffffff0) return 3; return 4; }
TEST int constadr(u8 *p/*B8*/)
{ static int arr[4]; static int *q = &arr[2], *r = arr + 3; *q = 7; *r = p[0]; return arr[2] * 3 + arr[3] + (r - q) + (q == &arr[2]); }
TEST int negidx(int *p/*6*/, s8 i) PRE(i >= -3 && i < 3)
{ int *q = p + 3; q[i] = 5; return q[-1 - (i < 0 ? i : 0)] + (q + i)[0]; }
TEST int bigstep(s64 a, s16 i, s8 j) PRE(a > 0 && a < 4096)
{ struct S40 *p = (struct S40 *)a; return (&p[i] + j) - p == i + j; }
TEST s64 arrparam2(s64 a, s32 i)
{ int (*f)(int [][7], int) = 0; int (*q)[7] = (int (*)[7])a; return (s64)q[i] + (s64)&q[i][i & 7] + (f != 0); }
static int ap(int a[3][4], int i, int j){ return a[i][j] + sizeof a; }
TEST int arrparam(int *p/*12*/, u32 i, u32 j) PRE(i < 3 && j < 4)
{ return ap((int (*)[4])p, i, j); }
TEST int unalig(u8 *p/*B16*/, u32 i) PRE(i < 4)
{ int *q = (int *)(p + i); *q += 3; short *s = (short *)((char *)q + 5); *s = *q; return q[1] + *s; }
TEST s64 ptrint(s64 a)
{ int *p = (int *)a; u32 l = (u64)p; short h = (long)p; return (s64)p + l + h + (int)(s64)p; }
TEST int boolp(s64 a)
{ char *p = (char *)a; _Bool b = p; return b + (_Bool)p * 2 + (p != 0) * 4; }
TEST s64 condp(s64 a, int c)
{ char *p = (char *)a; return (s64)(c ? p : 0) + (s64)(c ? 0 : p + 1) + (s64)(c ? p : (void *)(p + c)); }
'''
def vla_unit():
    s = []
    for t in ['u8', 's32', 'u64', 's8', 'u16', 's64']:
        N = '(int)(n & 3) + 1' if t[0] == 'u' else '(n & 3) + 1'
        s.append('TEST s64 sz_%s(%s n)\n{ int a[%s]; char b[%s][3]; return sizeof a + sizeof b * 100 + sizeof b[0] * 10000; }' % (t, t, N, N))
        s.append('TEST s64 szt_%s(%s n)\n{ typedef short T[%s]; n += 1; T x; T y[2]; return sizeof x + sizeof y * 100 + sizeof(T) * 10000; }' % (t, t, N))
        s.append('TEST s64 use_%s(%s n, u32 i, int v) PRE(i <= 0 || i < ((n & 3) + 1))\n{ int a[%s]; for(int k = 0; k < (n & 3) + 1; k++) a[k] = k * 3; a[i] += v; int r = 0; for(int k = 0; k < (n & 3) + 1; k++) r = r * 5 + a[k]; return r; }' % (t, t, N))
        s.append('TEST s64 two_%s(%s n, u32 i, u32 j) PRE(i < 2 && j < 3)\n{ int m = (n & 1) + 3; short a[2][m]; for(int x = 0; x < 2; x++) for(int y = 0; y < m; y++) a[x][y] = x * 10 + y; short (*q)[m] = a; m = 9; return a[i][j] * 100 + (*(q + i))[j] + ((char *)&a[1] - (char *)a) * 10000 + sizeof *q + sizeof a[0][0]; }' % (t, t))
        s.append('TEST s64 ptr_%s(s64 p, %s n, s16 i)\n{ int m = (n & 3) + 1; int (*q)[m] = (void *)p; return (s64)(q + i) + (s64)&q[i][1]; }' % (t, t))
        s.append('TEST s64 pdiff_%s(%s n, u32 i, u32 j)\n{ int m = (n & 3) + 1; i &= 7; j &= 7; char (*q)[m] = (void *)64; return (q + i) - (q + j); }' % (t, t))
    s.append('''static int vp(int n, int m, short a[n][m], int i, int j){ return a[i][j] + sizeof a[0]; }
TEST int vparam(u32 m, u32 i, u32 j) PRE(m >= 2 && m < 5 && i < 2 && j < 2)
{ short b[2][m]; for(int x = 0; x < 2; x++) for(int y = 0; y < m; y++) b[x][y] = x * 7 + y; return vp(2, m, b, i, j); }
TEST int vside(int x)
{ x &= 3; int a[ev(x) & 3 | 1]; int k = sizeof a / sizeof *a; return k + x; }
TEST int vsizeof(int x)
{ int y = x & 3; s64 z = sizeof(int[y++ + 1]); return z * 10 + y; }
TEST int vloop(u32 n) PRE(n < 3)
{ int r = 0; for(u32 i = 1; i <= n; i++){ char b[i * 5]; b[i * 5 - 1] = i; b[0] = 1; r += sizeof b + b[i * 5 - 1]; } return r; }
TEST int vgoto(u32 n) PRE(n < 3)
{ int r = 0; again: ; { int a[n + 1]; a[n] = n; r += a[n] + sizeof a; } if(n--) goto again; return r; }
TEST int vnext(int x, u32 n) PRE(n < 4)
{ int before = x; char a[n + 1]; int after = x + 1; a[0] = 3; a[n] = 5; return before * 100 + after * 10 + a[0] + a[n]; }
TEST int vcall(u32 n) PRE(n < 20)
{ char a[n + 1]; a[n] = ev(n); int r = ev2(a[n], 3); return r + a[n] + ev6(1, 2, 3, 4, 5, a[n]); }
TEST int vstk(u32 n, long x) PRE(n < 4)
{ char a[n * 3 + 1]; a[0] = 9; long r = ev8(1, 2, 3, 4, 5, 6, a[0], x); return r + a[0]; }
TEST s64 vptrarr(u32 n, int x) PRE(n < 4)
{ int *a[n + 1]; struct { long q[3]; } *b[n + 1][2]; a[n] = &x; int (*c[n + 1])(int); c[n] = ev; return sizeof a + sizeof b * 100 + sizeof c * 10000 + *a[n] + c[n](3); }
TEST s64 vptrvla(u32 n, int x) PRE(n < 3)
{ n++; short d[n][n]; short (*a[n])[n]; a[n - 1] = &d[n - 1]; (*a[n - 1])[0] = x; return sizeof a + sizeof *a * 100 + sizeof **a * 10000 + d[n - 1][0]; }
TEST s64 vtdef(u32 n, u32 m) PRE(n < 3 && m < 3)
{ typedef int R[n + 1]; n = 7; R a[m + 1], *p = a; m = 9; R b; b[0] = 1; (*p)[0] = 3; typedef R Q[2]; return sizeof(R) + sizeof a * 100 + sizeof *p * 10000 + sizeof(Q) * 1000000L + b[0] + a[0][0]; }
TEST int vtypeof(u32 n) PRE(n < 4)
{ int a[n + 2]; __typeof__(a) b; b[0] = 1; b[n + 1] = 2; a[n + 1] = 7; return sizeof b + b[0] + b[n + 1] + a[n + 1]; }
TEST int vnest(u32 n, u32 m) PRE(n < 3 && m < 3)
{ int r = 0; { char a[n + 1]; a[n] = 1; { short b[m + 1]; b[m] = 2; r = a[n] + b[m] + sizeof a + sizeof b; } a[0] = 4; r += a[0]; } return r; }
TEST int vbreak(u32 n) PRE(n < 3)
{ int r = 0; while(1){ char a[n + 1]; a[n] = n; r += a[n]; if(r > 1 || n == 0) break; if(r == 1) continue; r++; } return r; }
TEST int vsw(u32 n) PRE(n < 3)
{ int a[n + 1]; a[n] = n; switch(a[n]){ case 0: return 4; case 1: { char b[n + 3]; b[0] = 3; return b[0] + sizeof b; } } return sizeof a; }
TEST int vcallee(u32 n, u32 m) PRE(n < 3 && m < 3)
{ long s[n + 1]; s[0] = m; long t[m + 1]; t[m] = n; s[n] += 2; return s[0] * 10 + t[m] + (s != t); }
''')
    return Unit('vla', '\n'.join(s) + '\n')
def units(ctx):
    return [elem_unit(*e) for e in ELEM] + [Unit('misc', MISC), vla_unit()]
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us] + [Unit(x.name, x.src, flags=['-fpic'], tag='pic') for x in us] + [Unit(x.name, x.src, flags=['-fno-const-fold'], tag='nofold') for x in us]
    run_tv(ctx, us, per_unit_s=250 if ctx.quick() else 800)
