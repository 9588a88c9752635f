"""C08: the System V x86-64 calling convention, with the other compiler on the far side of each call."""
import random
from harness import Unit, run_tv
LEVEL = 'translation_validation'
I = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', '_Bool', 'u8 *']
F = ['float', 'double']
EV = {'s8': 'evc', 'u8': 'evuc', 's16': 'evs', 'u16': 'evus', 's32': 'ev', 'u32': 'evu', 's64': 'evl', 'u64': 'evul', '_Bool': 'evb', 'u8 *': 'evul', 'float': 'evf', 'double': 'evd'}
MODES = [('uu', ['u', 'u']), ('ug', ['u', 'g']), ('gu', ['g', 'u'])]

def sigs():
    out = []
    for n in range(0, 11):
        for t in I + F:
            if n in (0,) and t != 's32': continue
            if n in (2, 3, 4, 5) and t not in ('s32', 'u8', 'double', 'u8 *', 's64'): continue
            if n in (6, 7, 8) and t in F and n == 6: continue
            out.append([t] * n)
    r = random.Random(7)
    for k in range(60):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 10, 11, 12])
        pf = r.choice([0.2, 0.5, 0.8])
        out.append([r.choice(F) if r.random() < pf else r.choice(I) for _ in range(n)])
    # the last register and the first stack slot of each class
    for last in I + F:
        out.append(['s64'] * 5 + [last, last])
        out.append(['double'] * 7 + [last, last])
        out.append(['s64'] * 6 + ['double'] * 8 + [last, last, 's32'])
    return out

def body_callee(ts):
    # every argument observed, and each modified before the others are read
    s = ''
    for i, t in enumerate(ts):
        s += ' %s(%sa%d);' % (EV[t], '(u64)' if t == 'u8 *' else '', i)
        if i % 3 == 0 and t in I and t not in ('_Bool', 'u8 *'): s += ' a%d += %d;' % (i, i + 1)
    return s

def sig_units():
    out = []
    rets = I[:9] + F + ['void', 'u8 *']
    sg = sigs()
    chunk = 40
    for mode, parts in MODES:
        for c in range(0, len(sg), chunk):
            a, b, decl = [], [], []
            for k, ts in enumerate(sg[c:c + chunk]):
                rt = rets[(c + k) % len(rets)]
                ps = ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)) or 'void'
                decl.append('%s f%d(%s);' % (rt, k, ps))
                ret = ''
                if rt != 'void':
                    src = [i for i, t in enumerate(ts) if (t in F) == (rt in F) and t != 'u8 *' and (rt != '_Bool' or t == '_Bool')]
                    if rt == 'u8 *': ret = 'return (u8 *)0x123456789a + %d;' % k
                    elif src: ret = 'return a%d;' % src[-1]
                    else: ret = 'return 1;'
                b.append('%s f%d(%s)\n{%s %s }' % (rt, k, ps, body_callee(ts), ret))
                # caller: arguments in another order where types allow, results used with other values live
                args = ['a%d' % i for i in range(len(ts))]
                if k % 2 and all(t not in ('_Bool', 'u8 *') for t in ts): args = args[::-1] if len(set(t in F for t in ts)) == 1 and not any(x in F for x in ts) else args
                tps = ', '.join('%s a%d%s' % (t, i, '/*4*/' if t.endswith('*') else '') for i, t in enumerate(ts)) or 'void'
                call = 'f%d(%s)' % (k, ', '.join(args))
                if rt == 'void': body = '%s; evv(%d); %s;' % (call, k, call); trt = 'void'
                elif rt in F: body = '%s r = %s; return %s;' % (rt, call, 'r'); trt = rt
                elif rt == 'u8 *': body = 's64 k = 3; return (s64)%s + k;' % call; trt = 's64'
                else: body = 's64 k = %s; %s r = %s; return k + r;' % ('a0' if ts and ts[0] in I and ts[0] != 'u8 *' else '5', rt, call); trt = 's64'
                a.append('TEST %s c%d(%s)\n{ %s }' % (trt, k, tps, body))
            src = '\n'.join(decl) + '\n#ifdef PA\n' + '\n'.join(a) + '\n#endif\n#ifdef PB\n' + '\n'.join(b) + '\n#endif\n'
            out.append(Unit('sig%d_%s' % (c // chunk, mode), src, parts={'u': list(zip(parts, ['PA', 'PB'])), 'g': [('g', 'PA'), ('g', 'PB')]}))
    return out

# aggregates by value as results
AGG = ['char a;', 'char a[2];', 'char a[3];', 'short a; char b;', 'char a[5];', 'char a[6];', 'char a[7];', 'int a;', 'int a, b;', 'short a, b, c;', 'long a;', 'char *a;', 'int a; char b[5];', 'char a[9];', 'char a[10];', 'char a[11];', 'char a[12];', 'char a[13];', 'char a[14];', 'char a[15];',
       'int a, b, c;', 'long a; int b;', 'long a, b;', 'char a[16];', 'int a; long b;', 'char a; long b;', 'char a[17];', 'long a, b; char c;', 'long a, b, c;', 'long a[5];', 'char a[31];', 'int a[9];',
       'float a;', 'double a;', 'float a, b;', 'float a, b, c;', 'float a, b, c, d;', 'double a, b;', 'double a; float b;', 'float a; double b;', 'double a, b, c;', 'float a[5];',
       'int a; float b;', 'float a; int b;', 'double a; int b;', 'int a; double b;', 'long a; double b;', 'double a; long b;', 'float a; int b; double c;', 'float a, b; int c;', 'int a; float b, c;', 'int a; float b; double c;', 'float a, b; long c;', 'long a; float b, c;', 'double a; char b;', 'char a; double b;',
       'struct { char c; short s; } a; int b;', 'struct { float x; float y; } a; float b;', 'union { int i; float f; } a;', 'union { long i; double f; } a; double b;', 'union { double d[2]; long i; } a;', 'union { float f; char c[12]; } a;', 'struct { double d; } a[2];', 'struct { int x:5, y:11; unsigned z:16; } a; float b;', 'int a:3; unsigned b:20; int c:9; double d;', '_Bool a; char b; short c; float d;', 'struct { struct { float f; } g; } a; int b;', 'char a[3]; float b;', 'enum { Q } a; float b;', 'char *a; double b;', 'void (*a)(void); long b;', 'double a[2];', 'float a[2]; double b;', 'float a[2]; float b[2];', 'int a[2]; int b[2];', 'short a[8];']
def agg_units():
    out = []
    for mode, parts in MODES:
        for c in range(0, len(AGG), 20):
            a, b, decl, n = [], [], [], []
            for k, m in enumerate(AGG[c:c + 20]):
                S = 'struct S%d' % k
                decl.append('%s { %s }; void nm%d(%s *);' % (S, m, k, S))
                n.append('void nm%d(%s *p){ __builtin_clear_padding(p); }' % (k, S))
                decl.append('%s r%d(u8 *p); %s r7%d(long a, long b, long c, long d, long e, long f, u8 *p); %s rd%d(double x, int k, u8 *p, float y); %s rv%d(void);' % (S, k, S, k, S, k, S, k))
                b.append('static %s gl%d;' % (S, k))
                b.append('%s r%d(u8 *p)\n{ return *(%s *)p; }' % (S, k, S))
                b.append('%s r7%d(long a, long b, long c, long d, long e, long f, u8 *p)\n{ evl(a); evl(e); evl(f); %s t = *(%s *)p; return t; }' % (S, k, S, S))
                b.append('%s rd%d(double x, int k, u8 *p, float y)\n{ evd(x); ev(k); evf(y); return k ? *(%s *)p : *(%s *)(p + 40); }' % (S, k, S, S))
                b.append('%s rv%d(void)\n{ u8 *p = (u8 *)&gl%d; for(int i = 0; i < sizeof gl%d; i++) p[i] = i * 3 + 1; evv(3); return gl%d; }' % (S, k, k, k, k))
                w = 'for(unsigned i = 0; i < sizeof t; i++) q[i] = ((u8 *)&t)[i];'
                P = 'u8 *p/*B40*/, u8 *q/*B40*/'
                a.append('TEST void c%d(%s)\n{ *(%s *)q = r%d(p); nm%d((void *)q); }' % (k, P, S, k, k))
                a.append('TEST int cl%d(%s, int x)\n{ int k = x * 3; %s t = r%d(p); *(%s *)q = t; nm%d((void *)q); return k + x; }' % (k, P, S, k, S, k))
                a.append('TEST void c7%d(%s, long a, double d)\n{ *(%s *)q = r7%d(a, a + 1, a + 2, 4, a + 4, a + 5, p); evd(d); nm%d((void *)q); }' % (k, P, S, k, k))
                a.append('TEST void cd%d(double x, int k, u8 *p/*B80*/, float y, u8 *q/*B40*/)\n{ %s t; t = rd%d(x, k, p, y); *(%s *)q = t; nm%d((void *)q); }' % (k, S, k, S, k))
                a.append('TEST void cv%d(u8 *q/*B40*/)\n{ %s t[2]; t[1] = rv%d(); t[0] = t[1]; *(%s *)q = t[0]; nm%d((void *)q); }' % (k, S, k, S, k))
                a.append('TEST void ci%d(%s, int k)\n{ k ? r%d(p) : rv%d(); r%d(p); *(%s *)q = k ? r%d(p) : rv%d(); nm%d((void *)q); }' % (k, P, k, k, k, S, k, k, k))
                a.append('TEST void cf%d(%s)\n{ %s (*f)(u8 *) = r%d; *(%s *)q = (*f)(p); evl(sizeof(f(p))); nm%d((void *)q); }' % (k, P, S, k, S, k))
            src = '\n'.join(decl) + '\n#ifdef PA\n' + '\n'.join(a) + '\n#endif\n#ifdef PB\n' + '\n'.join(b) + '\n#endif\n#ifdef PC\n' + '\n'.join(n) + '\n#endif\n'
            out.append(Unit('agg%d_%s' % (c // 20, mode), src, parts={'u': list(zip(parts, ['PA', 'PB'])) + [('g', 'PC')], 'g': [('g', 'PA'), ('g', 'PB'), ('g', 'PC')]}))
    return out

MISC = '''
long h1(long a); int h2(int a, double b); void h3(int *p, int n); double h4(double a, float b, int c); long h8(long a, long b, long c, long d, long e, long f, long g, long h);
int h9(char a, char b, char c, char d, char e, char f, char g, short h, unsigned char i, _Bool j); int kr(); unsigned char huc(int a); short hs(long a); _Bool hb(int a); float hf(double a); int rec(int n, int acc, int *p);
#ifdef PA
TEST long nest(long a)
{ return h1(h1(h1(a) + 1) + h1(a + 2)); }
TEST long live(long a, long b, long c)
{ long x = a * 3, y = b + c; return x + h1(a) * y; }
TEST long live1(long a, long b, long c)
{ long x = a * 3, y = b + c; x += (h1(b) - x); return (y ^ c) - (a + h1(c)) * (y - x); }
TEST long live2(long a, int b, double d)
{ return (a + b) * h2(b, d) + (b - a) * b; }
TEST long live3(long a, int b, double d)
{ return (a + b) - (b ^ h1(a + h2(1, d))); }
TEST long many(long a, long b)
{ return h8(a, b, h1(a), b, a + b, a - b, 5, 6); }
TEST long many2(long a, long b)
{ return h8(a, b, a * b, b, a + b, a - b, h1(3), a & b); }
TEST long many3(long a, long b)
{ return h8(a, b, a * b, b, a + b, a - b, 3, h8(1, 2, 3, 4, 5, 6, a, b)); }
TEST int narrow(int a, int b)
{ return h9(a, b, a + b, a - b, a * 2, b * 2, a ^ b, a | b, a & b, a); }
TEST int loc(int n)
{ int arr[5]; h3(arr, 5); return arr[n & 3] + arr[4]; }
TEST int loc2(int n)
{ char c = n; int v = 7; short s = n + 1; h3(&v, 1); return c + v + s; }
TEST double mixd(double a, float b, int c)
{ return h4(a, b, c); }
TEST double mixd2(double a, float b, int c)
{ double x = h4(b, a, c + 1); evd(x); x = h4(1, 2, 3); return x; }
TEST int unproto(int a, char b, long c)
{ return kr(a, b, (int)c); }
TEST int narrowret(int a)
{ int x = huc(a); x += hs(a) * 2; x ^= hb(a) * 4; return x; }
TEST float fret(double a)
{ float f = hf(a); float g = hf(f); evf(f); return g; }
TEST int fptr(int a, double d, int k)
{ int (*f)(int, double) = k ? h2 : 0; return k ? f(a, d) : 3; }
struct FT { int (*f)(int, double); long (*g)(long); };
TEST long ftab(long a, double d)
{ struct FT t[2] = { { h2, h1 }, { .g = h1, .f = h2 } }; long r = t[a & 1].f(a, d); r += t[!(a & 1)].g(a); return r; }
TEST int recur(int n, int *p/*1*/) PRE(n >= 0 && n < 4)
{ return rec(n, 0, p); }
TEST int args_fx(int a)
{ int x = h2(ev(a), 2.0); return x ^ h1((evv(1), a)); }
TEST void discard(int a, double d)
{ h1(a); h2(a, d); h4(d, d, a); huc(a); (void)hs(a); }
TEST int cond(int a, double d)
{ return (h2(a, d) && h1(a)) || huc(a) ? hs(a) : hb(a); }
TEST int idx(int *p/*4*/, int a)
{ int x = p[h1(a) & 3]; return x - p[huc(a) & 3]; }
TEST long deep(long a)
{ return h8(h8(h8(1, 1, 1, 1, 1, 1, 1, a), 1, 2, 3, 4, 5, 6, 7), 8, 3, 4, 5, 6, a, a + 1); }
TEST long deep2(long a)
{ return h8(a, 8, 3, 4, 5, 6, h8(8, a, 1, 2, 3, 4, h8(0, 0, 0, 0, 0, 0, a, 0), 6), 3); }
TEST double deepd(double a)
{ return h4(h4(h4(2, a, 3), 1, 2), 5, 6); }
TEST long manylive(long a, long b, long c, long d, long e, long f)
{ return (a * 3 + b) - ((c ^ d) + (e - f) * ((a + f) - (b ^ (c + h1((a - b) * (c + (d ^ (e + h1(f)))))))))  ; }
TEST long bigframe(long a, int i)
{ char buf[300]; buf[0] = a; buf[299] = a + 1; long r = h1(a); return r + buf[0] + buf[(i & 1) * 299]; }
TEST int arr_of_struct(int a)
{ struct { char c; int (*f)(int, double); } s[3]; s[1].f = h2; s[1].c = a; return s[1].f(s[1].c, 1.5); }
TEST long stk7(long a, long b, long c, long d, long e, long f, long g, char h, short i, int j)
{ long r = h1(g); return r + g + h * 2 + i * 3 + j * 5; }
TEST long stkmod(long a, long b, long c, long d, long e, long f, char g, _Bool h, u16 i)
{ g++; i -= 3; h = !h; long *p = &a; *p += 1; h3((int *)&f, 2); return a + f + g + h + i; }
TEST long stkaddr(long a, long b, long c, long d, long e, long f, int g, u8 h)
{ h3(&g, 1); u8 *p = &h; *p ^= 1; return g * 2 + h; }
#endif
#ifdef PB
long h1(long a){ return evl(a) + 1; }
int h2(int a, double b){ ev(a); evd(b); return a + 3; }
void h3(int *p, int n){ for(int i = 0; i < n; i++) p[i] = i * 5 + 2; }
double h4(double a, float b, int c){ evd(a); evf(b); ev(c); return c & 1 ? a : b; }
long h8(long a, long b, long c, long d, long e, long f, long g, long h){ return ev6(a, b, c, d, e, f) + evl(g) - evl(h); }
int h9(char a, char b, char c, char d, char e, char f, char g, short h, unsigned char i, _Bool j){ return ev(a) + b * 2 + c * 3 + d * 5 + e * 7 + f * 11 + ev(g) * 13 + h * 17 + ev(i) * 19 + j * 23; }
int kr(a, b, c) int a; char b; int c; { ev(a); evc(b); ev(c); return a + b + c; }
unsigned char huc(int a){ return a + 1; } short hs(long a){ return a * 3; } _Bool hb(int a){ return a; } float hf(double a){ evd(a); return 1.5f; }
int rec(int n, int acc, int *p){ int k = n * 2; if(!n) return acc + *p; *p += n; int r = rec(n - 1, acc + k, p); return r + k; }
#endif
'''
def units(ctx):
    return sig_units() + agg_units() + [Unit('misc_' + m, MISC, parts={'u': list(zip(p, ['PA', 'PB'])), 'g': [('g', 'PA'), ('g', 'PB')]}) for m, p in MODES]
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', parts=x.parts, tag='clang') for x in us] + [Unit(x.name, x.src, flags=f, parts=x.parts, tag=t) for x in us for f, t in ((['-fpic'], 'pic'), (['-fno-omit-frame-pointer', '-mno-red-zone'], 'norz'), (['-fno-inline-functions'], 'noinl'))]
    run_tv(ctx, us, per_unit_s=250 if ctx.quick() else 800)
