"""C11: automatic initialisers and compound literals give every member its value."""
import random
from harness import Unit, run_tv
import initgen
LEVEL = 'translation_validation'
CI = ['0', '1', '-1', '127', '-128', '0x7fff', '65535', '-2147483647-1', '0xffffffffu', '0x123456789abcdefL', '-5L', "'a'", '3 * 7 - 2', '(char)300', '~0', 'sizeof(int)']
RI = ['a', 'b', 'c', 'a + 1', 'b * 3', '(short)b', 'a == c', '(a ? b : c)', '-a', '(char)b', '!a', 'a - b', '~c', 'a++ * 0 + 5', '(a, b)', 'b >> 3', '(unsigned)c']
CF = ['0', '1', '1.5', '-2.25f', '0.1', '-0.0', '3', '12345678901L']
RF = ['d', 'f', 'a', '-d', '(a ? d : f)', 'c', '(float)d', '(unsigned char)b']
EV = {'signed char': 'evc', 'unsigned char': 'evuc', 'char': 'evc', 'short': 'evs', 'unsigned short': 'evus', 'int': 'ev', 'unsigned': 'evu', 'long': 'evl', 'unsigned long': 'evul', '_Bool': 'evuc', 'float': 'evf', 'double': 'evd'}
def val(r, sidefx=True):
    def f(t, bits):
        if t in ('float', 'double'): return r.choice(CF if r.random() < 0.4 else RF)
        e = r.choice(CI if r.random() < 0.35 else RI)
        return e if '++' not in e or sidefx else 'a'
    return f
def leaves(t, path):
    if t[0] == 's': yield ('evl' if t[2] else EV[t[1]], path)
    elif t[0] == 'str':
        for i in range(t[2]): yield ('evc' if t[1] == 'char' else 'evuc', '%s[%d]' % (path, i))
    elif t[0] == 'a':
        for i in range(t[1]):
            for x in leaves(t[2], '%s[%d]' % (path, i)): yield x
    else:
        for n, m in t[1]:
            if n:
                for x in leaves(m, '%s.%s' % (path, n)): yield x
PARM = 'int a, long b, signed char c, double d, float f'
def gen_unit(k, n=8):
    s = []
    r = random.Random(k * 91 + 3)
    for j in range(n):
        while 1:
            g = initgen.G(r.randrange(1 << 30), val(r, False))
            t = g.agg('st', 3) if r.random() < 0.75 else ('a', r.randint(1, 4), g.agg('st', 2) if r.random() < 0.6 else g.ty(0))
            if 'union' in g.decl(t, 'x') or len(list(leaves(t, 'x'))) > 45: continue
            break
        ini = g.init(t)
        rd = ' '.join('%s(%s);' % x for x in leaves(t, 'x'))
        D = g.decl(t, 'x')
        kind = r.choice(['local', 'local', 'cl', 'classign', 'loop', 'goto', 'ret'])
        if t[0] == 'a' and kind in ('classign', 'ret'): kind = 'cl'
        if t[0] != 'a':
            st, body = D.rsplit(' ', 1)[0], D
            s.append('%s;' % st.replace('struct {', 'struct S%d {' % j, 1))
            D, T = 'struct S%d x' % j, 'struct S%d' % j
        else:
            s.append('typedef %s;' % g.decl(t, 'T%d' % j))
            D, T = 'T%d x' % j, 'T%d' % j
        if kind == 'local': b = 'long g1 = b ^ 5; %s = %s; int g2 = a - 9; %s evl(g1); ev(g2);' % (D, ini, rd)
        elif kind == 'cl': b = 'long g1 = b ^ 5; %s *p = &(%s)%s; %s evl(g1);' % (T, T, ini, rd.replace('(x', '((*p)'))
        elif kind == 'classign': b = 'int g2 = a - 9; %s; long g1 = b ^ 5; x = (%s)%s; %s evl(g1); ev(g2);' % (D, T, ini, rd)
        elif kind == 'loop': b = 'for(int i = 0; i < 2; i++){ int g2 = i; %s = %s; %s evl(g2); *(char *)&x = 3; ((char *)&x)[sizeof x - 1] = 4; a++; d = f; }' % (D, ini, rd)
        elif kind == 'goto': b = 'int n = 0; l: { %s = %s; %s *(char *)&x ^= 1; } if(n++ < 1) { b--; goto l; }' % (D, ini, rd)
        else:
            s.append('static struct S%d mk%d(%s)\n{ return (struct S%d)%s; }' % (j, j, PARM, j, ini))
            b = '%s = mk%d(a, b, c, d, f); %s' % (D, j, rd)
        s.append('TEST void t%d(%s) PRE(d > -1e30 && d < 1e30 && f == f)\n{ %s }' % (j, PARM, b))
    return Unit('auto%d' % k, '\n'.join(s) + '\n')
HAND = '''
struct P { int x, y; }; struct L { struct P p[2]; char s[5]; long z; }; union U { int a; struct { char c; long l; } s; float f; char raw[16]; };
#define RP(q) do { ev((q).x); ev((q).y); } while(0)
#define RL(q) do { RP((q).p[0]); RP((q).p[1]); for(int i_ = 0; i_ < 5; i_++) evc((q).s[i_]); evl((q).z); } while(0)
static int take(struct P *p){ return p->x * 7 + p->y; }
static int takel(struct L *l, int k){ RL(*l); return l->z + k; }
TEST int scal(int a, long b)
{ int x = { a }, y = { (b) }; char c = b; _Bool t = b; unsigned short u = { a - 1 }; return x + y * 2 + c + t + u; }
TEST int order(int a)
{ int x = ev(a), y = ev(x + 1), z[2] = { x }; return x * 3 + y + z[1]; }
TEST void once(int a)
{ struct P p = { .y = ev(a) }; RP(p); int v[4] = { [2] = ev(3) }; for(int i = 0; i < 4; i++) ev(v[i]); }
TEST void rng(int a, long b)
{ int v[9] = { [1 ... 3] = a, 5, [7] = b }; for(int i = 0; i < 9; i++) ev(v[i]); }
TEST void rngs(int a, long b)
{ struct P v[4] = { [0 ... 2] = { a, b } }; v[1].y = 4; for(int i = 0; i < 4; i++) RP(v[i]); }
TEST void rngside(void)
{ int v[5] = { [1 ... 3] = ev(3) }; for(int i = 0; i < 5; i++) ev(v[i]); }
TEST void structcpy(struct P *p/*1*/, int a)
{ struct P q = *p, r[2] = { *p, { a } }; struct L l = { { *p, a, 3 }, "xy" }; RP(q); RP(r[0]); RP(r[1]); RL(l); }
TEST void desig(struct P *p/*1*/, int a)
{ struct L l = { .p[1] = *p, .z = a, .s = { [2] = a } }; RL(l); struct L m = { .p = { [1] = { .y = a } }, .s[3] = 'q', 7 }; RL(m); }
TEST void over(struct P *p/*1*/, int a, int b)
{ struct L l = { .p[0] = { 3, 4 }, .p[0].y = a, .p[1] = *p, .z = 1, .z = b }; RP(l.p[0]); RP(l.p[1]); evl(l.z); }
TEST void strs(u32 i)
{ char s[] = "hello", t[8] = "ab", u[3] = "xyz", w[2][4] = { "q", { 'r', 's' } }; i %= 6; evc(s[i]); evl(sizeof s); evc(t[i]); evc(t[i + 2]); evc(u[i % 3]); evc(w[i & 1][i % 4]); s[0] = 'j'; evc(s[0]); }
TEST void strs2(u32 i)
{ for(int k = 0; k < 2; k++){ char s[6] = "abc"; evc(s[i % 6]); s[i % 6] = 'z'; } }
TEST void uni(int a, float f, long b)
{ union U u = { a }, v = { .s = { a, b } }, w = { .f = f }, x = { .raw = { a, [3] = 4 } }; ev(u.a); evc(v.s.c); evl(v.s.l); evf(w.f); for(int i = 0; i < 16; i++) evc(x.raw[i]); }
TEST void unicl(int a, long b)
{ union U u; u = (union U){ .s.l = b }; evc(u.s.c); evl(u.s.l); u = (union U){ a }; ev(u.a); }
TEST void anon(int a, int b)
{ struct { int q; struct { int m, n; }; union { int k; short h; }; int e; } s = { 1, { a, b }, { 3 }, b }, t = { .n = a, .e = b }, u = { .q = a, b, 2, 3 }; ev(s.q + s.m * 2 + s.n * 3); ev(s.k); ev(s.e); ev(t.q); ev(t.m); ev(t.n); ev(t.e); ev(u.q); ev(u.m); ev(u.n); ev(u.k); ev(u.e); }
TEST int clarg(int a, int b)
{ return take(&(struct P){ a, b }) + take(&(struct P){ .y = b }) + take((struct P[]){ { 1, 2 }, { a } } + 1); }
TEST int clarr(u32 i, int a)
{ int *p = (int[]){ a, 2, a + 1, 4 }; char *s = (char[]){ "lit" }; return p[i & 3] + s[i & 3] + sizeof((int[]){ 1, 2, 3 }) + ((int[3]){ 5, a })[i % 3]; }
TEST int clmut(int a)
{ int *p = &(int){ a }; *p += 2; struct P *q = &(struct P){ a, *p }; q->x = 9; return *p + q->x + q->y; }
TEST int clloop(int a)
{ int r = 0; for(int i = 0; i < 3; i++){ struct P *q = &(struct P){ .x = a + i }; r += q->x * 10 + q->y; q->x = q->y = 77; } return r; }
TEST int clnest(int a, int b)
{ return takel(&(struct L){ { { a, take(&(struct P){ 1, b }) } }, .z = b }, 3); }
TEST int clcond(int a, int b)
{ struct P p = a ? (struct P){ b, 1 } : (struct P){ .y = b }; return p.x * 3 + p.y; }
TEST int clscalar(int a, long b)
{ return (int){ b } + (char){ a } + (unsigned char){ a } + (_Bool){ b }; }
TEST int clasg(int a, int b)
{ struct P p = { 1, 2 }; p = (struct P){ p.y, p.x + a }; return p.x * 100 + p.y + b; }
TEST int selfref(int a)
{ int x = sizeof x + a; int *p[2] = { &x, (int *)&p }; return x + (p[1] == (int *)p) + *p[0]; }
TEST void bits(int a, long b)
{ struct { unsigned x:3; int y:9; unsigned :4; int z:17; long w:40; _Bool f:1; } s = { a, b, a + b, b, a }, t = { .z = a }, u[2] = { { b }, { .w = b, .f = a } }; evl(s.x); evl(s.y); evl(s.z); evl(s.w); evl(s.f); evl(t.x); evl(t.y); evl(t.z); evl(t.w); evl(t.f); evl(u[0].x); evl(u[0].w); evl(u[1].x); evl(u[1].w); evl(u[1].f); }
TEST void zero(u32 i)
{ struct L l = { 0 }, m[2] = { { { { 0 } } } }; char big[200] = { 0 }; long v[20] = { 1 }; int w[3][4] = { { 0 }, { 1 } }; RL(l); RL(m[1]); evc(big[i % 200]); evl(v[i % 20]); ev(w[i % 3][i & 3]); }
TEST void dirty(u32 i, int n)
{ for(int k = 0; k < 2; k++){ char b[13] = { n, 2 }; evc(b[i % 13]); for(int j = 0; j < 13; j++) b[j] = 0x55; } }
TEST void empty(int a)
{ struct L l = {}; int v[3] = {}; struct P p[2] = { {}, { a } }; RL(l); ev(v[0] + v[1] + v[2]); RP(p[0]); RP(p[1]); }
TEST void flat(int a, int b)
{ int m[2][3] = { a, b, 3, { 4 } }, n[][2] = { { a }, b, 5, 6 }, o[2][2][2] = { { 1, a }, { { b } } }; for(int i = 0; i < 6; i++) ev((&m[0][0])[i]); evl(sizeof n); for(int i = 0; i < 6; i++) ev((&n[0][0])[i]); for(int i = 0; i < 8; i++) ev((&o[0][0][0])[i]); }
TEST void ptrs(int *p/*3*/, int k)
{ k %= 3; if(k < 0) k = 0; struct { int *a; char *s; int (*f)(struct P *); } t = { p + k, "str" + k, take }; ev(*t.a); evc(*t.s); ev(t.f(&(struct P){ 1, k })); }
TEST void swit(int a)
{ switch(a){ case 1: { struct P p = { .y = a }; RP(p); break; } default: { int v[2] = { [1] = a }; ev(v[0]); ev(v[1]); } } }
TEST void fps(double d, float f, int a) PRE(d == d && f == f)
{ double x = { d }, v[3] = { f, a }; float y = d, w[2] = { [1] = f }; evd(x); evd(v[0]); evd(v[1]); evd(v[2]); evf(y); evf(w[0]); evf(w[1]); struct { double d; float f; char c; } s = { a, d, a }; evd(s.d); evf(s.f); evc(s.c); }
TEST void constq(int a)
{ const int v[2] = { a, 5 }; const struct P p = { .y = v[0] }; static const int sv[3] = { 1, 2 }; RP(p); ev(v[1] + sv[1] + sv[2]); }
'''
def units(ctx):
    return [Unit('hand', HAND, opts={'addr_lim': 900})] + [gen_unit(k) for k in range(80 if ctx.quick() else 600)]
def run(ctx):
    us = units(ctx)
    us.append(Unit('hand', HAND.replace('{ [1 ... 3] = ev(3) }', '{ [1] = ev(3) }'), oracle='clang', opts={'addr_lim': 900}, tag='clang'))
    if not ctx.quick():
        us += [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us if not x.tag and x.name != 'hand']
    run_tv(ctx, us, per_unit_s=250 if ctx.quick() else 800)
