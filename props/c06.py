"""C06: sizes, alignments, offsets; every access reaches the corresponding bytes."""
import random
from harness import Unit, run_tv
LEVEL = 'translation_validation'
SC = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', '_Bool', 'float', 'double', 'char *', 'enum E', 'long long', 'int (*)(void)']
BF = [('signed char', 8), ('unsigned char', 8), ('short', 16), ('unsigned short', 16), ('int', 32), ('unsigned', 32), ('long', 64), ('unsigned long', 64)]

class Gen(object):
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.leaves = None
    def name(self):
        self.n += 1
        return 'm%d' % self.n
    def scalar(self, nm, extra=''):
        t = self.r.choice(SC)
        if t == 'int (*)(void)': return 'int (*%s)(void)' % nm, t
        return '%s %s' % (t, nm), t
    def members(self, kind, depth, packed, prefix, leaves, count):
        r = self.r
        out = []
        k = 0
        while k < count:
            k += 1
            c = r.random()
            nm = self.name()
            if c < 0.36:
                d, t = self.scalar(nm)
                al = ''
                if r.random() < 0.12 and not packed: al = '_Alignas(%d) ' % r.choice([8, 16, 16])
                elif r.random() < 0.06: d += ' __attribute__((aligned(%d)))' % r.choice([8, 16])
                out.append(al + d + ';')
                leaves.append((prefix + nm, t, 0))
            elif c < 0.5:
                t = r.choice(SC[:-1]); n = r.randint(1, 4)
                out.append('%s %s[%d];' % (t, nm, n))
                leaves.append((prefix + nm + '[%d]' % (n - 1), t, 0))
            elif c < 0.78 and not packed:
                for _ in range(r.randint(1, 4)):
                    t, w = r.choice(BF)
                    z = r.random()
                    if z < 0.1: out.append('%s :0;' % t)
                    elif z < 0.2: out.append('%s :%d;' % (t, r.randint(1, w)))
                    else:
                        nm = self.name()
                        b = r.choice([1, w, r.randint(1, w), r.randint(1, w), r.randint(1, min(w, 9))])
                        out.append('%s %s:%d;' % (t, nm, b))
                        leaves.append((prefix + nm, t, b))
            elif depth:
                kd = r.choice(['struct', 'union', 'struct'])
                anon = r.random() < 0.35
                pk = r.random() < 0.12
                sub = []
                body = self.members(kd, depth - 1, pk, prefix if anon else prefix + nm + '.', sub, r.randint(1, 3))
                if not sub: continue
                arr = '' if anon or r.random() < 0.7 else '[2]'
                if arr:
                    sub = [(l.replace(prefix + nm + '.', prefix + nm + '[1].', 1), t, b) for l, t, b in sub]
                attr = '__attribute__((packed)) ' if pk else ('__attribute__((aligned(16))) ' if r.random() < 0.08 else '')
                out.append('%s %s{ %s } %s%s;' % (kd, attr, ' '.join(body), '' if anon else nm, arr))
                leaves += sub
            else:
                k -= 1
        return out

def obs(e, t, b):
    # an observation of the value of lvalue e
    if t in ('float', 'double'): return 'ev%s(%s);' % (t[0], e)
    if t == '_Bool': return 'evuc(*(u8 *)&%s);' % e if not b else ''
    if t in ('char *', 'int (*)(void)'): return 'evl((long)%s);' % e
    return 'evl(%s);' % e
def put(e, t, b, k):
    if t in ('float', 'double'): return '%s = d;' % e
    if t in ('char *', 'int (*)(void)'): return '%s = (void *)(v + %d);' % (e, k)
    return '%s = v %s %d;' % (e, '+-^'[k % 3], k * 37 + 1)

def unit(k, n=8):
    s = ['enum E { EN = -1, EA, EB, EC = 70000 };']
    for j in range(n):
        g = Gen(k * 1000 + j)
        lv = []
        kd = g.r.choice(['struct', 'struct', 'struct', 'union'])
        pk = g.r.random() < 0.15
        body = g.members(kd, 2, pk, '', lv, g.r.randint(2, 6))
        if not lv: continue
        attr = '__attribute__((packed)) ' if pk else ('__attribute__((aligned(%d))) ' % 32 if g.r.random() < 0.12 else '')
        S = '%s S%d' % (kd, j)
        flex = kd == 'struct' and g.r.random() < 0.15
        s.append('%s %sS%d { %s %s};' % (kd, attr, j, '\n  '.join(body), 'short fl[]; ' if flex else ''))
        nb = 800
        P = '%s *p/*B%d*/' % (S, nb)
        s.append('TEST void sz%d(void)\n{ evl(sizeof(%s)); evl(_Alignof(%s)); evl(sizeof(%s[3])); %s %s}' % (j, S, S, S,
            ' '.join('evl(__builtin_offsetof(%s, %s)); evl(sizeof(((%s *)0)->%s));' % (S, l, S, l) for l, t, b in lv if not b), 'evl(__builtin_offsetof(%s, fl));' % S if flex else ''))
        s.append('TEST void rd%d(%s)\n{ %s }' % (j, P, ' '.join(obs('p->' + l, t, b) for l, t, b in lv)))
        s.append('TEST void wr%d(%s, long v, double d)\n{ %s }' % (j, P, ' '.join(put('p->' + l, t, b, i) for i, (l, t, b) in enumerate(lv))))
        s.append('TEST void ix%d(%s, u32 i, long v, double d) PRE(i < 2)\n{ %s }' % (j, P, put('p[i].' + lv[-1][0], lv[-1][1], lv[-1][2], 3)))
        s.append('TEST %s *ad%d(%s)\n{ return p + 3; }' % (S, j, P))
        if flex: s.append('TEST int fx%d(%s, u32 i) PRE(i < 5)\n{ p->fl[i]++; return p->fl[i]; }' % (j, P))
        s.append('%s g_a%d[2]; struct W%d { char c; %s s; char d; } g_w%d;' % (S, j, j, S if not flex else 'struct { long q; }', j))
        s.append('TEST long w%d(void)\n{ evl(sizeof g_w%d); evl((char *)&g_w%d.d - (char *)&g_w%d); return _Alignof(struct W%d); }' % (j, j, j, j, j))
        s.append('TEST void gw%d(long v, double d)\n{ %s }' % (j, ' '.join(put('g_a%d[1].%s' % (j, l), t, b, i) for i, (l, t, b) in enumerate(lv))))
        s.append('TEST void lc%d(long v, double d)\n{ %s l[2]; %s %s }' % (j, S, ' '.join(put('l[1].' + l, t, b, i) for i, (l, t, b) in enumerate(lv[-1:])), ' '.join(obs('l[1].' + l, t, b) for l, t, b in lv[-1:])))
    return Unit('lay%d' % k, '\n'.join(s) + '\n')

ENUMS = [('EA', 'A=-5, B'), ('EB', 'C=-129'), ('EC', 'D=-1, E1=200'), ('ED', 'F=255'), ('EE', 'G=256'), ('EF', 'H=-128, HH=127'), ('EG', 'I=65535'), ('EI', 'K=-1,KK=32768'), ('EJ', 'L=127,LL'), ('EK', 'M=0x7fffffff,MM=-1'), ('EL', 'N=-32768,NN=32767'), ('EM', 'O=-32769'), ('EN', 'P,Q,R'), ('EO', 'S=-1,T,U,V')]
def enums():
    s = []
    for n, b in ENUMS:
        s.append('enum %s { %s }; struct S%s { char c; enum %s e; char d; };' % (n, b, n, n))
        s.append('TEST void sz%s(void)\n{ evl(sizeof(enum %s)); evl(sizeof(struct S%s)); evl(_Alignof(enum %s)); }' % (n, n, n, n))
        s.append('TEST void rw%s(struct S%s *p/*B24*/, int v)\n{ evl(p->e); p[1].e = v; evl(p[1].e < 3); }' % (n, n))
        last = b.split(',')[-1].split('=')[0].strip()
        s.append('TEST int cs%s(enum %s *p/*4*/)\n{ *p = %s; return *p; }' % (n, n, last))
    src = '\n'.join(s) + '\n'
    return [Unit('shortenum', src, flags=['-fshort-enums'], oflags=['-fshort-enums'])]

BASIC = 'TEST void basic(void)\n{ %s }\n' % ' '.join('evl(sizeof(%s)); evl(_Alignof(%s));' % (t, t) for t in SC + ['long double', 'char', 'void *', 'char[7]', 'int[3][2]', 'short *[4]'] if t != 'enum E') + '''
typedef int al16 __attribute__((aligned(16)));
struct T { char c; al16 v; char d; };
struct U { char c; struct T t[2]; };
struct Lst { struct Lst *next; char k; struct { struct Lst *a[2]; short s; }; };
struct __attribute__((packed)) PK { char c; int i; short s; struct { char a; long b; } in; double d; };
struct __attribute__((packed, aligned(4))) PK2 { char c; int i; };
TEST void tsz(void)
{ evl(sizeof(struct T)); evl(_Alignof(struct T)); evl(sizeof(struct U)); evl(sizeof(al16)); evl(_Alignof(al16)); evl(sizeof(struct Lst)); evl(sizeof(struct PK)); evl(_Alignof(struct PK)); evl(sizeof(struct PK2)); evl(_Alignof(struct PK2)); }
TEST void trw(struct U *p/*B200*/, int v)
{ p->t[1].v = v; ev(p->t[0].v); evc(p->t[1].d); }
TEST void pk(struct PK *p/*B100*/, int v, double d)
{ p->i = v; p->in.b = v * 3L; p[1].d = d; p[1].s = v; ev(p[1].i); evl(p->in.b); }
struct PM { char c; struct PK *p; struct PK q; char d; __attribute__((packed)) int *z; struct PK2 r[2]; int *__attribute__((packed)) zz; short (*__attribute__((packed)) w)[2]; struct PK (*f)(void); };
TEST void pmsz(struct PM *p/*B200*/)
{ evl(sizeof(struct PM)); evl(__builtin_offsetof(struct PM, p)); evl(__builtin_offsetof(struct PM, q)); evl(__builtin_offsetof(struct PM, z)); evl(__builtin_offsetof(struct PM, r)); evl(__builtin_offsetof(struct PM, zz)); evl(__builtin_offsetof(struct PM, w)); evl(__builtin_offsetof(struct PM, f)); evl((long)p->p); evl((long)p->f); }
struct UB { char c; long :9; int :3; char d; }; struct UB2 { char a; int :0; char b; }; union UB3 { char c; long :33; };
TEST void ubsz(void)
{ evl(sizeof(struct UB)); evl(_Alignof(struct UB)); evl(sizeof(struct UB2)); evl(_Alignof(struct UB2)); evl(sizeof(union UB3)); evl(_Alignof(union UB3)); }
struct __attribute__((aligned(16))) A16 { char c; }; struct PA { char c; struct A16 *p; __attribute__((aligned(32))) char *q; struct A16 a[2]; char z; struct A16 (*f)(struct A16 *); struct A16 *r[2]; al16 *s; };
struct A16 *g_pa;
TEST void pasz(struct PA *p/*B300*/)
{ evl(sizeof(struct PA)); evl(_Alignof(struct PA)); evl(__builtin_offsetof(struct PA, p)); evl(__builtin_offsetof(struct PA, q)); evl(__builtin_offsetof(struct PA, z)); evl(__builtin_offsetof(struct PA, f)); evl(__builtin_offsetof(struct PA, r)); evl(__builtin_offsetof(struct PA, s)); evl(_Alignof(g_pa)); evl((long)p->s); }
TEST long lst(struct Lst *p/*B64*/)
{ p->a[1] = p; p->s = 3; p->next = p + 1; return (long)p->a[1]->next; }
_Alignas(64) char g_al[3]; int g_x __attribute__((aligned(32)));
TEST long als(int v)
{ _Alignas(16) char b[3]; int k __attribute__((aligned(16))); b[1] = v; k = v; return ((long)b & 15) + ((long)&k & 15) + ((long)g_al & 63) + ((long)&g_x & 31) + b[1] + k; }
'''
def units(ctx):
    n = 14 if ctx.quick() else 120
    return [unit(k) for k in range(n)] + enums() + [Unit('basic', BASIC)]
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang', flags=x.flags, oflags=x.oflags) for x in us]
    run_tv(ctx, us, per_unit_s=250 if ctx.quick() else 800)
