"""C12: side effects happen exactly once, in C's order, and only where C evaluates."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
T = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64']
EVF = {'s8': 'evc', 'u8': 'evuc', 's16': 'evs', 'u16': 'evus', 's32': 'ev', 'u32': 'evu', 's64': 'evl', 'u64': 'evul'}

def typed(t):
    e = EVF[t]
    s = []
    D = {'t': t, 'e': e}
    for nm, sig, body in [
        ('and2', '%(t)s a, %(t)s b', 'return %(e)s(a) && %(e)s(b);'),
        ('or2', '%(t)s a, %(t)s b', 'return %(e)s(a) || %(e)s(b);'),
        ('andor', '%(t)s a, %(t)s b, %(t)s c', 'return (%(e)s(a) && %(e)s(b)) || %(e)s(c);'),
        ('orand', '%(t)s a, %(t)s b, %(t)s c', 'return (%(e)s(a) || %(e)s(b)) && %(e)s(c);'),
        ('nand', '%(t)s a, %(t)s b, %(t)s c', 'return !(%(e)s(a) && b) && !(%(e)s(b) || c);'),
        ('ifand', '%(t)s a, %(t)s b', 'if(%(e)s(a) && %(e)s(b)) return ev(1); else return ev(2);'),
        ('ifor', '%(t)s a, %(t)s b', 'if(%(e)s(a) || !%(e)s(b)) return ev(1); return ev(2);'),
        ('whileand', '%(t)s a, %(t)s b', 'int n = 0; while(n < 2 && %(e)s(a)) { n++; evv(n); } return n;'),
        ('tern', '%(t)s a, %(t)s b, %(t)s c', 'return %(e)s(a) ? %(e)s(b) : %(e)s(c);'),
        ('elvis', '%(t)s a, %(t)s b', 'return %(e)s(a) ?: %(e)s(b);'),
        ('elvis2', '%(t)s a, %(t)s b, %(t)s *p/*1*/', 'return (*p)++ ?: %(e)s(b) ?: a;'),
        ('comma', '%(t)s a, %(t)s b', 'return (%(e)s(a), %(e)s(b));'),
        ('comma3', '%(t)s a, %(t)s b', 'return (a++, %(e)s(a), b += a, %(e)s(b), b);'),
        ('pinc', '%(t)s *p/*4*/, int i', 'i &= 1; p[i++] += 3; p[i++] -= p[0]; return i;'),
        ('pinc2', '%(t)s *p/*4*/', '%(t)s *q = p; *q++ = 5; *q++ |= 8; ++*q; return *q-- + (q - p);'),
        ('pinc3', '%(t)s *p/*4*/', '%(t)s *q = p + 2; *--q ^= 3; (*q)--; --*--q; return q - p;'),
        ('cacall', '%(t)s *p/*4*/', 'p[ev(1) & 3] += 7; return p[0];'),
        ('cacall2', '%(t)s *p/*4*/, int k', '*(evv(1), p + (k & 3)) *= 3; return p[1];'),
        ('inccall', '%(t)s *p/*4*/', 'return p[ev(1) & 3]++;'),
        ('deccall', '%(t)s *p/*4*/', 'return --p[ev(1) & 3];'),
        ('asgcall', '%(t)s *p/*4*/, %(t)s v', '%(t)s r = p[ev(1) & 3] = v; return r;'),
        ('shca', '%(t)s *p/*4*/', 'p[ev(1) & 3] <<= 1; return p[ev(2) & 3] >>= 1;'),
        ('divca', '%(t)s *p/*4*/', 'p[ev(1) & 3] /= 3; return p[ev(2) & 3] %%= 5;'),
        ('ternlhs', '%(t)s *p/*2*/, %(t)s v', '*(%(e)s(v) ? &p[0] : &p[1]) += v; return v;'),
        ('ternmix', '%(t)s a, s64 b, int c', 'return c ? a++ : (b--, b) ? a : --a;'),
        ('vol', '%(t)s *p/*2*/', 'volatile %(t)s *q = p; *q; q[1] = q[0]; q[0] += 1; return q[0]++ ;'),
        ('chain', '%(t)s *p/*3*/, %(t)s v', 'return p[0] = p[1] = p[2] = %(e)s(v);'),
        ('notcall', '%(t)s a', 'return !%(e)s(a) + 2 * !!a;'),
        ('cmpcall', '%(t)s a, %(t)s b', 'return (%(e)s(a) < b) + 2 * (b > a);'),
        ('cmpcall2', '%(t)s a, %(t)s b', 'int r = b > %(e)s(a); r += 2 * (%(e)s(b) <= a); if(a >= %(e)s(3)) r += 4; return r;'),
        ('arith', '%(t)s a, %(t)s b', 'return (a * 3 + b) - %(e)s(a - b) * (b ^ 5);'),
        ('stexpr', '%(t)s a, %(t)s b', 'return ({ %(t)s k = %(e)s(a); k++; evv(k); k + b; }) * 2;'),
        ('argevent', '%(t)s a, %(t)s b', 'return ev2(a++, ++b) + a + b;'),
        ('nestcall', '%(t)s a', 'return %(e)s(%(e)s(%(e)s(a) + 1) - 2);'),
        ('forfx', '%(t)s a', 'int i; for(i = (evv(1), 0); evv(2), i < 2 && a; evv(3), i++) a = %(e)s(a); return i;'),
        ('doand', '%(t)s a', 'int n = 0; do { evv(n); } while(%(e)s(a) && ++n < 2); return n;'),
        ('swfx', '%(t)s a', 'switch(%(e)s(a)){ case 1: return ev(5); case 2: evv(6); default: evv(7); } return 3;'),
    ]:
        s.append('TEST s64 %s(%s)\n{ %s }' % (nm, sig % D, body % D))
    return Unit('t_' + t, '\n'.join(s) + '\n')

# every expression shape of bounded depth over && || ! ?: , with calls at the leaves
def shapes():
    leaf = lambda i: 'ev(%d)' % i
    def gen(d, n):
        """yield (text, number of leaves used)"""
        yield leaf(n), 1
        if d == 0: return
        subs = list(gen(d - 1, n))
        for a, na in subs:
            yield '!%s' % a, na
            for b, nb in gen(d - 1, n + na):
                for op in ('&&', '||', ',', '?:'):
                    yield '(%s %s %s)' % (a, op, b), na + nb
        for a, na in list(gen(d - 1, n))[:1]:
            for b, nb in gen(d - 1, n + na):
                for c, nc in gen(d - 1, n + na + nb):
                    yield '(%s ? %s : %s)' % (a, b, c), na + nb + nc
    return [s for s, n in gen(2, 0) if n <= 5]

def shape_units():
    out, s = [], []
    sh = shapes()
    for i, e in enumerate(sh):
        ctx = i % 5
        if ctx == 0: body = 'return %s;' % e
        elif ctx == 1: body = 'if(%s) evv(100); else evv(101); return 0;' % e
        elif ctx == 2: body = 'int n = 0; while(%s){ if(n++) break; evv(200); } return n;' % e
        elif ctx == 3: body = 'int r = 3; r += %s; evv(r); return r;' % e
        else: body = 'return x + (%s) * 3;' % e
        s.append('TEST int shape%d(int x)\n{ %s }' % (i, body))
    k = 60
    return [Unit('sh%d' % (j // k), '\n'.join(s[j:j + k]) + '\n') for j in range(0, len(s), k)]

MISC = '''
int g_a, g_b; static int sset(int v){ g_a = v; return v + 1; } static int sget(void){ return g_a; }
TEST int seq1(int x)
{ int r = (sset(x), sget()); g_b = r; return r; }
TEST int seq2(int x)
{ return sset(x) && sget() == x && (g_b = 7); }
TEST int seq3(int x)
{ int r = sset(x) > 3 ? sget() : (g_a = 9, sget()); return r; }
TEST int once(int *p/*4*/, int i)
{ i &= 1; int *q = p; *(q += i) = 4; q[i ? 0 : 1]++; return q - p; }
struct S { int a, b; char c; struct S *n; };
TEST int stonce(struct S *p/*B48*/)
{ struct S *q = p; (q++)->a += 3; (q--)->b++; return ++q->c + (q - p); }
static struct S *get(struct S *p){ evv(1); return p; }
TEST int getonce(struct S *p/*B24*/, int v)
{ get(p)->a += v; get(p)->c++; --get(p)->b; get(p)->c ^= v; return get(p)->a; }
struct BF { int a:5; unsigned b:7; };
static struct BF *getb(struct BF *p){ evv(2); return p; }
TEST int bfonce(struct BF *p/*B4*/, int v)
{ getb(p)->a += v; getb(p)->b++; --getb(p)->a; return getb(p)->b -= v; }
TEST int condlv(int x, int *p/*2*/)
{ (x ? p : p + 1)[0]++; return p[0]; }
TEST void voidtern(int x)
{ x ? evv(1) : evv(2); x ? (void)ev(3) : (void)0; }
TEST void voidcomma(int x)
{ evv(x), ev(x + 1), (void)ev(x + 2); }
TEST int vland(int x)
{ x && ev(1); x || ev(2); !x && ev(3); return 0; }
TEST int nestst(int x)
{ int r = ({ if(x) evv(1); ({ evv(2); x + 1; }); }) + ({ int y = x; y *= 2; y; }); return r; }
TEST int stret(int x)
{ int r = ({ if(x == 3) return 9; x * 2; }); return r; }
TEST int szno(int x)
{ int y = sizeof(x++) + sizeof(ev(1)); return x + y; }
TEST int typno(int x)
{ __typeof__(ev(x)) k = x; return k + _Alignof(int); }
TEST int generic(int x)
{ return _Generic(x, int: ev(1), char: ev(2), default: ev(3)); }
TEST int choose(int x)
{ return __builtin_choose_expr(1, ev(x), ev(x + 1)) + __builtin_choose_expr(0, ev(5), x); }
TEST int consp(int x)
{ return __builtin_constant_p(ev(x)) + __builtin_constant_p(3); }
TEST int expct(int x)
{ return __builtin_expect(ev(x), 1) + __builtin_expect(!ev(2), 0); }
TEST int arridx(int *p/*4*/, int i)
{ i &= 1; int j = i; p[i++] = j; p[++i] = j; return i; }
TEST int idxcall(int *p/*4*/)
{ int *q = p + (ev(1) & 1); return q[ev(2) & 1] + p[ev(3) & 3]; }
TEST int addrof(int *p/*4*/)
{ int *q = &p[ev(1) & 3]; *q += 2; return &*q - p; }
TEST int fncond(int x)
{ int (*f)(int) = x ? ev : 0; return f ? f(x) : 4; }
TEST int fncond2(int x)
{ return (x > 3 ? ev : (evv(0), ev))(x); }
TEST int loopinc(int n) PRE(n >= 0 && n < 4)
{ int r = 0; while(n-- && ev(n)) r++; return r * 10 + n; }
TEST int forpost(int *p/*4*/)
{ int s = 0; for(int *q = p; q < p + 4; s += *q++) if(*q == 7) continue; return s; }
TEST int dblasg(int x, int y)
{ int a, b; a = (b = x) + y; b += (a -= y, a); return a * 7 + b; }
TEST s64 ulong1(u64 a, u64 b, int c)
{ u64 r = a / 3 > b && ev(c) ? a : b; return r > a ? 1 : r - (ev(c) || b < a); }
TEST int unsgn(u32 a, u32 b, int c)
{ return (a < b) == (c && ev(c)) ? (a > (u32)ev(1)) : (b >= (c ? a : b)); }
TEST int unsgn2(u32 a, u32 b, int c)
{ u32 m = a + (c ? b : 3u); return m / 5 < (c || ev(2) ? a : b) / 3; }
TEST int unsgn3(u16 a, u8 b, int c)
{ return a - (c ? b : a) < 0 ? ev(1) : a > b; }
TEST s64 mixw(u8 a, s64 b, u32 c)
{ return (a ? b : c) + (b ? c : a) + (c ?: a); }
TEST double fl(double a, float b, int c) PRE(a == a && b == b)
{ double r = c ? a + evf(b) : (evd(a), b) * 3; return r == r ? r : 0; }
TEST int fl2(double a, float b)
{ return (evd(a) < b) && (evf(b) == a || evd(1) > evd(2)); }
TEST int inl2(int a)
{ static int k; k = a; int r = (k++, k += 2, k--); return r * 3 + k; }
TEST _Bool bl(int a, int b)
{ _Bool r = ev(a); r |= ev(b); r = r && ev(1); return r ^= 1; }
TEST int blinc(_Bool a)
{ _Bool b = a; b++; _Bool c = a; int r = b + c++; return r * 2 + c; }
'''
def mixed_units():
    """the same shapes with constants and side-effecting lvalues at some of the leaves"""
    import re, itertools
    LV = ['0', '1', 'x++', '--y', 'z--', '(w += 3)', '(k = x)', '2.0', '(char)256', '*p++', '(void *)0', '&*p', 'b++', '(u8)z++', '-1L', 'ev(9)']
    out, s = [], []
    sh = [x for x in shapes() if 2 <= len(re.findall(r'ev\(', x)) <= 4]
    n = 0
    for i, e in enumerate(sh):
        k = len(re.findall(r'ev\(', e))
        for v in range(2):
            it = iter(range(k))
            def sub(m):
                nonlocal n
                n += 7
                j = next(it)
                return LV[(n // 3) % len(LV)] if (j + v) % 2 == 0 else m.group(0)
            e2 = re.sub(r'ev\(\d+\)', sub, e)
            if '?' in e2: e2 = e2.replace('(void *)0', '0').replace('&*p', 'ev(8)').replace('2.0', '3L')
            s.append('TEST int m%d(int x, s8 y, s64 z, u16 w, _Bool b, u8 *p/*4*/)\n{ int k = 0; int r; u8 *p0 = p; %s evl(x); evl(y); evl(z); evl(w); evl(k); evl(b); evl(p - p0); return r; }' % (len(s),
                ['r = (%s) != 0;' % e2, 'if(%s) r = 1; else r = 2;' % e2, 'r = 1; while((%s) && r < 2) r++;' % e2][i % 3]))
    k = 60
    return [Unit('mx%d' % (j // k), '\n'.join(s[j:j + k]) + '\n') for j in range(0, len(s), k)]

def const_unit():
    s = []
    n = 0
    for t in T + ['_Bool']:
        for l in ['a++', '--a', '(a += 5)', 'a-- - 1', 'evv(1), a++', '(int)a++', '!a++', '-a--']:
            for c in ['|| 1', '&& 0', '|| 0', '&& 1', '* 0', '& 0', ', 1', '? 1 : 1', '? 0 : 0', '|| (k = 3)', '&& (k = 3)']:
                n += 1
                s.append('TEST s64 k%d(%s a)\n{ int k = 0; s64 r; r = ((%s) %s); evl(a); evl(k); return r; }' % (n, t, l, c))
                if c[0] in '|&*' and len(c) == 4 and n % 2:
                    s.append('TEST s64 l%d(%s a)\n{ s64 r = %s %s (%s); evl(a); return r; }' % (n, t, c[3], c[:2], l))
    k = 100
    return [Unit('co%d' % (j // k), '\n'.join(s[j:j + k]) + '\n') for j in range(0, len(s), k)]

def vol_unit(t):
    V = 'volatile %s *vio/*8*/' % t
    s = []
    for nm, sig, body in [
        ('rd', '', 'return vio[0];'), ('rd2', '', 'return vio[0] + 0 * vio[0];'), ('st', '%s v' % t, 'vio[1] = v;'), ('stk', '', 'vio[1] = 5; vio[1] = 5; vio[0] = vio[1];'),
        ('stmt', '', '*vio; vio[2]; *vio;'), ('void_', '', '(void)*vio; (void)vio[1];'), ('pinc', '', 'return vio[1]++;'), ('pre', '', 'return ++vio[1];'),
        ('pdec', '', 'vio[2]--; --vio[3];'), ('ca', '%s v' % t, 'vio[0] += v; vio[1] ^= 3; vio[2] <<= 1;'), ('cp', '', 'vio[0] = vio[1]; vio[2] = vio[0] + vio[3] * 2;'.replace('vio[0] + vio[3] * 2', 'vio[3]')),
        ('cond', '%s v' % t, 'if(vio[0]) vio[1] = v; else vio[2] = v;'), ('tern', 'int c', 'return c ? vio[0] : vio[1];'), ('loop', '', 'int n = 0; while(n < 3 && vio[0] != 1) n++; return n;'),
        ('andor', '', 'return vio[0] && (vio[1] || vio[2]);'), ('comma', '', 'return (vio[0], vio[1], vio[2]);'), ('mulz', '', 'return vio[0] & 0;'), ('cast', '', 'return (char)vio[0] + (_Bool)(vio[1] & 1);'.replace('(char)vio[0] + ', '')),
        ('not_', '', 'return !vio[3];'), ('sw', '', 'switch(vio[0]){ case 1: vio[1] = 2; case 2: return vio[2]; } return 0;'), ('call', '', 'return ev(vio[0]) + ({ vio[1]; 3; });'), ('chain', '', '%s x = vio[0]; %s y = x; return x - y;' % (t, t)),
        ('elv', '', 'return vio[0] ?: vio[1];'), ('seq', '', 'vio[0] = 1; evv(1); vio[0] = 2; evv(2); return vio[0];'), ('stex', '', 'return ({ vio[1]; });'), ('forl', '', 'int n = 0; for(vio[0] = 0; n < 2 && vio[1]; vio[2] = 3, n++) if(vio[3]) break;')]:
        s.append('TEST s64 %s(%s%s)\n{ %s%s }' % (nm, V, ', ' + sig if sig else '', body, '' if 'return' in body else ' return 0;'))
    s[1] = 'TEST s64 rd2(%s)\n{ %s a = vio[0]; %s b = vio[0]; return a - b; }' % (V, t, t)
    return Unit('v_' + t, '\n'.join(s) + '\n')

VOLMISC = '''
struct V { volatile int a; int b; volatile char c; };
TEST int vst(volatile struct V *vio/*B12*/, int v)
{ vio->a = v; vio->b; vio->c = vio->a; return vio->b; }
TEST int vst2(struct V *vio/*B12*/, int v)
{ vio->a = v; vio->a; vio->c++; return 0; }
TEST int vpp(volatile int *vio/*8*/)
{ volatile int *q = vio; *q++; return *q++ - *q; }
TEST int vpp2(volatile int *vio/*8*/, int i)
{ i &= 3; vio[i] = i; return vio[i ^ 1]; }
TEST double vfl(volatile double *vio/*4*/)
{ *vio; vio[1] = 2.5; return vio[2]; }
TEST int vbool(volatile _Bool *vio/*B8*/, int x)
{ vio[0] = x; vio[1] = !x; return 0; }
TEST int vloc(int x)
{ volatile int a = x; a; a++; a += 2; (void)a; return a; }
TEST int vloc2(int x)
{ volatile struct { int a; char b; } s = { x, 3 }; s.a; s.b++; s; return s.a + s.b; }
TEST int vinl(volatile int *vio/*4*/)
{ int r = 0; for(int i = 0; i < 3; i++) r += *vio; return r; }
'''
def units(ctx):
    return [typed(t) for t in T] + shape_units() + mixed_units() + const_unit() + [vol_unit(t) for t in T] + [Unit('misc', MISC), Unit('vmisc', VOLMISC)]
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us] + [Unit(x.name, x.src, flags=['-fno-const-fold'], tag='nofold') for x in us]
    run_tv(ctx, us, per_unit_s=200)
