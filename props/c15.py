"""C15: traps, sanitizers and overflow builtins fire exactly on the erroneous operand values.
The oracle spells the error condition out in C (ERR(cond)); cc1 derives it from the option."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
HDR = '''#ifdef __UCC__
#define ERR(c) do { } while(0)
#elif defined(H)
#define ERR(c) do { if(c){ ev0(); __builtin_trap(); } } while(0)
#else
#define ERR(c) do { if(c) __builtin_trap(); } while(0)
#endif
#define OVA(a, b, t) __builtin_add_overflow_p(a, b, (t)0)
#define OVS(a, b, t) __builtin_sub_overflow_p(a, b, (t)0)
#define OVM(a, b, t) __builtin_mul_overflow_p(a, b, (t)0)
'''
S = {'s32': ('-2147483647-1', 32), 's64': ('-0x7fffffffffffffffL-1', 64)}
def trapv(ovonly=True):
    s = []
    def add(n, ret, sig, body, pre=''): s.append('TEST %s %s(%s) %s\n{ %s }' % (ret, n, sig, pre, body))
    for t, (mn, w) in S.items():
        for n, o, f in [('add', '+', 'OVA'), ('sub', '-', 'OVS'), ('mul', '*', 'OVM')]:
            if n == 'mul' and t == 's64': f2 = f
            N = lambda x: '%s_%s_%s' % (n, t, x)
            add(N('v'), t, '%s a, %s b' % (t, t), 'ERR(%s(a, b, %s)); return a %s b;' % (f, t, o))
            for k in ['1', '5', '-1', '100000', '8', '0x7fffffff', '-4', '0', '16']:
                add(N('c%s' % k.replace('-', 'm')), t, '%s a' % t, 'ERR(%s(a, (%s)%s, %s)); return a %s %s;' % (f, t, k, t, o, k))
                add(N('r%s' % k.replace('-', 'm')), t, '%s a' % t, 'ERR(%s((%s)%s, a, %s)); return %s %s a;' % (f, t, k, t, k, o))
            add(N('ca'), t, '%s *p/*1*/, %s b' % (t, t), 'ERR(%s(*p, b, %s)); return *p %s= b;' % (f, t, o))
            add(N('ca2'), t, '%s a, %s b' % (t, t), 'ERR(%s(a, b, %s)); a %s= b; return a;' % (f, t, o))
            add(N('if'), 'int', '%s a, %s b' % (t, t), 'ERR(%s(a, b, %s)); if(a %s b) return ev(1); return ev(2);' % (f, t, o))
            add(N('ev'), t, '%s a, %s b' % (t, t), 'ERR(%s(a, b, %s)); return ev%s(a %s b);' % (f, t, 'l' if w == 64 else '', o))
            if n != 'mul':
                add(N('chain'), t, '%s a, %s b, %s c' % (t, t, t), 'ERR(%s(a, b, %s)); %s x = a %s b; ERR(%s(x, c, %s)); return a %s b %s c;' % (f, t, t, o, f, t, o, o))
                add(N('spill'), t, '%s a, %s b, %s c, %s d' % (t, t, t, t), 'ERR(%s(a, b, %s)); ERR(OVA(c, d, %s)); %s x = a %s b, y = c + d; ERR(%s(x, y, %s)); return (a %s b) %s (c + d);' % (f, t, t, t, o, f, t, o, o))
                add(N('mem'), t, '%s *p/*3*/, u32 i' % t, 'i &= 1; ERR(%s(p[i], p[i + 1], %s)); return p[i] %s p[i + 1];' % (f, t, o))
        for n, e, k in [('inc', '++a', 'OVA(a, 1, %s)'), ('dec', '--a', 'OVS(a, 1, %s)'), ('pinc', 'a++', 'OVA(a, 1, %s)'), ('pdec', 'a--', 'OVS(a, 1, %s)'), ('neg', '-a', 'OVS(0, a, %s)')]:
            add('%s_%s' % (n, t), t, '%s a' % t, 'ERR(%s); return %s;' % (k % t, e))
            add('%s_%s_m' % (n, t), t, '%s *p/*1*/' % t, 'ERR(%s); %s return %s;' % (k.replace('a,', '*p,').replace(' a)', ' *p)').replace('(a ', '(*p ').replace(', a,', ', *p,') % t, '', e.replace('a', '(*p)')))
        # operators that cannot overflow must not trap
        for i, e in enumerate(['a & b', 'a | b', 'a ^ b', '~a', '!a', 'a == b', 'a < b', 'a ? b : 3', '(a, b)', 'a && b']):
            add('no%d_%s' % (i, t), t, '%s a, %s b' % (t, t), 'return %s;' % e)
        add('nodiv_' + t, t, '%s a, %s b' % (t, t), 'return a / b + (a %% b) * 0;' % (), 'PRE(b > 1)')
        add('nodivc_' + t, t, '%s a' % t, 'return (a / 7) ^ (a % 10) ^ (a / 8);')
        add('nodivca_' + t, t, '%s a, %s b' % (t, t), 'a /= b; return a;', 'PRE(b > 0)')
        add('nomodca_' + t, t, '%s a, %s b' % (t, t), 'a %= b; return a;', 'PRE(b > 0)')
        add('noshr_' + t, t, '%s a, int b' % t, 'return a >> b;', 'PRE(b >= 0 && b < %d)' % w)
        add('noshrc_' + t, t, '%s a' % t, 'return (a >> 3) ^ (a >> 1);')
        add('noshlc_' + t, t, '%s a' % t, 'return (a << 3) ^ (a << 1);', 'PRE(a >= 0 && a < %s)' % ('0x08000000' if w == 32 else '0x0800000000000000L'))
        add('noshl_' + t, t, '%s a, int b' % t, 'return a << b;', 'PRE(a >= 0 && a <= 1 && b >= 0 && b < %d)' % (w - 1))
        add('noshlca_' + t, t, '%s a, int b' % t, 'a <<= b; a >>= 1; return a;', 'PRE(a >= 0 && a <= 1 && b >= 0 && b < %d)' % (w - 1))
        add('nocast_' + t, 'long', '%s a' % t, 'return (char)a + (long)(short)a + (unsigned)a;' if w == 64 else 'return (char)a + (short)a;')
    for t in ['s8', 's16', 'u8', 'u16']:
        for n, o, f in [('add', '+', 'OVA'), ('sub', '-', 'OVS'), ('mul', '*', 'OVM')]:
            add('%s_%s' % (n, t), 'int', '%s a, %s b' % (t, t), 'ERR(%s(a, b, int)); return a %s b;' % (f, o))
            add('%s_%s_ca' % (n, t), t, '%s a, int b' % t, 'ERR(%s(a, b, int)); a %s= b; return a;' % (f, o))
        add('inc_' + t, t, '%s a' % t, 'a++; ++a; a--; return a;')
        add('neg_' + t, 'int', '%s a' % t, 'return -a;')
    for t in ['u32', 'u64']:
        for n, o in [('add', '+'), ('sub', '-'), ('mul', '*')]:
            add('%s_%s' % (n, t), t, '%s a, %s b' % (t, t), 'return a %s b;' % o)
            add('%s_%s_c' % (n, t), t, '%s a' % t, 'return (a %s 5) ^ (7 %s a);' % (o, o))
            add('%s_%s_ca' % (n, t), t, '%s a, %s b' % (t, t), 'a %s= b; return a;' % o)
        add('inc_' + t, t, '%s a' % t, 'a++; return -a--;')
    add('mixsl', 'long', 'int a, long b', 'ERR(OVA(a, b, long)); return a + b;')
    add('mixun', 'unsigned', 'int a, unsigned b', 'return a + b * a - b;')
    add('const1', 'int', 'int a', 'ERR(OVA(a, 3, int)); return (1 + 2) + a;')
    add('const2', 'int', '', 'return 2147483647 - 5 + 3;')
    add('const3', 'long', 'int a', 'int x = a; long y = 5 * 7 + 3; return y - 2 * 3;')
    add('ptr1', 'int *', 'int *p/*4*/, u32 i', 'return p + i;', 'PRE(i < 4)')
    add('loop', 'int', 'int n', 'int i, r = 0; for(i = 0; i < n; i++) r += i; return r;', 'PRE(n < 4)')
    add('arr', 'int', 'int *p/*4*/, int i', 'ERR(OVA(p[i], p[3 - i], int)); return p[i] + p[3 - i];', 'PRE(i >= 0 && i < 4)')
    add('retneg', 'int', 'int a', 'ERR(a == -2147483647 - 1); if(-a < 5) return 1; return 2;')
    add('abs', 'int', 'int a', 'ERR(a == -2147483647 - 1); return a < 0 ? -a : a;')
    add('andsc', 'int', 'int a, int b', 'ERR(OVA(a, b, int)); return a + b && a;')
    return '\n'.join(s) + '\n'
def shift():
    s = []
    for lt, w, sg in [('s32', 32, 1), ('u32', 32, 0), ('s64', 64, 1), ('u64', 64, 0)]:
        for rt in ['int', 'unsigned', 'long', 'u8', 's8', 'u64']:
            for n, o in [('shl', '<<'), ('shr', '>>')]:
                c = 'b < 0 || b >= %d' % w if rt not in ('unsigned', 'u64') else 'b >= %d' % w
                if n == 'shl' and sg: c += ' || a < 0'
                pre = 'PRE(b < 0 || b >= %d || a < 0 || (a << b >> b == a && (a << b) >= 0))' % w if n == 'shl' and sg else ''
                for x, stm, ret in [('v', 'return a %s b;' % o, lt), ('ca', 'a %s= b; return a;' % o, lt), ('if', 'if(a %s b) return 1; return 2;' % o, 'int'), ('sp', 'return (a ^ 3) + (a %s b);' % o, lt)]:
                    if x != 'v' and rt not in ('int', 'u64'): continue
                    s.append('TEST %s %s_%s_%s_%s(%s a, %s b) %s\n{ ERR(%s); %s }' % (ret, n, lt, rt, x, lt, rt, pre, c, stm))
    for t in ['s8', 'u8', 's16', 'u16']:
        s.append('TEST int shr_%s(%s a, int b)\n{ ERR(b < 0 || b >= 32); return a >> b; }' % (t, t))
    s.append('TEST int shrc(int a, unsigned u)\n{ return (a >> 31) ^ (u << 31) ^ (u >> 0); }')
    return '\n'.join(s) + '\n'
def div():
    s = []
    for t, mn, sg in [('s32', '(-2147483647-1)', 1), ('u32', '0', 0), ('s64', '(-0x7fffffffffffffffL-1)', 1), ('u64', '0', 0)]:
        for n, o in [('div', '/'), ('mod', '%')]:
            c = 'b == 0' + (' || (a == %s && b == -1)' % mn if sg else '')
            for x, stm, ret in [('v', 'return a %s b;' % o, t), ('ca', 'a %s= b; return a;' % o, t), ('ev', 'return ev%s(a %s b);' % ({'s32': '', 'u32': 'u', 's64': 'l', 'u64': 'ul'}[t], o), t), ('sp', 'return (a ^ 5) ^ (a %s b);' % o, t)]:
                s.append('TEST %s %s_%s_%s(%s a, %s b)\n{ ERR(%s); %s }' % (ret, n, t, x, t, t, c, stm))
            s.append('TEST %s %s_%s_c(%s a)\n{ return (a %s 7) ^ (a %s 8) ^ (a %s 1); }' % (t, n, t, t, o, o, o))
            if sg: s.append('TEST %s %s_%s_cm(%s a)\n{ ERR(a == %s); return a %s -1; }' % (t, n, t, t, mn, o))
            s.append('TEST %s %s_%s_r(%s b)\n{ ERR(b == 0); return 77 %s b; }' % (t, n, t, t, o))
    for t in ['s8', 'u8', 's16', 'u16']:
        s.append('TEST int div_%s(%s a, %s b)\n{ ERR(b == 0); return a / b; }' % (t, t, t))
        s.append('TEST int mod_%s(%s a, %s b)\n{ ERR(b == 0); return a %% b; }' % (t, t, t))
        s.append('TEST %s dca_%s(%s a, int b)\n{ ERR(b == 0); a /= b; return a; }' % (t, t, t))
    s.append('TEST double fdiv(double a, double b)\n{ return a / b; }')
    s.append('TEST long dmix(int a, long b)\n{ ERR(b == 0); return a / b; }')
    s.append('TEST unsigned dmixu(int a, unsigned b)\n{ ERR(b == 0); return a / b; }')
    return '\n'.join(s) + '\n'
PTR = '''
static int ga[5]; static char gc[3]; struct S { int n; int a[4]; char c; };
TEST int b_rd(int i) PRE(i < 5 || i > 5)
{ ERR(i < 0 || i > 5); return ga[i]; }
TEST void b_wr(long i, int v) PRE(i != 5)
{ ERR(i < 0 || i > 5); ga[i] = v; }
TEST int b_loc(unsigned i) PRE(i != 3)
{ char a[3] = { 1, 2, 3 }; ERR(i > 3); return a[i]; }
TEST long b_adr(int i)
{ ERR(i < 0 || i > 5); return &ga[i] - ga; }
TEST long b_rev(int i)
{ ERR(i < 0 || i > 5); return &i[ga] - ga; }
TEST long b_plus(int i)
{ ERR(i < 0 || i > 5); return (ga + i) - ga; }
TEST int b_2d(u32 i) PRE(i != 2)
{ int m[2][3] = { 1, 2, 3, 4, 5, 6 }; ERR(i > 2); return m[i][1]; }
TEST int b_vla(int n, int i) PRE(n > 0 && n < 4 && i != n)
{ int a[n]; for(int k = 0; k < n; k++) a[k] = k; ERR((u64)(s64)i > (u64)n); return a[i]; }
TEST int b_ptr(int *p/*4*/, u32 i) PRE(i < 4)
{ return p[i]; }
'''
VLA = '''
TEST int v_int(int n) PRE(n < 5)
{ ERR(n <= 0); int a[n]; a[0] = n; return a[0] + sizeof a; }
TEST long v_long(long n) PRE(n < 5)
{ ERR(n <= 0); char a[n]; a[0] = 3; return sizeof a + a[0]; }
TEST int v_u(unsigned n) PRE(n < 5)
{ ERR(n == 0); short a[n]; a[n - 1] = 3; return sizeof a + a[n - 1]; }
TEST int v_c(s8 n) PRE(n < 5)
{ ERR(n <= 0); int a[n]; return sizeof a; }
'''
NULLS = '''
struct P { int x, y[3]; struct P *n; }; static int fx(void){ return 3; }
TEST int n_rd(int *p/*N1*/)
{ ERR(!p); return *p; }
TEST int n_ok(struct P *p/*4*/)
{ return p->x + p->y[1]; }
TEST void *n_ret(void *p)
{ return p; }
TEST int n_cmp(int *p, int *q)
{ return p == q; }
'''
NULLS = NULLS.replace('/*N1*/', '/*1*/').replace('ERR(!p); ', '')
NONNULL = '''
static int __attribute__((nonnull)) na(void *p, int k, void *q){ ERR(!p || !q); return k; }
static int __attribute__((nonnull(2))) nb(void *p, void *q){ ERR(!q); return 4; }
TEST int nn1(void *p, int k, void *q)
{ return na(p, k, q); }
TEST int nn2(void *p, void *q)
{ return nb(p, q); }
'''
RETNN = '''
static void *__attribute__((returns_nonnull)) ra(void *p, int k){ void *q = k ? p : &k; ERR(!q); return q; }
TEST int rn1(void *p, int k)
{ return ra(p, k) == p; }
TEST void *__attribute__((returns_nonnull)) rn2(u64 p)
{ ERR(!p); return (void *)p; }
'''
RETNN = RETNN.replace('TEST void *__attribute__((returns_nonnull)) rn2(u64 p)', '__attribute__((returns_nonnull)) void *rn2(u64 p);\nTEST void *rn2(u64 p)')
ALIGN = '''
TEST int al_i(u8 *p/*16*/, u32 i) PRE(i < 8)
{ ERR(i & 3); return *(int *)(p + i); }
TEST int al_s(u8 *p/*16*/, u32 i) PRE(i < 8)
{ ERR(i & 1); return *(short *)(p + i); }
TEST long al_l(u8 *p/*16*/, u32 i) PRE(i < 8)
{ ERR(i & 7); return *(long *)(p + i); }
TEST int al_c(u8 *p/*16*/, u32 i) PRE(i < 8)
{ return *(signed char *)(p + i); }
'''
BOOL = '''
TEST int bo_rd(u8 *p/*1*/)
{ ERR(*p > 1); return *(_Bool *)p; }
TEST int bo_if(u8 *p/*1*/)
{ ERR(*p > 1); if(*(_Bool *)p) return 4; return 5; }
TEST int bo_wr(int v)
{ _Bool b = v; return b; }
'''
UNR = '''
TEST int un1(int v)
{ ERR(v == 3); if(v == 3) __builtin_unreachable(); return v; }
TEST int un2(int v)
{ switch(v){ case 1: return ev(1); case 2: return ev(2); default: ERR(1); __builtin_unreachable(); } }
'''
POV = '''
TEST char *po_add(char *p/*4*/, u32 i) PRE(i <= 4)
{ return p + i; }
TEST long po_d(int *p/*4*/, u32 i) PRE(i <= 4)
{ return p + i - p; }
'''
FDZ = '''
TEST double f_d(double a, double b) PRE(b == b)
{ ERR(b == 0); return a / b; }
TEST float f_f(float a, float b) PRE(b == b)
{ ERR(b == 0); return a / b; }
TEST int f_i(int a, int b) PRE(b > 0)
{ return a / b; }
'''
NOSAN = '''
TEST int __attribute__((no_sanitize_undefined)) ns1(int a, int b)
{ return a + b; }
'''
NOSAN = '__attribute__((no_sanitize_undefined)) int ns1(int a, int b);\nTEST int ns1(int a, int b)\n{ return a + b; }\n__attribute__((no_sanitize("undefined"))) int ns2(int a, int b);\nTEST int ns2(int a, int b) PRE(b >= 0 && b < 32)\n{ return (a * b) ^ (a << b); }\nTEST int ns3(int a, int b)\n{ ERR(OVS(a, b, int)); return a - b; }\n'
TY = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64']
W = {t: int(t[1:]) for t in TY}
def hardmul(o, a, b, r):
    if o != 'mul': return False
    return (W[a] == 64 or W[b] == 64) and ('u64' in (a, b, r) or r == 'u16') or {a, b} == {'u32', 's32'}
def builtins(part, hard=False):
    s = []
    for o in ['add', 'sub', 'mul']:
        for a in TY:
            for b in TY:
                for r in TY:
                    if part == 'same' and not (a == b == r): continue
                    if part == 'mixr' and not (a == b and r != a): continue
                    if part == 'mixo' and not (a != b and (r in (a, b) or (len(a) + len(b) + W[r]) % 3 == 0)): continue
                    if hardmul(o, a, b, r) != hard: continue
                    s.append('TEST int %s_%s_%s_%s(%s a, %s b, %s *r/*1*/)\n{ return __builtin_%s_overflow(a, b, r); }' % (o, a, b, r, a, b, r, o))
                    if part == 'same':
                        s.append('TEST int %s_%s_if(%s a, %s b)\n{ %s r; if(__builtin_%s_overflow(a, b, &r)) return ev(1); return ev(r & 255); }' % (o, a, a, b, r, o))
                        s.append('TEST int %s_%s_c(%s a)\n{ %s r, q; int x = __builtin_%s_overflow(a, 3, &r), y = __builtin_%s_overflow((%s)100, a, &q); evl(r); evl(q); return x + 2 * y; }' % (o, a, a, r, o, o, a))
    return HDR + '\n'.join(s) + '\n'
def chunks(name, text, n, **kw):
    """split the tests of a unit over several"""
    ts = text.split('TEST ')
    return [Unit('%s%d' % (name, i // n), ts[0] + ''.join('TEST ' + t for t in ts[1 + i:1 + i + n]), **kw) for i in range(0, len(ts) - 1, n)]
def units(ctx):
    u = []
    H = ['-fsanitize-error=call=ev0']
    def both(n, text, fl, ol=[]):
        u.append(Unit(n, HDR + text, flags=fl, oflags=ol))
        u.append(Unit(n, HDR + text, flags=fl + H, oflags=ol + ['-DH'], tag='call'))
    u.append(Unit('trapv', HDR + trapv(), flags=['-ftrapv']))
    both('ovf', trapv(), ['-fsanitize=signed-integer-overflow'])
    both('shift', shift(), ['-fsanitize=shift'])
    both('div', div(), ['-fsanitize=integer-divide-by-zero'])
    both('bounds', PTR, ['-fsanitize=bounds'])
    both('vla', VLA, ['-fsanitize=vla-bound'])
    both('null', NULLS, ['-fsanitize=null'])
    both('nonnull', NONNULL, ['-fsanitize=nonnull-attribute'])
    both('retnn', RETNN, ['-fsanitize=returns-nonnull-attribute'])
    both('align', ALIGN, ['-fsanitize=alignment'])
    both('bool', BOOL, ['-fsanitize=bool'])
    both('unr', UNR, ['-fsanitize=unreachable'])
    both('pov', POV, ['-fsanitize=pointer-overflow'])
    both('fdz', FDZ, ['-fsanitize=float-divide-by-zero'])
    both('nosan', NOSAN, ['-fsanitize=undefined'])
    u.append(Unit('off', HDR.replace('#elif', '#elif 1\n#define ERR(c) do { } while(0)\n#elif') + shift().replace('PRE(b < 0 || b >= 32 ||', 'PRE(b >= 0 && b < 32 && (').replace('PRE(b < 0 || b >= 64 ||', 'PRE(b >= 0 && b < 64 && (').replace('>= 0)) ', '>= 0))) ') if 0 else HDR + VLA.replace('n < 5', 'n > 0 && n < 5'), flags=['-fsanitize=undefined', '-ftrapv', '-fno-sanitize=all']))
    for p in ['same', 'mixr', 'mixo']: u += chunks('ovb_' + p, builtins(p), 40) + ([] if ctx.quick() else chunks('ovh_' + p, builtins(p, True), 4))
    return u
def run(ctx):
    run_tv(ctx, units(ctx), per_unit_s=240 if ctx.quick() else 850)
