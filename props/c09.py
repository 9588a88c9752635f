"""C09: control flow."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
IT = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64']
RNG = {'s8': (-128, 127), 'u8': (0, 255), 's16': (-32768, 32767), 'u16': (0, 65535), 's32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1),
       's64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}
def lit(t, v):
    if v == -2**63: return '(-9223372036854775807L-1)'
    if v == -2**31: return '(-2147483647-1)'
    return '%d%s' % (v, {'u32': 'U', 'u64': 'UL', 's64': 'L'}.get(t, ''))
def switches():
    u = []
    for t in IT:
        lo, hi = RNG[t]
        s = []
        pts = sorted({lo, lo + 1, -3 if lo < 0 else 3, 0, 7, 40, hi - 1, hi})
        for dpos in range(0, 4):      # default nowhere, first, middle, last
            body = []
            for i, v in enumerate(pts):
                if (dpos, i) in ((1, 0), (2, 4)): body.append('default: r += 1000; ' + ('break;' if dpos == 2 else ''))
                body.append('case %s: r += %d;%s' % (lit(t, v), 1 << i, ' break;' if i % 3 != 1 else ''))
            if dpos == 3: body.append('default: r = -5;')
            s.append('TEST int sw%d(%s x)\n{ int r = 0; switch(x){ %s } return r; }' % (dpos, t, '\n '.join(body)))
        ranges = [(lo, lo + 2), (3, 9), (20, 40), (hi - 5, hi)] if t[0] == 'u' else [(lo, lo + 2), (-9, -3), (-1, 1), (20, 40), (hi - 5, hi)]
        body = ['case %s ... %s: r += %d;%s' % (lit(t, a), lit(t, b), 1 << i, ' break;' if i & 1 else '') for i, (a, b) in enumerate(ranges)]
        s.append('TEST int swr(%s x)\n{ int r = 0; switch(x){ %s case 12: r = 77; break; default: r = 99; } return r; }' % (t, '\n '.join(body)))
        s.append('TEST int swr1(%s x)\n{ switch(x){ case 4 ... 5: return 1; case 6 ... 8: return 2; } return 0; }' % t)
        # controlling expression after promotion; case constants converted to the promoted type
        s.append('TEST int swp(%s x)\n{ switch(x + 1){ case 0: return 1; case 1: return 2; case 256: return 3; case 128: return 4; case -127: return 5; } return 6; }' % t)
        s.append('TEST int swc(%s x)\n{ switch(x){ case 255: return 1; case 65535: return 2; case -1: return 3; case 4294967296: return 4; } return 6; }' % t if t not in ('u32', 's32', 'u64') else
                 'TEST int swc(%s x)\n{ switch(x){ case 255: return 1; case 65535: return 2; case -1: return 3; } return 6; }' % t)
        u.append(Unit('switch_' + t, '\n'.join(s) + '\n'))
    return u
def ranges():
    """case ranges and lone cases whose ends and widths sit at every power of two"""
    out = []
    for t in IT:
        lo, hi = RNG[t]
        ws = sorted({w for k in range(0, 65) for w in (2**k - 1, 2**k, 2**k + 1) if 0 < w})
        s = []
        for i, w in enumerate(ws):
            for st in (lo, 0, 3, -2, hi - w):
                if st < lo or st + w > hi: continue
                s.append('TEST int r%d(%s x)\n{ switch(x){ case %s ... %s: return 1; %s } return 0; }' % (len(s), t, lit(t, st), lit(t, st + w), 'case 1: return 2;' if st > 1 else 'default: return 3;'))
        for i, w in enumerate(ws):
            for v in (w, -w):
                if lo <= v <= hi: s.append('TEST int r%d(%s x)\n{ switch(x){ case %s: return 1; case 0: return 2; } return 0; }' % (len(s), t, lit(t, v)))
        for j in range(0, len(s), 150): out.append(Unit('rng%d_%s' % (j // 150, t), '\n'.join(s[j:j + 150]) + '\n'))
    return out
CONDS = ['x', '!x', 'x < y', 'x == y', 'x && y', 'x || y', '!(x && y)', '!x || !y', 'x && (y || z)', '(x && y) || z', 'x ? y : z', '(x, y)', 'x = y', 'x & 1', '!(x < y) == z', 'x && !y && z', '(x || y) && (y || z)', 'ev(x)', 'ev(x) && ev(y)', 'ev(x) || ev(y)', '!ev(x)', 'x ? ev(y) : ev(z)', 'x++ < y', '!!x', '(x && y) == z', '(x < y) + (y < z)', 'x ?: y', 'ev(x) ?: ev(y)']
def conds():
    s = []
    for i, c in enumerate(CONDS):
        s.append('TEST int if%d(int x, int y, int z)\n{ if(%s) ev(100); return x + y * 3 + z * 7; }' % (i, c))
        s.append('TEST int ie%d(int x, int y, int z)\n{ if(%s) return ev(1); else y = ev(2); return x + y; }' % (i, c))
        s.append('TEST int qc%d(int x, int y, int z)\n{ return (%s) ? ev(5) + x : y - z; }' % (i, c))
        s.append('TEST int vl%d(int x, int y, int z)\n{ int r = (%s); return r * 3 + x; }' % (i, c))
    a = Unit('conds', '\n'.join(s) + '\n')
    s = []
    for i, c in enumerate(CONDS):
        s.append('TEST int wh%d(int x, int y, int z)\n{ int n = 0; while(%s){ if(++n >= 2) break; x++; z ^= y; } return n * 16 + x; }' % (i, c))
        s.append('TEST int dw%d(int x, int y, int z)\n{ int n = 0; do { n++; x--; if(n >= 2) break; if(y == 5) continue; y++; } while(%s); return n * 16 + x - y; }' % (i, c))
        s.append('TEST int fo%d(int x, int y, int z)\n{ int n; for(n = 0; %s; z += 2){ if(++n > 1) return n; if(z == 3) continue; ev(z); } return -x; }' % (i, c))
        s.append('TEST int gt%d(int x, int y, int z)\n{ int n = 0; again: if(%s){ if(n++ < 1){ y--; goto again; } } else goto end; n += 10; end: return n + y; }' % (i, c))
    return [a, Unit('condloops', '\n'.join(s) + '\n')]
MISC = r'''
TEST int duff(u8 n, u8 *p/*8*/) PRE(n > 0 && n <= 8)
{ int s = 0, i = 0, k = (n + 3) / 4; switch(n % 4){ case 0: do { s += p[i++]; case 3: s += p[i++] * 2; case 2: s += p[i++] * 3; case 1: s += p[i++] * 5; } while(--k > 0); } return s + i * 10000; }
TEST int nestsw(int a, int b)
{ switch(a){ case 1: switch(b){ case 1: return 11; default: break; case 2: return 12; } return 10; case 2: if(b) break; case 3: return 23; default: return 9; } return 0; }
TEST int swloop(u8 *p/*4*/)
{ int i, r = 0; for(i = 0; i < 4; i++){ switch(p[i]){ case 0: continue; case 1: r++; break; case 2: goto out; default: r += 10; } r += 100; } out: return r * 4 + i; }
TEST int contdo(int n) PRE(n >= 0 && n < 4)
{ int i = 0, r = 0; do { if(i == 2) continue; r += i + 1; } while(++i < n); return r; }
TEST int contfor(int n) PRE(n >= 0 && n < 5)
{ int r = 0; for(int i = 0; i < n; i++){ if(i & 1) continue; r += i * i + 1; } return r; }
TEST int nestbreak(int n, int m) PRE(n >= 0 && n < 4 && m >= 0 && m < 4)
{ int r = 0; for(int i = 0; i < n; i++){ for(int j = 0; j < 4; j++){ if(j == m) break; r += 1; } r += 100; if(i == 2) break; } return r; }
TEST int forscope(int x)
{ int i = 5; for(int i = 0; i < 2; i++) x += i; return x + i; }
TEST int forempty(int x) PRE(x >= 0 && x < 4)
{ for(;;){ if(x-- <= 0) break; ev(x); } return x; }
TEST int forcomma(int x)
{ int i, j; for(i = 0, j = 3; i < j; i++, j--) x = x * 2 + i; return x + i * 10 + j; }
TEST int gotofwd(int x)
{ int r = 1; if(x > 3) goto b; r = 2; goto c; b: r = 3; ev(r); c: return r + x; }
TEST int gotoin(int x)
{ int r = 0; if(x) goto in; while(r < 3){ r++; in: r += 2; } return r; }
TEST int gotoback(int x) PRE(x >= 0 && x < 4)
{ int r = 0; top: if(!x) return r; r += x--; goto top; }
TEST int cgoto(u32 x) PRE(x < 3)
{ void *t[3] = { &&a, &&b, &&c }; int r = 0; goto *t[x]; a: r += 1; b: r += 10; c: r += 100; return r; }
TEST int cgotos(u32 x, u32 y) PRE(x < 2 && y < 2)
{ static void *t[] = { &&a, &&b }; int r = 0, k = 0; goto *t[x]; a: r += 1; if(k++ < 1) goto *t[y]; return r; b: r += 10; if(k++ < 1) goto *t[y]; return r * 2; }
TEST int labelarith(int x)
{ if(x) goto l1; l0: x += 5; goto l2; l1: x -= 3; if(x == 8) goto l0; l2: ; return x; }
TEST int unreach(int x)
{ return x; ev(1); x = 4; return x; }
TEST int constif(int x)
{ if(0) ev(1); if(1) x++; else ev(2); while(0) ev(3); do x *= 2; while(0); for(; 0;) ev(4); return x; }
TEST int constcond(int x)
{ return (1 ? x : ev(2)) + (0 ? ev(3) : 4) + (0 && ev(5)) + (1 || ev(6)) + (1 && x) + (0 || x); }
TEST int ifchain(int x)
{ if(x < 0) return -1; else if(x == 0) return 0; else if(x < 10) return 1; else if(x < 100) return 2; return 3; }
TEST int dangling(int a, int b)
{ if(a) if(b) return 1; else return 2; return 3; }
TEST void voidret(int x, int *p/*1*/)
{ if(x) return; *p = 3; }
TEST int stmtexpr(int x)
{ int r = ({ int t = x * 2; if(t > 10) t = 10; t + 1; }); return r + ({ x; }); }
TEST int stmtexprloop(int n) PRE(n >= 0 && n < 4)
{ int r = 0; while(({ int k = n--; k > 0; })) r += 3; return r; }
TEST int stmtret(int x)
{ int r = ({ if(x) return 5; 7; }); return r; }
TEST int ternnest(int a, int b, int c)
{ return a ? b ? 1 : 2 : c ? 3 : 4; }
TEST int ternvoid(int a)
{ a ? evv(1) : evv(2); return a; }
TEST int ternassign(int a, int *p/*1*/, int *q/*1*/)
{ *(a ? p : q) = 9; return *p + *q; }
TEST long ternl(int a, int b, long c)
{ return (a < b ? a : c) + (b ? 1 : -1L); }
TEST int swenum(int x)
{ enum { A, B, C } e = x & 3; switch(e){ case A: return 5; case B: return 6; case C: return 7; } return 8; }
TEST int swnobody(int x)
{ switch(ev(x)); switch(x){ } switch(x) case 3: return 3; switch(x){ default: ; } return 1; }
TEST int swdeclskip(int x)
{ switch(x){ int y; case 1: y = 3; return y; case 2: y = 5; { int z = y + x; return z; } } return 0; }
TEST int swlong(long x)
{ switch(x){ case 0x100000000L: return 1; case 0x7fffffffffffffffL: return 2; case -1L: return 3; case 0xffffffffL: return 4; case -0x80000000L: return 5; } return 0; }
TEST int swulong(u64 x)
{ switch(x){ case 0xffffffffffffffffUL: return 1; case 0x8000000000000000UL ... 0x8000000000000003UL: return 2; case 5: return 3; } return 0; }
TEST int swuint(u32 x)
{ switch(x){ case 0x80000000U ... 0xfffffffeU: return 1; case 0xffffffffU: return 2; case 0 ... 4: return 3; } return 0; }
TEST int swchar(char c)
{ switch(c){ case 'a' ... 'z': return 1; case 'A' ... 'Z': return 2; case '0' ... '9': return 3; case '_': return 4; case '\n': case '\t': case ' ': return 5; case '\377': return 6; } return 0; }
TEST int swmany(int x)
{ switch(x){ case 0: return 9; case 1: return 8; case 2: return 17; case 3: return 3; case 4: return 61; case 5: return 2; case 6: return 0; case 7: return 5; case 8: return 4; case 9: return 33; case 10: return 12; case 100: return 1; case 1000: return 7; case -1000: return 99; } return -1; }
TEST int swinswdef(int x)
{ for(;;) switch(x){ case 4: return 4; default: x = 4; continue; case 1: x = 2; break; } }
TEST int whilesw(int x)
{ int n = 0; while(n < 3){ switch(x){ case 0: n++; continue; case 1: n += 2; break; default: return n; } x = 0; } return n; }
TEST int shortc(int a, int b, int c, int d)
{ if((a && b) || (c && d)) return 1; if((a || b) && (c || d)) return 2; if(!(a || b)) return 3; return 4; }
TEST int andval(int a, s64 b, u8 c, char *p/*1*/)
{ return (a && b) + (b && c) * 2 + (c || p) * 4 + (!p || b) * 8; }
TEST int fltcond(float f, double d) PRE(f == f && d == d)
{ int r = 0; if(f) r |= 1; if(!d) r |= 2; if(f && d) r |= 4; if(f || d) r |= 8; while(d){ r |= 16; break; } return (d ? 32 : 0) + r; }
TEST int fltnan(float f, double d, int k) PRE(f != f && d != d)
{ if(k == 1) return f ? 3 : 4; if(k == 2){ if(d) return 5; return 6; } if(k == 3){ while(f) return 7; return 8; } return 0; }
TEST int fltnanok(float f, double d)
{ return (f == f ? 1 : 0) + (d < 2 ? 2 : 0) + (!f ? 4 : 0) + (f != d ? 8 : 0) + ((f && d) ? 16 : 0) * 0; }
TEST int longcond(s64 a, u64 b)
{ int r = 0; if(a) r |= 1; if(!b) r |= 2; if(a && b) r |= 4; do r += 64; while(a && r < 100); return r; }
TEST int charcond(s8 a, u16 b)
{ int r = 0; if(a) r |= 1; if(!b) r |= 2; if(a || b) r |= 4; return a ? r : -r; }
TEST int ptrcond(int *p/*1*/, int k)
{ int *q = k ? p : 0; if(q) return *q; if(!q) return 4; return 5; }
TEST int retmid(int x, int *p/*3*/)
{ for(int i = 0; i < 3; i++) if(p[i] == x) return i; return -1; }
TEST int emptyelse(int x)
{ if(x) ; else ; if(x){} else { x = 4; } return x; }
TEST int labelend(int x)
{ if(x) goto e; x = 5; { e: ; } return x; }
TEST int vlagoto(int n) PRE(n > 0 && n < 4)
{ int k = 0, r = 0; again: { int a[4]; a[k] = n; r += a[k]; } if(++k < 3) goto again; return r; }
TEST int loopcall(int n) PRE(n >= 0 && n < 3)
{ int r = 0; while(n--) r += ev2(n, r); return r; }
TEST int unlp(u32 n) PRE(n < 4)
{ int r = 0; for(; n --> 0; ) r = r * 3 + n; return r; }
static int rec(int n, int k){ return n <= 0 ? k : rec(n - 1, k * 2 + n); }
TEST int recur(int n, int k) PRE(n < 4)
{ return rec(n, k); }
static int even(int n); static int odd(int n){ return n == 0 ? 0 : even(n - 1); } static int even(int n){ return n == 0 ? 1 : odd(n - 1); }
TEST int mutual(int n) PRE(n >= 0 && n < 4)
{ return even(n) * 2 + odd(n); }
TEST int bexpect(int x)
{ if(__builtin_expect(x > 3, 0)) return 1; return __builtin_expect(x, 1) + 2; }
TEST int addrlab(int x)
{ void *p = x ? &&a : &&b; goto *p; a: return 1; b: return 2; }
'''
def units(ctx):
    u = switches() + ranges() + conds() + [Unit('misc', MISC)]
    u += [Unit(x.name, x.src, flags=['-fno-thread-jumps', '-fno-fold-const-vlas'] if 0 else ['-fno-jump-threading'], tag='njt') for x in []]
    return u
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us]
    run_tv(ctx, us, per_unit_s=200)
