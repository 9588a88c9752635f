"""C07: bitfield reads and writes touch exactly their bits."""
from harness import Unit, run_tv
LEVEL = 'translation_validation'
T = [('signed char', 8, 1), ('unsigned char', 8, 0), ('short', 16, 1), ('unsigned short', 16, 0), ('int', 32, 1), ('unsigned', 32, 0),
     ('long', 64, 1), ('unsigned long', 64, 0)]
def unit(ty, n, sg, w, offs):
    s = []
    R = 'long' if sg else 'unsigned long'
    for o in offs:
        if o + w > n: continue
        post = n - o - w
        st = 'struct B%d' % o
        s.append(st + ' { %s lead; %s%s f:%d; %s %s tail; };' % (
            ty, '%s pre:%d; ' % (ty, o) if o else '', ty, w, '%s post:%d;' % (ty, post) if post else '', ty))
        P = '/*B24*/'
        a = 's%d' % o
        s.append('TEST %s %s_rd(%s *p%s)\n{ return p->f; }' % (R, a, st, P))
        s.append('TEST %s %s_wr(%s *p%s, long v)\n{ return p->f = v; }' % (R, a, st, P))
        s.append('TEST void %s_wk(%s *p%s)\n{ p->f = -1; %s}' % (a, st, P, 'p->post = 0; ' if post else ''))
        s.append('TEST void %s_wz(%s *p%s)\n{ p->f = 0; %s}' % (a, st, P, 'p->pre = -1; ' if o else ''))
        s.append('TEST %s %s_ca(%s *p%s, int v)\n{ return p->f += v; }' % (R, a, st, P))
        s.append('TEST %s %s_cx(%s *p%s, int v)\n{ p->f ^= v; p->f <<= 1; return p->f; }' % (R, a, st, P))
        s.append('TEST %s %s_pi(%s *p%s)\n{ return p->f++; }' % (R, a, st, P))
        s.append('TEST %s %s_pd(%s *p%s)\n{ return --p->f; }' % (R, a, st, P))
        s.append('TEST int %s_cmp(%s *p%s, int v)\n{ return (%sp->f < v) + (p->f ? 2 : 0) + !p->f * 4; }' % (a, st, P, '(%s)' % R if w > 32 else ''))
        if o and post:
            s.append('TEST %s %s_all(%s *p%s, int x, int y, int z)\n{ p->pre = x; p->f = y; p->post = z; return (%s)p->pre + (%s)p->f + (%s)p->post; }' % (R, a, st, P, R, R, R))
            s.append('TEST void %s_cp(%s *p%s, %s *q%s)\n{ p->f = q->post; p->post = q->f; p->pre = q->pre; }' % (a, st, P, st, P))
        s.append('TEST %s %s_loc(int x, int y)\n{ %s b = { 0 }; b.f = x; b.f -= y; return b.f + b.lead + b.tail; }' % (R, a, st))
    return Unit('b_%s_%d' % (ty.replace(' ', ''), w), '\n'.join(s) + '\n') if s else None

MISC = '''
struct M { int a:3; unsigned b:7; int c:22; unsigned d:1; int :0; int pad; long e:33; long :0; unsigned char g:5; int h; };
TEST long mixed(struct M *p/*B32*/, int v)
{ p->a = v; p->b = v >> 3; p->c += v; p->d = v; p->e = v * 3L; p->g++; return p->a + p->b + p->c + p->d + (long)p->e + p->g + p->h; }
struct Z { int a:5; int :0; int b:5; int :3; unsigned c:4; };
TEST int zero(struct Z *p/*B8*/, int v)
{ p->a = v; p->b = v + 1; p->c = v + 2; return p->a * 10000 + p->b * 100 + p->c; }
struct Q { _Bool x:1; _Bool y:1; unsigned r:6; };
TEST int bools(struct Q *p/*B4*/, int v)
{ p->x = v; p->y = v & 4; return p->x + p->y * 2 + p->r * 4; }
TEST int boolinc(struct Q *p/*B4*/)
{ p->x++; p->y |= p->x; return p->y; }
union U { unsigned f:12; unsigned short s; unsigned all; };
TEST unsigned un(union U *p/*B4*/, unsigned v)
{ p->f = v; return p->all + p->s; }
struct N { char c; struct { unsigned lo:4, hi:4; } n[3]; char d; };
TEST int nested(struct N *p/*B20*/, u32 i, int v) PRE(i < 3)
{ p->n[i].hi = v; p->n[i].lo ^= v; return p->n[i].hi - p->n[i].lo; }
enum e { E0, E1, E2, E3 };
struct En { enum e x:2; enum e y:3; };
TEST int enums(struct En *p/*B4*/, u32 v)
{ p->x = v & 3; p->y = v & 7; return p->x * 8 + p->y; }
struct S3 { unsigned a:3, b:5, c:8, d:16; };
TEST unsigned swapb(struct S3 *p/*B4*/)
{ unsigned t = p->a; p->a = p->b; p->b = p->c; p->c = p->d; p->d = t; return p->a; }
TEST int condb(struct S3 *p/*B4*/, int k)
{ return (k ? p->a : p->d) + (p->b && p->c); }
TEST int argb(struct S3 *p/*B4*/)
{ return ev2(p->b, p->d) + ev(p->a); }
TEST long promo(struct S3 *p/*B4*/)
{ return (p->a - 7) / 2 + (long)(p->d - 70000); }
TEST int shiftb(struct S3 *p/*B4*/)
{ return (p->d << 15) >> 2; }
struct S3 gs_s;
TEST int globb(int v)
{ gs_s.c = v; gs_s.b--; return gs_s.c + gs_s.d; }
struct S3 copyb(struct S3 *q, int v){ struct S3 s = *q; s.b = v; return s; }
TEST int passb(struct S3 *p/*B4*/, int v)
{ struct S3 t = copyb(p, v); return t.a + t.b * 8 + t.c * 256 + t.d; }
TEST long arrb(int v, int w)
{ struct { int a:9; unsigned b:9; } x[2] = { { v, w }, { w, v } }; return x[0].a + x[0].b * 1000L + x[1].a * 7 + x[1].b; }
'''
def units(ctx):
    u = []
    for ty, n, sg in T:
        for w in range(1, n + 1):
            offs = sorted(set([0, 1, n // 2, n - w, 3, 8, 31 if n == 64 else 7]))
            if getattr(ctx, 'tier', 'quick') == 'thorough': offs = range(0, n, 1 if n <= 16 else 3)
            x = unit(ty, n, sg, w, [o for o in offs if o >= 0])
            if x: u.append(x)
    return u + [Unit('misc', MISC)]
def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us]
    run_tv(ctx, us, per_unit_s=300)
