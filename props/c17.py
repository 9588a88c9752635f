"""C17: macro replacement: cpp on macro definitions and calls with symbolic bytes against 6.10.3."""
import os
import build, px
from px import Prog, Scene, native
LEVEL = 'model_checked'
TECHNIQUE = px.TECH
NOTE = ('Calls and replacement lists whose bytes are symbolic over the stated alphabets, every combination, against a token-level model of 6.10.3 (r_mac.h; agrees with gcc on the cases tried). '
        'Not judged: pastes that give no token, unbalanced literals, spacing of a stringised __VA_ARGS__ at its commas; where C leaves nesting open both answers are accepted.')
F1 = '#define F(x) [x]\n'
F2 = '#define F(x,y) x<y>\n'
def scenes(quick):
    q = lambda a, b: a if quick else b
    return [
        # arguments
        ('arg1', F1 + 'F(', ') z\n', q('a(),F"', 'a(),F"\\ '), 4), ('arg2', F2 + 'F(', ') z\n', "a(),F' ", q(4, 5)), ('call', F1 + 'F', 'a) F\n', 'F( )a,', q(4, 5)), ('nested', '#define M(a,b) ((a)>(b)?(a):(b))\nM(M(1,2)', ',3) z\n', 'M(),1', q(4, 5)),
        ('noargs', '#define E() e\n#define V v\nE', ')\n', 'E() ,V', q(4, 5)), ('va', '#define V(a,...) a|__VA_ARGS__|\nV(', ')\n', 'a,() V', q(4, 5)), ('va0', '#define V(...) {__VA_ARGS__}\nV(', ') V()\n', 'a,()V"', q(4, 5)),
        ('multi', F2 + 'F(a', 'b) c\nd\n', '\n,( )F', q(4, 5)), ('multi2', F1 + 'F', '(b) c\nF\nd\n', '\n (a*', q(4, 5)),
        # rescanning and self-reference
        ('self', '#define f f g\n#define g f h\n', ' f\n', 'fgh ', q(4, 5)), ('selffn', '#define f(x) x f(x)\n#define g(x) f(x)\n', '(1)(2)\n', 'fg(1)', q(4, 5)), ('indirect', '#define A B\n#define B C\n#define C(x) x A\n', ' A(B)\n', 'ABC(1)', q(4, 5)),
        ('partial', '#define g(x) <x>\n#define l (\n#define h g l\n', ' 1)\n', 'ghl() ', q(4, 5)), ('defer', '#define E\n#define D(x) x E\n#define G(x) x+1\n', '(2)\n', 'DGE()', q(4, 5)), ('obj-length', '#define A BBB\n#define BBB 1\n#define CC D\n#define D EEEE\n#define y 9\n', ' xy y\n', 'ABCDy ', q(4, 5)),
        ('cross', '#define f(x) g\n#define g(x) f\n', '(1)(2)\n', 'fg(1)', q(4, 5)),
        # words
        ('number', '#define e 5\n#define x 6\n#define f 7\n#define _ 8\n', ' e\n', '1.ex+f', q(4, 5)), ('word', '#define a 1\n#define aa 2\n#define b_ 3\n#define L 4\n', ' a\n', 'ab_L" ', q(4, 5)), ('literal', '#define a 1\n', " a 'a' \"a\"\n", 'a"\'\\ ', q(4, 5)),
        ('glue', '#define N -1\n#define P +\n#define D .\n#define E =\n', 'N\n', 'NPDE+.1', q(4, 5)), ('gluearg', '#define f(x) -x=x.\n#define N -1\nf(', ') 3\n', 'N-+.1>', q(3, 4)),
        # # and ##
        ('string', '#define S(x) #x\nS(', ') z\n', 'a"\\\' (', q(4, 5)), ('string2', '#define S(x) #x\n#define X(x) S(x)\n#define a b c\nX(', ')S(a)\n', 'aS() "', q(4, 5)), ('strspace', '#define S(x,y) #x#y z\nS(', ',b )\n', 'a \n+(', q(4, 5)),
        ('paste', '#define P(x,y) x##y\n#define ab 1\n#define a 2\nP(', ') z\n', 'ab,1(+', q(4, 5)), ('paste3', '#define P(x,y,z) x ## y##z\nP(', ')\n', 'a,1P_', q(4, 5)), ('pastestr', '#define P(x,y) #x##_ y ## 1\nP(', ')\n', 'a,1L ', q(4, 5)),
        ('pasteself', '#define C(a,b) a##b\n#define X(a,b) C(a,b)\nX(X(a', '1),2)\n', 'CX(,)a', q(4, 5)), ('pasteobj', '#define O a ## b\n#define T x##1\n#define ab(x) {x}\n', '(O)\n', 'OTab(', q(4, 5)),
        # replacement lists
        ('body', '#define F(x,y) ', '\nF(1,a) F(x,)\n', 'xyF# (', q(4, 5)), ('body2', '#define F(x) x', '\nF(1) F(F(a)) F(-)\n', 'xF#+,-', q(3, 4)), ('bodyobj', '#define O ', '\n#define a O b\n O a\n', 'Oa#( 1', q(3, 5)), ('define', '#define F', '\nF(1) F\n', '(x) ,1', q(4, 5)),
        ('vabody', '#define V(a,...) ', '__VA_ARGS__ a\nV(1,2,3) V(4,)\n', 'a#(, ', q(4, 5)),
    ]
def replay(a, b, n, opts):
    def f(v, d):
        text = a.encode('latin1') + v['input'][:n].ljust(n, b' ') + b.encode('latin1')
        open(os.path.join(d, 'in.c'), 'wb').write(text)
        exe = os.path.join(d, 'judge')
        native(['gcc', '-w', '-I' + px.HDIR, os.path.join(px.HDIR, 'n_mac.c'), '-o', exe], timeout=60)
        st, o, e = native([build.bins()['cpp'], '-w'] + list(opts) + ['in.c'], cwd=d)
        open(os.path.join(d, 'out'), 'wb').write(o)
        txt = 'input:\n%s\ncpp: status %s output:\n%s\n%s' % (text.decode('latin1'), st, o.decode('latin1'), e.decode('latin1')[:300])
        if px.crashed(st): return True, txt
        s2, o2, e2 = native([exe, 'in.c', 'out', str(st)], cwd=d)
        open(os.path.join(d, 'run.sh'), 'w').write('#!/bin/sh\ncd "$(dirname "$0")"; %s -w %s in.c > out; ./judge in.c out $?\n' % (build.bins()['cpp'], ' '.join(opts)))
        g = native(['gcc', '-E', '-P', '-w', '-std=c99', 'in.c'], cwd=d)
        return s2 == 1, txt + '\n' + o2.decode('latin1') + '\ngcc: status %s\n%s' % (g[0], g[1].decode('latin1'))
    return f
FUNCS = ['eval_expand_macros', 'eval_expand_macros_more', 'expand', 'expand_macro', 'eval_func_macro', 'substitute', 'split_func_args', 'paste', 'stringise', 'tokenise', 'tokens_join_n', 'handle_define', 'macro_add_func', 'macro_find', 'expand_line', 'str_trim', 'ppnum_len', 'word_end']
def run(ctx):
    p = Prog('cpp', 'h_mac.c')
    only = os.environ.get('VERIF_ONLY')
    sc = []
    for s in scenes(ctx.quick()):
        if only and only not in s[0]: continue
        key, a, b, al, n = s[:5]
        sc.append(Scene(key, p, [a, b, al, n] + list(s[5:]), replay(a, b, n, s[5:]), jobs=1, cpu=20, keyof=lambda v, t, key=key: key + ':' + v['msg'].replace(' ', '-') + ':' + repr(v['input'])[:40]))
        ctx.cov.setdefault('bounds', []).append('%s: %r + %d bytes of %r + %r' % (key, a, n, al, b))
    px.run(ctx, sc, 600 if ctx.quick() else 2500, FUNCS, pool=8)
