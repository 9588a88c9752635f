"""C18: lexical preprocessing: cpp on symbolic bytes in lexical contexts against translation phases 1-3."""
import os
import build, px
from px import Prog, Scene, native
LEVEL = 'model_checked'
TECHNIQUE = px.TECH
NOTE = ('Bytes of the stated alphabet in the stated contexts, every combination. Text must come through unchanged apart from comments (white space) and splices, on its own line. '
        'Directives, macros and invalid text (unterminated literals) are outside here (C04, C17, C20).')
A0 = ' a"\'/*\\\n'
# key, prefix, suffix, alphabet, count, trigraphs, options
def scenes(quick):
    q = lambda a, b: a if quick else b
    return [
        ('start', '', '\nz y\n', A0, q(4, 5), 0), ('mid', 'x ', ' y\nz\n', A0, q(4, 5), 0), ('glue', 'p', 'q\nz w\n', A0, q(4, 5), 0),
        ('in-comment', 'x /*', ' */ y\nz\n', ' */\n\\"a', q(4, 5), 0), ('comment-end', 'x /* a *', ' b */ y */\nz\n', ' */\n\\', q(4, 5), 0), ('line-comment', 'x //', ' */ y\nz\n', ' */\n\\"', q(4, 5), 0),
        ('string', 'x "', '" y\nz\n', ' a"\'/*\\\n?', q(4, 5), 0), ('char', "x '", "' y /* c */\nz\n", ' a"\'/*\\\n', q(4, 5), 0), ('strings', 'x "a" ', ' "/* b */" y\nz\n', ' a"\'/\\,', q(4, 5), 0),
        ('splice', 'x \\', '\n y\nz\n', ' \t\n\\a/', q(4, 5), 0), ('splice2', 'ab\\\nc', '\\\n\\\nd\nz\n', '\n\\ a/*', q(4, 5), 0), ('spliced-comment', 'x /\\\n', '\n y */\nz\n', '/*\\\n a', q(4, 5), 0),
        ('tri', 'x ?', ' y\nz\n', '?/()<\n=!a', q(4, 5), 1, '-trigraphs'), ('tri-str', 'x "?', '" y\nz\n', '?/"\'-\n>\\', q(4, 5), 1, '-trigraphs'), ('tri-off', 'x "??/" ?', ' y\nz\n', '?/()\n=!a', q(4, 5), 0), ('tri-comment', 'x /', ' b\n??/\nc */ y\nz\n', '?/*\n ', q(4, 5), 1, '-trigraphs'),
        ('digraph-off', 'x <', ': y "<:"\nz\n', '<:%> "', q(4, 5), 0), ('number', 'x 1', ' y\nz\n', 'eE.+-0xL', q(4, 5), 0), ('punct', 'x ', ' y\nz\n', '<>=&|+-.', q(4, 5), 0), ('ident', 'x ', ' y\nz\n', '_A0$@`L"', q(4, 4), 0),
        ('std89', 'x /', ' y */\nz\n', '/* \n"a', q(4, 5), 0, '-std=c99'), ('high', 'x "', '" y\nz\n', '\xe9\xff\x80\x01\x7f ', q(3, 4), 0), ('keepline', 'a\n\n/*', '*/ b\nc\n', '\n*/ \\x', q(4, 5), 0),
    ]
def replay(a, b, n, tri, opts):
    def f(v, d):
        text = a.encode('latin1') + v['input'][:n].ljust(n, b' ') + b.encode('latin1')
        open(os.path.join(d, 'in.c'), 'wb').write(text)
        open(os.path.join(d, 'h.h'), 'wb').write(b'')
        exe = os.path.join(d, 'judge')
        native(['gcc', '-w', '-I' + px.HDIR, os.path.join(px.HDIR, 'n_lex.c'), '-o', exe], timeout=60)
        st, o, e = native([build.bins()['cpp']] + list(opts) + ['in.c'], cwd=d)
        open(os.path.join(d, 'out'), 'wb').write(o)
        txt = 'input %r: cpp %s status %s output %r %s' % (text, ' '.join(opts), st, o, e.decode('latin1')[:200])
        if px.crashed(st): return True, txt
        s2, o2, e2 = native([exe, 'in.c', 'out', str(st), str(tri)], cwd=d)
        open(os.path.join(d, 'run.sh'), 'w').write('#!/bin/sh\ncd "$(dirname "$0")"; %s %s in.c > out; ./judge in.c out $? %d\n' % (build.bins()['cpp'], ' '.join(opts), tri))
        return s2 == 1, txt + '\n' + o2.decode('latin1')
    return f
FUNCS = ['preprocess', 'splice_lines', 'read_line', 'fline', 'strip_comment', 'expand_trigraphs', 'filter_macros', 'eval_expand_macros', 'word_find_any', 'str_quotefin2', 'preproc_emit_line_info', 'preproc_push', 'preproc_pop']
def run(ctx):
    p = Prog('cpp', 'h_lex.c')
    only = os.environ.get('VERIF_ONLY')
    sc = []
    for s in scenes(ctx.quick()):
        if only and only not in s[0]: continue
        key, a, b, al, n, tri = s[:6]
        sc.append(Scene(key, p, [a, b, al, n, tri] + list(s[6:]), replay(a, b, n, tri, s[6:]), jobs=1, cpu=20, keyof=lambda v, t, key=key: key + ':' + v['msg'].replace(' ', '-') + ':' + repr(v['input'])[:40]))
        ctx.cov.setdefault('bounds', []).append('%s: %r + %d bytes of %r + %r%s' % (key, a, n, al, b, ''.join(' ' + x for x in s[6:])))
    px.run(ctx, sc, 500 if ctx.quick() else 2500, FUNCS, pool=8)
