"""cc1 on generated templates with symbolic literals (harness/h_cc1.c): generation and replay"""
import os, re, subprocess
import build, px
from px import native
def cstr(s):
    return '"' + ''.join(c if ' ' <= c <= '~' and c not in '"\\?' else '\\%03o' % ord(c) for c in s) + '"'

class Tm(object):
    """template: declarations src; items [(type, reference expr over a,b,c.., size)] of array r; assumption"""
    def __init__(self, key, nv, ops, items=(), pre='', decl=None, chk=None, src=None, flags=()):
        self.key, self.nv, self.ops, self.items, self.pre, self.src, self.chk, self.flags = key, nv, ops, items, pre, src, chk, flags
    def source(self):
        return self.src or 'long r[] = { 1, %s };\n' % ', '.join('(long)(%s)' % e for e, _ in self.items)

def gen(tms, incl=(), body=''):
    o = ['#include <string.h>\n#include "cx.h"\n#include "h_cc1.h"\n' + ''.join('#include "%s"\n' % x for x in incl) + body + '#define A __attribute__((noinline,optnone)) static long\n']
    for k, t in enumerate(tms):
        dcl = ''.join('%s %s = (%s)v[%d]; ' % (ty, n, ty, i) for i, (n, ty) in enumerate(t.ops))
        for j, it in enumerate(t.items):
            o.append('A f%d_%d(const ul *v){ %sreturn %s; }\n' % (k, j, dcl, it[1]))
        o.append('A p%d(const ul *v){ %s%s }\n' % (k, dcl, getattr(t, 'prefn', '') or 'return %s;' % (t.pre or '1')))
        if t.chk: o.append('static void c%d(const ul *v, int st){ %s%s }\n' % (k, dcl, t.chk))
    o.append('const char *gen_src(int k){ static const char *s[] = { %s }; return s[k]; }\n' % ',\n'.join(cstr(t.source()) for t in tms))
    o.append('int gen_nv(int k){ static const char n[] = { %s }; return n[k]; }\n' % ','.join(str(t.nv) for t in tms))
    o.append('void gen_pre(int k, ul *v){ switch(k){ %s } }\n' % ' '.join('case %d: __cx_assume(p%d(v) != 0); break;' % (k, k) for k, t in enumerate(tms) if t.pre))
    o.append('void gen_check(int k, ul *v, int st){ ul r; switch(k){\n')
    for k, t in enumerate(tms):
        o.append('case %d: ' % k)
        if t.chk:
            o.append('c%d(v, st); break;\n' % k)
            continue
        o.append('if(st) __cx_fail("valid constant expression rejected");\n')
        for j, it in enumerate(t.items):
            o.append('if(!asm_arr("r", %d, 8, &r)) __cx_fail("no value for item %d"); if((long)r != f%d_%d(v)) __cx_fail("wrong value: %s");\n' % (j + 1, j + 1, k, j, it[0].replace('"', "'")))
        o.append('break;\n')
    o.append('} }\n')
    return ''.join(o)

def subst(src, v):
    def one(m):
        k = int(m.group(1))
        return str(int.from_bytes(v['notes'].get('v' + '0123456789abcdef'[k], v['input'][8 * k:8 * k + 8]), 'little'))
    src = re.sub(r'9990(\d\d)', one, src)
    run = [7]
    def dig(m):
        run[0] += 1
        x = v['notes'].get('v' + '0123456789abcdef'[run[0]])
        return str(int.from_bytes(x, 'little') if x else 1).zfill(len(m.group(0)))
    return re.sub('@+', dig, src)

def replay_value(tm):
    """the same source through the native cc1 and through gcc: bytes of r compared, by a program the replay directory keeps"""
    def f(v, d):
        src = subst(tm.source(), v)
        open(os.path.join(d, 't.c'), 'w').write(src)
        n = len(tm.items) + 1
        open(os.path.join(d, 'm.c'), 'w').write('#include <stdio.h>\nextern long r[];\nint main(void){ for(int i = 0; i < %d; i++) printf("%%d %%ld\\n", i, r[i]); return 0; }\n' % n)
        open(os.path.join(d, 'run.sh'), 'w').write('#!/bin/sh\n# exit 1 when cc1 rejects or folds differently from gcc\ncd "$(dirname "$0")"; w=$(mktemp -d)\n'
            '${CC1:-%s} %s -w -o $w/u.s t.c || exit 1\ngcc -w -fwrapv -o $w/u $w/u.s m.c && gcc -w -fwrapv -o $w/g t.c m.c || exit 2\n$w/u > $w/uo; $w/g > $w/go; diff $w/uo $w/go\nr=$?; rm -r "$w"; exit $r\n' % (build.bins()['cc1'], ' '.join(tm.flags)))
        st, o, e = native(['sh', os.path.join(d, 'run.sh')], timeout=30)
        return st == 1, src.strip()[:300] + '\nucc / gcc (item value):\n' + (o + e).decode('latin1')[:500]
    return f


def replay_check(ctx, prog, tm, k, tool='cc1'):
    """the source through the native cc1, judged by the same C code compiled natively"""
    def f(v, d):
        src = subst(tm.source(), v)
        vals = [str(int.from_bytes(v['notes'].get('v' + '0123456789abcdef'[i], v['input'][8 * i:8 * i + 8]), 'little')) for i in range(getattr(tm, 'nall', tm.nv))]
        open(os.path.join(d, 'in.c'), 'w').write(src)
        for fn, tx in getattr(tm, 'files', {}).items(): open(os.path.join(d, fn), 'w').write(tx)
        open(os.path.join(d, 'gen.c'), 'w').write(prog.gen)
        exe = os.path.join(d, 'check')
        if native(['gcc', '-w', '-fwrapv', '-I' + os.path.join(build.VERIF, 'lib/cx'), '-I' + px.HDIR, os.path.join(px.HDIR, 'n_check.c'), os.path.join(d, 'gen.c'), '-o', exe], timeout=120)[0]:
            return False, 'replay does not build'
        cmd = [build.bins()[tool]] + (['-w', '-o', 'out.s'] if tool == 'cc1' else []) + list(tm.flags) + ['in.c']
        st, o, e = native(cmd, cwd=d, timeout=20)
        if tool != 'cc1': open(os.path.join(d, 'out.s'), 'wb').write(o)
        txt = 'values %s\n%s\n%s: status %s %s' % (vals, src.strip()[:700], tool, st, e.decode('latin1')[:300])
        if px.crashed(st): return True, txt
        s2, o2, e2 = native([exe, str(k), os.path.join(d, 'out.s'), str(st)] + vals)
        open(os.path.join(d, 'run.sh'), 'w').write('#!/bin/sh\n# the program on in.c, then the check over its output\ncd "$(dirname "$0")"; %s%s; ./check %d out.s $? %s\n' % (' '.join(cmd), '' if tool == 'cc1' else ' > out.s', k, ' '.join(vals)))
        return s2 not in (0, 3), txt + '\n' + o2.decode('latin1')
    return f
