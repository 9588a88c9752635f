"""C31: lines: where cpp's markers put each mark, what __LINE__ says, symbolic #line numbers and conditions; cc1: markers to debug lines and diagnostics."""
import os, random
import build, px
from px import Prog, Scene, native
from cc1gen import Tm, gen, replay_check, cstr
LEVEL = 'model_checked'
TECHNIQUE = px.TECH
NOTE = ('Seeded source structures (splices, comments over lines, nested groups, includes, macros over lines, #line) whose #line numbers are symbolic digits and whose conditions are symbolic values. '
        'A mark on a spliced line may be placed on any of the joined lines. The assembler turns .loc into line tables: outside.')
HDR = 'mh1 __LINE__ __FILE__\n\n#if 0\n\n#endif\n/* x\n */ mh2 __LINE__ __FILE__\n#define HM(x) x \\\n x\nmh3 __LINE__ __FILE__\n'
BODY = r'''
const char HDR[] = %s;
static struct { int n; ul pos[4], val[4]; char mf[4][24], vf[4][24]; } P[40];      /* marks: mN or mhN (30+N) */
static void lread(void){
	ul n, line = 0; const char *p = asm_out(&n), *e = p + n; char f[24]; *f = 0;
	while(p < e){
		const char *q = p;
		if(*q == '#' && q[1] == ' '){
			q += 2;
			if(asm_numend(&q, &line) && q[0] == ' ' && q[1] == '"'){ int i = 0; for(q += 2; q < e && *q != '"' && i < 23; q++) f[i++] = *q; f[i] = 0; }
			while(p < e && *p != '\n') p++;
			p++;
			continue;
		}
		for(; q < e && *q != '\n'; q++) if(*q == 'm' && (q == p || q[-1] == ' ' || q[-1] == ';') && (q[1] == 'h' || isdigit((unsigned char)q[1]))){
			int k = 0, h = q[1] == 'h', i; q += h ? 2 : 1;
			while(isdigit((unsigned char)*q)) k = k * 10 + *q++ - '0';
			k += h ? 30 : 0;
			if(*q != ' ' || k >= 40 || (i = P[k].n) > 3) continue;
			while(*q == ' ') q++;
			P[k].pos[i] = line; strcpy(P[k].mf[i], f);
			if(!asm_numend(&q, &P[k].val[i])) __cx_fail("mark without a line number");
			P[k].vf[i][0] = 0;
			while(*q == ' ') q++;
			if(*q == '"'){ int j = 0; for(q++; q < e && *q != '"' && j < 23; q++) P[k].vf[i][j++] = *q; P[k].vf[i][j] = 0; }
			P[k].n++;
			if(q >= e || *q == '\n'){ break; }
		}
		p = q;
		while(p < e && *p != '\n') p++;
		p++; line++;
	}
}
static void mk(int k, int i, ul lo, ul hi, const char *f){
	if(P[k].n <= i) __cx_fail("mark missing");
	if(P[k].pos[i] < lo || P[k].pos[i] > hi) __cx_fail("text placed on another line");
	if(P[k].val[i] < lo || P[k].val[i] > hi) __cx_fail("wrong __LINE__");
	if(strcmp(P[k].mf[i], f)) __cx_fail("marker names another file");
	if(strcmp(P[k].vf[i], f)) __cx_fail("wrong __FILE__");
}
''' % cstr(HDR)
def templates(quick):
    rnd = random.Random(31)
    out = []
    for k in range(28 if quick else 200):
        L, st = [], ['ul off = 0; const char *fn = "in.c"; int ninc = 0;']      # off: presumed minus physical
        m, nv, nd, nt = [0], [0], [0], [0]
        def here(): return len(L) + 1
        def mark(live, pre='', post='', lo=0):
            m[0] += 1
            if m[0] > 28: return
            st.append('if(%s) mk(%d, 0, off + %d, off + %d, fn);' % (live, m[0], here() - lo, here()))
            L.append('%sm%d __LINE__ __FILE__%s' % (pre, m[0], post))
        def item(d, live):
            z = rnd.random()
            if z < 0.22: mark(live)
            elif z < 0.30: L.extend(rnd.choice([[''], ['', ''], ['int a; /* x', ' y', '*/ int b;'], ['// c \\', ' more'], ['x \\', ' y \\', ' z'], ['"a\\', 'b"'], ['#define Q%d 1 \\' % len(L), ' + 2'], ['#define R%d /* c */ 3' % len(L)], ['#pragma omp x'], ['/**/'], ["'\\''"], ['# '], ['#'], ['#undef NOPE']]))
            elif z < 0.36: L.append('int a; /* x'); L.append(''); mark(live, ' y */ ')
            elif z < 0.42: L.append('a b \\'); mark(live, '', '', 1); L.append('')
            elif z < 0.47: L.append('s \\'); L.append(' t /* u \\'); L.append('v */ w \\'); mark(live, '', '', 3)
            elif z < 0.55: L.append('#define MM%d(x) x' % len(L)); mark(live, 'MM%d( q ) ' % (len(L) - 1))
            elif z < 0.62:
                L.append('#define ML%d(x) x' % len(L)); t = len(L) - 1
                L.append('ML%d(' % t); L.append(' 1 + /* c'); L.append(' d */ 2 '); L.append(')'); mark(live)
            elif z < 0.70 and nd[0] < 3:
                f = rnd.choice([None, 'foo.c', 'b/c.h'])
                n = rnd.choice([2, 3, 4])
                fm = rnd.choice(['#line %s%s', '# line %s%s', '#  %s%s', '#line  %s %s'])
                st.append('if(%s){ off = v[%d] - %d;%s }' % (live, 8 + nd[0], here() + 1, ' fn = "%s";' % f if f else ''))
                L.append(fm % ('@' * n, ' "%s"' % f if f else '')); nd[0] += 1
                mark(live)
            elif z < 0.78:
                L.append('#include "h.h"')
                st.append('if(%s){ mk(31, ninc, 1, 1, "h.h"); mk(32, ninc, 7, 7, "h.h"); mk(33, ninc, 10, 10, "h.h"); ninc++; }' % live if d >= 0 else '')
                mark(live)
            elif d > 0: cond(d - 1, live)
            else: mark(live)
        def cond(d, live):
            nt[0] += 1; t, g = 't%d' % nt[0], 'g%d' % nt[0]
            st.append('int %s = 0, %s;' % (t, g))
            def ce():
                if nv[0] >= 4 or rnd.random() < 0.4: c = rnd.choice('01'); return c, c
                nv[0] += 1
                return '9990%02d' % (nv[0] - 1), 'v[%d] != 0' % (nv[0] - 1)
            a, c = ce()
            L.append('#if ' + a); st.append('%s = (%s) && (%s); %s |= %s;' % (g, live, c, t, c))
            item(d, g)
            while rnd.random() < 0.3:
                a, c = ce()
                L.append('#elif ' + a + rnd.choice(['', ' // x', ' /* z'])); 
                if L[-1].endswith('z'): L[-1] += ' */'
                st.append('%s = (%s) && !%s && (%s); %s |= %s;' % (g, live, t, c, t, c)); item(d, g)
            if rnd.random() < 0.5: L.append('#else'); st.append('%s = (%s) && !%s;' % (g, live, t)); item(d, g)
            L.append('#endif'); item(0, live)
        inc = 0
        for _ in range(7):
            if sum('h.h' in x for x in L) < 3: item(2, '1')
        mark('1')
        body = '\n'.join(L) + '\n'
        if body.count('h.h') > 4: continue
        t = Tm('lines%d' % k, nv[0], [], src=body, pre='1', chk='if(st) __cx_fail("valid text rejected"); lread();\n' + '\n'.join(st))
        t.prefn = ''
        t.nall = 12
        t.files = {'h.h': HDR}
        out.append(t)
    return out
FUNCS = ['preprocess', 'splice_lines', 'read_line', 'strip_comment', 'handle_line_directive', 'preproc_emit_line_info', 'preproc_push', 'preproc_pop', 'handle_include', 'eval_macro_r', 'parse_directive', 'directive_sync', 'set_current_fname',
         'parse_line_directive', 'handle_line_file_directive', 'dwarf_attr_decl']
def cc1_tms():
    S = 'enum { VAR = 0x34, FUN = 0x2e };\nif(st) __cx_fail("rejected"); dw_parse();'
    o = []
    for key, dd, add in (('m1', '@', 0), ('m3', '@@@', 0), ('m5', '@@@@@', 0)):
        o.append(Tm('cc1.' + key, 0, [], src='# 1 "in.c"\n# %s "z.c" 1\nint v;\n\nint f(int a)\n{\n  a++;\n  return a;\n}\n# 2 "in.c" 2\nint last;\n' % dd, pre='1',
            chk=S + 'ul l = v[8]; if(dw_val(dw_find(VAR, "v", -1), 0x3b) != l) __cx_fail("line of v"); if(dw_val(dw_find(FUN, "f", -1), 0x3b) != l + 2) __cx_fail("line of f"); if(dw_val(dw_find(VAR, "last", -1), 0x3b) != 2) __cx_fail("line of last"); if(!locline(l + 4)) __cx_fail("no .loc for a statement"); if(!locline(l + 5)) __cx_fail("no .loc for the return");'))
        o.append(Tm('cc1.line' + key, 0, [], src='# 1 "in.c"\nint a0;\n# %s "in.c"\nint v; int w\n= 3;\n#line %s\nint f(int a){ return\na; }\n' % (dd, dd), pre='1',
            chk=S + 'ul l = v[8]; if(dw_val(dw_find(VAR, "a0", -1), 0x3b) != 1) __cx_fail("line of a0"); if(dw_val(dw_find(VAR, "v", -1), 0x3b) != l) __cx_fail("line of v"); if(dw_val(dw_find(VAR, "w", -1), 0x3b) != l) __cx_fail("line of w"); if(dw_val(dw_find(FUN, "f", -1), 0x3b) != v[9]) __cx_fail("line of f");'))
    for t in o: t.flags = ('-g',); t.nall = 12; t.prefn = ''
    return o
LOC = r'''
static int locline(ul l){ ul n, x; const char *p = asm_out(&n), *e = p + n; for(; p + 5 < e; p++) if(!memcmp(p, ".loc ", 5)){ const char *q = p + 5; if(asm_numend(&q, &x) && *q == ' '){ q++; if(asm_numend(&q, &x) && x == l) return 1; } } return 0; }
'''
def run(ctx):
    only = os.environ.get('VERIF_ONLY')
    tms = [t for t in templates(ctx.quick()) if not only or only in t.key]
    cts = [t for t in cc1_tms() if not only or only in t.key]
    sc = []
    if tms:
        p = Prog('cpp', 'h_cpp.c', gen=gen(tms, body='#include <ctype.h>\n' + BODY), name='c31', defs=['-DDIGITS'])
        sc += [Scene(t.key, p, [k], replay_check(ctx, p, t, k, tool='cpp'), jobs=1, cpu=20) for k, t in enumerate(tms)]
    if cts:
        p2 = Prog('cc1', 'h_cc1.c', gen=gen(cts, ['h_dwarf.h'], body=LOC), name='c31c', defs=['-DDIGITS'])
        sc += [Scene(t.key, p2, [k] + list(t.flags), replay_check(ctx, p2, t, k), jobs=1, cpu=20) for k, t in enumerate(cts)]
    ctx.cov['bounds'] = ['%d structures, up to 4 symbolic conditions (any 64-bit value) and 3 #line numbers of 2 to 4 symbolic digits' % len(tms), 'cc1: markers with 1, 3, 5 symbolic digits']
    px.run(ctx, sc, 500 if ctx.quick() else 2500, FUNCS, pool=8)
