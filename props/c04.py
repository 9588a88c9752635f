"""C04: conditional inclusion: cpp over #if expressions and group structures with symbolic operand values."""
import os, random
import build, px
from px import Prog, Scene
from cc1gen import Tm, gen, replay_check
LEVEL = 'model_checked'
TECHNIQUE = px.TECH
NOTE = ('Every operand value of every template is covered; the expressions are templates (each operator alone, each pair of binary operators in both nestings and unparenthesised, unary and ?: contexts, '
        'unevaluated operands, seeded deeper trees), the group structures seeded nestings up to depth 4; the digit-to-number step is replaced by a symbolic value (C05 explores it).')
PREC = {'*': 1, '/': 1, '%': 1, '+': 2, '-': 2, '<<': 3, '>>': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '==': 5, '!=': 5, '&': 6, '^': 7, '|': 8, '&&': 9, '||': 10}
CMP = ('<', '<=', '>', '>=', '==', '!=')
def lv(i, u): return ('v', i, u)
def text(t, full=False):
    """C text of the tree, parentheses only where the grammar needs them (or everywhere)"""
    def pr(t): return 0 if t[0] in ('v', 'k', 'id') else 0.5 if t[0] == 'u' else 11 if t[0] == '?' else PREC[t[1]]
    def sub(x, lim): s = text(x, full); return '(%s)' % s if pr(x) > lim or (full and pr(x)) else s
    if t[0] == 'v': return '9990%02d%s' % (t[1], 'u' if t[2] else '')
    if t[0] == 'k': return str(t[1])
    if t[0] == 'id': return t[1]
    if t[0] == 'u': s = sub(t[2], 0.5); return t[1] + (' ' if s[0] == t[1] else '') + s
    if t[0] == '?': return '%s ? %s : %s' % (sub(t[1], 10), sub(t[2], 11), sub(t[3], 11))
    return '%s %s %s' % (sub(t[2], PREC[t[1]]), t[1], sub(t[3], PREC[t[1]] - 0.6))
def typ(t):
    if t[0] == 'v': return t[2]
    if t[0] in ('k', 'id'): return 0
    if t[0] == 'u': return 0 if t[1] == '!' else typ(t[2])
    if t[0] == '?': return typ(t[2]) | typ(t[3])
    if t[1] in CMP or t[1] in ('&&', '||'): return 0
    if t[1] in ('<<', '>>'): return typ(t[2])
    return typ(t[2]) | typ(t[3])
N = [0]
BITS = 7
def ref(t, o, val='v'):
    """statements computing the tree's value (as ul) with C's intmax_t/uintmax_t rules; *bad: an evaluated operand has none"""
    N[0] += 1
    r = 'x%d' % N[0]
    if t[0] == 'v': o.append('ul %s = %s[%d];' % (r, val, t[1]))
    elif t[0] == 'k': o.append('ul %s = %d;' % (r, t[1]))
    elif t[0] == 'id': o.append('ul %s = 0;' % r)
    elif t[0] == 'u':
        a = ref(t[2], o, val)
        o.append('ul %s = %s;' % (r, {'+': a, '-': '0 - ' + a, '~': '~' + a, '!': '%s == 0' % a}[t[1]]))
    elif t[0] == '?':
        a = ref(t[1], o, val)
        o.append('ul %s; if(%s){' % (r, a)); b = ref(t[2], o, val); o.append('%s = %s; }else{' % (r, b)); c = ref(t[3], o, val); o.append('%s = %s; }' % (r, c))
    elif t[1] in ('&&', '||'):
        a = ref(t[2], o, val)
        o.append('ul %s = %s != 0; if(%s%s){' % (r, a, '' if t[1] == '&&' else '!', r)); b = ref(t[3], o, val); o.append('%s = %s != 0; }' % (r, b))
    else:
        a = ref(t[2], o, val); b = ref(t[3], o, val); u = typ(t[2]) | typ(t[3]); op = t[1]
        s = '' if u else '(long)'
        if op in ('<<', '>>'):
            o.append('if(%s >= 64) *bad = 2;' % b)
            s = '' if typ(t[2]) else '(long)'
            o.append('ul %s = %s >= 64 ? 0 : (ul)(%s%s %s %s);' % (r, b, s, a, op, b))
        elif op in '/%':
            if u: o.append('ul %s = 0; if(!%s) *bad |= 1; else %s = %s %s %s;' % (r, b, r, a, op, b))
            else: o.append('ul %s = 0; if(!%s) *bad |= 1; else { ul na_ = (long)%s < 0 ? 0 - %s : %s, nb_ = (long)%s < 0 ? 0 - %s : %s; %s = na_ %s nb_; if(((long)%s < 0)%s) %s = 0 - %s; }' % (r, b, a, a, a, b, b, b, r, op, a, ' != ((long)%s < 0)' % b if op == '/' else '', r, r))
        else: o.append('ul %s = (ul)(%s%s %s %s%s);' % (r, s, a, op, s, b))
    return r
def leaves(t): return [t] if t[0] in ('v', 'k', 'id') else [x for y in t[1:] if isinstance(y, tuple) for x in leaves(y)]

OUTP = r'''
static const char *body(void){ ul n; const char *p = asm_out(&n), *e = p + n; static char b[8192]; char *q = b; int bol = 1;   /* text without markers and blanks */
	for(; p < e; p++){ if(bol && *p == '#'){ while(p < e && *p != '\n') p++; continue; } if(*p == '\n'){ bol = 1; continue; } bol = 0; if(*p != ' ' && *p != '\t' && q < b + 8190) *q++ = *p; } *q = 0; return b; }
'''
def expr_tm(key, t, full=False, both=True, bound=''):
    """#if (expr) == symbolic result, then #if expr"""
    n = max([x[1] for x in leaves(t) if x[0] == 'v'] + [-1]) + 1
    o = []
    N[0] = 0
    r = ref(t, o)
    # overflow of signed arithmetic has no value in C: operands small enough where + - * or << may overflow
    def ops(t): return [t[1]] + [y for x in t[1:] if isinstance(x, tuple) for y in ops(x)] if t[0] in ('b', 'u') else [y for x in t[1:] if isinstance(x, tuple) for y in ops(x)]
    hard = [x for x in ops(t) if x in ('*', '/', '%')]
    lim = None if not hard or len(ops(t)) == 1 or (len(ops(t)) == 2 and t[0] == 'b' and t[1] in CMP) else BITS
    if not lim and len([x for x in ops(t) if x in '+-<<']) > 1: lim = 16
    pre = ['if(v[%d] >> %d) return 0;' % (x[1], lim or 63) for x in leaves(t) if x[0] == 'v' and (lim or not x[2])]
    d = ' '.join(pre) + 'int bad_ = 0, *bad = &bad_; %s if(bad_ & 2) return 0; return 1;' % ' '.join(o)
    src = '#if (%s) == %s\nY\n#else\nN\n#endif\n#if %s\nP\n#else\nQ\n#endif\n' % (text(t, full), '9990%02du' % n, text(t, full))
    chk = ('int bad_ = 0, *bad = &bad_; %s if(bad_){ if(!st) __cx_fail("evaluated division by zero accepted"); return; } if(st) __cx_fail("valid #if rejected");'
           'const char *b = body(); if(!((b[0] == \'Y\') == (%s == v[%d]) && (b[0] == \'Y\' || b[0] == \'N\'))) __cx_fail("wrong value"); if(b[1] != (%s ? \'P\' : \'Q\') || b[2]) __cx_fail("wrong group");' % (' '.join(o), r, n, r))
    tm = Tm(key, n + 1, [], src=src, chk=chk, pre='1')
    tm.prefn = d
    tm.bound = bound
    return tm

def small(t):
    """the leaves under signed + - * << or unary minus"""
    return any(x in repr(t) for x in ("'+'", "'-'", "'*'", "'<<'"))

def exprs(quick):
    out = []
    ops = list(PREC)
    for u in (0, 1):
        for w in (0, 1):
            for op in ops: out.append(('b%d%d.%s' % (u, w, op), ('b', op, lv(0, u), lv(1, w))))
    rnd = random.Random(4)
    for o1 in ops:
        for o2 in ops:
            us = [rnd.random() < 0.3 for _ in range(3)]
            a, b, c = [lv(i, int(us[i])) for i in range(3)]
            out.append(('l.%s.%s' % (o1, o2), ('b', o2, ('b', o1, a, b), c)))
            if PREC[o1] == PREC[o2] or not quick or rnd.random() < 0.5: out.append(('r.%s.%s' % (o1, o2), ('b', o1, a, ('b', o2, b, c))))
    for u in '+-~!':
        for w in (0, 1):
            out.append(('u%d.%s' % (w, u), ('u', u, lv(0, w))))
            for op in ops:
                if rnd.random() < (0.35 if quick else 1): out.append(('u%d.%s.%s' % (w, u, op), ('b', op, ('u', u, lv(0, w)), lv(1, 0))))
                if rnd.random() < (0.35 if quick else 1): out.append(('u%d.%s.r.%s' % (w, u, op), ('b', op, lv(1, 0), ('u', u, lv(0, w)))))
            out += [('uu%d.%s%s' % (w, u, x), ('u', u, ('u', x, lv(0, w)))) for x in '+-~!']
            out.append(('u%d.%s()' % (w, u), ('u', u, ('b', '+', lv(0, w), lv(1, 0)))))
    a, b, c, d, e = [lv(i, 0) for i in range(5)]
    q = lambda x, y, z: ('?', x, y, z)
    out += [('t.simple', q(a, b, c)), ('t.uns', q(a, lv(1, 1), c)), ('t.neg', ('b', '<', q(a, lv(1, 1), ('u', '-', ('k', 1))), ('k', 0))), ('t.right', q(a, b, q(c, d, e))), ('t.mid', q(a, q(b, c, d), e)), ('t.cond', q(q(a, b, c), d, e)),
            ('t.or', q(('b', '||', a, b), c, d)), ('t.add', q(a, b, ('b', '+', c, d))), ('t.lhs', ('b', '+', a, q(b, c, d))), ('t.div', q(a, ('b', '/', ('k', 10), a), b)), ('t.div2', q(a, b, ('b', '%', ('k', 10), c))),
            ('s.and', ('b', '&&', a, ('b', '/', ('k', 100), a))), ('s.or', ('b', '||', ('b', '==', a, ('k', 0)), ('b', '/', ('k', 100), a))), ('s.and2', ('b', '&&', a, ('b', '&&', b, ('b', '/', c, b)))), ('s.or3', ('b', '||', a, ('b', '||', b, ('b', '%', c, a)))),
            ('s.nest', ('b', '||', ('b', '&&', a, ('b', '/', b, c)), d)), ('id', ('b', '+', ('id', 'nosuch'), a)), ('id2', ('b', '||', a, ('id', 'nosuch')))]
    for k in range(20 if quick else 150):
        n = [0]
        def mk(d):
            if d == 0 or (n[0] > 0 and rnd.random() < 0.2) or n[0] >= 4: n[0] += 1; return lv(min(n[0] - 1, 4), int(rnd.random() < 0.25))
            z = rnd.random()
            if z < 0.12: return ('u', rnd.choice('~!-+'), mk(d - 1))
            if z < 0.22: return q(mk(d - 1), mk(d - 1), mk(d - 1))
            return ('b', rnd.choice([x for x in ops if x not in '/%*']), mk(d - 1), mk(d - 1))
        out.append(('rnd%d' % k, mk(3)))
    return out

def groups(quick):
    """seeded nestings of conditionals; reference: the marks C keeps"""
    rnd = random.Random(44)
    out = []
    JUNK = ['#if 1/0\n#endif', "don't", '"open', '#error no', '#include "nosuch.h"', '#elifx', '#if (\n#elif )\n#else\n#endif', '#if 1/0\n#elif 2/0\n#else\n#endif', '#define X1 9\n#undef X2', '#line 77', '#ifdef\n#endif' if 0 else '#ifdef X1\n#if 1 +\n#endif\n#endif', '#nonsense', '# 5 "z.c"', '#warning w']
    for k in range(24 if quick else 150):
        src, st, m, nv, defs = [], [], [0], [0], {}
        def mark(live, cond):
            m[0] += 1
            src.append('m%d;' % m[0]); st.append('if(%s) w("m%d;");' % (cond, m[0]))
        tmp = [0]
        def group(d, live):
            for _ in range(rnd.randint(1, 2)):
                z = rnd.random()
                if z < 0.3: mark(0, live)
                elif z < 0.42:
                    x = 'X%d' % rnd.randint(1, 2); u = rnd.random() < 0.4
                    src.append('#undef %s' % x if u else '#undef %s\n#define %s %d' % (x, x, rnd.randint(1, 9)))
                    st.append('if(%s) d%s = %d;' % (live, x, 0 if u else 1))
                elif d > 0: cond_(d - 1, live)
                else: mark(0, live)
        def condexpr(live):
            """(directive text after #if, C condition)"""
            z = rnd.random()
            if z < 0.3:
                x = 'X%d' % rnd.randint(1, 2); n = rnd.random() < 0.5
                return rnd.choice(['%sdefined %s', '%sdefined(%s)', '%s defined ( %s )']) % ('!' if n else '', x), '%sd%s' % ('!' if n else '', x)
            if z < 0.45 or nv[0] >= 5: c = rnd.choice('01'); return c, c
            nv[0] += 1; i = nv[0] - 1
            return '9990%02d' % i, 'v[%d] != 0' % i
        def cond_(d, live):
            tmp[0] += 1; t = 't%d' % tmp[0]; g = 'g%d' % tmp[0]
            st.append('int %s = 0, %s;' % (t, g))
            z = rnd.random()
            if z < 0.2:
                x = 'X%d' % rnd.randint(1, 2); n = rnd.random() < 0.5
                src.append('#if%sdef %s' % ('n' if n else '', x)); c = '%sd%s' % ('!' if n else '', x)
            else:
                tx, c = condexpr(live); src.append(rnd.choice(['#if %s', '# if %s', '#\tif %s // c', '#if /* x */ %s', '  #if %s']) % tx)
            st.append('%s = (%s) && (%s); %s |= (%s);' % (g, live, c, t, c))
            lk = c == '0' and 1
            if c == '0' and rnd.random() < 0.7: src.append(rnd.choice(JUNK))
            group(d, g)
            taken = c == '1'
            for _ in range(rnd.choice([0, 0, 1, 2])):
                if taken and rnd.random() < 0.6:
                    src.append('#elif ' + rnd.choice(['1/0', '(', 'x y z', ''] if 0 else ['1/0', '( 1', 'x y z']))
                    src.append(rnd.choice(JUNK)); st.append('%s = 0;' % g)
                    group(d, g)
                    continue
                tx, c = condexpr(live); src.append('#elif ' + tx)
                st.append('%s = (%s) && !%s && (%s); %s |= (%s);' % (g, live, t, c, t, c))
                if c == '0' and rnd.random() < 0.4: src.append(rnd.choice(JUNK))
                group(d, g)
                taken = taken or c == '1'
            if rnd.random() < 0.6:
                src.append(rnd.choice(['#else', '# else', '#else // x', '#else /* y */']))
                st.append('%s = (%s) && !%s;' % (g, live, t))
                if taken and rnd.random() < 0.5: src.append(rnd.choice(JUNK))
                group(d, g)
            src.append('#endif')
        for _ in range(3): cond_(3, '1'); mark(0, '1')
        chk = 'int dX1 = 0, dX2 = 0; const char *b; char want[4096]; char *wp = want; *wp = 0;\n#define w(s) (strcpy(wp, s), wp += sizeof s - 1)\n%s\n#undef w\nif(st) __cx_fail("valid conditionals rejected"); b = body(); if(strcmp(b, want)) __cx_fail("other groups kept than C keeps");' % '\n'.join(st)
        t = Tm('groups%d' % k, nv[0], [], src='\n'.join(src) + '\n', chk=chk, pre='1')
        t.prefn = ''
        out.append(t)
    return out

def errors():
    out = []
    for k, s in enumerate(['#if\n#endif', '#if 1 +\n#endif', '#if (1\n#endif', '#if 1)\n#endif', '#if 1 2\n#endif', '#else', '#endif', '#elif 1', '#if 1', '#if 1\n#else\n#else\n#endif', '#if 1\n#else\n#elif 1\n#endif', '#if 0\n#else\n#elif 0\n#endif',
                           '#if 9990 99 ? 1\n#endif'.replace(' 99', '00'), '#if 1 ? 2\n#endif', '#if "a"\n#endif', '#if defined\n#endif', '#if defined(\n#endif', '#if 1 == \n#endif', '#if 0\n#elif\n#endif', '#if 9990001\n#elif 1/0\n#endif'[:0] or '#if 0\n#elif 1/0\n#endif', '#if 4 % 0\n#endif',
                           '#ifdef\n#endif', '#ifndef\n#endif', '#if 1.0\n#endif', '#if 0\n#if 1\n#endif']):
        t = Tm('err%d' % k, 0, [], src=s + '\n', chk='if(!st) __cx_fail("accepted: constraint violation in a conditional");', pre='1')
        t.prefn = ''
        out.append(t)
    return out
FUNCS = ['expr_parse', 'parse_rhs', 'expr_eval', 'num_div', 'num_shift', 'num_lt', 'tok_next', 'if_eval', 'eval_expand_defined', 'if_push', 'if_pop', 'handle_if', 'handle_elif', 'handle_else', 'handle_endif', 'handle_somedef', 'parse_should_noop', 'parse_directive', 'preprocess']
def run(ctx):
    global BITS
    BITS = 5 if ctx.quick() else 14
    tms = [expr_tm(k, t) for k, t in exprs(ctx.quick())] + groups(ctx.quick()) + errors()
    only = os.environ.get('VERIF_ONLY')
    if only: tms = [t for t in tms if only in t.key]
    for t in tms: t.flags = ('-w',) if 0 else ()
    g = gen(tms, body=OUTP)
    p = Prog('cpp', 'h_cpp.c', gen=g, name='c04')
    sc = [Scene(t.key, p, [k] + list(t.flags), replay_check(ctx, p, t, k, tool='cpp'), jobs=1, cpu=20, qto=15000) for k, t in enumerate(tms)]
    ctx.cov['bounds'] = ['%d expression templates, every 64-bit value of every operand (unsuffixed ones below 2^63; operands below 2^%d where * / %% is nested with another operator, below 2^16 where two of + - << are; shift counts 0..63; INTMAX_MIN / -1 and signed overflow: wrapping accepted as the value)' % (len(exprs(ctx.quick())), BITS), 'group structures: nesting depth up to 4, up to 5 symbolic conditions each']
    px.run(ctx, sc, 600 if ctx.quick() else 2500, FUNCS, pool=8)
