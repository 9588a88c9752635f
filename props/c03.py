"""C03: constant expressions over symbolic operand values, folded by the project's own cc1."""
import os, re, subprocess
import build, px
from px import Prog, Scene, native
from cc1gen import Tm, gen, subst, replay_value
LEVEL = 'model_checked'
TECHNIQUE = px.TECH
NOTE = ('Every operand value of each template is covered (z3 decides each branch of cc1 and each comparison with the value C defines); expressions are templates '
        '(all operand type pairs, all operators, two-operator nestings), not all expressions; the digit-to-number step is replaced by a symbolic value (C05 explores it).')
T = {'_Bool': (1, 0, 1), 'char': (8, 1, 2), 'signed char': (8, 1, 2), 'unsigned char': (8, 0, 2), 'short': (16, 1, 3), 'unsigned short': (16, 0, 3),
     'int': (32, 1, 4), 'unsigned': (32, 0, 4), 'long': (64, 1, 5), 'unsigned long': (64, 0, 5), 'long long': (64, 1, 6), 'unsigned long long': (64, 0, 6)}
def promo(t): return 'int' if T[t][2] < 4 else t
def conv(a, b):
    a, b = promo(a), promo(b)
    if a == b: return a
    if T[a][2] < T[b][2]: a, b = b, a
    if T[a][2] > T[b][2]:
        if T[a][1] == 0 or T[b][1] == 1 or T[a][0] > T[b][0]: return a
        return 'unsigned ' + a if a != 'int' else 'unsigned'
    return a if not T[a][1] else b
def wide(t): return 'long' if T[t][1] else 'unsigned long'
LIT = lambda k: '9990%02dul' % k

def ints(): return ['_Bool', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long']

def binary(ta, tb, heavy=True):
    R = conv(ta, tb); L = wide(R)
    ops = [('a', ta), ('b', tb)]
    A = '((%s)%s)' % (ta, LIT(0)); B = '((%s)%s)' % (tb, LIT(1))
    ca, cb = '(%s)(%s)a' % (L, R), '(%s)(%s)b' % (L, R)
    def it(op): return ('(%s)(%s %s %s)' % (R, A, op, B), '(long)(%s)(%s %s %s)' % (R, ca, op, cb))
    def cmp_(op): return ('%s %s %s' % (A, op, B), '(long)((%s)(%s)a %s (%s)(%s)b)' % (L, R, op, L, R))
    out = []
    # + - * wrap to the result type: emitted through an object of that type, see `wrapped`
    its = [it(o) for o in ('&', '|', '^')] + [cmp_(o) for o in ('<', '<=', '>', '>=', '==', '!=')]
    its += [('sizeof(%s + %s)' % (A, B), str(T[R][0] // 8))]
    out.append(Tm('%s.%s.cmp' % (ta, tb), 2, ops, its))
    out.append(Tm('%s.%s.arith' % (ta, tb), 2, ops, [it(o) for o in '+-'] , pre=no_ovf(ta, tb, R)))
    out.append(Tm('%s.%s.wrap' % (ta, tb), 2, ops, [('(%s)(%s %s %s)' % (R, A, o, B), it(o)[1]) for o in '+-']))
    big = lambda t: T[t][0] >= 32
    ms = [('(%s)(%s * %s)' % (R, A, B), it('*')[1])]
    for n, t in (('a', ta), ('b', tb)) if big(ta) and big(tb) else (('', ''),):
        out.append(Tm('%s.%s.mul%s' % (ta, tb, n), 2, ops, ms, pre=('%s <= 15' % n + (' && %s >= -16' % n if T[t][1] else '')) if n else ''))
    out.append(Tm('%s.%s.div' % (ta, tb), 2, ops, [it(o) for o in '/%'], pre='%s != 0%s' % (cb, ' && !(%s == -1)' % cb if T[R][1] else '')))
    if T[R][1]:
        pass
    return out

def no_ovf(ta, tb, R):
    if not T[R][1]: return ''
    def lim(n, t): return '%s >= -30000 && %s <= 30000' % (n, n) if T[t][1] and T[t][0] > 16 else '%s <= 30000' % n if T[t][0] > 16 else '1'
    return lim('a', ta) + ' && ' + lim('b', tb)

def templates(quick):
    tms = []
    ts = ints()
    for a in ts:
        for b in ts:
            tms += binary(a, b)
    # shifts: the result has the type of the promoted left operand
    for a in ts:
        P = promo(a); L = wide(P); n = T[P][0]
        for b in ('unsigned', 'signed char', 'long'):
            A = '((%s)%s)' % (a, LIT(0)); B = '((%s)%s)' % (b, LIT(1))
            its = [('(%s)(%s >> %s)' % (P, A, B), '(long)(%s)((%s)a >> b)' % (P, L))]
            pre = 'b >= 0 && b < %d' % n
            tms.append(Tm('%s.%s.shr' % (a, b), 2, [('a', a), ('b', b)], its, pre=pre))
            its = [('(%s)(%s << %s)' % (P, A, B), '(long)(%s)((%s)a << b)' % (P, L))]
            if T[P][1]: pre += ' && a >= 0 && (unsigned long)a < 1ul << (%d - b)' % (n - 1)
            tms.append(Tm('%s.%s.shl' % (a, b), 2, [('a', a), ('b', b)], its, pre=pre))
    for a in ts:
        P = promo(a); L = wide(P); A = '((%s)%s)' % (a, LIT(0))
        its = [('~' + A, '(long)(%s)~(%s)(%s)a' % (P, L, P)), ('!' + A, '(long)(a == 0)'), ('+' + A, '(long)(%s)a' % P), ('!!' + A, '(long)(a != 0)'),
               ('%s ? %s : 7' % (A, A), '(long)(a != 0 ? a : 7)'), ('%s && 1' % A, '(long)(a != 0)'), ('0 || %s' % A, '(long)(a != 0)'), ('%s || 1/0' % A, None)]
        its = [x for x in its if x[1]]
        tms.append(Tm(a + '.un', 1, [('a', a)], its))
        tms.append(Tm(a + '.neg', 1, [('a', a)], [('-' + A, '(long)(%s)(0 - (%s)(%s)a)' % (P, L, P))], pre='a != %s' % ('(-9223372036854775807l-1)' if n == 64 or T[P][0] == 64 else '(-2147483647-1)') if T[P][1] else ''))
        for b in ts + ['char', 'long long', 'unsigned long long']:
            tms.append(Tm('%s.%s.cast' % (a, b), 1, [('a', a)], [('(%s)%s' % (b, A), '(long)(%s)a' % b), ('(%s)(%s)%s' % (a, b, A), '(long)(%s)(%s)a' % (a, b)), ('(%s)~%s' % (b, A), '(long)(%s)(%s)~(%s)(%s)a' % (b, P, L, P))]))
    # nestings without overflow: bit operations and unsigned arithmetic, small signed operands
    for P, small in (('unsigned', 0), ('unsigned long', 0), ('int', 1), ('long', 1)):
        A, B, C = ['((%s)%s)' % (P, LIT(k)) for k in range(3)]
        L = wide(P)
        pre = ' && '.join('%s >= -100 && %s <= 100' % (n, n) for n in 'abc') if small else ''
        for o1 in ('-', '&') if quick else ('+', '-', '&', '|', '^'):
            its = []
            for o2 in ('+', '|', '<') if quick else ('+', '-', '&', '|', '^', '<', '=='):
                its.append(('(%s %s %s) %s %s' % (A, o1, B, o2, C), '(long)(%s)((%s)(%s)(a %s b) %s c)' % ('int' if o2 in ('<', '==') else P, L, P, o1, o2)))
                its.append(('%s %s (%s %s %s)' % (C, o2, A, o1, B), '(long)(%s)(c %s (%s)(a %s b))' % ('int' if o2 in ('<', '==') else P, o2, P, o1)))
                its.append(('%s %s %s %s %s' % (A, o1, B, o2, C), '(long)(a %s b %s c)' % (o1, o2)))
            tms.append(Tm('%s.nest%s' % (P, o1), 3, [(n, P) for n in 'abc'], its, pre=pre))
    for a, b in (('unsigned', 'int'), ('signed char', 'unsigned long'), ('int', 'long'), ('long', 'unsigned'), ('_Bool', 'unsigned char'))[:2 if quick else 9]:
        A, B, C = '((%s)%s)' % (a, LIT(0)), '((%s)%s)' % (b, LIT(1)), '((int)%s)' % LIT(2)
        R = conv(a, b)
        its = [('%s ? %s : %s' % (C, A, B), '(long)(c ? (%s)a : (%s)b)' % (R, R)), ('%s && %s' % (A, B), '(long)(a && b)'), ('%s || %s' % (A, B), '(long)(a || b)'), ('(%s || %s) && %s' % (A, B, C), '(long)((a || b) && c)'),
               ('%s || (%s && %s)' % (A, B, C), '(long)(a || (b && c))'), ('!%s == %s' % (A, C), '(long)((a == 0) == c)')]
        tms.append(Tm('%s.%s.logic' % (a, b), 3, [('a', a), ('b', b), ('c', 'int')], its))
    return tms

FUNCS = ['const_op_exec', 'const_op_num', 'const_op_num_int', 'const_expr_cast', 'convert_integral_to_integral_warn', 'integral_truncate', 'integral_str', 'fold_expr_val', 'fold_expr_op', 'static_val', 'const_fold_if']
def run(ctx):
    tms = templates(ctx.quick())
    only = os.environ.get('VERIF_ONLY')
    if only: tms = [t for t in tms if only in t.key]
    p = Prog('cc1', 'h_cc1.c', gen=gen(tms))
    sc = [Scene(t.key, p, [k] + list(t.flags), replay_value(t) if not t.chk else t.replay, jobs=1, cpu=20) for k, t in enumerate(tms)]
    ctx.cov['bounds'] = ['operands: every value of each operand type (%d templates); + - of signed types without a cast of the result: |operand| <= 30000 for 32/64-bit operands (no overflow); * of two types of 32 or more bits: one factor in [-16, 15], the other unrestricted; nestings of signed types: |operand| <= 100' % len(tms)]
    px.run(ctx, sc, 800 if ctx.quick() else 3000, FUNCS, pool=8)
