"""C01: integer arithmetic, bitwise, shift and comparison operators."""
from harness import Unit, run_tv, corpus
LEVEL = 'translation_validation'
T = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64']
W = {t: int(t[1:]) for t in T}
RANK = lambda t: t if W[t] >= 32 else 's32'
def conv(a, b):
    a, b = RANK(a), RANK(b)
    if a == b: return a
    if W[a] == W[b]: return 'u%d' % W[a]
    return a if W[a] > W[b] else b
def lo(t): return '(-%d%s-1)' % (2 ** (W[t] - 1) - 1, 'L' if W[t] == 64 else '')
def divpre(a, b, rhs='b', lhs='a'):
    t = conv(a, b)
    p = '%s != 0' % rhs
    if t[0] == 's':
        p += ' && !((%s)%s == %s && (%s)%s == -1)' % (t, lhs, lo(t), t, rhs)
    return p
NAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr',
         '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}
ARITH = ['+', '-', '*', '&', '|', '^']
CMP = ['<', '<=', '>', '>=', '==', '!=']

def consts(t, op):
    w = W[t]
    if op in ('<<', '>>'):
        return ['0', '1', '7', str(max(w, 32) - 1)]
    c = ['0', '1', '-1', '2', '3', '7', '8', '10', '100', '127', '128', '-128', '255', '256', '-7', '-8', '65535', '65536', '1000003', '0x7fffffff', '0x80000000u', '0xffffffffu']
    if w == 64:
        c += ['0x7fffffffffffffff', '0x100000000', '0xffffffff00000000u', '-0x80000000L', '0x8000000000000000u']
    if op in ('/', '%'):
        c = [x for x in c if x not in ('0', '-1')]
    return c

def pair_unit(a, b):
    s = []
    n = 0
    for op in ARITH + CMP:
        s.append('TEST %s f_%s(%s a, %s b)\n{ return a %s b; }' % (conv(a, b) if op in ARITH else 'int', NAMES[op], a, b, op))
    for op in '/%':
        s.append('TEST %s f_%s(%s a, %s b) PRE(%s)\n{ return a %s b; }' % (conv(a, b), NAMES[op], a, b, divpre(a, b), op))
    for op in ('<<', '>>'):
        rt = RANK(a)
        pre = 'b >= 0 && b < %d' % W[rt]
        s.append('TEST %s f_%s(%s a, %s b) PRE(%s)\n{ return a %s b; }' % (rt, NAMES[op], a, b, pre, op))
    # compound assignment through memory: the result is narrowed back to the left type
    for op in ARITH:
        s.append('TEST %s c_%s(%s *p/*1*/, %s b)\n{ return *p %s= b; }' % (a, NAMES[op], a, b, op))
    for op in '/%':
        s.append('TEST %s c_%s(%s a, %s b) PRE(%s)\n{ a %s= b; return a; }' % (a, NAMES[op], a, b, divpre(a, b), op))
    for op in ('<<', '>>'):
        s.append('TEST %s c_%s(%s a, %s b) PRE(b >= 0 && b < %d)\n{ a %s= b; return a; }' % (a, NAMES[op], a, b, W[RANK(a)], op))
    # comparisons as branch conditions
    for op in CMP:
        s.append('TEST int b_%s(%s a, %s b)\n{ if(a %s b) return ev(1); return ev(2); }' % (NAMES[op], a, b, op))
    return Unit('p_%s_%s' % (a, b), '\n'.join(s) + '\n')

def const_unit(a, ops, nm):
    s = []
    for op in ops:
        for i, k in enumerate(consts(a, op)):
            rt = 'int' if op in CMP else 's64' if True else a
            pre = ''
            if op in '/%' :
                pre = ''
            s.append('TEST %s r_%s_%d(%s a) %s\n{ return a %s (%s); }' % (rt, NAMES[op], i, a, pre, op, k))
            if op not in ('<<', '>>') and op not in '/%':
                s.append('TEST %s l_%s_%d(%s a)\n{ return (%s) %s a; }' % (rt, NAMES[op], i, a, k, op))
            if op not in CMP and op not in '/%' and '<' not in op and '>' not in op:
                s.append('TEST %s ck_%s_%d(%s *a/*1*/)\n{ *a %s= (%s); return *a; }' % (a, NAMES[op], i, a, op, k))
            if op in CMP:
                s.append('TEST int b_%s_%d(%s a)\n{ if(a %s (%s)) return ev(1); return ev(2); }' % (NAMES[op], i, a, op, k))
        if op in '/%':
            for i, k in enumerate(['0', '1', '-1', '2', '100', '-7', '255', '65536', '0x7fffffff', '-0x7fffffff-1', '0x80000000u', '0xffffffffu', '0x100000000L', '0x8000000000000001u']):
                s.append('TEST s64 l_%s_%d(%s a) PRE(a != 0 && a != (%s)-1)\n{ return (%s) %s a; }' % (NAMES[op], i, a, a, k, op))
            for i, k in enumerate(['2', '4', '7', '16', '64', '-2', '256', '65536', '0x40000000', '0x80000000u', '1ul << 40']):
                s.append('TEST s64 p_%s_%d(%s a)\n{ return a %s (%s); }' % (NAMES[op], i, a, op, k))
                s.append('TEST %s cp_%s_%d(%s a)\n{ a %s= (%s); return a; }' % (a, NAMES[op], i, a, op, k))
        if op in ('<<', '>>'):
            for i, k in enumerate(['0', '1', '-1', '5', '0x80000000u', '-5L', '0x8000000000000001u', "(unsigned char)200", "(short)-300"]):
                w = 64 if i in (5, 6) else 32
                s.append('TEST s64 l_%s_%d(%s a) PRE(a >= 0 && a < %d)\n{ return (%s) %s a; }' % (NAMES[op], i, a, w, k, op))
            for i, k in enumerate(['0', '1', '3', str(max(W[a], 32) - 1)]):
                s.append('TEST %s cp_%s_%d(%s *a/*1*/)\n{ return *a %s= %s; }' % (a, NAMES[op], i, a, op, k))
        if op == '*':
            for i, k in enumerate(['4', '16', '64', '0x40000000', '0x80000000u', '1ul << 40', '-4', '6', '12']):
                s.append('TEST s64 p_%s_%d(%s a)\n{ return a %s (%s); }' % (NAMES[op], i, a, op, k))
                s.append('TEST s64 q_%s_%d(%s a)\n{ return (%s) %s a; }' % (NAMES[op], i, a, k, op))
    return Unit('k_%s_%s' % (a, nm), '\n'.join(s) + '\n')

def unary_unit(a):
    s = ['TEST %s neg(%s a)\n{ return -a; }' % (RANK(a), a), 'TEST %s inv(%s a)\n{ return ~a; }' % (RANK(a), a),
         'TEST int not_(%s a)\n{ return !a; }' % a, 'TEST int nn(%s a)\n{ return !!a; }' % a, 'TEST %s pl(%s a)\n{ return +a; }' % (RANK(a), a),
         'TEST int bt(%s a)\n{ if(a) return ev(1); return ev(2); }' % a, 'TEST int bnt(%s a)\n{ if(!a) return ev(1); return ev(2); }' % a,
         'TEST %s preinc(%s *a/*1*/)\n{ return ++*a; }' % (a, a), 'TEST %s predec(%s *a/*1*/)\n{ return --*a; }' % (a, a),
         'TEST %s postinc(%s *a/*1*/)\n{ return (*a)++; }' % (a, a), 'TEST %s postdec(%s *a/*1*/)\n{ return (*a)--; }' % (a, a),
         'TEST %s incl(%s a)\n{ a++; ++a; a--; return a; }' % (a, a),
         'TEST %s nest(%s a, %s b)\n{ return (a + b) * (a - b) ^ ~(a & b) | -(b); }' % (RANK(a), a, a),
         'TEST %s deep(%s a, %s b)\n{ return ((a + b) - (a ^ b)) + ((a | b) - (a & b)) + (((a + 1) - (b + 2)) ^ ((a - 3) + (b - 4))); }' % (RANK(a), a, a),
         'TEST %s tern(%s a, %s b)\n{ return a > b ? a : b; }' % (RANK(a), a, a),
         'TEST int cmpar(%s a, %s b, %s *p/*2*/)\n{ return (a < b) + (p[0] > p[1]) * 2 + (a == p[1]) * 4 - (b != p[0]); }' % (a, a, a),
         'TEST s64 cmpch(%s a, %s b, %s *p/*2*/)\n{ p[0] = (a < b) == (b > a); p[1] = !(a <= b); return !(a > 3) | (-(b >= a) & 4); }' % (a, a, a),
         'TEST %s alias(%s *p/*3*/)\n{ p[0] += p[1] - p[2]; p[1] ^= p[0]; p[2] |= p[1] & p[0]; return p[0]-- - ++p[2]; }' % (a, a),
         'TEST %s spill(%s a, %s b)\n{ return (a * 3 - b) + ev0() * (a ^ b) - (a + 5); }' % (a, a, a),
         'TEST %s assoc(%s a, %s b)\n{ return a - b - 3 - (a - (b - 5)); }' % (RANK(a), a, a)]
    return Unit('u_' + a, '\n'.join(s) + '\n')

def units(ctx):
    u = [pair_unit(a, b) for a in T for b in T]
    for a in T:
        u.append(const_unit(a, ARITH, 'a'))
        u.append(const_unit(a, CMP, 'c'))
        u.append(const_unit(a, ['/', '%', '<<', '>>'], 'd'))
        u.append(unary_unit(a))
    return u

def run(ctx):
    us = units(ctx)
    if not ctx.quick():
        us = us + [Unit(x.name, x.src, oracle='clang', tag='clang') for x in us] + [Unit(x.name, x.src, flags=['-fno-const-fold'], tag='nofold') for x in us]
    run_tv(ctx, us, per_unit_s=200)
