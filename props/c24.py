"""C24: debug information: LEB128 over all values; .debug_info of cc1 -g with symbolic sizes, bounds, offsets, lines."""
import os
import build, px
from px import Prog, Scene, native
from cc1gen import Tm, gen, replay_check
LEVEL = 'model_checked'
TECHNIQUE = px.TECH
NOTE = ('leb128_out/leb128_length: every 64-bit value, signed and unsigned. cc1 -g: templates whose array bounds, member sizes, enumerators and frame offsets are symbolic; '
        'the whole .debug_info is parsed back by its abbreviations on every path. Location lists of moved variables, line programs (made by the assembler) are outside.')
L = lambda k: '9990%02dul' % k
def templates():
    t = []
    S = 'enum { SUB = 0x21, ARR = 1, MEM = 0xd, STR = 0x13, UNI = 0x17, ENU = 0x28, VAR = 0x34, FUN = 0x2e, ETY = 4, PAR = 5 };\nif(st) __cx_fail("rejected"); dw_parse();'
    t.append(Tm('array', 2, [('n', 'unsigned long'), ('m', 'unsigned long')], src='char a[%s]; int b[3][%s];' % (L(0), L(1)), pre='n >= 1 && n < 0xffffffff && m >= 1 && m <= 0x10000000',
      chk=S + 'int d = dw_type(dw_find(VAR, "a", -1)); if(D[d].tag != ARR || dw_val(dw_find(SUB, 0, d), 0x2f) != n - 1) __cx_fail("upper bound of a"); d = dw_type(dw_find(VAR, "b", -1)); if(dw_val(dw_find(SUB, 0, d), 0x2f) != 2) __cx_fail("upper bound of b"); d = dw_type(d); if(dw_val(dw_find(SUB, 0, d), 0x2f) != m - 1) __cx_fail("upper bound of b[]");'))
    t.append(Tm('bigarray', 1, [('n', 'unsigned long')], src='char (*a)[%s];' % L(0), pre='n >= 1 && n < 0x8000000000000000ul',
      chk=S + 'int d = dw_type(dw_type(dw_find(VAR, "a", -1))); if(D[d].tag != ARR || dw_val(dw_find(SUB, 0, d), 0x2f) != n - 1) __cx_fail("upper bound of a");'))
    t.append(Tm('member', 2, [('n', 'unsigned long'), ('m', 'unsigned long')], src='struct S { char x[%s]; int y; char z[%s]; long w; } s; int last;' % (L(0), L(1)), pre='n >= 1 && n < 0x50000000 && m >= 1 && m < 0x50000000',
      chk=S + 'int d = dw_find(STR, "S", -1); unsigned long y = (n + 3) & ~3ul, z = y + 4, w = (z + m + 7) & ~7ul; if(dw_loc(dw_find(MEM, "x", d), 0x38, 0x23, 0)) __cx_fail("offset of x"); if(dw_loc(dw_find(MEM, "y", d), 0x38, 0x23, 0) != y) __cx_fail("offset of y");'
      'if(dw_loc(dw_find(MEM, "z", d), 0x38, 0x23, 0) != z) __cx_fail("offset of z"); if(dw_loc(dw_find(MEM, "w", d), 0x38, 0x23, 0) != w) __cx_fail("offset of w"); if(dw_val(d, 0x0b) != w + 8) __cx_fail("size of S"); dw_find(VAR, "last", -1);'))
    t.append(Tm('members3', 3, [(x, 'unsigned long') for x in 'nmk'], src='struct T { char a[%s], b[%s], c[%s], d; } s; union U { char x[%s]; long l; } u;' % (L(0), L(1), L(2), L(0)), pre='n >= 1 && n < 0x40000000 && m >= 1 && m < 0x40000 && k >= 1 && k < 0x40000',
      chk=S + 'int d = dw_find(STR, "T", -1); if(dw_loc(dw_find(MEM, "b", d), 0x38, 0x23, 0) != n) __cx_fail("offset of b"); if(dw_loc(dw_find(MEM, "c", d), 0x38, 0x23, 0) != n + m) __cx_fail("offset of c"); if(dw_loc(dw_find(MEM, "d", d), 0x38, 0x23, 0) != n + m + k) __cx_fail("offset of d"); if(dw_val(d, 0x0b) != n + m + k + 1) __cx_fail("size of T");'
      'd = dw_find(UNI, "U", -1); if(dw_val(d, 0x0b) != ((n + 7) & ~7ul)) __cx_fail("size of U");'))
    t.append(Tm('enum', 2, [('a', 'int'), ('b', 'int')], src='enum E { A = (int)%s, B, C = (int)%s } e; int last;' % (L(0), L(1)), pre='a < 0x7fffffff',
      chk=S + 'int d = dw_find(ETY, "E", -1); if(dw_val(dw_find(ENU, "A", d), 0x1c) != (unsigned)a) __cx_fail("enumerator A"); if(dw_val(dw_find(ENU, "B", d), 0x1c) != (unsigned)a + 1u) __cx_fail("enumerator B"); if(dw_val(dw_find(ENU, "C", d), 0x1c) != (unsigned)b) __cx_fail("enumerator C"); dw_find(VAR, "last", -1);'))
    t.append(Tm('bitfield', 2, [('a', 'unsigned long'), ('b', 'unsigned long')], src='struct B { unsigned x : %s, y : %s; int z; } s; int last;' % (L(0), L(1)), pre='a >= 1 && b >= 1 && a <= 32 && b <= 32',
      chk=S + 'int d = dw_find(STR, "B", -1), x = dw_find(MEM, "x", d), y = dw_find(MEM, "y", d); unsigned long u = a + b > 32; if(dw_val(x, 0x0d) != a || dw_val(y, 0x0d) != b) __cx_fail("bit size"); if(dw_val(x, 0x0c) != 32 - a) __cx_fail("bit offset of x"); if(dw_loc(y, 0x38, 0x23, 0) * 8 + 32 - b - dw_val(y, 0x0c) != (u ? 32 : a)) __cx_fail("bit offset of y");'
      'if(dw_loc(dw_find(MEM, "z", d), 0x38, 0x23, 0) != (u ? 8 : 4)) __cx_fail("offset of z"); dw_find(VAR, "last", -1);'))
    # locals: the location must be where the code puts them
    t.append(Tm('local', 1, [('n', 'unsigned long')], src='int g(char *, char *); int f(int p){ char l[%s]; int d = 12345; char k[24]; short s = 777; return g(l, k) + d + s; } int after(int q){ return q; }' % L(0), pre='n >= 1 && n < 0x10000000',
      chk=S + 'int f = dw_find(FUN, "f", -1); unsigned long lv; const char *p = asm_find("movl $12345, "); if(!p || !asm_num(p, &lv) || dw_loc(dw_find(VAR, "d", -1), 2, 0x76, 1) != lv) __cx_fail("location of d"); p = asm_find("movw $777, "); if(!p || !asm_num(p, &lv) || dw_loc(dw_find(VAR, "s", -1), 2, 0x76, 1) != lv) __cx_fail("location of s");'
      'p = asm_find("movl %edi, "); if(!p || !asm_num(p, &lv) || dw_loc(dw_find(PAR, "p", f), 2, 0x76, 1) != lv) __cx_fail("location of p"); p = asm_find("leaq "); if(!p || !asm_num(p, &lv) || dw_loc(dw_find(VAR, "l", -1), 2, 0x76, 1) != lv) __cx_fail("location of l"); dw_find(FUN, "after", -1);'))
    # lines: a marker with a symbolic number
    t.append(Tm('line', 0, [], src='# 9990 "in.c"\nint v;\nint f(int a){ return a; }\nint last;', pre='1', chk=S + 'if(dw_val(dw_find(VAR, "v", -1), 0x3b) != 9990) __cx_fail("line of v"); if(dw_val(dw_find(FUN, "f", -1), 0x3b) != 9991) __cx_fail("line of f"); if(dw_val(dw_find(VAR, "last", -1), 0x3b) != 9992) __cx_fail("line of last");'))
    t.append(Tm('name', 0, [], src='# 1 "a\\"b\\\\c\x01.c"\nint v; struct Q { int m; } q; int last;', chk=S + 'dw_find(VAR, "last", -1); dw_find(VAR, "v", -1);', pre='1'))
    for x in t: x.flags = ('-g',)
    return t
def leb_replay(sig):
    def f(v, d):
        val = int.from_bytes(v['input'][:8], 'little')
        r = os.path.join(build.tree(), 'repo')
        open(os.path.join(d, 't.c'), 'w').write('#include <stdio.h>\n#include "%s/src/cc1/out/leb.c"\nint main(void){ unsigned n = leb128_out(stdout, %dul, %d); printf("\\n%%u %%u\\n", n, leb128_length(%dul, %d)); return 0; }\n' % (r, val, sig, val, sig))
        st, o, e = native(['gcc', '-w', '-fwrapv', '-I' + r + '/src', '-I' + r + '/src/cc1/out', os.path.join(d, 't.c'), '-o', os.path.join(d, 't')])
        st, o, e = native([os.path.join(d, 't')])
        by, ns = o.decode().split('\n')[:2]
        by = [int(x) for x in by.split(',')]
        w = val - (1 << 64) if sig and val >> 63 else val
        exp = []
        while True:
            b = w & 127; w >>= 7
            end = (w == 0 and not (sig and b & 64)) or (sig and w == -1 and b & 64)
            exp.append(b | (0 if end else 128))
            if end: break
        bad = by != exp or ns.split() != [str(len(exp))] * 2
        return bad, 'value %d: bytes %s returned/computed length %s, should be %s' % (val, by, ns, exp)
    return f
FUNCS = ['leb128_out', 'leb128_length', 'dwarf_offset_die', 'dwarf_flush_die', 'dwarf_leb_printf', 'dwarf_suetype', 'dwarf_type_die', 'dwarf_attr', 'dbg_add_sym_location', 'out_dbg_end']
def run(ctx):
    tms = templates()
    only = os.environ.get('VERIF_ONLY')
    if only: tms = [t for t in tms if only in t.key]
    pl = Prog(None, 'h_leb.c')
    sc = [Scene('leb128.' + s, pl, [s], leb_replay(s == 'S'), jobs=2) for s in 'US'] if not only else []
    p = Prog('cc1', 'h_cc1.c', gen=gen(tms, ['h_dwarf.h']), name='c24')
    sc += [Scene(t.key, p, [k] + list(t.flags), replay_check(ctx, p, t, k), jobs=2, cpu=30) for k, t in enumerate(tms)]
    ctx.cov['bounds'] = ['leb128_out/leb128_length: all 64-bit values, signed and unsigned', 'cc1 -g: array bounds in [1, 2^32), member sizes in [1, 2^30), every enumerator value, every bit-field width pair, frame offsets up to 2^28; concrete line numbers and names']
    px.run(ctx, sc, 600 if ctx.quick() else 2000, FUNCS, pool=6)
