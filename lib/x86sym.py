"""Symbolic executor for the x86-64 subset that ucc, gcc -Os and clang -O0 emit.

Values are Python ints (concrete) or z3 bit-vectors.  Memory is byte-granular; every byte is
either an int, or (expr, index) meaning byte `index` of `expr`, so word loads of what was stored
as a word give the stored term back.  Branches on symbolic conditions fork; both sides are
asked of the solver.  Nothing is sampled.
"""
import re, subprocess, struct, os, math
import z3, math

M64 = (1 << 64) - 1

class Unsupported(Exception):
    pass

class BoundExceeded(Exception):
    pass

class SolverUnknown(Exception):
    pass

def mask(w):
    return (1 << w) - 1

def isint(v):
    return type(v) is int

def bv(v, w):
    return z3.BitVecVal(v, w) if isint(v) else v

_K = z3
OP_ZEXT = z3.Z3_OP_ZERO_EXT
OP_SEXT = z3.Z3_OP_SIGN_EXT
OP_EXTRACT = z3.Z3_OP_EXTRACT
OP_CONCAT = z3.Z3_OP_CONCAT

def norm(e):
    """z3 term -> int when it is a numeral"""
    if isint(e):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e

def simp(e):
    if isint(e):
        return e
    return norm(z3.simplify(e))

def extract(e, lo, w):
    """bits lo..lo+w-1"""
    if isint(e):
        return (e >> lo) & mask(w)
    n = e.size()
    if lo == 0 and w == n:
        return e
    k = e.decl().kind()
    if k == OP_ZEXT or k == OP_SEXT:
        b = e.arg(0)
        if lo + w <= b.size():
            return extract(b, lo, w)
        if k == OP_ZEXT and lo >= b.size():
            return 0
        if lo == 0:
            return zext(b, b.size(), w) if k == OP_ZEXT else sext(b, b.size(), w)
    elif k == OP_EXTRACT:
        l2 = e.params()[1]
        return extract(e.arg(0), lo + l2, w)
    elif k == z3.Z3_OP_BMUL and lo == 0 and e.num_args() == 2 and w in (8, 16, 32):
        return mul(w, extract(norm(e.arg(0)), 0, w), extract(norm(e.arg(1)), 0, w))
    elif k == OP_CONCAT:
        pos = n
        for i in range(e.num_args()):
            a = e.arg(i)
            pos -= a.size()
            if lo >= pos and lo + w <= pos + a.size():
                return extract(norm(a), lo - pos, w)
    return norm(z3.Extract(lo + w - 1, lo, e))

def zext(e, fw, tw):
    if isint(e):
        return e & mask(fw)
    if tw == fw:
        return e
    if e.decl().kind() == OP_ZEXT:
        b = e.arg(0)
        return z3.ZeroExt(tw - b.size(), b)
    return z3.ZeroExt(tw - fw, e)

def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v

def sext(e, fw, tw):
    if isint(e):
        return sgn(e, fw) & mask(tw)
    if tw == fw:
        return e
    if e.decl().kind() == OP_SEXT:
        b = e.arg(0)
        return z3.SignExt(tw - b.size(), b)
    return z3.SignExt(tw - fw, e)

def concat(hi, hw, lo, lw):
    if isint(hi) and isint(lo):
        return (hi << lw) | lo
    if isint(hi) and hi == 0:
        return zext(lo, lw, hw + lw)
    return z3.Concat(bv(hi, hw), bv(lo, lw))

def add(w, a, b):
    if isint(a) and isint(b):
        return (a + b) & mask(w)
    if isint(b) and b == 0: return a
    if isint(a) and a == 0: return b
    return bv(a, w) + bv(b, w)

def sub(w, a, b):
    if isint(a) and isint(b):
        return (a - b) & mask(w)
    if isint(b) and b == 0: return a
    return bv(a, w) - bv(b, w)

def band(w, a, b):
    if isint(a) and isint(b): return a & b
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return 0
        if b == mask(w): return a
    return bv(a, w) & bv(b, w)

def bor(w, a, b):
    if isint(a) and isint(b): return a | b
    if isint(a): a, b = b, a
    if isint(b) and b == 0: return a
    return bv(a, w) | bv(b, w)

def bxor(w, a, b):
    if isint(a) and isint(b): return a ^ b
    if isint(a): a, b = b, a
    if isint(b) and b == 0: return a
    return bv(a, w) ^ bv(b, w)

def bnot(w, a):
    return (~a) & mask(w) if isint(a) else ~a

def mul(w, a, b):
    if isint(a) and isint(b): return (a * b) & mask(w)
    if isint(a): a, b = b, a
    if isint(b):
        if b == 1: return a
        if b == 0: return 0
    x, y = bv(a, w), bv(b, w)
    # multiply at the narrowest width that holds the exact product, in a canonical order
    if not isint(a):
        sx, sy = sigbits(x), sigbits(y)
        if sx + sy < w:
            n = sx + sy
            return sext(mul(n, extract(a, 0, n), extract(b, 0, n)), n, w)
    if x.get_id() > y.get_id():
        x, y = y, x
    return x * y

def sigbits(x):
    """x is the sign extension of its low sigbits(x) bits"""
    if z3.is_bv_value(x):
        v = sgn(x.as_long(), x.size())
        return (v if v >= 0 else ~v).bit_length() + 1
    k = x.decl().kind()
    if k == OP_SEXT: return sigbits(x.arg(0))
    if k == OP_ZEXT: return min(x.arg(0).size() + 1, x.size())
    return x.size()

def shl(w, a, c):
    if isint(c):
        if c == 0: return a
        if c >= w: return 0
        if isint(a): return (a << c) & mask(w)
        return bv(a, w) << c
    return bv(a, w) << bv(c, w)

def lshr(w, a, c):
    if isint(c):
        if c == 0: return a
        if c >= w: return 0
        if isint(a): return a >> c
        return z3.LShR(a, c)
    return z3.LShR(bv(a, w), bv(c, w))

def ashr(w, a, c):
    if isint(c):
        if c == 0: return a
        if c >= w: c = w - 1
        if isint(a): return (sgn(a, w) >> c) & mask(w)
        return a >> c
    return bv(a, w) >> bv(c, w)

# booleans: Python bool or z3 BoolRef
def isb(b):
    return type(b) is bool

def bnotb(b):
    return (not b) if isb(b) else z3.Not(b)

def bandb(a, b):
    if isb(a): return b if a else False
    if isb(b): return a if b else False
    return z3.And(a, b)

def borb(a, b):
    if isb(a): return True if a else b
    if isb(b): return True if b else a
    return z3.Or(a, b)

def beqb(a, b):
    if isb(a) and isb(b): return a == b
    if isb(a): return b if a else bnotb(b)
    if isb(b): return a if b else bnotb(a)
    return a == b

def eq(w, a, b):
    if isint(a) and isint(b): return a == b
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return True
    return a == b

def ult(w, a, b):
    if isint(a) and isint(b): return a < b
    return z3.ULT(bv(a, w), bv(b, w))

def slt(w, a, b):
    if isint(a) and isint(b): return sgn(a, w) < sgn(b, w)
    return bv(a, w) < bv(b, w)

def ite(c, w, a, b):
    if isb(c): return a if c else b
    if isint(a) and isint(b) and a == b: return a
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return norm(a)
    return z3.If(c, a, b)

def b2bv(c, w=8):
    if isb(c): return int(c)
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))

# ---------------------------------------------------------------- floating point
F32, F64 = z3.Float32(), z3.Float64()
RNE, RTZ = z3.RNE(), z3.RTZ()
_uf = {}
def uf(name, *ws):
    k = (name,) + ws
    if k not in _uf:
        _uf[k] = z3.Function(name, *[z3.BitVecSort(w) for w in ws])
    return _uf[k]

def c_f(v, w):
    return struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', v))[0]

def f_c(f, w):
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', f))[0]
        except OverflowError:
            return 0x7f800000 if f > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', f))[0]

def fpb(v, w):
    return z3.fpBVToFP(bv(v, w), F32 if w == 32 else F64)

def fop(name, w, a, b):
    """add/sub/mul/div as uninterpreted functions of the operand bits; concrete when both are"""
    if isint(a) and isint(b):
        fa, fb = c_f(a, w), c_f(b, w)
        try:
            r = {'add': lambda: fa + fb, 'sub': lambda: fa - fb, 'mul': lambda: fa * fb,
                 'div': lambda: fa / fb}[name]()
            if r == r:
                return f_c(r, w)
        except ZeroDivisionError:
            pass
    S = 1 << (w - 1)
    # exact IEEE identities (also for NaN operands), so that both sides meet in one form
    if name == 'sub' and isint(a) and a == S:                     # -0.0 - b
        b = bv(b, w)
        return z3.If(z3.fpIsNaN(fpb(b, w)), b | (0x400000 if w == 32 else 1 << 51), b ^ z3.BitVecVal(S, w))
    if name == 'sub' and isint(b) and c_f(b, w) == c_f(b, w):
        name, b = 'add', b ^ S
    if name == 'div' and isint(b):
        f = abs(c_f(b, w))
        if 0 < f < float('inf') and math.frexp(f)[0] == 0.5 and 2.0 ** -100 < f < 2.0 ** 100:
            name, b = 'mul', f_c(1.0 / c_f(b, w), w)
    if name == 'mul':
        for x, y in ((a, b), (b, a)):
            if isint(y) and c_f(y, w) == 2.0:
                name, a, b = 'add', x, x
                break
    if FPX:
        return fexact(name, w, bv(a, w), bv(b, w))
    a, b = bv(a, w), bv(b, w)
    if name in ('add', 'mul') and a.get_id() > b.get_id():
        a, b = b, a
    return uf('f%s%d' % (name, w), w, w, w)(a, b)

FPX = False         # exact floating arithmetic rather than uninterpreted (slow: the second attempt)
def fexact(name, w, a, b):
    fa, fb = fpb(a, w), fpb(b, w)
    q = z3.BitVecVal(0x400000 if w == 32 else 1 << 51, w)
    r = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[name](RNE, fa, fb)
    dn = z3.BitVecVal(0xffc00000 if w == 32 else 0xfff8 << 48, w)
    if a.eq(b):
        return z3.If(z3.fpIsNaN(fa), a | q, z3.If(z3.fpIsNaN(r), dn, z3.fpToIEEEBV(r)))
    return z3.If(z3.fpIsNaN(fa), a | q, z3.If(z3.fpIsNaN(fb), b | q, z3.If(z3.fpIsNaN(r), dn, z3.fpToIEEEBV(r))))

def i2f(v, iw, fw):
    if isint(v):
        s = sgn(v, iw)
        if fw == 64:
            return f_c(float(s), 64)
        # exact single rounding from an integer
        r = z3.simplify(z3.fpToIEEEBV(z3.fpSignedToFP(RNE, z3.BitVecVal(v, iw), F32)))
        return norm(r)
    return z3.fpToIEEEBV(z3.fpSignedToFP(RNE, v, F32 if fw == 32 else F64))

def f2i_trunc(v, fw, iw):
    bad = 1 << (iw - 1)
    f = fpb(v, fw)
    S = F32 if fw == 32 else F64
    lo = z3.fpSignedToFP(RNE, z3.BitVecVal(bad, iw), S)          # -2^(iw-1), exact
    hi = z3.fpNeg(lo)
    if fw == 64 and iw == 32:
        inr = z3.And(z3.fpGT(f, z3.FPVal(-2147483649.0, S)), z3.fpLT(f, hi))
    else:
        inr = z3.And(z3.fpGEQ(f, lo), z3.fpLT(f, hi))
    r = z3.If(inr, z3.fpToSBV(RTZ, f, z3.BitVecSort(iw)), z3.BitVecVal(bad, iw))
    return simp(r) if isint(v) else r

def f2f(v, fw, tw):
    if isint(v):
        f = c_f(v, fw)
        if f == f:
            return f_c(f, tw)
    f = fpb(v, fw)
    b = bv(v, fw)
    if fw == 32:        # NaN: payload kept, quieted
        nan = z3.Concat(z3.Extract(31, 31, b), z3.BitVecVal(0xfff, 12), z3.Extract(21, 0, b), z3.BitVecVal(0, 29))
    else:
        nan = z3.Concat(z3.Extract(63, 63, b), z3.BitVecVal(0x1ff, 9), z3.Extract(50, 29, b))
    return z3.If(z3.fpIsNaN(f), nan, z3.fpToIEEEBV(z3.fpFPToFP(RNE, f, F32 if tw == 32 else F64)))

def fsqrt(v, w):
    return uf('fsqrt%d' % w, w, w)(bv(v, w))

# ---------------------------------------------------------------- program image
REG64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REGS = {}
for i, r in enumerate(REG64):
    REGS[r] = (i, 0, 64)
for i, r in enumerate(['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi']):
    REGS[r] = (i, 0, 32)
for i, r in enumerate(['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di']):
    REGS[r] = (i, 0, 16)
for i, r in enumerate(['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil']):
    REGS[r] = (i, 0, 8)
for i, r in enumerate(['ah', 'ch', 'dh', 'bh']):
    REGS[r] = (i, 8, 8)
for i in range(8, 16):
    REGS['r%dd' % i] = (i, 0, 32)
    REGS['r%dw' % i] = (i, 0, 16)
    REGS['r%db' % i] = (i, 0, 8)
RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI = range(8)
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}

class Op(object):
    __slots__ = ('k', 'r', 'lo', 'w', 'imm', 'seg', 'disp', 'base', 'idx', 'scale')

def split_ops(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '(': depth += 1
        if ch == ')': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

_memre = re.compile(r'^(?:%(\w\w):)?(-?(?:0x)?[0-9a-f]+)?(?:\(([^)]*)\))?$')

def parse_op(s):
    o = Op()
    o.imm = o.disp = 0; o.base = o.idx = o.seg = None; o.scale = 1; o.r = -1; o.lo = 0; o.w = 0
    star = s.startswith('*')
    if star:
        s = s[1:]
    if s.startswith('$'):
        o.k = 'i'; o.imm = int(s[1:], 0)
    elif s.startswith('%') and ':' not in s:
        n = s[1:]
        if n in REGS:
            o.k = 'r'; o.r, o.lo, o.w = REGS[n]
        elif n.startswith('xmm'):
            o.k = 'x'; o.r = int(n[3:])
        elif n == 'st' or n.startswith('st('):
            o.k = 's'; o.r = 0 if n == 'st' else int(n[3:-1])
        else:
            raise Unsupported('register ' + s)
    else:
        m = _memre.match(s)
        if not m:
            raise Unsupported('operand ' + s)
        o.k = 'm'
        o.seg = m.group(1)
        if m.group(2):
            o.disp = int(m.group(2), 16)
        if m.group(3) is not None:
            p = [x.strip() for x in m.group(3).split(',')]
            if p[0]:
                if p[0] == '%rip':
                    o.base = 'rip'
                else:
                    o.base = REGS[p[0][1:]][0]
                    if REGS[p[0][1:]][2] != 64:
                        raise Unsupported('32-bit address')
            if len(p) > 1 and p[1] and p[1] not in ('%riz', '%eiz'):
                o.idx = REGS[p[1][1:]][0]
            if len(p) > 2:
                o.scale = int(p[2])
    return o

class Image(object):
    """An ELF executable: disassembly, loadable bytes, symbols."""
    def __init__(self, path):
        self.path = path
        self.insn = {}
        self.sym = {}
        self.size = {}
        self.data = {}
        self.ranges = []   # (lo, hi, writable)
        self.names = {}
        self._load()

    def _load(self):
        raw = open(self.path, 'rb').read()
        assert raw[:4] == b'\x7fELF'
        shoff, = struct.unpack_from('<Q', raw, 0x28)
        shentsize, shnum, shstrndx = struct.unpack_from('<HHH', raw, 0x3a)
        secs = []
        for i in range(shnum):
            secs.append(struct.unpack_from('<IIQQQQIIQQ', raw, shoff + i * shentsize))
        for s in secs:
            name, typ, flags, addr, off, size, link, info, al, ent = s
            if flags & 2 and size:   # ALLOC
                self.ranges.append((addr, addr + size, bool(flags & 1)))
                if typ != 8:
                    b = raw[off:off + size]
                    if not flags & 4:
                        for j in range(size):
                            self.data[addr + j] = b[j]
                    else:
                        for j in range(size):
                            self.data[addr + j] = b[j]
                else:
                    for j in range(size):
                        self.data[addr + j] = 0
            if typ == 2:
                st = secs[link]
                for j in range(size // 24):
                    n, inf, oth, shn, val, sz = struct.unpack_from('<IBBHQQ', raw, off + j * 24)
                    e = raw.index(b'\0', st[4] + n)
                    nm = raw[st[4] + n:e].decode('latin1')
                    if nm and (inf & 15) not in (3, 4):
                        if nm not in self.sym or (inf >> 4) == 1:
                            self.sym[nm] = val
                            self.size[nm] = sz
                        self.names.setdefault(val, nm)
        out = subprocess.run(['objdump', '-d', '-M', 'suffix', '--no-show-raw-insn', '-w', self.path],
                             stdout=subprocess.PIPE, check=True).stdout.decode('latin1')
        order = []
        for line in out.split('\n'):
            if not line.startswith(' '):
                continue
            a, _, rest = line.partition(':')
            try:
                addr = int(a, 16)
            except ValueError:
                continue
            order.append((addr, rest.strip()))
        for i, (addr, txt) in enumerate(order):
            nxt = order[i + 1][0] if i + 1 < len(order) else addr + 1
            self.insn[addr] = [txt, nxt, None]

    def decode(self, addr):
        e = self.insn.get(addr)
        if e is None:
            return None
        if e[2] is None:
            e[2] = self._decode(e[0])
        return e

    def _decode(self, txt):
        txt = re.sub(r'\s*#.*$', '', txt)
        txt = re.sub(r'\s*<[^>]*>', '', txt)
        parts = txt.split(None, 1)
        pre = ''
        while parts and parts[0] in ('rep', 'repz', 'repnz', 'data16', 'cs', 'lock', 'bnd', 'notrack', 'rex.W', 'addr32', 'ds', 'es', 'rex'):
            if parts[0] in ('rep', 'repz', 'repnz'):
                pre = parts[0]
            parts = parts[1].split(None, 1) if len(parts) > 1 else []
        if not parts:
            return ('nop', [])
        mn = parts[0]
        ops = parts[1] if len(parts) > 1 else ''
        if mn.startswith('j') or mn.startswith('call'):
            if not ops.startswith('*'):
                return (mn, int(ops.split()[0], 16))
        if pre and mn[:4] in ('stos', 'movs', 'scas', 'cmps') and not mn.startswith('movsd') and not (mn.startswith('movsb') and '%es' not in ops):
            return (pre + mn, [])
        if pre and mn == 'retq':
            pre = ''
        return (mn, [parse_op(x) for x in split_ops(ops)])

# ---------------------------------------------------------------- state
class State(object):
    __slots__ = ('r', 'x', 'fl', 'mem', 'pc', 'steps', 'events', 'trap', 'st', 'nfresh', 'frames', 'lastio')
    def copy(self):
        s = State()
        s.r = list(self.r); s.x = list(self.x); s.fl = self.fl
        s.mem = dict(self.mem); s.pc = self.pc; s.steps = self.steps
        s.events = list(self.events); s.trap = self.trap; s.st = list(self.st)
        s.nfresh = self.nfresh; s.lastio = self.lastio
        s.frames = list(self.frames)
        return s

CCS = {'e': 'z', 'z': 'z', 'ne': '!z', 'nz': '!z', 'b': 'c', 'c': 'c', 'nae': 'c', 'ae': '!c', 'nc': '!c',
       'nb': '!c', 'a': 'a', 'nbe': 'a', 'be': '!a', 'na': '!a', 'l': 'l', 'nge': 'l', 'ge': '!l',
       'nl': '!l', 'g': 'g', 'nle': 'g', 'le': '!g', 'ng': '!g', 's': 's', 'ns': '!s', 'o': 'o',
       'no': '!o', 'p': 'p', 'pe': 'p', 'np': '!p', 'po': '!p'}

def sbit(w, v):
    if isint(v): return bool((v >> (w - 1)) & 1)
    return z3.Extract(w - 1, w - 1, v) == 1

def flag(fl, f):
    """value of one flag (or of the compound conditions a, l, g) for the lazily kept flags"""
    if fl is None:
        raise Unsupported('undefined flags read')
    k = fl[0]
    if k == 'sub':
        _, w, a, b, r = fl
        if f == 'z': return eq(w, a, b)
        if f == 'c': return ult(w, a, b)
        if f == 'a': return ult(w, b, a)
        if f == 'l': return slt(w, a, b)
        if f == 'g': return slt(w, b, a)
        if f == 's': return sbit(w, r)
        if f == 'o':
            sa, sb, sr = sbit(w, a), sbit(w, b), sbit(w, r)
            return bandb(bnotb(beqb(sa, sb)), bnotb(beqb(sa, sr)))
    elif k == 'add':
        _, w, a, b, r = fl
        if f == 'z': return eq(w, r, 0)
        if f == 'c': return ult(w, r, a)
        if f == 's': return sbit(w, r)
        if f == 'o':
            sa, sb, sr = sbit(w, a), sbit(w, b), sbit(w, r)
            return bandb(beqb(sa, sb), bnotb(beqb(sa, sr)))
        if f == 'a': return bandb(bnotb(flag(fl, 'c')), bnotb(flag(fl, 'z')))
        if f == 'l': return bnotb(beqb(flag(fl, 's'), flag(fl, 'o')))
        if f == 'g': return bandb(bnotb(flag(fl, 'z')), bnotb(flag(fl, 'l')))
    elif k == 'adc':   # _, w, a, b, cin(bool), r, is_sbb
        _, w, a, b, cin, r, sb = fl
        ea = zext(a, w, w + 1) if not isint(a) else a
        eb = zext(b, w, w + 1) if not isint(b) else b
        c = b2bv(cin, w + 1)
        if f == 'c':
            t = sub(w + 1, sub(w + 1, ea, eb), c) if sb else add(w + 1, add(w + 1, ea, eb), c)
            return eq(1, extract(t, w, 1), 1)
        if f == 'z': return eq(w, r, 0)
        if f == 's': return sbit(w, r)
        if f == 'o':
            sa, sb_, sr = sbit(w, a), sbit(w, b), sbit(w, r)
            same = beqb(sa, sb_)
            return bandb(bnotb(same) if sb else same, bnotb(beqb(sa, sr)))
        if f == 'a': return bandb(bnotb(flag(fl, 'c')), bnotb(flag(fl, 'z')))
        if f == 'l': return bnotb(beqb(flag(fl, 's'), flag(fl, 'o')))
        if f == 'g': return bandb(bnotb(flag(fl, 'z')), bnotb(flag(fl, 'l')))
    elif k == 'log':
        _, w, r = fl
        if f == 'z': return eq(w, r, 0)
        if f in ('c', 'o'): return False
        if f == 'a': return bnotb(eq(w, r, 0))
        if f in ('s', 'l'): return sbit(w, r)
        if f == 'g': return bandb(bnotb(sbit(w, r)), bnotb(eq(w, r, 0)))
        if f == 'p':
            b = extract(r, 0, 8)
            x = b
            t = 0
            for i in range(8):
                t = bxor(1, t, extract(b, i, 1))
            return eq(1, t, 0)
    elif k == 'incdec':
        _, w, a, r, dec, old = fl
        if f == 'c': return flag(old, 'c')
        if f == 'z': return eq(w, r, 0)
        if f == 's': return sbit(w, r)
        if f == 'o': return eq(w, r, (1 << (w - 1)) - 1 if dec else 1 << (w - 1))
        if f == 'l': return bnotb(beqb(flag(fl, 's'), flag(fl, 'o')))
        if f == 'g': return bandb(bnotb(flag(fl, 'z')), bnotb(flag(fl, 'l')))
        if f == 'a': return bandb(bnotb(flag(fl, 'c')), bnotb(flag(fl, 'z')))
    elif k == 'mul':
        _, of = fl
        if f in ('o', 'c'): return of
    elif k == 'bit':
        if f == 'c': return fl[1]
    elif k == 'sh':    # _, w, r, c
        _, w, r, c = fl
        if f == 'z': return eq(w, r, 0)
        if f == 's': return sbit(w, r)
        if f == 'c' and c is not None: return c
    elif k == 'fc':
        _, w, a, b = fl
        if isint(a) and isint(b):
            x, y = c_f(a, w), c_f(b, w)
            un = x != x or y != y
            lt, e_ = x < y, x == y
        else:
            x, y = fpb(a, w), fpb(b, w)
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            lt, e_ = z3.fpLT(x, y), z3.fpEQ(x, y)
        if f == 'p': return un
        if f == 'z': return borb(un, e_)
        if f == 'c': return borb(un, lt)
        if f == 'a': return bandb(bnotb(un), bandb(bnotb(lt), bnotb(e_)))
        if f in ('s', 'o'): return False
        if f == 'l': return False
        if f == 'g': return bnotb(flag(fl, 'z'))
    raise Unsupported('flag %s after %s' % (f, k))

def cond(fl, cc):
    c = CCS[cc]
    if c[0] == '!':
        return bnotb(flag(fl, c[1:]))
    return flag(fl, c)

RETADDR = 0x7f00dead0000
STACK_TOP = 0x7fff0000          # rsp at entry, 16-aligned + 8
STACK_LO = STACK_TOP - 0x40000
STACK_HI = STACK_TOP + 0x1000
HOOK_BASE = 0x7e000000

class Exec(object):
    """Executes one function of one Image.  `solver` is shared with the caller, who has already
    asserted the precondition."""
    def __init__(self, img, solver, tag, hooks=None, max_steps=20000, max_paths=400, stats=None,
                 regions=None, timeout=10000):
        self.img = img
        self.solver = solver
        self.tag = tag
        self.hooks = hooks or {}
        self.max_steps = max_steps
        self.addr_lim = 80
        self.max_paths = max_paths
        self.stats = stats if stats is not None else {}
        self.regions = list(img.ranges) + [(STACK_LO, STACK_HI, True)] + list(regions or [])
        self.paths = 0
        self.issues = []
        self.funcs = set()
        self.io = None

    # ---- solver
    def feasible(self, c):
        if isb(c):
            return c
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown:
            # keep going on both sides: sound (extra paths only add comparisons under pc)
            self.stats['unknown'] = self.stats.get('unknown', 0) + 1
            return True
        return r == z3.sat

    def fresh(self, st, name, w):
        st.nfresh += 1
        return z3.BitVec('%s!%s!%d' % (self.tag, name, st.nfresh), w)

    # ---- memory
    def rd_byte(self, st, a):
        m = st.mem.get(a)
        if m is not None:
            return m
        d = self.img.data.get(a)
        if d is not None:
            return d
        if STACK_LO <= a < STACK_HI:
            b = z3.BitVec('%s!stk!%x' % (self.tag, a), 8)
            m = (b, 0)
            st.mem[a] = m
            return m
        raise Fault('read of unmapped address %#x' % a)

    def load_c(self, st, a, n):
        bs = [self.rd_byte(st, (a + i) & M64) for i in range(n)]
        if all(type(b) is int for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        b0 = bs[0]
        # whole-term fast path
        if type(b0) is tuple:
            e = b0[0]
            run = 1
            while run < n and type(bs[run]) is tuple and bs[run][0] is e and bs[run][1] == b0[1] + run:
                run += 1
            if run == n:
                return extract(e, 8 * b0[1], 8 * n)
        v, w = None, 0
        i = 0
        while i < n:
            b = bs[i]
            if type(b) is int:
                x, xw = b, 8
                i += 1
            else:
                j = i + 1
                while j < n and type(bs[j]) is tuple and bs[j][0] is b[0] and bs[j][1] == b[1] + (j - i):
                    j += 1
                x, xw = extract(b[0], 8 * b[1], 8 * (j - i)), 8 * (j - i)
                i = j
            v = x if v is None else concat(x, xw, v, w)
            w += xw
        if not isint(v):
            v = simp(v)
        return v

    def store_c(self, st, a, n, v):
        if isint(v):
            for i in range(n):
                st.mem[(a + i) & M64] = (v >> (8 * i)) & 255
        else:
            for i in range(n):
                st.mem[(a + i) & M64] = (v, i)

    def check_addr(self, st, a, n, write):
        if STACK_LO <= a and a + n <= STACK_HI:
            if write and a >= STACK_TOP + 8 and False:
                pass
            rsp = st.r[RSP]
            if isint(rsp) and a < rsp - 128:
                raise Fault('%s below the red zone: %#x, rsp %#x' % ('store' if write else 'load', a, rsp))
            return
        for lo, hi, wr in self.regions:
            if lo <= a and a + n <= hi:
                if write and not wr:
                    raise Fault('store to read-only %#x' % a)
                return
        raise Fault('%s outside any object: %#x' % ('store' if write else 'load', a))

    def addrs(self, st, a, lim=None):
        lim = lim or self.addr_lim
        """all feasible values of a symbolic address"""
        a = simp(a)
        if isint(a):
            return [(True, a)]
        out = []
        self.solver.push()
        try:
            while True:
                self.stats['queries'] = self.stats.get('queries', 0) + 1
                r = self.solver.check()
                if r == z3.unknown:
                    raise SolverUnknown('address')
                if r == z3.unsat:
                    break
                m = self.solver.model()
                v = m.eval(a, model_completion=True).as_long()
                out.append((a == v, v))
                if len(out) > lim:
                    # a wild address: report it when it can leave every object
                    bad = z3.And([z3.Or(z3.ULT(a, lo), z3.UGE(a, hi)) for lo, hi, _ in self.regions])
                    if self.solver.check(bad) == z3.sat:
                        raise Fault('access through a wild address', bad)
                    raise BoundExceeded('more than %d targets of a symbolic address' % lim)
                self.solver.add(a != v)
        finally:
            self.solver.pop()
        return out

    def load(self, st, a, n):
        if isint(a):
            self.check_addr(st, a, n, False)
            if self.io and self.io[0] <= a < self.io[1]:
                return self.io_load(st, a, n)
            return self.load_c(st, a, n)
        al = self.addrs(st, a)
        v = None
        for c, x in al:
            try:
                self.check_addr(st, x, n, False)
            except Fault as f:
                raise Fault(str(f), c)
            y = self.load_c(st, x, n)
            v = y if v is None else ite(c, 8 * n, y, v)
        return v

    def io_load(self, st, a, n):
        """a volatile read: an event; a read-back right after a store of the same object is free"""
        l = st.lastio
        if l and l[0] == a and l[1] == n and l[3] == len(st.events):
            return l[2]
        k = len(st.events)
        st.events.append(('load', [(a, 64), (n, 64)]))
        return z3.BitVec('evret!%d!%d' % (k, 8 * n), 8 * n)

    def store(self, st, a, n, v):
        if isint(a):
            self.check_addr(st, a, n, True)
            if self.io and self.io[0] <= a < self.io[1]:
                st.events.append(('store', [(a, 64), (n, 64), (v, 8 * n)]))
                st.lastio = (a, n, v, len(st.events))
                return
            return self.store_c(st, a, n, v)
        al = self.addrs(st, a)
        for c, x in al:
            try:
                self.check_addr(st, x, n, True)
            except Fault as f:
                raise Fault(str(f), c)
            if isb(c):
                self.store_c(st, x, n, v)
            else:
                self.store_c(st, x, n, ite(c, 8 * n, v, self.load_c(st, x, n)))

    # ---- operands
    def ea(self, st, o, nxt):
        a = o.disp & M64
        if o.base == 'rip':
            a = (a + nxt) & M64
        elif o.base is not None:
            a = add(64, st.r[o.base], a)
        if o.idx is not None:
            a = add(64, a, mul(64, st.r[o.idx], o.scale))
        if o.seg == 'fs':
            a = add(64, a, FSBASE)
        if not isint(a):
            a = simp(a)
        return a

    def rreg(self, st, r, lo, w):
        return extract(st.r[r], lo, w)

    def wreg(self, st, r, lo, w, v):
        if w == 64:
            st.r[r] = v
        elif w == 32:
            st.r[r] = zext(v, 32, 64)
        else:
            old = st.r[r]
            if isint(old) and isint(v):
                st.r[r] = (old & ~(mask(w) << lo)) | (v << lo)
            elif lo == 0:
                st.r[r] = concat(extract(old, w, 64 - w), 64 - w, v, w)
            else:
                t = concat(v, w, extract(old, 0, lo), lo)
                st.r[r] = concat(extract(old, lo + w, 64 - w - lo), 64 - w - lo, t, w + lo)

    def get(self, st, o, w, nxt):
        if o.k == 'r':
            return self.rreg(st, o.r, o.lo, w)
        if o.k == 'i':
            return o.imm & mask(w)
        if o.k == 'm':
            return self.load(st, self.ea(st, o, nxt), w // 8)
        if o.k == 'x':
            return extract(st.x[o.r], 0, w)
        raise Unsupported('operand kind')

    def put(self, st, o, w, v, nxt):
        if o.k == 'r':
            self.wreg(st, o.r, o.lo, w, v)
        elif o.k == 'm':
            self.store(st, self.ea(st, o, nxt), w // 8, v)
        else:
            raise Unsupported('destination')

    def width(self, mn, ops):
        return SUF[mn[-1]]

    # ---- running
    def run(self, st, leaf):
        """depth-first over all feasible paths from st; leaf(st) at each end"""
        while True:
            if st.pc == RETADDR:
                self.paths += 1
                if self.paths > self.max_paths:
                    raise BoundExceeded('paths')
                self.stats['paths'] = self.stats.get('paths', 0) + 1
                return leaf(st)
            if st.pc in self.hooks:
                try:
                    self.hooks[st.pc](self, st)
                except Fault as f:
                    st.trap = 'fault: ' + str(f)
                if st.trap:
                    self.paths += 1
                    return leaf(st)
                continue
            st.steps += 1
            if st.steps > self.max_steps:
                raise BoundExceeded('steps')
            if not isint(st.r[RSP]) and self.needs_sp(st):
                # a stack pointer that depends on the inputs (VLAs): one path per value
                tg = self.addrs(st, st.r[RSP])
                for c, a in tg:
                    s2 = st.copy() if len(tg) > 1 else st
                    s2.r[RSP] = a
                    if len(tg) > 1:
                        self.solver.push()
                        if not isb(c): self.solver.add(c)
                        self.run(s2, leaf)
                        self.solver.pop()
                if len(tg) > 1: return
            try:
                nx = self.step(st)
            except Fault as f:
                if f.cond is not None:
                    # the faulting address is one of several: that part of the path faults
                    self.solver.push(); self.solver.add(f.cond)
                    s2 = st.copy(); s2.trap = 'fault: ' + str(f)
                    self.paths += 1
                    leaf(s2)
                    self.solver.pop()
                    return
                st.trap = 'fault: ' + str(f)
                nx = None
            if st.trap:
                self.paths += 1
                self.stats['paths'] = self.stats.get('paths', 0) + 1
                return leaf(st)
            if nx is None:
                continue
            if nx[0] == 'br':
                _, c, t, f = nx
                if isb(c):
                    st.pc = t if c else f
                    continue
                ft = self.feasible(c)
                ff = self.feasible(z3.Not(c)) if ft else True
                if ft and ff:
                    s2 = st.copy()
                    s2.pc = t
                    self.solver.push(); self.solver.add(c)
                    self.run(s2, leaf)
                    self.solver.pop()
                    self.solver.push(); self.solver.add(z3.Not(c))
                    st.pc = f
                    self.run(st, leaf)
                    self.solver.pop()
                    return
                st.pc = t if ft else f
            elif nx[0] == 'ind':
                tg = self.addrs(st, nx[1], 40)
                if len(tg) == 1:
                    st.pc = tg[0][1]
                    continue
                for c, a in tg:
                    s2 = st.copy(); s2.pc = a
                    self.solver.push(); self.solver.add(c)
                    self.run(s2, leaf)
                    self.solver.pop()
                return
            elif nx[0] == 'split':
                # (cond, fn) alternatives
                for c, fn in nx[1]:
                    if self.feasible(c):
                        s2 = st.copy()
                        self.solver.push()
                        if not isb(c): self.solver.add(c)
                        fn(s2)
                        if s2.trap:
                            self.paths += 1
                            leaf(s2)
                        else:
                            self.run(s2, leaf)
                        self.solver.pop()
                return

    def needs_sp(self, st):
        e = self.img.decode(st.pc)
        if e is None: return False
        mn, ops = e[2]
        if mn[:4] in ('call', 'push') or mn[:3] in ('pop', 'ret'): return True
        if not isinstance(ops, (list, tuple)): return False
        for i, o in enumerate(ops):
            if getattr(o, 'k', None) == 'm' and (o.base == RSP): return True
        return False

    def push64(self, st, v):
        st.r[RSP] = sub(64, st.r[RSP], 8)
        self.store(st, st.r[RSP], 8, v)

    def pop64(self, st):
        v = self.load(st, st.r[RSP], 8)
        st.r[RSP] = add(64, st.r[RSP], 8)
        return v

    def step(self, st):
        e = self.img.decode(st.pc)
        if e is None:
            st.trap = 'fault: jump to %#x' % st.pc
            return None
        (mn, ops), nxt = e[2], e[1]
        pc0 = st.pc
        st.pc = nxt
        f = DISPATCH.get(mn)
        if f is None:
            f = resolve(mn)
            if f is None:
                raise Unsupported('%s [%s]' % (mn, e[0]))
            DISPATCH[mn] = f
        return f(self, st, mn, ops, nxt)

class Fault(Exception):
    def __init__(self, msg, cond=None):
        Exception.__init__(self, msg)
        self.cond = cond if not isb(cond) else None

FSBASE = 0x7d000000
DISPATCH = {}

def alu(name):
    def f(self, st, mn, ops, nxt):
        w = SUF[mn[-1]]
        s, d = ops
        a = self.get(st, d, w, nxt)
        b = self.get(st, s, w, nxt)
        if name in ('add',):
            r = add(w, a, b); st.fl = ('add', w, a, b, r)
        elif name == 'sub':
            if s.k == 'r' and d.k == 'r' and s.r == d.r and s.lo == d.lo:
                r = 0
            else:
                r = sub(w, a, b)
            st.fl = ('sub', w, a, b, r)
        elif name == 'cmp':
            r = sub(w, a, b); st.fl = ('sub', w, a, b, r); return
        elif name == 'and':
            r = band(w, a, b); st.fl = ('log', w, r)
        elif name == 'or':
            r = bor(w, a, b); st.fl = ('log', w, r)
        elif name == 'xor':
            r = 0 if (s.k == 'r' and d.k == 'r' and s.r == d.r and s.lo == d.lo) else bxor(w, a, b)
            st.fl = ('log', w, r)
        elif name == 'test':
            r = a if (s.k == 'r' and d.k == 'r' and s.r == d.r and s.lo == d.lo) else band(w, a, b)
            st.fl = ('log', w, r); return
        elif name in ('adc', 'sbb'):
            cin = flag(st.fl, 'c')
            c = b2bv(cin, w)
            if name == 'sbb':
                r = sub(w, sub(w, 0 if (s.k == 'r' and d.k == 'r' and s.r == d.r) else sub(w, a, b), 0), c) \
                    if (s.k == 'r' and d.k == 'r' and s.r == d.r) else sub(w, sub(w, a, b), c)
            else:
                r = add(w, add(w, a, b), c)
            st.fl = ('adc', w, a, b, cin, r, name == 'sbb')
        self.put(st, d, w, r, nxt)
    return f

def i_mov(self, st, mn, ops, nxt):
    s, d = ops
    if s.k == 'x' or d.k == 'x':      # movq/movd with xmm
        w = 64 if mn.startswith('movq') else 32
        if d.k == 'x':
            v = self.get(st, s, w, nxt)
            st.x[d.r] = zext(v, w, 128)
        else:
            self.put(st, d, w, extract(st.x[s.r], 0, w), nxt)
        return
    w = SUF[mn[-1]]
    self.put(st, d, w, self.get(st, s, w, nxt), nxt)

def i_movx(self, st, mn, ops, nxt):
    sw, dw = SUF[mn[-2]], SUF[mn[-1]]
    v = self.get(st, ops[0], sw, nxt)
    v = sext(v, sw, dw) if mn[3] == 's' else zext(v, sw, dw)
    self.put(st, ops[1], dw, v, nxt)

def i_lea(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    a = self.ea(st, ops[0], nxt)
    self.put(st, ops[1], w, extract(a, 0, w), nxt)

def i_push(self, st, mn, ops, nxt):
    self.push64(st, self.get(st, ops[0], 64, nxt))

def i_pop(self, st, mn, ops, nxt):
    v = self.pop64(st)
    self.put(st, ops[0], 64, v, nxt)

def i_leave(self, st, mn, ops, nxt):
    st.r[RSP] = st.r[RBP]
    st.r[RBP] = self.pop64(st)

def i_ret(self, st, mn, ops, nxt):
    a = self.pop64(st)
    if not isint(a):
        a = simp(a)
    if not isint(a):
        raise Fault('return to a symbolic address')
    if a != RETADDR and a not in self.img.insn:
        raise Fault('return to %#x' % a)
    if st.frames:
        ret, rsp = st.frames.pop()
        if ret != a or not isint(st.r[RSP]) or st.r[RSP] != rsp:
            raise Fault('return does not match the call')
    st.pc = a

def i_call(self, st, mn, ops, nxt):
    if isint(ops):
        t = ops
    else:
        o = ops[0]
        t = self.get(st, o, 64, nxt)
        if not isint(t): t = simp(t)
    rsp = st.r[RSP]
    if isint(rsp) and rsp & 15 and self.tag != 'g':   # the oracle may know that a local callee does not care
        raise Fault('stack misaligned at call: rsp %#x' % rsp)
    self.push64(st, nxt)
    st.frames.append((nxt, rsp))
    if isint(t):
        st.pc = t
        return
    return ('ind', t)

def i_jmp(self, st, mn, ops, nxt):
    if isint(ops):
        st.pc = ops
        return
    t = self.get(st, ops[0], 64, nxt)
    if not isint(t): t = simp(t)
    if isint(t):
        st.pc = t
        return
    return ('ind', t)

def i_jcc(self, st, mn, ops, nxt):
    c = cond(st.fl, mn[1:])
    return ('br', c, ops, nxt)

def i_setcc(self, st, mn, ops, nxt):
    c = cond(st.fl, mn[3:])
    self.put(st, ops[0], 8, b2bv(c), nxt)

def i_cmov(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    c = cond(st.fl, mn[4:-1])
    a = self.get(st, ops[0], w, nxt)
    b = self.get(st, ops[1], w, nxt)
    self.put(st, ops[1], w, ite(c, w, a, b), nxt)

def i_incdec(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    a = self.get(st, ops[0], w, nxt)
    dec = mn.startswith('dec')
    r = sub(w, a, 1) if dec else add(w, a, 1)
    st.fl = ('incdec', w, a, r, dec, st.fl)
    self.put(st, ops[0], w, r, nxt)

def i_neg(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    a = self.get(st, ops[0], w, nxt)
    r = sub(w, 0, a)
    st.fl = ('sub', w, 0, a, r)
    self.put(st, ops[0], w, r, nxt)

def i_not(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    self.put(st, ops[0], w, bnot(w, self.get(st, ops[0], w, nxt)), nxt)

def smulof(w, a, b, r):
    if isint(a) and isint(b):
        return sgn(a, w) * sgn(b, w) != sgn(r, w)
    x, y = bv(a, w), bv(b, w)
    if sigbits(x) + sigbits(y) <= w:
        return False
    p = mul(2 * w, sext(a, w, 2 * w), sext(b, w, 2 * w))
    return bnotb(eq(2 * w, p, sext(extract(p, 0, w), w, 2 * w)))

def umulof(w, a, b):
    if isint(a) and isint(b):
        return a * b > mask(w)
    x, y = bv(a, w), bv(b, w)
    if x.get_id() > y.get_id():
        x, y = y, x
    p = z3.ZeroExt(w, x) * z3.ZeroExt(w, y)
    return z3.Extract(2 * w - 1, w, p) != 0

def i_imul(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    if len(ops) == 1:
        return i_mul1(self, st, mn, ops, nxt, True)
    if len(ops) == 3:
        a = self.get(st, ops[0], w, nxt); b = self.get(st, ops[1], w, nxt); d = ops[2]
    else:
        a = self.get(st, ops[0], w, nxt); b = self.get(st, ops[1], w, nxt); d = ops[1]
    r = mul(w, a, b)
    st.fl = ('mul', LazyB(lambda: smulof(w, a, b, r)))
    st.fl = ('mulz', w, a, b, r)
    self.put(st, d, w, r, nxt)

class LazyB(object):
    def __init__(self, f): self.f = f

def i_mul1(self, st, mn, ops, nxt, signed):
    w = SUF[mn[-1]]
    a = extract(st.r[RAX], 0, w)
    b = self.get(st, ops[0], w, nxt)
    if isint(a) and isint(b):
        p = (sgn(a, w) * sgn(b, w) if signed else a * b) & mask(2 * w)
    else:
        x, y = bv(a, w), bv(b, w)
        ex = z3.SignExt if signed else z3.ZeroExt
        p = ex(w, x) * ex(w, y)
    lo, hi = mul(w, a, b), extract(p, w, w)
    if w == 8:
        self.wreg(st, RAX, 0, 16, concat(hi, 8, lo, 8))
    else:
        self.wreg(st, RAX, 0, w, lo)
        self.wreg(st, RDX, 0, w, hi)
    st.fl = ('mulz', w, a, b, lo) if signed else ('umulz', w, a, b)

_flag0 = flag
def flag(fl, f):
    if fl is not None and fl[0] == 'mulz':
        if f in ('o', 'c'):
            return smulof(*fl[1:])
        raise Unsupported('flag %s after imul' % f)
    if fl is not None and fl[0] == 'umulz':
        if f in ('o', 'c'):
            return umulof(*fl[1:])
        raise Unsupported('flag %s after mul' % f)
    return _flag0(fl, f)

def i_mul(self, st, mn, ops, nxt):
    return i_mul1(self, st, mn, ops, nxt, False)

def lead0(x):
    """number of leading bits known, syntactically, to be zero"""
    if z3.is_bv_value(x):
        return x.size() - x.as_long().bit_length()
    k = x.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return x.size() - x.arg(0).size() + lead0(x.arg(0))
    if k == z3.Z3_OP_CONCAT:
        n = 0
        for i in range(x.num_args()):
            c = x.arg(i)
            l = lead0(c)
            n += l
            if l < c.size(): break
        return n
    return 0

def i_div(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    signed = mn.startswith('idiv')
    b = self.get(st, ops[0], w, nxt)
    if w == 8:
        ax = extract(st.r[RAX], 0, 16)
        lo, hi = extract(ax, 0, 8), extract(ax, 8, 8)
    else:
        lo, hi = extract(st.r[RAX], 0, w), extract(st.r[RDX], 0, w)
    # is hi:lo the sign/zero extension of lo?  (then the quotient is the w-bit one)
    want = ashr(w, lo, w - 1) if signed else 0
    hs, ws = simp(hi), simp(want)
    ext = (isint(hs) and isint(ws) and hs == ws) or (not isint(hs) and not isint(ws) and hs.eq(ws))
    small = None
    if not ext:
        # value known to be narrow: find the widest known extension, else full width division
        full = simp(concat(hi, w, lo, w))
        if isint(full):
            small = (2 * w, full)
        else:
            c = (bv(hi, w) == bv(want, w))
            if not self.feasible(z3.Not(c)):
                ext = True
            else:
                small = (2 * w, full)
    def do(s):
        if ext:
            dw, a, d = w, lo, b
        else:
            dw, a, d = 2 * w, small[1], (sext(b, w, 2 * w) if signed else zext(b, w, 2 * w))
        if isint(a) and isint(d):
            if signed:
                x, y = sgn(a, dw), sgn(d, dw)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                r = x - q * y
            else:
                q, r = a // d, a % d
            q &= mask(dw); r &= mask(dw)
        else:
            x, y = z3.simplify(bv(a, dw)), z3.simplify(bv(d, dw))
            z = min(lead0(x), lead0(y))
            k = next((j for j in (8, 16, 32) if j >= dw - z), dw)
            if (not signed or z > 0) and k < dw:
                # both operands are small non-negative numbers
                x, y = z3.simplify(z3.Extract(k - 1, 0, x)), z3.simplify(z3.Extract(k - 1, 0, y))
                q, r = z3.ZeroExt(dw - k, z3.UDiv(x, y)), z3.ZeroExt(dw - k, z3.URem(x, y))
            elif signed and z == 0:
                q, r = x / y, z3.SRem(x, y)
            else:
                q, r = z3.UDiv(x, y), z3.URem(x, y)
        if not ext:
            q, r = extract(q, 0, w), extract(r, 0, w)
        if w == 8:
            self.wreg(s, RAX, 0, 16, concat(r, 8, q, 8))
        else:
            self.wreg(s, RAX, 0, w, q)
            self.wreg(s, RDX, 0, w, r)
        s.fl = None
    bad = eq(w, b, 0)
    if signed:
        if ext:
            bad = borb(bad, bandb(eq(w, lo, 1 << (w - 1)), eq(w, b, mask(w))))
    if not ext:
        # overflow of the quotient
        if isint(small[1]) and isint(b):
            if b:
                x, y = (sgn(small[1], 2 * w), sgn(b, w)) if signed else (small[1], b)
                q = abs(x) // abs(y)
                if signed and (x < 0) != (y < 0): q = -q
                if signed and not -(1 << (w - 1)) <= q < (1 << (w - 1)): bad = True
                if not signed and q > mask(w): bad = True
        else:
            x = bv(small[1], 2 * w)
            y = bv(sext(b, w, 2 * w) if signed else zext(b, w, 2 * w), 2 * w)
            if signed:
                q = x / y
                ovf = q != z3.SignExt(w, z3.Extract(w - 1, 0, q))
            else:
                ovf = z3.Extract(2 * w - 1, w, z3.UDiv(x, y)) != 0
            bad = borb(bad, ovf)
    if isb(bad):
        if bad:
            st.trap = 'trap: divide error'
            return
        return do(st)
    def trap(s):
        s.trap = 'trap: divide error'
    return ('split', [(bad, trap), (z3.Not(bad), do)])

def i_shift(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    k = mn[:3]
    if len(ops) == 1:
        c, d = 1, ops[0]
    else:
        c, d = self.get(st, ops[0], 8, nxt), ops[1]
    a = self.get(st, d, w, nxt)
    m = 63 if w == 64 else 31
    c = band(8, c, m)
    if isint(c):
        if c == 0:
            self.put(st, d, w, a, nxt)
            return
        cw = c
    else:
        cw = zext(c, 8, w) if w > 8 else c
    f = {'shl': shl, 'sal': shl, 'shr': lshr, 'sar': ashr}[k]
    r = f(w, a, cw)
    cf = None
    if isint(c) and c <= w:
        cf = eq(1, extract(a, w - c, 1), 1) if k in ('shl', 'sal') else eq(1, extract(a, c - 1, 1), 1)
    st.fl = ('sh', w, r, cf) if isint(c) else None
    self.put(st, d, w, r, nxt)

def i_rot(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    if len(ops) == 1:
        c, d = 1, ops[0]
    else:
        c, d = self.get(st, ops[0], 8, nxt), ops[1]
    a = self.get(st, d, w, nxt)
    if isint(c):
        c = (c & (63 if w == 64 else 31)) % w
        if mn.startswith('ror'): c = (w - c) % w
        r = bor(w, shl(w, a, c), lshr(w, a, w - c)) if c else a
    else:
        cw = zext(c, 8, w) if w > 8 else c
        r = z3.RotateLeft(bv(a, w), bv(cw, w)) if mn.startswith('rol') else z3.RotateRight(bv(a, w), bv(cw, w))
    st.fl = None
    self.put(st, d, w, r, nxt)

def i_shd(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    c = self.get(st, ops[0], 8, nxt)
    if not isint(c): raise Unsupported('shld by a variable')
    s = self.get(st, ops[1], w, nxt); d = self.get(st, ops[2], w, nxt)
    c &= 63 if w == 64 else 31
    if c:
        r = bor(w, shl(w, d, c), lshr(w, s, w - c)) if mn.startswith('shld') else bor(w, lshr(w, d, c), shl(w, s, w - c))
        self.put(st, ops[2], w, r, nxt)
    st.fl = None

def i_cltd(self, st, mn, ops, nxt):
    self.wreg(st, RDX, 0, 32, ashr(32, extract(st.r[RAX], 0, 32), 31))
def i_cqto(self, st, mn, ops, nxt):
    st.r[RDX] = ashr(64, st.r[RAX], 63)
def i_cwtd(self, st, mn, ops, nxt):
    self.wreg(st, RDX, 0, 16, ashr(16, extract(st.r[RAX], 0, 16), 15))
def i_cltq(self, st, mn, ops, nxt):
    st.r[RAX] = sext(extract(st.r[RAX], 0, 32), 32, 64)
def i_cwtl(self, st, mn, ops, nxt):
    self.wreg(st, RAX, 0, 32, sext(extract(st.r[RAX], 0, 16), 16, 32))
def i_cbtw(self, st, mn, ops, nxt):
    self.wreg(st, RAX, 0, 16, sext(extract(st.r[RAX], 0, 8), 8, 16))

def i_nop(self, st, mn, ops, nxt):
    pass
def i_ud2(self, st, mn, ops, nxt):
    st.trap = 'trap: ud2'
def i_int3(self, st, mn, ops, nxt):
    st.trap = 'trap: int3'
def i_hlt(self, st, mn, ops, nxt):
    st.trap = 'trap: hlt'

def i_xchg(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    a, b = self.get(st, ops[0], w, nxt), self.get(st, ops[1], w, nxt)
    self.put(st, ops[0], w, b, nxt); self.put(st, ops[1], w, a, nxt)

def i_bswap(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    a = self.get(st, ops[0], w, nxt)
    v = 0; vw = 0
    for i in range(w // 8):
        b = extract(a, 8 * i, 8)
        v = b if vw == 0 else concat(v, vw, b, 8)
        vw += 8
    self.put(st, ops[0], w, v, nxt)

def i_bt(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    if ops[1].k == 'm' and ops[0].k != 'i': raise Unsupported('bt mem,reg')
    c = self.get(st, ops[0], w, nxt)
    a = self.get(st, ops[1], w, nxt)
    c = band(w, c, w - 1)
    bit = extract(lshr(w, a, c), 0, 1)
    k = mn[:-1]
    if k != 'bt':
        m = shl(w, 1, c)
        r = bor(w, a, m) if k == 'bts' else band(w, a, bnot(w, m)) if k == 'btr' else bxor(w, a, m)
        self.put(st, ops[1], w, r, nxt)
    st.fl = ('bit', eq(1, bit, 1))

def i_stos(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    if mn.startswith('rep'):
        n = st.r[RCX]
        if not isint(n): n = simp(n)
        if not isint(n): raise Unsupported('rep stos with a symbolic count')
        st.r[RCX] = 0
    else:
        n = 1
    for i in range(n):
        self.store(st, st.r[RDI], w // 8, extract(st.r[RAX], 0, w))
        st.r[RDI] = add(64, st.r[RDI], w // 8)

def i_movs(self, st, mn, ops, nxt):
    w = SUF[mn[-1]]
    n = 1
    if mn.startswith('rep'):
        n = st.r[RCX]
        if not isint(n): n = simp(n)
        if not isint(n): raise Unsupported('rep movs with a symbolic count')
        st.r[RCX] = 0
    for i in range(n):
        self.store(st, st.r[RDI], w // 8, self.load(st, st.r[RSI], w // 8))
        st.r[RDI] = add(64, st.r[RDI], w // 8)
        st.r[RSI] = add(64, st.r[RSI], w // 8)

# ---- SSE
def i_movs_sd(self, st, mn, ops, nxt):
    w = 64 if mn.startswith('movsd') else 32
    s, d = ops
    if s.k == 'x' and d.k == 'x':
        st.x[d.r] = concat(extract(st.x[d.r], w, 128 - w), 128 - w, extract(st.x[s.r], 0, w), w)
    elif d.k == 'x':
        st.x[d.r] = zext(self.get(st, s, w, nxt), w, 128)
    else:
        self.put(st, d, w, extract(st.x[s.r], 0, w), nxt)

def i_mova(self, st, mn, ops, nxt):
    s, d = ops
    al = mn[:4] in ('mova', 'movd') and mn not in ('movdqu',)
    if s.k == 'm':
        a = self.ea(st, s, nxt)
        if al and isint(a) and a & 15: raise Fault('misaligned %s' % mn)
        v = self.load(st, a, 16)
    else:
        v = st.x[s.r]
    if d.k == 'm':
        a = self.ea(st, d, nxt)
        if al and isint(a) and a & 15: raise Fault('misaligned %s' % mn)
        self.store(st, a, 16, v)
    else:
        st.x[d.r] = v

def i_movhl(self, st, mn, ops, nxt):
    s, d = ops
    hi = mn.startswith('movh')
    if mn in ('movhlps', 'movlhps'):
        if mn == 'movhlps':
            st.x[d.r] = concat(extract(st.x[d.r], 64, 64), 64, extract(st.x[s.r], 64, 64), 64)
        else:
            st.x[d.r] = concat(extract(st.x[s.r], 0, 64), 64, extract(st.x[d.r], 0, 64), 64)
        return
    if d.k == 'x':
        v = self.get(st, s, 64, nxt)
        o = st.x[d.r]
        st.x[d.r] = concat(v, 64, extract(o, 0, 64), 64) if hi else concat(extract(o, 64, 64), 64, v, 64)
    else:
        self.put(st, d, 64, extract(st.x[s.r], 64 if hi else 0, 64), nxt)

def sse_arith(name):
    def f(self, st, mn, ops, nxt):
        w = 64 if mn.endswith('sd') else 32
        b = self.get(st, ops[0], w, nxt) if ops[0].k == 'm' else extract(st.x[ops[0].r], 0, w)
        d = st.x[ops[1].r]
        a = extract(d, 0, w)
        if name == 'sqrt':
            r = fsqrt(b, w)
        elif name in ('max', 'min'):
            c = fpb(a, w), fpb(b, w)
            t = z3.fpGT(c[0], c[1]) if name == 'max' else z3.fpLT(c[0], c[1])
            r = ite(t, w, a, b)
        else:
            r = fop(name, w, a, b)
        st.x[ops[1].r] = concat(extract(d, w, 128 - w), 128 - w, r, w)
    return f

def i_ucomi(self, st, mn, ops, nxt):
    w = 64 if mn.endswith('sd') else 32
    b = self.get(st, ops[0], w, nxt) if ops[0].k == 'm' else extract(st.x[ops[0].r], 0, w)
    a = extract(st.x[ops[1].r], 0, w)
    st.fl = ('fc', w, a, b)

def i_cvtsi2(self, st, mn, ops, nxt):
    fw = 64 if 'sd' in mn[6:8] else 32
    iw = SUF[mn[-1]]
    v = self.get(st, ops[0], iw, nxt)
    d = ops[1]
    st.x[d.r] = concat(extract(st.x[d.r], fw, 128 - fw), 128 - fw, i2f(v, iw, fw), fw)

def i_cvtt2si(self, st, mn, ops, nxt):
    fw = 64 if mn.startswith('cvttsd') else 32
    d = ops[1]
    iw = d.w
    v = self.get(st, ops[0], fw, nxt) if ops[0].k == 'm' else extract(st.x[ops[0].r], 0, fw)
    self.put(st, d, iw, f2i_trunc(v, fw, iw), nxt)

def i_cvtff(self, st, mn, ops, nxt):
    fw, tw = (32, 64) if mn == 'cvtss2sd' else (64, 32)
    v = self.get(st, ops[0], fw, nxt) if ops[0].k == 'm' else extract(st.x[ops[0].r], 0, fw)
    d = ops[1]
    st.x[d.r] = concat(extract(st.x[d.r], tw, 128 - tw), 128 - tw, f2f(v, fw, tw), tw)

def i_sselog(self, st, mn, ops, nxt):
    s, d = ops
    v = self.load(st, self.ea(st, s, nxt), 16) if s.k == 'm' else st.x[s.r]
    o = st.x[d.r]
    if mn in ('xorps', 'xorpd', 'pxor'):
        st.x[d.r] = 0 if s.k == 'x' and s.r == d.r else bxor(128, o, v)
    elif mn in ('andps', 'andpd', 'pand'):
        st.x[d.r] = band(128, o, v)
    elif mn in ('orps', 'orpd', 'por'):
        st.x[d.r] = bor(128, o, v)
    elif mn in ('andnps', 'andnpd', 'pandn'):
        st.x[d.r] = band(128, bnot(128, o), v)
    elif mn in ('unpcklps', 'punpckldq'):
        a = [extract(o, 0, 32), extract(v, 0, 32), extract(o, 32, 32), extract(v, 32, 32)]
        st.x[d.r] = concat(concat(a[3], 32, a[2], 32), 64, concat(a[1], 32, a[0], 32), 64)
    elif mn in ('unpcklpd', 'punpcklqdq'):
        st.x[d.r] = concat(extract(v, 0, 64), 64, extract(o, 0, 64), 64)
    elif mn in ('unpckhpd', 'punpckhqdq'):
        st.x[d.r] = concat(extract(v, 64, 64), 64, extract(o, 64, 64), 64)
    elif mn in ('addpd', 'subpd', 'mulpd'):
        n = mn[:3]
        st.x[d.r] = concat(fop(n, 64, extract(o, 64, 64), extract(v, 64, 64)), 64,
                           fop(n, 64, extract(o, 0, 64), extract(v, 0, 64)), 64)
    elif mn == 'cvtps2pd':
        st.x[d.r] = concat(f2f(extract(v, 32, 32), 32, 64), 64, f2f(extract(v, 0, 32), 32, 64), 64)
    elif mn == 'cvtpd2ps':
        st.x[d.r] = zext(concat(f2f(extract(v, 64, 64), 64, 32), 32, f2f(extract(v, 0, 64), 64, 32), 32), 64, 128)
    elif mn in ('paddd', 'paddq', 'psubd', 'psubq', 'paddw', 'paddb'):
        ew = {'d': 32, 'q': 64, 'w': 16, 'b': 8}[mn[-1]]
        g = add if mn.startswith('padd') else sub
        r = None
        for i in range(128 // ew):
            t = g(ew, extract(o, i * ew, ew), extract(v, i * ew, ew))
            r = t if r is None else concat(t, ew, r, i * ew)
        st.x[d.r] = r

def i_psh(self, st, mn, ops, nxt):
    if ops[0].k != 'i': raise Unsupported(mn)
    c = ops[0].imm & 255
    d = ops[-1]
    if mn in ('psrldq', 'pslldq'):
        st.x[d.r] = lshr(128, st.x[d.r], 8 * c) if mn == 'psrldq' else shl(128, st.x[d.r], 8 * c)
        return
    ew = {'d': 32, 'q': 64, 'w': 16}[mn[-1]]
    g = {'psrl': lshr, 'psll': shl, 'psra': ashr}[mn[:4]]
    r = None
    for i in range(128 // ew):
        t = g(ew, extract(st.x[d.r], i * ew, ew), c)
        r = t if r is None else concat(t, ew, r, i * ew)
    st.x[d.r] = r

def i_shuf(self, st, mn, ops, nxt):
    imm = ops[0].imm & 255
    s, d = ops[1], ops[2]
    v = self.load(st, self.ea(st, s, nxt), 16) if s.k == 'm' else st.x[s.r]
    o = st.x[d.r]
    if mn == 'pshufd':
        a = [extract(v, 32 * ((imm >> (2 * i)) & 3), 32) for i in range(4)]
    elif mn == 'shufps':
        a = [extract(o if i < 2 else v, 32 * ((imm >> (2 * i)) & 3), 32) for i in range(4)]
    else:  # shufpd
        lo = extract(o, 64 * (imm & 1), 64); hi = extract(v, 64 * ((imm >> 1) & 1), 64)
        st.x[d.r] = concat(hi, 64, lo, 64)
        return
    st.x[d.r] = concat(concat(a[3], 32, a[2], 32), 64, concat(a[1], 32, a[0], 32), 64)

# ---- a little x87 (gcc -Os converts u64 with it)
def i_fild(self, st, mn, ops, nxt):
    w = {'filds': 16, 'fildl': 32, 'fildll': 64, 'fildq': 64}[mn]
    st.st.append(('i', sext(self.get(st, ops[0], w, nxt), w, 80) if True else None))

def resolve(mn):
    m = re.match(r'^(add|sub|cmp|and|or|xor|test|adc|sbb)([bwlq])$', mn)
    if m: return alu(m.group(1))
    if re.match(r'^mov[bwlq]$', mn) or mn in ('movabsq', 'movd'): return i_mov
    if re.match(r'^mov[sz](b[wlq]|w[lq]|lq)$', mn): return i_movx
    if mn in ('leaq', 'leal', 'leaw'): return i_lea
    if mn == 'pushq': return i_push
    if mn == 'popq': return i_pop
    if mn == 'leaveq': return i_leave
    if mn == 'retq': return i_ret
    if mn == 'callq': return i_call
    if mn in ('jmp', 'jmpq'): return i_jmp
    if mn[0] == 'j' and mn[1:] in CCS: return i_jcc
    if mn.startswith('set') and mn[3:] in CCS: return i_setcc
    if mn.startswith('cmov') and mn[4:-1] in CCS: return i_cmov
    if re.match(r'^(inc|dec)[bwlq]$', mn): return i_incdec
    if re.match(r'^neg[bwlq]$', mn): return i_neg
    if re.match(r'^not[bwlq]$', mn): return i_not
    if re.match(r'^imul[bwlq]$', mn): return i_imul
    if re.match(r'^mul[bwlq]$', mn): return i_mul
    if re.match(r'^i?div[bwlq]$', mn): return i_div
    if re.match(r'^(shl|sal|shr|sar)[bwlq]$', mn): return i_shift
    if re.match(r'^(rol|ror)[bwlq]$', mn): return i_rot
    if re.match(r'^sh[lr]d[bwlq]$', mn): return i_shd
    if re.match(r'^bt[src]?[wlq]$', mn): return i_bt
    if re.match(r'^(rep)?z?stos[bwlq]$', mn): return i_stos
    if re.match(r'^repz?movs[bwlq]$', mn): return i_movs
    if mn == 'movsbb' or mn in ('movsl', 'movsq'): return i_movs
    simple = {'cltd': i_cltd, 'cqto': i_cqto, 'cwtd': i_cwtd, 'cltq': i_cltq, 'cwtl': i_cwtl, 'cbtw': i_cbtw,
              'nop': i_nop, 'nopw': i_nop, 'nopl': i_nop, 'nopq': i_nop, 'endbr64': i_nop, 'mfence': i_nop,
              'ud2': i_ud2, 'int3': i_int3, 'hlt': i_hlt, 'bswapl': i_bswap, 'bswapq': i_bswap, 'bswap': i_bswap,
              'movsd': i_movs_sd, 'movss': i_movs_sd, 'ucomisd': i_ucomi, 'ucomiss': i_ucomi,
              'comisd': i_ucomi, 'comiss': i_ucomi, 'cvtss2sd': i_cvtff, 'cvtsd2ss': i_cvtff}
    if mn in simple: return simple[mn]
    if mn in ('movaps', 'movapd', 'movups', 'movupd', 'movdqa', 'movdqu'): return i_mova
    if mn in ('movlps', 'movlpd', 'movhps', 'movhpd', 'movhlps', 'movlhps'): return i_movhl
    m = re.match(r'^(add|sub|mul|div|sqrt|max|min)s[sd]$', mn)
    if m: return sse_arith(m.group(1))
    if re.match(r'^cvtsi2s[sd][lq]$', mn): return i_cvtsi2
    if re.match(r'^cvtts[sd]2si[lq]?$', mn): return i_cvtt2si
    if re.match(r'^xchg[bwlq]$', mn): return i_xchg
    if mn in ('xorps', 'xorpd', 'pxor', 'andps', 'andpd', 'pand', 'orps', 'orpd', 'por', 'andnps', 'andnpd',
              'pandn', 'unpcklps', 'unpcklpd', 'unpckhpd', 'punpckldq', 'punpcklqdq', 'punpckhqdq', 'addpd',
              'subpd', 'mulpd', 'cvtps2pd', 'cvtpd2ps', 'paddd', 'paddq', 'psubd', 'psubq', 'paddw', 'paddb'):
        return i_sselog
    if re.match(r'^ps[rl][la](dq|[dqw])$', mn) or mn in ('psrldq', 'pslldq'): return i_psh
    if mn in ('pshufd', 'shufps', 'shufpd'): return i_shuf
    return None
