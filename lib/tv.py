"""Translation validation: ucc's object code against an independent compiler's object code for the
same C function, decided by z3 for all argument values, memory contents and external results."""
import os, re, sys, subprocess, time, json, shutil, hashlib, traceback, multiprocessing, signal
import z3
import x86sym as X
from x86sym import *
import build

sys.setrecursionlimit(20000)
VERIF = build.VERIF

BASE = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), '_Bool': (8, 0), 'short': (16, 1),
        'unsigned short': (16, 0), 'int': (32, 1), 'unsigned': (32, 0), 'unsigned int': (32, 0), 'long': (64, 1),
        'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0), 's8': (8, 1), 'u8': (8, 0),
        's16': (16, 1), 'u16': (16, 0), 's32': (32, 1), 'u32': (32, 0), 's64': (64, 1), 'u64': (64, 0),
        'float': ('f', 32), 'double': ('f', 64), 'void': None}

# external functions whose calls are observable events: name -> (ret, args)
EXT = {
    'ev': ('int', ['int']), 'ev2': ('int', ['int', 'int']), 'evl': ('long', ['long']), 'evu': ('unsigned', ['unsigned']),
    'evc': ('s8', ['s8']), 'evuc': ('u8', ['u8']), 'evs': ('s16', ['s16']), 'evus': ('u16', ['u16']),
    'evul': ('u64', ['u64']), 'evd': ('double', ['double']), 'evf': ('float', ['float']),
    'evv': ('void', ['int']), 'ev0': ('int', []), 'evb': ('_Bool', ['_Bool']),
    'ev6': ('long', ['long', 'long', 'long', 'long', 'long', 'long']),
    'ev8': ('long', ['long', 'int', 'long', 'u8', 'long', 's16', 'int', 'long']),
    'evdi': ('double', ['int', 'double', 'long', 'float']),
}
PRELUDE = '''typedef signed char s8; typedef unsigned char u8; typedef short s16; typedef unsigned short u16;
typedef int s32; typedef unsigned u32; typedef long s64; typedef unsigned long u64;
#define TEST
#define PRE(...)
''' + ''.join('extern %s %s(%s);\n' % (r, n, ', '.join(a) or 'void') for n, (r, a) in EXT.items())

HOOKADDR = {n: X.HOOK_BASE + 16 * (i + 1) for i, n in enumerate(sorted(EXT))}
CHKFAIL = X.HOOK_BASE + 0x8000
ABORT = X.HOOK_BASE + 0x8010
ARGBASE = 0x10000000
ARGSTRIDE = 0x10000

SUPPORT = '''
typedef unsigned long sz;
void *memcpy(void *d, const void *s, sz n){ char *p = d; const char *q = s; while(n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, sz n){ char *p = d; const char *q = s; if(p < q) while(n--) *p++ = *q++; else while(n--) p[n] = q[n]; return d; }
void *memset(void *d, int c, sz n){ char *p = d; while(n--) *p++ = c; return d; }
int memcmp(const void *a, const void *b, sz n){ const unsigned char *p = a, *q = b; for(; n; n--, p++, q++) if(*p != *q) return *p - *q; return 0; }
sz strlen(const char *s){ sz n = 0; while(s[n]) n++; return n; }
int strcmp(const char *a, const char *b){ while(*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
'''

class Test(object):
    def __init__(self, name, ret, args, pre):
        self.name, self.ret, self.args, self.pre = name, ret, args, pre

def norm_type(t):
    t = re.sub(r'\b(const|volatile|register|restrict|static|extern|inline)\b', '', t)
    t = ' '.join(t.split())
    t = re.sub(r'^signed (?!char)', '', t)
    t = {'signed': 'int', 'short int': 'short', 'long int': 'long', 'unsigned short int': 'unsigned short',
         'unsigned long int': 'unsigned long', 'long unsigned': 'unsigned long'}.get(t, t)
    return t

def parse_tests(src):
    out = []
    for line in src.split('\n'):
        m = re.match(r'^TEST\s+(.*?)\s*\b(\w+)\s*\((.*?)\)\s*(?:PRE\((.*)\))?\s*\{?\s*$', line)
        if not m:
            continue
        ret, name, args, pre = m.groups()
        al = []
        for a in X.split_ops(args):
            if a in ('void', ''):
                continue
            n = re.search(r'/\*\s*(B?)(\d+)\s*\*/', a)
            a2 = re.sub(r'/\*.*?\*/', '', a).strip()
            mm = re.match(r'^(.*?)(\w+)$', a2)
            ty, nm = mm.group(1).strip(), mm.group(2)
            if ty.endswith('*'):
                b = norm_type(ty[:-1])
                if n:
                    cnt = int(n.group(2))
                    sz = cnt if n.group(1) else cnt * (BASE[b][0] // 8 if BASE.get(b) and BASE[b][0] != 'f' else (BASE[b][1] // 8 if BASE.get(b) else 8))
                else:
                    e = BASE.get(b)
                    sz = 4 * (e[1] // 8 if e and e[0] == 'f' else e[0] // 8 if e else 8)
                al.append((nm, 'ptr', sz, ty))
            else:
                b = norm_type(ty)
                if b not in BASE:
                    raise ValueError('type %r in %s' % (ty, line))
                e = BASE[b]
                al.append((nm, 'fp' if e[0] == 'f' else 'int', e[1] if e[0] == 'f' else e[0], b))
        r = ret.strip()
        if r.endswith('*'):
            rt = ('int', 64)
        else:
            e = BASE[norm_type(r)]
            rt = None if e is None else (('fp', e[1]) if e[0] == 'f' else ('int', e[0]))
        out.append(Test(name, rt, al, pre))
    return out

# ------------------------------------------------------------------ compiling
UCCFLAGS = ['-w', '-fno-stack-protector']
ORACLES = {
    'gcc': ['gcc', '-std=gnu99', '-Os', '-fwrapv', '-fno-strict-aliasing', '-w', '-fcf-protection=none', '-fno-stack-protector',
            '-fno-asynchronous-unwind-tables', '-fno-tree-vectorize', '-fno-pic', '-fno-delete-null-pointer-checks',
            '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-fno-ipa-icf', '-fno-ipa-cp', '-fno-inline', '-fno-common',
            '-fno-reorder-functions', '-mno-avx', '-fno-strict-overflow'],
    'clang': ['clang', '-std=gnu99', '-O0', '-fwrapv', '-fno-strict-aliasing', '-w', '-fno-stack-protector', '-fno-pic', '-fno-common',
              '-fno-asynchronous-unwind-tables', '-fno-builtin'],
}

class CompileFail(Exception):
    def __init__(self, who, cmd, out):
        Exception.__init__(self, '%s: %s' % (who, out[-600:]))
        self.who, self.cmd, self.out = who, cmd, out

def sh(who, cmd, cwd=None, timeout=60):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CompileFail(who, cmd, 'timed out')
    if p.returncode:
        raise CompileFail(who, cmd, p.stdout.decode('latin1'))
    return p.stdout.decode('latin1')

def defsyms():
    d = ['--defsym=%s=%#x' % (n, a) for n, a in HOOKADDR.items()]
    d += ['--defsym=__stack_chk_fail=%#x' % CHKFAIL, '--defsym=abort=%#x' % ABORT]
    return d

def link(work, out, objs):
    sh('ld', ['ld', '-static', '-z', 'noexecstack', '--no-warn-rwx-segments', '-z', 'max-page-size=4096', '-Ttext=0x400000', '-e', '0'] + defsyms() + ['-o', out] + objs, cwd=work)

def pre_source(tests):
    s = PRELUDE
    for t in tests:
        if t.pre:
            s += 'int pre_%s(%s){ return (%s) != 0; }\n' % (t.name, ', '.join('%s %s' % (a[3] if a[3].rstrip('* ').split()[0] in ('struct', 'union', 'const', 'volatile') or BASE.get(norm_type(a[3].rstrip('* '))) else 'void *', a[0]) for a in t.args), t.pre)
    return s

def compile_pair(work, name, src, uflags=(), oracle='gcc', parts=None, ucc=None, oflags=()):
    """src -> (ucc image path, oracle image path, tests).  `parts`: dict with 'u' and 'g' lists of
    (compiler, define) when the unit is split to mix both compilers."""
    os.makedirs(work, exist_ok=True)
    ucc = ucc or build.ucc()
    tests = parse_tests(src)
    c = os.path.join(work, name + '.c')
    with open(c, 'w') as f:
        f.write(PRELUDE + '#line 1 "%s.c"\n' % name + src)
    sup = os.path.join(work, name + '.sup.c')
    with open(sup, 'w') as f:
        f.write(SUPPORT)
    pre = os.path.join(work, name + '.pre.c')
    with open(pre, 'w') as f:
        f.write(pre_source(tests))
    gcc = ORACLES['gcc']
    sh('gcc', gcc + ['-ffreestanding', '-c', '-o', name + '.sup.o', sup], cwd=work)
    sh('gcc', gcc + ['-c', '-o', name + '.pre.o', pre], cwd=work)
    def comp(who, out, defs):
        if who == 'u':
            sh('ucc', [ucc] + UCCFLAGS + list(uflags) + defs + ['-c', '-o', out, name + '.c'], cwd=work)
        else:
            sh('oracle', ORACLES[oracle] + list(oflags) + defs + ['-c', '-o', out, name + '.c'], cwd=work)
    objs = {}
    for side in 'ug':
        pl = (parts or {}).get(side) or [(side, None)]
        ol = []
        for i, (who, d) in enumerate(pl):
            o = '%s.%s%d.o' % (name, side, i)
            comp(who, o, ['-D' + d] if d else [])
            ol.append(o)
        objs[side] = ol
        extra = [name + '.sup.o'] + ([name + '.pre.o'] if side == 'g' else [])
        link(work, '%s.%s.elf' % (name, side), ol + extra)
    return os.path.join(work, name + '.u.elf'), os.path.join(work, name + '.g.elf'), tests

# ------------------------------------------------------------------ checking
_imgs = {}
def image(p):
    k = (p, os.path.getmtime(p))
    if k not in _imgs:
        _imgs.clear() if len(_imgs) > 8 else None
        _imgs[k] = X.Image(p)
    return _imgs[k]

INT_ARG_REGS = [RDI, RSI, RDX, RCX, 8, 9]
CALLEE_SAVED = [RBX, RBP, 12, 13, 14, 15]

class Found(Exception):
    def __init__(self, info):
        self.info = info

def type_w(b):
    e = BASE[b]
    return (e[1], True) if e[0] == 'f' else (e[0], False)

def make_hook(name, bits):
    ret, args = EXT[name]
    def hook(ex, st):
        rsp = st.r[RSP]
        if not isint(rsp) or (rsp & 15) != 8:
            raise Fault('stack misaligned in call to %s' % name)
        vals, gi, fi, sp = [], 0, 0, add(64, rsp, 8)
        for a in args:
            w, fp = type_w(a)
            if fp:
                if fi < 8:
                    v = extract(st.x[fi], 0, w); fi += 1
                else:
                    v = ex.load(st, sp, w // 8); sp = add(64, sp, 8)
            else:
                if gi < 6:
                    v = extract(st.r[INT_ARG_REGS[gi]], 0, w); gi += 1
                else:
                    v = ex.load(st, sp, w // 8); sp = add(64, sp, 8)
            vals.append((v, w))
        k = len(st.events)
        st.events.append((name, vals))
        for r in (RAX, RCX, RDX, RSI, RDI, 8, 9, 10, 11):
            st.r[r] = ex.fresh(st, 'clob', 64)
        for i in range(16):
            st.x[i] = ex.fresh(st, 'clobx', 128)
        st.fl = None
        if ret != 'void':
            w, fp = type_w(ret)
            if ret == '_Bool':
                v = z3.ZeroExt(7, z3.BitVec('evret!%d!b' % k, 1))
            else:
                v = z3.BitVec('evret!%d!%d' % (k, w), w)
            if fp:
                st.x[0] = z3.Concat(z3.BitVec('%s!evg!%d' % (ex.tag, k), 128 - w), v)
            else:
                st.r[RAX] = v if w == 64 else z3.Concat(z3.BitVec('%s!evg!%d' % (ex.tag, k), 64 - w), v)
        ret_a = ex.pop64(st)
        if not isint(ret_a): raise Fault('bad return address')
        if st.frames: st.frames.pop()
        st.pc = ret_a
    return hook

HOOKS = {HOOKADDR[n]: make_hook(n, 0) for n in EXT}
def _trap(msg):
    def h(ex, st):
        st.trap = msg
    return h
HOOKS[CHKFAIL] = _trap('trap: stack_chk_fail')
HOOKS[ABORT] = _trap('trap: abort')

def init_state(img, test, tag, syms, observed, pc):
    st = X.State()
    st.fl = None; st.steps = 0; st.events = []; st.trap = None; st.st = []; st.nfresh = 0; st.frames = []; st.lastio = None
    st.mem = {}
    st.pc = pc
    st.r = [z3.BitVec('%s!init!%s' % (tag, X.REG64[i]), 64) for i in range(16)]
    for r in CALLEE_SAVED:
        st.r[r] = z3.BitVec('cs!%s' % X.REG64[r], 64)
    st.x = [z3.BitVec('%s!initx!%d' % (tag, i), 128) for i in range(16)]
    st.r[RSP] = X.STACK_TOP - 8
    regions = [(X.FSBASE, X.FSBASE + 0x100, False)]
    for i in range(8):
        st.mem[X.FSBASE + 0x28 + i] = (z3.BitVec('canary', 64), i)
    for i in range(8):
        st.mem[X.STACK_TOP - 8 + i] = (X.RETADDR >> (8 * i)) & 255
    gi = fi = 0
    sp = X.STACK_TOP
    for k, (nm, kind, n, ty) in enumerate(test.args):
        if kind == 'fp':
            v = syms[nm]
            if fi < 8:
                st.x[fi] = z3.Concat(z3.BitVec('%s!upx!%s' % (tag, nm), 128 - n), v); fi += 1
                continue
            v64 = v if n == 64 else z3.Concat(z3.BitVec('%s!up!%s' % (tag, nm), 64 - n), v)
        elif kind == 'ptr':
            v64 = ARGBASE + k * ARGSTRIDE
            regions.append((v64, v64 + n, True))
            b = syms[nm]
            for i in range(n):
                st.mem[v64 + i] = (b, i)
        else:
            v = syms[nm]
            v64 = v if n == 64 else z3.Concat(z3.BitVec('%s!up!%s' % (tag, nm), 64 - n), v)
        if kind != 'fp' and gi < 6:
            st.r[INT_ARG_REGS[gi]] = v64; gi += 1
        else:
            for i in range(8):
                st.mem[sp + i] = ((v64 >> (8 * i)) & 255) if isint(v64) else (v64, i)
            sp += 8
    for g in observed:
        a, n = img.sym[g], img.size[g]
        if g.startswith('gs_'):
            b = syms.setdefault(g, z3.BitVec('glob!' + g, 8 * n))
            for i in range(n):
                st.mem[a + i] = (b, i)
    return st, regions

def decide(assertions, timeout_ms, stats):
    """non-incremental query: (verdict, model)"""
    t0 = time.time()
    res = z3.unknown
    m = None
    hasfp = False
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(assertions)
    res = s.check()
    if res == z3.unknown:
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'bit-blast', 'sat')
        try:
            s2 = t.solver()
            s2.set('timeout', timeout_ms)
            s2.add(assertions)
            res = s2.check()
            s = s2
        except z3.Z3Exception:
            res = z3.unknown
    stats['queries'] = stats.get('queries', 0) + 1
    stats['solver_s'] = stats.get('solver_s', 0.0) + time.time() - t0
    if res == z3.sat:
        m = s.model()
    return res, m

def check_test(uimg_p, gimg_p, test, opts):
    """decide one function.  Returns a dict with 'status'."""
    stats = {'queries': 0, 'paths': 0, 'solver_s': 0.0, 'equal_syntactically': 0}
    t0 = time.time()
    res = {'test': test.name, 'stats': stats}
    try:
        U, G = image(uimg_p), image(gimg_p)
        if test.name not in U.sym:
            res.update(status='violation', what='function %s missing from the object file' % test.name, model=None)
            return res
        res.update(_check(U, G, test, opts, stats))
    except Found as f:
        res.update(status='violation', **f.info)
    except BoundExceeded as e:
        res.update(status='bound', what=str(e))
    except Unsupported as e:
        res.update(status='unsupported', what=str(e))
    except SolverUnknown as e:
        res.update(status='undecided', what=str(e))
    except z3.Z3Exception as e:
        res.update(status='undecided', what='z3: ' + str(e))
    except Exception as e:
        res.update(status='error', what=''.join(traceback.format_exception(e))[-1500:])
    stats['wall'] = time.time() - t0
    return res

def rdmem(st, img, a, n):
    out = []
    for i in range(n):
        b = st.mem.get(a + i)
        if b is None:
            b = img.data[a + i]
        out.append(b)
    return out

def samebyte(p, q):
    if type(p) is int or type(q) is int:
        return type(p) is int and type(q) is int and p == q
    return p[1] == q[1] and p[0].eq(q[0])

def join(bs):
    v, w = None, 0
    i = 0
    while i < len(bs):
        b = bs[i]
        if type(b) is int:
            x, xw = b, 8
            i += 1
        else:
            j = i + 1
            while j < len(bs) and type(bs[j]) is tuple and bs[j][0] is b[0] and bs[j][1] == b[1] + (j - i):
                j += 1
            x, xw = extract(b[0], 8 * b[1], 8 * (j - i)), 8 * (j - i)
            i = j
        v = x if v is None else concat(x, xw, v, w)
        w += xw
    return v

def model_values(m, test, syms, observed):
    """concrete inputs from a model"""
    d = {'args': {}, 'glob': {}, 'ev': {}, 'up': {}, 'stk': {}}
    ev = lambda e: m.eval(e, model_completion=True).as_long()
    for nm, kind, n, ty in test.args:
        d['args'][nm] = '%#x' % ev(syms[nm])
    for g in observed:
        if g in syms:
            d['glob'][g] = '%#x' % ev(syms[g])
    for x in m.decls():
        nm = x.name()
        if nm.startswith('evret!'):
            p = nm.split('!')
            d['ev'][p[1]] = m[x].as_long()
        elif nm.startswith('u!up!'):
            d['up'][nm[5:]] = m[x].as_long()
    return d

def _check(U, G, test, opts, stats):
    syms = {}
    for nm, kind, n, ty in test.args:
        if kind == 'ptr':
            syms[nm] = z3.BitVec('in!' + nm, 8 * n)
        elif ty == '_Bool':
            syms[nm] = z3.ZeroExt(7, z3.BitVec('in!' + nm, 1))
        else:
            syms[nm] = z3.BitVec('in!' + nm, n)
    observed = sorted(g for g in U.sym if (g.startswith('g_') or g.startswith('gs_')) and G.sym.get(g) is not None
                      and U.size[g] == G.size[g] and U.size[g] > 0)
    solver = z3.Solver()
    solver.set('timeout', opts.get('branch_ms', 3000))
    cnt = {'leaves': 0, 'pairs': 0, 'reached': 0}
    undecided = []
    ms, mp = opts.get('max_steps', 20000), opts.get('max_paths', 300)

    io = None
    for k, (nm, kind, n, ty) in enumerate(test.args):
        if nm.startswith('vio'):
            io = (ARGBASE + k * ARGSTRIDE, ARGBASE + k * ARGSTRIDE + n)

    def run_u():
        st, regs = init_state(U, test, 'u', syms, observed, U.sym[test.name])
        ex = X.Exec(U, solver, 'u', HOOKS, ms, mp, stats, regs)
        ex.io = io; ex.addr_lim = opts.get('addr_lim', 80)
        ex.run(st, lambda s: run_g(s))

    def run_g(us):
        cnt['leaves'] += 1
        st, regs = init_state(G, test, 'g', syms, observed, G.sym[test.name])
        ex = X.Exec(G, solver, 'g', HOOKS, ms, mp, stats, regs)
        ex.io = io; ex.addr_lim = opts.get('addr_lim', 80)
        ex.run(st, lambda s: compare(us, s))

    def report(what, extra):
        r, m = decide(list(solver.assertions()) + extra, opts.get('final_ms', 20000), stats)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            undecided.append(what)
            return
        raise Found({'what': what, 'model': model_values(m, test, syms, observed)})

    def compare(us, gs):
        cnt['pairs'] += 1
        if gs.trap and gs.trap.startswith('fault'):
            raise RuntimeError('oracle side faults: ' + gs.trap)
        diffs = []
        def cmp(w, a, b, what):
            if isint(a) and isint(b):
                if a != b: diffs.append((True, what))
                return
            e = bv(a, w) != bv(b, w)
            e = z3.simplify(e)
            if z3.is_false(e):
                stats['equal_syntactically'] += 1
                return
            diffs.append((e, what))
        def cmp_mem(ua, ga, n, what):
            ub, gb = rdmem(us, U, ua, n), rdmem(gs, G, ga, n)
            i = 0
            while i < n:
                k = min(8, n - i)
                x, y = ub[i:i + k], gb[i:i + k]
                if not all(samebyte(p, q) for p, q in zip(x, y)):
                    cmp(8 * k, join(x), join(y), '%s [%d..%d]' % (what, i, i + k - 1))
                i += k
        # events, in order
        n = min(len(us.events), len(gs.events))
        for i in range(n):
            (un, uv), (gn, gv) = us.events[i], gs.events[i]
            if un != gn:
                diffs.append((True, 'external call %d is %s, expected %s' % (i, un, gn)))
                break
            for j, ((a, w), (b, _)) in enumerate(zip(uv, gv)):
                cmp(w, a, b, 'argument %d of external call %d (%s)' % (j, i, un))
        if len(us.events) != len(gs.events) and not (us.trap and us.trap.startswith('fault')):
            diffs.append((True, 'number of external calls: %d, expected %d' % (len(us.events), len(gs.events))))
        if us.trap or gs.trap:
            if us.trap != gs.trap:
                diffs.append((True, 'ends in %r, expected %r' % (us.trap, gs.trap)))
        else:
            if test.ret:
                k, w = test.ret
                if k == 'int':
                    cmp(w, extract(us.r[RAX], 0, w), extract(gs.r[RAX], 0, w), 'return value')
                else:
                    cmp(w, extract(us.x[0], 0, w), extract(gs.x[0], 0, w), 'return value')
            for r in CALLEE_SAVED:
                cmp(64, us.r[r], z3.BitVec('cs!%s' % X.REG64[r], 64), 'callee-saved %s' % X.REG64[r])
            cmp(64, us.r[RSP], X.STACK_TOP, 'stack pointer at return')
            for k, (nm, kind, n, ty) in enumerate(test.args):
                if kind == 'ptr' and not nm.startswith('vio'):
                    a = ARGBASE + k * ARGSTRIDE
                    cmp_mem(a, a, n, 'memory *%s' % nm)
            for g in observed:
                cmp_mem(U.sym[g], G.sym[g], U.size[g], 'global %s' % g)
        if not diffs:
            return
        hard = [d for d in diffs if d[0] is True]
        if hard:
            report('; '.join(d[1] for d in hard), [])
            if not undecided:
                return
        rest = [d for d in diffs if d[0] is not True]
        if rest:
            c = [d[0] for d in rest]
            whole = z3.Or(c) if len(c) > 1 else c[0]
            r, m = decide(list(solver.assertions()) + [whole], opts.get('final_ms', 20000), stats)
            if r == z3.unknown and len(c) > 1:
                r = z3.unsat
                for e, w in rest:
                    r1, m1 = decide(list(solver.assertions()) + [e], opts.get('final_ms', 20000), stats)
                    if r1 == z3.sat:
                        r, m = r1, m1
                        break
                    if r1 == z3.unknown:
                        r = z3.unknown
            if r == z3.unknown:
                undecided.append('; '.join(d[1] for d in rest))
            elif r == z3.sat:
                bad = [w for e, w in rest if z3.is_true(m.eval(e, model_completion=True))]
                raise Found({'what': '; '.join(bad) or 'difference', 'model': model_values(m, test, syms, observed)})

    # run precondition, then both sides
    def with_pre():
        if not test.pre:
            return run_u()
        st, regs = init_state(G, test, 'p', syms, observed, G.sym['pre_' + test.name])
        ex = X.Exec(G, solver, 'p', HOOKS, ms, mp, stats, regs)
        def leaf(s):
            c = bv(extract(s.r[RAX], 0, 32), 32) != 0
            if ex.feasible(z3.simplify(c)):
                solver.push(); solver.add(c)
                run_u()
                solver.pop()
        ex.run(st, leaf)
    with_pre()
    if not cnt['pairs']:
        return {'status': 'error', 'what': 'vacuous: no path reached the comparison'}
    if undecided:
        return {'status': 'undecided', 'what': undecided[0], 'cnt': cnt}
    return {'status': 'ok', 'cnt': cnt}

# ------------------------------------------------------------------ replay on the real thing
TRAMP = r'''
__asm__(".text\n.globl tramp\ntramp:\n"
"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
"movq %rdi, cur(%rip)\n movq %rsp, savesp(%rip)\n"
"movq 0(%rdi), %rcx\n"            /* number of stack words */
"movq 8(%rdi), %rsi\n"            /* stack words */
"movq %rcx, %rax\n shlq $3, %rax\n subq %rax, %rsp\n andq $-16, %rsp\n"
"movq %rsp, %rdx\n"
"1: testq %rcx, %rcx\n je 2f\n movq (%rsi), %rax\n movq %rax, (%rdx)\n addq $8, %rsi\n addq $8, %rdx\n decq %rcx\n jmp 1b\n2:\n"
"movq %rsp, spat(%rip)\n"
"movups 96(%rdi), %xmm0\n movups 112(%rdi), %xmm1\n movups 128(%rdi), %xmm2\n movups 144(%rdi), %xmm3\n"
"movups 160(%rdi), %xmm4\n movups 176(%rdi), %xmm5\n movups 192(%rdi), %xmm6\n movups 208(%rdi), %xmm7\n"
"movq 16(%rdi), %r11\n"
"movq 32(%rdi), %rsi\n movq 40(%rdi), %rdx\n movq 48(%rdi), %rcx\n movq 56(%rdi), %r8\n movq 64(%rdi), %r9\n movq 72(%rdi), %rax\n"
"movq 80(%rdi), %r10\n"
"movq 24(%rdi), %rdi\n"
"movq $0x1111b0b1, %rbx\n movq $0x2222b0b2, %r12\n movq $0x3333b0b3, %r13\n movq $0x4444b0b4, %r14\n movq $0x5555b0b5, %r15\n movq $0x6666b0b6, %rbp\n"
"call *%r11\n"
"movq %rax, orax(%rip)\n movq %rdx, ordx(%rip)\n movups %xmm0, oxmm(%rip)\n"
"xorl %eax, %eax\n"
"cmpq $0x1111b0b1, %rbx\n setne %al\n movq %rax, %rcx\n"
"cmpq $0x2222b0b2, %r12\n setne %al\n orq %rax, %rcx\n"
"cmpq $0x3333b0b3, %r13\n setne %al\n orq %rax, %rcx\n"
"cmpq $0x4444b0b4, %r14\n setne %al\n orq %rax, %rcx\n"
"cmpq $0x5555b0b5, %r15\n setne %al\n orq %rax, %rcx\n"
"cmpq $0x6666b0b6, %rbp\n setne %al\n orq %rax, %rcx\n"
"cmpq spat(%rip), %rsp\n setne %al\n orq %rax, %rcx\n"
"movq %rcx, oabi(%rip)\n"
"movq savesp(%rip), %rsp\n"
"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
".data\n.globl orax, ordx, oxmm, oabi, clpat\nclret: .quad 0\nclpat: .quad 0\ncur: .quad 0\nsavesp: .quad 0\nspat: .quad 0\norax: .quad 0\nordx: .quad 0\noabi: .quad 0\n.align 16\noxmm: .zero 16\n.text\n");
'''

# volatile accesses, traced by page protection and single-stepping
VIO = r'''
#include <ucontext.h>
static unsigned long vbase, vaddr, lastw, lastwev; static int vwr, vback; static unsigned char vsave[16];
static void vsegv(int s, siginfo_t *si, void *u){
 ucontext_t *c = u; unsigned long a = (unsigned long)si->si_addr;
 if(!vbase || a < vbase || a >= vbase + 4096){ char b[40]; int n = snprintf(b, sizeof b, "TRAP 11\n"); if(write(1, b, n)){} _exit(3); }
 vaddr = a; vwr = (c->uc_mcontext.gregs[REG_ERR] >> 1) & 1;
 mprotect((void *)vbase, 4096, PROT_READ|PROT_WRITE);
 memcpy(vsave, (void *)a, 8); vback = 0;
 if(vwr) memset((void *)a, 0, 8);
 else if(lastw == a && lastwev == nev) vback = 1;
 else { printf("load %#lx\n", a); uint64_t v = nextev(); memcpy((void *)a, &v, 8); }
 c->uc_mcontext.gregs[REG_EFL] |= 0x100; }
static void vtrap(int s, siginfo_t *si, void *u){
 ucontext_t *c = u; if(!vaddr){ if(write(1, "TRAP 5\n", 7)){} _exit(3); }
 if(vwr){ uint64_t v; memcpy(&v, (void *)vaddr, 8); printf("store %#lx %#lx\n", vaddr, v); nextev(); lastw = vaddr; lastwev = nev; } else if(!vback) lastw = 0;
 vaddr = 0; mprotect((void *)vbase, 4096, PROT_NONE); c->uc_mcontext.gregs[REG_EFL] &= ~0x100UL; }
static void vio_on(unsigned long a){ vbase = a; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = vsegv; sigaction(SIGSEGV, &sa, 0); sa.sa_sigaction = vtrap; sigaction(SIGTRAP, &sa, 0); mprotect((void *)a, 4096, PROT_NONE); }
'''

def replay(work, name, src, test, model, uflags, oracle, parts, ucc, outdir, oflags=()):
    """Compile natively with both compilers and run both on the model's inputs.
    Returns (confirmed, text)."""
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, name + '.c'), 'w') as f:
        f.write(PRELUDE + '#line 1 "%s.c"\n' % name + src)
    L = ['#define _GNU_SOURCE', '#include <stdio.h>', '#include <string.h>', '#include <stdlib.h>', '#include <stdint.h>', '#include <signal.h>',
         '#include <unistd.h>', '#include <sys/mman.h>', TRAMP,
         'struct ctx { uint64_t nstk; uint64_t *stk; void *fn; uint64_t g[6]; uint64_t rax, r10, pad; unsigned char x[8][16]; };',
         'void tramp(struct ctx *); extern uint64_t orax, ordx, oabi, clpat; extern unsigned char oxmm[16];',
         'static unsigned nev; static uint64_t evrets[] = {%s};' % ', '.join(
             '%#xULL' % (model['ev'].get(str(i), 0) & M64) for i in range(64)),
         'static uint64_t nextev(void){ return nev < 64 ? evrets[nev++] : 0; }',
         'static void misal(uintptr_t a){ if(a & 15) printf("MISALIGNED stack in external call\\n"); }']
    for n, (r, args) in EXT.items():
        def cty(t):
            return {'s8': 'signed char', 'u8': 'unsigned char', 's16': 'short', 'u16': 'unsigned short', 'u64': 'unsigned long'}.get(t, t)
        ps = ', '.join('%s a%d' % (cty(a), i) for i, a in enumerate(args)) or 'void'
        b = 'misal((uintptr_t)__builtin_frame_address(0)); printf("ev %s");' % n
        for i, a in enumerate(args):
            w, fp = type_w(a)
            if fp:
                b += ' { uint64_t z = 0; memcpy(&z, &a%d, sizeof a%d); printf(" %%#lx", z); }' % (i, i)
            else:
                b += ' printf(" %%#lx", (unsigned long)a%d);' % i
        b += ' printf("\\n");'
        if r != 'void':
            w, fp = type_w(r)
            if fp:
                b += ' uint64_t z = nextev(); %s q; memcpy(&q, &z, sizeof q); return q;' % r
            elif r == '_Bool':
                b += ' return nextev() & 1;'
            else:
                b += ' return (%s)nextev();' % cty(r)
        else:
            b += ' nextev();'
        # the callee's registers are trashed on the way out, as any callee may
        w, fp = (0, 0) if r == 'void' else type_w('u8' if r == '_Bool' else r)
        L.append('__attribute__((noinline,used)) static %s %s_impl(%s){ %s }' % (cty(r), n, ps, b))
        a = ['popq clret(%rip)', 'call ' + n + '_impl', 'pushq clret(%rip)', 'movq clpat(%rip), %rcx']
        if fp or not w:
            a.append('movq %rcx, %rax')
        elif w < 64:
            a += ['movq %rcx, %rdx', 'movq $%d, %%rsi' % w, 'xchgq %rcx, %rsi', 'shlq %cl, %rdx', 'xchgq %rcx, %rsi',
                  {8: 'movzbl %al, %eax', 16: 'movzwl %ax, %eax', 32: 'movl %eax, %eax'}[w], 'orq %rdx, %rax']
        a += ['movq %%rcx, %%%s' % x for x in ('rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11')]
        a += ['movq %%rcx, %%xmm%d' % x for x in range(1 if fp else 0, 16)] + ['ret']
        L.append('__asm__(".globl %s\\n%s:\\n%s\\n");' % (n, n, '\\n'.join(a)))
        L.append('%s %s(%s);' % (cty(r), n, ps))
    L.append('void __stack_chk_fail(void){ printf("TRAP stack_chk_fail\\n"); fflush(stdout); _exit(3); }')
    L.append(VIO)
    L.append('static void sig(int s){ char b[40]; fflush(stdout); int n = snprintf(b, sizeof b, "TRAP %d\\n", s); if(write(1, b, n)){} _exit(3); }')
    U = image(os.path.join(work, name + '.u.elf'))
    globs = sorted(g for g in U.sym if g.startswith('g_') or g.startswith('gs_'))
    for g in globs:
        if U.size[g]:
            L.append('extern __attribute__((weak)) unsigned char %s[];' % g)
    L.append('extern int %s();' % test.name)
    L.append('__attribute__((noinline)) static void fill(int c){ volatile unsigned char b[200000]; for(unsigned i = 0; i < sizeof b; i++) b[i] = c; }')
    L.append('int main(int argc, char **argv){ static struct ctx c; static uint64_t stk[64]; int k = argc > 1 ? atoi(argv[1]) : 0xa5;')
    L.append(' setvbuf(stdout, 0, _IONBF, 0); alarm(5); signal(SIGILL, sig); signal(SIGFPE, sig); signal(SIGSEGV, sig); signal(SIGBUS, sig); signal(SIGTRAP, sig); signal(SIGABRT, sig); signal(SIGALRM, sig);')
    L.append(' c.fn = (void *)%s; c.stk = stk; c.rax = 0x5a5a5a5a5a5a5a5aULL; c.r10 = 0x6b6b6b6b6b6b6b6bULL; c.rax = 0x5a5a5a5a5a5a5a08ULL; memset(c.x, 0x7c, sizeof c.x); for(int i = 0; i < 6; i++) c.g[i] = 0x9999999999999999ULL;' % test.name)
    gi = fi = sp = 0
    for i, (nm, kind, n, ty) in enumerate(test.args):
        v = int(model['args'][nm], 16)
        if kind == 'fp':
            if fi < 8:
                L.append(' { uint64_t z = %#xULL; memcpy(c.x[%d], &z, %d); }' % (v, fi, n // 8)); fi += 1
            else:
                L.append(' stk[%d] = %#xULL;' % (sp, v | (0x7b7b7b7b7b7b7b7b << n if n < 64 else 0) & M64)); sp += 1
            continue
        if kind == 'ptr':
            a = ARGBASE + i * ARGSTRIDE
            L.append(' { static const unsigned char ini[] = {%s}; mmap((void *)%#xUL, %d, 3, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0); memcpy((void *)%#xUL, ini, %d); }' % (
                ', '.join(str((v >> (8 * j)) & 255) for j in range(n)), a, ARGSTRIDE // 2, a, n))
            if nm.startswith('vio'):
                L.append(' vio_on(%#xUL);' % a)
            v = a
        elif n < 64:
            v = (v | ((model['up'].get(nm, 0x5a5a5a5a5a5a5a5a) << n))) & M64
        if gi < 6:
            L.append(' c.g[%d] = %#xULL;' % (gi, v)); gi += 1
        else:
            L.append(' stk[%d] = %#xULL;' % (sp, v)); sp += 1
    L.append(' c.nstk = %d;' % (sp + (sp & 1)))
    for g, v in model['glob'].items():
        n = U.size[g]
        v = int(v, 16)
        L.append(' { static const unsigned char ini[] = {%s}; if(%s) memcpy(%s, ini, %d); }' % (', '.join(str((v >> (8 * j)) & 255) for j in range(n)), g, g, n))
    L.append(' fill(k); clpat = 0x0101010101010101ULL * (unsigned char)k; tramp(&c);')
    if test.ret:
        kd, w = test.ret
        if kd == 'int':
            L.append(' printf("ret %%#lx\\n", (unsigned long)(orax%s));' % ('' if w == 64 else ' & %#xUL' % mask(w)))
        else:
            L.append(' { uint64_t z = 0; memcpy(&z, oxmm, %d); printf("ret %%#lx\\n", z); }' % (w // 8))
    L.append(' if(oabi) printf("ABI: callee-saved register or stack pointer changed\\n");')
    for i, (nm, kind, n, ty) in enumerate(test.args):
        if kind == 'ptr' and not nm.startswith('vio'):
            L.append(' printf("*%s"); for(int i = 0; i < %d; i++) printf(" %%02x", ((unsigned char *)%#xUL)[i]); printf("\\n");' % (nm, n, ARGBASE + i * ARGSTRIDE))
    for g in globs:
        if U.size[g]:
            L.append(' if(%s){ printf("%s"); for(int i = 0; i < %d; i++) printf(" %%02x", %s[i]); printf("\\n"); }' % (g, g, U.size[g], g))
    L.append(' return 0; }')
    with open(os.path.join(outdir, 'driver.c'), 'w') as f:
        f.write('\n'.join(L) + '\n')
    cmds = []
    def q(a):
        return ' '.join("'%s'" % x if re.search(r'[^\w./=+:,-]', x) else x for x in a)
    sides = {}
    for side in 'ug':
        pl = (parts or {}).get(side) or [(side, None)]
        ol = []
        for i, (who, d) in enumerate(pl):
            o = '%s%d.o' % (side, i)
            dd = ['-D' + d] if d else []
            if who == 'u':
                cmds.append(q(['$UCC'] + UCCFLAGS + list(uflags) + dd + ['-c', '-o', o, name + '.c']).replace("'$UCC'", '"$UCC"'))
            else:
                cmds.append(q(ORACLES[oracle] + list(oflags) + dd + ['-c', '-o', o, name + '.c']))
            cmds.append("objcopy --wildcard --globalize-symbol='g_*' --globalize-symbol='gs_*' " + o)
            ol.append(o)
        cmds.append(q(['gcc', '-O1', '-w', '-no-pie', '-fno-builtin', '-o', 'run_' + side, 'driver.c'] + ol))
    script = '#!/bin/sh\n# exit 1 when ucc\'s code and the oracle\'s differ on the recorded input\ncd "$(dirname "$0")" || exit 2\nUCC=${UCC:-%s}\nset -e\ntrap \'[ $? = 0 ] || exit 2\' EXIT\n' % ucc
    script += '\n'.join(cmds) + '\nset +e\ntrap - EXIT\nfor k in 165 0 255 90; do ./run_u $k > out_u; ./run_g $k > out_g; cmp -s out_u out_g || { echo "stack fill $k: ucc (<) vs %s (>)"; diff out_u out_g; exit 1; }; done\nexit 0\n' % oracle
    with open(os.path.join(outdir, 'run.sh'), 'w') as f:
        f.write(script)
    with open(os.path.join(outdir, 'input.json'), 'w') as f:
        json.dump({'test': test.name, 'model': model, 'flags': list(uflags)}, f, indent=1)
    p = subprocess.run(['sh', os.path.join(outdir, 'run.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    txt = p.stdout.decode('latin1')
    return p.returncode == 1, txt
