"""Checks decided by exploring the project's own code (cx.py): scheduling, native replay, evidence."""
import os, re, shutil, subprocess, time, signal
from concurrent.futures import ThreadPoolExecutor
import build, cx
HDIR = os.path.join(build.VERIF, 'harness')
TECH = ('symbolic execution of the project\'s own functions, compiled to LLVM IR from the current tree and instrumented: '
        'z3 decides every branch and every assertion over symbolic input bytes / values, path by path')
ASSUME = ['clang-18 -O1 translates the sources faithfully (violations are replayed on the gcc-built program before they are reported)',
          'lib/cx/libc.c behaves as the C library does for the calls made (malloc never fails)', 'z3 is sound']

class Prog(object):
    """an instrumented program: prog's sources + a harness"""
    def __init__(self, prog, harness, name=None, gen=None, drop=(), asan=False, defs=()):
        self.prog, self.h, self.gen, self.drop, self.asan, self.defs = prog, harness, gen, drop, asan, list(defs)
        self.name = name or (os.path.basename(harness)[:-2] + ('_a' if asan else ''))
        self.exe = None

class Scene(object):
    """one exploration: program, arguments; replay(input, notes, msg, dir) -> (confirmed, text)"""
    def __init__(self, key, prog, args=(), replay=None, bounds='', sec=None, cpu=10, jobs=2, qto=10000, keyof=None):
        self.key, self.prog, self.args, self.replay, self.bounds = key, prog, [str(a) for a in args], replay, bounds
        self.sec, self.cpu, self.jobs, self.qto, self.keyof = sec, cpu, jobs, qto, keyof

def native(cmd, cwd=None, timeout=10, stdin=None, env=None, binary=True):
    """(status, stdout, stderr); status < 0 signal, None hang"""
    try:
        p = subprocess.run(cmd, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or build.env())
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, b'', b'hang'

def crashed(st):
    return st is None or st < 0 or st >= 126

_asan = None
def asan_bins():
    """the program built with AddressSanitizer (only to confirm memory errors)"""
    global _asan
    if _asan: return _asan
    build.ucc()
    d = os.path.join(build.tree(), 'asan')
    s = os.path.join(build.tree(), 'repo')
    if not os.path.exists(os.path.join(d, 'ok')):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for prog in ('cc1', 'cpp'):
            us = cx.units(prog)
            def one(k):
                src, fl, cwd = us[k]
                o = os.path.join(d, '%s%d.o' % (prog, k))
                cx._sh(['gcc', '-g', '-O1', '-w', '-fsanitize=address', '-std=gnu99', '-fwrapv'] + fl + ['-c', src, '-o', o], cwd=cwd)
                return o
            with ThreadPoolExecutor(os.cpu_count()) as ex:
                os_ = list(ex.map(one, range(len(us))))
            cx._sh(['gcc', '-fsanitize=address'] + os_ + ['-lm', '-o', os.path.join(d, prog)])
        open(os.path.join(d, 'ok'), 'w').close()
    _asan = {p: os.path.join(d, p) for p in ('cc1', 'cpp')}
    return _asan

def asan_native(prog, args, **kw):
    e = dict(build.env(), ASAN_OPTIONS='detect_leaks=0:exitcode=99')
    st, o, er = native([asan_bins()[prog]] + args, env=e, **kw)
    return st, o, er

def run(ctx, scenes, total_s, functions=(), pool=None):
    t0 = time.time()
    c = ctx.cov
    for k in ('scenes', 'paths', 'queries', 'sat', 'unsat', 'held', 'pins'): c.setdefault(k, 0)
    c.setdefault('solver_s', 0.0)
    c.setdefault('bounds', [])
    c.setdefault('functions_encoded', [])
    c['functions_encoded'] += [f for f in functions if f not in c['functions_encoded']]
    progs = []
    for s in scenes:
        if s.prog not in progs: progs.append(s.prog)
    def bld(p):
        h = [os.path.join(HDIR, p.h)]
        if p.gen:
            g = os.path.join(ctx.work, p.name + '.gen.c')
            open(g, 'w').write(p.gen)
            h.append(g)
        p.exe = cx.program(p.prog, h, p.name, os.path.join(ctx.work, 'px'), drop=p.drop, asan=p.asan, defs=p.defs + ['-I' + HDIR, '-I' + ctx.work])
        if os.environ.get('CX_KEEP'): shutil.copy(p.exe, os.path.join(os.environ['CX_KEEP'], p.name))
        for ext in ('.all.bc', '.cx.bc', '.o'):
            f = os.path.join(ctx.work, 'px', p.name + ext)
            if os.path.exists(f): os.unlink(f)
    cx.tools()
    for pr in sorted(set(p.prog for p in progs if p.prog)): cx.bitcode(pr)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(bld, progs))
    c['build_s'] = round(time.time() - t0, 1)
    jobs = max(1, min(8, os.cpu_count() or 1))
    npool = pool or max(1, jobs // 2)
    def one(s):
        left = total_s - (time.time() - t0)
        if left < 3: return s, None
        return s, cx.explore(s.prog.exe, s.args, seconds=int(min(s.sec or 1e9, left)), jobs=s.jobs, cpu=s.cpu, qto=s.qto)
    from harness import MAXVIOL
    with ThreadPoolExecutor(npool) as ex:
        for s, r in ex.map(one, scenes):
            if r is None:
                ctx.undecided.append('%s: time budget used up' % s.key)
                continue
            c['scenes'] += 1
            for k in ('paths', 'queries', 'sat', 'unsat', 'pins'): c[k] += r.get(k, 0)
            c['solver_s'] += r.get('solver', 0.0)
            bad = 0
            seen = set()
            for v in r['viol']:
                if len(ctx.viol) >= MAXVIOL: break
                rp = os.path.join(ctx.replays, re.sub(r'[^\w.+-]', '_', s.key) + '.%d' % bad)
                os.makedirs(rp, exist_ok=True)
                try:
                    ok, txt = s.replay(v, rp)
                except Exception as e:
                    ok, txt = False, 'replay failed: %r' % e
                if ok:
                    k = s.keyof(v, txt) if s.keyof else s.key
                    if k in seen: 
                        shutil.rmtree(rp, ignore_errors=True)
                        continue
                    seen.add(k)
                    open(os.path.join(rp, 'what.txt'), 'w').write(txt + '\n')
                    ctx.violation(k, '%s\n%s' % (v['msg'] or {'C': 'crash', 'T': 'no end within %ds' % s.cpu, 'V': 'assertion'}[v['kind']], txt), rp)
                    bad += 1
                else:
                    shutil.rmtree(rp, ignore_errors=True)
                    ctx.undecided.append('%s: not reproduced natively: %s %s' % (s.key, v['kind'], (v['msg'] + ' ' + txt)[:400]))
            if r['errors'] or not r['complete'] or r.get('unknown'):
                ctx.undecided.append('%s: explored %d paths, not complete (%s pending, %s unknown) %s' % (s.key, r['paths'], r.get('pending'), r.get('unknown'), (r['log'] + r['stderr'])[:300]))
            elif not r['viol']:
                c['held'] += 1
                if r.get('queries'): ctx.sample({'scene': s.key, 'paths': r['paths'], 'queries': r['queries'], 'solver_s': round(r.get('solver', 0), 2)})
            c.setdefault('slowest', []).append('%s %.1fs' % (s.key, r.get('wall', r.get('solver', 0))))
            if s.bounds and s.bounds not in c['bounds']: c['bounds'].append(s.bounds)
    c['slowest'] = sorted(c['slowest'], key=lambda x: -float(x.split()[-1][:-1]))[:6] if 'slowest' in c else []
    ctx.assumptions += [a for a in ASSUME if a not in ctx.assumptions]
    return c
