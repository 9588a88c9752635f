"""Path exploration of the project's own C code: the sources are compiled to LLVM IR from the
current tree, instrumented (cx/pass.cpp), linked with a harness and the run-time half
(cx/rt.cpp, z3) and explored until every branch that depends on the symbolic input has been
decided both ways."""
import os, shlex, subprocess, hashlib, re, json, time, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
import build
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cx')
CC, OPT, LINK = 'clang-18', 'opt-18', 'llvm-link-18'
CFL = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-stack-protector', '-D__NO_CTYPE', '-D__NO_INLINE__', '-U_FORTIFY_SOURCE', '-fno-builtin', '-w', '-std=gnu99', '-g0', '-fno-strict-aliasing', '-fwrapv']
WRAPX = ['stdin', 'stdout', 'stderr']
EXT_OK = set('fabsl fabs __errno_location strtod strtof strtold sscanf pow powf gmtime localtime strftime'.split())

def wraps():
    w = set(re.findall(r'\b__w_(\w+)\s*\(', open(os.path.join(HERE, 'libc.c')).read())) | set(WRAPX)
    return sorted(w)

def _sh(cmd, **kw):
    return build.run(cmd, **kw)

def _hash(*fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(open(f, 'rb').read() if os.path.exists(f) else f.encode())
    return h.hexdigest()[:16]

def tools():
    """the instrumentation pass and the run-time half (independent of /repo)"""
    h = _hash(*[os.path.join(HERE, f) for f in ('pass.cpp', 'rt.cpp', 'libc.c', 'cx.h')])
    d = os.path.join(build.CACHE, 'cxtools.' + h)
    os.makedirs(build.CACHE, exist_ok=True)
    with open(os.path.join(build.CACHE, '.cxlock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'ok')):
            for o in os.listdir(build.CACHE):
                if o.startswith('cxtools.'):
                    shutil.rmtree(os.path.join(build.CACHE, o), ignore_errors=True)
            os.makedirs(d)
            fl = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().split()
            open(os.path.join(d, 'wrap'), 'w').write('\n'.join(wraps()))
            with ThreadPoolExecutor(3) as ex:
                fs = [ex.submit(_sh, ['g++', '-O1', '-fPIC', '-shared', '-fno-rtti'] + fl + [os.path.join(HERE, 'pass.cpp'), '-o', os.path.join(d, 'pass.so')]),
                      ex.submit(_sh, ['g++', '-O2', '-w', '-c', os.path.join(HERE, 'rt.cpp'), '-o', os.path.join(d, 'rt.o')]),
                      ex.submit(_sh, [CC] + CFL + ['-ffreestanding', '-emit-llvm', '-c', os.path.join(HERE, 'libc.c'), '-o', os.path.join(d, 'libc.bc')])]
                for f in fs: f.result()
            open(os.path.join(d, 'ok'), 'w').close()
    return d

def units(prog):
    """[(source, [flags])] of cc1, cpp or ucc, from the project's own makefiles"""
    build.ucc()
    r = os.path.join(build.tree(), 'repo')
    sub, tgt = {'cc1': ('cc1', 'cc1'), 'cpp': ('cpp2', 'cpp'), 'ucc': ('ucc', 'ucc')}[prog]
    cwd = os.path.join(r, 'src', sub)
    out = subprocess.run(['make', '-n', '-B', '-C', cwd, tgt], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=build.env()).stdout.decode()
    us = []
    for l in out.splitlines():
        m = re.match(r'\s*gcc -c -o (\S+) (\S+\.c)(.*)', l)
        if m:
            us.append((os.path.normpath(os.path.join(cwd, m.group(2))), [x for x in shlex.split(m.group(3)) if re.match(r'-[DIU]', x)], cwd))
    have = set(u[0] for u in us)
    for o in set(re.findall(r'\.\./util/(\w+)\.o', out)):
        f = os.path.join(r, 'src/util', o + '.c')
        if f not in have: us.append((f, [], os.path.dirname(f)))
    if not us:
        raise build.BuildError('no sources found for ' + prog)
    return us

def bitcode(prog):
    """compiles the program's units to bitcode once per tree; {basename-ish: path}"""
    us = units(prog)
    d = os.path.join(build.tree(), 'bc.' + prog)
    with open(os.path.join(build.CACHE, '.cxlock.' + prog), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        res = {}
        def one(u):
            src, fl, cwd = u
            rel = os.path.relpath(src, os.path.join(build.tree(), 'repo', 'src'))
            o = os.path.join(d, rel.replace('/', '_') + '.bc')
            if not os.path.exists(o):
                ren = ['-Dmain=prog_main'] if re.search(r'^\s*(int\s+)?main\s*\(', open(src, errors='replace').read(), re.M) else []
                _sh([CC] + CFL + fl + ren + ['-emit-llvm', '-c', src, '-o', o + '.tmp'], cwd=cwd)
                os.rename(o + '.tmp', o)
            return rel, o
        os.makedirs(d, exist_ok=True)
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            for rel, o in ex.map(one, us): res[rel] = o
    return res

def program(prog, harness, name, work, drop=(), asan=False, defs=(), weaken=(), export=()):
    """links prog's bitcode (minus the units in `drop`) with a harness; returns the executable"""
    t = tools()
    bc = bitcode(prog) if prog else {}
    os.makedirs(work, exist_ok=True)
    r = os.path.join(build.tree(), 'repo')
    o = lambda s: os.path.join(work, name + s)
    inc = ['-I' + HERE, '-I' + os.path.join(r, 'src'), '-I' + os.path.join(r, 'src', {'cpp': 'cpp2'}.get(prog, prog) if prog else 'util')]
    hs = harness if isinstance(harness, (list, tuple)) else [harness]
    hb = []
    for k, h in enumerate(hs):
        _sh([CC] + CFL + list(defs) + inc + ['-emit-llvm', '-c', h, '-o', o('.h%d.bc' % k)])
        hb.append(o('.h%d.bc' % k))
    keep = [p for k, p in sorted(bc.items()) if k not in drop]
    # the harness' definitions override the program's (stubs at a stated boundary)
    _sh([LINK] + keep + [os.path.join(t, 'libc.bc')] + ['--override=' + h for h in hb] + ['-o', o('.all.bc')])
    e = dict(os.environ, CX_WRAP=os.path.join(t, 'wrap'), CX_EXTS=o('.ext'))
    if asan: e['CX_ASAN'] = '1'
    _sh([OPT, '-load-pass-plugin', os.path.join(t, 'pass.so'), '-passes=cx', o('.all.bc'), '-o', o('.cx.bc')], env=e)
    ext = set(open(o('.ext')).read().split())
    bad = sorted(x for x in ext if x not in EXT_OK and not x.startswith('__w_'))
    if bad:
        raise build.BuildError('external functions without a model: ' + ' '.join(bad))
    _sh([CC, '-O1', '-w'] + (['-fsanitize=address'] if asan else []) + ['-c', o('.cx.bc'), '-o', o('.o')])
    _sh(['clang++-18', o('.o'), os.path.join(t, 'rt.o'), '-lz3', '-lm'] + (['-fsanitize=address'] if asan else []) + ['-o', o('')])
    return o('')

def explore(exe, args=(), seconds=60, jobs=None, paths=None, cpu=10, env=None, maxviol=10, qto=20000):
    cmd = [exe, '-t', str(seconds), '-j', str(jobs or os.cpu_count()), '-c', str(cpu), '-v', str(maxviol), '-q', str(qto)]
    if paths: cmd += ['-p', str(paths)]
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=0', **(env or {}))
    try:
        p = subprocess.run(cmd + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=seconds + 60)
    except subprocess.TimeoutExpired as x:
        return {'complete': 0, 'paths': 0, 'errors': 1, 'viol': [], 'log': 'explorer did not end', 'stderr': ''}
    if os.environ.get('CX_DEBUG'): print(' '.join(cmd + list(args)), p.stderr.decode('latin1')[:6000])
    res = {'viol': [], 'complete': 0, 'errors': 0, 'log': '', 'stderr': p.stderr.decode('latin1')[-2000:]}
    cur = None
    for l in p.stdout.decode('latin1').splitlines():
        f = l.split(' ')
        if f[0] == 'R':
            cur = {'kind': f[1], 'input': bytes.fromhex(f[2]), 'msg': bytes.fromhex(f[3]).decode('latin1') if len(f) > 3 else '', 'notes': {}}
            res['viol'].append(cur)
        elif f[0] == 'T' and cur is not None:
            cur['notes'][f[1]] = b'' if f[2] == '-' else bytes.fromhex(f[2])
        elif f[0] == 'E':
            res['log'] += l + '\n'
        elif f[0] == 'Z':
            for x in f[1:]:
                k, v = x.split('=')
                if k != 'viol': res[k] = float(v) if '.' in v else int(v)
    if 'paths' not in res:
        res['errors'] += 1
        res['paths'] = 0
        res['log'] += 'explorer ended with %d\n' % p.returncode
    return res
