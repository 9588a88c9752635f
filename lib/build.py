"""Builds the code under test from /repo's working tree, outside /repo (never touches it)."""
import os, subprocess, hashlib, shutil, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, 'build')
SKIP_EXT = ('.o', '.d', '.tmp')

class BuildError(Exception):
    pass

def src_files():
    out = []
    for top in ('src', 'configure', 'lib'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(top)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if not x.startswith('.'))
            for f in sorted(fs):
                full = os.path.join(d, f)
                if f.endswith(SKIP_EXT) or f in ('cc1', 'cpp', 'ucc', 'test', 'config.custom.mk', 'config.mk') and top == 'src' and os.access(full, os.X_OK):
                    continue
                if os.path.islink(full) and not os.path.exists(full):
                    continue
                out.append(os.path.relpath(full, REPO))
    return out

def tree_hash():
    h = hashlib.sha256()
    for f in src_files():
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]

_lockf = _tree = None
def _lock():
    global _lockf
    os.makedirs(CACHE, exist_ok=True)
    _lockf = open(os.path.join(CACHE, '.lock'), 'w')
    fcntl.flock(_lockf, fcntl.LOCK_EX)

def _unlock():
    fcntl.flock(_lockf, fcntl.LOCK_UN)
    _lockf.close()

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%r failed:\n%s' % (cmd, p.stdout.decode('latin1')[-3000:]))
    return p.stdout

def env():
    e = {k: v for k, v in os.environ.items() if k not in ('CC', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'MAKEFLAGS')}
    return e

def tree():
    """copy of the sources under /verif/build/<hash>/repo; returns that directory"""
    global _tree
    if _tree: return _tree
    h = tree_hash()
    d = os.path.join(CACHE, h)
    r = os.path.join(d, 'repo')
    _lock()
    try:
        if not os.path.exists(os.path.join(d, 'copied')):
            # keep only this tree: old builds are of no further use
            for o in os.listdir(CACHE):
                p = os.path.join(CACHE, o)
                if os.path.isdir(p) and o != h and len(o) == 20:
                    shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            for f in src_files():
                t = os.path.join(r, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, f), t)
                shutil.copymode(os.path.join(REPO, f), t)
            for f in ('Makefile', 'Bootstrap.mk'):
                if os.path.exists(os.path.join(REPO, f)):
                    shutil.copyfile(os.path.join(REPO, f), os.path.join(r, f))
            open(os.path.join(d, 'copied'), 'w').close()
    finally:
        _unlock()
    _tree = d
    return d

def ucc():
    """native build (gcc, the project's own makefiles); returns the path of the driver"""
    d = tree()
    r = os.path.join(d, 'repo')
    drv = os.path.join(r, 'src/ucc/ucc')
    _lock()
    try:
        if not os.path.exists(os.path.join(d, 'native')):
            run(['./configure', 'CC=gcc'], cwd=r, env=env())
            j = '-j%d' % (os.cpu_count() or 2)
            with open(os.path.join(r, 'src/util/verif.mk'), 'w') as f:
                f.write('include Makefile\nverif-util: ${OBJ}\n.PHONY: verif-util\n')
            run(['make', j, '-C', 'src/util', '-f', 'verif.mk', 'verif-util'], cwd=r, env=env())
            for sub, tgt in (('cc1', 'cc1'), ('cpp2', 'cpp'), ('ucc', 'ucc')):
                run(['make', j, '-C', 'src/' + sub, tgt], cwd=r, env=env())
            subprocess.run(['make', '-C', 'src/rt'], cwd=r, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            open(os.path.join(d, 'native'), 'w').close()
    finally:
        _unlock()
    return drv

def bins():
    u = ucc()
    s = os.path.dirname(os.path.dirname(u))
    return {'ucc': u, 'cc1': os.path.join(s, 'cc1/cc1'), 'cpp': os.path.join(s, 'cpp2/cpp')}

if __name__ == '__main__':
    print(bins())
