"""Shared driver of the checks: scheduling, violation replay, known findings, evidence."""
import os, sys, json, time, shutil, subprocess, multiprocessing, traceback, signal, re, random, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF
NPROC = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

MAXVIOL = int(os.environ.get('VERIF_MAXVIOL', '8'))

def run_tasks(tasks, deadline_s, nproc=NPROC, total_s=None, stop=None):
    """tasks: list of (key, fn, args).  Each runs in its own forked process, killed at its deadline.
    Yields (key, ok, result): ok False with a reason when the process died or ran out of time."""
    pend = list(tasks)[::-1]
    live = []
    t_end = time.time() + total_s if total_s else None
    sys.stdout.flush()
    while pend or live:
        if stop and stop():
            for l in live:
                try: os.killpg(l[0], signal.SIGKILL)
                except OSError: pass
                os.waitpid(l[0], 0)
            return
        while pend and len(live) < nproc:
            if t_end and time.time() > t_end:
                for k, _, _ in pend:
                    yield k, False, 'not started: time budget of the tier used up'
                pend = []
                break
            k, fn, args = pend.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    out = (True, fn(*args))
                except BaseException as e:
                    out = (False, 'exception: ' + ''.join(traceback.format_exception(e))[-1500:])
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            live.append([pid, r, k, time.time() + deadline_s, b''])
        if not live:
            break
        import select
        rs, _, _ = select.select([l[1] for l in live], [], [], 0.5)
        now = time.time()
        nl = []
        for l in live:
            done = False
            if l[1] in rs:
                b = os.read(l[1], 1 << 20)
                if b:
                    l[4] += b
                else:
                    os.close(l[1])
                    os.waitpid(l[0], 0)
                    try:
                        ok, res = pickle.loads(l[4])
                    except Exception:
                        ok, res = False, 'worker died'
                    yield l[2], ok, res
                    done = True
            if not done and now > l[3]:
                try: os.killpg(l[0], signal.SIGKILL)
                except OSError: pass
                try: os.kill(l[0], signal.SIGKILL)
                except OSError: pass
                os.close(l[1])
                os.waitpid(l[0], 0)
                yield l[2], False, 'deadline of %ds reached' % deadline_s
                done = True
            if not done:
                nl.append(l)
        live = nl

class Ctx(object):
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tier, self.seed = TIER, SEED
        self.work = os.path.join(VERIF, 'build', 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, 'replays', pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.viol = []          # (key, text, replay)
        self.known_hit = []
        self.cov = {}
        self.assumptions = []
        self.undecided = []
        self.errors = []
        kf = os.path.join(VERIF, 'known_findings.json')
        self.known = {}
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e['property'] == pid and e['status'] == 'known':
                    self.known[e['key']] = e
    def quick(self):
        return self.tier != 'thorough'
    def violation(self, key, text, replay):
        if key in self.known:
            if key not in [k for k, _ in self.known_hit]:
                self.known_hit.append((key, text))
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, key, self.known[key]['what']))
            return
        if len(self.viol) >= MAXVIOL:
            return
        self.viol.append((key, text, replay))
        print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        print('  ' + key + ': ' + text[:1500].replace('\n', '\n  '))
        sys.stdout.flush()
    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def sample(self, s, n=6):
        l = self.cov.setdefault('samples', [])
        if len(l) < n:
            l.append(s)
    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = self.cov
        if self.undecided:
            cov['undecided'] = self.undecided[:200]
        cov['known_findings_seen'] = [k for k, _ in self.known_hit]
        for k, v in list(cov.items()):
            if isinstance(v, float):
                cov[k] = round(v, 3)
        ev = {'property': self.pid, 'tier': 'thorough' if self.tier == 'thorough' else 'quick', 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.viol)}
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + '.tmp', p)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.undecided:
            print('%d undecided, e.g. %s' % (len(self.undecided), str(self.undecided[0])[:700]))
        print('%s: %s in %.1fs' % (self.pid, 'VIOLATED' if self.viol else 'held', time.time() - self.t0))
        sys.stdout.flush()
        if not self.viol and self.undecided and not cov.get('held', 1):
            print('%s: nothing could be decided' % self.pid)
            sys.exit(2)
        sys.exit(1 if self.viol else 0)

# ------------------------------------------------------------------ translation validation checks
class Unit(object):
    """one C source, compiled by ucc with `flags` and by the oracle"""
    def __init__(self, name, src, flags=(), oracle='gcc', parts=None, oflags=(), opts=None, tag=''):
        self.name, self.src, self.flags, self.oracle, self.parts = name, src, list(flags), oracle, parts
        self.oflags, self.opts, self.tag = list(oflags), opts or {}, tag
    def key(self):
        return self.name + (('@' + self.tag) if self.tag else '')

def _tv_unit(u, work, ucc, replays, known):
    import tv
    out = []
    d = os.path.join(work, re.sub(r'\W', '_', u.key()))
    try:
        try:
            U, G, tests = tv.compile_pair(d, u.name, u.src, u.flags, u.oracle, u.parts, ucc, u.oflags)
        except tv.CompileFail as e:
            if e.who == 'ucc':
                # the oracle must accept it, otherwise the corpus is at fault
                try:
                    tv.sh('oracle', tv.ORACLES[u.oracle] + u.oflags + ['-fsyntax-only', u.name + '.c'], cwd=d)
                except tv.CompileFail as e2:
                    return [{'status': 'error', 'test': '*', 'what': str(e2), 'stats': {}}]
                rp = os.path.join(replays, re.sub(r'\W', '_', u.key()))
                os.makedirs(rp, exist_ok=True)
                shutil.copy(os.path.join(d, u.name + '.c'), rp)
                with open(os.path.join(rp, 'run.sh'), 'w') as f:
                    f.write('#!/bin/sh\n# exit 1 when ucc does not compile this valid program\ncd "$(dirname "$0")"\n${UCC:-%s} %s -c -o /dev/null %s.c || exit 1\n' % (
                        ucc, ' '.join(tv.UCCFLAGS + u.flags), u.name))
                return [{'status': 'violation', 'test': '*', 'what': 'valid program not compiled: ' + e.out[:600], 'replay': rp, 'confirmed': True, 'stats': {}}]
            return [{'status': 'error', 'test': '*', 'what': str(e), 'stats': {}}]
        def settle(t, r):
            if r['status'] == 'violation' and sum(x.get('confirmed', False) and '%s:%s' % (u.key(), x['test']) not in (known or ()) for x in out) >= max(3, MAXVIOL - 8):
                return None        # enough counterexamples from this unit
            if r['status'] in ('violation', 'bound', 'unsupported') and r.get('model'):
                rp = os.path.join(replays, re.sub(r'\W', '_', u.key()) + '.' + t.name)
                try:
                    ok, txt = tv.replay(d, u.name, u.src, t, r['model'], u.flags, u.oracle, u.parts, ucc, rp, u.oflags)
                except Exception as e:
                    ok, txt = False, 'replay failed: %r' % e
                r['replay'], r['confirmed'], r['replay_text'] = rp, ok, txt
                if ok:
                    if r['status'] != 'violation':
                        r['what'] = '[' + r['status'] + '] ' + str(r.get('what'))
                    r['status'] = 'violation'
                else:
                    shutil.rmtree(rp, ignore_errors=True)
                    if r['status'] == 'violation':
                        r['status'] = 'spurious'
            return r
        import x86sym
        for t in tests:
            r = settle(t, tv.check_test(U, G, t, u.opts))
            if r and r['status'] == 'spurious' and r.get('fp', True):
                x86sym.FPX = True
                try:
                    r2 = settle(t, tv.check_test(U, G, t, dict({'max_paths': 40}, **u.opts)))
                finally:
                    x86sym.FPX = False
                if r2:
                    r2['stats']['fp_exact'] = 1
                    r = r2
            if r:
                out.append(r)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_tv(ctx, units, per_unit_s=120, total_s=None):
    ucc = build.ucc()
    tasks = [(u, _tv_unit, (u, ctx.work, ucc, ctx.replays, set(ctx.known))) for u in units]
    c = ctx.cov
    slow = []
    for k in ('programs', 'functions', 'disagreements_checked', 'path_pairs', 'queries', 'held'):
        c.setdefault(k, 0)
    c.setdefault('solver_s', 0.0)
    for u, ok, res in run_tasks(tasks, per_unit_s, total_s=total_s, stop=lambda: len(ctx.viol) >= MAXVIOL):
        if not ok:
            ctx.undecided.append('%s: %s' % (u.key(), res))
            continue
        c['programs'] += 1
        for r in res:
            s = r.get("stats", {})
            slow.append((s.get("wall", 0), u.key() + ":" + str(r["test"])))
            key = '%s:%s' % (u.key(), r['test'])
            c['functions'] += 1
            c['queries'] += s.get('queries', 0)
            c['solver_s'] += s.get('solver_s', 0.0)
            cnt = r.get('cnt') or {}
            c['path_pairs'] += cnt.get('pairs', 0)
            c['disagreements_checked'] += cnt.get('pairs', 0)
            st = r['status']
            if st == 'ok':
                c['held'] += 1
                if s.get('queries'):
                    ctx.sample({'function': key, 'paths': cnt.get('pairs'), 'queries': s.get('queries'), 'solver_s': round(s.get('solver_s', 0), 3)})
            elif st == 'violation':
                if r.get('confirmed') or 'replay' not in r:
                    ctx.violation(key, '%s\n%s' % (r['what'], r.get('replay_text', '')), r.get('replay', '-'))
                else:
                    ctx.undecided.append('%s: not reproduced: %s' % (key, r['what']))
            else:
                ctx.undecided.append('%s: %s: %s %s' % (key, st, r.get('what'), r.get('replay_text', '')))
    slow.sort(reverse=True)
    c["slowest"] = ["%s %.1fs" % (k, t) for t, k in slow[:8]]
    ctx.assumptions += TV_ASSUME
    return c

TV_ASSUME = [
    'the decoder/semantics of the x86-64 subset in lib/x86sym.py (violations are replayed natively before they are reported)',
    'the oracle compiler (gcc -Os -fwrapv, or clang -O0) is right about the corpus program',
    'z3 is sound',
]
for a in ():
    pass

def corpus(name):
    return open(os.path.join(VERIF, 'corpus', name)).read()
