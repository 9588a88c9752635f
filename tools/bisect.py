#!/usr/bin/env python3-vt
"""bisect.py ID unit: which functions of a unit ucc does not compile (development aid)"""
import sys, os, importlib, subprocess, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [d + '/lib', d + '/props']
import harness, tv, build
m = importlib.import_module(sys.argv[1].lower())
class C: tier = harness.TIER; quick = lambda s: harness.TIER != 'thorough'; seed = 1
for u in m.units(C()):
    if u.key() != sys.argv[2]: continue
    ls = u.src.split('\n')
    # blocks: TEST line .. up to next TEST; everything else common
    blocks = []; i = 0; common = []
    while i < len(ls):
        if ls[i].startswith('TEST'):
            blocks.append((i, i + 1)); i += 2
        else: i += 1
    for b in blocks:
        drop = {k for x in blocks if x != b for k in range(x[0], x[1] + 1)}
        src = '\n'.join('' if k in drop else l for k, l in enumerate(ls))
        open('/tmp/w/b.c', 'w').write(tv.PRELUDE + src)
        for who, cmd in (('ucc', [build.ucc()] + tv.UCCFLAGS + u.flags), ('gcc', tv.ORACLES['gcc'] + u.oflags)):
            p = subprocess.run(cmd + ['-c', '-o', '/dev/null', '/tmp/w/b.c'], capture_output=True, text=True)
            if p.returncode: print(who, ls[b[0]], ls[b[0] + 1], '\n', p.stderr[:600])
