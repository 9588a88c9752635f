#!/usr/bin/env python3-vt
"""check.py <property id>: decides one property on /repo's current tree."""
import sys, os, importlib
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'props')]
sys.dont_write_bytecode = True
if '--thorough' in sys.argv:
    os.environ['VERIF_TIER'] = 'thorough'
    sys.argv.remove('--thorough')
import harness
pid = sys.argv[1]
m = importlib.import_module(pid.lower())
ctx = harness.Ctx(pid, m.LEVEL)
m.run(ctx)
ctx.finish()
