#!/usr/bin/env python3-vt
"""one.py ID unitname[@tag] [test]: run one unit of a property, print everything (development aid)"""
import sys, os, importlib
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [d + '/lib', d + '/props']
import harness, tv, build
m = importlib.import_module(sys.argv[1].lower())
class C: tier = harness.TIER; quick = lambda s: harness.TIER != 'thorough'; seed = 1
for u in m.units(C()):
    if u.key() != sys.argv[2]: continue
    U, G, ts = tv.compile_pair('/tmp/w/one', u.name, u.src, u.flags, u.oracle, u.parts, build.ucc(), u.oflags)
    for t in ts:
        if len(sys.argv) > 3 and t.name != sys.argv[3]: continue
        r = tv.check_test(U, G, t, u.opts)
        print(t.name, r['status'], r.get('what'), r.get('model'), r['stats'])
        if len(sys.argv) > 3:
            os.system("objdump -d --no-show-raw-insn /tmp/w/one/%s.u.elf | awk '/<%s>:/,/^$/'; objdump -d --no-show-raw-insn /tmp/w/one/%s.g.elf | awk '/<%s>:/,/^$/'" % (u.name, t.name, u.name, t.name))
            if r.get('model'):
                print(tv.replay('/tmp/w/one', u.name, u.src, t, r['model'], u.flags, u.oracle, u.parts, build.ucc(), '/tmp/w/rp', u.oflags))
