#!/usr/bin/env python3
"""addfix.py PROP 'what failed' [commit]: records a repaired defect."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
c = sys.argv[3] if len(sys.argv) > 3 else 'HEAD'
h, s = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', c], capture_output=True, text=True).stdout.strip().split(' ', 1)
d.append({'property': sys.argv[1], 'status': 'fixed', 'key': s, 'commit': h, 'what': 'fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2])})
json.dump(d, open(p, 'w'), indent=1)
