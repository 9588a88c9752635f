#!/usr/bin/env python3
import json,sys
d=json.load(open('evidence/%s.json'%sys.argv[1]))
for u in d['coverage'].get('undecided',[]): print(u[:int(sys.argv[2]) if len(sys.argv)>2 else 200].replace('\n',' '))
print(d['coverage']['slowest'], d['coverage']['held'], d['coverage']['functions'])
