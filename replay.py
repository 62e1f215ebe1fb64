#!/usr/bin/env python3-vt
"""replay.py FILE: run the failing session of a replay file against /repo's current tree."""
import sys, os, json
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(V,'conc'))
import harness, oracle
d=json.load(open(sys.argv[1]))
if 'session' not in d: print(json.dumps(d,indent=1)[:20000]); sys.exit(0)
b,_=harness.build(); r=harness.Worker(b).ask(d['session'])
m=[x for x in oracle.judge(d['session'],r) if x[0]==d['property']]
print(json.dumps(d['session'])); print(json.dumps(r)); print(m); sys.exit(1 if m else 0)
