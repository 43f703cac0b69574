#!/usr/bin/env python3
"""replay.py REPLAY.json : rebuild the harness natively against /repo and run the recorded inputs"""
import sys, json, tempfile, shutil
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import run
d = json.load(open(sys.argv[1]))
if not d.get('confirmed'):
    print(json.dumps(d, indent=1)); sys.exit(0)
c = run.Case(d['src'], d['root'], d['params'], d['std'], d['defs'])
t = tempfile.mkdtemp()
try:
    bad, out = run.native_replay(c, d['inputs'], t)
    print(out); sys.exit(1 if bad else 0)
finally: shutil.rmtree(t)
