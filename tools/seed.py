#!/usr/bin/env python3
"""seed.py ID PROPERTY 'needs' 'breaks' FILE <<< JSON? -- create and confirm a planted bug.
usage: seed.py spec.py   where spec.py defines ID, PROP, NEEDS, BREAKS, FILE, OLD, NEW, DEMO (C++ main) [STD]"""
import sys, os, subprocess, json, shutil, tempfile
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(spec):
    g = {}; exec(open(spec).read(), g)
    for s in g['SEEDS']: one(s)
def one(s):
    d = f"/verif/seeded/{s['id']}"
    w = tempfile.mkdtemp(prefix='seed'); 
    try:
        sh(f'cp -a /repo {w}/repo'); r = f'{w}/repo'
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        for f, o, n in edits:
            p = f'{r}/include/ipaddress/{f}'; t = open(p).read()
            assert t.count(o) == 1, (s['id'], f, t.count(o))
            open(p, 'w').write(t.replace(o, n))
        diff = sh('git diff', cwd=r).stdout
        base = sh("git diff dd8d7e8 HEAD -- include", cwd='/repo').stdout
        added = {l[1:].strip() for l in base.splitlines() if l.startswith('+') and len(l.strip()) > 8}
        bad = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip() in added]
        if bad: print(s['id'], 'TOUCHES OWN LINES', bad); 
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.cpp', 'w').write('#include <ipaddress/ipaddress.hpp>\n#include <cstdio>\n#include <sstream>\n#include <string>\nusing namespace ipaddress;\n#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)\n' + s.get('pre', '') + '\nint main() {\n' + s['demo'] + '\n    return 0;\n}\n')
        std = s.get('std', 'c++20')
        open(f'{d}/demo.sh', 'w').write(f'#!/bin/sh\nset -e\nt=$(mktemp -d)\ntrap "/bin/rm -rf $t" EXIT\ng++ -std={std} -O1 -I include "$(dirname "$0")/demo.cpp" -o "$t/demo"\ntimeout 60 "$t/demo"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        a = sh(f'sh {d}/demo.sh', cwd='/repo'); b = sh(f'sh {d}/demo.sh', cwd=r)
        # existing tests, in the persistent scratch copy /tmp/seedrepo (build scripts with the path replaced)
        R = '/tmp/seedrepo'
        if not os.path.isdir(R): sh(f'git clone -q /repo {R}')
        sh('git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD', cwd=R)
        for k in ('build', 'test'): open(f'/tmp/seed_{k}.sh', 'w').write(open(f'/opt/vp/{k}.sh').read().replace('/repo', R).replace('/opt/vp/build.sh', '/tmp/seed_build.sh'))
        q = sh(f'git apply {d}/patch.diff', cwd=R); assert q.returncode == 0, q.stdout
        sh('bash /tmp/seed_build.sh; bash /tmp/seed_test.sh /tmp/seed_t.json')
        sh('git checkout -q -- .', cwd=R)
        want = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got = set(json.load(open('/tmp/seed_t.json'))['passed'])
        miss = sorted(want - got); t = f'missing {len(miss)} {miss[:3]}'
        print(s['id'], 'clean', a.returncode, a.stdout[-200:], 'patched', b.returncode, b.stdout[-200:].strip(), '|', t, flush=True)
        if a.returncode or not b.returncode or 'missing 0' not in t: shutil.rmtree(d); print('  DROPPED')
    finally: shutil.rmtree(w)
main(sys.argv[1])
