#!/usr/bin/env python3
"""run the checks of the properties of planted bugs against patched scratch copies (development aid)"""
import sys, os, json, subprocess, tempfile, shutil, glob
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = f'/verif/seeded/{i}'; w = tempfile.mkdtemp(prefix='catch')
    try:
        subprocess.run(f'cp -a /repo/include {w}/ && cd {w} && git init -q . && git apply {d}/patch.diff', shell=True, check=True)
        p = json.load(open(f'{d}/meta.json'))['property']
        r = subprocess.run(['python3', '/verif/check.py', p], env=dict(os.environ, VF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(i, p, 'exit', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'proved' in l][-2:], flush=True)
    finally: shutil.rmtree(w)
