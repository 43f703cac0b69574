#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [-v] [--only REGEX]   |   check.py --selftest"""
import sys, os, re, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
if '--selftest' in sys.argv:
    import shutil, table
    need = ['clang++-18', 'opt-18', 'llvm-cxxfilt-18', 'kissat', 'cadical', 'minisat']
    miss = [t for t in need[:3] if not shutil.which(t)]
    sat = [t for t in need[3:] if shutil.which(t)]
    print('tools missing:', miss, 'SAT solvers:', sat)
    sys.exit(1 if miss or not sat else 0)
import run, table
ap = argparse.ArgumentParser()
ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('-v', action='store_true'); ap.add_argument('--only'); ap.add_argument('-j', type=int, default=8)
a = ap.parse_args()
cases, meta = table.get(a.pid)
if a.only: cases = [c for c in cases if re.search(a.only, c.name)]
sys.exit(run.check(a.pid, cases, meta, a.tier if a.tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1), a.j, a.v))
