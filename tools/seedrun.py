#!/usr/bin/env python3
"""Run the checks against planted bugs in a scratch copy: seedrun.py [-a] [ID ...]

By default only the check of the bug's own property; -a runs every check.  Prints which check caught what.
The scratch copies live under /tmp and are removed.
"""
import json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'
FIX = '/verif/seeded_on_fixes'
args = sys.argv[1:]
alls = '-a' in args
args = [a for a in args if a != '-a']
ids = args or sorted(os.listdir(SEED)) + sorted(os.listdir(FIX))
def folder(i): return next(d + '/' + i for d in (SEED, FIX) if os.path.isdir(d + '/' + i))
props = ['C%02d' % i for i in range(1, 29)]

def one(i):
    d = '/tmp/seedrun/' + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/seedrun', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    subprocess.run(['git', 'apply', folder(i) + '/patch.diff'], cwd=d, check=True)
    p = json.load(open(folder(i) + '/meta.json'))['property']
    res = {}
    for c in (props if alls else [p]):
        t = time.time()
        r = subprocess.run(['python3', '/verif/check.py', c, '--tier', 'quick', '--repo', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        v = 'VIOLATION property=' + c in r.stdout
        res[c] = ('caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode, round(time.time() - t, 1), r.stdout[-300:])
    shutil.rmtree(d, ignore_errors=True)
    return i, p, res

for i in ids:
    i, p, res = one(i)
    print(i, p, res[p][0], res[p][1], 's', ('others: ' + ' '.join(c for c in res if c != p and res[c][0] != 'MISSED')) if alls else '', flush=True)
    if res[p][0].startswith('rc'):
        print(res[p][2])
