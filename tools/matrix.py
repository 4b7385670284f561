#!/usr/bin/env python3
"""Run the quick check of each planted bug's property against it; write a table.
usage: matrix.py OUT [id...]   (env J: how many at once, SEED)"""
import json, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
def one(i):
    d = f'{V}/seeded/{i}'
    m = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='matrix.')
    try:
        shutil.copytree('/repo', t + '/repo', symlinks=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t + '/repo', check=True)
        os.mkdir(t + '/v')
        shutil.copytree(V + '/harness', t + '/v/harness')
        shutil.copy(V + '/run.sh', t + '/v')
        e = dict(os.environ, VERIF_REPO=t + '/repo', VERIF_SEED=os.environ.get('SEED', '1'))
        r = subprocess.run([t + '/v/run.sh', m['property'], 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = r.stdout.decode('utf8', 'replace')
        st = sorted(set(re.findall(r': stage ([\w-]+) case', txt)))
        print(i, r.returncode, st, flush=True)
        return i, m, r.returncode, st
    finally:
        shutil.rmtree(t)
with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    rows = list(ex.map(one, ids))
json.dump([(i, m, rc, st) for i, m, rc, st in rows], open(out, 'w'), indent=1)
