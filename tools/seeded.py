"""Runs every check on a copy of /repo with each planted bug; records which checks catch which (tools/seeded_results.json)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = sorted(f[:-3] for f in os.listdir(V + '/sa/props') if f[0] != '_' and f.endswith('.py'))
rp = V + '/tools/seeded_results.json'
res = json.load(open(rp)) if os.path.exists(rp) else {}
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))


def one(a):
    d, repo, work, p = a
    r = subprocess.run([sys.executable, work + '/sa/check.py', p], env=dict(os.environ, SIMIM_REPO=repo), capture_output=True, text=True)
    return p if r.returncode == 1 else p + '(broken)' if r.returncode else None


with tempfile.TemporaryDirectory() as t, ThreadPoolExecutor(8) as ex:
    os.makedirs(t + '/v')
    shutil.copytree(V + '/sa', t + '/v/sa'); shutil.copy(V + '/known-findings.txt', t + '/v')
    for d in ids:
        repo = t + '/' + d
        os.makedirs(repo); shutil.copytree('/repo/simim', repo + '/simim')
        r = subprocess.run(['git', 'apply', '--include=simim/*', V + '/seeded/' + d + '/patch.diff'], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            print('DOES NOT APPLY', d, r.stderr[:200]); continue
        res[d] = [x for x in ex.map(one, [(d, repo, t + '/v', p) for p in P]) if x]
        print(d, res[d], flush=True)
res = {k: v for k, v in res.items() if os.path.isdir(V + '/seeded/' + k)}
json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
