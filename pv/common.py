"""Shared plumbing: running the real code in a scratch directory, results, paths."""
import json, os, subprocess, shutil, tempfile, time, random, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYBOX_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
PY = '/opt/venv/bin/python'

class WorkerFailure(Exception):
    pass

def dec(x):
    if isinstance(x, dict):
        if '__nd__' in x:
            import numpy as np
            v = [dec(i) for i in x['d']]
            try:
                return np.array(v).reshape(x['__nd__'])
            except Exception:
                return v
        if '__f__' in x:
            return float('nan') if x['__f__'] in ('nan', 'complex') else float(x['__f__'])
        if '__dict__' in x:
            return {_h(dec(k)): dec(v) for k, v in x['__dict__']}
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x
def _h(k):
    return tuple(k) if isinstance(k, list) else k

def _run(jobs, timeout):
    d = tempfile.mkdtemp(prefix='pyboxv.')
    try:
        os.mkdir(d + '/w')
        json.dump(jobs, open(d + '/jobs.json', 'w'))
        env = {'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', 'HOME': d, 'TMPDIR': d, 'PYTHONDONTWRITEBYTECODE': '1',
               'OMP_NUM_THREADS': '4', 'PYTHONHASHSEED': '0', 'MPLCONFIGDIR': d, 'LANG': 'C.UTF-8'}
        env.update(jobs[0].get('env', {}) if jobs else {})
        p = subprocess.Popen([PY, VERIF + '/replay/worker.py', REPO, d + '/w', d + '/jobs.json', d + '/out.json'], cwd=d + '/w', env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            so, se = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate()
            so, se = '', 'timeout after %ss' % timeout
        res = []
        if os.path.exists(d + '/out.json'):
            try:
                res = [dec(o) for o in json.load(open(d + '/out.json'))]
            except ValueError:
                res = []
        while len(res) < len(jobs):
            res.append({'ok': False, 'error': 'worker died: ' + se[-1500:], 'died': True})
            break
        if len(res) < len(jobs):      # run the rest in a new process
            rest = jobs[len(res):]
            res += _run(rest, timeout)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_jobs(jobs, procs=6, timeout=240):
    """Answers in the order of jobs. Jobs are spread over processes."""
    if not jobs:
        return []
    n = min(procs, len(jobs))
    parts = [list(range(i, len(jobs), n)) for i in range(n)]
    out = [None] * len(jobs)
    with ThreadPoolExecutor(n) as ex:
        for idx, res in zip(parts, ex.map(lambda ix: _run([jobs[i] for i in ix], timeout), parts)):
            for i, r in zip(idx, res):
                out[i] = r
    return out

def close(a, b, rel=1e-9, ab=0.0):
    if a is None or b is None:
        return False
    if a != a or b != b:
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))
