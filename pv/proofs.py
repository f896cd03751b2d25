"""Registry of proof obligations per property: which verification jobs decide it, run in parallel processes."""
import os, sys, json, time, subprocess
from concurrent.futures import ThreadPoolExecutor
from .common import VERIF

class Ob:
    def __init__(self, name, status, backend='', time=0.0, detail='', where=''):
        self.name, self.status, self.backend, self.time, self.detail, self.where = name, status, backend, time, detail, where
class Result:
    def __init__(self):
        self.obligations, self.functions, self.assumptions, self.trusted, self.bounded, self.vacuity, self.witness = [], [], [], [], [], [], []

class Job:
    """module.function(*args) must return dict(label, vcs=[(name, status, seconds, detail, backend)], functions, oor, covers)"""
    def __init__(self, mod, fn, *args, timeout=420, where=''):
        self.mod, self.fn, self.args, self.timeout, self.where = mod, fn, list(args), timeout, where

def runjob(j, end=None):
    t = time.time()
    left = min(j.timeout, end - t) if end else j.timeout
    if left < 5: return j, dict(label='%s.%s%s' % (j.mod, j.fn, j.args), vcs=[], functions=[], covers={}, oor='no time left for this obligation', wall=0)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    p = subprocess.Popen(['python3-vt', '-m', 'pv.job', json.dumps([j.mod, j.fn, j.args])], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        so, se = p.communicate(timeout=left)
        ls = [l for l in so.splitlines() if l.startswith('@@')]
        if ls: r = json.loads(ls[-1][2:])
        else: r = dict(vcs=[], oor='verifier process ended: ' + se[-400:])
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        r = dict(vcs=[], oor='time limit of %d s' % left)
    r.setdefault('label', '%s.%s%s' % (j.mod, j.fn, j.args)); r.setdefault('functions', []); r.setdefault('covers', {})
    r['wall'] = time.time() - t
    return j, r

REG = {}        # property -> (function(tier) -> [Job], assumptions, trusted, bounded)
def collect(prop, tier='quick'):
    from . import registry
    return registry.jobs(prop, tier)

BUDGET = dict(quick=480, thorough=5400)
def run(prop, tier='quick', budget=None):
    res = Result()
    jobs, res.assumptions, res.trusted, res.bounded = collect(prop, tier)
    if not jobs: return res
    end = time.time() + (budget or BUDGET[tier])
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(lambda j: runjob(j, end), jobs))
    for j, r in out:
        cnt = {}
        for name, status, secs, detail, backend in r['vcs']:
            cnt[name] = cnt.get(name, 0) + 1
            res.obligations.append(Ob('%s #%d' % (name, cnt[name]), status, backend, secs, detail, r.get('where', '')))
        if r.get('oor'): res.obligations.append(Ob('%s: verified to the end' % r['label'], 'undecided', '-', 0, r['oor']))
        elif not r['vcs']: res.obligations.append(Ob('%s: has obligations' % r['label'], 'undecided', '-', 0, 'no obligation was generated'))
        for f in r['functions']:
            if f not in res.functions: res.functions.append(f)
        for k, v in r['covers'].items():
            res.vacuity.append(dict(case=r['label'], cover=k, reached=bool(v)))
            if not v and not r.get('oor'): res.obligations.append(Ob('%s: not vacuous (%s)' % (r['label'], k), 'undecided', '-', 0, 'cover not reached'))
        res.witness += r.get('witness') or []
        for k in ('assumed',):
            for a in r.get(k, []):
                if a not in res.assumptions: res.assumptions.append(a)
    return res
