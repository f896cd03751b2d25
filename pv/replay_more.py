"""Concrete replay of C12-C21 on the real code."""
import random, math, json
import numpy as np
from .common import run_jobs, close, SEED

def arr(x):
    return np.array(x, dtype=float)

def same(a, b, rel=1e-9, ab=0.0):
    a, b = arr(a).ravel(), arr(b).ravel()
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= ab + rel * np.maximum(np.abs(a), np.abs(b))))

# ---- solvers: C14, C15, C16 -------------------------------------------------------------------
CF = 2.55e10

def solver_jobs(seed, n, variants=('gas', 'f2py', 'aerosol', 'fixed')):
    rng = random.Random(seed * 29 + 1)
    jobs = []
    for v in variants:
        for i in range(n):
            N = rng.choice([3, 5, 8, 12]); E = rng.choice([1, 4, 9])
            ro2 = [[], [0], sorted(rng.sample(range(N), min(N, 3))), list(range(N - 1))][i % 4]
            batch = [300.0, 100.0, 60.0, 0.1, 0.3, 7.0, 3600.0, 450.5, 300, 60][i % 10]
            mult = [4, 1, 2.5, 3.0000001, 7, 10.2, 12, .4, 30, 3][(i // 2 + i) % 10]
            sim = batch * mult
            if i == 3: batch, sim = 0.1, 0.3
            if i == 4: batch, sim = 0.1, 0.7
            if i == 5: batch, sim = 0.7, 4.9
            names = ['S%d' % k for k in range(N)]
            init = {x: rng.choice([1.0, 18.0, 30.5, 0.02, 3e-11, 1.7e-10, 0.0]) for x in rng.sample(names, rng.randint(0, min(4, N)))}
            j = dict(op='solver', variant=v, n=N, e=E, ro2=ro2, init=sorted(init.items()), start=[0.0, 3600.0, 43200.0, 12 * 3600 + 77.5, 86000.0][i % 5], name='M%d' % i, save=i % 3 != 2, sim=sim, batch=batch)
            if v in ('aerosol', 'fixed'):
                j['bins'] = [1, 4, 2, 3][i % 4]
                j['include'] = sorted(rng.sample(range(N - 1), min(N - 1, rng.choice([1, 2, 4])))) + [N - 1]
                j['ro2'] = [x for x in ro2 if x < N - 1]
                if v == 'aerosol':
                    j['init'] = j['init'] if i % 2 else j['init'] + [('WATER', 2.5e17)]
                    j['dynamic_name'] = bool(i % 2)
            jobs.append(j)
    return jobs

def psat(sat, T):
    w = math.exp(-0.58002206E4 / T + 0.13914993E1 - 0.48640239E-1 * T + 0.41764768E-4 * T ** 2 - 0.14452093E-7 * T ** 3 + 0.65459673E1 * math.log(T))
    s = list(sat); s[-1] = math.log10(w * 9.86923E-6)
    return [10 ** x for x in s]

def check_solver(j, r):
    """Yields (property, problem)."""
    def bad(what, **k):
        d = dict(what=j['variant'] + ' solver: ' + what, job={k2: v for k2, v in j.items()}); d.update(k); return d
    if not r['ok']:
        for p in ('C14', 'C15', 'C16'):
            yield p, bad('run_simulation raised an error', error=r.get('error'), tb=r.get('tb'))
        return
    v = r['value']; N, E = j['n'], j['e']; aero = j['variant'] in ('aerosol', 'fixed'); gas = j['variant'] != 'fixed'
    A, B = arr(v['A']), arr(v['B']); h2o, temp = v['h2o'], v['temp']; ro2 = j['ro2']
    ng = N - 1 if aero else N
    d, s = float(j['batch']), float(j['start'])
    ex = v.get('extra')
    k = -1; cur = None; rate_tods = []; part = None
    e = np.arange(E)
    ends, starts = [], []
    for ev in v['log']:
        kind = ev['kind']
        if kind == 'batch':
            k += 1; starts.append(arr(ev['y0']))
            if not close(ev['dt'], d, 1e-12) or ev['t0'] != 0.0:
                yield 'C16', bad('batch %d is integrated over %r from %r' % (k, ev['dt'], ev['t0']))
            if j['variant'] in ('gas', 'f2py') and not (ev['hasjac'] and ev['usejac']):
                yield 'C14', bad('the solver is not given the Jacobian')
        elif kind == 'call':
            cur = ev; rate_tods = []; part = None
        elif kind == 'rates':
            rate_tods.append(ev)
        elif kind == 'partition':
            part = ev['args']
        elif kind == 'end':
            ends.append(arr(ev['y']))
        elif kind == 'result':
            y = arr(cur['y']); t = cur['t']; tod = s + k * d + t
            if ev['mutated']:
                yield 'C14', bad('%s changes the state it is given' % cur['which'])
            if gas:
                for q in rate_tods:
                    if not abs(math.remainder(q['tod'] - tod, 86400)) <= 1e-12 * abs(tod) + 1e-7:     # the same time of day (C09)
                        yield 'C15', bad('%s in batch %d at t=%r uses time of day %r, not %r' % (cur['which'], k, t, q['tod'], tod), batch=k, t=t, which=cur['which'])
                if not rate_tods:
                    yield 'C15', bad('%s does not evaluate rate coefficients' % cur['which'])
            R2 = float(np.sum(y[np.array(ro2, dtype=int)])) if gas else 0.0
            rates = 1e-3 * (e + 1.0) * (1 + 0.3 * np.sin(2 * np.pi * tod / 86400)) + 1e-5 * R2 * (e + 2) + 1e-20 * h2o * (E - e) + 1e-4 * temp * (1 + e % 2)
            val = arr(ev['value']).ravel()
            if cur['which'] == 'rhs':
                exp = np.zeros(len(y))
                if gas:
                    yg = y[:ng]
                    exp[:ng] += A[:ng] @ ((B[:, :ng] @ yg + 0.5) * rates)
                if aero:
                    cg = y[np.array(j['include'], dtype=int)]
                    exp += 1e-3 * (np.arange(len(y)) + 1.0) + 1e-2 * np.cos(y) + 1e-4 * float(np.sum(cg))
                    if part is None:
                        yield 'C14', bad('the partitioning code is not called')
                    else:
                        T = temp
                        want = dict(y=y, ycore=ex['ycore_asnumpy'], core_diss=ex['core_dissociation'], core_mass_array=arr(ex['ycore_asnumpy']) / ex['NA'] * arr(ex['core_molw_asnumpy']), density_input=ex['y_density_array_asnumpy'],
                                    core_density_array=ex['core_density_array_asnumpy'], ignore_index=ex['ignore_index_fortran'], mw_array=ex['y_mw'], Psat=psat(list(arr(ex['sat_vp'])), T), DStar_org=ex['DStar_org_asnumpy'], alpha_d_org=ex['alpha_d_org_asnumpy'],
                                    C_g_i_t=cg, N_perbin=ex['N_perbin'], gamma_gas=ex['gamma_gas_asnumpy'], Latent_heat=ex['Latent_heat_asnumpy'], sigma=ex['sigma'], NA=ex['NA'], R_gas=ex['R_gas'], Model_temp=T)
                        for q, w in want.items():
                            if q not in part or not same(part[q], w, 1e-9):
                                yield 'C14', bad('partitioning is given a wrong %s' % q, expected=arr(w).ravel().tolist()[:8], got=arr(part.get(q, [])).ravel().tolist()[:8], batch=k, t=t); break
                if not same(val, exp, 1e-9, 1e-12):
                    yield 'C14', bad('right-hand side differs (batch %d, t=%r)' % (k, t), expected=exp.tolist()[:12], got=val.tolist()[:12], y=y.tolist()[:12])
            else:
                exp = np.outer(A.sum(1)[:len(y)], y) * 1e-3 + (A @ rates)[:len(y), None]
                if not same(val, exp, 1e-9, 1e-12):
                    yield 'C14', bad('Jacobian differs (batch %d, t=%r)' % (k, t))
    nb = math.ceil(round(j['sim'] / d, 9))
    if len(starts) != nb or len(ends) != nb:
        yield 'C16', bad('%d batches instead of %d' % (len(starts), nb))
    # first state
    if j['variant'] == 'fixed':
        exp0 = np.concatenate([arr(ex['y_gas_initial']), arr(ex['y_cond_initial'])])
    else:
        exp0 = np.zeros(N + (len(j['include']) * j['bins'] if aero else 0))
        init = v['init'] if 'init' in v else dict(map(tuple, j['init']))
        for n_, c in init.items():
            exp0[v['s2a'][n_]] = c if (aero and n_ == 'H2O') else c * CF
        if aero: exp0[N:] = arr(ex['y_cond_initial'])
    if starts and not same(starts[0], exp0, 1e-12):
        yield 'C16', bad('first batch does not start from the initial concentrations', expected=exp0.tolist()[:20], got=starts[0].tolist()[:20])
    for i in range(1, min(len(starts), len(ends) + 1)):
        if not same(starts[i], ends[i - 1], 0.0):
            yield 'C16', bad('batch %d does not start where batch %d ended' % (i, i - 1))
    E_ = np.array(ends) if ends else np.zeros((0, 0))
    T_ = [d * (i + 1) for i in range(nb)]
    for kk in ('y_matrix', 'saved_y', 'csv_y'):
        if kk in v and not (arr(v[kk]).shape == E_.shape and same(v[kk], E_, 1e-9)):
            yield 'C16', bad('%s does not hold the final state of each batch' % kk, expected_rows=nb, got_shape=list(arr(v[kk]).shape))
    for kk in ('t_array', 'saved_t'):
        if kk in v and not same(v[kk], T_, 1e-9):
            yield 'C16', bad('%s does not hold the end times' % kk, expected=T_[:10], got=list(v[kk])[:10])
    if 'csv_names' in v:
        got = {x[0]: int(x[1]) for x in v['csv_names'] if len(x) == 2}
        if got != v['s2a']:
            yield 'C16', bad('the names file does not match the positions', expected=v['s2a'], got=got)
    if aero and j['save'] and j['variant'] in ('aerosol', 'fixed'):
        soa = [7.0] * nb
        if 'saved_SOA' in v:
            g = arr(v['saved_SOA']).ravel()
            if len(g) != nb:
                yield 'C16', bad('saved SOA mass has %d rows for %d batches' % (len(g), nb))
        if 'saved_size' in v and arr(v['saved_size']).shape != (nb, j['bins']):
            yield 'C16', bad('saved sizes have shape %s' % (arr(v['saved_size']).shape,))

_solver = {}
def solvers(seed=SEED, n=10):
    if (seed, n) in _solver: return _solver[(seed, n)]
    jobs = solver_jobs(seed, n)
    out = {'C14': [], 'C15': [], 'C16': []}; ev = 0
    for j, r in zip(jobs, run_jobs(jobs)):
        if r['ok']: ev += sum(1 for x in r['value']['log'] if x['kind'] == 'result')
        for p, b in check_solver(j, r):
            if len(out[p]) < 20: out[p].append(b)
    _solver[(seed, n)] = (out, ev, [jobs[0]])
    return _solver[(seed, n)]
def c14(seed=SEED, n=10): o, e, s = solvers(seed, n); return o['C14'], e, s
def c15(seed=SEED, n=10): o, e, s = solvers(seed, n); return o['C15'], e, s
def c16(seed=SEED, n=10): o, e, s = solvers(seed, n); return o['C16'], e, s

# ---- C17 --------------------------------------------------------------------------------------
def c17(seed=SEED, n=80):
    rng = random.Random(seed * 31 + 2)
    ps = [[8, 100.0, 0.2, 2.2, 0.01, 1.0], [1, 10.0, .2, 2.0, .1, .1], [2, 1.0, .1, 1.5, .05, .5], [16, 1000.0, .15, 1.7, .005, 2.0], [100, 250.0, .2, 2.2, .01, 1.]]
    ps += [[rng.randint(1, 60), 10 ** rng.uniform(-1, 5), 10 ** rng.uniform(-2, .3), rng.uniform(1.1, 3), 10 ** rng.uniform(-3, -1.3), 10 ** rng.uniform(-1.2, 1)] for _ in range(n)]
    def seen(p):      # the densities of all bins may not vanish in double precision
        x = np.exp(np.linspace(math.log(p[4]), math.log(p[5]), p[0]))
        return max(-(np.log(x) - math.log(p[2])) ** 2 / (2 * math.log(p[3]) ** 2)) > -600
    ps = [p for p in ps if seen(p)]
    r = run_jobs([dict(op='lognormal', params=ps)])[0]
    out = []
    if not r['ok']:
        return [dict(what='lognormal raised an error', error=r.get('error'), tb=r.get('tb'), params=ps)], 0, []
    for p, (nb, x) in zip(ps, r['value']):
        k, tot, mean, std, lo, hi = p
        nb, x = arr(nb).ravel(), arr(x).ravel()
        def b(what, **kw): out.append(dict(what=what, params=p, **kw))
        if len(nb) != k or len(x) != k: b('number of bins', got=[len(nb), len(x)]); continue
        if not np.all(nb >= 0) or not np.all(np.isfinite(nb)): b('negative or undefined bin number', got=nb.tolist())
        if not close(float(nb.sum()), tot, 1e-9): b('total number', expected=tot, got=float(nb.sum()))
        if k == 1: continue
        if not np.all(np.diff(x) > 0): b('sizes do not increase', got=x.tolist())
        ld = np.diff(np.log(x))
        if not np.allclose(ld, ld.mean(), rtol=1e-7): b('sizes are not evenly spaced in the logarithm', got=x.tolist())
        if not (close(x[0], lo, 1e-9) and close(x[-1], hi, 1e-9)): b('sizes do not run from the lower to the upper bound', expected=[lo, hi], got=[x[0], x[-1]])
        # density per size with median mean and geometric standard deviation std
        xs = np.exp(np.linspace(math.log(lo), math.log(hi), k))
        dens = np.exp(-(np.log(xs) - math.log(mean)) ** 2 / (2 * math.log(std) ** 2)) / xs
        if dens.sum() > 0:
            exp = dens / dens.sum() * tot
            if not np.allclose(nb, exp, rtol=1e-6, atol=1e-12 * tot): b('bin numbers are not in proportion to the log-normal density', expected=exp.tolist()[:6], got=nb.tolist()[:6])
    return out, len(ps), [dict(params=ps[0], numbers=arr(r['value'][0][0]).tolist())]

# ---- C18 --------------------------------------------------------------------------------------
def c18(seed=SEED, n=60):
    rng = random.Random(seed * 37 + 3)
    cases = []
    for i in range(n):
        N = rng.choice([1, 2, 4, 7, 12])
        names = ['SP%d' % k for k in range(N)]; rng.shuffle(names)
        order = list(enumerate(names)); 
        if i % 3 == 0: rng.shuffle(order)
        smi = [(x, 'C' * (1 + k % 9) + 'O' * rng.randint(0, 4) + 'N' * rng.randint(0, 3)) for k, x in enumerate(names) if rng.random() < [.7, 1.0, .3, 0.9][i % 4]]
        if i % 5 == 4: smi = smi + [('UNRELATED', 'CCCN')]
        rng.shuffle(smi)
        cut = -6.0
        vps = {}
        for x, s in smi:
            if rng.random() < .7: vps[s] = rng.choice([cut, cut - 1e-9, cut + 1e-9, cut - 3, cut + 3, -12.0, 0.0])
        cases.append(dict(species_dict=order, smiles=smi, temp=298.15, vp=['nannoolal', 'myrdal_and_yalkowsky', 'evaporation'][i % 3], bp=['joback_and_reid', 'stein_and_brown', 'nannoolal'][(i // 3) % 3], crit=['nannoolal', 'joback_and_reid'][i % 2],
                          dens=['girolami', 'schroeder', 'le_bas', 'tyn_and_calus'][i % 4], ignore_vp=bool((i // 2) % 2), cutoff=cut, vps=vps))
    r = run_jobs([dict(op='pure1', cases=cases)])[0]
    out = []
    if not r['ok']:
        return [dict(what='harness could not run Pure_component1', error=r.get('error'), tb=r.get('tb'))], 0, []
    for c, a in zip(cases, r['value']):
        def b(what, **k): out.append(dict(what=what, case=c, **k))
        if 'error' in a: b('Pure_component1 raised an error', error=a['error'], tb=a.get('tb')); continue
        q = {k: [float(z) for z in arr(x).ravel()] if not np.isscalar(x) else x for k, x in a['r'].items()}; exp = {int(k): x for k, x in a['exp'].items()}
        N = len(c['species_dict'])
        inc_e = sorted(i for i in exp if not (c['ignore_vp'] and exp[i]['vp'] > c['cutoff']))
        ign_e = sorted(set(range(N)) - set(inc_e))
        try:
            inc, ign = [int(x) for x in q['include_index']], [int(x) for x in q['ignore_index']]
        except KeyError as k:
            b('result has no %s' % k); continue
        if sorted(inc) != inc_e: b('include set', expected=inc_e, got=sorted(inc))
        if sorted(ign) != ign_e: b('ignore set', expected=ign_e, got=sorted(ign))
        mask = q.get('ignore_index_fortran')
        if mask is not None and mask != [1.0 if i in ign_e else 0.0 for i in range(N)]: b('ignore mask', expected=ign_e, got=mask)
        keys = {'y_density_array': 'dens', 'y_mw': 'mw', 'sat_vp': 'vp', 'o_c': 'oc', 'h_c': 'hc'}
        for k, f in keys.items():
            if len(q.get(k, [])) != N: b('%s has %d entries' % (k, len(q.get(k, []))), species=N); continue
            wrong = [i for i in exp if not close(q[k][i], exp[i][f], 1e-12)]
            if wrong: b('%s holds another value at the position of species %s' % (k, wrong[0]), expected=exp[wrong[0]][f], got=q[k])
    return out, len(cases), [cases[0]]

# ---- C19 --------------------------------------------------------------------------------------
def c19(seed=SEED, n=60):
    rng = random.Random(seed * 41 + 4)
    cases = [dict(n=3, mw=[18.0, 100.0, 250.0], R=8.3144598, T=298.15), dict(n=1, mw=[136.23], R=8.3144598, T=273.15)]
    for _ in range(n):
        k = rng.randint(1, 30)
        cases.append(dict(n=k, mw=[rng.uniform(2, 900) for _ in range(k)], R=rng.choice([8.3144598, 8.314, 1.987]), T=rng.uniform(180, 400)))
    r = run_jobs([dict(op='pure2', cases=cases)])[0]
    out = []
    if not r['ok']:
        return [dict(what='Pure_component2 raised an error', error=r.get('error'), tb=r.get('tb'))], 0, []
    for c, a in zip(cases, r['value']):
        def b(what, **k): out.append(dict(what=what, case=c, **k))
        M_ = arr(c['mw']); D = 1.9 * M_ ** (-2. / 3.); v = np.sqrt(8 * c['R'] * c['T'] / (math.pi * M_ * 1e-3)); g = 3 * D / (v * 100) * 1e-2
        al = arr(a.get('alpha_d_org', [])).ravel()
        if len(al) != c['n'] or not np.all((al > 0) & (al <= 1)): b('accommodation coefficients', got=al.tolist())
        for k, w in (('DStar_org', D), ('mean_them_vel', v), ('gamma_gas', g)):
            if k not in a: b('no %s' % k); continue
            if not same(a[k], w, 1e-6): b(k, expected=w.tolist()[:5], got=arr(a[k]).ravel().tolist()[:5])
    return out, len(cases), [cases[0]]

# ---- C20 --------------------------------------------------------------------------------------
def c20(seed=SEED, n=60):
    rng = random.Random(seed * 43 + 5)
    cases = []; exps = []
    for i in range(n):
        names = ['APINENE', 'OH', 'HO2', 'O3', 'CH4', 'C5H8', 'C107O2', 'NO2', 'HCHO', 'MGLYOX', 'AB', 'ABC', 'A', 'PINAL', 'CO']
        rng.shuffle(names)
        inm = names[:rng.randint(1, len(names))]
        listed = [x for x in names if rng.random() < .8]; rng.shuffle(listed)
        k = rng.random()
        smi = {x: rng.choice(['CC(=O)C', 'C=O', 'CC1=CCC2CC1C2(C)C', 'C', 'OO', '[O]', 'C/C=C\\C', '[C-]#[O+]', 'O[N+](=O)[O-]']) + 'C' * (rng.randint(0, 1) * a) for a, x in enumerate(listed)}
        nos = {x for x in listed if rng.random() < .25}
        rows = []
        for a, x in enumerate(listed):
            style = rng.randint(0, 3)
            st = '' if x in nos else '<smiles>%s</smiles>' % smi[x]
            extra = rng.choice(['', '<inchi>InChI=1S/%s</inchi>' % x, '<mass>%d</mass>' % a])
            body = [st, extra] if style % 2 else [extra, st]
            if style < 2: rows.append('<species species_number="%d" species_name="%s">%s%s</species>' % (a, x, *body))
            else: rows.append('<species species_number="%d" species_name="%s">\n  %s\n  %s\n</species>' % (a, x, *body))
        xml = '<?xml version="1.0" encoding="utf-8"?>\n<mechanism>\n<species_set>\n' + '\n'.join(rows) + '\n</species_set>\n</mechanism>\n'
        order = list(enumerate(inm))
        cases.append(dict(xml=xml, species_dict=order))
        exps.append({x: smi[x] for x in listed if x in inm and x not in nos and x not in ('OH', 'HO2', 'O3')})
    texts, texps = [], []
    for i in range(n // 2):
        pool = ['C' * (k + 1) + 'O' * (k % 3) for k in range(8)] + ['O', 'CC(=O)O', '[O]', 'CO']
        lines = [(rng.choice(pool), rng.choice(['1.0', '2.5e3', '0.01', '7', '1e-3'])) for _ in range(rng.randint(1, 12))]
        texts.append(''.join('%s%s%s\n' % (a, rng.choice([' ', '\t', '   ']), b) for a, b in lines))
        first = {}
        for a, b in lines: first.setdefault(a, float(b))
        texps.append(first)
    ra, rb = run_jobs([dict(op='smiles', cases=cases), dict(op='species', cases=texts)])
    out = []
    for r, which in ((ra, 'structure files'), (rb, 'yield tables')):
        if not r['ok']: out.append(dict(what='%s could not be read' % which, error=r.get('error'), tb=r.get('tb')))
    if ra['ok']:
        for c, e, a in zip(cases, exps, ra['value']):
            def b(what, **k): out.append(dict(what=what, case=c, **k))
            if 'error' in a: b('extract_smiles_species raised an error', error=a['error'], tb=a.get('tb')); continue
            if a['smiles'] != e: b('structures attached', expected=e, got=a['smiles'])
            if any(a['mols'].get(x) != x for x in a['smiles'].values()): b('a structure has no molecule, or another', got=a['mols'])
            if not a['same'] or a['kept'] != 1: b('the other tables were changed')
    if rb['ok']:
        for t, e, a in zip(texts, texps, rb['value']):
            def b(what, **k): out.append(dict(what='fixed-yield table: ' + what, text=t, **k))
            if 'error' in a: b('error', error=a['error'], tb=a.get('tb')); continue
            if a['SMILES'] != {x: x for x in e} or a['mols'] != {x: x for x in e}: b('structures', expected=list(e), got=[a['SMILES'], a['mols']])
            s2a = a['s2a']; sd = {int(k): v for k, v in a['species_dict'].items()}
            if sorted(s2a) != sorted(e) or sorted(s2a.values()) != list(range(len(e))) or {v: k for k, v in sd.items()} != s2a or a['n'] != len(e): b('positions', got=[s2a, sd, a['n']])
            else:
                if [a['conc'][s2a[x]] for x in e] != list(e.values()) or [a['smiles_array'][s2a[x]] for x in e] != list(e): b('amounts', expected=e, got=a['conc'])
                if a['conc_dict'] != e or a['act'] != e: b('amount per molecule', expected=e, got=a['conc_dict'])
    return out, len(cases) + len(texts), [cases[0]]

# ---- C12, C13 ---------------------------------------------------------------------------------
def part_case(rng, ns, nc, bins, zero=False):
    L = ns + nc * bins
    NA = 6.0221409e23
    u = rng.uniform
    y = [10 ** u(4, 10) for _ in range(ns)] + [0.0 if zero and rng.random() < .3 else 10 ** u(3, 9) for _ in range(nc * bins)]
    yc = [10 ** u(8, 10) for _ in range(bins)]
    return dict(y=y, ycore=yc, core_diss=rng.choice([1.0, 3.0]), core_mass=[x / NA * u(100, 140) for x in yc], density=[u(900, 1600) for _ in range(nc)], core_density=[u(1400, 1900) for _ in range(bins)],
                mw=[u(18, 400) for _ in range(nc)], psat=[10 ** u(-13, -4) for _ in range(nc)], dstar=[u(.02, .25) for _ in range(nc)], alpha=[u(.05, 1.0) for _ in range(nc)], cg=None,
                nper=[10 ** u(0, 4) for _ in range(bins)], gamma=[u(2e-8, 2e-7) for _ in range(nc)], latent=[0.0] * nc, sigma=u(.02, .09), NA=NA, R=8.3144598, T=u(240, 320))

def part_oracle(c, ns, inc, bins, Pi=float(np.float32(3.1415927))):
    nc = len(inc); y = arr(c['y']); dy = np.zeros(len(y)); org = wet = 0.0
    mag = np.zeros(len(y)); aw = []; size = []
    for b in range(bins):
        n_ = y[ns + b * nc: ns + (b + 1) * nc]
        tot = n_.sum() + c['ycore'][b] * c['core_diss']
        x = n_ / tot
        m = np.append(n_ / c['NA'] * arr(c['mw']), c['core_mass'][b]); rho = np.append(c['density'], c['core_density'][b])
        org += m[:nc - 1].sum(); M = m.sum(); wet += M; dens = 1.0 / ((m / M) / rho).sum()
        r = ((3.0 * (M * 1e3 / (c['nper'][b] * 1e6))) / (4 * Pi * dens)) ** (1 / 3.)
        kn = arr(c['gamma']) / r; ik = 1 / kn; al = arr(c['alpha'])
        corr = 1 / (1 + ((1.33 + .71 * ik) / (1 + ik) + 4 * (1 - al) / (3 * al)) * kn)
        kel = np.exp(4 * arr(c['mw']) * 1e-3 * c['sigma'] / (c['R'] * c['T'] * r * 2 * dens))
        cs = kel * x * arr(c['psat']) * 101325. * (c['NA'] / (8.3144598e6 * c['T']))
        k = 4 * Pi * r * 1e2 * c['nper'][b] * arr(c['dstar']) * corr
        dm = k * (arr(c['cg']) - cs)
        dy[ns + b * nc: ns + (b + 1) * nc] = dm
        mag[ns + b * nc: ns + (b + 1) * nc] = k * (arr(c['cg']) + cs)
        for p, i in enumerate(inc): dy[i] -= dm[p]; mag[i] += k[p] * (c['cg'][p] + cs[p])
        aw.append(x[nc - 1]); size.append(r)
    return dy, mag, org * 1e12, aw, size, wet * 1e12

def part_jobs(seed, n, omp, reps, big=False):
    rng = random.Random(seed * 47 + 6)
    jobs = []
    for i in range(n):
        ns = rng.choice([1, 3, 6, 11]); bins = rng.choice([1, 2, 5, 8])
        if big: ns, bins = 120, [24, 32, 17][i % 3]
        var = 'ignore' if i % 2 == 0 else 'all'
        inc = list(range(ns))
        if var == 'ignore':
            inc = rng.sample(range(ns - 1), rng.randint(0, max(0, ns - 1))) if ns > 1 else []
            if i % 4 == 0: inc.sort()
            inc = inc + [ns - 1]
        cases = []
        for _ in range(4):
            c = part_case(rng, ns, len(inc), bins, zero=True)
            c['cg'] = [c['y'][k] for k in inc]
            cases.append(c)
        jobs.append(dict(op='partition', variant=var, bins=bins, ns=ns, include=inc, omp=list(omp), cases=cases, reps=reps))
    return jobs

def c12(seed=SEED, n=14):
    jobs = part_jobs(seed, n, (False, True), 1)
    out = []; cnt = 0
    for j, r in zip(jobs, run_jobs(jobs)):
        def b(what, **k): out.append(dict(what='%s-species partitioning: %s' % ('selected' if j['variant'] == 'ignore' else 'all', what), bins=j['bins'], species=j['ns'], include=j['include'], **k))
        if not r['ok']: b('the routine could not be produced or run', error=r.get('error'), tb=r.get('tb')); continue
        for om, res in r['value'].items():
            for c, a in zip(j['cases'], res):
                cnt += 1
                dy = arr(a['dy']); ns, inc, nc = j['ns'], j['include'], len(j['include'])
                edy, mag, org, aw, size, wet = part_oracle(c, ns, inc, j['bins'])
                for p, i in enumerate(inc):
                    part = sum(dy[ns + q * nc + p] for q in range(j['bins'])); g = dy[i]
                    if not close(-part, g, 1e-9, 1e-9 * mag[i]): b('compound %d gains %r in the bins and loses %r from the gas' % (i, part, -g), case=c, run=om); break
                for i in range(ns):
                    if i not in inc and not dy[i] == 0: b('compound %d does not condense but has tendency %r' % (i, dy[i]), case=c, run=om); break
                bad = np.where(~(np.abs(dy - edy) <= 3e-6 * (mag + 1e-300)))[0]
                if len(bad): b('exchange differs at position %d' % bad[0], expected=edy[bad[0]], got=dy[bad[0]], case=c, run=om)
                if not close(float(a['tot']), org, 1e-6, 1e-30 + 1e-12 * wet): b('organic mass', expected=org, got=float(a['tot']), case=c, run=om)
                if not same(a['size'], size, 1e-5): b('bin sizes', expected=size, got=arr(a['size']).tolist(), case=c, run=om)
                if not same(a['aw'], aw, 1e-9): b('water activity', expected=aw, got=arr(a['aw']).tolist(), case=c, run=om)
    return out[:40], cnt, [dict(bins=jobs[0]['bins'], species=jobs[0]['ns'], include=jobs[0]['include'])]

def c13(seed=SEED, n=6, reps=12):
    """OpenMP on against OpenMP off, many threads, repeated."""
    from . import mech as M, replay_mech as RM, kpp
    out = []; cnt = 0
    jobs = part_jobs(seed + 1, n, (False, True), reps, big=True)
    for j in jobs: j['env'] = {'OMP_NUM_THREADS': '8', 'OMP_SCHEDULE': 'dynamic,1'}
    for j, r in zip(jobs, run_jobs(jobs, procs=2)):
        def b(what, **k): out.append(dict(what='%s-species partitioning: %s' % ('selected' if j['variant'] == 'ignore' else 'all', what), bins=j['bins'], species=j['ns'], **k))
        if not r['ok']: b('the routine could not be produced or run', error=r.get('error'), tb=r.get('tb')); continue
        base, par = r['value']['omp_False'], r['value']['omp_True']
        for i, a in enumerate(par):
            cnt += 1
            ref = base[i // reps]
            for k in ('dy', 'size', 'aw'):
                x, y = arr(a[k]), arr(ref[k])
                sc = np.maximum(np.abs(x), np.abs(y))
                d = np.where(~(np.abs(x - y) <= 1e-11 * (sc + (np.max(np.abs(arr(ref['dy'])[j['ns']:])) * 1e-3 if k == 'dy' else 0))))[0]
                if len(d): b('with OpenMP %s differs at %d' % (k, d[0]), serial=float(y[d[0]]), parallel=float(x[d[0]]), repetition=i % reps); break
            if not close(float(a['tot']), float(ref['tot']), 1e-11): b('with OpenMP the organic mass differs', serial=float(ref['tot']), parallel=float(a['tot']), repetition=i % reps)
            if len(out) > 5: break
    # the SINGLE blocks of the other writers
    rng = random.Random(seed * 53 + 7)
    pool = ['S%d' % i for i in range(40)]
    ms = []
    for k in (3, 9, 40, 90):
        ms.append(M.Mech([M.Reaction([('', rng.choice(pool)) for _ in range(rng.randint(1, 2))], [('', rng.choice(pool)) for _ in range(rng.randint(0, 3))], '%d.0D-3*TEMP' % (i + 1)) for i in range(k)], 'omp'))
    mj = []
    for m in ms:
        for cores in (2, 3, 4, 8, 16):
            E, N = len(m.rs), len(m.species())
            mj.append(dict(op='mech', text=m.text(), want=['react', 'dydt', 'jac', 'rates'], omp=[False, True], cores=cores, ys=[[rng.uniform(.2, 2) for _ in range(N)] for _ in range(3)], rs=[[rng.uniform(.2, 2) for _ in range(E)] for _ in range(3)], conds=[[43200., 1e9, 1e17, 290.]], env={'OMP_NUM_THREADS': '8'}))
    for j, r in zip(mj, run_jobs(mj, procs=3)):
        if not r['ok']: out.append(dict(what='the code raised an error on a well-formed mechanism', cores=j['cores'], error=r.get('error'), tb=r.get('tb'), mechanism=j['text'])); continue
        v = r['value']
        for base in ('react', 'dydt', 'jac', 'rates'):
            cnt += 1
            a, b_ = v.get(base + '_fortran_False'), v.get(base + '_fortran_True')
            if not a or not a['ok'] or not b_ or not b_['ok']:
                err = [(x or {}).get('error') for x in (a, b_, v.get(base + '_fortran'))]
                if a and a.get('ok') or base == 'rates':
                    out.append(dict(what='%s: the OpenMP file could not be produced or run' % base, error=err, cores=j['cores'], mechanism=j['text']))
                continue
            if not all(same(x, y, 1e-12) for x, y in zip(a['value'], b_['value'])):
                out.append(dict(what='%s: OpenMP and serial values differ' % base, cores=j['cores'], mechanism=j['text']))
    return out[:40], cnt, [dict(bins=jobs[0]['bins'], species=jobs[0]['ns'], repetitions=reps)]

# ---- C21 --------------------------------------------------------------------------------------
def c21(seed=SEED):
    rng = random.Random(seed * 59 + 8)
    from . import mech as M
    R = M.R
    rs = [R('APINENE + O3', 'PINONIC + OH', '1.0D-15'), R('APINENE + OH', 'APINAO2', '5.0D-11'), R('APINAO2 + NO', 'PINAL + NO2', 'KRO2NO'), R('NO2 + hv', 'NO + O', 'J(4)'), R('O + O2', 'O3', '1.0D-15'), R('BCARY + OH', 'C107O2 + CO', '2.0D-10'), R('C5H8 + OH', 'CH3O2', '1.0D-10'),
          R('CH3O2 + HO2', 'CH3OOH', 'KRO2HO2'), R('NO2 + OH', 'HNO3', 'KMT08'), R('CO + OH', 'HO2 + CO2', 'KMT05'), R('LIMONENE + OH', 'PINONIC', '1.0D-10')]
    names = [n for n in M.Mech(rs).species()]
    smi = {n: 'C' * (k + 1) + 'O' * (1 + k % 4) for k, n in enumerate(names) if n not in ('OH', 'HO2', 'O3', 'O2', 'hv')}
    xml = '<m>' + ''.join('<species species_name="%s"><smiles>%s</smiles></species>' % x for x in smi.items()) + '</m>'
    vps = {s: rng.uniform(-14, -2) for s in smi.values()}
    ytext = ''.join('%s %s\n' % (s, 10 * (k + 1)) for k, s in enumerate(list(smi.values())[:6]))
    m = M.Mech(rs)
    jobs = [dict(op='driver', variant=v, mech=m.text(), xml=xml, vps=vps, **{'yield': ytext}) for v in ('gas', 'f2py', 'aerosol', 'fixed')]
    jobs.append(dict(op='driver', variant='gas', mech=M.Mech([r for r in rs if not any('O2' in n and n != 'NO2' for _, n in r.react + r.prod)]).text(), xml=xml, vps=vps))
    out = []; cnt = 0
    samples = []
    for j, r in zip(jobs, run_jobs(jobs)):
        def b(what, **k): out.append(dict(what='%s driver: %s' % (j['variant'], what), **k))
        if not r['ok']:
            if 'files_exist was not found' in str(r.get('error')):
                samples.append(dict(variant=j['variant'], note='no switch files_exist; not run')); continue
            b('could not be run', error=r.get('error'), tb=r.get('tb')); continue
        f, a = r['value']['fresh'], r['value']['again']
        if f['err']:
            b('fresh run fails', error=f['err'], tb=r['value'].get('tb_False')); continue
        if a['err']:
            b('restart fails', error=a['err'], tb=r['value'].get('tb_True')); continue
        cnt += 1
        if len(f['calls']) != len(a['calls']) or not f['calls']:
            b('number of solver calls', fresh=len(f['calls']), restart=len(a['calls'])); continue
        for x, y in zip(f['calls'], a['calls']):
            if x != y:
                b('the restart passes other inputs to the solver', difference=diff(json.loads(x), json.loads(y)))
        samples.append(dict(variant=j['variant'], files=sorted(set(f['after']) - set(f['before'])), solver_call=f['calls'][0][:400]))
    return out, cnt, samples

def diff(a, b, path=''):
    if type(a) != type(b): return [path, str(a)[:200], str(b)[:200]]
    if isinstance(a, dict):
        if '__dict__' in a and '__dict__' in b:
            x, y = {k: v for k, v in map(tuple, a['__dict__'])}, {k: v for k, v in map(tuple, b['__dict__'])}
            a, b = x, y
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b: return [path + '/' + str(k), 'present' if k in a else 'absent', 'present' if k in b else 'absent']
            d = diff(a[k], b[k], path + '/' + str(k))
            if d: return d
        return None
    if isinstance(a, list):
        if len(a) != len(b): return [path, len(a), len(b)]
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + '/%d' % i)
            if d: return d
        return None
    return None if a == b else [path, a, b]
