"""Further operations: solvers, properties, partitioning, structures, drivers."""
import sys, os, types, io, json, shutil, contextlib, ctypes, traceback, ast
import numpy as np

G = {}
def register(OPS, g):
    G.update(g)
    for k, v in globals().items():
        if k.startswith('op_'):
            OPS[k[3:]] = v

def load_file(path, name, stubs=None, fresh=('assimulo', 'assimulo.solvers', 'assimulo.problem')):
    """Load one repository file as a module, with the given stand-ins in sys.modules while it runs."""
    src = open(os.path.join(G['repo'], path)).read()
    m = types.ModuleType(name)
    m.__file__ = os.path.join(G['repo'], path)
    exec(compile(src, m.__file__, 'exec'), m.__dict__)
    return m

@contextlib.contextmanager
def modules(**mods):
    """Stand-ins in sys.modules (names with __ for dots), put back afterwards."""
    names = {k.replace('__', '.'): v for k, v in mods.items()}
    old = {k: sys.modules.get(k) for k in names}
    sys.modules.update(names)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v

def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m

@contextlib.contextmanager
def patched(obj, name, val):
    old = getattr(obj, name)
    setattr(obj, name, val)
    try:
        yield
    finally:
        setattr(obj, name, old)

# ---- solver modules ---------------------------------------------------------------------------
SOLVERS = {'gas': 'ODE_solver.py', 'f2py': 'f2py/ODE_solver.py', 'aerosol': 'Aerosol/f2py/ODE_solver.py',
           'fixed': 'Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'}

def weight(seed, *shape):
    return np.random.RandomState(seed).uniform(0.1, 1.0, shape)

def op_solver(j):
    """One run_simulation of the real module with recording stand-ins for the generated code and the solver."""
    v = j['variant']
    N, E = j['n'], j['e']
    log = []            # evaluations and batches, in order
    counter = [0]
    cur = {}
    A = weight(1, N, E); B = weight(2, E, N)
    def rec(kind, **k):
        log.append(dict(kind=kind, **k))
    def rates_of(tod, ro2, h2o, temp):
        e = np.arange(E)
        return 1e-3 * (e + 1.0) * (1 + 0.3 * np.sin(2 * np.pi * tod / 86400)) + 1e-5 * ro2 * (e + 2) + 1e-20 * h2o * (E - e) + 1e-4 * temp * (1 + e % 2)
    def react_of(y):
        return B[:, :len(y)] @ np.asarray(y) + 0.5
    def lg_of(r):
        return A[:cur.get('ngas', N)] @ r
    def jac_of(r, y):
        return np.outer(A[:, :].sum(1)[:len(y)], np.asarray(y)) * 1e-3 + (A @ r)[:len(y), None]
    # python (numba) flavour
    def er_nb(ttime, RO2, H2O, temp, rate_values, J):
        rec('rates', tod=float(ttime), ro2=float(RO2), h2o=float(H2O), temp=float(temp), nz=[len(rate_values), len(J), float(abs(rate_values).sum()), float(abs(J).sum())])
        return rates_of(ttime, RO2, H2O, temp)
    def re_nb(y, equations, reactants_conc):
        rec('reactants', y=np.array(y), extra=[int(equations), len(reactants_conc)])
        return react_of(y)
    def lg_nb(l, r):
        rec('lossgain', r=np.array(r), extra=[len(l), float(abs(l).sum())])
        return lg_of(r)
    def jc_nb(r, y, dd):
        rec('jacobian', r=np.array(r), y=np.array(y), extra=[list(dd.shape), float(abs(dd).sum())])
        return jac_of(r, y)
    def er_f(RO2, H2O, temp, ttime): 
        rec('rates', tod=float(ttime), ro2=float(RO2), h2o=float(H2O), temp=float(temp))
        return rates_of(ttime, RO2, H2O, temp)
    def re_f(y):
        rec('reactants', y=np.array(y)); return react_of(y)
    def lg_f(r):
        rec('lossgain', r=np.array(r)); return lg_of(r)
    def jc_f(r, y):
        rec('jacobian', r=np.array(r), y=np.array(y)); return jac_of(r, y)
    PN = ['y', 'ycore', 'core_diss', 'core_mass_array', 'density_input', 'core_density_array', 'ignore_index', 'mw_array', 'Psat', 'DStar_org', 'alpha_d_org', 'C_g_i_t', 'N_perbin',
          'gamma_gas', 'Latent_heat', 'GRAV', 'Updraft', 'sigma', 'NA', 'kb', 'Rv', 'R_gas', 'Model_temp', 'cp', 'Ra', 'Lv_water_vapour']
    def part_f(*a, **kw):
        d = dict(zip(PN, a)); d.update(kw)
        rec('partition', args={k: np.array(x, float) for k, x in d.items()})
        y = np.asarray(d['y'], float)
        out = 1e-3 * (np.arange(len(y)) + 1.0) + 1e-2 * np.cos(y) + 1e-4 * float(np.sum(d['C_g_i_t']))
        return 7.0 + float(np.sum(y)) * 1e-6, np.full(cur['bins'], .5), np.full(cur['bins'], 1e-7) * (1 + np.arange(cur['bins'])), out
    class Problem:
        def __init__(self, rhs, y0, t0=0.0, name='', **k):
            self.rhs, self.y0, self.t0, self.name = rhs, np.array(y0, float), t0, name
    class Solver:
        def __init__(self, prob): self.prob = prob
        def simulate(self, dt, *a):
            counter[0] += 1
            p = self.prob
            if counter[0] > j.get('maxbatch', 60):
                raise RuntimeError('more than %d batches' % j.get('maxbatch', 60))
            rec('batch', y0=p.y0.copy(), t0=float(p.t0), dt=float(dt), usejac=bool(getattr(self, 'usejac', True)), hasjac=hasattr(p, 'jac'))
            rs = np.random.RandomState(100 + counter[0])
            def evaluate(which, f, t, y):
                yy = y.copy()
                rec('call', which=which, t=float(t), y=y.copy())
                val = np.array(f(t, yy), float)
                rec('result', which=which, value=val, mutated=bool(np.any(yy != y)))
            def state():
                y = rs.uniform(0.5, 2.0, len(p.y0))
                if counter[0] % 3 == 2: y *= rs.choice([1.0, -1.0, 0.0, 1e-9, 1e9], len(y), p=[.5, .2, .1, .1, .1])     # trial states of a solver can be negative
                return y
            for t in (0.0, dt * float(rs.uniform(.1, .9)), float(dt)):
                evaluate('rhs', p.rhs, t, state())
                if hasattr(p, 'jac') and getattr(self, 'usejac', True):
                    evaluate('jac', p.jac, t, state())
            evaluate('rhs', p.rhs, 0.25 * dt, rs.uniform(0.5, 2.0, len(p.y0)))
            out = rs.uniform(0.5, 2.0, (3, len(p.y0)))
            if counter[0] % 2 == 0: out *= rs.choice([1.0, -1.0, 0.0, 1e-7, 1e8], out.shape, p=[.6, .1, .1, .1, .1])
            rec('end', y=out[-1].copy())
            return [0.0, dt / 2, dt], out
    solvers = mod('assimulo.solvers', RodasODE=Solver, CVode=Solver, RungeKutta4=Solver, LSODAR=Solver, Radau5ODE=Solver)
    problem = mod('assimulo.problem', Explicit_Problem=Problem)
    mods = dict(assimulo=mod('assimulo', solvers=solvers, problem=problem), assimulo__solvers=solvers, assimulo__problem=problem,
                Rate_coefficients_numba=mod('r', evaluate_rates=er_nb), Reactants_conc_numba=mod('r', reactants=re_nb), Loss_Gain_numba=mod('l', dydt=lg_nb), Jacobian_numba=mod('j', jacobian=jc_nb),
                rate_coeff_f2py=mod('r', evaluate_rates=er_f), reactants_conc_f2py=mod('r', reactants=re_f), loss_gain_f2py=mod('l', loss_gain=lg_f), jacobian_f2py=mod('j', jacobian=jc_f),
                partition_f2py=mod('p', dydt_partition=part_f), Plotting=mod('Plotting', stacked_bar=lambda *a, **k: None))
    from matplotlib import pyplot as plt
    G['clean']()
    names = ['S%d' % i for i in range(N)]
    perm = list(np.random.RandomState(3).permutation(N))
    s2a = {n: int(i) for n, i in zip(names, perm)}
    sd = {int(i): n for n, i in zip(names, perm)}
    ro2 = np.array(j['ro2'], dtype=int)
    d = dict(species_dict=sd, species_dict2array=dict(s2a), species_initial_conc=dict(j['init']), equations=E)
    h2o, temp, RH, start = 2.5e17, 288.5, 0.5, j['start']
    res = {'s2a': s2a, 'h2o': h2o, 'temp': temp, 'A': A, 'B': B}
    with modules(**mods), patched(plt, 'show', lambda *a, **k: None):
        m = load_file(SOLVERS[v], 'solver_' + v)
        if v in ('gas', 'f2py'):
            a = (j['name'], j['save'], start) if v == 'gas' else (j['name'], start, j['save'])
            r = G['quiet'](m.run_simulation, *a, temp, RH, ro2, h2o, d, j['sim'], j['batch'])
            if r is not None:
                res['t_array'], res['y_matrix'] = [float(x) for x in r[0]], np.array(r[1], float)
        else:
            bins = j['bins']; cur['bins'] = bins
            inc = j['include']; nc = len(inc)
            cur['ngas'] = N - 1
            rs = np.random.RandomState(7)
            y_cond = [float(x) for x in rs.uniform(.1, 1, nc * bins)]
            s2a2 = dict(s2a); s2a2['H2O'] = N - 1
            # water sits last: swap positions so that position N-1 is free for it
            n_last = sd[N - 1]; del s2a2[n_last]; d['species_dict2array'] = s2a2; d['species_dict'] = {i: n for i, n in sd.items() if i != N - 1}
            d['species_initial_conc'] = {('H2O' if n == 'WATER' else n): c for n, c in j['init'] if n != n_last}
            if j.get('dynamic_name'):     # names that are equal to, but not the same object as, the literal
                d['species_initial_conc'] = {''.join(list(n)): c for n, c in d['species_initial_conc'].items()}
            extra = dict(num_species=N, num_species_condensed=nc, y_density_array_asnumpy=rs.uniform(900, 1500, nc), y_mw=rs.uniform(50, 300, nc), sat_vp=list(rs.uniform(-12, -5, nc)), Delta_H=rs.uniform(1, 2, nc),
                         Latent_heat_asnumpy=rs.uniform(1, 2, nc), DStar_org_asnumpy=rs.uniform(.01, .1, nc), alpha_d_org_asnumpy=rs.uniform(.1, 1, nc), gamma_gas_asnumpy=rs.uniform(1e-7, 2e-7, nc), Updraft=0.1, GRAV=9.8, Rv=461.0,
                         Ra=287.0, R_gas=8.3144598, R_gas_other=8.2057e-5, cp=1005.0, sigma=72e-3, NA=6.0221409e+23, kb=1.380648E-23, Lv_water_vapour=2.5e3, ignore_index=[i for i in range(N) if i not in inc],
                         ignore_index_fortran=np.array([0.0 if i in inc else 1.0 for i in range(N)]), ycore_asnumpy=rs.uniform(1e8, 1e9, bins), core_density_array_asnumpy=rs.uniform(1500, 1800, bins), y_cond_initial=list(y_cond),
                         num_bins=bins, core_molw_asnumpy=rs.uniform(100, 140, bins), core_dissociation=3.0, N_perbin=rs.uniform(1, 50, bins), include_index=list(inc), y_gas_initial=[float(x) for x in rs.uniform(.1, 1, N)])
            d.update(extra)
            res['extra'] = {k: (np.array(x, float) if not isinstance(x, (int, float)) else x) for k, x in extra.items()}
            res['init'] = d['species_initial_conc']; res['s2a'] = {k: int(x) for k, x in s2a2.items()}
            if v == 'aerosol':
                r = G['quiet'](m.run_simulation, j['name'], j['save'], start, temp, RH, ro2, h2o, 98000.0, y_cond, d, j['sim'], j['batch'], False)
            else:
                r = G['quiet'](m.run_simulation, j['name'], j['save'], start, temp, RH, h2o, 98000.0, y_cond, d, j['sim'], j['batch'])
        if j['save']:
            import pickle, csv
            nm = j['name']
            if v in ('gas', 'f2py'):
                res['saved_y'] = np.load(nm + '_output.npy')
                res['csv_y'] = np.loadtxt(nm + '_output_matrix.csv', delimiter=',', skiprows=1, ndmin=2)[:, 1:]
                import gc; gc.collect()
                res['csv_names'] = [r_ for r_ in csv.reader(open(nm + '_output_names.csv'))]
            else:
                for k in ('y', 't', 'SOA', 'size'):
                    res['saved_' + k] = np.array(pickle.load(open('%s_%s_output.pickle' % (nm, k), 'rb')), float)
    res['log'] = log
    plt.close('all')
    return res

# ---- aerosol properties -----------------------------------------------------------------------
def op_lognormal(j):
    m = load_file('Aerosol/Size_distributions.py', 'sizes')
    out = []
    for p in j['params']:
        n, x = m.lognormal(*p)
        out.append([np.array(n, float), np.array(x, float)])
    return out

class Mol:
    def __init__(self, smi, nothing=False):
        self.smi = smi
        self.molwt = 10.0 + (sum(ord(c) * (i + 3) for i, c in enumerate(smi)) % 997) * .25
    def h(self, k):
        return ((sum(ord(c) * (i + 1) for i, c in enumerate(self.smi)) * (k + 7)) % 1009) / 1009.0
    def __eq__(self, o): return isinstance(o, Mol) and o.smi == self.smi
    def __hash__(self): return hash(self.smi)
    def __repr__(self): return 'Mol(%s)' % self.smi

def _ums(vps=None):
    """Stand-in for UManSysProp: every property is a fixed function of the molecule and the method."""
    def f(k, scale=1.0):
        return lambda c, *a: scale * (1.0 + c.h(k)) + sum(1e-3 * float(x) for x in a)
    bp = mod('umansysprop.boiling_points', joback_and_reid=f(1, 300.), stein_and_brown=f(2, 300.), nannoolal=f(3, 300.))
    def vp(k):
        def g(c, t, b=0.0):
            if vps and c.smi in vps: return vps[c.smi]
            return -12.0 + 10 * c.h(k) + 1e-4 * (t + b)
        return g
    vpm = mod('umansysprop.vapour_pressures', nannoolal=vp(4), myrdal_and_yalkowsky=vp(5), evaporation=lambda c, t: vp(6)(c, t))
    cp = mod('umansysprop.critical_properties', nannoolal=f(7, 50.), joback_and_reid=f(8, 50.))
    ld = mod('umansysprop.liquid_densities', girolami=lambda c: 1.0 + c.h(9), schroeder=f(10), le_bas=f(11), tyn_and_calus=f(12))
    gr = mod('umansysprop.groups', composition=lambda c: {'O': 1 + int(5 * c.h(13)), 'C': 2 + int(9 * c.h(14)), 'H': 3 + int(8 * c.h(15))})
    fm = mod('umansysprop.forms', CoreAbundanceField=object)
    top = mod('umansysprop', boiling_points=bp, vapour_pressures=vpm, critical_properties=cp, liquid_densities=ld, partition_models=mod('umansysprop.partition_models'), groups=gr,
              activity_coefficient_models_dev=mod('umansysprop.activity_coefficient_models_dev'), forms=fm)
    d = {'umansysprop': top}
    for n in ('boiling_points', 'vapour_pressures', 'critical_properties', 'liquid_densities', 'partition_models', 'groups', 'activity_coefficient_models_dev', 'forms'):
        d['umansysprop__' + n] = getattr(top, n)
    return d, top

def op_pure1(j):
    out = []
    for c in j['cases']:
        sm, top = _ums(c.get('vps'))
        with modules(**sm):
            m = load_file('Aerosol/Property_calculation.py', 'props')
            sd = {int(k): n for k, n in c['species_dict']}
            s2a = {n: int(k) for k, n in c['species_dict']}
            smiles = dict(c['smiles'])
            mols = {s: Mol(s) for s in smiles.values()}
            try:
                r = G['quiet'](m.Pure_component1, len(sd), sd, s2a, mols, smiles, c['temp'], c['vp'], c['bp'], c['crit'], c['dens'], c['ignore_vp'], c['cutoff'])
            except Exception as e:
                out.append({'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1200:]}); continue
            bp = {'joback_and_reid': top.boiling_points.joback_and_reid, 'stein_and_brown': top.boiling_points.stein_and_brown, 'nannoolal': top.boiling_points.nannoolal}[c['bp']]
            cr = {'nannoolal': top.critical_properties.nannoolal, 'joback_and_reid': top.critical_properties.joback_and_reid}[c['crit']]
            exp = {}
            for n, i in s2a.items():
                if n in smiles:
                    mo = mols[smiles[n]]
                    b = bp(mo)
                    v = {'nannoolal': lambda: top.vapour_pressures.nannoolal(mo, c['temp'], b), 'myrdal_and_yalkowsky': lambda: top.vapour_pressures.myrdal_and_yalkowsky(mo, c['temp'], b),
                         'evaporation': lambda: top.vapour_pressures.evaporation(mo, c['temp'])}[c['vp']]()
                    crp = cr(mo, top.boiling_points.nannoolal(mo))
                    de = {'girolami': lambda: top.liquid_densities.girolami(mo), 'schroeder': lambda: top.liquid_densities.schroeder(mo, c['temp'], crp), 'le_bas': lambda: top.liquid_densities.le_bas(mo, c['temp'], crp),
                          'tyn_and_calus': lambda: top.liquid_densities.tyn_and_calus(mo, c['temp'], crp)}[c['dens']]() * 1e3
                    g = top.groups.composition(mo)
                    exp[i] = dict(vp=v, mw=mo.molwt, dens=de, oc=g['O'] / g['C'], hc=g['H'] / g['C'])
            out.append({'r': {k: np.array(v, float) for k, v in r.items()}, 'exp': exp})
    return out

def op_pure2(j):
    sm, _ = _ums()
    out = []
    with modules(**sm):
        m = load_file('Aerosol/Property_calculation.py', 'props')
        for c in j['cases']:
            r = m.Pure_component2(c['n'], list(c['mw']), c['R'], c['T'])
            out.append({k: np.array(v, float) for k, v in r.items()})
    return out

class Pybel:
    def __init__(self, strict=True): self.seen = []
    def readstring(self, fmt, s):
        if fmt != 'smi': raise ValueError('format ' + repr(fmt))
        self.seen.append(s)
        return Mol(s)

def op_smiles(j):
    P, _ = G['_mods']()
    out = []
    for c in j['cases']:
        with open('S.xml', 'w') as f: f.write(c['xml'])
        pb = Pybel()
        with patched(P, 'pybel', pb):
            try:
                sd = {int(k): n for k, n in c['species_dict']}
                r = G['quiet'](P.extract_smiles_species, {'species_dict': sd, 'kept': 1}, 'S.xml')
                out.append({'smiles': dict(r['SMILES_dict']), 'mols': {k: v.smi for k, v in r['Pybel_object_dict'].items()}, 'kept': r.get('kept'), 'same': dict(r['species_dict']) == {int(k): n for k, n in c['species_dict']}})
            except Exception as e:
                out.append({'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1200:]})
    return out

def op_species(j):
    P, _ = G['_mods']()
    out = []
    for text in j['cases']:
        with open('Y.txt', 'w') as f: f.write(text)
        pb = Pybel()
        with patched(P, 'pybel', pb):
            try:
                r = G['quiet'](P.extract_species, 'Y.txt')
                out.append({'species_dict': dict(r['species_dict']), 's2a': dict(r['species_dict2array']), 'smiles_array': list(r['smiles_array']), 'SMILES': dict(r['SMILES_dict']), 'conc': [float(x) for x in r['concentration_array']],
                            'n': r['species_number'], 'mols': {k: v.smi for k, v in r['Pybel_object_dict'].items()}, 'conc_dict': {k.smi: float(v) for k, v in r['concentration_dict'].items()}, 'act': {k.smi: float(v) for k, v in r['Pybel_object_activity'].items()}})
            except Exception as e:
                out.append({'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1200:]})
    return out

# ---- partitioning -----------------------------------------------------------------------------
def op_partition(j):
    P, _ = G['_mods']()
    G['clean']()
    bins, ns = j['bins'], j['ns']
    if j['variant'] == 'ignore':
        inc = j['include']; nc = len(inc)
        L = ns + nc * bins
        G['quiet'](P.write_partitioning_section_fortran_ignore, L, bins, ns, nc, list(inc))
    else:
        inc = list(range(ns)); nc = ns
        L = ns + nc * bins
        G['quiet'](P.write_partitioning_section_fortran, L, bins, ns)
    out = {}
    src = open('Partitioning.f90').read()
    for omp in j['omp']:
        lib = G['gfortran'](['Partitioning.f90'], ['-fopenmp'] if omp else [])
        fn = lib.dydt_partition_
        res = []
        for c in j['cases']:
            for rep in range(j.get('reps', 1) if omp else 1):
                keep = []
                def arr(x, dt=float):
                    a = np.array(x, dtype=dt); keep.append(a); return ctypes.c_void_p(a.ctypes.data)
                def sc(x):
                    a = ctypes.c_double(x); keep.append(a); return ctypes.byref(a)
                tot = ctypes.c_double(-1.0)
                aw, sz, dy = np.full(bins, np.nan), np.full(bins, np.nan), np.full(L, np.nan)
                p = lambda a: ctypes.c_void_p(a.ctypes.data)
                fn(arr(c['y']), arr(c['ycore']), sc(c['core_diss']), arr(c['core_mass']), arr(c['density']), arr(c['core_density']), arr([0 if i in inc else 1 for i in range(ns)], np.int64), arr(c['mw']), arr(c['psat']),
                   arr(c['dstar']), arr(c['alpha']), arr(c['cg']), arr(c['nper']), arr(c['gamma']), arr(c['latent']), sc(9.8), sc(0.0), sc(c['sigma']), sc(c['NA']), sc(1.38e-23), sc(461.), sc(c['R']), sc(c['T']), sc(1005.), sc(287.), sc(2.5e3),
                   ctypes.byref(tot), p(aw), p(sz), p(dy))
                res.append({'tot': tot.value, 'aw': aw, 'size': sz, 'dy': dy})
        out['omp_%s' % omp] = res
    return out

# ---- drivers ----------------------------------------------------------------------------------
DRIVERS = {'gas': 'Gas_simulation.py', 'f2py': 'f2py/Gas_simulation_f2py.py', 'aerosol': 'Aerosol/f2py/Aerosol_simulation_f2py.py', 'fixed': 'Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py'}

class FlagFinder(ast.NodeTransformer):
    """Sets the driver's hand-edited switch files_exist; everything else runs as written."""
    def __init__(self, v): self.v, self.n = v, 0
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'files_exist' and isinstance(n.value, ast.Constant):
            self.n += 1
            n.value = ast.copy_location(ast.Constant(self.v), n.value)
        return n

def op_driver(j):
    v = j['variant']
    repo = G['repo']; scratch = G['scratch']
    root = os.path.join(scratch, 'drv_%s' % v)
    shutil.rmtree(root, ignore_errors=True)
    rel = DRIVERS[v]
    wd = os.path.join(root, os.path.dirname(rel))
    os.makedirs(wd)
    os.makedirs(os.path.join(root, 'mechanism_files'))
    src = open(os.path.join(repo, rel)).read()
    mech = j.get('mech') or open(os.path.join(repo, 'MCM_mixed_test.eqn.txt')).read()
    for n in ('MCM_APINENE', 'MCM_mixed_test', 'MCM_BCARY'):
        open(os.path.join(root, 'mechanism_files', n + '.eqn.txt'), 'w').write(mech)
    if j.get('xml'):
        os.makedirs(os.path.join(root, 'Aerosol'), exist_ok=True)
        open(os.path.join(root, 'Aerosol', 'MCM.xml'), 'w').write(j['xml'])
    if v == 'fixed':
        open(os.path.join(wd, 'MCM_yield.txt'), 'w').write(j['yield'])
    import numpy
    P, R = G['_mods']()
    sm, _ = _ums(j.get('vps'))
    pb = mod('pybel', readstring=Pybel().readstring)
    res = {}
    realremove = os.remove
    def guarded(p, *a, **k):
        if not os.path.realpath(p).startswith(os.path.realpath(root) + os.sep):
            raise RuntimeError('would remove %r outside the scratch directory' % p)
        return realremove(p, *a, **k)
    cwd = os.getcwd()
    runs = []
    try:
        for flag in (False, True):
            calls = []; shells = []
            def run_simulation(*a, **k):
                calls.append([list(a), dict(k)])
                return [0.0, 1.0], numpy.ones((2, 60000 // 100))
            tree = FlagFinder(flag)
            t = tree.visit(ast.parse(src))
            if tree.n != 1:
                raise RuntimeError('the switch files_exist was not found exactly once (%d)' % tree.n)
            sizes = load_file('Aerosol/Size_distributions.py', 'sizes')
            mods = dict(sm)
            with modules(**sm):
                props = load_file('Aerosol/Property_calculation.py', 'props')
            mods.update(ODE_solver=mod('ODE_solver', run_simulation=run_simulation), ODE_solver_fixedyield=mod('s', run_simulation=run_simulation), Size_distributions=sizes, Property_calculation=props, pybel=pb,
                        Parse_eqn_file=P, rate_coeff_conversion=R, PyBox=mod('PyBox', Parse_eqn_file=P, rate_coeff_conversion=R))
            os.chdir(wd)
            before = sorted(os.listdir('.'))
            from matplotlib import pyplot as plt
            err = None
            path = list(sys.path)
            with modules(**mods), patched(P, 'pybel', pb), patched(os, 'system', lambda c: shells.append(c) or 0), patched(os, 'remove', guarded), patched(plt, 'show', lambda *a, **k: None):
                g = {'__name__': '__main__', '__file__': os.path.join(wd, os.path.basename(rel))}
                try:
                    G['quiet'](exec, compile(ast.fix_missing_locations(t), rel, 'exec'), g)
                except SystemExit:
                    pass
                except Exception as e:
                    if calls:                 # after the solver: plotting of names the mechanism lacks
                        err = None
                    else:
                        err = '%s: %s' % (type(e).__name__, e)
                        res['tb_%s' % flag] = traceback.format_exc()[-1500:]
            sys.path[:] = path
            plt.close('all')
            def show(x):
                if isinstance(x, Mol): return repr(x)
                if isinstance(x, dict): return {'__dict__': [[repr(k), show(x[k])] for k in sorted(x, key=repr)]}
                if isinstance(x, (list, tuple)): return [show(i) for i in x]
                if isinstance(x, np.ndarray): return {'array': [show(i) for i in x.tolist()], 'kind': x.dtype.kind, 'shape': list(x.shape)}
                if isinstance(x, np.generic): return show(x.item())
                if isinstance(x, float): return repr(x)
                return x if isinstance(x, (int, str, bool)) or x is None else repr(x)
            runs.append({'err': err, 'calls': [json.dumps(show(c)) for c in calls], 'shells': shells, 'before': before, 'after': sorted(os.listdir('.'))})
            os.chdir(cwd)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    res['fresh'], res['again'] = runs
    return res
