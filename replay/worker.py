"""Runs the real /repo code on given inputs inside a scratch directory.

usage: /opt/venv/bin/python worker.py <repo> <scratch> <jobs.json> <out.json>
Each job is {"op": name, ...}; the answer is {"ok": ..., "value"|"error": ...}.
Nothing is written outside <scratch>.
"""
import sys, os, json, io, ctypes, subprocess, traceback, types, contextlib, importlib.util
repo, scratch, jobs_file, out_file = sys.argv[1:5]
sys.dont_write_bytecode = True
os.environ['MPLBACKEND'] = 'Agg'
sys.path.insert(0, '/opt/vp')
try:
    import pybox_compat                      # old-Python names the repository expects
except Exception:
    pass
sys.path.insert(0, repo)
import numpy as np
import warnings
warnings.filterwarnings('ignore')

# numba stand-in: the decorators return the Python function itself
nb = types.ModuleType('numba')
def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f
nb.jit = nb.njit = nb.vectorize = nb.autojit = _jit
nb.prange = range
class _T:
    def __getattr__(self, n): return self
    def __call__(self, *a, **k): return self
    def __getitem__(self, k): return self
for _n in ('f8', 'f4', 'i4', 'i8', 'float64', 'float32', 'int32', 'int64', 'types'):
    setattr(nb, _n, _T())
sys.modules['numba'] = nb

os.chdir(scratch)
_so = [0]

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)

def enc(x):
    if isinstance(x, np.ndarray):
        return {'__nd__': list(x.shape), 'd': [enc(v) for v in x.ravel().tolist()], 't': str(x.dtype)}
    if isinstance(x, np.generic):
        return enc(x.item())
    if isinstance(x, float):
        if x != x: return {'__f__': 'nan'}
        if x in (float('inf'), float('-inf')): return {'__f__': repr(x)}
        return x
    if isinstance(x, complex):
        return {'__f__': 'complex'}
    if isinstance(x, dict):
        return {'__dict__': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return {'__repr__': repr(x)}

def load_py(path, name):
    """Execute generated Python the way importing it would."""
    src = open(path).read()
    m = types.ModuleType(name)
    exec(compile(src, path, 'exec'), m.__dict__)
    return m

def gfortran(files, extra=()):
    _so[0] += 1
    so = os.path.join(scratch, 'lib%d_%d.so' % (os.getpid(), _so[0]))
    r = subprocess.run(['gfortran', '-shared', '-fPIC', '-O0', '-fno-range-check', *extra, *files, '-o', so], capture_output=True, text=True, cwd=scratch)
    if r.returncode:
        raise RuntimeError('gfortran: ' + r.stderr[:1500])
    return ctypes.CDLL(so)

def dp(a):
    return a.ctypes.data_as(ctypes.c_void_p)

def patch_cpu(n):
    import multiprocessing
    multiprocessing.cpu_count = lambda: n
    os.cpu_count = lambda: n

def clean():
    for f in os.listdir('.'):
        if f.endswith(('.py', '.f90', '.npy', '.npz', '.txt', '.mod', '.so')):
            os.remove(f)

def _mods():
    import Parse_eqn_file, rate_coeff_conversion
    return Parse_eqn_file, rate_coeff_conversion

def op_mech(j):
    P, R = _mods()
    clean()
    patch_cpu(j.get('cores', 4))
    name = j.get('name', 'M1')
    with open(name + '.eqn.txt', 'w') as f:
        f.write(j['text'])
    out = {}
    d = quiet(P.extract_mechanism, name + '.eqn.txt', {'Full_eqn': 0})
    s2a = d['species_dict2array']; N = len(d['species_dict']); E = d['max_equations']
    rr, loss, gain = d['rate_dict_reactants'], d['loss_dict'], d['gain_dict']
    # read-outs are made on copies: looking up a default dictionary must not change it
    out['parse'] = {'rate_dict': dict(d['rate_dict']), 'reactants': {k: dict(v) for k, v in rr.items()},
                    'loss': {k: dict(v) for k, v in loss.items()}, 'gain': {k: dict(v) for k, v in gain.items()},
                    'stoich': {k: dict(v) for k, v in d['stoich_dict'].items()},
                    'species_dict': dict(d['species_dict']), 'species_dict2array': dict(s2a), 'equations': E,
                    }
    want = j.get('want', ['react', 'dydt', 'jac', 'sparse', 'rates', 'ro2'])
    omp = j.get('omp', [False])
    ys = [np.array(y, float) for y in j.get('ys', [])]
    rs = [np.array(r, float) for r in j.get('rs', [])]
    def stage(key, f):
        try:
            out[key] = {'ok': True, 'value': f()}
        except BaseException as e:
            out[key] = {'ok': False, 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
    def fort(file, fn, call, ompflag):
        lib = gfortran([file], ['-fopenmp'] if ompflag else [])
        return call(getattr(lib, fn + '_'))
    if 'react' in want or 'sparse' in want:
        def f():
            quiet(P.write_reactants_indices, name, E, N, s2a, rr, loss)
            m = load_py('Reactants_conc_numba.py', 'rc')
            return [m.reactants(y.copy(), E, np.zeros(E)) for y in ys]
        stage('react_numba', f)
        for o in omp:
            def f():
                quiet(P.write_reactants_indices_fortran, name, E, s2a, rr, loss, o)
                def call(fn):
                    res = []
                    for y in ys:
                        x = np.full(E, np.nan); yy = np.array(y); fn(dp(yy), dp(x)); res.append(x)
                    return res
                return fort('Reactants_conc.f90', 'reactants', call, o)
            stage('react_fortran_%s' % o, f)
    if 'dydt' in want or 'sparse' in want:
        def f():
            quiet(P.write_loss_gain_matrix, name, E, N, loss, gain, s2a)
            m = load_py('Loss_Gain_numba.py', 'lg')
            return [m.dydt(np.zeros(N), r.copy()) for r in rs]
        stage('dydt_numba', f)
        for o in omp:
            def f():
                quiet(P.write_loss_gain_fortran, name, E, N, loss, gain, s2a, o)
                def call(fn):
                    res = []
                    for r in rs:
                        x = np.full(N, np.nan); rr_ = np.array(r); fn(dp(rr_), dp(x)); res.append(x)
                    return res
                return fort('Loss_Gain.f90', 'loss_gain', call, o)
            stage('dydt_fortran_%s' % o, f)
    if 'jac' in want:
        def f():
            quiet(P.write_gas_jacobian_numba, name, E, N, loss, gain, s2a, rr)
            m = load_py('Jacobian_numba.py', 'jn')
            return [m.jacobian(r.copy(), y.copy(), np.zeros((N, N))) for y, r in zip(ys, rs)]
        stage('jac_numba', f)
        for o in omp:
            def f():
                quiet(P.write_gas_jacobian_fortran, name, E, N, loss, gain, s2a, rr, o)
                def call(fn):
                    res = []
                    for y, r in zip(ys, rs):
                        x = np.full((N, N), np.nan, order='F'); rr_ = np.array(r); yy = np.array(y)
                        fn(dp(rr_), dp(yy), dp(x)); res.append(np.array(x))
                    return res
                return fort('Jacobian.f90', 'jacobian', call, o)
            stage('jac_fortran_%s' % o, f)
    if 'sparse' in want:
        from scipy.sparse import csr_matrix
        def ld(fn):
            l = np.load(fn)
            return csr_matrix((l['data'], l['indices'], l['indptr']), shape=tuple(l['shape'])).toarray()
        stage('sparse_react', lambda: ld('reactants_indices_sparse_%s.npz' % name))
        stage('sparse_lg', lambda: ld('loss_gain_%s.npz' % name))
    if 'ro2' in want:
        def f():
            quiet(P.write_RO2_indices, name, s2a)
            a = np.load(name + '_RO2_indices.npy')
            np.zeros(max(N, 1))[a]          # must be usable as an index
            return a
        stage('ro2', f)
    if 'rates' in want:
        conds = j['conds']           # [ttime, RO2, H2O, temp]
        def f():
            for o in omp:
                rf = R.convert_rate_mcm_fortran(d['rate_dict'])
                out['rate_text_fortran'] = dict(rf)
                quiet(P.write_rate_file_fortran, name, rf, o)
                lib = gfortran(['Rate_coefficients.f90'], ['-fopenmp'] if o else [])
                res = []
                for (t, ro2, h2o, T) in conds:
                    x = np.full(E, np.nan)
                    lib.evaluate_rates_(ctypes.byref(ctypes.c_double(ro2)), ctypes.byref(ctypes.c_double(h2o)), ctypes.byref(ctypes.c_double(T)), ctypes.byref(ctypes.c_double(t)), dp(x))
                    res.append(x)
                out['rates_fortran_%s' % o] = {'ok': True, 'value': res}
        def f_():
            f(); return True
        stage('rates_fortran', f_)
        def g():
            rn = R.convert_rate_mcm_numba(d['rate_dict'])
            out['rate_text_numba'] = dict(rn)
            quiet(P.write_rate_file_numba, name, rn)
            m = load_py('Rate_coefficients_numba.py', 'rn')
            return [m.evaluate_rates(t, ro2, h2o, T, np.zeros(E), np.zeros(63)) for (t, ro2, h2o, T) in conds]
        stage('rates_numba', g)
    return out

def op_convert(j):
    P, R = _mods()
    res = []
    for seq in j['seqs']:            # e.g. ["fortran","fortran","numba"]
        d = {i: t for i, t in enumerate(j['texts'])}
        for s in seq:            # '-name': the result is dropped and the parsed table itself used again
            x = getattr(R, 'convert_rate_mcm_' + s.strip('-'))(d)
            if s[0] != '-': d = x
        res.append([d[i] for i in range(len(j['texts']))])
    return res

OPS = {}
def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    OPS.update({k[3:]: v for k, v in globals().items() if k.startswith('op_')})
    try:
        import worker_ext
        worker_ext.register(OPS, globals())
    except ImportError:
        if os.path.exists(os.path.join(here, 'worker_ext.py')): raise
    outs = []
    for j in json.load(open(jobs_file)):
        try:
            outs.append({'ok': True, 'value': OPS[j['op']](j)})
        except BaseException as e:
            outs.append({'ok': False, 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-2500:]})
        with open(out_file, 'w') as f:
            json.dump(enc(outs), f)
main()
