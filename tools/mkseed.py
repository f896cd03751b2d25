"""Build /verif/seeded/<id>/ from (old,new) edits of a /repo file and a demonstration script."""
import os, subprocess, sys, json, shutil, tempfile
LIB = r'''
import sys, os, io, ctypes, subprocess, contextlib, types, warnings
warnings.filterwarnings('ignore')
import pybox_compat
import numpy as np
REPO = os.environ['REPO_DIR']
sys.path.insert(0, REPO); sys.path.insert(0, REPO + '/Aerosol')
import Parse_eqn_file as P, rate_coeff_conversion as R
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def parse(text):
    open('m.eqn.txt', 'w').write(text)
    return quiet(P.extract_mechanism, 'm.eqn.txt', {'Full_eqn': 0})
def pyfun(path, name):
    src = open(path).read().replace('import numba as nb', '')
    src = '\n'.join(l for l in src.split('\n') if not l.startswith('@nb.') and not l.startswith('@numba'))
    import math
    src = src.replace('import numba', '')
    g = {'numba': types.SimpleNamespace(), 'nb': None}
    exec(compile(src, path, 'exec'), g)
    return g[name]
def fort(path, name, omp=False):
    so = os.path.abspath('lib_%s_%d.so' % (name, len(os.listdir('.'))))
    subprocess.run(['gfortran', '-shared', '-fPIC', path, '-o', so] + (['-fopenmp'] if omp else []), check=True, capture_output=True)
    return getattr(ctypes.CDLL(so), name + '_')
def ptr(a): return a.ctypes.data_as(ctypes.c_void_p)
def close(a, b, tol=1e-5): return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)
def stub(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); sys.modules[name] = m
    return m
def load(path, name):
    import importlib.util
    sp = importlib.util.spec_from_file_location(name, path); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m
def solver(step):
    """stand-in solver: step(problem, T) gives the final state of a batch"""
    class EP:
        def __init__(s, rhs, y0=None, t0=0.0, name='', **k): s.rhs, s.y0, s.t0, s.name = rhs, np.array(y0, dtype=float), t0, name
    class CV:
        def __init__(s, prob): s.prob = prob
        def simulate(s, T, *a):
            out = step(s.prob, T)
            return [s.prob.t0, T], np.array([s.prob.y0, out])
    stub('assimulo'); stub('assimulo.problem', Explicit_Problem=EP)
    stub('assimulo.solvers', **{k: CV for k in ('RodasODE', 'CVode', 'RungeKutta4', 'LSODAR', 'Radau5ODE', 'ExplicitEuler')})
def done(ok, why=''):
    print('ok' if ok else 'PROPERTY BROKEN: %s' % why); sys.exit(0 if ok else 1)
'''
SH = '''#!/bin/bash
# runs in a scratch directory of its own; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); export REPO_DIR=$PWD
w=$(mktemp -d) || exit 2
export PYTHONPATH=/opt/vp:$d PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_DISABLE_JIT=1
cd "$w" && timeout 250 /opt/venv/bin/python "$d/demo.py"; rc=$?
cd / && rm -rf "$w"
exit $rc
'''
def make(id, prop, file, edits, needs, breaks, demo):
    d = '/verif/seeded/%s' % id
    t = tempfile.mkdtemp(prefix='mkseed_')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % t, shell=True, check=True)
    subprocess.run('cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x' % t, shell=True, check=True)
    files = [file] if isinstance(file, str) else file
    for e in edits:
        f, (old, new) = (e[0], e[1:]) if len(e) == 3 else (files[0], e)
        s = open(t + '/' + f, newline='').read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(t + '/' + f, 'w', newline='').write(s.replace(old, new))
    p = subprocess.run(['git', 'diff'], cwd=t, capture_output=True).stdout
    shutil.rmtree(t)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(p)
    open(d + '/pbdemo.py', 'w').write(LIB)
    open(d + '/demo.py', 'w').write('from pbdemo import *\n' + demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    import importlib.util
    src = open('/verif/tools/seeds.py').read()
    only = set(sys.argv[1:])
    def S(id, *a, **k):
        if not only or id in only: make(id, *a, **k); print('made', id)
    exec(compile(src, 'seeds.py', 'exec'), {'S': S})
