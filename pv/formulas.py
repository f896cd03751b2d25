"""C17, C19: functions that compute arrays by closed formulas.  The real function is executed symbolically for arrays of arbitrary
length (pv/simx.py); each obligation is an identity between formulas, decided by a computer algebra normal form (sympy);
an identity that does not normalise is refuted only by an exact evaluation that differs."""
import ast, os, time, random
from fractions import Fraction
import z3, sympy as sp
from .common import REPO
from .simx import Sim, Env, Arr, Fun, OutOfReach, num, real, isnum, I, R, EL, POW

class FSpec:
    callees = {}
    ratio = simt = d = None
    nspec = 0
    def __init__(self):
        self.simt = self.d = z3.Real('unused')
    def keyfacts(self, k): return []

def tosym(e, env):
    """z3 real term -> sympy; env maps names of constants to sympy expressions, functions of indices to callables"""
    memo = {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i]
        memo[i] = r = go1(t); return r
    def go1(t):
        k = t.decl().kind(); ch = t.children(); n = t.decl().name()
        if z3.is_rational_value(t): return sp.Rational(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t): return sp.Integer(t.as_long())
        a = lambda: [go(c) for c in ch]
        if k == z3.Z3_OP_ADD: return sp.Add(*a())
        if k == z3.Z3_OP_MUL: return sp.Mul(*a())
        if k == z3.Z3_OP_SUB:
            x = a(); return x[0] - sp.Add(*x[1:])
        if k == z3.Z3_OP_UMINUS: return -go(ch[0])
        if k == z3.Z3_OP_DIV: x = a(); return x[0] / x[1]
        if k == z3.Z3_OP_TO_REAL: return go(ch[0])
        if k == z3.Z3_OP_POWER: x = a(); return x[0] ** x[1]
        if n == 'pow': x = a(); return x[0] ** x[1]
        if n == 'pi' and not ch: return sp.pi
        if n.startswith('fn_'):
            f = {'exp': sp.exp, 'log': sp.log, 'log10': lambda x: sp.log(x) / sp.log(10), 'sqrt': sp.sqrt, 'cos': sp.cos, 'sin': sp.sin, 'tan': sp.tan}[n[3:]]
            return f(go(ch[0]))
        if n in env:
            v = env[n]
            return v(*a()) if ch else v
        raise OutOfReach('term %s' % n)
    return go(z3.simplify(e) if False else e)

class Alg:
    def __init__(self, label): self.label, self.vcs = label, []
    def zero(self, name, expr, samples):
        """expr is identically zero; samples(): list of substitution dicts for refutation"""
        t = time.time(); st, det = 'undecided', ''
        try:
            e = expr
            for f in (lambda x: x, sp.expand, sp.powsimp, sp.simplify, lambda x: sp.simplify(sp.expand(sp.powdenest(x, force=True)))):
                e2 = f(e)
                if e2 == 0: st = 'proved'; break
            if st != 'proved':
                for sub in samples:
                    v = sp.N(expr.subs(sub), 40)
                    if v.free_symbols: continue
                    if abs(v) > sp.Float('1e-25'): st, det = 'failed', 'at %s the two sides differ by %s' % ({str(k): str(x) for k, x in sub.items()}, sp.N(v, 8)); break
        except OutOfReach: raise
        except Exception as ex: det = '%s: %s' % (type(ex).__name__, ex)
        self.vcs.append(('%s: %s' % (self.label, name), st, round(time.time() - t, 3), det, 'sympy'))
        return st == 'proved'
    def sign(self, name, e, samples):
        ok = bool(e.is_positive or sp.simplify(e).is_positive)
        st, det = ('proved', '') if ok else ('undecided', 'sign of %s' % e)
        if not ok:
            for sub in samples:
                v = sp.N(e.subs(sub), 30)
                if v.is_real and v < 0: st, det = 'failed', 'negative at %s' % sub; break
        self.vcs.append(('%s: %s' % (self.label, name), st, 0.0, det, 'sympy'))
    def fact(self, name, ok, det='', backend='evaluation'):
        self.vcs.append(('%s: %s' % (self.label, name), 'proved' if ok else 'failed', 0.0, '' if ok else det, backend))
        return ok
    def z3(self, name, hyps, goal):
        t = time.time(); s = z3.Solver(); s.set('timeout', 20000); s.add(*hyps); s.add(z3.Not(goal)); r = str(s.check())
        st = {'unsat': 'proved', 'sat': 'failed'}.get(r, 'undecided')
        self.vcs.append(('%s: %s' % (self.label, name), st, round(time.time() - t, 3), '' if st == 'proved' else str(s.model()) if r == 'sat' else '', 'z3'))

def load(path, limit):
    tree = ast.parse(open(os.path.join(REPO, path)).read())
    S = Sim(path, limit); S.spec = FSpec()
    genv = Env()
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Assign)):
            try: S.st(st, genv)
            except OutOfReach: pass
    return S, genv

def result(lab, S, vcs, fns, oor, t0, covers=None):
    return dict(label=lab, vcs=vcs, functions=fns, oor=oor, covers=covers or {'the function is executed to its end': oor is None}, wall=time.time() - t0)

def sizes(limit):
    t0 = time.time(); path = 'Aerosol/Size_distributions.py'; A = Alg('lognormal'); oor = None
    S = None
    try:
        S, env = load(path, limit)
        f = env.v.get('lognormal')
        if not isinstance(f, Fun): raise OutOfReach('lognormal not found')
        n = z3.Int('num_bins'); tot, med, sd, lo, hi = z3.Reals('total_conc meansize std lowersize uppersize')
        S.hyp += [n >= 2, tot >= 0, med > 0, sd > 1, lo > 0, hi > lo]
        vals = dict(num_bins=n, total_conc=tot, meansize=med, std=sd, lowersize=lo, uppersize=hi)
        ret = S.callfun(f, [vals[a.arg] for a in f.node.args.args], {})
        if not (isinstance(ret, tuple) and len(ret) == 2 and all(isinstance(x, Arr) and len(x.shape) == 1 for x in ret)): raise OutOfReach('shape of the result')
        N, X = ret
        for nm, a in (('bin numbers', N), ('sizes', X)): S.vc('lognormal: %s has one entry per bin' % nm, num(a.shape[0]) == n)
        A.vcs += S.vcs
        # every quantity through logarithms: median = exp(mu), std = exp(sg), bounds = exp(l), exp(l + w)
        mu, l, h = sp.symbols('mu l h', real=True); sg, w, T = sp.symbols('sg w T', positive=True); nb = sp.Symbol('q', positive=True) + 1; i, j = sp.symbols('i j', nonnegative=True)
        sumsym = {}
        def mk(ix):
            e = dict(num_bins=nb, total_conc=T, meansize=sp.exp(mu), std=sp.exp(sg), lowersize=sp.exp(l), uppersize=sp.exp(l + w), idx=ix)
            e['sum_of'] = lambda c: c
            for k, (sh, fn, c) in enumerate(S.sums):
                sumsym.setdefault(str(c), sp.Symbol('S%d' % k, positive=True)); e[str(c)] = sumsym[str(c)]
            return e
        zi = z3.Int('idx')
        x_i, x_j = tosym(real(X.at(zi)), mk(i)), tosym(real(X.at(zi)), mk(j))
        n_i, n_j = tosym(real(N.at(zi)), mk(i)), tosym(real(N.at(zi)), mk(j))
        lg = lambda e: sp.expand_log(sp.log(sp.powsimp(e)), force=True)
        rnd = random.Random(7)
        def smp(**fix):
            out = []
            for _ in range(3):
                d = {mu: sp.Rational(rnd.randint(-9, 9), 4), l: sp.Rational(rnd.randint(-9, 9), 5), w: sp.Rational(rnd.randint(1, 9), 3), sg: sp.Rational(rnd.randint(1, 9), 7), T: sp.Integer(rnd.randint(1, 99)), sp.Symbol('q', positive=True): sp.Integer(4), i: sp.Integer(1), j: sp.Integer(3)}
                for s_ in sumsym.values(): d[s_] = sp.Rational(rnd.randint(1, 50), 7)
                d.update(fix); out.append(d)
            return out
        want = l + i * w / (nb - 1)
        A.zero('sizes are evenly spaced in the logarithm from the lower to the upper bound', lg(x_i) - want, smp())
        # strictly increasing: exp is strictly increasing and the exponent is linear with positive slope
        a, b, ww, nn = z3.Reals('i j w n')
        A.z3('sizes strictly increase (logarithms; exp is strictly increasing)', [ww > 0, nn >= 2, a >= 0, b > a], a * ww / (nn - 1) < b * ww / (nn - 1))
        pdf = lambda x: sp.exp(-(sp.expand_log(sp.log(x), force=True) - mu) ** 2 / (2 * sg ** 2)) / (x * sg * sp.sqrt(2 * sp.pi))
        xs_i, xs_j = sp.exp(want), sp.exp(want.subs(i, j))
        r = sp.expand(lg(n_i) - lg(n_j) - (lg(pdf(xs_i)) - lg(pdf(xs_j))))
        A.zero('bin numbers are in proportion to the log-normal density of the given median and geometric standard deviation', r, smp())
        # total: N(i) = total * f(i) / sum f for a summed array f of the same length
        done = False; last = None
        for sh, fn, c in S.sums:
            if len(sh) != 1 or not S.valid(num(sh[0]) == n): continue
            f_i = tosym(real(fn(zi)), mk(i)); s_ = sumsym[str(c)]
            last = sp.expand(lg(n_i) + sp.log(s_) - sp.log(T) - lg(f_i))
            if sp.simplify(last) == 0:
                done = True
                A.zero('bin numbers are total times share of the sum, so they add up to the total (sum of f(i)/S is 1 for S the sum of f)', last, [])
                A.sign('the summed array is positive', f_i, smp())
                break
        if not done: A.zero('bin numbers add up to the total', last if last is not None else sp.log(n_i.subs(i, 0) / T), smp() if last is not None else [])
        A.sign('bin numbers are not negative', n_i, smp())
    except OutOfReach as e: oor = str(e)
    except Exception as e:
        if os.environ.get('PV_DEBUG'): raise
        oor = '%s: %s' % (type(e).__name__, e)
    return result('C17 ' + path, S, A.vcs, ['%s:lognormal' % path], oor, t0)

def kinetic(limit):
    t0 = time.time(); path = 'Aerosol/Property_calculation.py'; A = Alg('Pure_component2'); oor = None; S = None
    try:
        S, env = load(path, limit)
        f = env.v.get('Pure_component2')
        if not isinstance(f, Fun): raise OutOfReach('Pure_component2 not found')
        n, L = z3.Int('num_species'), z3.Int('n_mw')
        Mf = z3.Function('M', I, R); Rg, Tm = z3.Reals('R_gas temp')
        S.hyp += [n >= 1, L == n, Rg > 0, Tm > 0]
        vals = dict(num_species=n, y_mw=Arr((n,), lambda i: Mf(num(i)), kind='list'), R_gas=Rg, temp=Tm)
        mw = vals['y_mw']; fn0 = mw.data.fn
        ret = S.callfun(f, [vals[a.arg] for a in f.node.args.args], {})
        if not isinstance(ret, dict): raise OutOfReach('result')
        A.fact('the list of weights is left as it was', mw.data.fn is fn0 or S.valid(mw.at(z3.Int('i')) == Mf(z3.Int('i'))))
        M, g, T = sp.symbols('M R T', positive=True)
        D = sp.Rational(19, 10) * M ** sp.Rational(-2, 3); V = sp.sqrt(8 * g * T / (sp.pi * M / 1000))
        want = {'DStar_org': D, 'mean_them_vel': V, 'gamma_gas': 3 * D / (V * 100) / 100}
        zi = z3.Int('idx')
        for k in list(want) + ['alpha_d_org']:
            if not A.fact('%s is returned' % k, k in ret): continue
            a = S.arr(ret[k])
            S.vc('Pure_component2: %s has one entry per compound' % k, num(a.shape[0]) == n)
            if k == 'alpha_d_org':
                v = real(a.at(zi)); S.vc('Pure_component2: the accommodation coefficient is in (0,1]', z3.Implies(z3.And(zi >= 0, zi < n), z3.And(v > 0, v <= 1)))
                continue
            got = tosym(real(a.at(zi)), {'M': lambda ix: M if str(ix) == 'idx' else sp.Symbol('M_other_%s' % ix, positive=True), 'idx': sp.Symbol('idx'), 'R_gas': g, 'temp': T, 'num_species': sp.Symbol('n', positive=True)})
            smp = [{M: sp.Integer(x), g: sp.Rational(8314, 1000), T: sp.Integer(y), sp.Symbol('n', positive=True): 3} for x, y in ((200, 298), (18, 310), (64, 250))]
            for d in smp:
                for s_ in got.free_symbols: d.setdefault(s_, sp.Integer(77))
            A.zero('%s follows the formula' % k, got - want[k], smp)
        A.vcs += S.vcs
    except OutOfReach as e: oor = str(e)
    except Exception as e:
        if os.environ.get('PV_DEBUG'): raise
        oor = '%s: %s' % (type(e).__name__, e)
    return result('C19 ' + path, S, A.vcs, ['%s:Pure_component2' % path], oor, t0)
