"""What the table-building functions have to establish (C01, C02, C18, C20), for the executor of pv/focus.py."""
import ast, os, time
import z3
from .common import REPO
from .focus import *
from . import focus

def sel(a, *ks):
    for k in ks: a = z3.Select(a, k)
    return a

class Spec:
    axioms = []
    def __init__(self): self.roles = {}
    def shape2(self, X, d): return I, R
    def candidates(self, X, typed, node, it, outer): return []
    def on_elem(self, X, it, ctx, x): pass
    def lib(self, X, name, args, kw, e): return NotImplemented
    def iter_map(self, X, ref, o, what): raise Out('iteration over a table')
    def utruth(self, X, v): return X.branch(TRUTH(v))
    def uattr(self, X, v, a): return uf('.' + a, v)
    def umethod(self, X, o, m, args): raise Out('method %s' % m)
    def obj(self, st, role):
        rid = self.roles.get(role)
        return st.heap.get(rid) if rid is not None else None
    def map(self, st, role, two=False):
        o = self.obj(st, role)
        return o if isinstance(o, HMap) and (o.k2 is not None) == two else None
TRUTH = z3.Function('truth', U, B)

# ---- tokens of a KPP mechanism (C01, C02) ------------------------------------------------------
F = {d: dict(LEN=z3.Function('LEN' + d, I, I), NAME=z3.Function('NAME' + d, I, I, U), COEF=z3.Function('COEF' + d, I, I, R), HASNUM=z3.Function('HASNUM' + d, I, I, B),
             NDIG=z3.Function('NDIG' + d, I, I, I), BLANK=z3.Function('BLANK' + d, I, I, B), PC=z3.Function('PC' + d, I, I, B), PS=z3.Function('PS' + d, I, I, R),
             FULL=z3.Function('FULL' + d, I, I, U), PDIG=z3.Function('PDIG' + d, I, I, I)) for d in 'LR'}
RATE, RAWRATE = z3.Function('RATE', I, U), z3.Function('RAWRATE', I, U)
OCC = z3.Function('OCC', I, B)            # the focus species occurs in a reaction before this one
NE = z3.Int('number of reactions')
fE, fS = z3.Int('focus reaction'), z3.Const('focus species', U)
fI, fK = z3.Int('focus position'), z3.Int('focus step')
HV = ustr('hv')
NUMPATS = (r"[-+]?\d*\.\d+|\d+|\d+", r"[-+]?\d*\.\d+|\d+", r"\d*\.\d+|\d+", r"[-+]?\d*\.\d+|[-+]?\d+")

class Tok(SymVal):
    """one species with its coefficient as written: spaces NUM NAME spaces (raw), NUM NAME (core), NAME (name)"""
    def __init__(s, d, e, j, stage): s.d, s.e, s.j, s.stage = d, e, j, stage
    def g(s, n): return F[s.d][n](s.e, s.j)
    def st(s, stage): return Tok(s.d, s.e, s.j, stage)
    def method(s, X, m, a):
        if m in ('strip', 'lstrip', 'rstrip') and (not a or a[0] in (' ', '\t ', ' \t')):
            return s.st('core' if s.stage == 'raw' and m == 'strip' else s.stage)
        if m == 'replace' and a[0] in (' ',) and a[1] == '': return s.st('core' if s.stage == 'raw' else s.stage)
        if m == 'split' and not a: return Words(s)
        if s.stage == 'raw': raise Out('text method %s before the spaces are removed' % m)
        if m == '__str__': return s
        if s.stage == 'core' and a and isinstance(a[0], Num):
            n = a[0]
            if n.t.d != s.d or not (n.t.e.eq(s.e) and n.t.j.eq(s.j)): raise Out('coefficient of another species')
            if m in ('index', 'find'):
                if n.own: return 0
                X.assume(s.g('PDIG') > 0); return s.g('PDIG')
            if m == 'startswith': return n.own
            if n.own:
                if m == 'split' and len(a) == 2 and a[1] == 1: return ('', s.st('name'))
                if m == 'partition': return ('', n, s.st('name'))
                if m == 'replace' and a[1] == '' and len(a) == 3 and a[2] == 1: return s.st('name')
                if m == 'removeprefix': return s.st('name')
        raise Out('text method %s on a species' % m)
    def index(s, X, k):
        if isinstance(k, slice) and s.stage == 'core' and isinstance(k.start, NumLen) and k.start.n.own and k.stop is None and k.step is None: return s.st('name')
        raise Out('part of a species text')
    def truth(s, X): return z3.Not(s.g('BLANK')) if s.stage != 'raw' else X.fresh('t', B)
    def eq(s, X, r):
        if r == '' and s.stage == 'core': return s.g('BLANK')
        if r == '' and s.stage == 'name': return False
        return None
    def u(s, X):
        if s.stage == 'name': return s.g('NAME')
        if s.stage == 'core':
            if X.branch(s.g('BLANK')): return ustr('')
            if X.branch(s.g('HASNUM')): return s.g('FULL')
            return s.g('NAME')
        return z3.Function('RAWTOK' + s.d, I, I, U)(s.e, s.j)
class Words(SymVal):
    def __init__(s, t): s.t = t
    def index(s, X, k):
        if k not in (0, -1): raise Out('second word of a species text')
        if s.t.stage != 'name' and X.branch(s.t.g('BLANK')): raise Exc('IndexError')
        return s.t.st('core' if s.t.stage == 'raw' else s.t.stage)
    def method(s, X, m, a):
        if m == '__len__': return z3.If(s.t.g('BLANK'), z3.IntVal(0), z3.IntVal(1))
        if m == 'joined' and a[0] == '': return s.t.st('core' if s.t.stage == 'raw' else s.t.stage)
        raise Out('words.%s' % m)
    def truth(s, X): return z3.Not(s.t.g('BLANK'))
class Nums(SymVal):
    """the numbers in a species text, left to right"""
    def __init__(s, t): s.t = t
    def count(s, X):
        t = s.t
        nd = t.g('NDIG')
        return nd + (z3.If(t.g('HASNUM'), z3.IntVal(1), z3.IntVal(0)) if t.stage == 'core' else 0)
    def method(s, X, m, a):
        if m == '__len__': return s.count(X)
        raise Out('numbers.%s' % m)
    def index(s, X, k):
        if k != 0: raise Out('a later number of a species text')
        if s.t.stage == 'core' and X.branch(s.t.g('HASNUM')): return Num(s.t, True)
        if not X.branch(s.t.g('NDIG') > 0): raise Exc('IndexError')
        return Num(s.t, False)
    def truth(s, X): return s.count(X) > 0
class Num(SymVal):
    """own: the coefficient; else the first group of digits inside the name"""
    def __init__(s, t, own): s.t, s.own = t, own
    def method(s, X, m, a):
        if m == '__float__' and s.own: return s.t.g('COEF')
        if m == '__float__': return X.fresh('digits', R)
        if m == '__len__': return NumLen(s)
        raise Out('number.%s' % m)
class NumLen(SymVal):
    def __init__(s, n): s.n = n

class EqText(SymVal):
    def __init__(s, e, part, clean=False): s.e, s.part, s.clean = e, part, clean
    def method(s, X, m, a):
        e = s.e
        if s.part == 'rate':
            if m in ('strip', 'lstrip', 'rstrip') and not a: return s
            if m == 'split' and not a: return RateWords(e)
        if m in ('strip', 'lstrip', 'rstrip'): return s
        if m == 'replace' and a[0] in ('\t', '\n', '\r') and a[1] == '': return s
        if s.part == 'all' and m in ('split', 'partition') and a and a[0] == ':':
            r = (EqText(e, 'sides'), EqText(e, 'rate'))
            return r if m == 'split' else (r[0], ':', r[1])
        if s.part == 'sides' and m in ('split', 'partition') and a and a[0] == '=':
            r = (EqText(e, 'L'), EqText(e, 'R'))
            return r if m == 'split' else (r[0], '=', r[1])
        if s.part in 'LR' and m == 'split' and a == ['+']: return toks(X, s.part, e)
        raise Out('text method %s on a reaction' % m)
    def u(s, X):
        if s.part == 'rate': return RATE(s.e) if s.clean else RAWRATE(s.e)
        raise Out('reaction text as a value')
    def truth(s, X):
        if s.part == 'R': return z3.Not(F['R']['BLANK'](s.e, 0)) if False else X.fresh('t', B)
        return z3.BoolVal(True)
class RateWords(SymVal):
    def __init__(s, e): s.e = e
    def method(s, X, m, a):
        if m == 'joined' and a[0] == '': return EqText(s.e, 'rate', True)
        raise Out('rate words')
def toks(X, d, e):
    f = F[d]
    X.st.pc += [f['LEN'](e) >= 1, z3.Not(f['PC'](e, 0)), f['PS'](e, 0) == 0]
    def at(j):
        n, b = f['NAME'](e, j), f['BLANK'](e, j)
        hit = z3.And(z3.Not(b), n == fS)
        X.st.pc += [f['COEF'](e, j) > 0, z3.Implies(z3.Not(f['HASNUM'](e, j)), f['COEF'](e, j) == 1), f['NDIG'](e, j) >= 0, n != ustr(''), f['FULL'](e, j) != HV,
                    z3.Implies(z3.Not(f['PC'](e, j)), f['PS'](e, j) == 0),            # a sum over no occurrence (by induction from the two equations below)
                    f['PC'](e, j + 1) == z3.Or(f['PC'](e, j), hit), f['PS'](e, j + 1) == f['PS'](e, j) + z3.If(hit, f['COEF'](e, j), z3.RealVal(0)),
                    z3.Not(b) if d == 'L' else z3.Implies(b, f['LEN'](e) == 1)]
        g = X.st.ground.setdefault('n', [])
        if not any(n.eq(q) for q in g): g.append(n)
        return Tok(d, e, j, 'raw')
    return Seq(f['LEN'](e), at)
class FileVal(SymVal):
    def method(s, X, m, a):
        if m == 'read': return Data(False)
        if m == 'close': return None
        raise Out('file.%s' % m)
class Data(SymVal):
    def __init__(s, flat): s.flat = flat
    def method(s, X, m, a):
        if m == 'replace' and a[1] == '' and a[0] in ('\n', '\r', '\t'): return Data(s.flat or a[0] == '\n')
        raise Out('file text.%s' % m)
class Label(SymVal):
    def method(s, X, m, a):
        if m in ('strip', 'rstrip') and (not a or set(a[0]) <= set('. ')): return s
        if m == '__int__': return NE
        raise Out('label.%s' % m)

class Parse(Spec):
    axioms = [fE >= 0, fE < NE, NE >= 1, fS != HV, fS != ustr(''), z3.Not(OCC(0))]
    ROLES = ('species_dict', 'species_dict2array', 'loss_dict', 'gain_dict', 'rate_dict', 'rate_dict_reactants')
    def shape2(self, X, d): return (I, U) if d.id == self.roles.get('rate_dict_reactants') else (I, R)
    def lib(self, X, name, args, kw, e):
        if name in ('open', 'io.open', 'codecs.open'): return FileVal()
        if name == 're.findall':
            p, t = args[0], args[1]
            if isinstance(t, Data):
                q = p.replace('\\', '')
                if q == '{(.*?)}' and p.startswith('\\{') : return LabelSeq
                if q == '}(.*?);':
                    if not t.flat: raise Out('reactions read line by line')
                    return Seq(NE, lambda k: EqText(k, 'all'))
            if isinstance(t, Tok) and t.stage in ('core', 'name') and p in NUMPATS:
                if t.stage == 'core' and X.branch(t.g('BLANK')): return X.new(e, HList([]))
                return Nums(t)
            raise Out('regular expression %r' % (p,))
        if name == 're.sub' and isinstance(args[2], EqText) and args[1] == '':
            if args[0] in ('\t', r'\t'): return args[2]
            if args[2].part == 'rate' and args[0] in (r'\s+', r'\s'): return EqText(args[2].e, 'rate', True)
            raise Out('re.sub')
        return NotImplemented
    def names(self, X, st, ctx):
        out = [fS]
        if not ctx.prove:
            out += st.ground.get('n', [])
            m = self.map(st, 'species_dict')
            if m is not None and m.k1 == I and m.vs == U: out.append(sel(m.val, fI))
        return out
    def positions(self, X, st, ctx):
        out = [fI]
        m, sd = self.map(st, 'species_dict2array'), self.map(st, 'species_dict')
        if not ctx.prove and m is not None and sd is not None and m.vs == I and sd.k1 == I:
            out += [sel(m.val, n) for n in self.names(X, st, ctx)] + [sd.size]
        return out
    # registration: SD position -> name, SA name -> position
    def reg(self):
        def two(f):
            def g(X, st, en, ctx):
                sd, sa = self.map(st, 'species_dict'), self.map(st, 'species_dict2array')
                if sd is None or sa is None or sd.k1 != I or sd.vs != U or sa.k1 != U or sa.vs != I: return [z3.BoolVal(False)]
                return f(X, st, en, ctx, sd, sa)
            return g
        N = lambda f: two(lambda X, st, en, ctx, sd, sa: [f(sd, sa, n) for n in self.names(X, st, ctx)])
        P = lambda f: two(lambda X, st, en, ctx, sd, sa: [f(sd, sa, i) for i in self.positions(X, st, ctx)])
        return [('counts are not negative', N(lambda sd, sa, n: sel(sd.cnt, n) >= 0)),
                ('a name has a position exactly when a position has it', N(lambda sd, sa, n: (sel(sd.cnt, n) > 0) == sel(sa.dom, n))),
                ('no name has two positions', N(lambda sd, sa, n: sel(sd.cnt, n) <= 1)),
                ('the position of a name holds the name', N(lambda sd, sa, n: z3.Implies(sel(sa.dom, n), z3.And(sel(sa.val, n) >= 0, sel(sa.val, n) < sd.size, sel(sd.dom, sel(sa.val, n)), sel(sd.val, sel(sa.val, n)) == n)))),
                ('the positions used are 0 to N-1', P(lambda sd, sa, i: sel(sd.dom, i) == z3.And(i >= 0, i < sd.size))),
                ('the name at a position has that position', P(lambda sd, sa, i: z3.Implies(sel(sd.dom, i), z3.And(sel(sd.cnt, sel(sd.val, i)) >= 1, sel(sa.dom, sel(sd.val, i)), sel(sa.val, sel(sd.val, i)) == i)))),
                ('both tables have the same size', two(lambda X, st, en, ctx, sd, sa: [sd.size == sa.size])),
                ('hv has no position', two(lambda X, st, en, ctx, sd, sa: [z3.Not(sel(sa.dom, HV)), sel(sd.cnt, HV) == 0]))]
    def candidates(self, X, typed, node, it, outer):
        out = list(self.reg())
        ROLE = {'L': 'loss_dict', 'R': 'gain_dict'}
        def counter(v):
            def g(X, st, en, ctx):
                sd = self.map(st, 'species_dict')
                if sd is None or isinstance(st.env.get(v), Lost) or v not in st.env: return [z3.BoolVal(False)]
                return [X.z(st.env[v], I) == sd.size]
            return g
        for v, val in typed.env.items():
            if isinstance(val, int) and not isinstance(val, bool) or z3.is_expr(val) and val.sort() == I: out.append(('%s is the number of species' % v, counter(v)))
        cell = lambda st, role: (lambda o: None if o is None or o.k1 != U else (sel(o.dom, fS, fE), sel(o.val, fS, fE)))(self.map(st, role, True))
        def incell(role, d):
            def g(X, st, en, ctx):
                c = cell(st, role)
                if c is None: return [z3.BoolVal(False)]
                e = ctx.outer.at
                return [z3.Implies(e == fE, z3.And(c[0] == F[d]['PC'](fE, ctx.at), z3.Implies(c[0], c[1] == F[d]['PS'](fE, ctx.at))))]
            return g
        def frame(role, f, cond):
            def g(X, st, en, ctx):
                a, b = f(st, role), f(en, role)
                if a is None and b is None: return []
                if a is None or b is None: return [z3.BoolVal(False)]
                eqs = z3.And([x == y for x, y in zip(a, b)])
                return [z3.Implies(ctx.outer.at != fE, eqs) if cond else eqs]
            return g
        def regf(st, role):
            o = self.map(st, role)
            return None if o is None else ((sel(o.cnt, fS),) if role == 'species_dict' else (sel(o.dom, fS), sel(o.val, fS)))
        def rdrc(st, role):
            o = self.map(st, role, True)
            return None if o is None or o.k1 != I or o.vs != U else (sel(o.cnt, fE, fS),)
        def rdrk(st, role):
            o = self.map(st, role, True)
            return None if o is None or o.k1 != I or o.vs != U else (sel(o.dom, fE, fK),)
        def ratec(st, role):
            o = self.map(st, role)
            return None if o is None or o.k1 != I else (sel(o.dom, fE), sel(o.val, fE))
        def later(f, role): return lambda X, st, en, ctx: [z3.Implies(fE >= ctx.at, z3.Not(f(st, role)[0]) if f(st, role)[0].sort() == B else f(st, role)[0] == 0)] if f(st, role) is not None else [z3.BoolVal(False)]
        if outer is None and isinstance(it, Seq):
            for d, role in ROLE.items():
                def done(X, st, en, ctx, d=d, role=role):
                    c = cell(st, role)
                    if c is None: return [z3.BoolVal(False)]
                    return [z3.Implies(fE < ctx.at, z3.And(c[0] == F[d]['PC'](fE, F[d]['LEN'](fE)), z3.Implies(c[0], c[1] == F[d]['PS'](fE, F[d]['LEN'](fE)))))]
                out += [('%s: earlier reactions' % role, done), ('%s: later reactions' % role, later(cell, role))]
            def rate(X, st, en, ctx):
                o = ratec(st, 'rate_dict')
                return [z3.BoolVal(False)] if o is None or o[1].sort() != U else [z3.Implies(fE < ctx.at, z3.And(o[0], o[1] == RATE(fE)))]
            def rdr(X, st, en, ctx):
                o = rdrc(st, 'rate_dict_reactants')
                return [z3.BoolVal(False)] if o is None else [z3.Implies(fE < ctx.at, o[0] == z3.If(F['L']['PC'](fE, F['L']['LEN'](fE)), z3.IntVal(1), z3.IntVal(0)))]
            out += [('rate texts', rate), ('rate texts: later reactions', later(ratec, 'rate_dict')), ('reactant lists: earlier reactions', rdr), ('reactant lists: later reactions', later(rdrc, 'rate_dict_reactants')), ('reactant steps: later reactions', later(rdrk, 'rate_dict_reactants'))]
            def exact(X, st, en, ctx):
                sd = self.map(st, 'species_dict')
                return [z3.BoolVal(False)] if sd is None else [(sel(sd.cnt, fS) > 0) == OCC(ctx.at)]
            out.append(('exactly the species met so far are registered', exact))
        elif outer is not None and isinstance(outer.it, Seq):
            for d in 'LR':
                for role in ROLE.values(): out.append(('%s follows the %s side' % (role, d), incell(role, d)))
                def ex(X, st, en, ctx, d=d):
                    a, b = regf(st, 'species_dict'), regf(en, 'species_dict')
                    if a is None: return [z3.BoolVal(False)]
                    was = b[0] > 0 if b is not None else z3.BoolVal(False)
                    return [(a[0] > 0) == z3.Or(was, F[d]['PC'](ctx.outer.at, ctx.at))]
                out.append(('registered: before or on the %s side so far' % d, ex))
                def rc(X, st, en, ctx, d=d):
                    o = rdrc(st, 'rate_dict_reactants')
                    return [z3.BoolVal(False)] if o is None else [z3.Implies(ctx.outer.at == fE, o[0] == z3.If(F[d]['PC'](fE, ctx.at), z3.IntVal(1), z3.IntVal(0)))]
                out.append(('reactant list follows the %s side' % d, rc))
            def rk(X, st, en, ctx):
                o = self.map(st, 'rate_dict_reactants', True)
                if o is None or o.k1 != I: return [z3.BoolVal(False)]
                return [z3.Implies(z3.And(ctx.outer.at == fE, sel(o.dom, fE, k)), z3.And(k >= 0, k < ctx.at)) for k in [fK] + ([] if ctx.prove else [ctx.at])]
            out.append(('reactant steps so far', rk))
            for role, f in (('loss_dict', cell), ('gain_dict', cell), ('rate_dict', ratec), ('rate_dict_reactants', rdrc), ('rate_dict_reactants', rdrk), ('species_dict', regf), ('species_dict2array', regf)):
                out += [('%s %s unchanged' % (role, f.__name__), frame(role, f, False)), ('%s %s unchanged in other reactions' % (role, f.__name__), frame(role, f, True))]
        return out
    def on_elem(self, X, it, ctx, x):
        if ctx.outer is None and isinstance(it, Seq):
            e = ctx.at
            X.st.pc += [OCC(e + 1) == z3.Or(OCC(e), F['L']['PC'](e, F['L']['LEN'](e)), F['R']['PC'](e, F['R']['LEN'](e)))]
    def post(self, X, st, ret):
        obs = []
        o = st.heap[ret.id] if isinstance(ret, Ref) else None
        if not isinstance(o, HDict): raise Out('the result is not a dictionary')
        C = Ctx(None, None, None, None); C.prove = True
        roles = {}
        for k, v in o.items.items():
            if isinstance(v, Ref): roles[k] = v.id
        self.roles = roles
        m = o.items.get('max_equations')
        obs.append(('C01 the number of reactions', X.z(m, I) == NE if m is not None and not isinstance(m, (Ref, Junk)) else z3.BoolVal(False)))
        for d, role, w in (('L', 'loss_dict', 'consumed'), ('R', 'gain_dict', 'produced')):
            c = self.map(st, role, True)
            if c is None or c.k1 != U: obs.append(('C01 %s amounts' % w, None)); continue
            dom, val = sel(c.dom, fS, fE), sel(c.val, fS, fE)
            pc, ps = F[d]['PC'](fE, F[d]['LEN'](fE)), F[d]['PS'](fE, F[d]['LEN'](fE))
            obs += [('C01 a species is %s in a reaction exactly when it is written on that side' % w, dom == pc), ('C01 the amount %s is the sum of its coefficients' % w, z3.Implies(dom, val == ps))]
        r = self.map(st, 'rate_dict')
        obs.append(('C01 the rate text of each reaction', None if r is None or r.vs != U else z3.And(sel(r.dom, fE), sel(r.val, fE) == RATE(fE))))
        q = self.map(st, 'rate_dict_reactants', True)
        obs.append(('C01 each reaction lists each of its reactants once', None if q is None or q.vs != U else sel(q.cnt, fE, fS) == z3.If(F['L']['PC'](fE, F['L']['LEN'](fE)), z3.IntVal(1), z3.IntVal(0))))
        sd = self.map(st, 'species_dict')
        for nm, f in self.reg()[1:]:
            try: fs = f(X, st, st, C); fs = None if fs and z3.is_false(fs[0]) else z3.And(*fs)
            except Out: fs = None
            obs.append(('C02 ' + nm, fs))
        obs.append(('C02 the species with a position are exactly those that occur in the mechanism', None if sd is None else (sel(sd.cnt, fS) > 0) == OCC(NE)))
        return obs
class _Labels(SymVal):
    def index(s, X, k):
        if k == -1: return Label()
        raise Out('label %r' % (k,))
    def method(s, X, m, a):
        if m == '__len__': return NE
        raise Out('labels.%s' % m)
LabelSeq = _Labels()

# ---- component properties (C18) ----------------------------------------------------------------
class Props(Spec):
    """tables: N species, species_dict: 0..N-1 -> name, species_dict2array its inverse (property C02)"""
    CELLS = ('y_density_array', 'y_mw', 'o_c', 'h_c', 'sat_vp')
    def __init__(self, bp, vp, crit, dens, ign):
        Spec.__init__(self)
        self.m = (bp, vp, crit, dens, ign)
        self.N = z3.Int('N'); self.temp = z3.Const('temperature', U); self.cut = z3.Real('cut-off')
        A = lambda n, k, v: z3.Const(n, z3.ArraySort(k, v))
        self.nat, self.pos = A('name at', I, U), A('position of', U, I)
        self.SP = A('is a species', U, B)
        self.hs, self.sm, self.hm, self.mol = A('has a structure', U, B), A('structure of', U, U), A('is parsed', U, B), A('molecule of', U, U)
        self.isp = A('is a position', I, B)
        self.axioms = [self.N >= 1, sel(self.SP, fS)] + self.name_facts(fS)
    def name_facts(self, x):
        return [z3.Implies(sel(self.SP, x), z3.And(sel(self.pos, x) >= 0, sel(self.pos, x) < self.N, sel(self.nat, sel(self.pos, x)) == x)), z3.Implies(sel(self.hs, x), sel(self.hm, sel(self.sm, x)))]
    def args(self, X):
        st = X.st
        def t_i(X, i): X.st.pc += [sel(self.isp, i) == z3.And(i >= 0, i < self.N), z3.Implies(sel(self.isp, i), z3.And(sel(self.SP, sel(self.nat, i)), sel(self.pos, sel(self.nat, i)) == i))]
        def t_n(X, n): X.st.pc += self.name_facts(n)
        mk = lambda n, k, v, dom, val, hook, size=None: (st.heap.__setitem__((n,), HMap(k, None, v, dom, val, None, size, hook=hook)), Ref((n,)))[1]
        bp, vp, crit, dens, ign = self.m
        return dict(num_species=self.N, species_dict=mk('species_dict', I, U, self.isp, self.nat, t_i, self.N), species_dict2array=mk('species_dict2array', U, I, self.SP, self.pos, t_n, self.N),
                    Pybel_object_dict=mk('Pybel_object_dict', U, U, self.hm, self.mol, lambda X, k: None), SMILES_dict=mk('SMILES_dict', U, U, self.hs, self.sm, t_n),
                    temp=self.temp, vp_method=vp, bp_method=bp, critical_method=crit, density_method=dens, ignore_vp=ign, vp_cutoff=self.cut)
    def iter_map(self, X, ref, o, what):
        if ref.id in (('species_dict',), ('species_dict2array',)):
            byname = ref.id == ('species_dict2array',)
            if what == 'items': return SetOf(U, lambda x: sel(self.SP, x), lambda X, x: (x, sel(self.pos, x)) if byname else (sel(self.pos, x), x), label='species')
            if (what == 'keys') == byname: return SetOf(U, lambda x: sel(self.SP, x), lambda X, x: x, label='species')
            return SetOf(U, lambda x: sel(self.SP, x), lambda X, x: sel(self.pos, x), label='species')
        raise Out('iteration over a table')
    def vtouch(self, X, o, v): raise Out('membership among the values')
    def on_elem(self, X, it, ctx, x):
        if isinstance(it, SetOf): X.st.pc += self.name_facts(x)
        else: X.st.pc += [z3.Implies(z3.And(ctx.at >= 0, ctx.at < self.N), z3.And(sel(self.isp, ctx.at), sel(self.SP, sel(self.nat, ctx.at)), sel(self.pos, sel(self.nat, ctx.at)) == ctx.at))]
    LIBS = ('boiling_points', 'vapour_pressures', 'critical_properties', 'liquid_densities', 'groups')
    def lib(self, X, name, args, kw, e):
        parts = name.split('.')
        for l in self.LIBS:
            if l in parts[:-1] or ('umansysprop' in parts and l in parts):
                if kw: raise Out('keyword arguments of a library function')
                return uf('.'.join([l, parts[-1]]), *[X.z(a, U) for a in args])
        return NotImplemented
    def done(self, ctx):
        if isinstance(ctx.it, SetOf): return ctx.at(fS) if ctx.it.label == 'species' else None
        return sel(self.pos, fS) < ctx.at if ctx.it.n is not None and z3.is_expr(ctx.it.n) and ctx.it.n.eq(self.N) else None
    def spec_terms(self):
        bp, vp, crit, dens, ign = self.m
        m = sel(self.mol, sel(self.sm, fS)); T = self.temp
        b1 = uf('boiling_points.nannoolal', m)
        b = uf('boiling_points.' + bp, m)
        d = uf('liquid_densities.girolami', m) if dens == 'girolami' else uf('liquid_densities.' + dens, m, T, uf('critical_properties.' + crit, m, b1))
        v = uf('vapour_pressures.evaporation', m, T) if vp == 'evaporation' else uf('vapour_pressures.' + vp, m, T, b)
        g = lambda c: NUM(uf('item', uf('groups.composition', m), ustr(c)))
        return dict(y_density_array=NUM(d) * 1000, y_mw=NUM(uf('.molwt', m)), o_c=g('O') / g('C'), h_c=g('H') / g('C'), sat_vp=NUM(v))
    def ignored(self):
        has, vp = sel(self.hs, fS), self.spec_terms()['sat_vp']
        return z3.Or(z3.Not(has), vp > self.cut) if self.m[4] is True else z3.Not(has)
    def cell(self, st, role):
        o = self.obj(st, role)
        if not isinstance(o, HArr): return None
        P = sel(self.pos, fS)
        return sel(o.cnt, P) if role in ('ignore_index', 'include_index') and o.cnt is not None and o.vs == I else sel(o.arr, P) if role not in ('ignore_index', 'include_index') else None
    def entry_cell(self, st, role):
        o = self.obj(st, role)
        if isinstance(o, HList) and not o.items and role in ('ignore_index', 'include_index'): return z3.IntVal(0)
        return self.cell(st, role)
    def goal(self, role, c):
        ig = self.ignored()
        if role in self.CELLS: return z3.Implies(sel(self.hs, fS), c == self.spec_terms()[role])
        if role == 'ignore_index': return c == z3.If(ig, z3.IntVal(1), z3.IntVal(0))
        if role == 'include_index': return c == z3.If(ig, z3.IntVal(0), z3.IntVal(1))
        return c == z3.If(ig, z3.RealVal(1), z3.RealVal(0))
    ROLES = CELLS + ('ignore_index', 'include_index', 'ignore_index_fortran')
    def candidates(self, X, typed, node, it, outer):
        out = []
        for role in self.ROLES:
            def g(X, st, en, ctx, role=role):
                d, c, c0 = self.done(ctx), self.entry_cell(st, role), self.entry_cell(en, role)
                if d is None or c is None or c0 is None: return [z3.BoolVal(False)]
                return [z3.Implies(d, self.goal(role, c)), z3.Implies(z3.Not(d), c == c0)]
            def keep(X, st, en, ctx, role=role):
                c, c0 = self.entry_cell(st, role), self.entry_cell(en, role)
                return [] if c is None and c0 is None else [z3.BoolVal(False)] if c is None or c0 is None else [c == c0]
            def n(X, st, en, ctx, role=role):
                o = self.obj(st, role)
                return [o.n == self.N] if isinstance(o, HArr) else [z3.BoolVal(False)]
            out += [('%s at the species already done' % role, g), ('%s unchanged' % role, keep)]
            if role not in ('ignore_index', 'include_index'): out.append(('%s keeps its length' % role, n))
            else:
                def only(X, st, en, ctx, role=role):
                    o = self.obj(st, role)
                    if isinstance(o, HList) and not o.items: return []
                    if not isinstance(o, HArr) or o.cnt is None or o.vs != I: return [z3.BoolVal(False)]
                    return [z3.Implies(sel(o.cnt, fI) != 0, z3.And(fI >= 0, fI < self.N))]
                out.append(('%s holds positions only' % role, only))
        return out
    def post(self, X, st, ret):
        o = st.heap[ret.id] if isinstance(ret, Ref) else None
        if not isinstance(o, HDict): raise Out('the result is not a dictionary')
        self.roles = {k: v.id for k, v in o.items.items() if isinstance(v, Ref)}
        obs = []
        for role in self.ROLES:
            c = self.entry_cell(st, role)
            what = {'ignore_index': 'ignored exactly once if it has no structure or lies above the cut-off, else never', 'include_index': 'included exactly once if not ignored, else never', 'ignore_index_fortran': 'the mask is 1 exactly for the ignored'}.get(role, 'the value of the species at its own position')
            obs.append(('C18 %s: %s' % (role, what), None if c is None else self.goal(role, c)))
            if role in ('ignore_index', 'include_index'):
                q = self.obj(st, role)
                obs.append(('C18 %s: nothing but positions of species' % role, None if not isinstance(q, HArr) or q.cnt is None else z3.Implies(sel(q.cnt, fI) != 0, z3.And(fI >= 0, fI < self.N))))
        return obs

# ---- structure file (C20) ----------------------------------------------------------------------
NAMEOF, NODEOF, TEXT = z3.Function('name of node', U, U), z3.Function('node of name', U, U), z3.Function('structure text of node', U, U)
ISNODE, HASEL, HASTXT, INMECH = z3.Function('is a species entry', U, B), z3.Function('has a structure element', U, B), z3.Function('has a structure text', U, B), z3.Function('is in the mechanism', U, B)
class Dom(SymVal):
    def method(s, X, m, a):
        if m == 'getElementsByTagName' and a == ['species']: return SetOf(U, ISNODE, lambda X, x: Node(x), label='nodes')
        raise Out('document.%s' % m)
    def attr(s, X, a): return s if a == 'documentElement' else Bound(s, a)
class Node(SymVal):
    def __init__(s, x): s.x = x
    def attr(s, X, a):
        if a == 'attributes': return Attrs(s.x)
        return Bound(s, a)
    def method(s, X, m, a):
        if m == 'getAttribute' and a == ['species_name']: return NAMEOF(s.x)
        if m == 'hasAttribute' and a == ['species_name']: return True
        if m == 'getElementsByTagName' and a == ['smiles']: return Kids(s.x)
        raise Out('node.%s' % m)
class Attrs(SymVal):
    def __init__(s, x): s.x = x
    def index(s, X, k):
        if k == 'species_name': return Attr(s.x)
        raise Out('attribute %r' % (k,))
    def method(s, X, m, a):
        if m in ('get', 'getNamedItem') and a[0] == 'species_name': return Attr(s.x)
        raise Out('attributes.%s' % m)
class Attr(SymVal):
    def __init__(s, x): s.x = x
    def attr(s, X, a):
        if a in ('value', 'nodeValue', 'data'): return NAMEOF(s.x)
        raise Out('attribute.%s' % a)
class Kids(SymVal):
    def __init__(s, x): s.x = x
    def method(s, X, m, a):
        if m == 'item' and a == [0]: return Elem(s.x) if X.branch(HASEL(s.x)) else None
        if m == '__len__': return z3.If(HASEL(s.x), z3.IntVal(1), z3.IntVal(0))
        raise Out('elements.%s' % m)
    def attr(s, X, a): return s.method(X, '__len__', []) if a == 'length' else Bound(s, a)
    def index(s, X, k):
        if k != 0: raise Out('a later element')
        if not X.branch(HASEL(s.x)): raise Exc('IndexError')
        return Elem(s.x)
    def truth(s, X): return HASEL(s.x)
class Elem(SymVal):
    def __init__(s, x): s.x = x
    def method(s, X, m, a):
        if m == 'toxml' and not a: return Xml(s.x)
        raise Out('element.%s' % m)
    def attr(s, X, a):
        if a == 'firstChild': return TextNode(s.x) if X.branch(HASTXT(s.x)) else None
        return Bound(s, a)
    def truth(s, X): return z3.BoolVal(True)
class TextNode(SymVal):
    def __init__(s, x): s.x = x
    def attr(s, X, a):
        if a in ('data', 'nodeValue'): return TEXT(s.x)
        return Bound(s, a)
    def truth(s, X): return z3.BoolVal(True)
class Xml(SymVal):
    def __init__(s, x): s.x = x
class Match(SymVal):
    def __init__(s, x): s.x = x
    def method(s, X, m, a):
        if m == 'group' and a == [1]: return TEXT(s.x)
        raise Out('match.%s' % m)
    def index(s, X, k):
        if k == 1: return TEXT(s.x)
        raise Out('match')
    def truth(s, X): return z3.BoolVal(True)
OXID = ('OH', 'HO2', 'O3', 'hv')
class Smiles(Spec):
    axioms = [z3.Implies(HASTXT(NODEOF(fS)), HASEL(NODEOF(fS)))]
    def args(self, X):
        st = X.st
        cnt = z3.Const('names in the mechanism', z3.ArraySort(U, I))
        self.cnt = cnt
        st.heap[('sd',)] = HMap(I, None, U, z3.Const('sd dom', z3.ArraySort(I, B)), z3.Const('sd val', z3.ArraySort(I, U)), cnt, None, hook=lambda X, k: None)
        st.heap[('od',)] = HDict({'species_dict': Ref(('sd',)), 'species_dict2array': JUNK})
        for q in (fS,) + tuple(map(ustr, OXID)): pass
        return dict(output_dict=Ref(('od',)), SMILES_filename=z3.Const('file', U))
    def vtouch(self, X, o, v): X.st.pc.append((sel(self.cnt, v) > 0) == INMECH(v))
    def lib(self, X, name, args, kw, e):
        if name.endswith('minidom.parse'): return Dom()
        if name == 'pybel.readstring' and len(args) == 2: return uf('readstring', X.z(args[0], U), X.z(args[1], U))
        if name in ('re.search', 're.match', 're.fullmatch') and isinstance(args[1], Xml):
            import re
            f, ok = getattr(re, name[3:]), True
            for t in ('C', 'CC(=O)OC1=CC=CC=C1', 'smiles', '[O-][N+](=O)C#N/C=C\\F', 'x' * 70, 'C.C@@H'):
                m = f(args[0], '<smiles>%s</smiles>' % t)
                ok = ok and m is not None and m.lastindex and m.group(1) == t
            ok = ok and f(args[0], '<smiles/>') is None
            if not ok: raise Out('regular expression %r' % (args[0],))
            return Match(args[1].x) if X.branch(HASTXT(args[1].x)) else None
        return NotImplemented
    def on_elem(self, X, it, ctx, x):
        if isinstance(it, SetOf): X.st.pc += [NODEOF(NAMEOF(x)) == x, z3.Implies(HASTXT(x), HASEL(x))]
    def attach(self): return z3.And(ISNODE(NODEOF(fS)), NAMEOF(NODEOF(fS)) == fS, INMECH(fS), HASTXT(NODEOF(fS)), *[fS != ustr(q) for q in OXID])
    def facts(self, st, done):
        sm, py = self.map(st, 'SMILES_dict'), self.map(st, 'Pybel_object_dict')
        sm0, py0 = self.obj(st, 'SMILES_dict'), self.obj(st, 'Pybel_object_dict')
        F_ = z3.BoolVal(False)
        smk = sm is not None and sm.k1 == U and sm.vs == U
        pyk = py is not None and py.k1 == U and py.vs == U
        es, ep = isinstance(sm0, HDict) and not sm0.items, isinstance(py0, HDict) and not py0.items
        k = z3.Const('focus text', U)
        T = TEXT(NODEOF(fS))
        ds = sel(sm.dom, fS) if smk else F_
        return [('a structure is attached exactly to the species listed with one (not to OH, HO2, O3)', None if not smk and not es else ds == z3.And(self.attach(), done)),
                ('the structure attached is the one listed for the species', None if not smk and not es else z3.Implies(ds, sel(sm.val, fS) == T) if smk else z3.BoolVal(True)),
                ('a parsed molecule is the molecule of its text', None if not pyk and not ep else z3.BoolVal(True) if not pyk else z3.And([z3.Implies(sel(py.dom, q), sel(py.val, q) == uf('readstring', ustr('smi'), q)) for q in (k, T)])),
                ('every attached structure has a parsed molecule', None if (not smk and not es) or (not pyk and not ep) else z3.BoolVal(True) if not smk else z3.Implies(ds, sel(py.dom, sel(sm.val, fS))) if pyk else z3.Not(ds))]
    def candidates(self, X, typed, node, it, outer):
        def mk(i):
            def g(X, st, en, ctx):
                if not isinstance(ctx.it, SetOf) or ctx.it.label != 'nodes': return [z3.BoolVal(False)]
                f = self.facts(st, ctx.at(NODEOF(fS)))[i][1]
                return [z3.BoolVal(False)] if f is None else [f]
            return g
        return [(self.facts(typed, z3.BoolVal(True))[i][0], mk(i)) for i in range(4)]
    def post(self, X, st, ret):
        o = st.heap[ret.id] if isinstance(ret, Ref) else None
        if not isinstance(o, HDict): raise Out('the result is not a dictionary')
        self.roles = {k: v.id for k, v in o.items.items() if isinstance(v, Ref)}
        return [('C20 ' + n, f) for n, f in self.facts(st, z3.BoolVal(True))]

# ---- fixed-yield table (C20) -------------------------------------------------------------------
W0, CONC, FIRST, NL = z3.Function('first word of line', I, U), z3.Function('number in line', I, R), z3.Real('number in the first line of the focus species'), z3.Int('number of lines')
class Line(SymVal):
    def __init__(s, j): s.j = j
    def method(s, X, m, a):
        if m in ('strip', 'rstrip', 'lstrip') and not a: return s
        if m == 'split' and not a: return LWords(s.j)
        raise Out('line.%s' % m)
    def truth(s, X): return z3.BoolVal(True)
class LWords(SymVal):
    def __init__(s, j): s.j = j
    def index(s, X, k):
        if k == 0: return W0(s.j)
        if k == 1: return LNum(s.j)
        raise Out('word %r of a line' % (k,))
    def truth(s, X): return z3.BoolVal(True)
class LNum(SymVal):
    def __init__(s, j): s.j = j
    def method(s, X, m, a):
        if m == '__float__': return CONC(s.j)
        raise Out('number text.%s' % m)
class LFile(SymVal):
    def method(s, X, m, a):
        if m in ('__iter__', 'readlines'): return Seq(NL, lambda j: s.line(X, j))
        if m == 'read': return LText()
        if m == 'close': return None
        raise Out('file.%s' % m)
    def line(s, X, j):
        X.st.pc += [OCC(j + 1) == z3.Or(OCC(j), W0(j) == fS), z3.Implies(z3.And(z3.Not(OCC(j)), W0(j) == fS), CONC(j) == FIRST)]
        g = X.st.ground.setdefault('n', [])
        if not any(W0(j).eq(q) for q in g): g.append(W0(j))
        return Line(j)
class LText(SymVal):
    def method(s, X, m, a):
        if m == 'splitlines': return LFile().method(X, '__iter__', [])
        raise Out('text.%s' % m)
class Fixed(Parse):
    axioms = [NL >= 0, z3.Not(OCC(0))]
    def lib(self, X, name, args, kw, e):
        if name in ('open', 'io.open'): return LFile()
        if name == 'pybel.readstring' and len(args) == 2: return uf('readstring', X.z(args[0], U), X.z(args[1], U))
        return NotImplemented
    def args(self, X): return dict(filename=z3.Const('file', U))
    def facts(self, st, occ):
        sd, sa = self.map(st, 'species_dict'), self.map(st, 'species_dict2array')
        sm, py = self.map(st, 'SMILES_dict'), self.map(st, 'Pybel_object_dict')
        em = lambda r: isinstance(self.obj(st, r), HDict) and not self.obj(st, r).items
        ea = lambda r: isinstance(self.obj(st, r), HList) and not self.obj(st, r).items
        ar = lambda r: self.obj(st, r) if isinstance(self.obj(st, r), HArr) else None
        no = z3.Not(occ)
        if sd is None or sa is None or sd.vs != U or sa.vs != I:
            if not (em('species_dict') and em('species_dict2array')): return []
        out = [('a species has a position exactly when a line names it', no if sd is None else (sel(sd.cnt, fS) > 0) == occ)]
        out.append(('each species is its own structure', None if sm is None and not em('SMILES_dict') else no if sm is None else z3.And(sel(sm.dom, fS) == occ, z3.Implies(occ, sel(sm.val, fS) == fS)) if sm.vs == U else None))
        out.append(('each species has its parsed molecule', None if py is None and not em('Pybel_object_dict') else no if py is None else z3.And(sel(py.dom, fS) == occ, z3.Implies(occ, sel(py.val, fS) == uf('readstring', ustr('smi'), fS))) if py.vs == U else None))
        a, c = ar('smiles_array'), ar('concentration_array')
        out.append(('the structure list holds each structure at its position', None if a is None and not ea('smiles_array') else no if a is None else z3.And(a.n == sd.size, z3.Implies(occ, sel(a.arr, sel(sa.val, fS)) == fS)) if sd is not None and sa is not None and a.vs == U else None))
        out.append(('the concentration list holds the first value given for each species at its position', None if c is None and not ea('concentration_array') else no if c is None else z3.And(c.n == sd.size, z3.Implies(occ, sel(c.arr, sel(sa.val, fS)) == FIRST)) if sd is not None and sa is not None and c.vs == R else None))
        return out
    def reg(self): return Parse.reg(self)[:-1]
    def candidates(self, X, typed, node, it, outer):
        out = self.reg()
        def counter(v):
            def g(X, st, en, ctx):
                sd = self.map(st, 'species_dict')
                if sd is None or isinstance(st.env.get(v), Lost) or v not in st.env: return [z3.BoolVal(False)]
                return [X.z(st.env[v], I) == sd.size]
            return g
        for v, val in typed.env.items():
            if isinstance(val, int) and not isinstance(val, bool) or z3.is_expr(val) and val.sort() == I: out.append(('%s is the number of species' % v, counter(v)))
        def mk(i):
            def g(X, st, en, ctx):
                if not isinstance(ctx.it, Seq): return [z3.BoolVal(False)]
                f = self.facts(st, OCC(ctx.at))
                return [z3.BoolVal(False)] if len(f) <= i or f[i][1] is None else [f[i][1]]
            return g
        return out + [('table fact %d' % i, mk(i)) for i in range(5)]
    def on_elem(self, X, it, ctx, x): pass
    def post(self, X, st, ret):
        o = st.heap[ret.id] if isinstance(ret, Ref) else None
        if not isinstance(o, HDict): raise Out('the result is not a dictionary')
        self.roles = {k: v.id for k, v in o.items.items() if isinstance(v, Ref)}
        C = Ctx(None, None, None, None); C.prove = True
        sd = self.map(st, 'species_dict')
        obs = [('C20 fixed yield: ' + n, f) for n, f in self.facts(st, OCC(NL))] or [('C20 fixed yield: tables', None)]
        n = o.items.get('species_number')
        obs.append(('C20 fixed yield: the number of species', None if sd is None else X.z(n, I) == sd.size))
        for nm, f in self.reg()[1:]:
            fs = f(X, st, st, C)
            obs.append(('C20 fixed yield: ' + nm, None if z3.is_false(fs[0]) else z3.And(*fs)))
        return obs

# ---- running -----------------------------------------------------------------------------------
def run(path, fname, spec, args, prop, limit):
    """[(obligation, status, seconds, detail, back end)], out of reach reason, executor"""
    tree = ast.parse(open(os.path.join(REPO, path)).read())
    X_ = X(tree, spec, limit)
    fn = X_.defs.get(fname)
    if fn is None: return [], '%s is not defined' % fname, X_
    def start():
        st = State()
        X_.st = st
        a = args(X_, spec)
        names = [q.arg for q in fn.args.args]
        for q in names:
            if q in a: continue
            d = dict(zip(names[len(names) - len(fn.args.defaults):], fn.args.defaults))
            if q in d: a[q] = X_.ev(d[q])
            else: raise Out('parameter %s' % q)
        st.env = {k: v for k, v in a.items() if k in names}
        return st
    vcs = {}
    oor = None
    rank = dict(proved=0, undecided=1, refuted=2)
    def add(nm, status, secs, detail=''):
        if nm not in vcs or rank[status] > rank[vcs[nm][0]]: vcs[nm] = [status, secs + (vcs[nm][1] if nm in vcs else 0), detail]
        else: vcs[nm][1] += secs
    try:
        X_.skip = True
        roles = {}
        outs = X_.explore(start(), lambda: X_.block(fn.body), None)
        for st, sig in outs:
            if isinstance(sig, Ret) and isinstance(sig.v, Ref) and isinstance(st.heap[sig.v.id], HDict):
                for k, v in st.heap[sig.v.id].items.items():
                    if isinstance(v, Ref): roles.setdefault(k, v.id)
        X_.skip = False; X_.memo = {}
        roles0 = roles
        spec.roles = dict(roles); spec.setup(X_) if hasattr(spec, 'setup') else None
        outs = X_.explore(start(), lambda: X_.block(fn.body), None)
        for st, sig in outs:
            X_.st = st
            if isinstance(sig, Exc):
                r = X_.sat(st.pc)
                add('%s %s does not stop with %s' % (prop, fname, sig.kind), 'proved' if r == z3.unsat else 'undecided', 0, 'a path raises %s' % sig.kind)
                continue
            if not isinstance(sig, Ret): raise Out('no result')
            X_.reach = getattr(X_, 'reach', False) or X_.sat(st.pc, 20000) != z3.unsat
            spec.roles = dict(roles0)
            for nm, f in spec.post(X_, st, sig.v):
                if not nm.startswith(prop): continue
                t = time.time()
                if f is None: add(nm, 'undecided', 0, 'the table is not followed'); continue
                r = X_.sat(st.pc + [z3.Not(f)], 20000)
                add(nm, 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'undecided', time.time() - t, '' if r == z3.unsat else 'not established (%s); facts kept by the loops: %s' % (r, X_.loops[-3:]))
    except Out as e: oor = str(e)
    except (RecursionError, z3.Z3Exception, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        if os.environ.get('PV_DEBUG'): raise
        oor = 'the verifier does not follow this code: %s: %s' % (type(e).__name__, str(e)[:300])
    for l in X_.loops: pass
    return [('%s' % k, v[0], v[1], v[2], 'z3') for k, v in vcs.items()], oor, X_

def kept(prop, x, oor, tag=''):
    out, seen = [], set()
    for l in x.loops:
        for k in l['kept']:
            n = '%s %sloop at line %d keeps: %s' % (prop, tag, l['line'], k)
            if n not in seen and oor is None: seen.add(n); out.append((n, 'proved', 0, '', 'z3'))
    return out
BPS, VPS, CRITS, DENS = ('joback_and_reid', 'stein_and_brown', 'nannoolal'), ('nannoolal', 'myrdal_and_yalkowsky', 'evaporation'), ('nannoolal', 'joback_and_reid'), ('girolami', 'schroeder', 'le_bas', 'tyn_and_calus')
def job(prop, limit, part=None):
    t0 = time.time()
    path, out, oor, funs, xs = 'Parse_eqn_file.py', [], None, [], []
    def one(path, fname, spec, args, lim, tag=''):
        nonlocal oor
        vcs, o, x = run(path, fname, spec, args, prop, lim)
        out.extend([(('%s [%s]' % (v[0], tag) if tag else v[0]),) + tuple(v[1:]) for v in vcs]); xs.append(x)
        out.extend(kept(prop, x, o, tag + ' ' if tag else ''))
        if o: oor = o if not tag else '%s: %s' % (tag, o)
        f = '%s:%s' % (path, fname)
        if f not in funs: funs.append(f)
        for g in x.functions:
            if '%s:%s' % (path, g) not in funs: funs.append('%s:%s' % (path, g))
    if prop in ('C01', 'C02'):
        one(path, 'extract_mechanism', Parse(), lambda X, s: dict(filename=z3.Const('filename', U), print_options=JUNK), limit)
    elif prop == 'C20':
        if part == 'file': one(path, 'extract_smiles_species', Smiles(), lambda X, s: s.args(X), limit)
        else: one(path, 'extract_species', Fixed(), lambda X, s: s.args(X), limit)
    elif prop == 'C18':
        path = 'Aerosol/Property_calculation.py'
        for vp in VPS:
            for crit in CRITS:
                for dens in DENS:
                    for ign in (True, False):
                        left = limit - (time.time() - t0)
                        if oor is None: one(path, 'Pure_component1', Props(part, vp, crit, dens, ign), lambda X, s: s.args(X), left, ', '.join((part, vp, crit, dens, 'cut-off on' if ign else 'cut-off off')))
    cov = {'the function is executed to its end': oor is None, 'hypotheses are satisfiable at the result': all(getattr(x, 'reach', False) for x in xs), 'an iteration is explored': all(any(l['paths'] > 0 for l in x.loops) for x in xs)}
    return dict(label='%s %s%s' % (prop, path, ' ' + part if part else ''), vcs=out, functions=funs, oor=oor, covers=cov, wall=time.time() - t0)
