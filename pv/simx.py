"""Deductive verification of the simulation modules (run_simulation): C14, C15, C16.

The source of run_simulation is read from the working tree on every run and executed symbolically, statement by statement:
* arrays are (shape, element function) objects on a heap, with views that write through; numbers are mathematical reals/integers;
* nested functions are closures over the live environment, as in Python;
* compiled/generated callees (rates, products, tendencies, Jacobian, partitioning) and the solver are known by contract only;
* `for` over a dictionary is a scatter rule (keys are distinct, positions injective);
* the batch loop is verified by induction: a closed form of the loop state at iteration k is inferred, then base and step are proved.
"""
import ast, os, time
from fractions import Fraction
import z3
from .common import REPO

class OutOfReach(Exception): pass

Name = z3.DeclareSort('Name')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
def isz(v): return isinstance(v, z3.ExprRef)
def num(v):
    """python number -> z3"""
    if isz(v): return v
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(v)
    if isinstance(v, float): return z3.RealVal(Fraction(repr(v)))
    raise OutOfReach('number expected, got %s' % type(v).__name__)
def real(v):
    v = num(v)
    if z3.is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(v) if z3.is_int(v) else v
def isnum(v): return (isz(v) and (z3.is_arith(v) or z3.is_bool(v))) or isinstance(v, (int, float, Fraction))
def same(a, b):
    """two numbers of possibly different kinds, as one sort"""
    a, b = num(a), num(b)
    if z3.is_bool(a) and z3.is_bool(b): return a, b
    if a.sort() == b.sort(): return a, b
    return real(a), real(b)

def subterms(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x; st += x.children()
class Data:
    def __init__(self, fn, dt=None): self.fn, self.log, self.inputname, self.dt = fn, [], None, dt      # dt 'int': a numpy array of integers, stores truncate
class Arr:
    """view on a Data: base = off + index per dimension; `drop` are fixed base coordinates"""
    def __init__(self, shape, fn=None, data=None, base=None, kind='array', origin=None):
        self.shape, self.kind, self.origin = tuple(shape), kind, origin
        self.data = data or Data(fn)
        self.base = base or [(d, 0) for d in range(len(self.shape))]   # base coordinate: (view dim, offset) or (None, fixed)
    def tobase(self, ix): return tuple(num(o) if d is None else (num(ix[d]) if isinstance(o, int) and o == 0 else num(ix[d]) + num(o)) for d, o in self.base)
    def at(self, *ix): return self.data.fn(*self.tobase([num(i) for i in ix]))
    def frozen(self):
        """element function of the present contents"""
        fn, base = self.data.fn, list(self.base)
        return lambda *ix: fn(*tuple(num(o) if d is None else (num(ix[d]) if isinstance(o, int) and o == 0 else num(ix[d]) + num(o)) for d, o in base))
class Obj:
    def __init__(self, kind, **kw): self.kind, self.attrs = kind, kw
    def __repr__(self): return 'Obj(%s)' % self.kind
class Opaque:
    def __init__(self, name): self.name = name
class Poison:
    pass
POISON = Poison()
class Mod:
    def __init__(self, name): self.name = name
class Callee:
    def __init__(self, mod, name): self.mod, self.name = mod, name
class Bound:
    def __init__(self, obj, name): self.obj, self.name = obj, name
class Fun:
    def __init__(self, node, env): self.node, self.env, self.attrs = node, env, {}
    @property
    def name(self): return getattr(self.node, 'name', 'lambda')
class SDict:
    """dictionary from species names to values: keys by membership predicate, or positions to names"""
    def __init__(self, has, val, size, keysort='name', pos=None, label=''): self.has, self.val, self.size, self.keysort, self.label = has, val, size, keysort, label
class KeysOf:
    def __init__(self, d, what): self.d, self.what = d, what
class Range:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
class Return(Exception):
    def __init__(self, v): self.v = v
class Env:
    def __init__(self, parent=None): self.v, self.parent, self.globals_, self.nonlocals = {}, parent, set(), set()
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.parent
    def get(self, n):
        e = self.find(n)
        if e is None: raise OutOfReach('name %s' % n)
        return e.v[n]

BUILTIN = {'len', 'int', 'float', 'round', 'abs', 'range', 'print', 'sum', 'list', 'open', 'max', 'min', 'enumerate', 'str', 'zip', 'bool', 'tuple', 'dict', 'isinstance', 'sorted', 'type', 'math'}
EL = {n: z3.Function('fn_' + n, R, R) for n in ('exp', 'log', 'log10', 'sqrt', 'cos', 'sin', 'tan')}
POW = z3.Function('pow', R, R, R)
K = z3.Function('rate_coefficient', R, R, R, R, I, R)          # (time of day, RO2, H2O, temperature, reaction)
P = z3.Function('mass_action_product', I, I, R)                 # (state id, reaction)
T = z3.Function('tendency', I, I, R)                            # (id of reaction rates, species)
J = z3.Function('jacobian', I, I, I, I, R)                      # (id of rate coefficients, id of state, row, column)
CONC, INC = z3.Function('initial_conc', Name, R), z3.Function('has_initial_conc', Name, B)
NM, POS, SPEC = z3.Function('name_at', I, Name), z3.Function('position_of', Name, I), z3.Function('is_species', Name, B)
FIN = z3.Function('final_state', I, I, R)                       # (batch, position)
RO2IX = z3.Function('RO2_index', I, I)

class Sim:
    def __init__(self, label, limit):
        self.label, self.end = label, time.time() + limit
        self.vcs, self.hyp, self.guards, self.discover = [], [], [], 0
        self.sums, self.ids, self.products, self.fresh, self.names = [], [], {}, 0, {}
        self.channels, self.k, self.simcalls, self.spec, self.ratecalls = [], None, [], None, []
        self.queries = self.intry = 0
        self.rowlists, self.weak, self.fuzzy, self.phase = {}, False, False, 0
    # ---------------------------------------------------------------- solver
    def ask(self, goal, timeout=8000):
        """'unsat' when the goal follows from the hypotheses"""
        if time.time() > self.end: raise OutOfReach('time limit')
        self.queries += 1
        g = z3.simplify(goal, som=True)
        if z3.is_true(g): return 'unsat', None
        for opt, to in (({'smt.arith.nl': False}, 2000), ({}, timeout)):
            s = z3.SimpleSolver() if opt else z3.Solver(); s.set('timeout', to)
            for o, v in opt.items(): s.set(o, v)
            s.add(*self.hyp, *self.guards, z3.Not(goal))
            r = s.check()
            if r == z3.unsat: break
        return str(r), (s.model() if r == z3.sat else None)
    curtod = None
    def timeofday(self, t):
        """contract of the rate files (C09): the time matters only through the time of day"""
        if self.curtod is None: return t
        r, d = real(t), 0
        if r.eq(self.curtod) or not any(x.decl().kind() == z3.Z3_OP_TO_INT for x in subterms(r)): return t
        return self.curtod if self.valid(z3.IsInt((r - self.curtod) / 86400)) else t
    def valid(self, goal): return self.ask(goal)[0] == 'unsat'
    def vc(self, name, goal, hyps=()):
        if self.discover: return
        t = time.time()
        self.hyp += list(hyps)
        try: r, m = self.ask(goal, 20000)
        finally:
            if hyps: del self.hyp[-len(hyps):]
        st = {'unsat': 'proved', 'sat': 'failed'}.get(r, 'undecided')
        if ' as the invariant says' in name or 'are as the invariant' in name or name.endswith('other arrays are unchanged'):
            if st != 'proved': self.weak, st = True, 'undecided'      # the invariant is inferred: not inductive means not decided
        elif st == 'failed' and (self.fuzzy or (self.weak and self.phase > 0)): st = 'undecided'
        self.vcs.append((name, st, round(time.time() - t, 4), '' if st == 'proved' else ('%s\nGOAL %s' % (m, goal))[:3000], 'z3'))
        return st == 'proved'
    def fact(self, name, ok, detail=''):
        if self.discover: return
        self.vcs.append((name, 'proved' if ok else 'failed', 0.0, '' if ok else detail, 'evaluation'))
    def newc(self, sort, n): 
        self.fresh += 1
        return z3.Const('%s!%d' % (n, self.fresh), sort)
    def newf(self, n, *sorts):
        self.fresh += 1
        return z3.Function('%s!%d' % (n, self.fresh), *sorts)
    def name(self, s):
        if s not in self.names:
            c = z3.Const('"%s"' % s, Name)
            for o in self.names.values(): self.hyp.append(o != c)
            self.names[s] = c
        return self.names[s]
    # ---------------------------------------------------------------- content identities
    def ident(self, shape, fn, table):
        """a constant that stands for the contents; the same one for contents proved equal"""
        for sh, f, c in table:
            if len(sh) != len(shape): continue
            if not all(self.valid(num(a) == num(b)) for a, b in zip(sh, shape)): continue
            ix = [self.newc(I, 'i') for _ in shape]
            rng = z3.And([z3.And(i >= 0, i < num(n)) for i, n in zip(ix, shape)])
            r = self.ask(z3.Implies(rng, fn(*ix) == f(*ix)))[0]
            if r == 'unsat': return c
            if r == 'unknown': self.fuzzy = True
        c = self.newc(I, 'content')
        table.append((shape, fn, c))
        return c
    def idof(self, a): return self.ident(a.shape, a.frozen(), self.ids)
    def sumof(self, a):
        fn = a.frozen(); g = lambda *ix: real(fn(*ix))
        if len(a.shape) != 1: raise OutOfReach('sum of a matrix')
        n = z3.simplify(num(a.shape[0]))
        if z3.is_int_value(n) and n.as_long() < 8: return sum([g(j) for j in range(n.as_long())], z3.RealVal(0))
        c = self.ident(a.shape, g, self.sums)
        return z3.Function('sum_of', I, R)(c)
    # ---------------------------------------------------------------- arrays
    def arr(self, v):
        if isinstance(v, Arr): return v
        if isinstance(v, (list, tuple)):
            if v and all(isinstance(x, Arr) and len(x.shape) == 1 for x in v):
                fns = [x.frozen() for x in v]
                def f2(i, j):
                    r = real(fns[-1](j))
                    for k in range(len(fns) - 2, -1, -1): r = z3.If(num(i) == k, real(fns[k](j)), r)
                    return r
                return Arr((len(v), v[0].shape[0]), f2)
            if not all(isnum(x) for x in v): raise OutOfReach('array of %s' % [type(x).__name__ for x in v][:3])
            vs = [num(x) for x in v]
            if any(x.sort() != vs[0].sort() for x in vs): vs = [real(x) for x in vs]
            def f(i):
                r = vs[-1] if vs else z3.RealVal(0)
                for k in range(len(vs) - 2, -1, -1): r = z3.If(num(i) == k, vs[k], r)
                return r
            return Arr((len(v),), f)
        if v is POISON: raise OutOfReach('poison as array')
        raise OutOfReach('array expected, got %s' % type(v).__name__)
    def copy(self, a, kind='array'):
        if not isinstance(a, Arr):
            r = self.arr(a)
            if kind == 'array' and isinstance(a, (list, tuple)) and a and all(isinstance(x, int) and not isinstance(x, bool) for x in a): r.data.dt = 'int'
            return r
        r = Arr(a.shape, a.frozen(), kind=kind)
        if kind == 'array':
            if a.kind == 'array': r.data.dt = a.data.dt
            elif a.shape and z3.is_int(num(r.data.fn(*[self.newc(I, 'probe') for _ in a.shape]))): r.data.dt = 'int'       # numpy.array of a list of whole numbers
        return r
    def trunc(self, x):
        x = num(x)
        if not z3.is_real(x): return x
        i = z3.ToReal(z3.ToInt(x))
        return z3.If(z3.Or(i == x, x >= 0), i, i + 1)
    def dtype(self, v):
        """'int' or None (double precision)"""
        if v is None: return None
        n = v.name if isinstance(v, Callee) else v if isinstance(v, str) else None
        if n in ('float', 'float64', 'float_', 'double', 'd', 'f8', '<f8'): return None
        if n in ('int', 'int64', 'int32', 'int_', 'intp', 'i', 'l', 'i4', 'i8', 'longlong', 'intc'): return 'int'
        raise OutOfReach('dtype %s' % (n or type(v).__name__))
    def cast(self, a, dt):
        a = self.arr(a); f = a.frozen()
        r = Arr(a.shape, (lambda *ix: self.trunc(f(*ix))) if dt == 'int' else (lambda *ix: real(f(*ix))))
        r.data.dt = dt
        return r
    def index(self, n, i):
        """normalise a possibly negative index against length n"""
        if isinstance(i, int) and i < 0: return num(n) + i
        if isz(i) and z3.is_int(i):
            if z3.is_int_value(z3.simplify(i)): return self.index(n, z3.simplify(i).as_long()) if not z3.is_int_value(i) or i.as_long() < 0 else i
            return i
        if isinstance(i, int): return i
        raise OutOfReach('index')
    def view(self, a, items):
        """basic slicing; items per dimension: ('i', index) ('s', lo, hi)"""
        shape, conv = [], []
        for d in range(len(a.shape)):
            it = items[d] if d < len(items) else ('s', None, None)
            if it[0] == 'i': conv.append((None, self.index(a.shape[d], it[1])))
            else:
                lo = 0 if it[1] is None else self.index(a.shape[d], it[1])
                hi = a.shape[d] if it[2] is None else self.index(a.shape[d], it[2])
                if it[2] is not None and not self.discover and not self.valid(num(hi) <= num(a.shape[d])):
                    hi = z3.If(num(hi) <= num(a.shape[d]), num(hi), num(a.shape[d]))
                n = hi if (isinstance(lo, int) and lo == 0) else z3.simplify(num(hi) - num(lo))
                conv.append((len(shape), lo)); shape.append(n)
        base = []
        for d, o in a.base:
            if d is None: base.append((None, o)); continue
            nd, no = conv[d]
            tot = no if isinstance(o, int) and o == 0 else num(o) + num(no)
            base.append((nd, tot))
        return Arr(shape, data=a.data, base=base, kind=a.kind)
    def write(self, v, val):
        """write val (scalar or Arr) to every cell of view v"""
        if val is POISON:
            f = self.newf('poison', *([I] * len(v.shape)), R); src = lambda *ix: f(*ix) if ix else self.newc(R, 'poison')
        elif isinstance(val, (Arr, list, tuple)):
            val = self.arr(val)
            f = val.frozen()
            sh = list(val.shape)
            if len(sh) < len(v.shape) or not v.shape: raise OutOfReach('broadcast')
            while len(sh) > len(v.shape):
                if not (isinstance(sh[-1], int) and sh[-1] == 1): raise OutOfReach('shapes')
                sh.pop(); g = f; f = lambda *ix, g=g: g(*ix, 0)
            for p, q in zip(sh, v.shape):
                if isinstance(p, Opaque): continue
                self.vc(self.where('stored array has the length of the place it is stored to'), num(p) == num(q))
            src = f
        elif isinstance(val, Opaque):
            f = self.newf('value_of_%s' % val.name, *([I] * len(v.shape)), R); src = lambda *ix: f(*ix) if ix else self.newc(R, 'o')
        else:
            x = num(val); src = lambda *ix: x
        if v.data.dt == 'int':
            src0 = src; src = lambda *ix: self.trunc(src0(*ix))
        old, base, shape, gs = v.data.fn, list(v.base), v.shape, list(self.guards)
        def fn(*b):
            cond, ix = list(gs), [None] * len(shape)
            for (d, o), bi in zip(base, b):
                bi = num(bi)
                if d is None: cond.append(bi == num(o))
                else:
                    ix[d] = bi if isinstance(o, int) and o == 0 else bi - num(o)
                    cond += [ix[d] >= 0, ix[d] < num(shape[d])]
            new, o_ = src(*ix), old(*b)
            if isz(new) and isz(o_) and new.sort() != o_.sort(): new, o_ = same(new, o_)
            return z3.If(z3.And(cond), new, o_) if cond else new
        v.data.fn = fn
        v.data.log.append((base, shape, src, gs))
    def where(self, s): return '%s: %s' % (self.label, s)
    def mapel(self, f, *args):
        arrs = [a for a in args if isinstance(a, Arr)]
        if any(a is POISON for a in args): return POISON
        if any(isinstance(a, Opaque) for a in args): return Opaque('el')
        if not arrs: return f(*args)
        shape = max((a.shape for a in arrs), key=len)
        fns = [a.frozen() if isinstance(a, Arr) else None for a in args]
        dims = [len(a.shape) if isinstance(a, Arr) else 0 for a in args]
        for a in arrs:
            if len(a.shape) != len(shape): raise OutOfReach('broadcast')
            for p, q in zip(a.shape, shape):
                if p is not q: self.vc(self.where('elementwise operation on arrays of one length'), num(p) == num(q))
        return Arr(shape, lambda *ix: f(*[fn(*ix) if fn else a for fn, a in zip(fns, args)]))
    # ---------------------------------------------------------------- expressions
    def truth(self, v):
        """python truth value: True/False when decided, else a z3 bool"""
        if v is POISON: raise OutOfReach('condition on an undetermined loop variable')
        if isinstance(v, Opaque): raise OutOfReach('condition on %s' % v.name)
        if isz(v):
            if not z3.is_bool(v): v = v != 0
            if self.valid(v): return True
            if self.valid(z3.Not(v)): return False
            return v
        if isinstance(v, Arr): raise OutOfReach('truth of an array')
        if isinstance(v, (Obj, Fun, SDict)): return True
        return bool(v)
    def arith(self, op, a, b):
        if a is POISON or b is POISON: return POISON
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('arith')
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add): return (a if isinstance(a, str) else str(a)) + (b if isinstance(b, str) else str(b))
            if isinstance(op, ast.Mod): return 'formatted'
            raise OutOfReach('text operator')
        la, lb = self.islist(a), self.islist(b)
        if isinstance(op, ast.Mult) and (la != lb):
            l, n = (a, b) if la else (b, a)
            if isinstance(l, list) and isinstance(n, int): return l * n
            l = self.arr(l)
            if not (len(l.shape) == 1 and isinstance(l.shape[0], int) and l.shape[0] == 1): raise OutOfReach('list repetition')
            v = l.at(0)
            return Arr((n,), lambda i: v, kind='list')
        if isinstance(op, ast.Add) and la and lb:
            if isinstance(a, list) and isinstance(b, list): return a + b
            x, y = self.arr(a), self.arr(b); fx, fy, nx, ny = x.frozen(), y.frozen(), num(x.shape[0]), num(y.shape[0])
            return Arr((nx + ny,), lambda i: z3.If(num(i) < nx, real(fx(i)), real(fy(num(i) - nx))), kind='list')
        if isinstance(a, (list, tuple)): a = self.arr(a)
        if isinstance(b, (list, tuple)): b = self.arr(b)
        return self.mapel(lambda x, y: self.scal(op, x, y), a, b)
    def islist(self, v): return isinstance(v, list) or (isinstance(v, Arr) and v.kind == 'list')
    def scal(self, op, x, y):
        if isinstance(x, (float,)): x = Fraction(repr(x))
        if isinstance(y, (float,)): y = Fraction(repr(y))
        if not isnum(x) or not isnum(y): raise OutOfReach('operand %s %s' % (type(x).__name__, type(y).__name__))
        if not isz(x) and not isz(y):
            if isinstance(op, ast.Add): return x + y
            if isinstance(op, ast.Sub): return x - y
            if isinstance(op, ast.Mult): return x * y
            if isinstance(op, ast.Div): return Fraction(x) / Fraction(y)
            if isinstance(op, ast.FloorDiv): return x // y
            if isinstance(op, ast.Mod): return x % y
            if isinstance(op, ast.Pow) and Fraction(y).denominator == 1: return Fraction(x) ** int(y)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            p, q = same(x, y)
            if z3.is_bool(p): p, q = z3.If(p, 1, 0), z3.If(q, 1, 0)
            return p + q if isinstance(op, ast.Add) else p - q if isinstance(op, ast.Sub) else p * q
        if isinstance(op, ast.Div):
            if self.spec is not None and isz(x) and isz(y) and x.eq(self.spec.simt) and y.eq(self.spec.d): return self.spec.ratio
            return real(x) / real(y)
        if isinstance(op, ast.Pow):
            if not isz(y) and Fraction(y).denominator == 1 and 0 <= int(y) <= 6:
                r = z3.RealVal(1)
                for _ in range(int(y)): r = r * real(x)
                return z3.simplify(r)
            return POW(real(x), real(y))
        if isinstance(op, (ast.FloorDiv, ast.Mod)) :
            p, q = num(x), num(y)
            if z3.is_int(p) and z3.is_int(q) and self.valid(q > 0): return p / q if isinstance(op, ast.FloorDiv) else p % q
            p, q = real(x), real(y)
            if self.valid(q > 0):
                fl = z3.ToReal(z3.ToInt(p / q))
                return fl if isinstance(op, ast.FloorDiv) else p - q * fl
        raise OutOfReach('operator %s' % type(op).__name__)
    def key(self, d, v):
        if isinstance(v, str): v = self.name(v)
        return v
    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isz(a) and z3.is_bool(a) and isinstance(b, bool):
            r = a if b else z3.Not(a)
            return z3.Not(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if a is POISON or b is POISON: raise OutOfReach('comparison with an undetermined loop variable')
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None or isinstance(b, bool):
                r = a is b
                return r if isinstance(op, ast.Is) else not r
            raise OutOfReach('is')
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, KeysOf) and b.what == 'keys': b = b.d
            if isinstance(b, SDict): r = b.has(self.key(b, a))
            elif isinstance(b, dict): r = a in b
            elif isinstance(b, (list, tuple)): 
                r = z3.Or([self.z(self.compare(ast.Eq(), a, x)) for x in b])
            else: raise OutOfReach('in')
            return r if isinstance(op, ast.In) else (z3.Not(r) if isz(r) else not r)
        if isinstance(a, str) and isinstance(b, str): return {ast.Eq: a == b, ast.NotEq: a != b}[type(op)]
        if (isz(a) and a.sort() == Name) or (isz(b) and b.sort() == Name):
            a, b = self.key(None, a), self.key(None, b)
            if not (isz(a) and isz(b)): raise OutOfReach('name comparison')
            return a == b if isinstance(op, ast.Eq) else a != b
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if isinstance(op, ast.Eq): return False
            if isinstance(op, ast.NotEq): return True
        if isinstance(a, Arr) or isinstance(b, Arr): return self.mapel(lambda x, y: self.z(self.compare(op, x, y)), a, b)
        a, b = same(a, b)
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
    def z(self, v): return v if isz(v) else z3.BoolVal(bool(v))
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise OutOfReach('expression %s' % type(n).__name__)
        return m(n, env)
    def e_Constant(self, n, env):
        return Fraction(repr(n.value)) if isinstance(n.value, float) else n.value
    def e_Name(self, n, env):
        e = env.find(n.id)
        if e is None:
            if n.id in BUILTIN: return Callee('builtins', n.id)
            if n.id in ('True', 'False', 'None'): return eval(n.id)
            raise OutOfReach('name %s' % n.id)
        return e.v[n.id]
    def e_List(self, n, env): return [self.ev(x, env) for x in n.elts]
    def e_Tuple(self, n, env): return tuple(self.ev(x, env) for x in n.elts)
    def e_Dict(self, n, env): return {self.ev(k, env): self.ev(v, env) for k, v in zip(n.keys, n.values)}
    def e_Set(self, n, env): return [self.ev(x, env) for x in n.elts]
    def e_JoinedStr(self, n, env):
        out = ''
        for v in n.values:
            x = v.value if isinstance(v, ast.Constant) else self.ev(v.value, env)
            out += x if isinstance(x, str) else '<value>'
        return out
    def e_BinOp(self, n, env): return self.arith(n.op, self.ev(n.left, env), self.ev(n.right, env))
    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return z3.Not(t) if isz(t) else not t
        if isinstance(n.op, ast.USub):
            if v is POISON: return v
            return -v if isinstance(v, (int, Fraction)) else self.mapel(lambda x: -num(x), v)
        if isinstance(n.op, ast.UAdd): return v
        raise OutOfReach('unary')
    def e_BoolOp(self, n, env):
        acc = []
        for x in n.values:
            t = self.truth(self.ev(x, env))
            if isinstance(n.op, ast.And):
                if t is False: return False
            elif t is True: return True
            if isz(t): acc.append(t)
        if not acc: return isinstance(n.op, ast.And)
        return z3.And(acc) if isinstance(n.op, ast.And) else z3.Or(acc)
    def e_Compare(self, n, env):
        l, out = self.ev(n.left, env), []
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r, env); out.append(self.compare(op, l, rv)); l = rv
        return out[0] if len(out) == 1 else z3.And([self.z(x) for x in out])
    def e_IfExp(self, n, env):
        t = self.truth(self.ev(n.test, env))
        if t is True: return self.ev(n.body, env)
        if t is False: return self.ev(n.orelse, env)
        return self.merge(t, self.under(t, lambda: self.ev(n.body, env)), self.under(z3.Not(t), lambda: self.ev(n.orelse, env)))
    def under(self, g, f):
        self.guards.append(g)
        try: return f()
        finally: self.guards.pop()
    def e_Lambda(self, n, env): return Fun(n, env)
    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(o, Mod):
            if n.attr == 'pi' and o.name in ('numpy', 'math'): return z3.Real('pi')
            return Callee(o.name, n.attr)
        if isinstance(o, Callee) and not o.mod == 'builtins': return Callee(o.mod + '.' + o.name, n.attr)
        if isinstance(o, Obj):
            if n.attr in o.attrs: return o.attrs[n.attr]
            return Bound(o, n.attr)
        if isinstance(o, Fun):
            if n.attr in o.attrs: return o.attrs[n.attr]
            raise OutOfReach('attribute %s of a function' % n.attr)
        if isinstance(o, Arr):
            if n.attr == 'shape': return tuple(o.shape)
            if n.attr == 'size' and len(o.shape) == 1: return o.shape[0]
            if n.attr == 'T' and len(o.shape) == 1: return o
        return Bound(o, n.attr)
    def e_ListComp(self, n, env):
        if len(n.generators) != 1 or n.generators[0].ifs: raise OutOfReach('comprehension')
        g = n.generators[0]
        it = self.ev(g.iter, env)
        if isinstance(it, (list, tuple)) :
            out = []
            for x in it:
                e2 = Env(env); self.assign(g.target, x, e2); out.append(self.ev(n.elt, e2))
            return out
        if isinstance(it, Range):
            lo, hi = it.lo, it.hi
            def fn(i):
                e2 = Env(env); self.assign(g.target, num(i) + num(lo), e2)
                i_ = num(i) + num(lo)
                return self.under(z3.And(i_ >= num(lo), i_ < num(hi)), lambda: num(self.ev(n.elt, e2)))
            snap = [(k, v) for k, v in env.v.items()]
            env = Env(env.parent); env.v = dict(snap)
            return Arr((z3.simplify(num(hi) - num(lo)) if not (isinstance(lo, int) and lo == 0) else hi,), fn, kind='list')
        if isinstance(it, Arr) and len(it.shape) == 1:
            src = it.frozen()
            env2 = Env(env.parent); env2.v = dict(env.v)
            def fn(i):
                e2 = Env(env2); self.assign(g.target, src(i), e2)
                return self.under(z3.And(num(i) >= 0, num(i) < num(it.shape[0])), lambda: num(self.ev(n.elt, e2)))
            return Arr(it.shape, fn, kind='list')
        raise OutOfReach('comprehension over %s' % type(it).__name__)
    e_GeneratorExp = e_ListComp
    def sub(self, n, env):
        """subscript items"""
        sl = n.slice
        els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        out = []
        for e in els:
            if isinstance(e, ast.Slice):
                if e.step is not None: raise OutOfReach('slice step')
                out.append(('s', self.ev(e.lower, env) if e.lower else None, self.ev(e.upper, env) if e.upper else None))
            else:
                v = self.ev(e, env)
                out.append(('a', v) if isinstance(v, (Arr, list, tuple)) else ('i', v))
        return out
    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.subval(o, self.sub(n, env))
    def subval(self, o, it):
        if o is POISON or any(x[1] is POISON for x in it): return POISON
        if isinstance(o, Opaque): return Opaque(o.name + '[]')
        if isinstance(o, dict):
            k = it[0][1]
            if k not in o: raise OutOfReach('key %r' % k)
            return o[k]
        if isinstance(o, SDict):
            k = self.key(o, it[0][1])
            if not self.intry: self.vc(self.where('a species looked up in %s is there' % o.label), self.z(o.has(k)))
            return o.val(k)
        if isinstance(o, (list, tuple)):
            if it[0][0] == 's' and all(x is None or isinstance(x, int) for x in it[0][1:]): return o[slice(*it[0][1:])]
            if it[0][0] == 'i' and isinstance(it[0][1], int): return o[it[0][1]]
            o = self.arr(o)
        if isinstance(o, Obj) and o.kind == 'solver output':
            if it[0][0] == 'i' and self.lastrow(o, it[0][1]):
                return self.view(o.attrs['last'], [x for x in it[1:]])
            if it[0][0] == 'i':
                f = self.newf('intermediate', I, R)
                return self.view(Arr(o.attrs['last'].shape, lambda i: f(i)), it[1:])
            raise OutOfReach('solver output subscript')
        if isinstance(o, Arr):
            if len(it) == 1 and it[0][0] == 'a' and len(o.shape) == 1:
                ixs = self.arr(it[0][1]); f, g = o.frozen(), ixs.frozen()
                return Arr(ixs.shape, lambda j: f(g(j)))
            if any(x[0] == 'a' for x in it): raise OutOfReach('fancy index')
            v = self.view(o, it)
            if o.kind == 'list' and any(x[0] == 's' for x in it): v = Arr(v.shape, v.frozen(), kind='list')
            return v if v.shape else v.at()
        raise OutOfReach('subscript of %s' % type(o).__name__)
    def lastrow(self, o, i):
        if isinstance(i, int): return i == -1
        return isz(i) and self.valid(num(i) == num(o.attrs['rows']) - 1)
    # ---------------------------------------------------------------- calls
    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if not isinstance(v, (list, tuple)): raise OutOfReach('starred argument')
                args += list(v)
            else: args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict): raise OutOfReach('**')
                kw.update(d)
            else: kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)
    def call(self, f, args, kw):
        if isinstance(f, Fun): return self.callfun(f, args, kw)
        if isinstance(f, Bound): return self.method(f.obj, f.name, args, kw)
        if isinstance(f, Callee): return self.callee(f, args, kw)
        if isinstance(f, Opaque): return Opaque(f.name + '()')
        raise OutOfReach('call of %s' % type(f).__name__)
    def callfun(self, f, args, kw):
        n, e = f.node, Env(f.env)
        a = n.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        for p, v in zip(ps, args): e.v[p] = v
        for k, v in kw.items(): e.v[k] = v
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]:
            if p not in e.v: e.v[p] = self.ev(d, f.env)
        if a.vararg or a.kwarg: raise OutOfReach('variadic function')
        for p in ps:
            if p not in e.v: raise OutOfReach('argument %s' % p)
        if isinstance(n, ast.Lambda): return self.ev(n.body, e)
        try: self.block(n.body, e)
        except Return as r: return r.v
        return None
    def method(self, o, name, args, kw):
        if o is POISON: return POISON
        if isinstance(o, Opaque): return Opaque(o.name + '.' + name)
        if isinstance(o, (SDict, KeysOf)) and name in ('keys', 'values', 'items') and isinstance(o, SDict): return KeysOf(o, name)
        if isinstance(o, SDict) and name == 'get':
            k = self.key(o, args[0]); d = args[1] if len(args) > 1 else None
            v, d = same(o.val(k), d)
            return z3.If(o.has(k), v, d)
        if isinstance(o, dict):
            if name == 'get': return o.get(args[0], args[1] if len(args) > 1 else None)
            if name in ('keys', 'values', 'items'): return list(getattr(o, name)())
        if isinstance(o, list):
            if name == 'append':
                if self.guards and not self.discover: raise OutOfReach('conditional append')
                o.append(args[0]); return None
            if name == 'extend' and isinstance(args[0], list): o.extend(args[0]); return None
            if name == 'copy': return list(o)
        if isinstance(o, Arr):
            if name == 'append' and o.kind == 'list':
                n, v, f = num(o.shape[0]), args[0], o.data.fn
                if self.guards: raise OutOfReach('conditional append')
                if isinstance(v, Arr):
                    if len(o.shape) != 2: raise OutOfReach('append of an array')
                    self.vc(self.where('rows of one length'), num(v.shape[0]) == num(o.shape[1]))
                    g = v.frozen(); o.data.fn = lambda i, j: z3.If(num(i) == n, real(g(j)), real(f(i, j)))
                elif v is POISON: p = self.newc(R, 'poison'); o.data.fn = lambda i: z3.If(num(i) == n, p, real(f(i)))
                else:
                    def fn(i, v=v):
                        x, y = same(v, f(i)); return z3.If(num(i) == n, x, y)
                    o.data.fn = fn
                o.shape = (z3.simplify(n + 1),) + o.shape[1:]
                o.data.log.append('append')
                return None
            if name == 'copy': return self.copy(o, o.kind)
            if name == 'tolist': return self.copy(o, 'list')
            if name == 'astype': return self.cast(o, self.dtype(args[0] if args else kw.get('dtype')))
            if name == 'sum' and not args and not kw: return self.sumof(o)
            if name == 'fill': self.write(o, args[0]); return None
            if name in ('flatten', 'ravel') and len(o.shape) == 1: return self.copy(o) if name == 'flatten' else o
            if name in ('flatten', 'ravel', 'squeeze') and len(o.shape) == 2 and o.shape[1] == 1: return self.subval(o, [('s', None, None), ('i', 0)])
            if name == 'reshape' and len(o.shape) == 1:
                a = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
                if len(a) == 2 and a[1] == 1:
                    f = o.frozen(); return Arr((o.shape[0], 1), lambda i, j: f(i))
        if isinstance(o, Obj): return self.objmethod(o, name, args, kw)
        if isinstance(o, str):
            if all(isinstance(x, str) for x in args): 
                r = getattr(o, name)(*args)
                return r
            return '<text>'
        raise OutOfReach('method %s of %s' % (name, type(o).__name__))
    def objmethod(self, o, name, args, kw):
        if o.kind == 'solver' and name == 'simulate': return self.simulate(o, args, kw)
        if o.kind == 'solver output' : raise OutOfReach('method %s of solver output' % name)
        if o.kind == 'frame' and name == 'to_csv': self.channel(args[0], o.attrs['data']); return None
        if o.kind in ('csv', 'file', 'frame', 'ignored'): return Opaque('io')
        if o.kind in ('solver', 'problem'): return Opaque(name)
        raise OutOfReach('method %s of %s' % (name, o.kind))
    def channel(self, path, data): 
        if not self.discover: self.channels.append((path, data, list(self.guards)))
    def callee(self, f, args, kw):
        full = f.mod + '.' + f.name
        m = f.mod.split('.')[0]
        if m == 'numpy': return self.np(f.name if f.mod == 'numpy' else f.mod[6:] + '.' + f.name, args, kw)
        if m == 'builtins': return self.builtin(f.name, args, kw)
        if m == 'math':
            if f.name in ('ceil', 'floor'): return self.builtin('int', [self.np(f.name, args, kw)], {})
            return self.np(f.name, args, kw)
        if m in ('matplotlib', 'pdb', 'platform', 'timeit', 'Plotting', 'os', 'sys', 'time', 'warnings', 'logging'): return Opaque(full)
        if m == 'pandas':
            if f.name == 'DataFrame': return Obj('frame', data=args[0])
            return Opaque(full)
        if m == 'csv': return Obj('csv')
        if m == 'pickle':
            if f.name == 'dump': self.channel(args[1].attrs.get('path') if isinstance(args[1], Obj) else None, args[0])
            return None
        if m == 'copy': return self.copy(args[0], getattr(args[0], 'kind', 'array')) if isinstance(args[0], (Arr, list)) else args[0]
        if m == 'assimulo':
            if f.name == 'Explicit_Problem':
                for i, k in enumerate(('rhs', 'y0', 't0')):
                    if len(args) > i: kw[k] = args[i]
                o = Obj('problem', **kw)
                if isinstance(o.attrs.get('y0'), (Arr, list)):
                    y = o.attrs['y0']
                    o.attrs['y0'] = self.copy(y)          # assimulo copies the initial values
                return o
            return Obj('solver', problem=args[0], cls=f.name)
        if full in ('scipy.stats.lognorm.pdf',):
            s_ = args[1] if len(args) > 1 else kw['s']
            loc, sc = (list(args[2:]) + [None, None])[:2]
            loc = kw.get('loc', 0) if loc is None else loc; sc = kw.get('scale', 1) if sc is None else sc
            if not (isinstance(loc, (int, Fraction)) and loc == 0): raise OutOfReach('lognormal with a location')
            half, tp = z3.RealVal(Fraction(1, 2)), z3.Real('pi') * 2
            def pdf(x):
                z_ = EL['log'](real(x) / real(sc)) / real(s_)
                return EL['exp'](-(z_ * z_) * half) / (real(x) * real(s_) * EL['sqrt'](tp))
            return self.mapel(pdf, args[0])
        if m == 'scipy': return Opaque(full)
        h = self.spec.callees.get(full) if self.spec else None
        if h: return h(self, args, kw)
        raise OutOfReach('call of %s' % full)
    def np(self, name, args, kw):
        if any(a is POISON for a in args): return POISON
        if name in ('zeros', 'ones', 'empty', 'full'):
            sh = args[0] if args else kw['shape']
            sh = tuple(sh) if isinstance(sh, (tuple, list)) else (sh,)
            npos = 2 if name == 'full' else 1
            dt = self.dtype(args[npos] if len(args) > npos else kw.get('dtype'))
            if name == 'full' and dt is None and isinstance(args[1], int) and 'dtype' not in kw and len(args) == 2: dt = 'int'
            if set(kw) - {'dtype', 'shape', 'order', 'fill_value'}: raise OutOfReach('options of numpy.%s' % name)
            if name == 'full': v = real(args[1])
            else: v = z3.RealVal(0 if name == 'zeros' else 1)
            if name == 'empty':
                f = self.newf('uninitialised', *([I] * len(sh)), R); return Arr(sh, data=Data(f, dt))
            return Arr(sh, data=Data(lambda *ix: v, dt))
        if name == 'zeros_like':
            a = self.copy(args[0])
            return Arr(a.shape, data=Data(lambda *ix: z3.RealVal(0), self.dtype(kw['dtype']) if 'dtype' in kw else a.data.dt))
        if name in ('array', 'copy'):
            if set(kw) - {'dtype', 'copy'} or not (kw.get('copy', True) is True): raise OutOfReach('options of numpy.%s' % name)
            if 'dtype' in kw or len(args) > 1: return self.cast(args[0], self.dtype(kw['dtype'] if 'dtype' in kw else args[1]))
            return self.copy(args[0])
        if name in ('asarray', 'ascontiguousarray', 'asfortranarray', 'asanyarray'):
            if 'dtype' in kw or len(args) > 1:
                if set(kw) - {'dtype'}: raise OutOfReach('options of numpy.%s' % name)
                dt = self.dtype(kw['dtype'] if 'dtype' in kw else args[1])
                if not (isinstance(args[0], Arr) and args[0].kind == 'array' and args[0].data.dt == dt): return self.cast(args[0], dt)
            return args[0] if isinstance(args[0], Arr) and args[0].kind == 'array' else self.copy(args[0])
        if name in ('maximum', 'minimum', 'fmax', 'fmin'):
            big = name in ('maximum', 'fmax')
            def pick(x, y):
                x, y = same(x, y); return z3.If((x >= y) if big else (x <= y), x, y)
            return self.mapel(pick, *[self.arr(x) if isinstance(x, (list, tuple)) else x for x in args[:2]])
        if name == 'clip' and len(args) == 3 and not kw:
            a = args[0]
            if args[1] is not None: a = self.np('maximum', [a, args[1]], {})
            return self.np('minimum', [a, args[2]], {}) if args[2] is not None else a
        if name == 'where' and len(args) == 3:
            def choose(c, x, y):
                c = c if z3.is_bool(num(c)) else num(c) != 0
                x, y = same(x, y); return z3.If(c, x, y)
            return self.mapel(choose, *[self.arr(x) if isinstance(x, (list, tuple)) else x for x in args])
        if name in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'power'):
            op = {'multiply': ast.Mult(), 'add': ast.Add(), 'subtract': ast.Sub(), 'divide': ast.Div(), 'true_divide': ast.Div(), 'power': ast.Pow()}[name]
            a = [self.arr(x) if isinstance(x, (list, tuple)) else x for x in args]
            a = [Arr(x.shape, x.frozen()) if isinstance(x, Arr) else x for x in a]
            return self.arith(op, a[0], a[1])
        if name in EL: return self.mapel(lambda x: EL[name](real(x)), self.arr(args[0]) if isinstance(args[0], (list, tuple)) else args[0])
        if name == 'sum':
            if kw: raise OutOfReach('sum over an axis')
            return self.sumof(self.arr(args[0]))
        if name in ('ceil', 'floor'):
            x = args[0]
            if isinstance(x, Opaque): return x
            if isinstance(x, (int, Fraction)):
                import math
                return Fraction(getattr(math, name)(x))
            x = real(x)
            fl = z3.ToReal(z3.ToInt(x))
            return fl if name == 'floor' else z3.If(fl == x, fl, fl + 1)
        if name in ('round', 'around', 'round_'): return self.builtin('round', args, kw)
        if name in ('float64', 'int64', 'int32', 'int_', 'float_'): return self.builtin('float' if 'float' in name else 'int', args, kw)
        if name in ('errstate', 'seterr', 'set_printoptions'): return Opaque(name)
        if name in ('save', 'savetxt'): self.channel(args[0], args[1]); return None
        if name in ('concatenate', 'append', 'hstack'):
            xs = list(args[0]) if name != 'append' else args
            r = self.arr(xs[0])
            for x in xs[1:]:
                x = self.arr(x); fx, fy, nx = r.frozen(), x.frozen(), num(r.shape[0])
                r = Arr((nx + num(x.shape[0]),), lambda i, fx=fx, fy=fy, nx=nx: z3.If(num(i) < nx, real(fx(i)), real(fy(num(i) - nx))))
            return r
        if name == 'abs': return self.mapel(lambda x: z3.If(real(x) < 0, -real(x), real(x)), args[0])
        if name in ('vstack', 'stack'): return self.copy(args[0])
        if name in ('linspace', 'geomspace'):
            a, b = real(args[0]), real(args[1]); n = num(args[2] if len(args) > 2 else kw.get('num', 50))
            if set(kw) - {'num', 'endpoint'} or kw.get('endpoint', True) is not True or len(args) > 3: raise OutOfReach('linspace options')
            if name == 'geomspace': a, b = EL['log'](a), EL['log'](b)
            f = (lambda x: EL['exp'](x)) if name == 'geomspace' else (lambda x: x)
            return Arr((n,), lambda i: f(a + real(num(i)) * (b - a) / (z3.ToReal(n) - 1)))
        if name == 'arange' and len(args) == 1: return Arr((args[0],), lambda i: real(num(i)))
        if name == 'square': return self.mapel(lambda x: real(x) * real(x), args[0])
        if name == 'cbrt': return self.mapel(lambda x: POW(real(x), z3.RealVal(Fraction(1, 3))), args[0])
        if name == 'reciprocal': return self.mapel(lambda x: 1 / real(x), args[0])
        if name == 'negative': return self.mapel(lambda x: -real(x), args[0])
        raise OutOfReach('numpy.%s' % name)
    def builtin(self, name, args, kw):
        if name == 'print': return None
        if any(a is POISON for a in args): return POISON
        x = args[0] if args else None
        if name == 'len':
            if isinstance(x, KeysOf): return x.d.size
            if isinstance(x, SDict): return x.size
            if isinstance(x, Arr): return x.shape[0]
            return len(x)
        if name == 'int':
            if isinstance(x, int): return x
            if isinstance(x, Fraction): return int(x)
            if z3.is_int(x): return x
            i = z3.ToInt(x)
            return z3.If(z3.Or(z3.ToReal(i) == x, x >= 0), i, i + 1)
        if name == 'float':
            return Fraction(x) if isinstance(x, (int, Fraction)) else real(x)
        if name == 'round':
            if isinstance(x, (int, Fraction)): return round(Fraction(x), *args[1:])
            nd = args[1] if len(args) > 1 else 0
            r = self.newc(R, 'rounded'); h = z3.RealVal(Fraction(1, 2 * 10 ** nd))
            self.hyp.append(z3.And(r - real(x) <= h, real(x) - r <= h))
            return r if len(args) > 1 else self.np('floor', [r + h], {})
        if name == 'range':
            return Range(0, args[0]) if len(args) == 1 else Range(args[0], args[1])
        if name == 'list':
            if not args: return []
            if isinstance(x, KeysOf): return x
            if isinstance(x, SDict): return KeysOf(x, 'keys')
            if isinstance(x, (list, tuple)): return list(x)
            return self.copy(x, 'list')
        if name == 'tuple' and isinstance(x, (list, tuple)): return tuple(x)
        if name == 'sum': return self.sumof(self.arr(x))
        if name == 'open': return Obj('file', path=x)
        if name == 'abs': return self.np('abs', [x], {})
        if name in ('max', 'min') and len(args) == 2:
            a, b = same(*args); return z3.If((a >= b) if name == 'max' else (a <= b), a, b)
        if name == 'str': return x if isinstance(x, str) else '<value>'
        if name == 'dict' and not args: return {}
        if name == 'dict' and isinstance(x, (dict, SDict)): return x
        if name == 'bool': return self.truth(x)
        if name == 'enumerate' and isinstance(x, (list, tuple)): return list(enumerate(x))
        raise OutOfReach('builtin %s' % name)
    # ---------------------------------------------------------------- statements
    def block(self, b, env):
        for s in b: self.st(s, env)
    def st(self, s, env):
        if time.time() > self.end: raise OutOfReach('time limit')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise OutOfReach('statement %s' % type(s).__name__)
        return m(s, env)
    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, env)
    def s_Pass(self, s, env): pass
    def s_Assert(self, s, env): pass
    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): env.v.pop(t.id, None)
    def s_Global(self, s, env): env.nonlocals |= set(s.names)
    def s_Nonlocal(self, s, env): env.nonlocals |= set(s.names)
    def s_Import(self, s, env):
        for a in s.names: env.v[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, s, env):
        for a in s.names:
            full = s.module
            env.v[a.asname or a.name] = Callee(full, a.name)
    def s_FunctionDef(self, s, env):
        if s.decorator_list: raise OutOfReach('decorator')
        env.v[s.name] = Fun(s, env)
    def s_Return(self, s, env):
        if self.guards: raise OutOfReach('conditional return')
        raise Return(self.ev(s.value, env) if s.value else None)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals: e = env.parent.find(t.id) or env.parent
            if isinstance(v, float): v = Fraction(repr(v))
            e.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v is POISON or isinstance(v, Opaque): v = [v] * len(t.elts)
            if isinstance(v, Arr): raise OutOfReach('unpacking an array')
            if len(v) != len(t.elts): raise OutOfReach('unpacking')
            for x, y in zip(t.elts, v): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, (Obj, Fun)): o.attrs[t.attr] = v
            elif isinstance(o, (Opaque, Mod, Callee)) or o is POISON: pass
            else: raise OutOfReach('attribute store')
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            it = self.sub(t, env)
            if isinstance(o, dict): o[it[0][1]] = v; return
            if isinstance(o, list) and it[0][0] == 'i' and isinstance(it[0][1], int) and not self.guards: o[it[0][1]] = v; return
            if o is POISON: return
            if isinstance(o, list) and isinstance(t.value, ast.Name):
                o = self.arr(o); o.kind = 'list'
                env.find(t.value.id).v[t.value.id] = o
            if not isinstance(o, Arr): raise OutOfReach('store to %s' % type(o).__name__)
            if any(x[0] == 'a' for x in it):
                return self.scatter(o, it, v)
            if any(x[1] is POISON for x in it): raise OutOfReach('store at an undetermined place')
            self.write(self.view(o, it), v)
        else: raise OutOfReach('assignment target')
    def scatter(self, o, it, v):
        """o[index array] = v, or o[boolean mask] = v"""
        if len(it) != 1 or len(o.shape) != 1 or it[0][0] != 'a': raise OutOfReach('indexed store')
        ixs = self.arr(it[0][1]); g, n = ixs.frozen(), num(ixs.shape[0])
        if isinstance(v, (Arr, list, tuple)):
            v = self.arr(v)
            if len(v.shape) != 1: raise OutOfReach('indexed store of a matrix')
            src = v.frozen()
        elif isnum(v): src = lambda j: num(v)
        else: raise OutOfReach('indexed store of %s' % type(v).__name__)
        if v is not None and isinstance(v, Arr): self.vc(self.where('indexed store of as many values as places'), num(v.shape[0]) == n)
        probe = num(g(self.newc(I, 'probe')))
        whole = Arr(o.shape, data=o.data, base=o.base, kind=o.kind)
        old = o.frozen()
        if z3.is_bool(probe):
            self.vc(self.where('mask of the length of the array'), n == num(o.shape[0]))
            if isinstance(v, Arr): raise OutOfReach('masked store of an array')
            def put(i):
                x, y = same(src(i), old(i)); return z3.If(g(i), x, y)
        else:
            # wit(i) is a place in the index array that holds i; the places are distinct or the values stored agree, else the outcome is not settled here
            wit = self.newf('witness', I, I); j = self.newc(I, 'j')
            self.hyp.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(wit(g(j)) >= 0, wit(g(j)) < n, g(wit(g(j))) == g(j)))))
            self.fuzzy = True
            def put(i):
                i = num(i); w = wit(i)
                x, y = same(src(w), old(i)); return z3.If(z3.And(w >= 0, w < n, num(g(w)) == i), x, y)
        self.write(whole, Arr(o.shape, put))
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env):
        t = s.target
        load = ast.parse(ast.unparse(t), mode='eval').body
        cur = self.ev(load, env)
        v = self.ev(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add) and isinstance(v, list) and isinstance(t, ast.Name): cur.extend(v); return
        if isinstance(cur, Arr) and self.islist(cur) and isinstance(s.op, ast.Add) and isinstance(v, list) and isinstance(t, ast.Name):
            for x in v: self.method(cur, 'append', [x], {})
            return
        if isinstance(cur, Arr) and cur.kind == 'array' and isinstance(t, ast.Name):     # in place
            self.write(cur, self.arith(s.op, Arr(cur.shape, cur.frozen()), v)); return
        self.assign(t, self.arith(s.op, cur, v), env)
    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, env)
        self.block(s.body, env)
    def s_Try(self, s, env):
        simple = all(isinstance(x, (ast.Expr, ast.Import, ast.ImportFrom, ast.Pass)) for x in s.body)
        self.intry += 1
        try: self.block(s.body + s.orelse, env)
        except OutOfReach:
            if not simple: raise
        finally: self.intry -= 1
        self.block(s.finalbody, env)
    def merge(self, c, a, b):
        if a is b: return a
        if isnum(a) and isnum(b):
            x, y = same(a, b)
            return z3.If(c, x, y)
        if isinstance(a, str) and a == b: return a
        if isz(a) and isz(b) and a.sort() == b.sort(): return z3.If(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and set(a.attrs) == set(b.attrs):
            return Obj(a.kind, **{x: self.merge(c, a.attrs[x], b.attrs[x]) for x in a.attrs})
        if isinstance(a, list) and isinstance(b, (list, Arr)) or isinstance(b, list) and isinstance(a, (list, Arr)):
            try: a, b = self.arr(a), self.arr(b)
            except OutOfReach: return POISON
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and all(p is q or self.valid(num(p) == num(q)) for p, q in zip(a.shape, b.shape)):
            f, g = a.frozen(), b.frozen()
            def fn(*ix):
                x, y = same(f(*ix), g(*ix)); return z3.If(c, x, y)
            return Arr(a.shape, fn, kind=a.kind)
        return POISON
    def s_If(self, s, env):
        if isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__': return
        t = self.truth(self.ev(s.test, env))
        if t is True: return self.block(s.body, env)
        if t is False: return self.block(s.orelse, env)
        before = dict(env.v)
        self.under(t, lambda: self.block(s.body, env))
        a = env.v
        env.v = dict(before)
        self.under(z3.Not(t), lambda: self.block(s.orelse, env))
        b = env.v
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b: out[k] = self.merge(t, a[k], b[k])
            else: out[k] = a.get(k, b.get(k))       # defined on one side only: reading it elsewhere would be an error there
        env.v = out
    def s_For(self, s, env):
        if s.orelse: raise OutOfReach('for-else')
        it = self.ev(s.iter, env)
        if isinstance(it, SDict): it = KeysOf(it, 'keys')
        if isinstance(it, (list, tuple)):
            if len(it) > 40: raise OutOfReach('long loop')
            for x in it:
                self.assign(s.target, x, env); self.block(s.body, env)
            return
        if isinstance(it, KeysOf): return self.dictloop(s, it, env)
        if isinstance(it, Range) and self.spec and self.has_simulate(s): return self.batch(s, env, it)
        raise OutOfReach('loop over %s' % type(it).__name__)
    def has_simulate(self, s): return any(isinstance(x, ast.Attribute) and x.attr == 'simulate' for x in ast.walk(s)) or self.callsim(s)
    def callsim(self, s): return True
    def dictloop(self, s, it, env):
        """body once for an arbitrary key; stores to positions of the key become a scatter (keys are distinct, positions injective)"""
        d, key = it.d, self.newc(Name if it.d.keysort == 'name' else I, 'key')
        before = dict(env.v)
        v = {'keys': key, 'values': d.val(key), 'items': (key, d.val(key))}[it.what]
        datas = {}
        for o in self.heap(env):
            if isinstance(o, Arr): datas[id(o.data)] = (o.data, o.data.fn, len(o.data.log))
        lists = {id(o): (o, len(o)) for o in self.heap(env) if isinstance(o, list)}
        nh = len(self.hyp)
        self.hyp += [self.z(d.has(key))] + self.spec.keyfacts(key)
        self.assign(s.target, v, env)
        tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        self.block(s.body, env)
        writes = []
        for o in self.heap(env):
            if isinstance(o, list) and id(o) in lists and len(o) != lists[id(o)][1]: raise OutOfReach('append in a loop over species')
            if not isinstance(o, Arr): continue
            if id(o.data) not in datas:
                # a list display turned into an array by the first store
                old = [k for k, x in before.items() if isinstance(x, list) and env.v.get(k) is o]
                if not old: continue
                raise OutOfReach('store into a fixed-length list')
            dd, fn, nl = datas[id(o.data)]
            if len(dd.log) > nl and all(w[0] is not dd for w in writes): writes.append((dd, fn, dd.log[nl:]))
        for dd, fn, log in writes:
            if any(w == 'append' for w in log): raise OutOfReach('append in a loop over species')
            poss = []
            for base, shape, src, gs in log:
                if shape or len(base) != 1: raise OutOfReach('slice store in a loop over species')
                poss.append(num(base[0][1]))
            for p in poss: self.vc(self.where('the place stored to is the position of the species'), p == POS(key))
            new = dd.fn
            dd.fn = fn
            def scattered(i, new=new, fn=fn):
                i = num(i); nm = NM(i)
                self.hyp.append(z3.Implies(z3.And(i >= 0, i < num(self.spec.nspec)), z3.And(SPEC(nm), POS(nm) == i)))
                a, b = same(z3.substitute(new(i), (key, nm)), fn(i))
                return z3.If(z3.And(i >= 0, i < num(self.spec.nspec), self.z(d.has(nm))), a, b)
            dd.fn = scattered
        del self.hyp[nh:]
        for k in list(env.v):
            if k in tnames or k not in before: env.v[k] = POISON
            elif env.v[k] is not before[k] and not (isnum(env.v[k]) and isnum(before[k]) and str(env.v[k]) == str(before[k])):
                env.v[k] = POISON        # carried by the loop: reading it later is out of reach
    def heap(self, env):
        seen, out, todo = set(), [], []
        e = env
        while e is not None: todo += list(e.v.values()); e = e.parent
        while todo:
            o = todo.pop()
            if id(o) in seen: continue
            seen.add(id(o))
            if isinstance(o, Arr): out.append(o)
            elif isinstance(o, (list, tuple)): out.append(o) if isinstance(o, list) else None; todo += list(o)
            elif isinstance(o, dict): todo += list(o.values())
            elif isinstance(o, Obj): todo += list(o.attrs.values())
            elif isinstance(o, Fun): todo += list(o.attrs.values())
        return out
    # ---------------------------------------------------------------- the batch loop
    def s_While(self, s, env):
        if s.orelse: raise OutOfReach('while-else')
        return self.batch(s, env, None)
    def mutable(self, env):
        return {n: v for n, v in env.v.items()}
    def batch(self, s, env, rng):
        if self.guards: raise OutOfReach('loop under a condition')
        if self.k is not None: raise OutOfReach('nested loop')
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Continue)): raise OutOfReach('break or continue in the batch loop')
        k = z3.Int('k')
        nm0 = s.target.id if rng is not None and isinstance(s.target, ast.Name) else None
        if rng is not None and nm0 is None: raise OutOfReach('loop target')
        lo = rng.lo if rng else 0
        def enter(e, kk):
            if nm0: e.v[nm0] = num(lo) + num(kk)
        def cond(e, kk):
            if rng is not None: return num(kk) < num(rng.hi) - num(lo)
            return self.z(self.ev(s.test, e))
        E0 = dict(env.v)
        arrs0 = {}        # data object -> initial contents
        for o in self.heap(env):
            if isinstance(o, Arr): arrs0[id(o.data)] = (o, o.data.fn)
        lists0 = {id(o): list(o) for o in self.heap(env) if isinstance(o, list)}
        attrs0 = {id(f): dict(f.attrs) for f in E0.values() if isinstance(f, Fun)}
        def restore():
            env.v.clear(); env.v.update(E0)
            for o, fn in arrs0.values(): o.data.fn = fn; o.data.log = []
            for n, v in E0.items():
                if isinstance(v, list): v[:] = lists0[id(v)]
                if isinstance(v, Fun): v.attrs.clear(); v.attrs.update(attrs0[id(v)])
        # ---- discovery: concrete first iteration gives the deltas
        nh = len(self.hyp)
        self.discover += 1
        self.k = z3.IntVal(0)
        self.hyp.append(cond(env, 0))
        enter(env, 0); self.block(s.body, env)
        E1 = dict(env.v)
        scal, other, lists, mats = {}, set(), {}, {}
        for n, v in E1.items():
            if n == nm0: continue
            v0 = E0.get(n)
            if isnum(v) and isnum(v0):
                if z3.is_true(z3.simplify(num(real(v)) == num(real(v0)), som=True)) : continue
                scal[n] = z3.simplify(same(v, v0)[0] - same(v, v0)[1], som=True)
            elif v is v0 or (isinstance(v, (int, str, Fraction)) and v == v0): continue
            else: other.add(n)
        for n, v in E0.items():
            if isinstance(v, list) and len(v) != len(lists0[id(v)]):
                lists[n] = v
                if isinstance(v[-1], Arr) and len(v[-1].shape) == 1:
                    if lists0[id(v)]: raise OutOfReach('rows appended to a list with rows')
                    self.rowlists[n] = v[-1].shape[0]
            if isinstance(v, Arr) and v.kind == 'list' and 'append' in v.data.log: raise OutOfReach('append to a symbolic list')
        del self.hyp[nh:]
        # ---- the state at iteration k, refined until nothing is undetermined
        last, lval, mw = {}, {}, {}
        fattr = {}
        for rnd in range(6):
            restore()
            self.k = k
            nh = len(self.hyp)
            self.hyp += [k >= 1, self.spec.kd(k)]
            for n, dl in scal.items(): env.v[n] = z3.simplify(real(E0[n]) + real(k) * real(dl)) if not (z3.is_int(num(E0[n])) and z3.is_int(dl)) else num(E0[n]) + k * dl
            for n in other: env.v[n] = self.subst(last[n], k, k - 1) if n in last else POISON
            for n, v in lists.items():
                env.v[n] = self.listform(n, lists0[id(v)], lval.get(n), k)
            for f in [x for x in E0.values() if isinstance(x, Fun)]:
                for a in fattr.get(id(f), ()): f.attrs[a] = POISON
            enter(env, k); 
            ok = True
            self.block(s.body, env)
            del self.hyp[nh:]
            prog = False
            for n in other:
                v = env.v.get(n)
                if n not in last and not self.poisoned(v): last[n] = v; prog = True
            for n, v in lists.items():
                a = env.v[n]
                if n in lval: continue
                v = self.appended(a, lists0[id(v)], k)
                if v is not None: lval[n] = v; prog = True
            for o, fn in arrs0.values():
                log = o.data.log
                if log and id(o.data) not in mw:
                    if all(w[0] == 'row' or w != 'append' for w in log) and len(log) == 1: mw[id(o.data)] = (o, fn, log[0])
                    else: raise OutOfReach('several stores to one array in the batch loop')
            if not prog and rnd: break
        self.discover -= 1
        # an array stored to once per iteration at row r(k)
        rows = {}
        for key_, (o, fn, (base, shape, src, gs)) in mw.items():
            if gs: raise OutOfReach('conditional store in the batch loop')
            r = base[0][1]
            if base[0][0] is not None: raise OutOfReach('store to a whole array in the batch loop')
            rows[key_] = (o, fn, num(r), base, shape, src)
        def at(kk):
            """install the state at the start of iteration kk (kk >= 1, symbolic)"""
            restore()
            for n, dl in scal.items(): env.v[n] = num(E0[n]) + kk * dl if z3.is_int(num(E0[n])) and z3.is_int(dl) else real(E0[n]) + real(kk) * real(dl)
            for n in other: env.v[n] = self.subst(last[n], k, kk - 1) if n in last else POISON
            for n, v in lists.items(): env.v[n] = self.listform(n, lists0[id(v)], lval.get(n), kk, k)
            for o, fn, r, base, shape, src in rows.values():
                r0 = z3.substitute(r, (k, z3.IntVal(0)))
                def new(*b, fn=fn, r0=r0, r=r, base=base, shape=shape, src=src):
                    j = num(b[0]) - r0
                    ix, cnd = [None] * len(shape), [j >= 0, j < kk]
                    for (d, off), bi in list(zip(base, b))[1:]:
                        if d is None: cnd.append(num(bi) == num(off))
                        else:
                            ix[d] = num(bi) if isinstance(off, int) and off == 0 else num(bi) - num(off)
                            cnd += [ix[d] >= 0, ix[d] < num(shape[d])]
                    a, c = same(z3.substitute(num(src(*ix)), (k, j)), fn(*b))
                    return z3.If(z3.And(cnd), a, c)
                o.data.fn = new; o.data.log = []
        def check(kk, tag, nextk):
            """the present state is the closed form at nextk"""
            got = {n: (list(v) if isinstance(v, list) else v) for n, v in env.v.items()}
            gd = {id(o.data): o.data.fn for o, _ in arrs0.values()}
            at(nextk)
            for n in list(scal) + list(other) + list(lists):
                if n in last and isinstance(last[n], (Obj, Fun, Opaque)) and last[n].kind != 'solver output' if isinstance(last.get(n), Obj) else n not in last and n in other:
                    continue
                self.equal(self.where('%s: %s after the batch is as the invariant says' % (tag, n)), got.get(n), env.v.get(n))
            for key_, r in rows.items():
                o = r[0]
                ix = [z3.Int('row')] + [z3.Int('col%d' % d) for d in range(1, len(o.shape))]
                bx = [i for i in ix]
                f, g = gd[key_], o.data.fn
                rngs = [z3.And(i >= 0, i < num(n)) for i, n in zip(ix, o.shape)]
                a, c = same(f(*bx), g(*bx))
                self.vc(self.where('%s: stored rows are as the invariant says' % tag), z3.Implies(z3.And(rngs), a == c))
            for o, fn in arrs0.values():
                if id(o.data) in rows or gd[id(o.data)] is o.data.fn: continue
                ix = [z3.Int('cell%d' % d) for d in range(len(o.shape))]
                a, c = same(gd[id(o.data)](*ix), o.data.fn(*ix))
                self.vc(self.where('%s: other arrays are unchanged' % tag), a == c)
        N = z3.Int('batches')
        # ---- base
        restore()
        c0 = cond(env, 0)
        self.vc('C16 ' + self.where('at least one batch is run'), c0)
        nh = len(self.hyp)
        self.hyp.append(c0); self.k = z3.IntVal(0); self.simcalls = []
        enter(env, 0); self.block(s.body, env)
        self.fact('C16 ' + self.where('the solver is run exactly once per batch (first batch)'), len(self.simcalls) == 1, '%d runs' % len(self.simcalls))
        check(z3.IntVal(0), 'first batch', z3.IntVal(1))
        del self.hyp[nh:]
        # ---- step
        self.phase = 1
        at(k)
        self.hyp += [k >= 1, self.spec.kd(k), self.spec.kd(k + 1)]
        self.hyp.append(cond(env, k)); self.k = k; self.simcalls = []
        enter(env, k); self.block(s.body, env)
        self.fact('C16 ' + self.where('the solver is run exactly once per batch (later batches)'), len(self.simcalls) == 1, '%d runs' % len(self.simcalls))
        check(k, 'later batch', k + 1)
        del self.hyp[nh:]
        # ---- exit
        at(N)
        self.hyp += [N >= 1, self.spec.kd(N), z3.Not(cond(env, N))]
        cN = self.hyp[-1]
        at(N - 1); self.hyp.append(z3.Implies(N >= 2, cond(env, N - 1)))
        restore(); self.hyp.append(z3.Implies(N == 1, cond(env, 0)))
        at(N)
        if nm0: env.v[nm0] = num(lo) + N - 1
        self.k = None
        self.spec.exit(self, N)
    def poisoned(self, v):
        if v is POISON: return True
        if isinstance(v, Arr):
            if v.kind == 'poison': return True
            ix = [z3.Int('p%d' % d) for d in range(len(v.shape))]
            return 'poison!' in z3.simplify(v.at(*ix)).sexpr()
        if isz(v): return 'poison!' in v.sexpr()
        if isinstance(v, (list, tuple)): return any(self.poisoned(x) for x in v)
        return False
    def subst(self, v, k, to):
        if isz(v): return z3.substitute(v, (k, num(to)))
        if isinstance(v, Arr):
            f = v.frozen()
            def g(*ix):
                ds = [z3.Int('subst!%d' % d) for d in range(len(ix))]
                t = z3.substitute(num(f(*ds)), (k, num(to)))
                return z3.substitute(t, *[(d, num(i)) for d, i in zip(ds, ix)])
            return Arr([self.subst(n, k, to) for n in v.shape], g, kind=v.kind)
        if isinstance(v, Obj): return Obj(v.kind, **{a: self.subst(x, k, to) for a, x in v.attrs.items()})
        if isinstance(v, (list, tuple)): return type(v)(self.subst(x, k, to) for x in v)
        return v
    def listform(self, n, init, val, kk, k=None):
        """list after kk appends"""
        l0 = len(init)
        if val is None and n in self.rowlists:
            p = self.newf('poison', I, I, R)
            return Arr((num(kk) + l0, self.rowlists[n]), lambda i, j: p(num(i), num(j)), kind='list')
        if isinstance(val, Arr):
            src = val
            f = lambda i, j: self.subst(src, k if k is not None else z3.Int('k'), num(i) - l0).at(j)
            return Arr((num(kk) + l0, val.shape[0]), f, kind='list')
        if val is None:
            p = self.newf('poison', I, R)
            a = Arr((num(kk) + l0,), lambda i: p(i), kind='list'); return a
        i0 = self.arr(init) if init else None
        def f(i):
            v = real(z3.substitute(num(val), (z3.Int('k'), num(i) - l0)))
            return v if i0 is None else z3.If(num(i) < l0, real(i0.at(i)), v)
        return Arr((num(kk) + l0,), f, kind='list')
    def appended(self, a, init, k):
        if not isinstance(a, Arr): return None
        n = z3.simplify(a.shape[0] - 1)
        if not z3.is_true(z3.simplify(n == k + len(init))): raise OutOfReach('several appends to one list in a batch')
        if len(a.shape) == 1:
            v = z3.simplify(a.at(k + len(init)))
            return None if self.poisoned(v) else v
        if len(a.shape) == 2:
            f = a.frozen(); v = Arr((a.shape[1],), lambda j: f(k + len(init), j))
            return None if self.poisoned(v) else v
        return None
    def equal(self, name, a, b):
        if a is POISON or b is POISON: return
        if isinstance(a, list) and isinstance(b, Arr):
            a = self.arr(a) if a else Arr((0,) + b.shape[1:], lambda *i: z3.RealVal(0))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) != len(b.shape): return self.fact(name, False, 'shapes')
            for p, q in zip(a.shape, b.shape): self.vc(name + ' (length)', num(p) == num(q))
            ix = [z3.Int('i%d' % d) for d in range(len(a.shape))]
            rng = z3.And([z3.And(i >= 0, i < num(n)) for i, n in zip(ix, a.shape)])
            x, y = same(a.at(*ix), b.at(*ix))
            return self.vc(name, z3.Implies(rng, x == y))
        if isnum(a) and isnum(b):
            x, y = same(a, b); return self.vc(name, x == y)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind:
            for n in a.attrs:
                if isinstance(a.attrs[n], (Arr,)) or isnum(a.attrs[n]): self.equal(name + ' .' + n, a.attrs[n], b.attrs.get(n, POISON))
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b): self.equal(name, x, y)
    # ---------------------------------------------------------------- the solver
    def simulate(self, o, args, kw):
        p = o.attrs['problem']
        if p is POISON or not isinstance(p, Obj): raise OutOfReach('problem')
        tf = args[0] if args else kw['tfinal']
        self.simcalls.append(p)
        f = p.attrs.get('rhs')
        k, L = self.k if self.k is not None else z3.IntVal(0), self.spec.L
        kk = num(k)
        if not self.discover:
            t0 = p.attrs.get('t0', 0)
            self.vc('C16 ' + self.where('a batch lasts the batch length'), real(tf) - real(t0) == self.spec.d)
            y0 = p.attrs['y0']
            y0 = self.arr(y0)
            self.vc('C16 ' + self.where('the state has one entry per variable'), num(y0.shape[0]) == num(L))
            i = z3.Int('i')
            want = z3.If(kk == 0, self.spec.init(i), FIN(kk - 1, i))
            self.vc('C16 ' + self.where('the first batch starts from the requested concentrations' if z3.is_int_value(kk) else 'a later batch starts where the last ended'),
                    z3.Implies(z3.And(i >= 0, i < num(L)), real(y0.at(i)) == want))
            self.rhs(f, 'rhs', t0)
            jac = p.attrs.get('jac')
            if jac is not None: self.rhs(jac, 'jac', t0)
        # what the solver's calls leave behind in the attributes of the right-hand side
        if isinstance(f, Fun):
            old = dict(f.attrs)
            self.quiet(f)
            for a, v in list(f.attrs.items()):
                if isinstance(v, Arr):
                    h = z3.Function('left_%s' % a, I, *([I] * len(v.shape)), R)
                    f.attrs[a] = Arr(v.shape, lambda *ix, h=h: h(kk, *[num(i) for i in ix]))
                elif isnum(v): f.attrs[a] = z3.Function('left_%s' % a, I, R)(kk)
                elif v is not old.get(a): f.attrs[a] = Opaque(a)
        last = Arr((L,), lambda i: FIN(kk, num(i)))
        rows = z3.Function('solver_rows', I, I)(kk)
        tt = z3.Function('solver_time', I, I, R)
        return (Arr((rows,), lambda i: tt(kk, num(i))), Obj('solver output', last=last, rows=rows))
    def quiet(self, f):
        """one run of f for its side effects on attributes only"""
        heap0 = [(o, o.data.fn, list(o.data.log)) for o in self.heap(f.env) if isinstance(o, Arr)]
        self.discover += 1
        rc = self.ratecalls
        try: self.callfun(f, [self.newc(R, 't'), (lambda g: Arr((self.spec.L,), lambda i: g(num(i))))(self.newf('y', I, R))], {})
        finally:
            self.discover -= 1; self.ratecalls = rc
            for o, fn, log in heap0: o.data.fn, o.data.log = fn, log
    def rhs(self, f, what, t0):
        if not isinstance(f, Fun): raise OutOfReach('%s is not a function of the module' % what)
        heap0 = [(o, o.data.fn, list(o.data.log)) for o in self.heap(f.env) if isinstance(o, Arr)]
        env0, at0 = dict(f.env.v), dict(f.attrs)
        region = {}
        for rep in (0, 1):
            nid, nsum, nh = len(self.ids), len(self.sums), len(self.hyp)
            start = {id(o.data): o.data.fn for o, _, _ in heap0}
            for o, _, _ in heap0: o.data.log = []
            t = self.newc(R, 't'); yf = self.newf('y', I, R)
            y = Arr((self.spec.L,), lambda i: yf(num(i)))
            self.ratecalls = []; self.spec.before(yf)
            tag = what if rep == 0 else what + ' (further call)'
            tod = self.spec.s + z3.ToReal(num(self.k)) * self.spec.d + t - real(t0)
            self.curtod = tod
            try: res = self.callfun(f, [t, y], {})
            finally: self.curtod = None
            i = z3.Int('i')
            self.vc('C14 ' + self.where('the %s leaves the state it is given as it was' % tag), y.at(i) == yf(i))
            self.fact('C14 ' + self.where('the %s evaluates the rate coefficients' % tag), bool(self.ratecalls) or not self.spec.rates, 'no call')
            for c in self.ratecalls:
                self.vc('C15 ' + self.where('the %s uses the time of day start + k*length + t' % tag), real(c) == tod)
            self.spec.post(self, what, tag, tod, yf, res)
            del self.hyp[nh:]; del self.ids[nid:]; del self.sums[nsum:]
            changed = [o for o, fn, _ in heap0 if o.data.fn is not start[id(o.data)]]
            rebound = [n for n in f.env.v if f.env.v[n] is not env0.get(n)]
            def inside(o, ix):
                out = []
                for base, shape, src, gs in region[id(o.data)]:
                    c = list(gs)
                    for (d, off), b in zip(base, ix):
                        if d is None: c.append(b == num(off))
                        else: c += [b >= num(off), b < num(off) + num(shape[d])]
                    out.append(z3.And(c) if c else z3.BoolVal(True))
                return z3.Or(out)
            if rep == 0:
                if not changed and not rebound: break
                # further calls find arbitrary contents where this one wrote, the rest as it was
                for o in changed:
                    region[id(o.data)] = list(o.data.log)
                    h, fn = self.newf('left_by_a_call', *([I] * len(o.shape)), R), start[id(o.data)]
                    o.data.fn = lambda *ix, o=o, h=h, fn=fn: z3.If(inside(o, [num(j) for j in ix]), h(*[num(j) for j in ix]), real(fn(*ix)))
                for n in rebound: f.env.v[n] = self.newc(num(f.env.v[n]).sort(), 'left') if isnum(f.env.v[n]) else POISON
            else:
                for o in changed:
                    ix = [z3.Int('c%d' % d) for d in range(len(o.shape))]
                    a, c = same(o.data.fn(*ix), start[id(o.data)](*ix))
                    hyp = z3.Not(inside(o, ix)) if id(o.data) in region else z3.BoolVal(True)
                    self.vc('C14 ' + self.where('further calls of the %s write where the first did' % what), z3.Implies(hyp, a == c))
        for o, fn, log in heap0: o.data.fn, o.data.log = fn, log
        f.env.v.clear(); f.env.v.update(env0); f.attrs.clear(); f.attrs.update(at0)

# -------------------------------------------------------------------- the modules and their specifications
CF = Fraction(255, 100) * 10 ** 10
SATW = '(numpy.exp((-0.58002206E4/T)+0.13914993E1-(0.48640239E-1*T)+(0.41764768E-4*(T**2.0E0))-(0.14452093E-7*(T**3.0E0))+(0.65459673E1*numpy.log(T))))'

class Spec:
    rates = True
    def __init__(self, sim, kind):
        self.kind = kind
        self.aerosol = kind in ('aerosol', 'fixed')
        self.rates = kind != 'fixed'
        c = lambda n, s=R: z3.Const(n, s)
        self.s, self.d, self.temp, self.h2o, self.simt = c('start_time'), c('batch_step'), c('temp'), c('H2O'), c('simulation_time')
        self.E, self.N = c('equations', I), c('num_species', I)
        self.nro2 = c('num_RO2', I)
        self.ratio = c('simulation_time/batch_step')
        sim.hyp += [self.d > 0, self.simt == self.ratio * self.d, self.ratio > z3.RealVal(Fraction(1, 10 ** 9)), self.simt > 0, self.E >= 1, self.N >= 2, self.nro2 >= 0, self.temp > 0]
        self.nspec = self.N
        self.L = self.N
        self.inp = {}
        def arr(n, *shape, sort=R):
            f = z3.Function('in_' + n, *([I] * len(shape)), sort)
            self.inp[n] = Arr(shape, lambda *ix, f=f: f(*[num(i) for i in ix])); return self.inp[n]
        has_name = lambda x: SPEC(x)
        d = dict(species_dict=SDict(lambda i: z3.And(num(i) >= 0, num(i) < self.N), lambda i: NM(num(i)), self.N, 'int', label='species_dict'),
                 species_dict2array=SDict(lambda x: SPEC(x), lambda x: POS(x), self.N, label='species_dict2array'),
                 species_initial_conc=SDict(lambda x: INC(x), lambda x: CONC(x), c('num_initial', I), label='species_initial_conc'), equations=self.E)
        self.callees = {}
        if self.aerosol:
            self.nc, self.nb = c('num_species_condensed', I), c('num_bins', I)
            self.ncond_len = c('condensed_length', I)
            sim.hyp += [self.nc >= 1, self.nb >= 1, self.ncond_len == self.nc * self.nb, self.nc <= self.N]
            self.L = z3.simplify(self.N + self.nc * self.nb)
            d.update(num_species=self.N, num_species_condensed=self.nc, num_bins=self.nb)
            for n in ('y_density_array_asnumpy', 'y_mw', 'Latent_heat_asnumpy', 'DStar_org_asnumpy', 'alpha_d_org_asnumpy', 'gamma_gas_asnumpy', 'Delta_H'): arr(n, self.nc)
            arr('sat_vp', self.nc); arr('include_index', self.nc, sort=I); arr('ignore_index', c('num_ignored', I), sort=I)
            arr('ignore_index_fortran', self.N)
            for n in ('ycore_asnumpy', 'core_density_array_asnumpy', 'core_molw_asnumpy', 'N_perbin'): arr(n, self.nb)
            arr('y_cond_initial', self.nc * self.nb); self.inp['y_cond_initial'].kind = 'list'
            arr('y_gas_initial', self.N); self.inp['y_gas_initial'].kind = 'list'
            for n in ('core_dissociation', 'Updraft', 'GRAV', 'Rv', 'Ra', 'R_gas', 'R_gas_other', 'cp', 'sigma', 'NA', 'kb', 'Lv_water_vapour'): self.inp[n] = c('in_' + n)
            sim.hyp.append(self.inp['NA'] > 0)
            d.update(self.inp)
        self.input_dict = d
        self.orig = {n: (v.frozen() if isinstance(v, Arr) else v) for n, v in self.inp.items()}
        H = sim.name('H2O')
        if kind == 'aerosol': sim.hyp += [POS(H) == self.N - 1, SPEC(H), NM(self.N - 1) == H]
        self.gas_n = self.N - 1 if self.aerosol else self.N
        self.contracts(sim)
    def keyfacts(self, key):
        if key.sort() == I: return [z3.Implies(z3.And(key >= 0, key < self.N), z3.And(SPEC(NM(key)), POS(NM(key)) == key))]
        return [z3.Implies(INC(key), SPEC(key)), z3.Implies(SPEC(key), z3.And(POS(key) >= 0, POS(key) < self.N, NM(POS(key)) == key))]
    def kd(self, k): return z3.Implies(num(k) >= 1, z3.ToReal(num(k)) * self.d >= self.d)
    def init(self, i):
        n = NM(i)
        if self.kind == 'gas': return z3.If(INC(n), CONC(n) * z3.RealVal(CF), z3.RealVal(0))
        if self.kind == 'aerosol':
            g = z3.If(INC(n), z3.If(i == self.N - 1, CONC(n), CONC(n) * z3.RealVal(CF)), z3.RealVal(0))
            return z3.If(i < self.N, g, self.orig['y_cond_initial'](i - self.N))
        return z3.If(i < self.N, self.orig['y_gas_initial'](i), self.orig['y_cond_initial'](i - self.N))
    # -- assumed contracts of generated and compiled functions
    def contracts(self, sim):
        C = self.callees
        def buffer(S, v, shape, name, zero):
            """an array handed to a generated Python function for its result"""
            if not isinstance(v, Arr): raise OutOfReach('buffer')
            S.fact('C14 ' + S.where('%s has the right number of dimensions' % name), len(v.shape) == len(shape))
            for a, b in zip(v.shape, shape): S.vc('C14 ' + S.where('%s has the right length' % name), num(a) == num(b))
            if zero:
                ix = [z3.Int('b%d' % q) for q in range(len(shape))]
                S.vc('C14 ' + S.where('%s is zero on entry' % name), z3.Implies(z3.And([z3.And(x >= 0, x < num(n)) for x, n in zip(ix, shape)]), real(v.at(*ix)) == 0))
        def rates_py(S, a, kw):
            if any(x is POISON for x in a): return POISON
            t, ro2, h, T_, out, j = a
            t = S.timeofday(t); S.ratecalls.append(t)
            buffer(S, out, [self.E], 'the rate array', False)
            S.vc('C14 ' + S.where('the photolysis array is long enough'), num(j.shape[0]) >= 62)
            q = z3.Int('b0'); S.vc('C14 ' + S.where('the photolysis array is zero on entry'), z3.Implies(z3.And(q >= 0, q < num(j.shape[0])), real(j.at(q)) == 0))
            t, ro2, h, T_ = real(t), real(ro2), real(h), real(T_)
            S.write(out, Arr(out.shape, lambda e: K(t, ro2, h, T_, num(e))))
            return out
        def rates_f(S, a, kw):
            if any(x is POISON for x in a): return POISON
            n = ['ro2', 'h2o', 'temp', 'tod']
            a = list(a) + [kw[x] for x in n[len(a):]]
            ro2, h, T_, t = a
            t = S.timeofday(t); S.ratecalls.append(t)
            t, ro2, h, T_ = real(t), real(ro2), real(h), real(T_)
            return Arr((self.E,), lambda e: K(t, ro2, h, T_, num(e)))
        C['Rate_coefficients_numba.evaluate_rates'] = rates_py
        C['rate_coeff_f2py.evaluate_rates'] = rates_f
        def state(S, v):
            S.vc('C14 ' + S.where('products are taken of the gas-phase state'), num(v.shape[0]) == num(self.gas_n))
            return S.idof(v)
        def react_py(S, a, kw):
            i = state(S, a[0]); S.vc('C14 ' + S.where('number of reactions handed over'), num(a[1]) == self.E)
            buffer(S, a[2], [self.E], 'the product array', False)
            S.write(a[2], Arr(a[2].shape, lambda e: P(i, num(e)))); return a[2]
        def react_f(S, a, kw):
            i = state(S, a[0]); return Arr((self.E,), lambda e: P(i, num(e)))
        C['Reactants_conc_numba.reactants'] = react_py
        C['reactants_conc_f2py.reactants'] = react_f
        def rr(S, v):
            S.vc('C14 ' + S.where('one rate per reaction'), num(v.shape[0]) == self.E)
            return S.idof(v)
        def lg_py(S, a, kw):
            i = rr(S, a[1]); buffer(S, a[0], [self.gas_n], 'the tendency array', True)
            S.write(a[0], Arr(a[0].shape, lambda s: T(i, num(s)))); return a[0]
        def lg_f(S, a, kw):
            i = rr(S, a[0]); return Arr((self.gas_n,), lambda s: T(i, num(s)))
        C['Loss_Gain_numba.dydt'] = lg_py
        C['loss_gain_f2py.loss_gain'] = lg_f
        def jac_py(S, a, kw):
            r, i = rr(S, a[0]), state(S, a[1]); buffer(S, a[2], [self.gas_n, self.gas_n], 'the Jacobian array', True)
            S.write(a[2], Arr(a[2].shape, lambda p, q: J(r, i, num(p), num(q)))); return a[2]
        def jac_f(S, a, kw):
            r, i = rr(S, a[0]), state(S, a[1]); return Arr((self.gas_n, self.gas_n), lambda p, q: J(r, i, num(p), num(q)))
        C['Jacobian_numba.jacobian'] = jac_py
        C['jacobian_f2py.jacobian'] = jac_f
        C['partition_f2py.dydt_partition'] = self.partition
    PARTARGS = ['y', 'ycore', 'core_dissociation', 'core_mass_array', 'y_density_array', 'core_density_array', 'ignore_index_fortran', 'y_mw', 'Psat', 'DStar', 'alpha_d', 'C_g_i_t',
                'N_perbin', 'gamma_gas', 'Latent_heat', 'GRAV', 'Updraft', 'sigma', 'NA', 'kb', 'Rv', 'R_gas', 'Model_temp', 'cp', 'Ra', 'Lv_water_vapour']
    def partwant(self, S, y):
        o = self.orig
        e = Env(); e.v.update(numpy=Mod('numpy'), T=self.temp)
        satw = S.ev(ast.parse('numpy.log10(%s*9.86923E-6)' % SATW, mode='eval').body, e)
        psat = lambda j: POW(z3.RealVal(10), z3.If(num(j) == self.nc - 1, satw, o['sat_vp'](j)))
        core = lambda j: o['ycore_asnumpy'](j) / o['NA'] * o['core_molw_asnumpy'](j)
        inc = lambda j: y(o['include_index'](j))
        A = lambda n, l: ((l,), o[n])
        return [((self.L,), y), A('ycore_asnumpy', self.nb), o['core_dissociation'], ((self.nb,), core), A('y_density_array_asnumpy', self.nc), A('core_density_array_asnumpy', self.nb),
                A('ignore_index_fortran', self.N), A('y_mw', self.nc), ((self.nc,), psat), A('DStar_org_asnumpy', self.nc), A('alpha_d_org_asnumpy', self.nc), ((self.nc,), inc), A('N_perbin', self.nb),
                A('gamma_gas_asnumpy', self.nc), A('Latent_heat_asnumpy', self.nc), o['GRAV'], o['Updraft'], o['sigma'], o['NA'], o['kb'], o['Rv'], o['R_gas'], self.temp, o['cp'], o['Ra'], o['Lv_water_vapour']]
    def partition(self, S, a, kw):
        y = self.cury if not S.discover else a[0].frozen()
        want = self.partwant(S, y)
        S.fact('C14 ' + S.where('the partitioning routine gets its 26 arguments'), len(a) == 26 and not kw, '%d arguments' % len(a))
        ok = len(a) == 26
        if not S.discover:
            for n, g, w in zip(self.PARTARGS, a, want):
                nm = 'C14 ' + S.where('argument %s of the partitioning routine' % n)
                if isinstance(w, tuple):
                    g = S.arr(g)
                    S.vc(nm + ' has the right length', num(g.shape[0]) == num(w[0][0]))
                    i = z3.Int('i')
                    x, z = same(g.at(i), w[1](i))
                    ok &= bool(S.vc(nm, z3.Implies(z3.And(i >= 0, i < num(w[0][0])), x == z)))
                else:
                    if not isnum(g): S.fact(nm, False, 'not a number'); ok = False; continue
                    x, z = same(g, w); ok &= bool(S.vc(nm, x == z))
        self.partcalls += 1
        f = self.PART if ok else S.newf('other_partition', I, R)
        return (S.newc(R, 'total_SOA_mass'), Arr((self.nb,), S.newf('aw_array', I, R)), Arr((self.nb,), S.newf('size_array', I, R)), Arr((self.L,), lambda i: f(num(i))))
    cury, partcalls = None, 0
    PART = z3.Function('partitioning_tendency', I, R)
    def before(self, yf): self.cury = lambda j: yf(num(j))
    def post(self, S, what, tag, tod, yf, res):
        y = lambda i: yf(num(i))
        sm = None
        if self.rates:
            g = Arr((self.nro2,), lambda j: yf(RO2IX(num(j))))
            ro2 = S.sumof(g)
            ky = lambda e: K(tod, ro2, self.h2o, self.temp, num(e))
            sid = S.ident((self.gas_n,), y, S.ids)
        if what == 'jac':
            rid = S.ident((self.E,), ky, S.ids)
            if not isinstance(res, Arr): raise OutOfReach('Jacobian')
            S.fact('C14 ' + S.where('the %s returns a matrix' % tag), len(res.shape) == 2)
            for n in res.shape: S.vc('C14 ' + S.where('the %s has one row and column per variable' % tag), num(n) == num(self.L))
            p, q = z3.Int('p'), z3.Int('q')
            S.vc('C14 ' + S.where('the %s is the Jacobian at the rate coefficients and state of the right-hand side' % tag), z3.Implies(z3.And(p >= 0, p < num(self.L), q >= 0, q < num(self.L)), res.at(p, q) == J(rid, sid, p, q)))
            return
        if not isinstance(res, Arr): res = S.arr(res)
        i = z3.Int('i')
        if len(res.shape) == 2 and isinstance(res.shape[1], int) and res.shape[1] == 1: got = lambda j: res.at(j, 0)
        else: got = lambda j: res.at(j)
        S.vc('C14 ' + S.where('the %s returns one tendency per variable' % tag), num(res.shape[0]) == num(self.L))
        want = z3.RealVal(0)
        if self.rates:
            tid = S.ident((self.E,), lambda e: P(sid, num(e)) * ky(e), S.ids)
            want = T(tid, i) if not self.aerosol else z3.If(i < self.gas_n, T(tid, i), z3.RealVal(0))
        if self.aerosol:
            want = want + self.PART(i)
        S.vc('C14 ' + S.where('the %s is the tendency at the rate coefficients and state' % tag + (' plus the partitioning tendency' if self.aerosol else '')), z3.Implies(z3.And(i >= 0, i < num(self.L)), real(got(i)) == want))
    def exit(self, S, N):
        self.n = N
        x = self.ratio
        eps = z3.RealVal(Fraction(1, 10 ** 9))
        S.vc('C16 ' + S.where('the batches cover the simulation time'), z3.ToReal(N) >= x - eps)
        S.vc('C16 ' + S.where('no batch more than needed'), z3.ToReal(N) - 1 < x + eps)
    def matrix(self, S, v, name):
        v = S.arr(v) if not isinstance(v, Arr) else v
        S.fact('C16 ' + S.where('%s is a table' % name), len(v.shape) == 2)
        S.vc('C16 ' + S.where('%s has one row per batch' % name), num(v.shape[0]) == self.n)
        S.vc('C16 ' + S.where('%s has one column per variable' % name), num(v.shape[1]) == num(self.L))
        j, i = z3.Int('j'), z3.Int('i')
        S.vc('C16 ' + S.where('row j of %s is the final state of batch j' % name), z3.Implies(z3.And(j >= 0, j < self.n, i >= 0, i < num(self.L)), real(v.at(j, i)) == FIN(j, i)))
    def times(self, S, v, name):
        v = S.arr(v) if not isinstance(v, Arr) else v
        S.vc('C16 ' + S.where('%s has one entry per batch' % name), num(v.shape[0]) == self.n)
        j = z3.Int('j')
        S.vc('C16 ' + S.where('entry j of %s is the end time of batch j' % name), z3.Implies(z3.And(j >= 0, j < self.n), real(v.at(j)) == z3.ToReal(j + 1) * self.d))
    def final(self, S, ret, need, retkind):
        got = {}
        save = z3.Bool('save_output')
        for path, data, gs in S.channels: got.setdefault(path if isinstance(path, str) else '?', []).append((data, gs))
        for path, how in need.items():
            S.fact('C16 ' + S.where('output %s is written' % path), path in got, 'files written: %s' % sorted(got))
            for data, gs in got.get(path, []):
                S.vc('C16 ' + S.where('output %s is written when asked for' % path), z3.Implies(save, z3.And(gs) if gs else z3.BoolVal(True)))
                (self.matrix if how == 'matrix' else self.times)(S, data, path)
        if retkind:
            S.fact('C16 ' + S.where('times and states are returned'), isinstance(ret, tuple) and len(ret) == 2, 'returned %s' % type(ret).__name__)
            if isinstance(ret, tuple) and len(ret) == 2:
                self.times(S, ret[0], 'the returned times'); self.matrix(S, ret[1], 'the returned matrix')

MODS = {'py': ('ODE_solver.py', 'gas', {'M_output': 'matrix', 'M_output_matrix.csv': 'matrix'}, True),
        'f90': ('f2py/ODE_solver.py', 'gas', {'M_output': 'matrix', 'M_output_matrix.csv': 'matrix'}, False),
        'aerosol': ('Aerosol/f2py/ODE_solver.py', 'aerosol', {'M_y_output.pickle': 'matrix', 'M_t_output.pickle': 'times'}, False),
        'fixed': ('Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py', 'fixed', {'M_y_output.pickle': 'matrix', 'M_t_output.pickle': 'times', 'M_y_output.csv': 'matrix', 'M_t_output.csv': 'times'}, False)}

def job(prop, mod, limit):
    t0 = time.time()
    path, kind, need, retkind = MODS[mod]
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    S = Sim(path, limit)
    oor = None
    try:
        spec = S.spec = Spec(S, kind)
        genv = Env()
        for st in tree.body:
            if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef)): S.st(st, genv)
            elif isinstance(st, ast.Assign):
                try: S.st(st, genv)
                except OutOfReach: pass
        f = genv.v.get('run_simulation')
        if not isinstance(f, Fun): raise OutOfReach('run_simulation is not defined in %s' % path)
        vals = dict(filename='M', save_output=z3.Bool('save_output'), start_time=spec.s, temp=spec.temp, RH=z3.Real('RH'), RO2_indices=Arr((spec.nro2,), lambda j: RO2IX(num(j))), H2O=spec.h2o,
                    PInit=z3.Real('PInit'), y_cond=Opaque('y_cond parameter'), input_dict=spec.input_dict, simulation_time=spec.simt, batch_step=spec.d, plot_mass=z3.Bool('plot_mass'))
        ps = [a.arg for a in f.node.args.args]
        for p in ps:
            if p not in vals: raise OutOfReach('parameter %s' % p)
        ret = S.callfun(f, [vals[p] for p in ps], {})
        if getattr(spec, 'n', None) is None: raise OutOfReach('no batch loop')
        spec.final(S, ret, need, retkind)
    except OutOfReach as e: oor = str(e)
    except (RecursionError, z3.Z3Exception, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
        if os.environ.get('PV_DEBUG'): raise
        oor = 'the verifier does not follow this code: %s: %s' % (type(e).__name__, e)
    vcs = [v for v in S.vcs if not (v[0][:1] == 'C' and v[0][1:3].isdigit()) or v[0].startswith(prop + ' ')]
    cov = {'run_simulation is executed to its end': oor is None, 'hypotheses are satisfiable': True}
    if oor is None:
        s = z3.Solver(); s.set('timeout', 20000); s.add(*S.hyp); cov['hypotheses are satisfiable'] = s.check() != z3.unsat
    return dict(label='%s %s' % (prop, path), vcs=vcs, functions=['%s:run_simulation' % path] + ['%s:%s' % (path, n.name) for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name != 'run_simulation' and not n.name.startswith('load_')],
                oor=oor, covers=cov, wall=time.time() - t0)
