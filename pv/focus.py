"""Symbolic executor for the table-building functions, one path at a time, with a loop rule for collections of any size.

Values: Python constants, z3 terms (Int positions and counts, Real numbers, Bool, sort U for names, texts and objects), references to heap
objects (lists, dictionaries as z3 arrays with a domain, a size and value counts), and symbolic texts given by the specification.
Loop rule: a set of candidate facts about the state (given by the specification, with the loop index or the set of elements already
processed as ghost) is reduced to the largest subset that holds on entry and is kept by one iteration on an arbitrary element
from an arbitrary state (everything the body changes is forgotten); that subset is assumed afterwards.  Iterations that leave the loop
early, return or raise continue as paths of their own.  Anything outside these rules raises Out (out of reach)."""
import ast, time, os
import z3

U = z3.DeclareSort('U')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
NUM = z3.Function('num', U, R)
STRS = {}
def ustr(s):
    if s not in STRS: STRS[s] = z3.Const('"%s"' % s, U)
    return STRS[s]
UFS = {}
def uf(name, *args):
    args = [a for a in args]
    key = (name, len(args))
    if key not in UFS: UFS[key] = z3.Function('%s/%d' % key, *([U] * (len(args) + 1)))
    return UFS[key](*args)
BOXR, BOXI = z3.Function('real2u', R, U), z3.Function('int2u', I, U)

HOOK = None
class Out(Exception): pass
class Sig(Exception): pass
class Ret(Sig):
    def __init__(s, v): s.v = v
class Brk(Sig): pass
class Cont(Sig): pass
class Exc(Sig):
    def __init__(s, kind): s.kind = kind
class Dead(Exception): pass

class Ref:
    def __init__(s, id): s.id = id
    def __repr__(s): return 'Ref%s' % (s.id,)
    def __eq__(s, o): return isinstance(o, Ref) and o.id == s.id
    def __hash__(s): return hash(s.id)
class Sub:
    def __init__(s, ref, k): s.ref, s.k = ref, k
class Junk: pass
JUNK = Junk()
class Opq:                        # a dotted library name
    def __init__(s, name): s.name = name
class Fun:
    def __init__(s, node, env): s.node, s.env = node, env
class Bound:
    def __init__(s, obj, name): s.obj, s.name = obj, name
class Seq:                        # ordered collection: length (Int), element at an index
    def __init__(s, n, at): s.n, s.at = n, at
class SetOf:                      # every element exactly once, in some order
    def __init__(s, sort, member, make, key=None, label=''): s.sort, s.member, s.make, s.label = sort, member, make, label
class View:                       # keys / values / items of a map
    def __init__(s, ref, what): s.ref, s.what = ref, what
class SymVal:
    """a symbolic text or object of the specification: method(X, name, args), attr, index, u(X)"""
    def method(s, X, name, args): raise Out('%s.%s' % (type(s).__name__, name))
    def attr(s, X, name): return Bound(s, name)
    def index(s, X, k): raise Out('indexing a %s' % type(s).__name__)
    def u(s, X): raise Out('%s used as a value' % type(s).__name__)
    def truth(s, X): raise Out('truth of a %s' % type(s).__name__)

class HDict:
    def __init__(s, items=None, dflt=None): s.items, s.dflt = items or {}, dflt
    def copy(s): return HDict(dict(s.items), s.dflt)
class HList:
    def __init__(s, items): s.items = items
    def copy(s): return HList(list(s.items))
class HArr:                       # list or array of symbolic length; cnt: how often a value occurs (None: not tracked)
    def __init__(s, vs, arr, n, cnt, fixed=False): s.vs, s.arr, s.n, s.cnt, s.fixed = vs, arr, n, cnt, fixed
    def copy(s): return HArr(s.vs, s.arr, s.n, s.cnt, s.fixed)
class HMap:                       # level 1: k1 -> vs; level 2: k1 -> k2 -> vs
    def __init__(s, k1, k2, vs, dom, val, cnt, size, dom1=None, dflt=None, hook=None): s.k1, s.k2, s.vs, s.dom, s.val, s.cnt, s.size, s.dom1, s.dflt, s.hook = k1, k2, vs, dom, val, cnt, size, dom1, dflt, hook
    def copy(s): return HMap(s.k1, s.k2, s.vs, s.dom, s.val, s.cnt, s.size, s.dom1, s.dflt, s.hook)
class HJunk:
    def copy(s): return s

def empty_map(k1, k2, vs, dflt):
    if k2 is None:
        return HMap(k1, None, vs, z3.K(k1, z3.BoolVal(False)), z3.Const('undef!%s%s' % (k1, vs), z3.ArraySort(k1, vs)), z3.K(vs, z3.IntVal(0)), z3.IntVal(0), None, dflt)
    d2 = z3.K(k2, z3.BoolVal(False))
    v2 = z3.Const('undef!%s%s' % (k2, vs), z3.ArraySort(k2, vs))
    return HMap(k1, k2, vs, z3.K(k1, d2), z3.K(k1, v2), z3.K(k1, z3.K(vs, z3.IntVal(0))), z3.K(k1, z3.IntVal(0)), z3.K(k1, z3.BoolVal(False)), dflt)

class State:
    def __init__(s): s.env, s.heap, s.pc, s.n, s.sites, s.ground, s.dead, s.elem = {}, {}, [], 0, {}, {}, (), None
    def copy(s):
        t = State(); t.env, t.heap, t.pc, t.n, t.sites = dict(s.env), {k: v.copy() for k, v in s.heap.items()}, list(s.pc), s.n, dict(s.sites)
        t.dead, t.elem = s.dead, s.elem
        t.ground = {k: list(v) for k, v in s.ground.items()}
        return t

class Ctx:
    prove = False
    """one loop: where(at) facts; at = index term (ordered) or a function element -> Bool (set)"""
    def __init__(s, node, it, at, outer): s.node, s.it, s.at, s.outer = node, it, at, outer

class X:
    def __init__(self, tree, spec, limit=150):
        self.tree, self.spec, self.end = tree, spec, time.time() + limit
        self.defs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.consts = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): self.consts[n.targets[0].id] = n.value
        self.mods = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names: self.mods[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names: self.mods[a.asname or a.name] = a.name if n.module != 'numpy' else 'numpy.' + a.name
        self.dec, self.pos, self.work, self.path = [], 0, [], ()
        self.memo, self.skip, self.ctx, self.solver_calls, self.solver_time, self.functions = {}, False, None, 0, 0.0, []
        self.loops = []
    # ---- solver -----------------------------------------------------------------------------
    def base(self):
        L = list(STRS.values())
        return ([z3.Distinct(*L)] if len(L) > 1 else []) + list(self.spec.axioms)
    def sat(self, fs, timeout=4000):
        if time.time() > self.end: raise Out('time limit')
        t = time.time()
        s = z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
        s.set('timeout', timeout); s.add(*self.base()); s.add(*fs)
        r = s.check(); self.solver_calls += 1; self.solver_time += time.time() - t
        self.model = s.model() if r == z3.sat else None
        return r
    def must(self, c): return self.sat(self.st.pc + [z3.Not(c)]) == z3.unsat
    def assume(self, c): self.st.pc.append(c)
    def fresh(self, name, sort):
        self.st.n += 1
        return z3.Const('%s!%d' % (name, self.st.n), sort)
    # ---- paths ------------------------------------------------------------------------------
    def choose(self, n):
        if self.pos < len(self.dec): c = self.dec[self.pos]
        else:
            for i in range(n - 1, 0, -1): self.work.append(self.dec[:self.pos] + [i])
            self.dec = self.dec[:self.pos] + [0]; c = 0
        self.pos += 1
        return c
    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.sat(self.st.pc + [c]) == z3.unsat: return False
        if self.sat(self.st.pc + [z3.Not(c)]) == z3.unsat: return True
        k = self.choose(2)
        self.assume(c if k == 0 else z3.Not(c))
        return k == 0
    def explore(self, st, fn, tag):
        """all paths of fn from st: [(state, signal or None)]"""
        save = (self.dec, self.pos, self.work, self.st, self.path, self.xs)
        self.count += 1; self.xs = self.count
        out, self.work = [], [[]]
        try:
            while self.work:
                d = self.work.pop()
                self.dec, self.pos, self.st = d, 0, st.copy()
                try: fn(); sig = None
                except Dead: continue
                except Sig as e: sig = e
                out.append((self.st, sig))
                if len(out) > 400: raise Out('too many paths')
        finally:
            self.dec, self.pos, self.work, self.st, self.path, self.xs = save
        return out
    # ---- heap -------------------------------------------------------------------------------
    def site(self, node):
        k = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), self.depth())
        n = self.st.sites.get(k, 0); self.st.sites[k] = n + 1
        return k + (n,)
    def depth(self): return len(self.calls)
    calls = ()
    def new(self, node, o):
        r = Ref(self.site(node)); self.st.heap[r.id] = o
        return r
    def get(self, r): return self.st.heap[r.id]
    def put(self, r, o): self.st.heap[r.id] = o
    # ---- sorts ------------------------------------------------------------------------------
    def z(self, v, want=None):
        if isinstance(v, Junk): return self.fresh("junk", U if want is None else want)
        if isinstance(v, bool): t = z3.BoolVal(v)
        elif isinstance(v, int): t = z3.IntVal(v)
        elif isinstance(v, float): t = z3.RealVal(repr(v))
        elif isinstance(v, str): t = ustr(v)
        elif isinstance(v, SymVal): t = v.u(self)
        elif z3.is_expr(v): t = v
        else: raise Out('value of kind %s in a term' % type(v).__name__)
        if want is not None and t.sort() != want:
            if want == R and t.sort() == I: t = z3.ToReal(t)
            elif want == R and t.sort() == U: t = NUM(t)
            elif want == U and t.sort() == R: t = BOXR(t)
            elif want == U and t.sort() == I: t = BOXI(t)
            elif want == I and t.sort() == R: raise Out('a real number used as a position')
            else: raise Out('sort %s where %s is expected' % (t.sort(), want))
        return t
    def sort_of(self, v):
        if isinstance(v, (Ref, Sub, tuple, Seq, SetOf, View, Fun, Opq, Bound)) or v is None: return None
        if isinstance(v, Junk): return None
        return self.z(v).sort()
    def to_map(self, r, k1, k2=None, vs=None):
        """type an (empty) dictionary by its first use"""
        o = self.get(r)
        if isinstance(o, HDict):
            if any(isinstance(v, (Ref, tuple)) for v in o.items.values()): return None
            m = empty_map(k1, k2, U if vs is None else vs, o.dflt)
            self.put(r, m)
            for k, v in o.items.items(): self.store(r, k, v)
            o = self.get(r)
        return o
    def junk(self, r):
        o = self.get(r)
        self.put(r, HJunk())
        if isinstance(o, HDict):
            for v in o.items.values():
                if isinstance(v, Ref): self.junk(v)
    # ---- dictionaries -----------------------------------------------------------------------
    def touch(self, o, k):
        if o.hook: o.hook(self, k)
    def has(self, d, k):
        """d contains key k"""
        if isinstance(d, Sub):
            o = self.get(d.ref)
            if isinstance(o, HJunk): return JUNK
            if o.k2 is None: return False
            return z3.Select(z3.Select(o.dom, d.k), self.z(k, o.k2))
        o = self.get(d)
        if isinstance(o, HJunk): return JUNK
        if isinstance(o, HDict):
            if isinstance(k, (str, int, float, bool)) or k is None: 
                if all(isinstance(q, (str, int, float, bool, tuple)) for q in o.items): return k in o.items
            if not o.items: return False
            return z3.Or([self.z(q) == self.z(k) for q in o.items if self.z(q).sort() == self.z(k).sort()])
        if isinstance(o, HMap):
            kk = self.z(k)
            if kk.sort() != o.k1: return False
            self.touch(o, kk)
            return z3.Select(o.dom1 if o.k2 is not None or o.dom1 is not None else o.dom, kk)
        raise Out('in')
    def load(self, d, k, node=None):
        if isinstance(d, Sub):
            o = self.get(d.ref)
            if isinstance(o, HJunk): return JUNK
            kk = self.z(k, o.k2)
            if not self.branch(z3.Select(z3.Select(o.dom, d.k), kk)): raise Exc('KeyError')
            return z3.Select(z3.Select(o.val, d.k), kk)
        o = self.get(d)
        if isinstance(o, HJunk): return JUNK
        if isinstance(o, HDict):
            if isinstance(k, (str, int, float, bool, tuple)) or k is None:
                if k in o.items: return o.items[k]
                if o.dflt == 'dict': 
                    o = self.typed2(d, self.z(k).sort())
                elif o.dflt is not None and not isinstance(o.dflt, str): self.store(d, k, o.dflt); return o.dflt
                else: raise Exc('KeyError')
            elif not o.items:
                if o.dflt == 'dict': o = self.typed2(d, self.z(k).sort())
                elif o.dflt is not None and not isinstance(o.dflt, str): self.store(d, k, o.dflt); return o.dflt
                elif o.dflt == 'list': self.junk(d); return JUNK
                else: raise Exc('KeyError')
            else:
                for q, v in o.items.items():
                    if self.z(q).sort() == self.z(k).sort() and self.branch(self.z(q) == self.z(k)): return v
                raise Exc('KeyError')
        if isinstance(o, HMap):
            kk = self.z(k, o.k1)
            self.touch(o, kk)
            if o.k2 is not None:
                if o.dflt == 'dict': o = o.copy(); o.dom1 = z3.Store(o.dom1, kk, True); self.put(d, o)
                elif not self.branch(z3.Select(o.dom1, kk)): raise Exc('KeyError')
                return Sub(d, kk)
            if not self.branch(z3.Select(o.dom, kk)):
                if o.dflt is not None and not isinstance(o.dflt, str): self.store(d, k, o.dflt); return self.z(o.dflt)
                if o.dflt == 'dict': raise Out('a table used with one and with two keys')
                raise Exc('KeyError')
            return z3.Select(o.val, kk)
        raise Out('load')
    def typed2(self, d, k1):
        """an empty table of tables read by key"""
        o = self.get(d)
        if o.items: raise Out('a table with mixed entries')
        k2, vs = self.spec.shape2(self, d)
        m = empty_map(k1, k2, vs, 'dict')
        self.put(d, m)
        return m
    def store(self, d, k, v):
        if isinstance(d, Sub):
            o = self.get(d.ref)
            if isinstance(o, HJunk): return
            o = o.copy()
            if isinstance(v, (Ref, Sub, tuple)) or v is None: self.junk(d.ref); return
            try: kk, vv = self.z(k, o.k2), self.z(v, o.vs)
            except Out: raise Out('a table filled with values of different kinds')
            dom, val, cnt, size = [z3.Select(a, d.k) for a in (o.dom, o.val, o.cnt, o.size)]
            dom, val, cnt, size = self.upd(dom, val, cnt, size, kk, vv)
            o.dom, o.val, o.cnt, o.size = z3.Store(o.dom, d.k, dom), z3.Store(o.val, d.k, val), z3.Store(o.cnt, d.k, cnt), z3.Store(o.size, d.k, size)
            self.put(d.ref, o)
            return
        o = self.get(d)
        if isinstance(o, HJunk):
            if isinstance(v, Ref): self.junk(v)
            return
        if isinstance(o, HDict):
            if (isinstance(k, (str, int, float, bool, tuple)) or k is None) and all(isinstance(q, (str, int, float, bool, tuple)) for q in o.items):
                o = o.copy(); o.items[k] = v; self.put(d, o); return
            if isinstance(v, Ref) and isinstance(self.get(v), HDict) and not self.get(v).items and not o.items and o.dflt is None:
                k2, vs = self.spec.shape2(self, d)
                self.put(d, empty_map(self.z(k).sort(), k2, vs, None)); o = self.get(d)
            else:
                s = self.sort_of(v)
                if s is None:
                    self.junk(d)
                    if isinstance(v, Ref): self.junk(v)
                    return
                if self.to_map(d, self.z(k).sort(), None, s) is None: self.junk(d); return
                o = self.get(d)
        if isinstance(o, HMap):
            kk = self.z(k, o.k1); o = o.copy(); self.touch(o, kk)
            if o.k2 is not None:
                if isinstance(v, Ref) and isinstance(self.get(v), HDict) and not self.get(v).items:
                    e = empty_map(o.k1, o.k2, o.vs, None)
                    o.dom1 = z3.Store(o.dom1, kk, True)
                    for f in ('dom', 'val', 'cnt', 'size'): setattr(o, f, z3.Store(getattr(o, f), kk, z3.Select(getattr(e, f), kk)))
                    self.put(d, o); return
                raise Out('a table of tables given another value')
            if isinstance(v, (Ref, Sub, tuple)) or v is None: self.junk(d); return
            if isinstance(v, (int, float)) and o.vs == I and isinstance(v, float): raise Out('a table filled with values of different kinds')
            vv = self.z(v, o.vs)
            o.dom, o.val, o.cnt, o.size = self.upd(o.dom, o.val, o.cnt, o.size, kk, vv)
            self.put(d, o); return
        if isinstance(o, (HArr, HList)): return self.setcell(d, k, v)
        raise Out('store')
    def upd(self, dom, val, cnt, size, kk, vv):
        was, old = z3.Select(dom, kk), z3.Select(val, kk)
        if cnt is not None:
            c1 = z3.If(was, z3.Store(cnt, old, z3.Select(cnt, old) - 1), cnt)
            if self.must(z3.Not(was)): c1 = cnt
            cnt = z3.Store(c1, vv, z3.Select(c1, vv) + 1)
        size = z3.If(was, size, size + 1)
        return z3.Store(dom, kk, True), z3.Store(val, kk, vv), cnt, size
    # ---- lists ------------------------------------------------------------------------------
    def idx(self, o, k):
        kk = self.z(k, I)
        if isinstance(k, int) and k < 0: kk = o.n + k
        if not self.branch(z3.And(kk >= 0, kk < o.n)): raise Exc('IndexError')
        return kk
    def setcell(self, r, k, v):
        o = self.get(r)
        if isinstance(o, HList):
            if isinstance(k, int): 
                if not -len(o.items) <= k < len(o.items): raise Exc('IndexError')
                o = o.copy(); o.items[k] = v; self.put(r, o); return
            o = self.to_arr(r)
        kk = self.idx(o, k); o = o.copy()
        vv = self.z(v, o.vs)
        if o.cnt is not None:
            old = z3.Select(o.arr, kk)
            c = z3.Store(o.cnt, old, z3.Select(o.cnt, old) - 1); o.cnt = z3.Store(c, vv, z3.Select(c, vv) + 1)
        o.arr = z3.Store(o.arr, kk, vv); self.put(r, o)
    def to_arr(self, r, vs=None):
        o = self.get(r)
        if isinstance(o, HList):
            ss = {self.sort_of(v) for v in o.items}
            if None in ss: raise Out('a list of mixed values')
            if vs is None:
                if not ss: return None
                vs = R if ss == {R, I} else (list(ss)[0] if len(ss) == 1 else U)
            arr, cnt = z3.Const('undef!%s%s' % (I, vs), z3.ArraySort(I, vs)), z3.K(vs, z3.IntVal(0))
            for i, v in enumerate(o.items):
                vv = self.z(v, vs)
                arr, cnt = z3.Store(arr, i, vv), z3.Store(cnt, vv, z3.Select(cnt, vv) + 1)
            self.put(r, HArr(vs, arr, z3.IntVal(len(o.items)), cnt))
        return self.get(r)
    def append(self, r, v):
        o = self.get(r)
        if isinstance(o, HJunk): return
        if isinstance(o, HList): o = o.copy(); o.items.append(v); self.put(r, o); return
        if isinstance(v, (Ref, Sub, tuple)) or v is None: self.junk(r); return
        o = o.copy(); vv = self.z(v, o.vs)
        o.arr = z3.Store(o.arr, o.n, vv); o.n = o.n + 1
        if o.cnt is not None: o.cnt = z3.Store(o.cnt, vv, z3.Select(o.cnt, vv) + 1)
        self.put(r, o)
    # ---- statements -------------------------------------------------------------------------
    def block(self, b):
        for s in b: self.stmt(s)
    def stmt(self, s):
        if time.time() > self.end: raise Out('time limit')
        st = self.st
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant): self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets: self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name): 
                cur = self.name(s.target.id)
                if isinstance(s.op, ast.Add) and isinstance(cur, Ref) and isinstance(self.get(cur), (HList, HArr, HJunk)):
                    self.method(Bound(cur, 'extend'), [self.ev(s.value)], s); return
                self.assign(s.target, self.bin(s.op, cur, self.ev(s.value), s))
            elif isinstance(s.target, ast.Subscript):
                d, k = self.ev(s.target.value), self.ev(s.target.slice)
                self.setitem(d, k, self.bin(s.op, self.getitem(d, k, s), self.ev(s.value), s))
            else: raise Out('augmented assignment')
        elif isinstance(s, (ast.If, ast.Try)) and not getattr(s, '_in', False) and not self.simple_test(s): self.merged(s)
        elif isinstance(s, ast.If): self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)
        elif isinstance(s, ast.For): self.loop(s)
        elif isinstance(s, ast.Return): raise Ret(self.ev(s.value) if s.value is not None else None)
        elif isinstance(s, ast.Break): raise Brk()
        elif isinstance(s, ast.Continue): raise Cont()
        elif isinstance(s, ast.Pass): pass
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names: st.env[(a.asname or a.name).split('.')[0]] = Opq(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None: self.assign(i.optional_vars, v)
            self.block(s.body)
        elif isinstance(s, ast.FunctionDef): self.st.env[s.name] = Fun(s, ('here', self.calls))
        elif isinstance(s, ast.Raise): raise Exc('raised')
        elif isinstance(s, ast.Assert): pass
        elif isinstance(s, ast.While):
            if not isinstance(s.test, ast.Constant) or s.test.value: raise Out('while loop at line %d' % s.lineno)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name): raise Out('del')
                self.st.env.pop(t.id, None)
        elif isinstance(s, (ast.Global, ast.Nonlocal)): raise Out('global')
        else: raise Out(type(s).__name__)
    def stmt_try(self, s):
        st = self.st
        try:
            try: self.block(s.body)
            except Exc as e:
                for h in s.handlers:
                    names = [] if h.type is None else [n.id for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(n, ast.Name)]
                    par = dict(IndexError='LookupError', KeyError='LookupError')
                    if h.type is None or set(names) & {'Exception', 'BaseException', e.kind, par.get(e.kind)}:
                        if h.name: self.st.env[h.name] = JUNK
                        self.block(h.body); break
                else: raise
            else: self.block(s.orelse)
        finally:
            if s.finalbody: self.block(s.finalbody)
    def simple_test(self, s):
        return isinstance(s, ast.If) and isinstance(s.test, ast.Constant)
    def merged(self, s):
        """a branching statement: its paths are joined again where the states can be"""
        key = ('m', self.xs, tuple(self.dec[:self.pos]), s.lineno, s.col_offset, self.calls, len(self.st.pc), self.st.n)
        outs = self.memo.get(key)
        if outs is None:
            n0 = len(self.st.pc)
            def go():
                if isinstance(s, ast.If): self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)
                else: self.stmt_try(s)
            raw = self.explore(self.st, go, None)
            outs = []
            for st, sig in raw:
                if sig is None:
                    for i, (o, og) in enumerate(outs):
                        if og is None:
                            m = self.merge(o, st, n0)
                            if m is not None: outs[i] = (m, None); break
                    else: outs.append((st, sig))
                else: outs.append((st, sig))
            self.memo[key] = outs
        if not outs: raise Dead()
        st, sig = outs[self.choose(len(outs)) if len(outs) > 1 else 0]
        self.st = st.copy()
        if sig is not None: raise sig
    def merge(self, a, b, n0):
        ca, cb = z3.And(*a.pc[n0:]) if len(a.pc) > n0 else z3.BoolVal(True), z3.And(*b.pc[n0:]) if len(b.pc) > n0 else z3.BoolVal(True)
        if set(a.env) != set(b.env): return None
        m = a.copy()
        self.seed = getattr(self, 'seed', 0)
        sel = z3.Const('path!%d' % self.mcount, B); self.mcount += 1
        def val(x, y):
            if self.same(x, y): return x
            if isinstance(x, SymVal) and isinstance(y, SymVal) and type(x) == type(y) and self.symeq(x, y): return x
            if isinstance(x, (bool, int, float, str)) and isinstance(y, (bool, int, float, str)) or z3.is_expr(x) or z3.is_expr(y):
                if isinstance(x, (Ref, Sub, SymVal, Junk, tuple)) or isinstance(y, (Ref, Sub, SymVal, Junk, tuple)) or x is None or y is None: return NotImplemented
                x, y = self.z(x), self.z(y)
                if x.sort() != y.sort():
                    if {x.sort(), y.sort()} == {I, R}: x, y = self.z(x, R), self.z(y, R)
                    else: return NotImplemented
                return z3.If(sel, x, y)
            if isinstance(x, Junk) and isinstance(y, Junk): return x
            return NotImplemented
        save = self.st; self.st = m
        try:
            for k in a.env:
                v = val(a.env[k], b.env[k])
                if v is NotImplemented:
                    if k in a.dead or k in b.dead: v = Lost(k)
                    else: return None
                m.env[k] = v
            for rid in set(a.heap) | set(b.heap):
                x, y = a.heap.get(rid), b.heap.get(rid)
                if x is None or y is None: m.heap[rid] = x if x is not None else y; continue
                if self.hsame(x, y): continue
                if isinstance(x, HJunk) or isinstance(y, HJunk): m.heap[rid] = HJunk(); continue
                if type(x) == type(y) and isinstance(x, (HMap, HArr)) and self.ptype(x, y):
                    z = x.copy()
                    for f in x.__dict__:
                        p, q = x.__dict__[f], y.__dict__[f]
                        if z3.is_expr(p) and z3.is_expr(q): z.__dict__[f] = p if p.eq(q) else z3.If(sel, p, q)
                        elif not (p is q or p == q): return None
                    m.heap[rid] = z; continue
                return None
        except Out: return None
        finally: self.st = save
        m.pc = a.pc[:n0] + [z3.If(sel, ca, cb)]
        m.n = max(a.n, b.n)
        m.sites = {k: max(a.sites.get(k, 0), b.sites.get(k, 0)) for k in set(a.sites) | set(b.sites)}
        m.ground = {k: a.ground.get(k, []) + [q for q in b.ground.get(k, []) if not any(q.eq(r) for r in a.ground.get(k, []))] for k in set(a.ground) | set(b.ground)}
        return m
    mcount = 0
    def symeq(self, x, y):
        for k, v in x.__dict__.items():
            w = y.__dict__.get(k)
            if v is w or self.same(v, w) or isinstance(v, SymVal) and type(v) == type(w) and self.symeq(v, w): continue
            return False
        return True
    def assign(self, t, v):
        if isinstance(t, ast.Name): self.st.env[t.id] = v
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value), self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, vs): self.assign(a, b)
        else: raise Out('assignment to %s' % type(t).__name__)
    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n: raise Exc('ValueError')
            return v
        if isinstance(v, Ref) and isinstance(self.get(v), HList):
            if len(self.get(v).items) != n: raise Exc('ValueError')
            return self.get(v).items
        if isinstance(v, SymVal): return [v.index(self, i) for i in range(n)]
        if isinstance(v, Junk): return [JUNK] * n
        raise Out('unpacking')
    def setitem(self, d, k, v):
        if isinstance(d, Junk): 
            if isinstance(v, Ref): self.junk(v)
            return
        if isinstance(d, (Ref, Sub)): return self.store(d, k, v)
        raise Out('item assignment on %s' % type(d).__name__)
    def getitem(self, d, k, node):
        if isinstance(d, Junk): return JUNK
        if isinstance(d, tuple): return d[k]
        if isinstance(d, Sub): return self.load(d, k)
        if isinstance(d, SymVal): return d.index(self, k)
        if isinstance(d, Seq):
            if isinstance(k, slice): raise Out('slice')
            kk = self.z(k, I)
            if isinstance(k, int) and k < 0: kk = d.n + k
            if not self.branch(z3.And(kk >= 0, kk < self.z(d.n))): raise Exc('IndexError')
            return d.at(kk)
        if isinstance(d, Ref):
            o = self.get(d)
            if isinstance(o, (HDict, HMap, HJunk)): return self.load(d, k)
            if isinstance(o, HList):
                if isinstance(k, slice): return self.new(node, HList(o.items[k]))
                if isinstance(k, int):
                    if not -len(o.items) <= k < len(o.items): raise Exc('IndexError')
                    return o.items[k]
                o = self.to_arr(d)
                if o is None: raise Exc('IndexError')
            return z3.Select(o.arr, self.idx(o, k))
        if z3.is_expr(d) and d.sort() == U: return uf('item', d, self.z(k, U))
        if isinstance(d, str) and isinstance(k, (int, slice)):
            try: return d[k]
            except IndexError: raise Exc('IndexError')
        raise Out('indexing a %s' % type(d).__name__)
    # ---- expressions ------------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Junk): return self.choose(2) == 0
        if isinstance(v, bool) or v is None or isinstance(v, (int, float, str, tuple)): return bool(v)
        if isinstance(v, SymVal): return self.branch(v.truth(self))
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, (HDict, HList)): return bool(o.items)
            return self.branch(self.length(v) > 0)
        if isinstance(v, Seq): return self.branch(self.z(v.n) > 0)
        if isinstance(v, (Fun, Opq)): return True
        if z3.is_expr(v):
            if v.sort() == B: return self.branch(v)
            if v.sort() in (I, R): return self.branch(v != 0)
            if v.sort() == U: return self.spec.utruth(self, v)
        raise Out('truth of %s' % type(v).__name__)
    def name(self, n):
        if n in self.st.env: return self.st.env[n]
        if n in self.defs: return Fun(self.defs[n], None)
        if n in self.mods: return Opq(self.mods[n])
        if n in self.consts: return self.ev(self.consts[n])
        if n in ('str', 'int', 'float', 'len', 'range', 'list', 'dict', 'set', 'tuple', 'enumerate', 'zip', 'print', 'sorted', 'open', 'isinstance', 'bool', 'min', 'max', 'sum', 'abs', 'any', 'all', 'next', 'iter', 'reversed', 'round'): return Opq(n)
        raise Exc('NameError')
    def ev(self, e):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name): return self.name(e.id)
        if isinstance(e, ast.Attribute): return self.attr(self.ev(e.value), e.attr)
        if isinstance(e, ast.Subscript):
            d = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                g = lambda q: None if q is None else self.ev(q)
                return self.getitem(d, slice(g(e.slice.lower), g(e.slice.upper), g(e.slice.step)), e)
            return self.getitem(d, self.ev(e.slice), e)
        if isinstance(e, ast.Call): return self.call(e)
        if isinstance(e, ast.BinOp): return self.bin(e.op, self.ev(e.left), self.ev(e.right), e)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(e.op, ast.Not):
                if isinstance(v, Junk): return JUNK
                if z3.is_expr(v) and v.sort() == B: return z3.Not(v)
                return not self.truth(v)
            if isinstance(v, Junk): return v
            if isinstance(e.op, ast.USub): return -v if isinstance(v, (int, float)) else -self.z(v, None if self.z(v).sort() != U else R)
            if isinstance(e.op, ast.UAdd): return v
            raise Out('unary')
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            v = None
            for q in e.values:
                v = self.ev(q)
                if q is e.values[-1]: return v
                if self.truth(v) != isand: return v
            return v
        if isinstance(e, ast.Compare):
            l = self.ev(e.left); res = True
            for op, q in zip(e.ops, e.comparators):
                r = self.ev(q)
                c = self.cmp(op, l, r)
                if len(e.ops) == 1: return c
                if not self.truth(c): return False
                l = r
            return True
        if isinstance(e, ast.IfExp): return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)
        if isinstance(e, ast.Tuple): return tuple(self.ev(q) for q in e.elts)
        if isinstance(e, ast.List): 
            if any(isinstance(q, ast.Starred) for q in e.elts): raise Out('starred')
            return self.new(e, HList([self.ev(q) for q in e.elts]))
        if isinstance(e, ast.Set): return self.new(e, HList([self.ev(q) for q in e.elts]))
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys): raise Out('** in a dictionary')
            d = self.new(e, HDict())
            for k, v in zip(e.keys, e.values): self.store(d, self.ev(k), self.ev(v))
            return d
        if isinstance(e, ast.Lambda): return Fun(e, dict(self.st.env))
        if isinstance(e, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)): return self.comp(e)
        if isinstance(e, ast.JoinedStr):
            for v in e.values:
                if isinstance(v, ast.FormattedValue): self.ev(v.value)
            return JUNK
        raise Out(type(e).__name__)
    def comp(self, e):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs and not isinstance(e, ast.DictComp) and isinstance(g.target, ast.Name):
            it = self.iterable(self.ev(g.iter), e)
            if isinstance(it, list): pass
            elif isinstance(it, Seq):
                env = dict(self.st.env)
                def at(k, self=self, it=it, env=env):
                    save = self.st.env; self.st.env = dict(env)
                    try: self.st.env[g.target.id] = it.at(k); return self.ev(e.elt)
                    finally: self.st.env = save
                return Seq(it.n, at)
        # as a loop that appends
        tmp = '$c%d_%d' % (e.lineno, e.col_offset)
        mk = lambda src: ast.copy_location(ast.fix_missing_locations(src), e)
        if isinstance(e, ast.DictComp):
            init = self.new(e, HDict())
            inner = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            init = self.new(e, HList([]))
            inner = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=tmp, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
        body = [inner]
        for g in reversed(e.generators):
            for c in reversed(g.ifs): body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        if not hasattr(e, '_loop'):
            for n in ast.walk(body[0]):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.stmt, ast.expr)): n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = e.lineno, e.col_offset, e.end_lineno, e.end_col_offset
            e._loop = body[0]
        keep = {n.id: self.st.env.get(n.id, Dead) for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        self.st.env[tmp] = init
        self.stmt(e._loop)
        self.st.env.pop(tmp, None)
        for k, v in keep.items():
            if v is Dead: self.st.env.pop(k, None)
            else: self.st.env[k] = v
        return init
    def attr(self, v, a):
        if isinstance(v, Opq): return Opq(v.name + '.' + a)
        if isinstance(v, Junk): return JUNK
        if isinstance(v, SymVal): return v.attr(self, a)
        if v is None: raise Exc('AttributeError')
        if z3.is_expr(v) and v.sort() == U: return self.spec.uattr(self, v, a)
        return Bound(v, a)
    def cmp(self, op, l, r):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(r, l)
            if isinstance(c, Junk): return c
            return c if isinstance(op, ast.In) else (not c if isinstance(c, bool) else z3.Not(c))
        if isinstance(op, (ast.Is, ast.IsNot)):
            pos = isinstance(op, ast.Is)
            if isinstance(l, Junk) or isinstance(r, Junk): return JUNK
            cst = (bool, type(None))
            if isinstance(l, cst) and isinstance(r, cst): return (l is r) == pos
            if l is None or r is None: return not pos
            if (isinstance(l, bool) or isinstance(r, bool)):
                o = r if isinstance(l, bool) else l; b = l if isinstance(l, bool) else r
                if z3.is_expr(o) and o.sort() == B: c = o if b else z3.Not(o); return c if pos else z3.Not(c)
                return not pos
            op = ast.Eq() if pos else ast.NotEq()
        if isinstance(l, Junk) or isinstance(r, Junk): return JUNK
        import operator as o
        f = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)]
        prim = (int, float, str, bool, type(None), tuple)
        if isinstance(l, prim) and isinstance(r, prim): return f(l, r)
        if l is None or r is None: return isinstance(op, ast.NotEq)
        if isinstance(l, SymVal) and hasattr(l, 'eq'): 
            c = l.eq(self, r)
            if c is not None: return c if isinstance(op, ast.Eq) else (not c if isinstance(c, bool) else z3.Not(c))
        if isinstance(l, Ref) or isinstance(r, Ref): raise Out('comparison of containers')
        a, b = self.z(l), self.z(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if a.sort() != b.sort():
                if {a.sort(), b.sort()} == {I, R}: a, b = self.z(a, R), self.z(b, R)
                else: raise Out('comparison of different kinds')
            return a == b if isinstance(op, ast.Eq) else a != b
        if a.sort() == B or b.sort() == B: raise Out('order of truth values')
        if a.sort() != I or b.sort() != I: a, b = self.z(a, R), self.z(b, R)
        return f(a, b)
    def contains(self, c, v):
        if isinstance(c, Junk): return JUNK
        if isinstance(c, SymVal) and hasattr(c, 'contains'): return c.contains(self, v)
        if isinstance(c, tuple): c = list(c)
        if isinstance(c, Ref):
            o = self.get(c)
            if isinstance(o, HJunk): return JUNK
            if isinstance(o, (HDict, HMap)): return self.has(c, v)
            if isinstance(o, HArr):
                if o.cnt is None: raise Out('membership in an array')
                vv = self.z(v)
                if vv.sort() != o.vs: return False
                return z3.Select(o.cnt, vv) > 0
            c = o.items
        if isinstance(c, Sub): return self.has(c, v)
        if isinstance(c, View):
            if isinstance(c.ref, Junk): return JUNK
            if c.what == 'keys': return self.contains(c.ref, v)
            if c.what == 'values':
                if isinstance(c.ref, Sub):
                    o = self.get(c.ref.ref)
                    if isinstance(o, HJunk): return JUNK
                    if isinstance(o, HDict): return False
                    return z3.Select(z3.Select(o.cnt, c.ref.k), self.z(v, o.vs)) > 0
                o = self.get(c.ref)
                if isinstance(o, HJunk): return JUNK
                if isinstance(o, HDict): c = list(o.items.values())
                else:
                    vv = self.z(v)
                    if vv.sort() != o.vs: return False
                    if o.hook and hasattr(self.spec, 'vtouch'): self.spec.vtouch(self, o, vv)
                    if o.cnt is None: raise Out('membership among the values')
                    return z3.Select(o.cnt, vv) > 0
        if isinstance(c, list):
            if not c: return False
            if all(isinstance(q, (str, int, float)) for q in c) and isinstance(v, (str, int, float)): return v in c
            vv = self.z(v)
            return z3.Or([vv == self.z(q) for q in c if self.z(q).sort() == vv.sort()] or [z3.BoolVal(False)])
        if isinstance(c, str) and isinstance(v, str): return v in c
        raise Out('in %s' % type(c).__name__)
    def bin(self, op, l, r, node):
        if isinstance(l, Junk) or isinstance(r, Junk): return JUNK
        prim = (int, float)
        if isinstance(l, prim) and isinstance(r, prim) and not isinstance(l, bool):
            try: return {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r, ast.Div: lambda: l / r, ast.Pow: lambda: l ** r, ast.Mod: lambda: l % r, ast.FloorDiv: lambda: l // r}[type(op)]()
            except ZeroDivisionError: raise Exc('ZeroDivisionError')
        if isinstance(l, str) and isinstance(r, str) and isinstance(op, ast.Add): return l + r
        if isinstance(l, str) and isinstance(op, (ast.Mod, ast.Add)) or isinstance(r, str) and isinstance(op, ast.Add): return JUNK
        if isinstance(op, ast.Mult):
            for a, b in ((l, r), (r, l)):
                if isinstance(a, Ref) and isinstance(self.get(a), HList):
                    o = self.get(a)
                    if isinstance(b, int): return self.new(node, HList(o.items * b))
                    if len(o.items) == 1:
                        v = self.z(o.items[0]); return self.new(node, HArr(v.sort(), z3.K(I, v), self.z(b, I), None, True))
        if isinstance(l, Ref) or isinstance(r, Ref):
            if isinstance(op, ast.Add) and isinstance(l, Ref) and isinstance(r, Ref) and isinstance(self.get(l), HList) and isinstance(self.get(r), HList): return self.new(node, HList(self.get(l).items + self.get(r).items))
            raise Out('arithmetic on containers')
        a, b = self.z(l), self.z(r)
        if isinstance(op, ast.Div) or R in (a.sort(), b.sort()) or U in (a.sort(), b.sort()): a, b = self.z(a, R), self.z(b, R)
        if isinstance(op, ast.Add): return a + b
        if isinstance(op, ast.Sub): return a - b
        if isinstance(op, ast.Mult): return a * b
        if isinstance(op, ast.Div): return a / b
        raise Out('operator %s' % type(op).__name__)
    def length(self, v):
        if isinstance(v, Junk): return JUNK
        if isinstance(v, (tuple, str)): return len(v)
        if isinstance(v, Seq): return v.n
        if isinstance(v, SymVal): return v.method(self, '__len__', [])
        if isinstance(v, View): return self.length(v.ref)
        if isinstance(v, Sub): o = self.get(v.ref); return JUNK if isinstance(o, HJunk) else z3.Select(o.size, v.k)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HJunk): return JUNK
            if isinstance(o, (HDict, HList)): return len(o.items)
            if isinstance(o, HArr): return o.n
            if o.k2 is not None or o.size is None: raise Out('size of a table of tables')
            return o.size
        raise Out('len')
    # ---- calls ------------------------------------------------------------------------------
    def call(self, e):
        f = self.ev(e.func)
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords): raise Out('star arguments')
        if isinstance(f, Opq) and f.name == 'print': return None          # the text printed is not part of any property
        if isinstance(f, Opq) and f.name.split('.')[-1] == 'defaultdict':
            d = None
            if e.args:
                a = e.args[0]
                if isinstance(a, ast.Lambda): a = a.body
                if isinstance(a, ast.Call): a = a.func
                n = a.attr if isinstance(a, ast.Attribute) else a.id if isinstance(a, ast.Name) else None
                if n in ('dict', 'defaultdict', 'OrderedDict'): d = 'dict'
                elif n == 'list': d = 'list'
                elif n in ('float', 'int'): d = 0.0 if n == 'float' else 0
                elif isinstance(a, ast.Dict): d = 'dict'
                elif isinstance(a, ast.List): d = 'list'
                elif isinstance(a, ast.Constant) and isinstance(a.value, (int, float)): d = a.value
                elif isinstance(a, ast.Constant) and a.value is None: d = None
                else: raise Out('defaultdict factory')
            return self.new(e, HDict({}, d))
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        return self.apply(f, args, kw, e)
    def apply(self, f, args, kw, e):
        if isinstance(f, Junk): return JUNK
        if isinstance(f, Fun): return self.inline(f, args, kw)
        if isinstance(f, Bound): 
            if kw and not isinstance(f.obj, SymVal):
                if f.name in ('split', 'sort'): args = args + list(kw.values())
                else: raise Out('keyword arguments')
            return self.method(f, args + list(kw.values()), e)
        if isinstance(f, Opq): return self.lib(f.name, args, kw, e)
        if isinstance(f, SymVal): return f.method(self, '__call__', args)
        raise Out('call of %s' % type(f).__name__)
    def inline(self, f, args, kw):
        n = f.node
        a = n.args
        if a.vararg or a.kwarg or a.kwonlyargs: raise Out('parameters')
        names = [q.arg for q in a.args]
        if isinstance(f.env, tuple):
            if f.env[1] != self.calls: raise Out('nested function used elsewhere')
            env = dict(self.st.env)
        else: env = dict(f.env) if f.env is not None else {}
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults): env[nm] = self.ev(d)
        for nm, v in zip(names, args): env[nm] = v
        for k, v in kw.items(): env[k] = v
        if len(args) > len(names) or any(nm not in env for nm in names): raise Exc('TypeError')
        if len(self.calls) > 6: raise Out('call depth')
        save = self.st.env
        self.st.env = env
        self.calls = self.calls + (getattr(n, 'name', 'lambda'),)
        try:
            if isinstance(n, ast.Lambda): v = self.ev(n.body)
            else:
                v = None
                try: self.block(n.body)
                except Ret as r: v = r.v
                if n.name not in self.functions: self.functions.append(n.name)
            return v
        finally:
            self.st.env = save
            self.calls = self.calls[:-1]
    def method(self, b, args, e):
        o, m = b.obj, b.name
        if isinstance(o, Junk): 
            return JUNK
        if isinstance(o, SymVal): return o.method(self, m, args)
        if isinstance(o, str):
            if m == 'join' and isinstance(args[0], SymVal): return args[0].method(self, 'joined', [o])
            if all(isinstance(a, (str, int)) for a in args): 
                v = getattr(o, m)(*args)
                return self.new(e, HList(v)) if isinstance(v, list) else v
            return JUNK if m == 'format' else self.no(m)
        if isinstance(o, Sub):
            if m in ('keys', 'values', 'items'): return View(o, m)
            if m == 'get':
                h = self.has(o, args[0])
                return self.load(o, args[0]) if self.truth(h) else (args[1] if len(args) > 1 else None)
            if m == 'setdefault':
                if not self.truth(self.has(o, args[0])): self.store(o, args[0], args[1])
                return self.load(o, args[0])
            raise Out('method %s of an inner table' % m)
        if isinstance(o, Ref):
            h = self.get(o)
            if isinstance(h, HJunk): return JUNK
            if isinstance(h, (HDict, HMap)):
                if m in ('keys', 'values', 'items'): return View(o, m)
                if m == 'get':
                    if isinstance(h, HMap) and h.k2 is not None: raise Out('get on a table of tables')
                    return self.load(o, args[0]) if self.truth(self.has(o, args[0])) else (args[1] if len(args) > 1 else None)
                if m == 'setdefault':
                    if not self.truth(self.has(o, args[0])): self.store(o, args[0], args[1])
                    return self.load(o, args[0])
                if m == 'update' and isinstance(args[0], Ref) and isinstance(self.get(args[0]), HDict):
                    for k, v in self.get(args[0]).items.items(): self.store(o, k, v)
                    return None
                if m == 'copy': return self.new(e, h.copy())
                raise Out('dictionary method %s' % m)
            if m in ('append', 'add'):
                if m == 'add' and self.truth(self.contains(o, args[0])): return None
                self.append(o, args[0]); return None
            if m == 'extend':
                it = self.iterable(args[0], e)
                if isinstance(it, list):
                    for v in it: self.append(o, v)
                    return None
                raise Out('extend')
            if m == 'index' and isinstance(h, HList) and all(isinstance(q, (str, int)) for q in h.items) and isinstance(args[0], (str, int)):
                if args[0] not in h.items: raise Exc('ValueError')
                return h.items.index(args[0])
            raise Out('list method %s' % m)
        if z3.is_expr(o) and o.sort() == U: return self.spec.umethod(self, o, m, args)
        raise Out('method %s of %s' % (m, type(o).__name__))
    def no(self, what): raise Out(what)
    def lib(self, name, args, kw, e):
        s = name.split('.')[-1]
        r = self.spec.lib(self, name, args, kw, e)
        if r is not NotImplemented: return r
        if name == 'len': return self.length(args[0])
        if name == 'range':
            if all(isinstance(a, int) for a in args): return self.new(e, HList(list(range(*args))))
            lo = args[0] if len(args) > 1 else 0
            if len(args) > 2 or lo != 0: raise Out('range with bounds')
            n = self.z(args[-1], I)
            return Seq(z3.If(n > 0, n, 0) if not self.must(n >= 0) else n, lambda k: k)
        if name in ('list', 'sorted', 'tuple', 'set', 'iter') or s == 'OrderedDict' or name == 'dict':
            if not args and not kw: return self.new(e, HDict() if name == 'dict' or s == 'OrderedDict' else HList([]))
            if name == 'dict' and not args:
                d = self.new(e, HDict())
                for k, v in kw.items(): self.store(d, k, v)
                return d
            if name in ('list', 'tuple', 'iter') and not kw:
                v = args[0]
                if isinstance(v, (Seq, View, SetOf, tuple)): return v
                if isinstance(v, Ref) and isinstance(self.get(v), (HList, HArr)): return self.new(e, self.get(v).copy())
            raise Out('%s(...)' % name)
        if name == 'enumerate' and len(args) == 1 and not kw:
            it = self.iterable(args[0], e)
            if isinstance(it, list): return self.new(e, HList([(i, v) for i, v in enumerate(it)]))
            if isinstance(it, Seq): return Seq(it.n, lambda k: (k, it.at(k)))
            raise Out('enumerate')
        if name == 'float':
            if isinstance(args[0], (int, float)): return float(args[0])
            if isinstance(args[0], SymVal): return args[0].method(self, '__float__', [])
            return self.z(args[0], R) if not isinstance(args[0], Junk) else JUNK
        if name == 'int':
            if isinstance(args[0], (int, float, str)): return int(args[0])
            if isinstance(args[0], SymVal): return args[0].method(self, '__int__', [])
            v = self.z(args[0])
            if v.sort() == I: return v
            raise Out('int()')
        if name == 'str':
            if isinstance(args[0], SymVal) or (z3.is_expr(args[0]) and args[0].sort() == U): return args[0]
            return str(args[0]) if isinstance(args[0], (int, str, float)) else JUNK
        if name == 'bool': return self.truth(args[0])
        if name in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty'):
            n = args[0] if args else kw.get('shape')
            if isinstance(n, tuple):
                if len(n) != 1: raise Out('array of rank %d' % len(n))
                n = n[0]
            v = {'zeros': 0.0, 'ones': 1.0, 'full': args[1] if len(args) > 1 else kw.get('fill_value'), 'empty': None}[s]
            v = self.fresh('empty', R) if v is None else self.z(v, R)
            return self.new(e, HArr(R, z3.K(I, v), self.z(n, I), None, True))
        if name in ('pdb.set_trace', 'sys.path.append', 'numpy.set_printoptions', 'sys.stdout.flush'):
            if name == 'pdb.set_trace': raise Exc('pdb')
            return None
        if name == 'isinstance': raise Out('isinstance')
        raise Out('call of %s' % name)
    # ---- loops ------------------------------------------------------------------------------
    def iterable(self, v, node):
        if isinstance(v, (Seq, SetOf)): return v
        if isinstance(v, tuple): return list(v)
        if isinstance(v, SymVal): return v.method(self, '__iter__', [])
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HList): return list(o.items)
            if isinstance(o, HArr): return Seq(o.n, lambda k, o=o: z3.Select(o.arr, k))
            if isinstance(o, HDict): return list(o.items)
            if isinstance(o, HMap): return self.spec.iter_map(self, v, o, 'keys')
        if isinstance(v, View) and isinstance(v.ref, Ref):
            o = self.get(v.ref)
            if isinstance(o, HDict): return list({'keys': o.items.keys(), 'values': o.items.values(), 'items': o.items.items()}[v.what])
            if isinstance(o, HMap): return self.spec.iter_map(self, v.ref, o, v.what)
        raise Out('iteration over %s' % (type(self.get(v)).__name__ if isinstance(v, Ref) else type(v).__name__))
    def loop(self, s):
        it = self.iterable(self.ev(s.iter), s)
        if isinstance(it, list):
            for v in it:
                self.assign(s.target, v)
                try: self.block(s.body)
                except Brk: return
                except Cont: pass
            self.block(s.orelse)
            return
        if self.skip: return
        key = (self.xs, tuple(self.dec[:self.pos]), s.lineno, s.col_offset, self.calls)
        hit = self.memo.get(key)
        if hit is None or hit[0] != self.stamp():
            outs = self.rule(s, it)
            self.memo[key] = (self.stamp(), outs)
        else: outs = hit[1]
        if not outs: raise Dead()
        k = self.choose(len(outs)) if len(outs) > 1 else 0
        st, sig = outs[k]
        self.st = st.copy()
        if sig is not None: raise sig
        self.block(s.orelse)
    xs = count = 0
    discover = False
    @property
    def known(self): return self.__dict__.setdefault('_known', {})
    def stamp(self): return (len(self.st.pc), self.st.n)
    def facts_at(self, st, cands, entry, ctx):
        out = []
        for nm, f in cands: out += [q for q in self.inst(f, st, entry, ctx)]
        return out
    def inst(self, f, st, entry, ctx):
        save = self.st; self.st = st
        try:
            r = f(self, st, entry, ctx)
            return [] if r is None else (r if isinstance(r, list) else [r])
        finally: self.st = save
    def rule(self, s, it):
        entry = self.st.copy()
        outer = self.ctx
        label = 'loop at line %d' % s.lineno
        # which variables and objects does an iteration change?  (closed under repetition)
        vars_, refs = set(), {}
        def head(st0, cands, typed):
            st = st0.copy()
            save = self.st; self.st = st
            try:
                for v in vars_:
                    old, kind = st.env.get(v), vars_kind.get(v)
                    if kind in (I, R, B, U): st.env[v] = self.fresh('v_' + v, kind)
                    else: st.env.pop(v, None); st.env[v] = Lost(v) if kind is not None or v in st0.env else Lost(v)
                for rid, proto in refs.items(): st.heap[rid] = self.havoc(proto, rid)
                if isinstance(it, Seq):
                    k = self.fresh('k', I); at = k
                    st.pc += [k >= 0]
                else:
                    P = z3.Function('done!%d' % st.n, it.sort, B); st.n += 1
                    at = lambda t: P(t)
                ctx = Ctx(s, it, at, outer)
                for nm, f in cands: st.pc += self.inst(f, st, typed, ctx)
                return st, ctx
            finally: self.st = save
        vars_kind = {}
        typed = entry.copy()
        def run_body(st, ctx):
            def body():
                if isinstance(it, Seq):
                    self.assume(ctx.at < self.z(it.n))
                    v = it.at(ctx.at); x = None
                else:
                    x = self.fresh('x', it.sort)
                    self.assume(z3.And(it.member(x), z3.Not(ctx.at(x))))
                    v = it.make(self, x)
                self.elem = x
                self.st.elem = x
                self.assign(s.target, v)
                self.spec.on_elem(self, it, ctx, x)
                for nm, f in cur: self.st.pc += self.inst(f, self.st, typed, ctx)      # facts about the new ground terms
                try: self.block(s.body)
                except Cont: pass
            save = self.ctx; self.ctx = ctx
            try: return self.explore(st, body, None)
            finally: self.ctx = save
        cur = []
        def changes(h, outs):
            grew = False
            for st, sig in outs:
                for v, val in st.env.items():
                    if v in h.env and (h.env[v] is val or self.same(h.env[v], val)): continue
                    kd = self.kind(val, h.env.get(v))
                    if v not in vars_: vars_.add(v); vars_kind[v] = kd; grew = True
                    elif vars_kind[v] != kd and vars_kind[v] is not None:
                        vars_kind[v] = R if {vars_kind[v], kd} == {I, R} else None; grew = True
                for rid, o in st.heap.items():
                    if rid not in h.heap: continue
                    p = h.heap[rid]
                    if self.hsame(p, o): continue
                    proto = self.proto(typed, rid, p, o, st)
                    if rid not in refs or not self.ptype(refs[rid], proto): refs[rid] = proto; grew = True
                    self.retype(typed, rid, proto)
            return grew
        key = (s.lineno, s.col_offset, self.calls, id(s))
        known = self.known.get(key)
        if known:
            vars_ |= known[0]; vars_kind.update(known[1])
            for rid, pr in known[2].items():
                if rid in typed.heap: refs[rid] = pr; self.retype(typed, rid, pr)
            for v in list(vars_):
                o = typed.env.get(v)
                if o is None or isinstance(o, Lost): vars_kind[v] = None
        for rnd in range(0 if known else 8):
            h, ctx = head(typed, [], typed)
            save_d, self.discover = self.discover, True
            try: outs = run_body(h, ctx)
            finally: self.discover = save_d
            if not changes(h, outs): break
        else:
            if not known: raise Out('%s: the changed state does not settle' % label)
        self.known[key] = (set(vars_), dict(vars_kind), dict(refs))
        if self.discover and known: outs = []
        if self.discover:
            ex, _ = head(typed, [], typed)
            return [(ex, None)] + [(st, None if isinstance(sig, Brk) else sig) for st, sig in outs if isinstance(sig, (Brk, Ret, Exc))]
        # candidate facts
        cands = [c for c in self.spec.candidates(self, typed, s, it, outer)]
        cands += self.frames(typed, refs, vars_, vars_kind, s, it)
        at0 = z3.IntVal(0) if isinstance(it, Seq) else (lambda t: z3.BoolVal(False))
        c0 = Ctx(s, it, at0, outer); c0.prove = True
        ok = []
        for nm, f in cands:
            try: fs = self.inst(f, typed, typed, c0)
            except Out: continue
            if self.sat(typed.pc + [z3.Not(z3.And(*fs))] if fs else [z3.BoolVal(False)]) == z3.unsat: ok.append((nm, f))
        cur = ok
        while True:
            h, ctx = head(typed, cur, typed)
            outs = run_body(h, ctx)
            if changes(h, outs):
                self.again = getattr(self, 'again', 0) + 1
                if self.again > 20: raise Out('%s: the changed state does not settle' % label)
                self.known[key] = (set(vars_), dict(vars_kind), dict(refs))
                self.st = entry.copy()
                return self.rule(s, it)
            drop = set()
            if os.environ.get('PV_DROP'): print('ROUND line', s.lineno, len(outs), 'paths', len(cur), 'cands', [type(g).__name__ for q, g in outs], round(self.end - time.time()), self.solver_calls)
            for st, sig in outs:
                if sig is not None and not isinstance(sig, Cont): continue
                if isinstance(it, Seq): at1 = ctx.at + 1
                else: at1 = (lambda x0: lambda t: z3.Or(ctx.at(t), t == x0))(st.elem)
                c1 = Ctx(s, it, at1, outer); c1.prove = True
                for nm, f in cur:
                    if nm in drop: continue
                    fs = self.inst(f, st, typed, c1)
                    if fs and self.sat(st.pc + [z3.Not(z3.And(*fs))]) != z3.unsat:
                        if HOOK: HOOK(self, st, nm, fs)
                        drop.add(nm)
                        if os.environ.get('PV_DROP'): print('DROP', self.sat(st.pc + [z3.Not(z3.And(*fs))]), label, nm, str(z3.simplify(z3.And(*fs)))[:int(os.environ['PV_DROP'])])
            if not drop: break
            cur = [(n, f) for n, f in cur if n not in drop]
        self.loops.append(dict(line=s.lineno, kept=[n for n, f in cur], dropped=len(cands) - len(cur), paths=len(outs)))
        # after the loop
        res = []
        ex = h.copy()
        if isinstance(it, Seq): ex.pc += [ctx.at == self.z(it.n)]; fin = ctx
        else: fin = Ctx(s, it, it.member, outer); 
        if not isinstance(it, Seq):
            ex, _ = head(typed, [], typed)
            for nm, f in cur: ex.pc += self.inst(f, ex, typed, fin)
        for v in vars_:
            if isinstance(ex.env.get(v), Lost) and v not in entry.env: ex.env[v] = Lost(v)
        res.append((ex, None))
        for st, sig in outs:
            if isinstance(sig, Brk): res.append((st, None))
            elif isinstance(sig, (Ret, Exc)): res.append((st, sig))
        return res
    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Lost) or isinstance(b, Lost): return False
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        if isinstance(a, Ref) and isinstance(b, Ref): return a == b
        if isinstance(a, (int, float, str, bool)) and type(a) == type(b): return a == b
        if isinstance(a, Opq) and isinstance(b, Opq): return a.name == b.name
        return False
    def hsame(self, a, b):
        if type(a) != type(b): return False
        for k, v in a.__dict__.items():
            w = b.__dict__[k]
            if v is w: continue
            if z3.is_expr(v) and z3.is_expr(w) and v.eq(w): continue
            if isinstance(v, dict) and isinstance(w, dict) and v.keys() == w.keys() and all(self.same(v[q], w[q]) for q in v): continue
            if isinstance(v, list) and isinstance(w, list) and len(v) == len(w) and all(self.same(p, q) for p, q in zip(v, w)): continue
            if type(v) == type(w) and isinstance(v, (str, int, float)) and v == w: continue
            return False
        return True
    def kind(self, v, old):
        ks = []
        for x in (v, old):
            if x is None or isinstance(x, Lost): ks.append(None); continue
            try: ks.append(self.sort_of(x))
            except Out: ks.append(None)
        if old is None or isinstance(old, Lost): return ks[0] if False else None
        if ks[0] == ks[1]: return ks[0]
        if set(ks) == {I, R}: return R
        return None
    def proto(self, typed, rid, p, o, st):
        """the kind of object an iteration leaves at rid"""
        save = self.st; self.st = st.copy()
        try:
            r = Ref(rid)
            if isinstance(o, HJunk): return o
            if isinstance(o, HList):
                try: a = self.to_arr(r)
                except Out: return HJunk()
                return a if a is not None else o
            if isinstance(o, HDict):
                ks = [k for k in o.items]
                try:
                    if ks and self.to_map(r, self.z(ks[0]).sort(), None, self.sort_of(o.items[ks[0]])) is not None: return self.get(r)
                except Out: pass
                return HJunk()
            return o
        finally: self.st = save
    def ptype(self, a, b):
        if type(a) != type(b): return False
        if isinstance(a, HMap): return (a.k1, a.k2, a.vs) == (b.k1, b.k2, b.vs)
        if isinstance(a, HArr): return a.vs == b.vs
        return True
    def retype(self, st, rid, proto):
        o = st.heap.get(rid)
        if o is None: return
        save = self.st; self.st = st
        try:
            if isinstance(proto, HJunk): st.heap[rid] = proto
            elif isinstance(proto, HMap) and isinstance(o, HDict):
                if o.items:
                    if self.to_map(Ref(rid), proto.k1, proto.k2, proto.vs) is None: st.heap[rid] = HJunk()
                else: st.heap[rid] = empty_map(proto.k1, proto.k2, proto.vs, o.dflt)
            elif isinstance(proto, HArr) and isinstance(o, HList):
                if self.to_arr(Ref(rid), proto.vs) is None: st.heap[rid] = HJunk()
            elif isinstance(proto, HMap) and isinstance(o, HMap) and not self.ptype(proto, o): raise Out('a table changes its kind')
        finally: self.st = save
    def havoc(self, o, rid):
        n = 'h%s' % '_'.join(str(q) for q in rid)
        if isinstance(o, HJunk): return o
        if isinstance(o, HMap):
            m = o.copy()
            for f in ('dom', 'val', 'cnt', 'size', 'dom1'):
                t = getattr(o, f)
                if t is not None: setattr(m, f, self.fresh(n + f, t.sort()))
            if m.k2 is None and m.size is not None: self.st.pc.append(m.size >= 0)
            return m
        if isinstance(o, HArr):
            m = o.copy(); m.arr = self.fresh(n + 'a', o.arr.sort())
            if not o.fixed: m.n = self.fresh(n + 'n', I); self.st.pc.append(m.n >= 0)
            if o.cnt is not None: m.cnt = self.fresh(n + 'c', o.cnt.sort())
            return m
        return HJunk()
    def frames(self, typed, refs, vars_, kinds, s, it):
        """generic candidates: what was true before each loop stays true at the focus"""
        out = []
        for v in vars_:
            if kinds.get(v) == I and isinstance(it, Seq):
                e = typed.env.get(v)
                out.append(('%s counts the iterations' % v, lambda X, st, en, ctx, v=v, e=e: None if isinstance(st.env.get(v), Lost) else X.z(st.env[v], I) == X.z(e, I) + ctx.at))
        return out

class Lost(SymVal):
    """a variable whose value after or between iterations is not followed"""
    def __init__(s, name): s.name = name
    def method(s, X, name, args): raise Out('value of %s between iterations' % s.name)
    def attr(s, X, name): raise Out('value of %s between iterations' % s.name)
    def u(s, X): raise Out('value of %s between iterations' % s.name)
    index = method
    def truth(s, X): raise Out('value of %s between iterations' % s.name)
