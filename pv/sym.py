"""A deductive verifier for the Python subset the repository's generators are written in.

The real source is parsed on every run.  Functions are executed symbolically over sets of states.  A loop over a
symbolic collection is cut at its head: states at the head are closed under (a) one iteration with a generic element,
different from every focus, and (b) one iteration with each focus that has not been visited; the closed set of head
states is the loop invariant.  Foci are free constants, so what is proved about them holds for every species, reaction
or array cell, and there is no bound on sizes or iterations.  Whatever the engine cannot interpret raises OutOfReach and
makes the obligation undecided, never proved and never failed.
"""
import ast, time, itertools, os, re
import z3
from .live import head_live

class OutOfReach(Exception):
    pass

KEEP = {}
def eid(e):
    i = e.get_id()
    if i not in KEEP: KEEP[i] = e
    return i

Name = z3.DeclareSort('Name')
RText = z3.DeclareSort('RateText')
I, Rr, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

def isz(x): return isinstance(x, z3.ExprRef)

# ---- values ------------------------------------------------------------------------------------------
class Havoc:
    def __repr__(self): return 'HAVOC'
HAVOC = Havoc()

class Ref:
    __slots__ = ('id',)
    def __init__(self, i): self.id = i
    def __repr__(self): return 'Ref%d' % self.id

class Text:
    """string with holes: parts are str or Hole"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
        self.parts = tuple(out)
    def key(self): return ('T',) + tuple(p if isinstance(p, str) else ('h', vkey(p.v)) for p in self.parts)
class Hole:
    def __init__(self, v): self.v = v

class Tmpl:
    """placeholder variable of a collection template"""
_ph = {}
def placeholder(sort):
    s = sort.name()
    if s not in _ph: _ph[s] = z3.Const('X!' + s, sort)
    return _ph[s]

class Coll:
    """immutable symbolic collection of keys of one sort; mem is a formula over the placeholder"""
    def __init__(self, sort, mem, elem=None, nonempty=None, distinct=True, order=None, tag='', known=None):
        self.sort, self.mem, self.distinct, self.order, self.tag = sort, mem, distinct, order, tag
        self.elem = placeholder(sort) if elem is None else elem
        self.nonempty = nonempty
    def key(self): return ('C', self.sort.name(), eid(self.mem), vkey(self.elem), None if self.nonempty is None else eid(self.nonempty), self.distinct, self.order, self.tag)
    def has(self, t): return z3.substitute(self.mem, (placeholder(self.sort), t))
    def at(self, t): return vsubst(self.elem, placeholder(self.sort), t)

class SMap:
    """symbolic dictionary given as input (see Vocab)"""
    def __init__(self, kind, arg=None): self.kind, self.arg = kind, arg
    def key(self): return ('M', self.kind, None if self.arg is None else vkey(self.arg))

class Fn:
    def __init__(self, node, fid=None, mod=None): self.node, self.fid, self.mod = node, fid, mod
    def key(self): return ('F', id(self.node), self.fid)
class Builtin:
    def __init__(self, name): self.name = name
    def key(self): return ('B', self.name)
class BM:
    def __init__(self, obj, name): self.obj, self.name = obj, name
    def key(self): return ('BM', vkey(self.obj), self.name)
class Op:
    """uninterpreted term"""
    def __init__(self, name, *args): self.name, self.args = name, args
    def key(self): return ('O', self.name) + tuple(vkey(a) for a in self.args)
    def __repr__(self): return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))

def vkey(v):
    if isz(v): return ('z', eid(v))
    if isinstance(v, (bool, int, float, str, bytes)) or v is None: return (type(v).__name__, v)
    if isinstance(v, tuple): return ('t',) + tuple(vkey(x) for x in v)
    if isinstance(v, Ref): return ('r', v.id)
    if v is HAVOC: return ('H',)
    if hasattr(v, 'key'): return v.key()
    if isinstance(v, slice): return ('sl', vkey(v.start), vkey(v.stop), vkey(v.step))
    return ('?', id(v))

def vsubst(v, x, t):
    if isz(v): return z3.substitute(v, (x, t))
    if isinstance(v, tuple): return tuple(vsubst(a, x, t) for a in v)
    if isinstance(v, SMap): return SMap(v.kind, None if v.arg is None else vsubst(v.arg, x, t))
    if isinstance(v, Op): return Op(v.name, *[vsubst(a, x, t) for a in v.args])
    return v

def syms(v, out=None):
    """names of the free constants and predicates of a value"""
    if out is None: out = set()
    if isz(v): out |= zsyms(v)
    elif isinstance(v, tuple):
        for a in v: syms(a, out)
    elif isinstance(v, Coll):
        out |= zsyms(v.mem); syms(v.elem, out)
        if v.nonempty is not None: out |= zsyms(v.nonempty)
    elif isinstance(v, SMap):
        if v.arg is not None: syms(v.arg, out)
    elif isinstance(v, Text):
        for p in v.parts:
            if isinstance(p, Hole): syms(p.v, out)
    elif isinstance(v, Op):
        for a in v.args: syms(a, out)
    elif isinstance(v, BM): syms(v.obj, out)
    elif hasattr(v, 'vsyms'): out |= v.vsyms()
    return out
DEPS = {}          # name of a derived constant -> names of the symbols it stands for
_kn = {}
def keyed(prefix, value, sort):
    """a constant that names a function of `value`; forgotten together with the symbols of `value`"""
    k = (prefix, vkey(value))
    if k not in _kn:
        _kn[k] = '%s!%d' % (prefix, len(_kn))
        DEPS[_kn[k]] = frozenset(syms(value))
    return z3.Const(_kn[k], sort)
LENS = {}
def lenfacts(fs):
    out = []
    for n in {q for f in fs for q in zsyms(f) if q in LENS}:
        x = z3.Int(n); out += [x >= 0, (x > 0) == LENS[n]]
    return tuple(out)
_zs = {}
def zsyms(e):
    i = eid(e)
    if i in _zs: return _zs[i]
    out = set()
    if z3.is_app(e):
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(d.name())
            if d.name() in DEPS: out |= DEPS[d.name()]
        for c in e.children(): out |= zsyms(c)
    _zs[i] = frozenset(out)
    return _zs[i]

# ---- heap objects (immutable, replaced on write) -----------------------------------------------------
class HList:
    def __init__(self, items): self.items = tuple(items)
    def key(self): return ('HL',) + tuple(vkey(x) for x in self.items)
    def vsyms(self): return syms(self.items)
class HColl:
    """a mutable list/set known through a Coll"""
    def __init__(self, coll): self.coll = coll
    def key(self): return ('HC', self.coll.key())
    def vsyms(self): return syms(self.coll)
class HAcc:
    """list of integers or reals known only by how often each tracked value was appended"""
    def __init__(self, counts): self.counts = dict(counts)
    def key(self): return ('HA', tuple(sorted(self.counts.items())))
    def vsyms(self): return set()
class HDict:
    def __init__(self, items): self.items = dict(items)
    def key(self): return ('HD',) + tuple((vkey(k), vkey(v)) for k, v in self.items.items())
    def vsyms(self):
        out = set()
        for k, v in self.items.items(): syms(k, out); syms(v, out)
        return out
class HMat:
    """matrix of which one cell is tracked"""
    def __init__(self, val, tag=''): self.val, self.tag = val, tag
    def key(self): return ('HM', vkey(self.val), self.tag)
    def vsyms(self): return syms(self.val)
class HHavoc:
    def key(self): return ('HH',)
    def vsyms(self): return set()
class HFile:
    def __init__(self, name, mach): self.name, self.mach = name, mach
    def key(self): return ('HF', self.name, self.mach.key() if self.mach else None)
    def vsyms(self): return self.mach.vsyms() if self.mach else set()

class State:
    __slots__ = ('frames', 'fid', 'heap', 'pc', 'extra', 'nid')
    def __init__(self): self.frames, self.fid, self.heap, self.pc, self.extra, self.nid = {0: {}}, 0, {}, (), {}, 1
    def copy(self):
        s = State.__new__(State)
        s.frames, s.fid, s.heap, s.pc, s.extra, s.nid = self.frames, self.fid, self.heap, self.pc, self.extra, self.nid
        return s
    def setvar(self, n, v, fid=None):
        s = self.copy(); f = self.fid if fid is None else fid
        fr = dict(s.frames[f]); fr[n] = v
        s.frames = dict(s.frames); s.frames[f] = fr
        return s
    def alloc(self, obj):
        s = self.copy(); s.heap = dict(s.heap); i = s.nid; s.nid += 1
        s.heap[i] = obj
        return Ref(i), s
    def put(self, ref, obj):
        s = self.copy(); s.heap = dict(s.heap); s.heap[ref.id] = obj
        return s
    def assume(self, *fs):
        s = self.copy(); have = {eid(p) for p in s.pc}
        for f in fs:
            for g in (f.children() if z3.is_and(f) else [f]):
                if z3.is_true(g) or eid(g) in have: continue
                s.pc = s.pc + (g,); have.add(eid(g))
        return s
    def setextra(self, k, v):
        s = self.copy(); s.extra = dict(s.extra); s.extra[k] = v
        return s
    def reach(self):
        """heap id -> number, in order of first reach from the variables"""
        num, order = {}, []
        def visit(v):
            if isinstance(v, Ref):
                if v.id not in num: num[v.id] = len(num); order.append(v.id)
            elif isinstance(v, tuple):
                for x in v: visit(x)
            elif isinstance(v, BM): visit(v.obj)
        for f in sorted(self.frames):
            for k in sorted(self.frames[f]): visit(self.frames[f][k])
        i = 0
        while i < len(order):
            o = self.heap[order[i]]; i += 1
            if isinstance(o, HList):
                for x in o.items: visit(x)
            elif isinstance(o, HDict):
                for x in o.items.values(): visit(x)
        return num
    def fingerprint(self):
        """everything but the path condition, heap numbered in order of first reach"""
        num, order = {}, []
        def norm(v):
            if isinstance(v, Ref):
                if v.id not in num:
                    num[v.id] = len(num); order.append(v.id)
                return ('r', num[v.id])
            if isinstance(v, tuple): return ('t',) + tuple(norm(x) for x in v)
            if isinstance(v, BM): return ('BM', norm(v.obj), v.name)
            return vkey(v)
        parts = []
        for f in sorted(self.frames):
            fr = self.frames[f]
            parts.append((f, tuple((k, norm(fr[k])) for k in sorted(fr))))
        hp, i = [], 0
        while i < len(order):
            o = self.heap[order[i]]; i += 1
            if isinstance(o, HList): hp.append(('HL',) + tuple(norm(x) for x in o.items))
            elif isinstance(o, HDict): hp.append(('HD',) + tuple((vkey(k), norm(v)) for k, v in o.items.items()))
            else: hp.append(o.key())
        ex = tuple(sorted((k, vkey(v) if not isinstance(v, frozenset) else tuple(sorted(v))) for k, v in self.extra.items()))
        return (self.fid, tuple(parts), tuple(hp), ex)

def pckey(pc): return frozenset(eid(p) for p in pc)

def merge(states):
    """drop states whose path condition is implied syntactically by another of the same fingerprint; join complementary ones"""
    groups = {}
    for s in states: groups.setdefault(s.fingerprint(), []).append(s)
    out = []
    for g in groups.values():
        cur = {pckey(s.pc): s for s in g}
        changed = True
        while changed and len(cur) > 1:
            changed = False
            ks = list(cur)
            for a, b in itertools.combinations(ks, 2):
                if a <= b: del cur[b]; changed = True; break
                if b <= a: del cur[a]; changed = True; break
                if len(a) == len(b):
                    d1, d2 = a - b, b - a
                    if len(d1) == 1:
                        x, y = KEEP[next(iter(d1))], KEEP[next(iter(d2))]
                        if eid(z3.simplify(z3.Not(x))) == eid(z3.simplify(y)):
                            s = cur[a].copy(); s.pc = tuple(p for p in s.pc if eid(p) != eid(x))
                            del cur[a], cur[b]
                            k = pckey(s.pc)
                            if k not in cur: cur[k] = s
                            changed = True; break
        out += list(cur.values())
    return out

NORMAL, BRK, CONT, RET, EXC = 'normal', 'break', 'continue', 'return', 'raise'

class VC:
    def __init__(self, name, status, secs, detail, backend): self.name, self.status, self.secs, self.detail, self.backend = name, status, secs, detail, backend

class Engine:
    def __init__(self, vocab, label='', cap=4000, deadline=None):
        self.v, self.label, self.cap = vocab, label, cap
        self.vcs, self.covers, self.qcache = [], set(), {}
        self.qtime, self.nq = 0.0, 0
        self.vcseen = {}
        self.foci = {}             # sort name -> list of z3 constants, pairwise distinct
        self.hooks = {}            # name of builtin -> function(engine, state, args, kw) -> [(value, state)]
        self.globals = {}
        self.deadline = deadline
        self.functions = set()
        self.assumed = set()
        self.vals_tracked = []     # z3 integer terms counted in HAcc
        self.callstack = []
        self.stats = dict(states=0, heads=0)
        self.weaken, self.gmemo = True, {}
        self.collcache = {}
        self.base = frozenset()    # assumptions that are never forgotten

    # ---- solver ---------------------------------------------------------------------------
    def check(self, fs):
        """sat / unsat / unknown of a conjunction, with the vocabulary's facts instantiated"""
        key = frozenset(eid(f) for f in fs)
        if key in self.qcache: return self.qcache[key]
        t = time.time()
        if self.deadline and t > self.deadline: raise OutOfReach('time limit of this obligation')
        s = z3.Solver(); s.set('timeout', 8000)
        names, eqs = set(), set()
        fs = tuple(fs) + lenfacts(fs)
        for f in fs: self.v.terms(f, names, eqs)
        s.add(*fs)
        s.add(self.v.factc(names, eqs))
        r = str(s.check())
        self.last_model = None
        if r == 'sat': self.last_model = s.model()
        self.qtime += time.time() - t; self.nq += 1
        self.qcache[key] = r
        return r
    def feasible(self, st, *fs): return self.check(tuple(st.pc) + fs) != 'unsat'
    def entails(self, st, f):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        return self.check(tuple(st.pc) + (z3.Not(f),)) == 'unsat'
    def oblige(self, st, name, goal, detail=''):
        """a verification condition: the path condition implies the goal"""
        # an obligation about a generic element is the same obligation about a focus, which is an arbitrary element
        if isz(goal) and any(n.startswith('g!') for n in zsyms(goal)): return 'focus'
        name = '%s: %s' % (self.label, name)
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        k = (name, pckey(st.pc), eid(goal))
        if k in self.vcseen: return self.vcseen[k]
        t = time.time()
        fs = tuple(st.pc) + (z3.Not(goal),)
        r = self.check(fs)
        backend = 'z3'
        if r == 'unknown':
            r, backend = self.second(fs), 'cvc5'
        status = {'unsat': 'proved', 'sat': 'failed'}.get(r, 'undecided')
        det = detail
        if status == 'failed':
            self.qcache.pop(frozenset(eid(f) for f in fs), None); self.check(fs)
            det = '%s; goal %s; path %s; countermodel %s' % (detail, z3.simplify(goal), [str(p) for p in st.pc][:20], str(self.last_model)[:600])
        if status == 'undecided': det = detail + '; solver answered unknown'
        self.vcs.append(VC(name, status, time.time() - t, det, backend))
        self.vcseen[k] = status
        return status
    def must(self, st, name, goal, detail=''):
        """oblige, then go on with what was obliged"""
        self.oblige(st, name, goal, detail)
        return st if self.entails(st, goal) else st.assume(goal)
    def second(self, fs):
        import subprocess, tempfile
        s = z3.Solver(); names, eqs = set(), set()
        fs = tuple(fs) + lenfacts(fs)
        for f in fs: self.v.terms(f, names, eqs)
        for f in list(fs) + list(self.v.facts(names, eqs)): s.add(f)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as h:
            h.write('(set-logic ALL)\n' + s.to_smt2())
        try:
            r = subprocess.run(['cvc5', '--tlimit=20000', h.name], capture_output=True, text=True, timeout=40).stdout.split()
            return r[0] if r and r[0] in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(h.name)

    # ---- truth / branching -------------------------------------------------------------------
    def truth(self, v, st):
        """[(bool, state)]"""
        if v is HAVOC: raise OutOfReach('branch on an untracked value')
        if isz(v):
            if z3.is_bool(v):
                f = z3.simplify(v)
                if z3.is_true(f): return [(True, st)]
                if z3.is_false(f): return [(False, st)]
                out = []
                ty = self.check(tuple(st.pc) + (f,)) != 'unsat'
                tn = self.check(tuple(st.pc) + (z3.Not(f),)) != 'unsat'
                if ty and not tn: return [(True, st)]
                if tn and not ty: return [(False, st)]
                if ty: out.append((True, st.assume(f)))
                if tn: out.append((False, st.assume(z3.simplify(z3.Not(f)))))
                return out
            if v.sort() in (I, Rr): return self.truth(v != 0, st)
            raise OutOfReach('truth of %s' % v.sort())
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HList): return [(bool(o.items), st)]
            if isinstance(o, HDict): return [(bool(o.items), st)]
            if isinstance(o, HColl): return self.truth(self.nonempty(o.coll, st), st)
            raise OutOfReach('truth of %s' % type(o).__name__)
        if isinstance(v, Coll): return self.truth(self.nonempty(v, st), st)
        if isinstance(v, SMap): return self.truth(self.v.truth(self, v, st), st)
        if isinstance(v, (Text,)): return [(True, st)] if any(isinstance(p, str) for p in v.parts) else self.oor('truth of text')
        if isinstance(v, (bool, int, float, str, tuple)) or v is None: return [(bool(v), st)]
        if isinstance(v, Op):
            b = self.opbool(v); return self.truth(b, st)
        raise OutOfReach('truth of %s' % type(v).__name__)
    def oor(self, m): raise OutOfReach(m)
    def opbool(self, v): return keyed('op', v, B)
    def nonempty(self, c, st):
        if c.nonempty is not None: return c.nonempty
        return keyed('ne', c.mem, B)

    def eq(self, a, b, st):
        """equality as python bool or z3 Bool"""
        if a is HAVOC or b is HAVOC: raise OutOfReach('comparison with an untracked value')
        za, zb = isz(a), isz(b)
        if za or zb:
            if za and zb:
                if a.sort() == b.sort(): return z3.simplify(a == b)
                if {a.sort().name(), b.sort().name()} <= {'Int', 'Real'}: return z3.simplify(a == b)
                return False
            z, c = (a, b) if za else (b, a)
            if z.sort() == Name:
                return z3.simplify(z == self.v.lit(c)) if isinstance(c, str) else False
            if isinstance(c, bool): return z3.simplify(z == c) if z.sort() == B else z3.simplify(z == int(c))
            if isinstance(c, int): return z3.simplify(z == c) if z.sort() in (I, Rr) else False
            if isinstance(c, float): return z3.simplify((z if z.sort() == Rr else z3.ToReal(z)) == self.real(c)) if z.sort() in (I, Rr) else False
            if c is None or isinstance(c, str): return False
            raise OutOfReach('equality of %s and %s' % (z.sort(), type(c).__name__))
        if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))): return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = [self.eq(x, y, st) for x, y in zip(a, b)]
            if all(isinstance(x, bool) for x in r): return all(r)
            return z3.And([z3.BoolVal(x) if isinstance(x, bool) else x for x in r])
        if vkey(a) == vkey(b): return True
        if isinstance(a, Op) or isinstance(b, Op):
            return keyed('opeq', tuple(sorted((a, b), key=lambda q: repr(vkey(q)))), B)
        raise OutOfReach('equality of %s and %s' % (type(a).__name__, type(b).__name__))
    def real(self, c):
        from fractions import Fraction
        f = Fraction(c); return z3.RealVal('%d/%d' % (f.numerator, f.denominator))

    # ---- expressions --------------------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None: raise OutOfReach('%s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        try:
            return m(e, st)
        except OutOfReach as x:
            if not getattr(x, 'line', None):
                x.line = getattr(e, 'lineno', None); x.args = ('%s (line %s)' % (x.args[0] if x.args else '', x.line),)
            raise
    def evs(self, es, st):
        res = [((), st)]
        for e in es:
            nxt = []
            for vs, s in res:
                if isinstance(e, ast.Starred):
                    for v, s2 in self.ev(e.value, s):
                        its = self.concrete_items(v, s2)
                        nxt.append((vs + tuple(its), s2))
                else:
                    for v, s2 in self.ev(e, s): nxt.append((vs + (v,), s2))
            res = nxt
        return res
    def ev_Constant(self, e, st): return [(e.value, st)]
    def ev_Name(self, e, st):
        return [(self.lookup(e.id, st), st)]
    def lookup(self, n, st):
        fr = st.frames[st.fid]
        f = st.fid
        while f is not None:
            fr = st.frames[f]
            if n in fr: return fr[n]
            f = fr.get('%parent')
        if n in self.globals: return self.globals[n]
        if n in self.hooks: return Builtin(n)
        if n in BUILTINS: return Builtin(n)
        raise OutOfReach('name %s' % n)
    def ev_Tuple(self, e, st): return self.evs(e.elts, st)
    def ev_List(self, e, st):
        out = []
        for vs, s in self.evs(e.elts, st):
            r, s2 = s.alloc(HList(vs)); out.append((r, s2))
        return out
    def ev_Set(self, e, st): return self.ev_List(e, st)
    def ev_Dict(self, e, st):
        out = []
        for vs, s in self.evs(e.keys, st):
            for ws, s2 in self.evs(e.values, s):
                d = {}
                for k, w in zip(vs, ws): d[self.ckey(k)] = w
                r, s3 = s2.alloc(HDict(d)); out.append((r, s3))
        return out
    def ckey(self, k):
        if isinstance(k, (str, int, float, bool)) or k is None: return k
        if isz(k): return ZK(k)
        if isinstance(k, Op): return OpK(k)
        raise OutOfReach('dictionary key')
    def ev_JoinedStr(self, e, st):
        res = [((), st)]
        for v in e.values:
            nxt = []
            for ps, s in res:
                if isinstance(v, ast.Constant): nxt.append((ps + (v.value,), s))
                else:
                    if v.format_spec is not None: raise OutOfReach('format specification')
                    for x, s2 in self.ev(v.value, s): nxt.append((ps + (self.tostr(x),), s2))
            res = nxt
        return [(self.mktext(ps), s) for ps, s in res]
    def mktext(self, ps):
        parts = []
        for p in ps:
            if isinstance(p, Text): parts += p.parts
            else: parts.append(p)
        t = Text(parts)
        if all(isinstance(p, str) for p in t.parts): return ''.join(t.parts)
        return t
    def tostr(self, x):
        if isinstance(x, (str, Text)): return x
        if isinstance(x, (int, float, bool)) or x is None: return str(x)
        if x is HAVOC: raise OutOfReach('an untracked value is written out')
        if isz(x) or isinstance(x, Op): return Text([Hole(x)])
        raise OutOfReach('text of %s' % type(x).__name__)
    def ev_IfExp(self, e, st):
        out = []
        for c, s in self.ev(e.test, st):
            for b, s2 in self.truth(c, s): out += self.ev(e.body if b else e.orelse, s2)
        return out
    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res, live = [], [(None, st)]
        for k, x in enumerate(e.values):
            nxt = []
            for _, s in live:
                for v, s2 in self.ev(x, s):
                    if k == len(e.values) - 1: res.append((v, s2)); continue
                    for b, s3 in self.truth(v, s2):
                        if b == isand: nxt.append((v, s3))
                        else: res.append((b if isz(v) else v, s3))
            live = nxt
        return res
    def ev_UnaryOp(self, e, st):
        out = []
        for v, s in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                if isz(v) and v.sort() == B: out.append((z3.simplify(z3.Not(v)), s))
                else: out += [(not b, s2) for b, s2 in self.truth(v, s)]
            elif isinstance(e.op, ast.USub):
                out.append((self.arith('-', 0, v) if not isinstance(v, (int, float)) else -v, s))
            elif isinstance(e.op, ast.UAdd): out.append((v, s))
            else: raise OutOfReach('unary operator')
        return out
    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//', ast.MatMult: '@'}
    def ev_BinOp(self, e, st):
        out = []
        op = self.OPS.get(type(e.op))
        if op is None: raise OutOfReach('operator')
        for a, s in self.ev(e.left, st):
            for b, s2 in self.ev(e.right, s): out += self.binop(op, a, b, s2)
        return out
    def binop(self, op, a, b, st):
        if op == '%' and isinstance(a, (str, Text)): return [(self.format(a, b), st)]
        if op == '+' and isinstance(a, (str, Text)) and isinstance(b, (str, Text)): return [(self.mktext([a, b]), st)]
        if op == '+' and (self.iscoll(a, st) or self.iscoll(b, st)): return self.concat(a, b, st)
        if op == '*' and isinstance(a, Ref) and isinstance(st.heap[a.id], HList):
            if isinstance(b, int):
                r, s = st.alloc(HList(st.heap[a.id].items * b)); return [(r, s)]
            if isinstance(b, Op) or isz(b):
                h = self.hooks.get('list_repeat')
                if h: return h(self, st, a, b)
                r, s = st.alloc(HHavoc()); return [(r, s)]
        if op == '*' and isinstance(b, Ref): return self.binop(op, b, a, st)
        if isinstance(a, str) and op == '*' and isinstance(b, int): return [(a * b, st)]
        return [(self.arith(op, a, b), st)]
    def iscoll(self, a, st): return isinstance(a, Coll) or (isinstance(a, Ref) and isinstance(st.heap[a.id], (HList, HColl))) or (isinstance(a, Ref) and isinstance(st.heap[a.id], HHavoc))
    def ascoll(self, a, st, sort=None):
        if isinstance(a, Coll): return a
        if isinstance(a, Ref):
            o = st.heap[a.id]
            if isinstance(o, HColl): return o.coll
            if isinstance(o, HList):
                if not o.items:
                    if sort is None: return None
                    return Coll(sort, z3.BoolVal(False), nonempty=z3.BoolVal(False), tag='empty')
                zs = [self.v.lit(x) if isinstance(x, str) else x for x in o.items]
                if all(isz(x) and x.sort() == zs[0].sort() for x in zs):
                    p = placeholder(zs[0].sort())
                    return Coll(zs[0].sort(), z3.simplify(z3.Or([p == x for x in zs])), nonempty=z3.BoolVal(True), distinct=len(zs) == 1)
            raise OutOfReach('collection of %s' % type(o).__name__)
        if isinstance(a, SMap): return self.v.keys(self, a, st)
        raise OutOfReach('not a collection: %s' % type(a).__name__)
    def concat(self, a, b, st):
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.heap[a.id], HList) and isinstance(st.heap[b.id], HList):
            r, s = st.alloc(HList(st.heap[a.id].items + st.heap[b.id].items)); return [(r, s)]
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(st.heap[x.id], HHavoc):
                r, s = st.alloc(HHavoc()); return [(r, s)]
        ca, cb = self.ascoll(a, st), self.ascoll(b, st)
        if ca is None: c = cb
        elif cb is None: c = ca
        else:
            if ca.sort != cb.sort: raise OutOfReach('lists of different kinds')
            c = Coll(ca.sort, z3.simplify(z3.Or(ca.mem, cb.mem)), nonempty=z3.simplify(z3.Or(self.nonempty(ca, st), self.nonempty(cb, st))), distinct=False)
            if vkey(ca.elem) != vkey(placeholder(ca.sort)) or vkey(cb.elem) != vkey(placeholder(cb.sort)): raise OutOfReach('joining lists of tuples')
        r, s = st.alloc(HColl(c)); return [(r, s)]
    def arith(self, op, a, b):
        if a is HAVOC or b is HAVOC: return HAVOC
        na, nb = isinstance(a, (int, float)), isinstance(b, (int, float))
        if na and nb:
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b, '%': lambda: a % b, '//': lambda: a // b}[op]()
            except Exception as x:
                raise OutOfReach('arithmetic: %r' % x)
        if isinstance(a, Op) or isinstance(b, Op): return Op(op, a, b)
        if (isz(a) or na) and (isz(b) or nb):
            x = a if isz(a) else (self.real(a) if isinstance(a, float) else z3.IntVal(int(a)))
            y = b if isz(b) else (self.real(b) if isinstance(b, float) else z3.IntVal(int(b)))
            if any(t.sort() not in (I, Rr) for t in (x, y)): raise OutOfReach('arithmetic on %s, %s' % (x.sort(), y.sort()))
            if x.sort() != y.sort() or op == '/':
                x = z3.ToReal(x) if x.sort() == I else x; y = z3.ToReal(y) if y.sort() == I else y
            if op == '**': return Op('**', a, b)
            if op == '%' or op == '//':
                if x.sort() == I and isinstance(b, int) and b > 0: return z3.simplify(x % y if op == '%' else x / y)
                return Op(op, a, b)
            return z3.simplify({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]())
        if isinstance(a, (Text, str)) or isinstance(b, (Text, str)): raise OutOfReach('arithmetic on text')
        return Op(op, a, b)
    def format(self, t, args):
        if isinstance(t, str) and all(isinstance(a, (int, float, str)) for a in (args if isinstance(args, tuple) else (args,))):
            try: return t % args
            except (TypeError, ValueError): raise OutOfReach('format %r' % t[:40])
        if isinstance(t, Text): raise OutOfReach('format of symbolic text')
        if not isinstance(args, tuple): args = (args,)
        parts, k, i = [], 0, 0
        while i < len(t):
            c = t.find('%', i)
            if c < 0: parts.append(t[i:]); break
            parts.append(t[i:c])
            d = t[c + 1:c + 2]
            if d == '%': parts.append('%')
            elif d in ('s', 'd', 'i', 'r'):
                if k >= len(args): raise OutOfReach('format arguments')
                a = args[k]; k += 1
                if d == 'r' and not isinstance(a, (int, float)): raise OutOfReach('%r')
                if d in 'di' and not (isinstance(a, int) or (isz(a) and a.sort() == I)): raise OutOfReach('%%d of %s' % type(a).__name__)
                parts.append(self.tostr(a))
            else: raise OutOfReach('format %%%s' % d)
            i = c + 2
        if k != len(args): raise OutOfReach('format arguments')
        return self.mktext(parts)
    def ev_Compare(self, e, st):
        out = []
        for vs, s in self.evs([e.left] + e.comparators, st):
            if len(e.ops) == 1:
                out += self.compare(e.ops[0], vs[0], vs[1], s)
            else:
                rs = [(True, s)]
                for i, op in enumerate(e.ops):
                    nxt = []
                    for acc, s1 in rs:
                        if acc is False: nxt.append((False, s1)); continue
                        for v, s2 in self.compare(op, vs[i], vs[i + 1], s1):
                            for b, s3 in self.truth(v, s2): nxt.append((b, s3))
                    rs = nxt
                out += rs
        return out
    def compare(self, op, a, b, st):
        t = type(op)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isz(x) and z3.is_const(x) and x.decl().name() in LENS and isinstance(y, int) and not isinstance(y, bool) and y in (0, 1):
                tt = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(t, t) if sw else t
                ne = LENS[x.decl().name()]
                if (tt, y) in ((ast.Gt, 0), (ast.GtE, 1), (ast.NotEq, 0)): return [(ne, st)]
                if (tt, y) in ((ast.Eq, 0), (ast.Lt, 1), (ast.LtE, 0)): return [(z3.simplify(z3.Not(ne)), st)]
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a, st)
            res = []
            for x, s in r:
                res.append(((not x) if isinstance(x, bool) else z3.simplify(z3.Not(x)), s) if t is ast.NotIn else (x, s))
            return res
        if t in (ast.Eq, ast.NotEq):
            if (isinstance(a, Op) or isinstance(b, Op)) and not (isz(a) or isz(b)) and vkey(a) != vkey(b):
                x = self.opbool(Op('==', a, b))
            else: x = self.eq(a, b, st)
            if t is ast.NotEq: x = (not x) if isinstance(x, bool) else z3.simplify(z3.Not(x))
            return [(x, st)]
        if t in (ast.Is, ast.IsNot):
            if (a is None or isinstance(a, bool)) and (b is None or isinstance(b, bool)): x = a is b
            elif isinstance(b, (bool, type(None))) and not isz(a) and not isinstance(a, Op): x = False
            elif isz(a) and a.sort() == B and isinstance(b, bool): x = z3.simplify(a == b)
            elif isz(a) and b is None: x = False
            elif isinstance(a, Op) and (isinstance(b, bool) or b is None): x = self.opbool(Op('is', a, b))
            else: raise OutOfReach('identity comparison')
            if t is ast.IsNot: x = (not x) if isinstance(x, bool) else z3.simplify(z3.Not(x))
            return [(x, st)]
        if a is HAVOC or b is HAVOC: raise OutOfReach('comparison with an untracked value')
        if isinstance(a, Op) or isinstance(b, Op): return [(self.opcmp(t, a, b), st)]
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
            return [({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t], st)]
        if (isz(a) or isinstance(a, (int, float))) and (isz(b) or isinstance(b, (int, float))):
            x = a if isz(a) else (self.real(a) if isinstance(a, float) else z3.IntVal(a)); y = b if isz(b) else (self.real(b) if isinstance(b, float) else z3.IntVal(b))
            if x.sort() not in (I, Rr) or y.sort() not in (I, Rr): raise OutOfReach('ordering of %s' % x.sort())
            return [(z3.simplify({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t]), st)]
        raise OutOfReach('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    def opcmp(self, t, a, b):
        # normal form: a<b, a<=b
        if t is ast.Gt: return self.opbool(Op('<', b, a))
        if t is ast.GtE: return self.opbool(Op('<=', b, a))
        return self.opbool(Op('<' if t is ast.Lt else '<=', a, b))
    def contains(self, c, x, st):
        if isinstance(c, str) and isinstance(x, str): return [(x in c, st)]
        if x is HAVOC or c is HAVOC: raise OutOfReach('membership of an untracked value')
        if isinstance(c, tuple) or (isinstance(c, Ref) and isinstance(st.heap[c.id], HList)):
            its = c if isinstance(c, tuple) else st.heap[c.id].items
            r = [self.eq(x, y, st) for y in its]
            if any(y is True for y in r): return [(True, st)]
            r = [y for y in r if y is not False]
            if not r: return [(False, st)]
            return [(z3.simplify(z3.Or(r)), st)]
        if isinstance(c, Ref) and isinstance(st.heap[c.id], HDict):
            d = st.heap[c.id].items
            if not isz(x) and not any(isinstance(k, ZK) for k in d): return [(self.ckey(x) in d, st)]
            r = [self.eq(x, k.v if isinstance(k, ZK) else k, st) for k in d]
            if any(y is True for y in r): return [(True, st)]
            r = [y for y in r if y is not False]
            return [(z3.simplify(z3.Or(r)) if r else False, st)]
        if isinstance(c, Ref) and isinstance(st.heap[c.id], HHavoc) or isinstance(c, Op):
            # membership in something unknown: either way
            if isinstance(c, Ref): raise OutOfReach('membership in an untracked list')
            return [(keyed('in', (c, x), B), st)]
        if isinstance(c, SMap): return self.v.contains(self, c, x, st)
        co = self.ascoll(c, st)
        if isinstance(x, str): x = self.v.lit(x)
        if isinstance(x, int): x = z3.IntVal(x)
        if not isz(x) or x.sort() != co.sort: raise OutOfReach('membership of %s' % type(x).__name__)
        if vkey(co.elem) != vkey(placeholder(co.sort)): raise OutOfReach('membership in a list of tuples')
        return [(z3.simplify(co.has(x)), st)]
    def ev_Attribute(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            h = self.hooks.get('attr')
            if h:
                r = h(self, s, v, e.attr)
                if r is not None: out += r; continue
            if isinstance(v, Builtin): out.append((Builtin(v.name + '.' + e.attr), s))
            else: out.append((BM(v, e.attr), s))
        return out
    def ev_Slice(self, e, st):
        res = []
        for a, s in (self.ev(e.lower, st) if e.lower else [(None, st)]):
            for b, s2 in (self.ev(e.upper, s) if e.upper else [(None, s)]):
                for c, s3 in (self.ev(e.step, s2) if e.step else [(None, s2)]): res.append((slice(a, b, c), s3))
        return res
    def ev_Subscript(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            for k, s2 in self.ev(e.slice, s): out += self.getitem(v, k, s2)
        return out
    def getitem(self, v, k, st):
        h = self.hooks.get('getitem')
        if h:
            r = h(self, st, v, k)
            if r is not None: return r
        if v is HAVOC: return [(HAVOC, st)]
        if isinstance(v, tuple) or isinstance(v, str):
            if isinstance(k, int):
                try: return [(v[k], st)]
                except IndexError: raise OutOfReach('index error')
            if isinstance(k, slice): return [(v[k], st)]
        if isinstance(v, SMap): return self.v.get(self, v, k, st)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HHavoc): return [(HAVOC, st)]
            if isinstance(o, HList):
                if isinstance(k, int):
                    if -len(o.items) <= k < len(o.items): return [(o.items[k], st)]
                    raise OutOfReach('index error')
                if isz(k) and all(not isinstance(x, Ref) or isinstance(st.heap[x.id], HHavoc) for x in o.items): return [(HAVOC, st)]
                if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    r, s = st.alloc(HList(o.items[k])); return [(r, s)]
            if isinstance(o, HDict):
                ck = self.ckey(k)
                if ck in o.items: return [(o.items[ck], st)]
                if not o.items.get('%open'): raise OutOfReach('missing key %r' % (k,))
            if isinstance(o, HMat): return self.matget(v, o, k, st)
        if isinstance(v, Op): return [(Op('getitem', v, k), st)]
        raise OutOfReach('subscript of %s' % (type(st.heap[v.id]).__name__ if isinstance(v, Ref) else type(v).__name__))
    def matcell(self, k, st):
        """[(is it the tracked cell, state)] for matrix index k"""
        return self.v.tracked_cell(self, k, st)
    def matget(self, v, o, k, st):
        out = []
        for b, s in self.matcell(k, st): out.append((o.val if b else HAVOC, s))
        return out
    def ev_ListComp(self, e, st):
        if len(e.generators) != 1: raise OutOfReach('nested comprehension')
        g = e.generators[0]
        out = []
        for c, s in self.ev(g.iter, st):
            its = self.try_concrete(c, s)
            if its is not None and len(its) > 200 and all(isinstance(x, str) for x in its):
                c = self.v.literal_list(self, tuple(its)); its = None
            if its is not None:
                # concrete: run in a private frame
                res = [((), s)]
                for it in its:
                    nxt = []
                    for acc, s1 in res:
                        s2 = s1.setvar('%shadow', None)
                        saved = dict(s1.frames[s1.fid])
                        for s3 in self.assign(g.target, it, s1):
                            live = [s3]
                            for cond in g.ifs:
                                l2 = []
                                for s4 in live:
                                    for cv, s5 in self.ev(cond, s4):
                                        for b, s6 in self.truth(cv, s5):
                                            if b: l2.append(s6)
                                            else: nxt.append((acc, self.restore(s6, saved)))
                                live = l2
                            for s4 in live:
                                for v, s5 in self.ev(e.elt, s4): nxt.append((acc + (v,), self.restore(s5, saved)))
                    res = nxt
                for acc, s1 in res:
                    r, s2 = s1.alloc(HList(acc)); out.append((r, s2))
                continue
            if isinstance(c, Op):
                fr = {x.id for y in [e.elt] + g.ifs for x in ast.walk(y) if isinstance(x, ast.Name)} - {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                if fr <= BUILTINS: out.append((Op('comp:' + ast.dump(e), c), s)); continue
            if isinstance(c, Op) or (isinstance(c, Ref) and isinstance(s.heap[c.id], HHavoc)):
                r, s2 = s.alloc(HHavoc()); out.append((r, s2)); continue
            co = self.ascoll(c, s)
            if co is None: out.append((s.alloc(HList(())))); continue
            saved = dict(s.frames[s.fid])
            mem = co.mem
            s1 = self.assign1(g.target, co.elem, s)
            pc0 = s1.pc
            for cond in g.ifs:
                r = self.ev(cond, s1)
                if len(r) != 1: raise OutOfReach('branching comprehension condition')
                cv, s1 = r[0]
                if isinstance(cv, bool): cv = z3.BoolVal(cv)
                if not (isz(cv) and cv.sort() == B): raise OutOfReach('comprehension condition')
                mem = z3.And(mem, cv)
            if len(s1.pc) != len(pc0): raise OutOfReach('branching comprehension')
            mem = z3.simplify(mem)
            if not z3.is_true(mem): s1 = s1.assume(mem)          # the element is evaluated for an arbitrary member
            npc = len(s1.pc)
            r = self.ev(e.elt, s1)
            if len(r) != 1: raise OutOfReach('branching comprehension')
            v, s1 = r[0]
            s1 = self.restore(s1, saved)
            if len(s1.pc) != npc: raise OutOfReach('branching comprehension')
            s1 = s1.copy(); s1.pc = pc0
            p = placeholder(co.sort)
            if vkey(v) == vkey(p):
                nc = Coll(co.sort, z3.simplify(mem), nonempty=co.nonempty if not g.ifs else None, distinct=co.distinct, order=co.order, tag=co.tag)
            elif isz(v) and v.sort() in (I, Rr, RText, Name) or isinstance(v, tuple):
                nc = Coll(co.sort, z3.simplify(mem), elem=v, nonempty=co.nonempty if not g.ifs else None, distinct=co.distinct, order=co.order, tag=co.tag)
            else:
                r2, s2 = s1.alloc(HHavoc()); out.append((r2, s2)); continue
            r2, s2 = s1.alloc(HColl(nc)); out.append((r2, s2))
        return out
    ev_SetComp = ev_ListComp
    ev_GeneratorExp = ev_ListComp
    def restore(self, st, saved):
        s = st.copy(); s.frames = dict(s.frames); s.frames[s.fid] = saved
        return s
    def ev_Lambda(self, e, st): return [(Fn(e, st.fid), st)]
    def ev_NamedExpr(self, e, st):
        out = []
        for v, s in self.ev(e.value, st): out.append((v, s.setvar(e.target.id, v)))
        return out
    def try_concrete(self, c, st):
        if isinstance(c, tuple): return list(c)
        if isinstance(c, str): return list(c)
        if isinstance(c, range): return list(c)
        if isinstance(c, Ref):
            o = st.heap[c.id]
            if isinstance(o, HList): return list(o.items)
            if isinstance(o, HDict) and not o.items.get('%open'): return [k.v if isinstance(k, (ZK, OpK)) else k for k in o.items]
        return None
    def concrete_items(self, c, st):
        r = self.try_concrete(c, st)
        if r is None: raise OutOfReach('symbolic sequence expanded')
        return r

    # ---- calls --------------------------------------------------------------------------------
    def ev_Call(self, e, st):
        out = []
        for f, s in self.ev(e.func, st):
            for args, s2 in self.evs(e.args, s):
                for kv, s3 in self.evs([k.value for k in e.keywords], s2):
                    kw = {k.arg: v for k, v in zip(e.keywords, kv)}
                    out += self.call(f, args, kw, s3, e)
        return out
    def call(self, f, args, kw, st, node=None):
        if isinstance(f, Fn): return self.callfn(f, args, kw, st)
        if isinstance(f, Builtin):
            h = self.hooks.get(f.name)
            if h: return h(self, st, args, kw)
            m = getattr(self, 'bi_' + f.name.replace('.', '_'), None)
            if m: return m(args, kw, st)
            h = self.hooks.get('call')
            if h:
                r = h(self, st, f, args, kw)
                if r is not None: return r
            raise OutOfReach('call of %s' % f.name)
        if isinstance(f, BM):
            h = self.hooks.get('method')
            if h:
                r = h(self, st, f.obj, f.name, args, kw)
                if r is not None: return r
            return self.method(f.obj, f.name, args, kw, st)
        h = self.hooks.get('call')
        if h:
            r = h(self, st, f, args, kw)
            if r is not None: return r
        raise OutOfReach('call of %s' % type(f).__name__)
    def callfn(self, f, args, kw, st):
        n = f.node
        if len(self.callstack) > 12 or any(x is n for x in self.callstack): raise OutOfReach('recursion in %s' % getattr(n, 'name', 'lambda'))
        a = n.args
        names = [x.arg for x in a.args]
        env = {}
        if len(args) > len(names) and not a.vararg: raise OutOfReach('arguments of %s' % getattr(n, 'name', 'lambda'))
        for x, v in zip(names, args): env[x] = v
        if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
        for k, v in kw.items():
            if k is None or (k not in names and k not in [x.arg for x in a.kwonlyargs]): raise OutOfReach('keyword %s' % k)
            env[k] = v
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in env:
                r = self.ev(d, st); env[x], st = r[0]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                r = self.ev(d, st); env[x.arg], st = r[0]
        for x in names:
            if x not in env: raise OutOfReach('missing argument %s' % x)
        if hasattr(n, 'name'): self.functions.add(n.name)
        s = st.copy(); fid = max(s.frames) + 1
        env['%parent'] = f.fid
        s.frames = dict(s.frames); s.frames[fid] = env
        caller = s.fid; s.fid = fid
        self.callstack.append(n)
        try:
            if isinstance(n, ast.Lambda):
                outs = [(RET, v, s2) for v, s2 in self.ev(n.body, s)]
            else:
                outs = self.block(n.body, [s])
        finally:
            self.callstack.pop()
        res = []
        for sig, v, s2 in outs:
            if sig == EXC: raise OutOfReach('exception leaves %s' % getattr(n, 'name', 'lambda'))
            s3 = s2.copy(); s3.frames = dict(s3.frames)
            if not self.captured(fid, s3, v): s3.frames.pop(fid, None)
            s3.fid = caller
            res.append((v if sig == RET else None, s3))
        return res
    def captured(self, fid, st, v):
        def hasfn(x):
            if isinstance(x, Fn): return x.fid == fid
            if isinstance(x, tuple): return any(hasfn(y) for y in x)
            return False
        if hasfn(v): return True
        for f, fr in st.frames.items():
            if f != fid and any(hasfn(x) for x in fr.values()): return True
        return False

    # builtins
    def bi_print(self, a, k, st): return [(None, st)]
    def bi_len(self, a, k, st):
        x = a[0]
        its = self.try_concrete(x, st)
        if its is not None: return [(len(its), st)]
        if isinstance(x, SMap):
            r = self.v.length(self, x, st)
            if r is not None: return [(r, st)]
        if isinstance(x, Op): return [(Op('len', x), st)]
        if isinstance(x, Ref) and isinstance(st.heap[x.id], (HHavoc, HAcc)):
            return [(HAVOC, st)]
        c = self.ascoll(x, st)
        n = keyed('len', c.mem, I)
        ln = getattr(c, 'length', None)
        if ln is not None: return [(ln, st)]
        LENS[n.decl().name()] = self.nonempty(c, st)
        return [(n, st)]
    def bi_range(self, a, k, st):
        if all(isinstance(x, int) for x in a): return [(range(*a), st)]
        if len(a) == 1: lo, hi = 0, a[0]
        elif len(a) == 2: lo, hi = a
        else: raise OutOfReach('range with step')
        if isinstance(hi, Op):
            h = self.hooks.get('range')
            if h: return h(self, st, lo, hi)
            raise OutOfReach('range of %r' % (hi,))
        if lo != 0 or not (isz(hi) and hi.sort() == I): raise OutOfReach('range')
        p = placeholder(I)
        return [(Coll(I, z3.And(p >= 0, p < hi), nonempty=hi > 0, order='range', tag='range'), st)]
    def bi_list(self, a, k, st):
        if not a:
            r, s = st.alloc(HList(())); return [(r, s)]
        its = self.try_concrete(a[0], st)
        if its is not None:
            r, s = st.alloc(HList(its)); return [(r, s)]
        if isinstance(a[0], Ref) and isinstance(st.heap[a[0].id], (HHavoc, HAcc)):
            r, s = st.alloc(st.heap[a[0].id]); return [(r, s)]
        c = self.ascoll(a[0], st)
        r, s = st.alloc(HColl(c)); return [(r, s)]
    def bi_set(self, a, k, st):
        if not a:
            r, s = st.alloc(HList(())); return [(r, s)]
        its = self.try_concrete(a[0], st)
        if its is not None and all(isinstance(x, (str, int, float)) for x in its):
            u = []
            for x in its:
                if x not in u: u.append(x)
            r, s = st.alloc(HList(u)); return [(r, s)]
        if isinstance(a[0], Ref) and isinstance(st.heap[a[0].id], HHavoc):
            r, s = st.alloc(HHavoc()); return [(r, s)]
        c = self.ascoll(a[0], st)
        if c is None:
            r, s = st.alloc(HList(())); return [(r, s)]
        if vkey(c.elem) != vkey(placeholder(c.sort)): raise OutOfReach('set of tuples')
        r, s = st.alloc(HColl(Coll(c.sort, c.mem, nonempty=self.nonempty(c, st), distinct=True, tag=c.tag))); return [(r, s)]
    bi_frozenset = bi_set
    def bi_sorted(self, a, k, st):
        its = self.try_concrete(a[0], st)
        if its is not None and not k and (all(isinstance(x, str) for x in its) or all(isinstance(x, (int, float)) for x in its)):
            r, s = st.alloc(HList(sorted(its))); return [(r, s)]
        c = self.ascoll(a[0], st)
        if c is None or c.order == 'range': return self.bi_list(a, {}, st)
        r, s = st.alloc(HColl(Coll(c.sort, c.mem, elem=c.elem, nonempty=self.nonempty(c, st), distinct=c.distinct, tag=c.tag))); return [(r, s)]
    def bi_reversed(self, a, k, st): return self.bi_sorted(a, {}, st)
    def bi_tuple(self, a, k, st):
        its = self.try_concrete(a[0], st) if a else []
        if its is None: return self.bi_list(a, k, st)
        return [(tuple(its), st)]
    def bi_str(self, a, k, st): return [(self.tostr(a[0]), st)]
    def bi_repr(self, a, k, st):
        if isinstance(a[0], (int, float)): return [(repr(a[0]), st)]
        raise OutOfReach('repr')
    def bi_int(self, a, k, st):
        x = a[0]
        if isinstance(x, (int, float)): return [(int(x), st)]
        if isz(x) and x.sort() == I: return [(x, st)]
        if isz(x) and x.sort() == Rr:   # truncation toward zero
            return [(z3.simplify(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))), st)]
        if isinstance(x, Op): return [(Op('int', x), st)]
        return [(HAVOC, st)] if x is HAVOC else self.oor('int()')
    def bi_float(self, a, k, st):
        x = a[0]
        if isinstance(x, (int, float)): return [(float(x), st)]
        if isz(x) and x.sort() == I: return [(z3.ToReal(x), st)]
        if isz(x) and x.sort() == Rr: return [(x, st)]
        if isinstance(x, Op): return [(Op('float', x), st)]
        return [(HAVOC, st)] if x is HAVOC else self.oor('float()')
    def bi_bool(self, a, k, st): return [(b, s) for b, s in self.truth(a[0], st)]
    def bi_abs(self, a, k, st):
        x = a[0]
        if isinstance(x, (int, float)): return [(abs(x), st)]
        if isz(x) and x.sort() in (I, Rr): return [(z3.If(x >= 0, x, -x), st)]
        return [(Op('abs', x), st)]
    def bi_round(self, a, k, st):
        if all(isinstance(x, (int, float)) for x in a): return [(round(*a), st)]
        return [(Op('round', *a), st)]
    def bi_isinstance(self, a, k, st):
        x, t = a
        if isinstance(t, Builtin) and t.name in ('str', 'int', 'float', 'list', 'dict', 'bool'):
            py = {'str': str, 'int': int, 'float': float, 'bool': bool}.get(t.name)
            if py and isinstance(x, (str, int, float, bool)): return [(isinstance(x, py), st)]
        raise OutOfReach('isinstance')
    def bi_min(self, a, k, st):
        its = a if len(a) > 1 else self.try_concrete(a[0], st)
        if its is not None and all(isinstance(x, (int, float)) for x in its): return [(min(its), st)]
        if its is not None and len(its) == 2 and all(isz(x) or isinstance(x, (int, float)) for x in its):
            x, y = [z if isz(z) else (z3.IntVal(z) if isinstance(z, int) else self.real(z)) for z in its]
            return [(z3.If(x <= y, x, y), st)]
        return [(Op('min', *a), st)]
    def bi_max(self, a, k, st):
        its = a if len(a) > 1 else self.try_concrete(a[0], st)
        if its is not None and all(isinstance(x, (int, float)) for x in its): return [(max(its), st)]
        if its is not None and len(its) == 2 and all(isz(x) or isinstance(x, (int, float)) for x in its):
            x, y = [z if isz(z) else (z3.IntVal(z) if isinstance(z, int) else self.real(z)) for z in its]
            return [(z3.If(x >= y, x, y), st)]
        return [(Op('max', *a), st)]
    def bi_enumerate(self, a, k, st):
        its = self.try_concrete(a[0], st)
        if its is not None: return [(tuple(enumerate(its, *(a[1:]))), st)]
        c = self.ascoll(a[0], st)
        start = a[1] if len(a) > 1 else k.get('start', 0)
        c2 = Coll(c.sort, c.mem, elem=c.elem, nonempty=c.nonempty, distinct=c.distinct, order=c.order, tag=c.tag)
        c2.enum = start
        return [(c2, st)]
    def bi_zip(self, a, k, st):
        its = [self.try_concrete(x, st) for x in a]
        if all(x is not None for x in its): return [(tuple(zip(*its)), st)]
        raise OutOfReach('zip')
    def bi_any(self, a, k, st):
        its = self.concrete_items(a[0], st)
        res = [(False, st)]
        for x in its:
            nxt = []
            for acc, s in res:
                if acc: nxt.append((acc, s)); continue
                nxt += self.truth(x, s)
            res = nxt
        return res
    def bi_all(self, a, k, st):
        its = self.concrete_items(a[0], st)
        res = [(True, st)]
        for x in its:
            nxt = []
            for acc, s in res:
                if not acc: nxt.append((acc, s)); continue
                nxt += self.truth(x, s)
            res = nxt
        return res
    def bi_sum(self, a, k, st):
        its = self.try_concrete(a[0], st)
        if its is not None:
            acc = a[1] if len(a) > 1 else 0
            for x in its: acc = self.arith('+', acc, x)
            return [(acc, st)]
        return [(Op('sum', *a), st)]
    def bi_dict(self, a, k, st):
        if a:
            if isinstance(a[0], SMap): return [(a[0], st)]      # a copy of an input table reads the same
            if isinstance(a[0], Ref) and isinstance(st.heap[a[0].id], HDict): r, s = st.alloc(st.heap[a[0].id]); return [(r, s)]
            raise OutOfReach('dict()')
        r, s = st.alloc(HDict(k)); return [(r, s)]
    def bi_open(self, a, k, st):
        nm = a[0]
        if isinstance(nm, Text) or isinstance(nm, str):
            mach = self.v.machine_for(self, nm, st)
            r, s = st.alloc(HFile(nm if isinstance(nm, str) else str(nm.key()), mach)); return [(r, s)]
        r, s = st.alloc(HFile('?', None)); return [(r, s)]

    def method(self, o, name, args, kw, st):
        if isinstance(o, str):
            if all(isinstance(x, (str, int, tuple, type(None))) for x in args) and name in ('strip', 'split', 'replace', 'upper', 'lower', 'startswith', 'endswith', 'find', 'index', 'lstrip', 'rstrip', 'count', 'isdigit', 'isalpha', 'ljust', 'rjust', 'title'):
                try: r = getattr(o, name)(*args)
                except Exception as x: raise OutOfReach('%s: %r' % (name, x))
                if isinstance(r, list):
                    q, s = st.alloc(HList(r)); return [(q, s)]
                return [(r, st)]
            if name == 'join':
                its = self.concrete_items(args[0], st)
                ps = []
                for i, x in enumerate(its):
                    if i: ps.append(o)
                    if not isinstance(x, (str, Text)): raise OutOfReach('join of %s' % type(x).__name__)
                    ps.append(x)
                return [(self.mktext(ps), st)]
            if name == 'format':
                parts, k, i = [], 0, 0
                import string
                try:
                    for lit, fld, spec, conv in string.Formatter().parse(o):
                        parts.append(lit)
                        if fld is not None:
                            if spec or conv: raise OutOfReach('format specification')
                            if fld == '': x = args[k]; k += 1
                            elif fld.isdigit(): x = args[int(fld)]
                            elif fld in kw: x = kw[fld]
                            else: raise OutOfReach('format field')
                            parts.append(self.tostr(x))
                except (ValueError, IndexError) as x: raise OutOfReach('format: %r' % x)
                return [(self.mktext(parts), st)]
        if isinstance(o, SMap): return self.v.method(self, o, name, args, kw, st)
        if isinstance(o, Ref):
            ob = st.heap[o.id]
            if isinstance(ob, HFile):
                if name == 'write': return self.fwrite(o, ob, args[0], st)
                if name == 'writelines':
                    sts = [st]
                    for x in self.concrete_items(args[0], st):
                        nx = []
                        for s in sts: nx += [q for _, q in self.fwrite(o, s.heap[o.id], x, s)]
                        sts = nx
                    return [(None, s) for s in sts]
                if name in ('close', 'flush', '__exit__'): return [(None, st)]
            if isinstance(ob, (HList, HColl, HAcc)):
                if name == 'append': return [(None, s) for s in self.append(o, ob, args[0], st)]
                if name == 'add':
                    out = []
                    if isinstance(ob, HList):
                        for x, s in self.contains(o, args[0], st):
                            for b, s2 in self.truth(x, s): out += [(None, q) for q in ([s2] if b else self.append(o, s2.heap[o.id], args[0], s2))]
                        return out
                    return [(None, s) for s in self.append(o, ob, args[0], st, True)]
                if name == 'extend' or name == 'update':
                    r, s = self.concat(o, args[0], st)[0]
                    nob = s.heap[r.id]
                    if name == 'update' and isinstance(nob, HColl): nob = HColl(Coll(nob.coll.sort, nob.coll.mem, nonempty=nob.coll.nonempty, distinct=True))
                    return [(None, s.put(o, nob))]
                if name == 'copy': r, s = st.alloc(ob); return [(r, s)]
                if name in ('sort', 'reverse'): return [(None, st)]
                if name == 'union':
                    r, s = self.concat(o, args[0], st)[0]
                    return self.bi_set((r,), {}, s)
                if name == 'index' and isinstance(ob, HList) and all(isinstance(x, (str, int)) for x in ob.items) and isinstance(args[0], (str, int)): return [(ob.items.index(args[0]), st)]
            if isinstance(ob, HHavoc):
                if name in ('append', 'extend', 'add', 'update', 'sort', 'insert'): return [(None, st)]
                return [(HAVOC, st)]
            if isinstance(ob, HDict):
                if name in ('keys', 'values', 'items') and not ob.items.get('%open'):
                    ks = [k.v if isinstance(k, (ZK, OpK)) else k for k in ob.items]
                    r = {'keys': ks, 'values': list(ob.items.values()), 'items': [(k, v) for k, v in zip(ks, ob.items.values())]}[name]
                    q, s = st.alloc(HList(r)); return [(q, s)]
                if name == 'get' and not ob.items.get('%open'):
                    out = []
                    for x, s in self.contains(o, args[0], st):
                        for b, s2 in self.truth(x, s):
                            out += self.getitem(o, args[0], s2) if b else [(args[1] if len(args) > 1 else None, s2)]
                    return out
                if name == 'copy': r, s = st.alloc(ob); return [(r, s)]
            if isinstance(ob, HMat):
                if name in ('tocsr', 'tocsc', 'tocoo', 'tolil', 'copy'): r, s = st.alloc(HMat(ob.val, ob.tag if name == 'copy' else name[2:])); return [(r, s)]
        if isinstance(o, Coll):
            return self.method_coll(o, name, args, st)
        if isinstance(o, Op): return [(Op('.' + name, o, *args), st)]
        raise OutOfReach('method %s of %s' % (name, type(st.heap[o.id]).__name__ if isinstance(o, Ref) else type(o).__name__))
    def method_coll(self, o, name, args, st):
        raise OutOfReach('method %s of a collection' % name)
    def append(self, ref, ob, x, st, asset=False):
        if isinstance(ob, HList): return [st.put(ref, HList(ob.items + (x,)))]
        if isinstance(ob, HAcc):
            return self.acc_add(ref, ob, x, st)
        c = ob.coll
        if isinstance(x, str): x = self.v.lit(x)
        if not (isz(x) and x.sort() == c.sort): raise OutOfReach('append to a list of another kind')
        p = placeholder(c.sort)
        return [st.put(ref, HColl(Coll(c.sort, z3.simplify(z3.Or(c.mem, p == x)), nonempty=z3.BoolVal(True), distinct=asset)))]
    def acc_add(self, ref, ob, x, st):
        outs = [(ob, st)]
        if not (isz(x) and x.sort() in (I, Rr)) and not isinstance(x, (int, float)): raise OutOfReach('element of a list of positions')
        for k, t in enumerate(self.vals_tracked):
            nxt = []
            for o, s in outs:
                for b, s2 in self.truth(self.eq(x, t, s), s):
                    c = dict(o.counts)
                    if b: c[k] = min(c.get(k, 0) + 1, 2)
                    nxt.append((HAcc(c), s2))
            outs = nxt
        h = self.hooks.get('acc')
        if h: h(self, st, x)
        return [s.put(ref, o) for o, s in outs]
    def fwrite(self, ref, f, x, st):
        if f.mach is None: return [(None, st)]
        if not isinstance(x, (str, Text)): raise OutOfReach('write of %s' % type(x).__name__)
        res = []
        for m, s in f.mach.feed(self, x, st): res.append((None, s.put(ref, HFile(f.name, m))))
        return res

    # ---- statements ------------------------------------------------------------------------------
    def block(self, stmts, states):
        """[(signal, value, state)]"""
        live, out = list(states), []
        for stmt in stmts:
            nxt = []
            for s in live:
                for sig, v, s2 in self.stmt(stmt, s):
                    if sig == NORMAL: nxt.append(s2)
                    else: out.append((sig, v, s2))
            live = merge(nxt) if len(nxt) > 1 else nxt
            self.stats['states'] += len(live)
            if self.deadline and time.time() > self.deadline: raise OutOfReach('time limit of this obligation')
            if len(live) > self.cap: raise OutOfReach('too many states')
            if not live: break
        return [(NORMAL, None, s) for s in live] + out
    def stmt(self, n, st):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None: raise OutOfReach('%s at line %d' % (type(n).__name__, n.lineno))
        try:
            return m(n, st)
        except OutOfReach as x:
            if not getattr(x, 'line', None):
                x.line = n.lineno; x.args = ('%s (line %d)' % (x.args[0] if x.args else '', n.lineno),)
            raise
    def st_Pass(self, n, st): return [(NORMAL, None, st)]
    def st_Import(self, n, st):
        for a in n.names:
            st = st.setvar((a.asname or a.name).split('.')[0], Builtin(a.name if a.asname else a.name.split('.')[0]))
        return [(NORMAL, None, st)]
    def st_ImportFrom(self, n, st):
        for a in n.names: st = st.setvar(a.asname or a.name, Builtin('%s.%s' % (n.module, a.name)))
        return [(NORMAL, None, st)]
    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant): return [(NORMAL, None, st)]
        return [(NORMAL, None, s) for _, s in self.ev(n.value, st)]
    def st_FunctionDef(self, n, st): return [(NORMAL, None, st.setvar(n.name, Fn(n, st.fid)))]
    def st_Return(self, n, st):
        if n.value is None: return [(RET, None, st)]
        return [(RET, v, s) for v, s in self.ev(n.value, st)]
    def st_Break(self, n, st): return [(BRK, None, st)]
    def st_Continue(self, n, st): return [(CONT, None, st)]
    def st_Raise(self, n, st): return [(EXC, None, st)]
    def st_Assert(self, n, st):
        out = []
        for v, s in self.ev(n.test, st):
            for b, s2 in self.truth(v, s): out.append((NORMAL, None, s2) if b else (EXC, None, s2))
        return out
    def st_Global(self, n, st): raise OutOfReach('global')
    def st_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st = st.copy(); st.frames = dict(st.frames); fr = dict(st.frames[st.fid]); fr.pop(t.id, None); st.frames[st.fid] = fr
            else: raise OutOfReach('del')
        return [(NORMAL, None, st)]
    def st_If(self, n, st):
        out = []
        for c, s in self.ev(n.test, st):
            for b, s2 in self.truth(c, s): out += self.block(n.body if b else n.orelse, [s2])
        return out
    def st_With(self, n, st):
        live = [st]
        for it in n.items:
            nxt = []
            for s in live:
                for v, s2 in self.ev(it.context_expr, s):
                    if it.optional_vars is not None: nxt += self.assign(it.optional_vars, v, s2)
                    else: nxt.append(s2)
            live = nxt
        return self.block(n.body, live)
    def st_Try(self, n, st):
        outs = self.block(n.body, [st])
        res = []
        for sig, v, s in outs:
            if sig == EXC:
                if not n.handlers: res.append((sig, v, s)); continue
                res += self.block(n.handlers[0].body, [s])
            elif sig == NORMAL: res += self.block(n.orelse, [s]) if n.orelse else [(sig, v, s)]
            else: res.append((sig, v, s))
        if n.finalbody: raise OutOfReach('finally')
        return res
    def st_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            live = [s]
            for t in n.targets:
                nxt = []
                for s1 in live: nxt += self.assign(t, v, s1)
                live = nxt
            out += [(NORMAL, None, s1) for s1 in live]
        return out
    def st_AnnAssign(self, n, st):
        if n.value is None: return [(NORMAL, None, st)]
        out = []
        for v, s in self.ev(n.value, st): out += [(NORMAL, None, x) for x in self.assign(n.target, v, s)]
        return out
    def st_AugAssign(self, n, st):
        op = self.OPS.get(type(n.op))
        out = []
        if isinstance(n.target, ast.Name):
            for a, s in self.ev(ast.Name(id=n.target.id, ctx=ast.Load(), lineno=n.lineno), st):
                for b, s2 in self.ev(n.value, s):
                    if op == '+' and isinstance(a, Ref):
                        for _, s3 in self.method(a, 'extend', (b,), {}, s2): out.append((NORMAL, None, s3))
                        continue
                    for v, s3 in self.binop(op, a, b, s2): out.append((NORMAL, None, s3.setvar(n.target.id, v)))
            return out
        if isinstance(n.target, ast.Subscript):
            for o, s in self.ev(n.target.value, st):
                for k, s2 in self.ev(n.target.slice, s):
                    for a, s3 in self.getitem(o, k, s2):
                        for b, s4 in self.ev(n.value, s3):
                            for v, s5 in self.binop(op, a, b, s4):
                                out += [(NORMAL, None, x) for x in self.setitem(o, k, v, s5)]
            return out
        raise OutOfReach('augmented assignment')
    def assign1(self, t, v, st):
        r = self.assign(t, v, st)
        if len(r) != 1: raise OutOfReach('assignment')
        return r[0]
    def assign(self, t, v, st):
        if isinstance(t, ast.Name): return [st.setvar(t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Op):
                vs = [Op('item', v, i) for i in range(len(t.elts))]
            elif v is HAVOC: vs = [HAVOC] * len(t.elts)
            else: vs = self.concrete_items(v, st)
            if len(vs) != len(t.elts): raise OutOfReach('unpacking')
            live = [st]
            for x, y in zip(t.elts, vs):
                nxt = []
                for s in live: nxt += self.assign(x, y, s)
                live = nxt
            return live
        if isinstance(t, ast.Subscript):
            out = []
            for o, s in self.ev(t.value, st):
                for k, s2 in self.ev(t.slice, s): out += self.setitem(o, k, v, s2)
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for o, s in self.ev(t.value, st):
                h = self.hooks.get('setattr')
                if not h: raise OutOfReach('attribute assignment')
                out += h(self, s, o, t.attr, v)
            return out
        raise OutOfReach('assignment target')
    def setitem(self, o, k, v, st):
        h = self.hooks.get('setitem')
        if h:
            r = h(self, st, o, k, v)
            if r is not None: return r
        if o is HAVOC: return [st]
        if isinstance(o, Ref):
            ob = st.heap[o.id]
            if isinstance(ob, HHavoc): return [st]
            if isinstance(ob, HMat):
                out = []
                for b, s in self.matcell(k, st): out.append(s.put(o, HMat(v, ob.tag)) if b else s)
                return out
            if isinstance(ob, HDict):
                d = dict(ob.items); d[self.ckey(k)] = v
                return [st.put(o, HDict(d))]
            if isinstance(ob, HList):
                if isinstance(k, int) and -len(ob.items) <= k < len(ob.items):
                    it = list(ob.items); it[k] = v; return [st.put(o, HList(it))]
                return [st.put(o, HHavoc())]
            if isinstance(ob, (HColl, HAcc)): return [st.put(o, HHavoc())]
        if isinstance(o, SMap): return self.v.setitem(self, o, k, v, st)
        raise OutOfReach('item assignment to %s' % (type(st.heap[o.id]).__name__ if isinstance(o, Ref) else type(o).__name__))

    # ---- loops -----------------------------------------------------------------------------------
    def assigned(self, body):
        out = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
        return out
    def st_For(self, n, st):
        out = []
        for c, s in self.ev(n.iter, st):
            its = self.try_concrete(c, s)
            if its is not None and len(its) > 200 and all(isinstance(x, str) for x in its):
                c = self.v.literal_list(self, tuple(its)); its = None
            if its is not None: out += self.for_concrete(n, its, s)
            else:
                if isinstance(c, Ref) and isinstance(s.heap[c.id], HHavoc) or c is HAVOC: raise OutOfReach('loop over an untracked list')
                if isinstance(c, Op):
                    h = self.hooks.get('for')
                    if not h: raise OutOfReach('loop over %r' % c)
                    out += h(self, s, n, c); continue
                r = self.collecting(n, s)
                if r is not None: out += r; continue
                out += self.for_symbolic(n, self.ascoll(c, s), s)
        return out
    def collecting(self, n, st):
        """a loop that only appends to a list is the list it builds: `for t in c: [v = d] [if b:] x.append(e)` is x.extend(e for t in c if b)"""
        k = id(n)
        if k not in self.collcache: self.collcache[k] = as_comprehension(n)
        if self.collcache[k] is None: return None
        name, comp = self.collcache[k]
        try: ref = self.lookup(name, st)
        except OutOfReach: return None
        if not isinstance(ref, Ref) or not isinstance(st.heap[ref.id], (HList, HColl)): return None
        if isinstance(st.heap[ref.id], HList) and st.heap[ref.id].items: return None
        n0 = len(self.vcs)
        try:
            out = []
            for v, s in self.ev_ListComp(comp, st):
                if not (isinstance(v, Ref) and isinstance(s.heap[v.id], HColl)): return None
                if isinstance(s.heap[ref.id], HList): s2s = [s.put(ref, HColl(s.heap[v.id].coll))]
                else: s2s = [s2.put(ref, s2.heap[r.id]) for r, s2 in self.concat(ref, v, s)]
                for s2 in s2s:
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name): s2 = s2.setvar(x.id, HAVOC)
                    out.append((NORMAL, None, s2))
            return out
        except OutOfReach:
            if len(self.vcs) != n0: raise
            return None
    def for_concrete(self, n, its, st):
        live, out = [st], []
        for it in its:
            nxt = []
            for s in live:
                for s1 in self.assign(n.target, it, s):
                    for sig, v, s2 in self.block(n.body, [s1]):
                        if sig in (NORMAL, CONT): nxt.append(s2)
                        elif sig == BRK: out.append((NORMAL, None, s2))
                        else: out.append((sig, v, s2))
            live = merge(nxt)
            if len(live) > self.cap: raise OutOfReach('too many states')
        for s in live:
            if n.orelse: out += self.block(n.orelse, [s])
            else: out.append((NORMAL, None, s))
        return out
    def loopid(self, n): return '%d_%d' % (n.lineno, n.col_offset)
    def canon(self, st, lid, own, changed, widened, entry={}):
        """forget this loop's own symbols; returns [state]"""
        # 1. integers changed by the loop: widen
        for var in changed:
            x = st.frames[st.fid].get(var)
            if isz(x) and x.sort() == I and not any(self.own(n, own) for n in zsyms(x)) and any(n.startswith('w!') for n in zsyms(x)): widened.setdefault((st.fid, var), None)
        for (fid, var), bound in widened.items():
            if fid not in st.frames: continue
            x = st.frames[fid].get(var)
            if isinstance(x, bool) or x is None: continue
            if isinstance(x, int) and (bound is None or x < bound):
                if bound is not None: continue
            w = z3.Int('w!%s!%s' % (lid, var))
            if isinstance(x, int) or (isz(x) and x.sort() == I):
                ok = bound is not None and self.entails(st, (x if isz(x) else z3.IntVal(x)) >= bound)
                if bound is not None and not ok:
                    widened[(fid, var)] = None; bound = None
                st = st.setvar(var, ('%W', w, bound), fid)
        def mentions(v): return any(self.own(n, own) for n in syms(v))
        for i, o in st.heap.items():
            if isinstance(o, HFile) and o.mach is not None:
                m = o.mach.tidy(self, st)
                if m is not o.mach: st = st.put(Ref(i), HFile(o.name, m))
        st = self.v.forget(self, st)
        if any(isz(p) for p in st.pc):
            for f in self.v.summaries(self, st):
                if not any(eid(f) == eid(p) for p in st.pc) and self.entails(st, f): st = st.assume(f)
        # 2. collections that mention own symbols: fix their members among the foci
        states = [st]
        targets = []
        reach = st.reach()
        for f in sorted(st.frames):
            for k, v in st.frames[f].items():
                if isinstance(v, Coll) and mentions(v): targets.append(('v', f, k))
        for i in reach:
            o = st.heap[i]
            if isinstance(o, HColl) and mentions(o.coll): targets.append(('h', i, None))
            elif isinstance(o, HList) and (mentions(o.items) or (len(o.items) != entry[i] if i in entry else len(o.items) > 6)): targets.append(('h', i, None))
        for kind, a, b in targets:
            nxt = []
            for s in states:
                if kind == 'v': c = s.frames[a][b]
                else:
                    o = s.heap[a]
                    if isinstance(o, HList):
                        nxt += self.abstract_list(s, a, o, '%s_h%d' % (lid, reach[a])); continue
                    c = o.coll
                tag = '%s_%s_%s' % (lid, a, b) if kind == 'v' else '%s_h%d' % (lid, reach[a])
                for c2, s2 in self.abstract_coll(c, s, tag, mentions):
                    nxt.append(s2.setvar(b, c2, a) if kind == 'v' else s2.put(Ref(a), HColl(c2)))
            states = nxt
        # 3. scrub
        res = []
        for s in states:
            if targets:
                for f in self.v.summaries(self, s):
                    if not any(eid(f) == eid(p) for p in s.pc) and self.entails(s, f): s = s.assume(f)
            s = s.copy()
            s.pc = tuple(p for p in s.pc if not any(self.own(n, own) for n in zsyms(p)))
            if s.extra.get('touched'):
                s.extra = dict(s.extra)
                s.extra['touched'] = frozenset(q for q in s.extra['touched'] if not any(self.own(n, own) for n in zsyms(KEEP[q[1]])))
            fr2 = {}
            for f, fr in s.frames.items():
                d = {}
                for k, v in fr.items():
                    if isinstance(v, tuple) and v and v[0] == '%W': d[k] = v[1]; continue
                    d[k] = HAVOC if mentions(v) and not isinstance(v, Coll) else v
                fr2[f] = d
            s.frames = fr2
            hp = {}
            for i, o in s.heap.items():
                if isinstance(o, HFile) and o.mach is not None: hp[i] = HFile(o.name, o.mach.scrub(lambda nm: self.own(nm, own)))
                elif isinstance(o, HMat) and mentions(o.val): hp[i] = HMat(HAVOC, o.tag)
                elif isinstance(o, HDict) and any(mentions(x) for kv in o.items.items() for x in kv): hp[i] = HHavoc()
                else: hp[i] = o
            s.heap = hp
            for (fid, var), bound in widened.items():
                if fid in s.frames and isz(s.frames[fid].get(var)) and bound is not None:
                    w = z3.Int('w!%s!%s' % (lid, var))
                    if eid(s.frames[fid][var]) == eid(w): s = s.assume(w >= bound)
            res.append(self.gcpc(self.v.forget(self, s)))
        return res
    def gcpc(self, st):
        """drop assumptions about counters no variable holds any more"""
        tmp = [[n for n in zsyms(p) if n.startswith('w!')] for p in st.pc]
        if not any(tmp): return st
        live = set()
        for fr in st.frames.values():
            for v in fr.values(): syms(v, live)
        for o in st.heap.values(): live |= o.vsyms() if hasattr(o, 'vsyms') else set()
        s = st.copy(); s.pc = tuple(p for p, t in zip(st.pc, tmp) if all(n in live for n in t))
        return s
    def own(self, nm, own):
        return nm in own or any(nm.startswith(p) for p in own if p.endswith('!'))
    def abstract_coll(self, c, st, tag, mentions):
        p = placeholder(c.sort)
        foci = self.v.foci(self, st, c.sort)
        acc = [((), st)]
        for f in foci:
            nxt = []
            phi = z3.simplify(c.has(f))
            for bs, s in acc:
                for b, s2 in (self.truth(phi, s) if mentions(phi) else [(phi, s)]):
                    if b is False and z3.is_or(phi): s2 = s2.assume(*[z3.simplify(z3.Not(x)) for x in phi.children() if not mentions(x) and not self.entails(s, z3.Not(x))])
                    nxt.append((bs + (b,), s2))
            acc = nxt
        U = z3.Function('U!%s!' % tag, c.sort, B)
        out = []
        for bs, s in acc:
            e = U(p)
            for f, b in zip(foci, bs): e = z3.If(p == f, z3.BoolVal(b) if isinstance(b, bool) else b, e)
            ne = c.nonempty
            if ne is not None and mentions(ne):
                for b, s2 in self.truth(ne, s):
                    out.append((Coll(c.sort, e, elem=c.elem if vkey(c.elem) == vkey(placeholder(c.sort)) or not mentions(c.elem) else self.oor('list of tuples'), nonempty=z3.BoolVal(b), distinct=c.distinct, tag='acc'), s2))
                continue
            out.append((Coll(c.sort, e, elem=c.elem if vkey(c.elem) == vkey(placeholder(c.sort)) or not mentions(c.elem) else self.oor('list of tuples'), nonempty=ne if ne is not None else z3.Bool('ne!U!%s!' % tag), distinct=c.distinct, tag='acc'), s))
        return out
    def abstract_list(self, st, hid, o, tag):
        its = o.items
        if not its: return [st]
        zs = [self.v.lit(x) if isinstance(x, str) else x for x in its]
        if zs and all(isz(x) and x.sort() == Name for x in zs):
            c = self.ascoll(Ref(hid), st)
            out = []
            for c2, s2 in self.abstract_coll(c, st, tag, lambda v: True): out.append(s2.put(Ref(hid), HColl(c2)))
            return out
        if self.vals_tracked and zs and all((isz(x) and x.sort() in (I, Rr)) or isinstance(x, (int, float)) for x in zs):
            sts = [st.put(Ref(hid), HAcc({}))]
            for x in zs:
                nxt = []
                for s in sts: nxt += self.acc_add(Ref(hid), s.heap[hid], x, s)
                sts = nxt
            return sts
        if self.foci.get('Int') and zs and all(isz(x) and x.sort() == I for x in zs):
            c = self.ascoll(Ref(hid), st)
            out = []
            for c2, s2 in self.abstract_coll(c, st, tag, lambda v: True): out.append(s2.put(Ref(hid), HColl(c2)))
            return out
        return [st.put(Ref(hid), HHavoc())]
    PURE = {'set', 'list', 'len', 'str', 'sorted', 'range', 'tuple', 'enumerate', 'int', 'float', 'dict', 'zip', 'min', 'max', 'abs', 'bool'}
    PUREM = {'items', 'keys', 'values', 'get', 'copy', 'index', 'count', 'format', 'join', 'union'}
    def skippable(self, n, st):
        """variables a loop assigns and lists it changes, if all it can do to the files is to continue a line that is of no interest.
        (Lookups in such a loop are examined when the cell it writes is the focus cell: the foci are arbitrary.)"""
        ms = [o for o in st.heap.values() if isinstance(o, HFile) and o.mach is not None]
        if len(ms) != 1 or ms[0].mach.mode != 'skip': return None
        f90 = ms[0].mach.spec.dialect == 'f90'
        mut = set()
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Return, ast.Raise, ast.FunctionDef, ast.Lambda, ast.While, ast.Try, ast.With, ast.Yield, ast.Global, ast.Nonlocal, ast.Delete, ast.Import, ast.ImportFrom)): return None
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store): return None
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name): mut.add(x.target.id)
                if isinstance(x, ast.Call):
                    g = x.func
                    if isinstance(g, ast.Name) and g.id in self.PURE and not any(g.id in fr for fr in st.frames.values()) and g.id not in self.globals: continue
                    if not isinstance(g, ast.Attribute): return None
                    if g.attr in self.PUREM: continue
                    if not isinstance(g.value, ast.Name): return None
                    v = st.frames[st.fid].get(g.value.id)
                    if g.attr in ('append', 'extend', 'add', 'sort'): mut.add(g.value.id); continue
                    if g.attr == 'write' and isinstance(v, Ref) and isinstance(st.heap[v.id], HFile) and len(x.args) == 1: continue
                    return None
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and not (re.fullmatch(r'(?:[^&\n]|& *\n)*', x.value) if f90 else '\n' not in x.value): return None
        return self.assigned(n.body) | self.assigned([ast.Assign(targets=[n.target], value=ast.Constant(0))]), mut
    def skiploop(self, n, st, names, mut):
        lid = self.loopid(n)
        st = st.copy()
        for i, o in list(st.heap.items()):
            if isinstance(o, HFile) and o.mach is not None: st.heap = dict(st.heap); st.heap[i] = HFile(o.name, o.mach.set(tok=''))
        for v in mut:
            x = st.frames[st.fid].get(v)
            if isinstance(x, Ref) and not isinstance(st.heap[x.id], HFile): st = st.put(x, HHavoc())
            elif x is not None and not isinstance(x, Ref) and v not in names: names = names | {v}
        for v in names:
            if v not in st.frames[st.fid]: x = HAVOC
            else:
                x = st.frames[st.fid][v]
                x = z3.Int('w!skip%s!%s' % (lid, v)) if not isinstance(x, bool) and (isinstance(x, int) or (isz(x) and x.sort() == I)) else HAVOC
            st = st.setvar(v, x)
        gone = tuple(p for p in st.pc if any(q.startswith('w!skip%s!' % lid) for q in zsyms(p)))
        if gone: st = st.copy(); st.pc = tuple(p for p in st.pc if not any(q.startswith('w!skip%s!' % lid) for q in zsyms(p)))
        return [(NORMAL, None, st)]
    def for_symbolic(self, n, coll, st):
        if n.orelse: raise OutOfReach('for ... else')
        if coll is None: return [(NORMAL, None, st)]
        sk = self.skippable(n, st)
        if sk: return self.skiploop(n, st, *sk)
        mk = ('L', self.loopid(n), tuple(getattr(x, 'lineno', 0) for x in self.callstack), coll.key(), getattr(coll, 'enum', None), st.fingerprint(), pckey(st.pc))
        rest = self.v.frame(self, st, coll)
        if rest:
            ids = pckey(rest)
            st = st.copy(); st.pc = tuple(p for p in st.pc if eid(p) not in ids)
            out = []
            for sig, v, s in self.for_symbolic(n, coll, st):
                s = s.assume(*rest)
                if self.feasible(s): out.append((sig, v, s))
            return out
        if mk not in self.gmemo: self.gmemo[mk] = self.for_symbolic1(n, coll, st)
        return self.gmemo[mk]
    def for_symbolic1(self, n, coll, st):
        lid = self.loopid(n) + '_' + '_'.join(str(getattr(x, 'lineno', 0)) for x in self.callstack)
        gname = 'g!%s' % lid
        ownp = OwnSet(gname, ('w!%s!' % lid, 'U!%s_' % lid, 'ne!U!%s_' % lid, 'k!%s!' % lid))
        g = z3.Const(gname, coll.sort)
        foci = self.v.foci(self, st, coll.sort)
        changed = self.assigned(n.body)
        fid = st.fid
        widened, seenvals = {}, {}
        done = {}          # (visited, zero) -> fingerprint -> [pckey]
        out = []
        enum = getattr(coll, 'enum', None)
        ctr = '%%enum%s' % lid
        if enum is not None:
            st = st.setvar(ctr, enum); changed = changed | {ctr}
        entry = {i: len(o.items) for i, o in st.heap.items() if isinstance(o, HList)}
        init = self.canon_entry(st, lid, ownp, changed, widened)
        work = [(s, frozenset(), True) for s in init]
        exits = []
        live = None
        if self.callstack and isinstance(self.callstack[-1], ast.FunctionDef):
            hl, always = head_live(self.callstack[-1], n)
            if hl is not None: live = hl | always
        while work:
            batch, work = work, []
            groups = {}
            for s, vis, zero in batch:
                if live is not None: s = self.drop_dead(s, fid, live)
                # widening
                for var in changed:
                    x = s.frames[fid].get(var)
                    if isinstance(x, int) and not isinstance(x, bool) and (fid, var) not in widened:
                        sv = seenvals.setdefault(var, set()); sv.add(x)
                        if len(sv) > 2: widened[(fid, var)] = sorted(sv)[1] if all(y >= 0 for y in sv) else None
                if coll.sort == I: s = self.v.settle(self, s)
                groups.setdefault((vis, zero), []).extend(self.canon(s, lid, ownp, changed, widened, entry))
            for (vis, zero), sts in sorted(groups.items(), key=lambda kv: len(kv[0][0])):
              for s in merge(sts):
                k1 = (vis, zero, s.fingerprint()); pk = pckey(s.pc)
                olds = done.setdefault(k1, [])
                if any(o <= pk for o in olds): continue
                olds.append(pk)
                self.stats['heads'] += 1
                if sum(len(x) for x in done.values()) > self.cap: raise OutOfReach('too many states at the head of the loop at line %d' % n.lineno)
                if self.deadline and time.time() > self.deadline: raise OutOfReach('time limit of this obligation')
                ne = self.nonempty(coll, s)
                # exit
                se = s.assume(*[z3.simplify(z3.Not(coll.has(f))) for f in foci if f not in vis])
                if zero: se = se.assume(z3.simplify(z3.Not(ne)))
                if self.feasible(se): exits.append(se)
                # iterations
                cands = []
                sg = s.assume(*[g != f for f in foci], z3.simplify(coll.has(g)), *([ne] if zero else []))
                if coll.order == 'range': sg = sg.assume(g == 0) if zero else sg.assume(g >= 1)
                for f in self.v.generic_facts(self, coll, g): sg = sg.assume(f)
                cands.append((g, sg, vis))
                for f in foci:
                    if f in vis and coll.distinct: continue
                    sf = s.assume(z3.simplify(coll.has(f)), *([ne] if zero else []))
                    if coll.order == 'range': sf = sf.assume(f == 0) if zero else sf.assume(f >= 1)
                    cands.append((f, sf, vis | {f}))
                for t, sx, vis2 in cands:
                    rest = ()
                    if self.weaken and t is g and self.v.canweaken(self, s, coll):
                        # what is known about the foci is set aside during an iteration about another element, and put back afterwards
                        keep = tuple(p for p in s.pc if eid(p) in self.base or any(q.startswith(('g!', 'w!')) for q in zsyms(p)))
                        ids = pckey(keep); rest = tuple(p for p in s.pc if eid(p) not in ids)
                        sx = sx.copy(); sx.pc = tuple(p for p in sx.pc if eid(p) in ids or not any(p is q for q in rest))
                        mk = (lid, zero, coll.key(), s.fingerprint(), pckey(sx.pc))
                        if mk not in self.gmemo:
                            self.gmemo[mk] = self.iteration(n, coll, t, sx, fid, enum, ctr)
                        for sig, v, s2 in self.gmemo[mk]:
                            s2 = s2.assume(*rest)
                            if sig in (NORMAL, CONT): work.append((s2, vis2, False))
                            elif sig == BRK: exits.append(s2)
                            else: out.append((sig, v, s2))
                        continue
                    for sig, v, s2 in self.iteration(n, coll, t, sx, fid, enum, ctr):
                        if sig in (NORMAL, CONT): work.append((s2, vis2, False))
                        elif sig == BRK: exits.append(s2)
                        else: out.append((sig, v, s2))
        fin = []
        for s in exits: fin += self.canon_exit(s, lid, OwnSet(gname, ('k!%s!' % lid,)))
        return out + [(NORMAL, None, s) for s in merge(fin)]
    def iteration(self, n, coll, t, sx, fid, enum, ctr):
        if not self.feasible(sx): return []
        el = coll.at(t)
        if enum is not None:
            el = (sx.frames[fid][ctr], el)
            sx = sx.setvar(ctr, self.arith('+', el[0], 1))
        res = []
        for s1 in self.assign(n.target, el, sx): res += self.block(n.body, [s1])
        return res
    def drop_dead(self, st, fid, live):
        fr = st.frames[fid]
        dead = [k for k in fr if k not in live and not k.startswith('%')]
        if not dead: return st
        s = st.copy(); s.frames = dict(s.frames); s.frames[fid] = {k: v for k, v in fr.items() if k not in dead}
        return s
    def canon_entry(self, st, lid, own, changed, widened):
        return self.canon(st, lid, own, changed, widened) if self.mentions_any(st, own) else [st]
    def canon_exit(self, st, lid, own):
        return self.canon(st, lid, own, set(), {}) if self.mentions_any(st, own) else [st]
    def mentions_any(self, st, own):
        f = lambda v: any(self.own(n, own) for n in syms(v))
        if any(any(self.own(n, own) for n in zsyms(p)) for p in st.pc): return True
        if any(f(v) for fr in st.frames.values() for v in fr.values()): return True
        return any(f(o) for o in st.heap.values())
    def st_While(self, n, st):
        h = self.hooks.get('while')
        if h:
            r = h(self, st, n)
            if r is not None: return r
        # concrete unrolling only
        live, out = [st], []
        for _ in range(64):
            nxt = []
            for s in live:
                for c, s1 in self.ev(n.test, s):
                    for b, s2 in self.truth(c, s1):
                        if not b: out.append((NORMAL, None, s2)); continue
                        for sig, v, s3 in self.block(n.body, [s2]):
                            if sig in (NORMAL, CONT): nxt.append(s3)
                            elif sig == BRK: out.append((NORMAL, None, s3))
                            else: out.append((sig, v, s3))
            live = merge(nxt)
            if not live: return out
        raise OutOfReach('while loop at line %d' % n.lineno)

def as_comprehension(n):
    """(name, comprehension) when the loop does nothing but append to the list `name`"""
    import copy as cp
    if n.orelse: return None
    ifs, sub = [], {}
    class S(ast.NodeTransformer):
        def visit_Name(self, x): return cp.deepcopy(sub[x.id]) if isinstance(x.ctx, ast.Load) and x.id in sub else x
    def put(e): return S().visit(cp.deepcopy(e))
    body = list(n.body)
    while True:
        s = body[0]
        if isinstance(s, ast.Pass) and len(body) > 1: body = body[1:]; continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and len(body) > 1 and not any(isinstance(x, (ast.Call, ast.Lambda)) for x in ast.walk(s.value)):
            sub[s.targets[0].id] = put(s.value); body = body[1:]; continue
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and len(body) > 1:
            ifs.append(ast.UnaryOp(ast.Not(), put(s.test))); body = body[1:]; continue
        if isinstance(s, ast.If) and not s.orelse and len(body) == 1: ifs.append(put(s.test)); body = list(s.body); continue
        break
    s = body[0]
    if len(body) != 1 or not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append'
                              and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1 and not s.value.keywords): return None
    x = s.value.func.value.id
    c = ast.ListComp(put(s.value.args[0]), [ast.comprehension(cp.deepcopy(n.target), n.iter, ifs, 0)])
    if any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(c)) or any(isinstance(y, ast.Name) and y.id in sub for y in ast.walk(n.target)): return None
    ast.copy_location(c, n); ast.fix_missing_locations(c)
    return x, c
class OwnSet:
    def __init__(self, exact, prefixes): self.exact, self.prefixes = exact, prefixes
    def __contains__(self, x): return x == self.exact or any(x.startswith(p) for p in self.prefixes)
    def __iter__(self): return iter(())
class ZK:
    def __init__(self, v): self.v = v
    def __hash__(self): return eid(self.v)
    def __eq__(self, o): return isinstance(o, ZK) and eid(o.v) == eid(self.v)
    def key(self): return ('zk', eid(self.v))
class OpK:
    def __init__(self, v): self.v = v
    def __hash__(self): return hash(self.v.key())
    def __eq__(self, o): return isinstance(o, OpK) and o.v.key() == self.v.key()
    def key(self): return self.v.key()

BUILTINS = set('print len range list set frozenset sorted reversed tuple str repr int float bool abs round isinstance min max enumerate zip any all sum dict open'.split()) | {'Exception', 'ValueError', 'KeyError', 'IndexError', 'type', 'map', 'filter', 'hash', 'iter', 'next', 'object', 'slice', 'divmod', 'pow'}
