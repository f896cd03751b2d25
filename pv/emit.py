"""Contracts of the code generators: the tables they read (Vocab) and the text they write (Mach).

Vocab is the contract of extract_mechanism as the writers may rely on it (uninterpreted tables with the facts listed in
`facts`).  Mach reads the text that reaches the generated file, piece by piece, and keeps the meaning of one focus cell
(row, column, reaction are free constants): the same text the real file contains, holes standing for the symbolic values.
"""
import ast, os, re, time
from fractions import Fraction
import z3
from .sym import *
from . import sym
from .common import REPO

E, N = z3.Ints('E N')
idx = z3.Function('idx', Name, I)
SP = z3.Function('SP', Name, B)
Lk, Gk = z3.Function('Lk', Name, I, B), z3.Function('Gk', Name, I, B)
Lv, Gv = z3.Function('Lv', Name, I, Rr), z3.Function('Gv', Name, I, Rr)
KL, KG, NEL, NEG = [z3.Function(n, Name, B) for n in ('KL', 'KG', 'NEL', 'NEG')]
RIn = z3.Function('RIn', I, Name, B)
W = z3.Function('W', Name, Name, B)       # some reaction that changes the first consumes the second
NER = z3.Function('NER', I, B)
Stp = z3.Function('Stp', I, Name, I)
RT = z3.Function('RT', I, RText)
nameof = z3.Function('nameof', I, Name)
RELS = {'Lk', 'Gk', 'Lv', 'Gv', 'RIn', 'NER', 'RT'}
PH = {'X!Name', 'X!Int'}

class Vocab:
    def __init__(self, make_machine=None, facts=True):
        self.lits, self.mk, self.tc = {}, make_machine, {}
        self.cell = None        # (row term, column term) tracked by HMat
        self.lists = {}
        self.summ, self.pairs = [], []
        self.inner = self.outer = None
        self.fc, self.fm = {}, {}
        self.always = [E >= 1, N >= 1]
    def lit(self, s):
        if s not in self.lits: self.lits[s] = z3.Const('lit!' + s, Name)
        return self.lits[s]
    def terms(self, f, names, eqs):
        i = eid(f)
        if i not in self.tc:
            ns, es = set(), set()
            if z3.is_app(f):
                d = f.decl()
                if f.sort() == Name and d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() not in PH: ns.add(f)
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in RELS:
                    for c in f.children():
                        if c.sort() == I: es.add(c)
                for c in f.children(): self.terms(c, ns, es)
            self.tc[i] = (ns, es)
        ns, es = self.tc[i]
        names |= ns; eqs |= es
    def factc(self, names, eqs):
        k = (frozenset(map(eid, names)), frozenset(map(eid, eqs)), len(self.lits), len(self.always), len(self.pairs))
        if k not in self.fc: self.fc[k] = z3.And(self.facts(names, eqs))
        return self.fc[k]
    def facts(self, names, eqs):
        out = list(self.always)
        L = list(self.lits.values())
        if len(L) > 1: out.append(z3.Distinct(*L))
        names, eqs = sorted(names, key=eid), sorted(eqs, key=eid)
        hv = self.lit('hv')
        memo = self.fm
        def get(k, f):
            if k not in memo: memo[k] = f()
            out.append(memo[k])
        for s in names:
            get(('n', eid(s)), lambda: z3.And(z3.Implies(SP(s), z3.And(idx(s) >= 0, idx(s) < N, s != hv, z3.Or(NEL(s), NEG(s)))),
                    z3.Implies(NEL(s), z3.And(KL(s), SP(s))), z3.Implies(NEG(s), z3.And(KG(s), SP(s)))))
        for e in eqs: get(('e', eid(e)), lambda: z3.Implies(z3.And(e >= 0, e < E), NER(e)))
        for a in range(len(names)):
            for b in range(a):
                s, t = names[a], names[b]
                get(('p', eid(s), eid(t)), lambda: z3.Implies(z3.And(SP(s), SP(t), s != t), idx(s) != idx(t)))
        for s in names:
            for e in eqs:
                get(('ne', eid(s), eid(e)), lambda: z3.And(z3.Implies(Lk(s, e), z3.And(e >= 0, e < E, Lv(s, e) > 0, NEL(s))), z3.Implies(Gk(s, e), z3.And(e >= 0, e < E, Gv(s, e) > 0, NEG(s))), RIn(e, s) == Lk(s, e)))
        for a, b in self.pairs:
            for e in eqs: get(('w', eid(a), eid(b), eid(e)), lambda: z3.Implies(z3.And(z3.Or(Lk(a, e), Gk(a, e)), Lk(b, e)), W(a, b)))
        return out
    def summaries(self, eng, st): return self.summ
    def forget(self, eng, st):
        """once the focus cell is decided, what is known about the foci no longer matters (a weakening, hence sound)"""
        ms = [o.mach for o in st.heap.values() if isinstance(o, HFile) and o.mach is not None]
        if not ms or not all(m.sealed and m.cur is not True for m in ms): return st
        pc = tuple(p for p in st.pc if eid(p) in eng.base or any(n.startswith(('g!', 'w!')) for n in zsyms(p)))
        if len(pc) == len(st.pc): return st
        s = st.copy(); s.pc = pc
        return s
    def settle(self, eng, st):
        """between two reactions, while the focus cell is being written: a complete pending term gets a canonical value, after which
        the values of the coefficients no longer matter (dropping what is known is sound)"""
        ms = [(i, o) for i, o in st.heap.items() if isinstance(o, HFile) and o.mach is not None]
        if len(ms) != 1 or ms[0][1].mach.cur is not True or ms[0][1].mach.spec.kind not in ('jac', 'tend'): return st
        i, o = ms[0]
        m, ok = o.mach.settled(eng, st)
        if m is not o.mach: st = st.put(Ref(i), HFile(o.name, m))
        if not ok: return st
        pc = tuple(p for p in st.pc if eid(p) in eng.base or not (zsyms(p) & {'Lv', 'Gv'}))
        if len(pc) < len(st.pc): st = st.copy(); st.pc = pc
        return st
    def canweaken(self, eng, s, coll):
        ms = [o.mach for o in s.heap.values() if isinstance(o, HFile) and o.mach is not None and o.mach.cur is True]
        if not ms: return True
        return coll.sort == I and all(m.spec.kind in ('jac', 'tend') and m.settled(eng, s)[1] for m in ms)
    def foci(self, eng, st, sort):
        """the elements worth telling apart in this state (any choice is sound: the others are generic elements)"""
        fs = eng.foci.get(sort.name(), [])
        if not eng.weaken or sort != Name or self.inner is None: return fs
        ms = [o.mach for o in st.heap.values() if isinstance(o, HFile) and o.mach is not None]
        if any(m.cur is True for m in ms): return self.inner
        if any(isz(v) and v.eq(self.outer[0]) for fr in st.frames.values() for v in fr.values()): return self.outer[-1:]
        if any(n.startswith('g!') for p in st.pc for n in zsyms(p)): return []
        return self.outer[:1]
    def frame(self, eng, st, coll):
        """what a loop that writes into the focus cell does not need to know: set aside during the loop"""
        if not eng.weaken or not any(isinstance(o, HFile) and o.mach is not None and o.mach.cur is True for o in st.heap.values()): return ()
        every = self.canweaken(eng, st, coll)
        return tuple(p for p in st.pc if eid(p) not in eng.base and not any(n.startswith(('g!', 'w!')) for n in zsyms(p))
                     and (every or zsyms(p) & {'KL', 'KG', 'NEL', 'NEG', 'W', 'lit!AIR', 'NER'} and not zsyms(p) & {'Lk', 'Gk', 'RIn', 'Lv', 'Gv'}))
    def generic_facts(self, eng, coll, g): return []
    def tracked_cell(self, eng, k, st):
        if self.cell is None or not (isinstance(k, tuple) and len(k) == 2): raise OutOfReach('matrix index')
        f = []
        for x, c in zip(k, self.cell):
            q = eng.eq(x, c, st)
            f.append(z3.BoolVal(q) if isinstance(q, bool) else q)
        return eng.truth(z3.And(f), st)
    # ---- tables
    def nm(self, x):
        if isinstance(x, str): return self.lit(x)
        if isz(x) and x.sort() == Name: return x
        return None
    def ei(self, x):
        if isinstance(x, bool): return None
        if isinstance(x, int): return z3.IntVal(x)
        if isz(x) and x.sort() == I: return x
        return None
    def touched(self, st, t, x): return (t, eid(x)) in st.extra.get('touched', frozenset())
    def touch(self, st, t, x):
        return st.setextra('touched', st.extra.get('touched', frozenset()) | {(t, eid(x))})
    KEYS = {'sp': (SP, Name), 'loss': (KL, Name), 'gain': (KG, Name)}
    def keys(self, eng, m, st):
        k = m.kind
        if k in ('sp', 'loss', 'gain'):
            p = placeholder(Name); f = self.KEYS[k][0]
            mem = f(p)
            for t, i in st.extra.get('touched', ()):
                if t == k: mem = z3.Or(mem, p == KEEP[i])
            return Coll(Name, mem, nonempty=z3.BoolVal(True) if k == 'sp' else None, tag=k)
        p = placeholder(I)
        if k == 'lossrow': return Coll(I, Lk(m.arg, p), nonempty=NEL(m.arg), tag=k)
        if k == 'gainrow': return Coll(I, Gk(m.arg, p), nonempty=NEG(m.arg), tag=k)
        if k in ('react', 'rate'): return Coll(I, z3.And(p >= 0, p < E), nonempty=z3.BoolVal(True), order='range', tag=k)
        if k == 'names': return Coll(I, z3.And(p >= 0, p < N), nonempty=z3.BoolVal(True), order='range', tag=k)
        q = placeholder(Name)
        if k == 'reactrow': return Coll(Name, RIn(m.arg, q), elem=Stp(m.arg, q), nonempty=NER(m.arg), tag=k)
        raise OutOfReach('keys of %s' % k)
    def truth(self, eng, m, st):
        c = self.keys(eng, m, st)
        return eng.nonempty(c, st)
    def contains(self, eng, m, x, st):
        k = m.kind
        if k in ('sp', 'loss', 'gain'):
            n = self.nm(x)
            if n is None: return [(False, st)]
            if self.touched(st, k, n): return [(True, st)]
            return [(self.KEYS[k][0](n), st)]
        e = self.ei(x)
        if e is None: raise OutOfReach('membership in %s' % k)
        if k == 'lossrow': return [(Lk(m.arg, e), st)]
        if k == 'gainrow': return [(Gk(m.arg, e), st)]
        if k in ('react', 'rate'): return [(z3.simplify(z3.And(e >= 0, e < E)), st)]
        if k == 'names': return [(z3.simplify(z3.And(e >= 0, e < N)), st)]
        raise OutOfReach('membership in %s' % k)
    def get(self, eng, m, x, st):
        k = m.kind
        if k in ('sp', 'loss', 'gain'):
            n = self.nm(x)
            if n is None: raise OutOfReach('key of %s' % k)
            if k == 'sp':
                return [(idx(n), eng.must(st, 'species_dict2array is read only at species it has', SP(n)))]
            if eng.entails(st, self.KEYS[k][0](n)): return [(SMap(k + 'row', n), st)]
            return [(SMap(k + 'row', n), self.touch(st, k, n))]
        e = self.ei(x)
        if e is None: raise OutOfReach('key of %s' % k)
        if k == 'lossrow':
            return [(Lv(m.arg, e), eng.must(st, 'loss_dict[species] is read only at its reactions', Lk(m.arg, e)))]
        if k == 'gainrow':
            return [(Gv(m.arg, e), eng.must(st, 'gain_dict[species] is read only at its reactions', Gk(m.arg, e)))]
        if k == 'react': return [(SMap('reactrow', e), st)]
        if k == 'rate':
            return [(RT(e), eng.must(st, 'rate_dict is read only at reactions', z3.And(e >= 0, e < E)))]
        if k == 'names':
            return [(nameof(e), eng.must(st, 'species_dict is read only at positions', z3.And(e >= 0, e < N)))]
        if k == 'reactrow' and z3.is_app(e) and e.decl().name() == 'Stp' and e.arg(0).eq(m.arg):      # the key of species x names x
            x = e.arg(1)
            return [(x, eng.must(st, 'a reactant row is read only at its keys', RIn(m.arg, x)))]
        raise OutOfReach('item of %s' % k)
    def method(self, eng, m, name, args, kw, st):
        k = m.kind
        if name == 'keys' and not args: return [(m, st)]
        if name in ('items', 'values') and not args:
            c = self.keys(eng, m, st)
            p = placeholder(c.sort)
            if k == 'reactrow': key, val = Stp(m.arg, p), p
            else:
                key = p
                val = {'sp': lambda: idx(p), 'loss': lambda: SMap('lossrow', p), 'gain': lambda: SMap('gainrow', p), 'lossrow': lambda: Lv(m.arg, p), 'gainrow': lambda: Gv(m.arg, p),
                       'react': lambda: SMap('reactrow', p), 'rate': lambda: RT(p), 'names': lambda: nameof(p)}[k]()
            el = (key, val) if name == 'items' else val
            return [(Coll(c.sort, c.mem, elem=el, nonempty=c.nonempty, distinct=True, order=c.order, tag=c.tag), st)]
        if name == 'get' and len(args) in (1, 2):
            out = []
            for v, s in self.contains(eng, m, args[0], st):
                for b, s2 in eng.truth(v, s):
                    if b: out += self.get(eng, m, args[0], s2)
                    else: out.append((args[1] if len(args) > 1 else None, s2))
            return out
        if name == 'copy': return [(m, st)]
        raise OutOfReach('method %s of an input table' % name)
    def length(self, eng, m, st):
        if m.kind in ('sp', 'names'): return N
        if m.kind in ('react', 'rate'): return E
        return None
    def setitem(self, eng, m, k, v, st): raise OutOfReach('an input table is changed')
    def literal_list(self, eng, items):
        k = items
        if k not in self.lists:
            p = placeholder(Name)
            self.lists[k] = Coll(Name, z3.Function('InList!%d' % len(self.lists), Name, B)(p), nonempty=z3.BoolVal(True), distinct=len(set(items)) == len(items), tag='literal')
        return self.lists[k]
    def machine_for(self, eng, nm, st): return self.mk(eng, nm, st) if self.mk else None

# ---------------------------------------------------------------------------------------------------
NUM = re.compile(r'(\d+\.?\d*|\.\d+)([eEdD][+-]?\d+)?$')
IDENT = re.compile(r'[A-Za-z_]\w*$')

class Spec:
    """what a generated file has to contain.  dialect py/f90; kind react/tend/jac/rate"""
    def __init__(self, dialect, kind, foci, omp=False):
        self.dialect, self.kind, self.foci, self.omp = dialect, kind, foci, omp
        self.goal = None
        self.base = 0 if dialect == 'py' else 1
        self.o, self.c = '[]' if dialect == 'py' else '()'
        e = foci['e']
        if kind == 'react':
            self.fname, self.cell, self.dims = 'reactants', (e,), (E,)
            self.roles = {'py': ('y', None, 'out'), 'f90': ('y', 'out')}[dialect]
        elif kind == 'tend':
            self.fname, self.cell, self.dims = ('dydt' if dialect == 'py' else 'loss_gain'), (idx(foci['s']),), (N,)
            self.roles = {'py': ('out', 'r'), 'f90': ('r', 'out')}[dialect]
        elif kind == 'jac':
            self.fname, self.cell, self.dims = 'jacobian', (idx(foci['s']), idx(foci['n'])), (N, N)
            self.roles = ('r', 'y', 'out')
        elif kind == 'rate':
            self.fname, self.cell, self.dims = 'evaluate_rates', (e,), (E,)
            self.roles = {'py': (None, None, None, None, 'out', None), 'f90': (None, None, None, None, 'out')}[dialect]
        self.size = {'y': (N,), 'r': (E,), 'out': self.dims}
        self.ytrack = idx(foci['m']) if 'm' in foci else None

ONE, ZERO = z3.RealVal(1), z3.RealVal(0)
class Mach:
    F = ('mode', 'buf', 'fn', 'roles', 'ended', 'omp', 'inited', 'written', 'cur', 'acc', 'val', 'need', 'tok', 'sgn', 'coef', 'rn', 'rf', 'ex', 'prim', 'pow', 'ix', 'arr', 'nterm', 'cont', 'decl', 'rhs', 'sealed', 'dep')
    __slots__ = ('spec',) + F + ('_k',)
    def __init__(self, spec):
        self.spec = spec
        self.mode, self.buf, self.fn, self.roles, self.ended = 'bol', (), None, (), False
        self.omp, self.inited, self.written, self.cur = 'none', False, 0, False
        self.acc = self.val = None
        self.need, self.tok, self.sgn, self.coef, self.rn, self.rf, self.ex = None, '', 1, None, 0, False, None
        self.prim, self.pow, self.ix, self.arr, self.nterm, self.cont, self.decl, self.rhs = None, False, None, None, 0, False, (), ()
        self.sealed, self.dep = False, 0
        self._k = None
    def set(self, **kw):
        m = Mach.__new__(Mach); m.spec = self.spec
        for f in Mach.F: setattr(m, f, kw[f] if f in kw else getattr(self, f))
        m._k = None
        return m
    def key(self):
        if self._k is None:
            self._k = tuple(partkey(getattr(self, f)) for f in Mach.F)
        return self._k
    def vsyms(self):
        out = set()
        for f in ('acc', 'val', 'coef', 'ex'): syms(getattr(self, f), out)
        for f in ('buf', 'ix', 'prim', 'rhs'): psyms(getattr(self, f), out)
        return out
    def scrub(self, pred):
        # what an earlier iteration left in the term being written: forgotten where it cannot matter, refused elsewhere
        own = lambda v: any(pred(n) for n in psyms2(v))
        kw = {}
        if self.coef is not None and own(self.coef): kw['coef'] = HAVOC
        if self.prim is not None and own(self.prim):
            k, v, ex = self.prim
            if k == 'num': kw['prim'] = (k, HAVOC, ex)
            else: kw['prim'] = (k, v, HAVOC)
        other = self.prim is not None and self.prim[0] == 'r' and not self.prim[1] or self.rn == 1 and not self.rf
        if other and self.ex is not None and own(self.ex): kw['ex'] = HAVOC      # a term of another reaction
        if kw: return self.set(**kw).scrub(pred)
        if any(pred(n) for n in self.vsyms()): raise OutOfReach('generated text refers to a value of an earlier iteration')
        return self
    # ---- feeding --------------------------------------------------------------------------------
    def feed(self, eng, text, st):
        parts = (text,) if isinstance(text, str) else text.parts
        cur = [(self, st)]
        for p in parts:
            nxt = []
            for m, s in cur:
                nxt += m.feed_hole(eng, p.v, s) if isinstance(p, Hole) else m.feed_str(eng, p, s)
            cur = nxt
        return cur
    def feed_str(self, eng, t, st):
        work, out = [(self, st, 0)], []
        while work:
            m, s, i = work.pop()
            while True:
                if i >= len(t): out.append((m, s)); break
                if m.mode == 'raw':
                    j = t.find('\n', i)
                    if j < 0: i = len(t); continue
                    m = m.set(mode='bol', buf=()); i = j + 1; continue
                if m.mode == 'skip':
                    j = t.find('\n', i)
                    seg = t[i:j if j >= 0 else len(t)].rstrip(' ')
                    last = seg[-1] if seg else m.tok
                    if j < 0:
                        i = len(t); m = m.set(tok=last if last == '&' else ''); continue
                    i = j + 1
                    m = m.set(tok='') if last == '&' and m.spec.dialect == 'f90' else m.set(mode='bol', buf=(), tok='')
                    continue
                if m.mode == 'bol':
                    c = t[i]
                    if c == '\n':
                        r = m.rawline(eng, s)
                        i += 1
                        if len(r) != 1: work += [(a, b, i) for a, b in r]; break
                        m, s = r[0]; continue
                    if c == '=':
                        r = m.lhs(eng, s)
                        if r is not None:
                            i += 1
                            work += [(a, b, i) for a, b in r]; break
                    # swallow up to the next interesting character
                    j = i + 1
                    while j < len(t) and t[j] not in '\n=': j += 1
                    m = m.set(buf=addbuf(m.buf, t[i:j])); i = j; continue
                r = m.exprchar(eng, t[i], s)
                i += 1
                if len(r) == 1: m, s = r[0]
                else: work += [(a, b, i) for a, b in r]; break
        return out
    def feed_hole(self, eng, v, st):
        if self.mode == 'raw': return [(self, st)]
        if self.mode == 'skip': return [(self.set(tok=''), st)]
        if self.mode == 'bol': return [(self.set(buf=self.buf + (Hole(v),)), st)]
        return self.exprhole(eng, v, st)
    # ---- whole lines ----------------------------------------------------------------------------
    def rawline(self, eng, st):
        sp = self.spec
        buf, me = self.buf, self.set(mode='bol', buf=())
        txt = ''.join(p if isinstance(p, str) else '\0' for p in buf)
        line = txt.strip()
        lead = txt[:len(txt) - len(txt.lstrip())]
        if line == '': return [(me, st)]
        if self.cont: 
            raise OutOfReach('continuation line')
        if sp.kind == 'rate' and not (sp.dialect == 'f90' and line[0] == '!') and not line.startswith('#'):
            r = me.prelude(eng, line, lead, st)
            if r is not None: return r
        if sp.dialect == 'py':
            if line[0] == '#': return [(me, st)]
            if lead == '':
                if re.match(r'(import|from)\s', line) or line.startswith('@'):
                    if '\0' in line: raise OutOfReach('symbolic header line')
                    return [(me, st)]
                mo = re.match(r'def\s+(\w+)\s*\(([^)]*)\)\s*:$', line)
                if mo: return [(me.open(eng, mo.group(1), [a.strip() for a in mo.group(2).split(',')], st), st)]
            elif self.fn and lead == '    ':
                mo = re.match(r'return\s+(\w+)$', line)
                if mo:
                    eng.oblige(st, 'the generated function returns the array it fills', dict(self.roles).get(mo.group(1)) == 'out')
                    return [(me.set(ended=True), st)]
        else:
            low = line.lower()
            if low.startswith('!$omp'): return me.ompline(eng, line[5:], st)
            if line[0] == '!': return [(me, st)]
            if self.omp == 'dir&': raise OutOfReach('directive continued by something else')
            mo = re.match(r'subroutine\s+(\w+)\s*\(([^)]*)\)$', low)
            if mo: return [(me.open(eng, mo.group(1), [a.strip() for a in mo.group(2).split(',')], st), st)]
            if low == 'implicit none': return [(me, st)]
            if low in ('end subroutine', 'end') or re.match(r'end subroutine \w+$', low): return [(me.set(ended=True), st)]
            mo = re.match(r'(?:real\(8\)|double precision)\s*,?\s*(.*?)::\s*([\w\s,]+)$', low)
            if mo: return me.declare(eng, mo.group(1), [a.strip() for a in mo.group(2).split(',')], [p.v for p in buf if isinstance(p, Hole)], st)
            if self.fn and sp.kind == 'rate': return [(me, st)]
        if sp.kind == 'rate' and self.fn: return [(me, st)]
        raise OutOfReach('generated line not understood: %r' % line[:80])
    def prelude(self, eng, line, lead, st):
        """lines of a rate file that are not slots: passed over here (C08 and C09 read them), as long as they cannot affect a slot"""
        sp, low = self.spec, line.lower()
        out = [a for a, r in self.roles if r == 'out']
        if sp.dialect == 'py':
            mo = re.match(r'def\s+(\w+)\s*\(', line)
            if mo and mo.group(1) != sp.fname and not self.fn: return [(self, st)]
            if not self.fn: return [(self, st)] if lead else None
            if lead == '    ' and low.startswith('return'): return None
            if re.search(r'\b(return|def|class|while|for|exec|global|try|with)\b', line): raise OutOfReach('statement in the prelude: %r' % line[:60])
            dep = 1 if line.endswith(':') else 0 if len(lead) <= 4 else self.dep
        else:
            if re.match(r'(subroutine|end subroutine|implicit|real|double)', low) or low == 'end': return None
            if re.search(r'\b(return|stop|goto|contains|cycle|exit|do|call|where|select|include|equivalence|common)\b', low): raise OutOfReach('statement in the prelude: %r' % line[:60])
            dep = self.dep + 1 if re.match(r'if\b.*\bthen$', low) else self.dep - 1 if re.match(r'end ?if$', low) else self.dep
        if any(re.search(r'\b%s\b' % o, line) for o in out): raise OutOfReach('the output array in the prelude: %r' % line[:60])
        return [(self.set(dep=dep), st)]
    def open(self, eng, name, args, st):
        sp = self.spec
        eng.oblige(st, 'the generated file defines %s with the expected arguments' % sp.fname, name == sp.fname and len(args) == len(sp.roles))
        if name != sp.fname or len(args) != len(sp.roles): raise OutOfReach('another signature')
        if self.fn: raise OutOfReach('a second function')
        return self.set(fn=name, roles=tuple((a, r) for a, r in zip(args, sp.roles) if r), mode='bol', buf=())
    def declare(self, eng, attrs, names, holes, st):
        sp = self.spec
        mo = re.search(r'dimension\(([^)]*)\)', attrs)
        roles = dict(self.roles)
        dims, hs = [], list(holes)
        for d in (mo.group(1).split(',') if mo else []):
            d = d.strip()
            if d == '\0': dims.append(hs.pop(0))
            elif d.isdigit(): dims.append(z3.IntVal(int(d)))
            else: raise OutOfReach('dimension %s' % d)
        if hs: raise OutOfReach('declaration')
        for n in names:
            r = roles.get(n)
            if r is None:
                if sp.kind == 'rate': continue
                raise OutOfReach('declaration of %s' % n)
            want = sp.size[r]
            ok = len(dims) == len(want)
            f = z3.And([self.asint(d) == w for d, w in zip(dims, want)]) if ok else False
            eng.oblige(st, 'declared size of %s' % n, f)
            it = re.search(r'intent\((\w+)\)', attrs)
            eng.oblige(st, 'declared intent of %s' % n, bool(it) and it.group(1) == ('out' if r == 'out' else 'in'))
        return [(self.set(decl=tuple(sorted(set(self.decl) | set(names))), mode='bol', buf=()), st)]
    def asint(self, d):
        if isinstance(d, int): return z3.IntVal(d)
        if isz(d) and d.sort() == I: return d
        raise OutOfReach('size %r' % (d,))
    def ompline(self, eng, rest, st):
        """OpenMP directive; omp is none / dir& / par / single / done"""
        t = ' '.join(rest.lower().replace('&', ' & ').split())
        cont = t.endswith('&'); body = t.strip('& ').strip()
        cur = self.omp
        ok = True
        if cur == 'dir&':
            nxt = 'dir&' if cont else 'par'
            ok = not re.search(r'private|reduction', body)
        elif body.startswith('parallel') and not body.startswith('parallel do'):
            ok = cur == 'none'; nxt = 'dir&' if cont else 'par'
        elif body == 'single': ok, nxt = cur == 'par', 'single'
        elif re.match(r'end single( nowait)?$', body): ok, nxt = cur == 'single', 'par'
        elif body == 'end parallel': ok, nxt = cur == 'par', 'done'
        else: raise OutOfReach('directive %r' % body)
        eng.oblige(st, 'OpenMP directives are well nested', ok)
        if not ok: raise OutOfReach('directives not nested')
        return [(self.set(omp=nxt, mode='bol', buf=()), st)]
    # ---- assignment -----------------------------------------------------------------------------
    def lhs(self, eng, st):
        """buf is the text before '='; None when it is not an assignment to the output array"""
        sp = self.spec
        txt = ''.join(p if isinstance(p, str) else '\0' for p in self.buf)
        head = txt.strip()
        if sp.dialect == 'py' and (head[:1] in ('#', '@') or not self.fn) or sp.dialect == 'f90' and (head[:1] == '!'): return None
        mo = re.match(r'(\w+)\s*\%s([^\%s]*)\%s$' % (sp.o, sp.c, sp.c), head)
        roles = dict(self.roles)
        if not mo or roles.get(mo.group(1)) != 'out':
            if sp.kind == 'rate' and not (mo and roles.get(mo.group(1))) and not re.match(r'rate_values', head):
                return None
            raise OutOfReach('assignment to %r' % head[:60])
        lead = txt[:len(txt) - len(txt.lstrip())]
        if sp.dialect == 'py' and lead != '    ': raise OutOfReach('indentation')
        if self.ended: eng.oblige(st, 'no assignment after the end of the function', False)
        if sp.kind == 'rate' and sp.dialect == 'f90': eng.oblige(st, 'slots are not inside a conditional block', self.dep == 0)
        holes = [p.v for p in self.buf if isinstance(p, Hole)]
        ixs = []
        parts = [x.strip() for x in mo.group(2).split(',')]
        if all(x == ':' for x in parts) and sp.dialect == 'f90':
            eng.oblige(st, 'whole-array initialisation outside the parallel region', self.omp == 'none')
            return [(self.begin(cur='init'), st)]
        for x in parts:
            if x == '\0': ixs.append(self.asint(holes.pop(0)))
            elif x.isdigit(): ixs.append(z3.IntVal(int(x)))
            else: raise OutOfReach('index %r' % x)
        if holes or len(ixs) != len(sp.dims): raise OutOfReach('index')
        ixs = [z3.simplify(x - sp.base) for x in ixs]
        eng.oblige(st, 'output index within the array', z3.And([z3.And(x >= 0, x < d) for x, d in zip(ixs, sp.dims)]))
        if sp.omp: eng.oblige(st, 'every cell is computed by one thread (inside a SINGLE block)', self.omp == 'single')
        out = []
        for b, s in eng.truth(z3.simplify(z3.And([x == c for x, c in zip(ixs, sp.cell)])), st):
            if b and sp.kind == 'jac': eng.oblige(s, 'a derivative is written only where a reaction links the two species', W(sp.foci['s'], sp.foci['n']))
            out.append((self.begin(cur=b), s))
        return out
    def begin(self, cur):
        w = min(self.written + 1, 2) if cur is True else self.written
        if self.spec.kind == 'rate' and cur == 'init': raise OutOfReach('whole-array assignment')
        if self.spec.kind == 'rate' and cur:
            return self.set(mode='expr', buf=(), cur=cur, written=w, rhs=(), need='rhs', cont=False)
        if not cur: return self.set(mode='skip', buf=(), tok='', cur=False)      # some other cell: it is the focus cell of another choice of foci
        return self.set(mode='expr', buf=(), cur=cur, written=w, need='start', tok='', acc=ZERO if cur is True else None, val=None if cur is True else self.val, nterm=0, cont=False, prim=None, pow=False, ix=None, arr=None,
                        sgn=1, coef=None, rn=0, rf=False, ex=None)
    def exprhole(self, eng, v, st):
        if self.need == 'rhs': return [(self.set(rhs=self.rhs + (Hole(v),) if self.cur is True else ()), st)]
        if self.ix is not None: return [(self.set(ix=self.ix + (Hole(v),)), st)]
        if self.cont: raise OutOfReach('text after the continuation mark')
        if self.tok not in ('', '*', '**'): raise OutOfReach('a value is glued to %r' % (self.tok,))
        if self.tok:
            m = self.op(eng, self.tok, st); return m.exprhole(eng, v, st)
        if isz(v) and v.sort() == I: v = z3.ToReal(v)
        if isinstance(v, (int, float)): v = eng.real(float(v)) if isinstance(v, float) else z3.RealVal(v)
        if not (isz(v) and v.sort() == Rr): raise OutOfReach('value of another kind in an expression')
        if self.spec.dialect == 'f90' and not self.pow and not eng.entails(st, v >= 0): raise OutOfReach('possibly negative value after an operator')
        return [(self.operand(eng, ('num', v if self.keepval() else None), st), st)]
    def keepval(self): return self.cur is True or self.cur == 'init'
    def syntax(self, eng, st, what):
        eng.oblige(st, 'the generated expression is well formed', False, what)
        raise OutOfReach('malformed expression: ' + what)
    def operand(self, eng, p, st):
        if self.need not in ('start', 'operand'): self.syntax(eng, st, 'operand after operand')
        if self.pow:
            if p[0] != 'num': raise OutOfReach('variable exponent')
            return self.set(need='operator', pow=False, prim=self.prim[:2] + (p[1],), tok='')
        m = self
        if m.prim is not None: m = m.fold()
        return m.set(need='operator', prim=p + (None,), tok='')
    def norm(self, eng, st, v, cands):
        if v is None or v is HAVOC: return v
        for c in cands:
            if v.eq(c) or eng.entails(st, v == c): return c
        return v
    def settle(self, eng, st):
        """one spelling for equal values, so that executions that agree are merged"""
        f, k = self.spec.foci, self.spec.kind
        m = self
        if k == 'react' and m.ex is not None: m = m.set(ex=m.norm(eng, st, m.ex, [Lv(f['m'], f['e'])]))
        if k == 'tend' and m.acc is not None: m = m.set(acc=m.norm(eng, st, m.acc, [z3.simplify(x) for x in (-Lv(f['s'], f['e']), Gv(f['s'], f['e']), Gv(f['s'], f['e']) - Lv(f['s'], f['e']))]))
        if k == 'jac' and m.acc is not None:
            l, g, n = Lv(f['s'], f['e']), Gv(f['s'], f['e']), Lv(f['n'], f['e'])
            m = m.set(acc=m.norm(eng, st, m.acc, [z3.simplify(x) for x in (-l * n, g * n, (g - l) * n)]))
        return m
    def tidy(self, eng, st):
        """between two pieces of text: one spelling for pending terms that cannot be told apart"""
        k = self.spec.kind
        if self.mode != 'expr' or self.cur is not True or k not in ('jac', 'tend') or self.ix is not None or self.cont: return self
        m = self
        if m.tok != '' or m.need != 'operator' or m.prim is None or m.pow: return m
        if m.prim[0] == 'r' and not m.prim[1] and m.prim[2] is None and m.rn == 0 or m.rn == 1 and not m.rf and m.prim[0] == 'num' and m.prim[2] is None:
            return m.set(coef=HAVOC, ex=HAVOC if k == 'jac' else m.ex, sgn=1, rn=1, rf=False, prim=('num', HAVOC, None))
        return m
    def settled(self, eng, st):
        m, k = self, self.spec.kind
        f = self.spec.foci; s, e = f['s'], f['e']; mul = Lv(f['n'], e) if k == 'jac' else ONE
        vals = [z3.simplify(x) for x in (-Lv(s, e) * mul, Gv(s, e) * mul, (Gv(s, e) - Lv(s, e)) * mul, ZERO)]
        okacc = m.acc is not None and any(m.acc.eq(x) for x in vals)
        if m.mode != 'expr' or m.ix is not None or m.cont or m.tok != '' or m.pow: return m, False
        if m.prim is None: return m, okacc and m.need == 'start'
        if m.need != 'operator': return m, False
        if m.rn == 1 and not m.rf: return m, okacc
        if not (m.prim[0] == 'r' and m.prim[1] and m.prim[2] is None and m.rn == 0 or m.rn == 1 and m.rf and m.prim[0] == 'num' and m.prim[2] is None): return m, False
        m = m.fold()
        if m.coef is HAVOC or m.ex is HAVOC: return self, False
        c = ONE if m.coef is None else m.coef
        c = m.norm(eng, st, z3.simplify(-c) if m.sgn < 0 else c, vals[:2])
        ex = ZERO if m.ex is None else m.ex
        if k == 'jac': ex = m.norm(eng, st, ex, self.exps())
        m = m.set(coef=c, sgn=1, ex=ex, prim=('num', ONE, None))
        return m, okacc and any(c.eq(x) for x in vals[:2]) and (k == 'tend' or any(ex.eq(x) for x in self.exps()))
    def exps(self):
        f = self.spec.foci; x = z3.If(Lk(f['m'], f['e']), Lv(f['m'], f['e']), ZERO)
        return [x - 1 if f['m'].eq(f['n']) else x]
    def fold(self):
        """multiply the pending factor into the term"""
        p = self.prim
        if p is None: return self
        kind, v, ex = p
        if not self.keepval():
            return self.set(prim=None)
        coef, rn, rf, e = self.coef, self.rn, self.rf, self.ex
        if kind == 'num':
            if ex is not None: raise OutOfReach('power of a number')
            coef = v if coef is None else HAVOC if (coef is HAVOC or v is HAVOC) else z3.simplify(coef * v)
        elif kind == 'r':
            if ex is not None: raise OutOfReach('power of a rate')
            rn, rf = min(rn + 1, 2), bool(v)
            if not rf and self.spec.kind != 'react': coef = HAVOC      # another reaction: its coefficient is another choice of foci
        elif kind == 'y':
            if v:
                x = ONE if ex is None else ex
                if rn and not rf and self.spec.kind != 'react': x = e = HAVOC
                elif x is HAVOC or e is HAVOC: raise OutOfReach('exponent of an earlier iteration')
                if e is not HAVOC: e = x if e is None else z3.simplify(e + x)
        elif kind == 'z': rn = 2
        return self.set(prim=None, coef=coef, rn=rn, rf=rf, ex=e)
    def endterm(self, eng, st):
        m = self.fold()
        if not m.keepval(): return m.set(coef=None, rn=0, rf=False, ex=None)
        sp = self.spec
        c = ONE if m.coef is None else m.coef
        if c is HAVOC:
            if m.cur == 'init' or sp.kind == 'react' or m.rf or m.rn != 1: raise OutOfReach('coefficient of an earlier iteration')
            c = ONE
        if m.sgn < 0: c = z3.simplify(-c)
        ex = ZERO if m.ex is None else m.ex
        if m.cur == 'init':
            eng.oblige(st, 'arrays are initialised with zero', z3.And(c == 0, z3.BoolVal(m.rn == 0 and m.nterm == 0)))
        elif sp.kind == 'react':
            m = m.set(acc=(c, ex, m.rn) if m.nterm == 0 else (c, ex, 9))
        else:
            eng.oblige(st, 'every term of a tendency or derivative has exactly one reaction rate', m.rn == 1)
            if sp.kind == 'tend': eng.oblige(st, 'no concentration enters a tendency besides the reaction rate', ex == 0)
            if m.rf:
                m = m.set(acc=z3.simplify(m.acc + c)).settle(eng, st)
                if sp.kind == 'jac':
                    f = sp.foci; k = z3.If(Lk(f['m'], f['e']), Lv(f['m'], f['e']), ZERO)
                    want = k - 1 if f['m'].eq(f['n']) else k
                    eng.oblige(st, 'exponents of the differentiated reaction', ex == want)
        return m.set(coef=None, rn=0, rf=False, ex=None, nterm=min(m.nterm + 1, 2) if m.cur == 'init' or sp.kind == 'react' else 0, sgn=1)
    def op(self, eng, o, st):
        """operator o has been completed"""
        if o == '**':
            if self.need != 'operator' or self.prim is None or self.prim[2] is not None: self.syntax(eng, st, '**')
            return self.set(tok='', pow=True, need='operand')
        if o == '*':
            if self.need != 'operator': self.syntax(eng, st, '*')
            return self.fold().set(tok='', need='operand')
        if o in '+-':
            if self.need == 'operator': m = self.endterm(eng, st)
            elif self.need == 'start': m = self
            elif self.pow and o == '-': raise OutOfReach('sign after **')
            else: raise OutOfReach('sign after an operator')
            return m.set(tok='', need='operand', sgn=-1 if o == '-' else 1)
        raise OutOfReach('operator %s' % o)
    def flush(self, eng, st):
        t = self.tok
        if t == '': return self
        if t in ('*', '**'): return self.op(eng, t, st)
        if NUM.match(t):
            x = t.lower().replace('d', 'e')
            f = Fraction(x)
            return self.operand(eng, ('num', z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if self.keepval() else None), st)
        raise OutOfReach('token %r' % t)
    def exprchar(self, eng, c, st):
        if self.need == 'rhs': return self.rhschar(eng, c, st)
        if self.ix is not None:
            if c == self.spec.c: return self.index(eng, st)
            return [(self.set(ix=addbuf(self.ix, c)), st)]
        if self.cont:
            if c == '\n': return [(self.set(cont='eol'), st)] if self.cont is True else self.syntax(eng, st, 'empty continuation')
            if c == ' ': return [(self, st)]
            if self.cont is True: raise OutOfReach('text after &')
            m = self.set(cont=False)
            if c == '&': return [(m, st)]
            if c == '!': raise OutOfReach('comment inside a statement')
            return m.exprchar(eng, c, st)
        t = self.tok
        if c == '*':
            if t == '*': return [(self.set(tok='**'), st)]
            m = self.flush(eng, st); return [(m.set(tok='*'), st)]
        if t in ('*', '**'): return self.op(eng, t, st).exprchar(eng, c, st)
        if c in '+-' and re.match(r'(\d+\.?\d*|\.\d+)[eEdD]$', t): return [(self.set(tok=t + c), st)]
        if c.isalnum() or c in '._': return [(self.set(tok=t + c), st)]
        if c == self.spec.o:
            if not IDENT.match(t): raise OutOfReach('%r before a bracket' % t)
            return [(self.set(ix=(), arr=t, tok=''), st)]
        m = self.flush(eng, st)
        if c in '+-': return [(m.op(eng, c, st), st)]
        sp = self.spec
        if c == ' ': return [(m, st)]
        if c == '&' and self.spec.dialect == 'f90': return [(m.set(cont=True), st)]
        if c == '\n':
            if m.need == 'start' and sp.kind == 'jac':
                # nothing written: the link that led here is not reaction e (if it is, this fails)
                f = sp.foci
                eng.oblige(st, 'the derivative expression is not empty', z3.Not(z3.And(z3.Or(Lk(f['s'], f['e']), Gk(f['s'], f['e'])), Lk(f['n'], f['e']))))
                return []
            if m.need != 'operator': m.syntax(eng, st, 'expression ends early')
            m = m.endterm(eng, st)
            if m.cur is True: m = m.seal(eng, st, m.acc)
            if m.cur == 'init': m = m.set(inited=True, val=None, written=0)
            return [(m.set(mode='bol', buf=(), cur=False, acc=None, need=None, nterm=0, prim=None), st)]
        raise OutOfReach('character %r in an expression' % c)
    def index(self, eng, st):
        sp = self.spec
        if self.need not in ('start', 'operand') or self.pow: self.syntax(eng, st, 'operand expected elsewhere')
        r = dict(self.roles).get(self.arr)
        if r not in ('y', 'r'): raise OutOfReach('array %s read' % self.arr)
        if len(self.ix) != 1: raise OutOfReach('index')
        x = self.ix[0]
        if isinstance(x, Hole): t = self.asint(x.v)
        elif x.strip().isdigit(): t = z3.IntVal(int(x))
        else: raise OutOfReach('index %r' % x)
        t = z3.simplify(t - sp.base)
        eng.oblige(st, 'index of %s within the array' % r, z3.And(t >= 0, t < sp.size[r][0]))
        m = self.set(ix=None, arr=None)
        if not self.keepval(): return [(m.operand(eng, (r, None), st), st)]
        tgt = sp.ytrack if r == 'y' else sp.foci['e']
        if tgt is None: return [(m.operand(eng, (r, False), st), st)]
        return [(m.operand(eng, (r, b), s), s) for b, s in eng.truth(z3.simplify(t == tgt), st)]
    def seal(self, eng, st, val):
        """the focus cell has been assigned: its value is decided here, and need not be carried further"""
        if self.spec.goal is None: return self.set(val=val)
        self.spec.goal(eng, st, val)
        return self.set(val='decided', sealed=True)
    def rhschar(self, eng, c, st):
        if c == '\n':
            m = self
            if m.cur is True: m = m.seal(eng, st, m.rhs)
            return [(m.set(mode='bol', buf=(), rhs=(), cur=False, need=None), st)]
        if self.cur is True: return [(self.set(rhs=addbuf(self.rhs, c)), st)]
        return [(self, st)]

def addbuf(buf, s):
    if buf and isinstance(buf[-1], str): return buf[:-1] + (buf[-1] + s,)
    return buf + (s,)
def partkey(v):
    if isinstance(v, Hole): return ('h', vkey(v.v))
    if isinstance(v, tuple): return tuple(partkey(x) for x in v)
    if isinstance(v, Fraction): return v
    return vkey(v)
def psyms2(v):
    out = set(); psyms(v, out); return out
def psyms(v, out):
    if isinstance(v, Hole): syms(v.v, out)
    elif isinstance(v, tuple):
        for x in v: psyms(x, out)
    else: syms(v, out)

# ---------------------------------------------------------------------------------------------------
PURE = {'np.save', 'np.savez', 'np.linspace', 'numpy.save', 'numpy.savez', 'numpy.linspace', 'datetime.datetime.now', 'datetime.now', 'datetime.datetime.datetime.now', 'multiprocessing.cpu_count', 'os.cpu_count', 'os.linesep', 'np.array', 'np.asarray', 'numpy.array',
        'time.time', 'collections.defaultdict'}
def call_hook(eng, st, f, args, kw):
    if isinstance(f, Builtin):
        n = f.name
        sv = eng.hooks.get('save')
        if sv is not None and n.split('.')[-1] in ('save', 'savez', 'array', 'asarray') and n.startswith(('np.', 'numpy.')):
            r = sv(eng, st, n.split('.')[-1], args, kw)
            if r is not None: return r
        if n in PURE or n.split('.', 1)[-1] in ('save', 'linspace') and n.startswith(('np.', 'numpy.')):
            if n.endswith(('save', 'savez')): return [(None, st)]
            return [(Op(n, *[a if not isinstance(a, Ref) else Op('ref') for a in args]), st)]
        if n.split('.')[-1] == 'lil_matrix':
            mh = eng.hooks.get('matrix')
            if mh is not None: return mh(eng, st, args, kw)
            r, s = st.alloc(HHavoc()); return [(r, s)]
    return None
def attr_hook(eng, st, v, attr):
    if isinstance(v, Builtin): return [(Builtin(v.name + '.' + attr), st)]
    if isinstance(v, Ref) and isinstance(st.heap[v.id], (HHavoc, HMat)) and attr in ('data', 'indices', 'indptr', 'shape'): return [(Op('attr', attr, Op('ref', str(v.id))), st)]
    return None

_src = {}
def module(path):
    k = (path, os.stat(path).st_mtime_ns)
    if k not in _src:
        with open(path, encoding='utf-8') as h: t = h.read()
        _src[k] = (t, ast.parse(t))
    return _src[k]
def load(eng, path):
    """the module's top level: imports as names, functions, literal constants"""
    text, tree = module(path)
    for n in tree.body:
        if isinstance(n, ast.FunctionDef): eng.globals[n.name] = Fn(n, None)
        elif isinstance(n, ast.Import):
            for a in n.names: eng.globals[a.asname or a.name.split('.')[0]] = Builtin(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names: eng.globals[a.asname or a.name] = Builtin('%s.%s' % (n.module, a.name))
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try: eng.globals[n.targets[0].id] = freeze(ast.literal_eval(n.value))
            except (ValueError, SyntaxError): pass
    return text, tree
def freeze(v):
    if isinstance(v, list): return tuple(freeze(x) for x in v)
    if isinstance(v, (dict, set)): raise ValueError
    return v
