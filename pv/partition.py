"""C12 and C13 (partitioning routine): the generator of Partitioning.f90 is executed symbolically for an arbitrary number of species,
bins and condensing compounds; the resulting Fortran text (with holes for the numbers and one repeated segment) is parsed and executed
symbolically for an arbitrary bin; the obligations are about the outputs of the generated routine."""
import ast, os, re, time, random
from fractions import Fraction
import z3, sympy as sp
from .common import REPO
from .simx import Sim, Env, Arr, Fun, Obj, Opaque, OutOfReach, num, real, same, isnum, isz, subterms, I, R, EL, POW, KeysOf
from .formulas import Alg, tosym, FSpec

class Hole:
    def __init__(self, e): self.e = e
class Seg:
    def __init__(self, k, n, pieces): self.k, self.n, self.pieces = k, n, pieces
class Text:
    def __init__(self, ps): self.ps = [p for p in ps if p != '']
def text(v):
    if isinstance(v, Text): return v
    if isinstance(v, str): return Text([v])
    if isinstance(v, int): return Text([str(v)])
    if isz(v) and z3.is_int(v): return Text([Hole(v)])
    if isinstance(v, Opaque): return Text(['<%s>' % v.name])
    if isinstance(v, Seg): return Text([v])
    if isinstance(v, Fraction): return Text([repr(float(v))])
    if isinstance(v, (bool, float)): return Text([str(v)])
    raise OutOfReach('text of %s' % type(v).__name__)

class WSim(Sim):
    """executor of the writers: text with holes"""
    def __init__(self, label, limit):
        super().__init__(label, limit); self.out = None; self.files = {}
        self.spec = FSpec()
    def arith(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, str):
            args = list(b) if isinstance(b, tuple) else [b]
            ps, i = [], 0
            for part in re.split(r'(%s|%d|%i|%%|%[-+ 0]*\d*(?:\.\d+)?[eEfFgGdr])', a):
                if part in ('%s', '%d', '%i'): ps += text(args[i]).ps; i += 1
                elif len(part) > 1 and part[0] == '%' and part != '%%':
                    if not isinstance(args[i], (int, Fraction, float)): raise OutOfReach('format %s' % part)
                    ps.append(part % (int(args[i]) if part[-1] == 'd' else float(args[i]))); i += 1
                elif part == '%%': ps.append('%')
                else:
                    if '%' in part: raise OutOfReach('format %r' % part)
                    ps.append(part)
            if i != len(args): raise OutOfReach('format arguments')
            return Text(ps)
        if isinstance(op, ast.Add) and (isinstance(a, (str, Text)) or isinstance(b, (str, Text))): 
            if isinstance(a, str) and isinstance(b, str): return a + b
            return Text(text(a).ps + text(b).ps)
        return super().arith(op, a, b)
    def e_JoinedStr(self, n, env):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant): ps.append(v.value)
            else:
                if v.format_spec is not None: raise OutOfReach('format spec')
                ps += text(self.ev(v.value, env)).ps
        return Text(ps)
    def builtin(self, name, args, kw):
        if name == 'print' and 'file' in kw:
            ps = []
            for j, x in enumerate(args): ps += ([kw.get('sep', ' ')] if j else []) + text(x).ps
            kw['file'].buf.extend(ps + [kw.get('end', '\n')]); return None
        if name == 'open': 
            o = Obj('file', path=args[0]); o.buf = self.files.setdefault(args[0], []); self.out = o.buf; return o
        if name == 'str' : return text(args[0])
        if name == 'enumerate' and isinstance(args[0], Arr): return KeysOf(args[0], 'enumerate')
        return super().builtin(name, args, kw)
    def method(self, o, name, args, kw):
        if isinstance(o, str) and name == 'format':
            ps, i = [], 0
            for part in re.split(r'(\{\}|\{\d+\})', o):
                if part == '{}': ps += text(args[i]).ps; i += 1
                elif re.fullmatch(r'\{\d+\}', part): ps += text(args[int(part[1:-1])]).ps
                elif '{' in part: raise OutOfReach('format')
                else: ps.append(part)
            return Text(ps)
        if isinstance(o, str) and name == 'join' and isinstance(args[0], list):
            ps = []
            for j, x in enumerate(args[0]):
                if isinstance(x, Seg):
                    if o != '': raise OutOfReach('join with a separator')
                    ps.append(x)
                else: ps += ([o] if j else []) + text(x).ps
            return Text(ps)
        return super().method(o, name, args, kw)
    def objmethod(self, o, name, args, kw):
        if o.kind == 'file':
            if name == 'write': self.sink(o).extend(text(args[0]).ps); return None
            if name == 'writelines':
                for x in args[0]: self.sink(o).extend([x] if isinstance(x, Seg) else text(x).ps)
                return None
            if name in ('close', 'flush'): return None
        return super().objmethod(o, name, args, kw)
    def sink(self, o): return o.buf
    def callee(self, f, args, kw):
        if f.mod.split('.')[0] in ('datetime',): return Opaque('time')
        if f.mod == 'builtins' or f.mod == 'numpy': return super().callee(f, args, kw)
        return Opaque(f.mod + '.' + f.name)
    def e_ListComp(self, n, env):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]; it = self.ev(g.iter, env)
            lp = self.loopof(it)
            if lp:
                nn, at = lp; k = self.newc(I, 'k'); e2 = Env(env); self.assign(g.target, at(k), e2)
                self.hyp += [k >= 0, k < nn]; v = self.ev(n.elt, e2); del self.hyp[-2:]
                if isinstance(v, (str, Text)): return [Seg(k, nn, text(v).ps)]
        return super().e_ListComp(n, env)
    e_GeneratorExp = e_ListComp
    def loopof(self, it):
        if isinstance(it, KeysOf) and it.what == 'enumerate': return num(it.d.shape[0]), lambda k: (num(k), it.d.at(k))
        if isinstance(it, Arr) and len(it.shape) == 1: return num(it.shape[0]), lambda k: it.at(k)
        if type(it).__name__ == 'Range': return num(it.hi) - num(it.lo), lambda k: num(it.lo) + num(k)
        return None
    def lists(self, env):
        out, e = [], env
        while e is not None:
            for v in e.v.values():
                if isinstance(v, list) and not any(v is x for x in out): out.append(v)
            e = e.parent
        return out
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, (list, tuple)):
            if len(it) > 2000: raise OutOfReach('long loop')
            for x in it: self.assign(s.target, x, env); self.block(s.body, env)
            return
        lp = self.loopof(it)
        if lp is None: raise OutOfReach('loop over %s' % type(it).__name__)
        n, at = lp
        k = self.newc(I, 'k')
        def target(kk): self.assign(s.target, at(kk), env)
        lists = self.lists(env); snap = [list(x) for x in lists]
        files = {p: list(b) for p, b in self.files.items()}
        E0 = dict(env.v)
        def reset():
            env.v.clear(); env.v.update(E0)
            for p, b in self.files.items(): b[:] = files.get(p, [])
            for x, y in zip(lists, snap): x[:] = y
        target(z3.IntVal(0)); self.block(s.body, env)
        tn = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        delta = {}
        for m, v in env.v.items():
            if m in tn or m not in E0 or v is E0[m]: continue
            if isnum(v) and isnum(E0[m]): delta[m] = z3.simplify(num(v) - num(E0[m]))
            elif isinstance(v, (str, Text)) or isinstance(v, Opaque): delta[m] = None
            else: raise OutOfReach('variable %s carried by a loop' % m)
        reset()
        for m, d in delta.items():
            env.v[m] = Opaque('carried') if d is None else num(E0[m]) + k * d
        nh = len(self.hyp); self.hyp += [k >= 0, k < n]
        target(k); self.block(s.body, env)
        for m, d in delta.items():
            if d is not None: self.vc(self.where('counter %s in the loop over compounds' % m), num(env.v[m]) == num(E0[m]) + (k + 1) * d)
        del self.hyp[nh:]
        for p, b in self.files.items():
            new = b[len(files.get(p, [])):]
            if b[:len(files.get(p, []))] != files.get(p, []): raise OutOfReach('output rewritten')
            b[:] = files.get(p, []) + ([Seg(k, n, new)] if new else [])
        for x, y in zip(lists, snap):
            new = x[len(y):]
            if len(x) < len(y) or any(p is not q for p, q in zip(x, y)): raise OutOfReach('list rewritten in a loop')
            if new:
                ps = []
                for q in new:
                    if not isinstance(q, (str, Text)): raise OutOfReach('list of %s grown in a loop' % type(q).__name__)
                    ps += text(q).ps
                x[:] = y + [Seg(k, n, ps)]
        fin = dict(env.v); env.v.clear(); env.v.update(E0)
        for m, d in delta.items(): env.v[m] = Opaque('carried') if d is None else num(E0[m]) + n * d
    def s_With(self, s, env):
        super().s_With(s, env)

# ---------------------------------------------------------------------- Fortran
TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[DdEe][+-]?\d+)?|\.\d+(?:[DdEe][+-]?\d+)?|\d+[DdEe][+-]?\d+|\d+)|([A-Za-z_]\w*)|(\*\*|==|/=|<=|>=|\.\w+\.|[-+*/(),:=<>%]))")
class FE(Exception): pass
class Parser:
    def __init__(self, s):
        self.t, p = [], 0
        s = s.rstrip()
        while p < len(s):
            m = TOK.match(s, p)
            if not m: raise OutOfReach('Fortran text %r' % s[p:p + 30])
            self.t.append(('n', m.group(1)) if m.group(1) else ('i', m.group(2).lower()) if m.group(2) else ('o', m.group(3).lower())); p = m.end()
        self.p = 0
    def peek(self): return self.t[self.p] if self.p < len(self.t) else ('e', '')
    def next(self): x = self.peek(); self.p += 1; return x
    def op(self, *o): return self.peek()[0] == 'o' and self.peek()[1] in o
    def expect(self, o):
        if not self.op(o): raise OutOfReach('Fortran: expected %s' % o)
        self.next()
    def expr(self): return self.rel()
    def rel(self):
        a = self.add()
        while self.op('==', '/=', '<', '>', '<=', '>='):
            o = self.next()[1]; a = ('bin', o, a, self.add())
        return a
    def add(self):
        if self.op('-', '+'):
            o = self.next()[1]; a = self.mul(); a = ('neg', a) if o == '-' else a
        else: a = self.mul()
        while self.op('+', '-'):
            o = self.next()[1]; a = ('bin', o, a, self.mul())
        return a
    def mul(self):
        a = self.pw()
        while self.op('*', '/'):
            o = self.next()[1]; a = ('bin', o, a, self.pw())
        return a
    def pw(self):
        a = self.atom()
        if self.op('**'):
            self.next()
            b = self.pw() if not self.op('-', '+') else self.un()
            return ('bin', '**', a, b)
        return a
    def un(self):
        o = self.next()[1]; a = self.pw()
        return ('neg', a) if o == '-' else a
    def atom(self):
        k, v = self.next()
        if k == 'n':
            if re.fullmatch(r'\d+', v): return ('int', int(v))
            return ('real', Fraction(re.sub('[DdEe]', 'e', v)))
        if k == 'i':
            if self.op('('):
                self.next(); args = []
                while not self.op(')'):
                    args.append(self.arg())
                    if self.op(','): self.next()
                self.next()
                return ('ref', v, args)
            return ('ref', v, None)
        if k == 'o' and v == '(':
            e = self.expr(); self.expect(')'); return e
        raise OutOfReach('Fortran expression at %r' % v)
    def arg(self):
        if self.peek()[0] == 'i' and self.p + 1 < len(self.t) and self.t[self.p + 1] == ('o', '='):
            n = self.next()[1]; self.next(); return ('kw', n, self.expr())
        lo = hi = None
        if not self.op(':'):
            lo = self.expr()
            if not self.op(':'): return ('ix', lo)
        self.expect(':')
        if not self.op(',', ')'): hi = self.expr()
        return ('sec', lo, hi)

class FV:
    """array value: shape and element function on 0-based positions"""
    def __init__(self, shape, fn): self.shape, self.fn = list(shape), fn

class Fortran:
    def __init__(self, S, pieces, inputs, inc):
        self.S, self.inputs, self.inc = S, inputs, inc
        self.holes, self.segs = {}, {}
        self.dims, self.types, self.intent = {}, {}, {}
        self.val = {}
        self.order = []
        self.lines(pieces)
    # -- text to statements
    def lines(self, pieces):
        S = self.S
        def flat(ps, sub):
            out = ''
            for p in ps:
                if isinstance(p, str): out += p
                elif isinstance(p, Hole):
                    n = 'hole__%d' % len(self.holes); self.holes[n] = p.e; out += n
                elif isinstance(p, Seg):
                    if sub: raise OutOfReach('nested repetition')
                    n = len(self.segs); inner = flat(p.pieces, True)
                    if (out and not out.endswith('\n')) or (inner and not inner.endswith('\n')): raise OutOfReach('repetition inside a line')
                    self.segs[n] = p; out += '!@SEG %d\n%s!@ENDSEG\n' % (n, inner)
            return out
        txt = flat(pieces, False)
        self.text = txt
        st, cur, dirs = [], '', ''
        for raw in txt.split('\n'):
            l = raw.strip()
            if l.startswith('!@'): st.append(('mark', l[2:].split())); continue
            if l[:5].upper() == '!$OMP':
                d = l[5:].strip()
                if d.startswith('&'): d = d[1:].strip()
                cont = d.endswith('&'); dirs += ' ' + d.rstrip('&').strip()
                if not cont: st.append(('omp', dirs.strip().lower())); dirs = ''
                continue
            if l.startswith('!'):
                continue
            q = l.find('!')
            if q >= 0: l = l[:q].rstrip()
            if not l: continue
            if l.startswith('&'): l = l[1:].strip()
            if l.endswith('&'): cur += ' ' + l[:-1].strip(); continue
            cur += ' ' + l
            st.append(('st', cur.strip())); cur = ''
        self.st = st
    def const(self, e):
        """integer expression of a declaration"""
        return self.scalar(Parser(e).expr())
    # -- declarations and execution
    def run(self):
        S, i, body = self.S, 0, []
        self.phase = 'serial'
        self.pos = 0
        self.seq(self.st, 0, len(self.st))
    def declare(self, l):
        m = re.match(r'(?i)(real|integer|logical)\s*(\(\s*\d+\s*\))?\s*(.*)$', l)
        attrs, _, names = m.group(3).rpartition('::')
        if '::' not in l: attrs, names = '', m.group(3)
        typ = m.group(1).lower()
        dim = re.search(r'(?i)dimension\s*\(([^)]*)\)', attrs)
        par = 'parameter' in attrs.lower()
        io = re.search(r'(?i)intent\s*\(\s*(\w+)\s*\)', attrs)
        p = Parser(names)
        while p.peek()[0] != 'e':
            k, n = p.next()
            d = [self.const(x) for x in dim.group(1).split(',')] if dim else None
            if p.op('('):
                p.next(); d = []
                while not p.op(')'):
                    d.append(self.scalar(p.expr()))
                    if p.op(','): p.next()
                p.next()
            if p.op('='):
                p.next(); e = p.expr()
                v = self.scalar(e)
                if par: self.val[n] = real(v) if typ == 'real' else v
                else: raise OutOfReach('initialised variable')
            self.types[n] = typ
            if d is not None: self.dims[n] = d
            if io: self.intent[n] = io.group(1).lower()
            if p.op(','): p.next()
            if not par:
                if io and io.group(1).lower() == 'in':
                    if n not in self.inputs: raise OutOfReach('input %s' % n)
                    v = self.inputs[n]
                    self.val[n] = v
                    if isinstance(v, FV):
                        if d is None: raise OutOfReach('dimension of %s' % n)
                        S = self.S
                        S.fact('C12 ' + S.where('%s has one dimension' % n), len(d) == len(v.shape))
                        for a, b in zip(d, v.shape): S.vc('C12 ' + S.where('input %s is declared with its length' % n), num(a) == num(b))
                else: self.val[n] = self.undef(n, d)
    def undef(self, n, d):
        S = self.S
        if d is None: return S.newc(I if self.types.get(n) == 'integer' else R, 'undef!' + n)
        f = S.newf('undef!' + n, *([I] * len(d)), R)
        return FV(d, lambda *ix: f(*[num(x) for x in ix]))
    def seq(self, st, a, b):
        i = a
        while i < b:
            k, v = st[i]
            if k == 'st' and re.match(r'(?i)(program|module|contains)\b', v): raise OutOfReach('statement %s' % v)
            if k == 'st' and re.match(r'(?i)(subroutine)\b', v):
                self.args = [x.strip().lower() for x in re.search(r'\((.*)\)', v).group(1).split(',')]; i += 1; continue
            if k == 'st' and re.match(r'(?i)(implicit|end\s*subroutine|return|print)', v): i += 1; continue
            if k == 'st' and re.match(r'(?i)(real|integer)\b(?!\s*\w+\s*=)', v): self.declare(v); i += 1; continue
            if k == 'omp':
                if v.startswith('parallel do'):
                    self.ompdir = v; i += 1
                    if i >= b or st[i][0] != 'st' or not re.match(r'(?i)do\b', st[i][1]): raise OutOfReach('PARALLEL DO not before a DO')
                    continue
                if v.startswith('end parallel do'):
                    self.S.fact('C13 ' + self.S.where('END PARALLEL DO closes the loop it belongs to'), st[i - 1][0] == 'st' and bool(re.match(r'(?i)end\s*do', st[i - 1][1])) and getattr(self, 'inomp', False), v)
                    self.inomp = False
                    i += 1; continue
                raise OutOfReach('directive %s' % v)
            if k == 'st' and re.match(r'(?i)do\b', v):
                depth, j = 1, i + 1
                while j < b and depth:
                    if st[j][0] == 'st' and re.match(r'(?i)do\b', st[j][1]): depth += 1
                    if st[j][0] == 'st' and re.match(r'(?i)end\s*do', st[j][1]): depth -= 1
                    j += 1
                if depth: raise OutOfReach('DO without ENDDO')
                self.do(v, st, i + 1, j - 1)
                i = j; continue
            if k == 'mark' and v[0] == 'SEG':
                j = i + 1
                while st[j] != ('mark', ['ENDSEG']): j += 1
                for q in range(i + 1, j):
                    if st[q][0] != 'st': raise OutOfReach('repeated directive')
                    self.assign(st[q][1], self.segs[int(v[1])])
                i = j + 1; continue
            if k == 'st': self.assign(v, None); i += 1; continue
            raise OutOfReach('line %s' % (v,))
    def clauses(self, d):
        out = {}
        for m in re.finditer(r'(\w+)\s*\(([^)]*)\)', d[len('parallel do'):]):
            out.setdefault(m.group(1), []).extend([x.strip() for x in m.group(2).split(',') if x.strip()])
        return out
    def do(self, head, st, a, b):
        S = self.S
        if getattr(self, 'bin', None) is not None: raise OutOfReach('nested DO')
        m = re.match(r'(?i)do\s+(\w+)\s*=\s*(.*)$', head)
        v = m.group(1).lower(); lo, hi = m.group(2).split(',')
        lo, hi = self.const(lo), self.const(hi)
        omp = getattr(self, 'ompdir', None); self.ompdir = None
        cl = self.clauses(omp) if omp else None
        if cl is not None: self.inomp = True
        if cl and set(cl) - {'private', 'shared', 'schedule', 'default', 'num_threads', 'firstprivate'}: raise OutOfReach('clause %s' % sorted(cl))
        S.vc('C12 ' + S.where('the loop runs over the bins'), z3.And(num(lo) == 1, num(hi) == self.inputs['@nb']))
        bb = z3.Int('bin')
        self.bin, self.binvar, self.lo, self.hi = bb, v, num(lo), num(hi)
        before = dict(self.val)
        # which names does the body assign?
        assigned = []
        for q in range(a, b):
            if st[q][0] == 'st':
                t = st[q][1]
                mm = re.match(r'(?i)where\s*\(.*?\)\s*(\w+)\s*=', t) or re.match(r'(\w+)', t)
                n = mm.group(1).lower()
                if n not in ('enddo', 'end', 'print') and n not in assigned: assigned.append(n)
        private = set(cl.get('private', []) + cl.get('firstprivate', []) + [v]) if cl is not None else {n for n in assigned if n not in self.dims} | {v}
        if cl is not None:
            for n in private:
                if n != v and n not in self.types: raise OutOfReach('private %s not declared' % n)
                S.fact('C13 ' + S.where('private variable %s is not an output' % n), self.intent.get(n) != 'out', n)
        self.shared_written, self.parallel = [], cl is not None
        for n in assigned:
            if n == v: raise OutOfReach('loop variable assigned')
            if n in private:
                if cl is None or n not in cl.get('firstprivate', []): self.val[n] = self.undef(n, self.dims.get(n))
            else:
                # other units of work may write it at any time: contents are arbitrary until this unit wrote them
                self.shared_written.append(n)
                self.val[n] = self.race(n)
        self.val[v] = bb
        start = {n: self.val[n] for n in self.shared_written}
        self.wlog = {n: [] for n in self.shared_written}
        nh = len(S.hyp); S.hyp += [bb >= num(lo), bb <= num(hi)]
        self.seq(st, a, b)
        other = z3.Int('other_bin')
        for n in self.shared_written:
            if n not in self.dims:
                S.note_race(n); continue
            # every written cell belongs to one bin only
            for cond in self.wlog[n]:
                ix = [z3.Int('cell%d' % d) for d in range(len(self.dims[n]))]
                c1 = cond(bb, *ix)
                for cond2 in self.wlog[n]:
                    c2 = cond2(other, *ix)
                    S.vc('C13 ' + S.where('cells of %s are written by one unit of work only' % n), z3.Not(z3.And(c1, c2, other >= num(lo), other <= num(hi), other != bb)))
        del S.hyp[nh:]
        # after the loop
        after = {}
        for n in self.shared_written:
            if n not in self.dims: after[n] = self.race(n); continue
            after[n] = self.joined(n, before[n], self.val[n])
        for n in private - {v}:
            if n in self.types: after[n] = self.undef(n, self.dims.get(n))
        after[v] = self.undef(v, None)
        self.val = dict(before); self.val.update(after)
        self.oldlog = dict(getattr(self, 'oldlog', {})); self.oldlog.update(self.wlog)
        self.bin = None
    def race(self, n):
        S = self.S; d = self.dims.get(n)
        if d is None: return S.newc(R, 'race!' + n)
        f = S.newf('race!' + n, *([I] * len(d)), R)
        return FV(d, lambda *ix: f(*[num(x) for x in ix]))
    def joined(self, n, old, cur):
        """contents after all bins: the bin that owns a cell is a function of the cell"""
        S, bb, lo, hi = self.S, self.bin, self.lo, self.hi
        conds = self.wlog[n]
        own = self.owner
        fn = cur.fn
        def at(*ix):
            ix = [num(x) for x in ix]
            o = own(n, ix)
            if o is None: raise OutOfReach('owner of a cell of %s' % n)
            ds = [z3.Int('own!%d' % d) for d in range(len(ix))]
            w = z3.Or([c(bb, *ds) for c in conds]) if conds else z3.BoolVal(False)
            t = fn(*ds)
            w = z3.substitute(w, (bb, o)); t = z3.substitute(t, (bb, o))
            w = z3.substitute(w, *zip(ds, ix)); t = z3.substitute(t, *zip(ds, ix))
            return z3.If(z3.And(o >= lo, o <= hi, w), t, old.fn(*ix))
        # the owner function is right: a cell written by bin b has owner b
        ix = [z3.Int('cell%d' % d) for d in range(len(self.dims[n]))]
        o = own(n, ix)
        for c in conds: S.vc(S.where('the unit of work that owns a cell of %s' % n), z3.Implies(z3.And(bb >= lo, bb <= hi, c(bb, *ix)), o == bb))
        return FV(self.dims[n], at)
    def owner(self, n, ix):
        """candidate owner of a cell (0-based), checked by an obligation"""
        nb, nc, ns = self.inputs['@nb'], self.inputs['@nc'], self.inputs['@ns']
        S, bb = self.S, z3.Int('bin')
        for c in self.wlog.get(n) or self.oldlog[n]:
            w = c(bb, *[z3.Int('cell%d' % d) for d in range(len(ix))])
            cells = [z3.Int('cell%d' % d) for d in range(len(ix))]
            for d in range(len(ix)):
                if S.valid(z3.Implies(w, cells[d] == bb - 1)): return ix[d] + 1
            if len(ix) == 1 and S.valid(z3.Implies(w, z3.And(cells[0] - ns >= (bb - 1) * nc, cells[0] - ns < bb * nc))):
                q = self.quot(ix[0] - ns); return q + 1
        return None
    def quot(self, x):
        """floor(x / nc) with its defining facts"""
        nc = self.inputs['@nc']
        f = z3.Function('block_of', I, I); q = f(x)
        self.S.hyp.append(z3.And(q * nc <= x, x < q * nc + nc))
        return q
    # -- expressions
    def scalar(self, e):
        v = self.ev(e)
        if isinstance(v, FV): raise OutOfReach('array where a number is expected')
        return v
    def ev(self, e):
        S = self.S
        if e[0] == 'int': return z3.IntVal(e[1])
        if e[0] == 'real': return z3.RealVal(e[1])
        if e[0] == 'neg': return self.el(lambda x: -x, self.ev(e[1]))
        if e[0] == 'bin': return self.el(lambda x, y: self.binop(e[1], x, y), self.ev(e[2]), self.ev(e[3]))
        if e[0] == 'ref':
            n, args = e[1], e[2]
            if n in self.holes and args is None: return self.holes[n]
            if n in self.val or n in self.dims:
                v = self.val[n]
                if args is None: return v
                if not isinstance(v, FV): raise OutOfReach('subscript of %s' % n)
                return self.section(n, v, args)
            if args is None: raise OutOfReach('name %s' % n)
            kw = {a[1]: self.ev(a[2]) for a in args if a[0] == 'kw'}
            pos = [self.ev(a[1]) for a in args if a[0] == 'ix']
            if n in ('exp', 'log', 'log10', 'sqrt', 'cos', 'sin', 'dexp', 'dlog', 'dsqrt'):
                f = EL[n[1:] if n[0] == 'd' else n]; return self.el(lambda x: f(real(x)), pos[0])
            if n in ('dble', 'real'): return self.el(lambda x: real(x), pos[0])
            if n == 'sum':
                v = pos[0]
                if not isinstance(v, FV): raise OutOfReach('SUM of a number')
                d = kw.get('dim', pos[1] if len(pos) > 1 else None)
                if d is None:
                    if len(v.shape) != 1: raise OutOfReach('SUM of a matrix')
                    return S.psum(v.shape[0], v.fn, self.bin)
                d = z3.simplify(d).as_long()
                if len(v.shape) != 2: raise OutOfReach('SUM with DIM')
                n_, f = v.shape[d - 1], v.fn
                def col(i):
                    g = (lambda j: f(i, j)) if d == 2 else (lambda j: f(j, i))
                    return S.psum(n_, g, i, 'row', (lambda p, j: real(f(p, j))) if d == 2 else (lambda p, j: real(f(j, p))))
                return FV([v.shape[2 - d]], col)
            if n in ('max', 'min') and len(pos) == 2:
                def mm(x, y):
                    x, y = same(x, y); return z3.If(x >= y if n == 'max' else x <= y, x, y)
                return self.el(mm, *pos)
            if n == 'abs': return self.el(lambda x: z3.If(x < 0, -x, x), pos[0])
            raise OutOfReach('function %s' % n)
        raise OutOfReach('expression')
    def binop(self, o, x, y):
        if o in ('+', '-', '*', '/') or o == '**':
            if o == '**':
                if z3.is_int_value(y) and 0 <= y.as_long() <= 6:
                    r = z3.RealVal(1)
                    for _ in range(y.as_long()): r = r * real(x)
                    return r
                return POW(real(x), real(y))
            if o == '/':
                if z3.is_int(x) and z3.is_int(y): raise OutOfReach('integer division')
                return real(x) / real(y)
            x, y = same(x, y)
            return x + y if o == '+' else x - y if o == '-' else x * y
        x, y = same(x, y)
        return {'==': x == y, '/=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o]
    def el(self, f, *a):
        arrs = [x for x in a if isinstance(x, FV)]
        if not arrs: return f(*a)
        sh = arrs[0].shape
        for x in arrs[1:]:
            if len(x.shape) != len(sh): raise OutOfReach('ranks')
            for p, q in zip(x.shape, sh):
                if p is not q: self.S.vc('C12 ' + self.S.where('elementwise operation on arrays of one length'), num(p) == num(q))
        return FV(sh, lambda *ix: f(*[x.fn(*ix) if isinstance(x, FV) else x for x in a]))
    def places(self, n, dims, args):
        """per dimension: ('i', 0-based index) or ('s', 0-based start, length); with bounds obligations"""
        S, out = self.S, []
        if len(args) != len(dims): raise OutOfReach('subscripts of %s' % n)
        for a, d in zip(args, dims):
            if a[0] == 'ix':
                i = self.scalar(a[1])
                S.vc('C12 ' + S.where('subscript of %s is within bounds' % n), z3.And(i >= 1, i <= num(d)))
                out.append(('i', i - 1))
            elif a[0] == 'sec':
                lo = self.scalar(a[1]) if a[1] is not None else z3.IntVal(1)
                hi = self.scalar(a[2]) if a[2] is not None else num(d)
                if a[1] is not None or a[2] is not None: S.vc('C12 ' + S.where('section of %s is within bounds' % n), z3.Or(lo > hi, z3.And(lo >= 1, hi <= num(d))))
                whole = a[1] is None and a[2] is None
                out.append(('s', z3.IntVal(0) if whole else z3.simplify(lo - 1), d if whole else z3.simplify(hi - lo + 1)))
            else: raise OutOfReach('subscript')
        return out
    def section(self, n, v, args):
        pl = self.places(n, v.shape, args)
        fn = v.fn
        sh = [p[2] for p in pl if p[0] == 's']
        def at(*ix):
            ix, out = list(ix), []
            for p in pl:
                if p[0] == 'i': out.append(p[1])
                else: x = ix.pop(0); out.append(x if z3.is_int_value(p[1]) and p[1].as_long() == 0 else p[1] + num(x))
            return fn(*out)
        return FV(sh, at) if sh else at()
    def assign(self, l, seg):
        S = self.S
        mask = None
        m = re.match(r'(?i)where\s*\(', l)
        if m:
            p = Parser(l); p.next(); p.expect('('); c = p.expr(); p.expect(')')
            mask = c
        else: p = Parser(l)
        k, n = p.next()
        if k != 'i' or n not in self.types: raise OutOfReach('statement %s' % l[:60])
        args = None
        if p.op('('):
            p.next(); args = []
            while not p.op(')'):
                args.append(p.arg())
                if p.op(','): p.next()
            p.next()
        p.expect('=')
        e = p.expr()
        if p.peek()[0] != 'e': raise OutOfReach('statement %s' % l[:60])
        if self.intent.get(n) == 'in': raise OutOfReach('assignment to an input')
        nh = len(S.hyp)
        if seg is not None:
            S.hyp += [seg.k >= 0, seg.k < seg.n] + self.inc['facts_k'](seg.k)
        rhs = self.ev(e)
        if n not in self.dims:
            if isinstance(rhs, FV) or args: raise OutOfReach('array to number')
            if seg is not None or mask: raise OutOfReach('repeated assignment to a number')
            self.val[n] = real(rhs) if self.types[n] == 'real' else rhs
            if self.bin is not None and self.parallel and n in self.shared_written: self.val[n] = self.race(n)   # another unit may overwrite it
            return
        dims = self.dims[n]
        pl = self.places(n, dims, args) if args is not None else [('s', z3.IntVal(0), d) for d in dims]
        sh = [q[2] for q in pl if q[0] == 's']
        if isinstance(rhs, FV):
            if len(rhs.shape) != len(sh): raise OutOfReach('ranks in assignment')
            for a, b in zip(rhs.shape, sh): S.vc('C12 ' + S.where('assignment to %s conforms in length' % n), num(a) == num(b))
            src = rhs.fn
        else: src = lambda *ix: rhs
        mfn = None
        if mask:
            mv = self.ev(mask)
            if seg is not None: raise OutOfReach('repeated WHERE')
            mfn = mv.fn
        old = self.val[n].fn
        if seg is None:
            def region(*ix):
                c = []
                for q, x in zip(pl, ix):
                    if q[0] == 'i': c.append(x == q[1])
                    else: c += [x >= q[1], x < q[1] + num(q[2])]
                return z3.And(c)
            def new(*ix):
                ix = [num(x) for x in ix]
                rel = [x if z3.is_int_value(q[1]) and q[1].as_long() == 0 else x - q[1] for q, x in zip(pl, ix) if q[0] == 's']
                a, b = same(src(*rel), old(*ix))
                r = region(*ix) if mfn is None else z3.And(region(*ix), mfn(*rel))
                if z3.is_true(z3.simplify(r)): return a
                return z3.If(r, a, b)
            reg = region
        else:
            # one assignment per repetition k: cell g(k); the inverse of g gives the repetition that writes a cell
            kd = None
            for d, q in enumerate(pl):
                if q[0] != 'i': raise OutOfReach('repeated section')
                for kind, base, inv in (('inc', self.inc['at'](seg.k), self.inc['inv']), ('k', seg.k, lambda s: s)):
                    c = z3.simplify(q[1] - base)
                    if z3.is_int_value(c): kd = (d, c, inv, kind); break
                if kd: break
            if not kd: raise OutOfReach('place of a repeated assignment')
            d0, c, inv, kind = kd
            def parts(ix):
                s = ix[d0] - c
                if kind == 'inc': S.hyp += self.inc['facts_s'](s)
                kk = inv(s)
                ok = [kk >= 0, kk < seg.n] + ([self.inc['at'](kk) == s] if kind == 'inc' else [])
                ok += [x == z3.substitute(q[1], (seg.k, kk)) for d, (q, x) in enumerate(zip(pl, ix)) if d != d0]
                return kk, z3.And(ok)
            def new(*ix):
                ix = [num(x) for x in ix]
                kk, ok = parts(ix)
                a, b = same(z3.substitute(real(src()), (seg.k, kk)), old(*ix))
                return z3.If(ok, a, b)
            def reg(*ix): return parts([num(x) for x in ix])[1]
            del S.hyp[nh:]
        self.val[n] = FV(dims, new)
        if self.bin is not None and n in getattr(self, 'wlog', {}):
            bb = self.bin
            def cond(b, *ix, reg=reg):
                ds = [z3.Int('w!%d' % d) for d in range(len(ix))]
                t = z3.substitute(reg(*ds), (bb, b))
                return z3.substitute(t, *zip(ds, ix))
            self.wlog[n].append(cond)
    bin = None

class PS(WSim):
    """sums with a parameter (bin or species): SUM(content id, parameter)"""
    SUM = z3.Function('sum_of', I, I, R)
    def __init__(self, *a):
        super().__init__(*a); self.psums = []; self.races = []; self.parkind = {}; self.sumfacts = []
    def ask(self, goal, timeout=8000):
        if not self.sumfacts: return super().ask(goal, timeout)
        keep = list(self.hyp); seen = set()
        for t in keep + [goal]:
            for e in subterms(t):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'sum_of' and not any(z3.is_var(x) for x in subterms(e.arg(1))): seen.add((e.arg(0), e.arg(1)))
        self.hyp = keep + [fact(q) for c, c0, fact in self.sumfacts for x, q in seen if x.eq(c) or x.eq(c0)]
        try: return super().ask(goal, timeout)
        finally: self.hyp = keep
    def note_race(self, n): self.races.append(n)
    def psum(self, n, fn, par, kind=None, body=None):
        if kind is None: kind = 'bin' if par is not None else 'none'
        par = z3.IntVal(0) if par is None else par
        if not hasattr(self, 'P'): self.P = z3.Int('par')
        j = z3.Int('sumindex')
        def byvar(p, i):
            t = z3.simplify(real(fn(i)))
            return z3.substitute(t, (par, p)) if not z3.is_int_value(par) else t
        body = body or byvar
        for sh, f, c in self.psums:
            if not self.valid(num(sh) == num(n)): continue
            r = self.ask(z3.Implies(z3.And(j >= 0, j < num(n)), real(fn(j)) == f(par, j)))[0]
            if r == 'unsat': return self.SUM(c, par)
            if r == 'unknown': self.fuzzy = True
        c = self.newc(I, 'content')
        self.relate(n, fn, body, par, kind, c)
        self.psums.append((n, body, c)); self.parkind[str(c)] = kind
        return self.SUM(c, par)
    def relate(self, n, fn, body, par, kind, c):
        """a sum over one or two elements more or less than another of the same terms differs by those elements"""
        j, p = z3.Int('sumindex'), z3.Int('sumparameter')
        for sh, f, c0 in self.psums:
            for d in (1, 2, -1, -2):
                if not self.valid(num(n) == num(sh) + d): continue
                a, lo = (num(sh), num(sh)) if d > 0 else (num(n), num(n))
                if self.ask(z3.Implies(z3.And(j >= 0, j < a), real(fn(j)) == f(par, j)))[0] != 'unsat': break
                g = (lambda q, i: real(body(q, i))) if d > 0 else (lambda q, i, f=f: real(f(q, i)))
                extra = lambda q, g=g, lo=lo, d=d: sum(g(q, z3.simplify(lo + k)) for k in range(abs(d)))
                big, small = (c, c0) if d > 0 else (c0, c)
                fact = lambda q, a=a, big=big, small=small, extra=extra: z3.Implies(a >= 0, self.SUM(big, q) == self.SUM(small, q) + extra(q))
                self.sumfacts.append((c, c0, fact))
                break

def build(fname, limit):
    path = 'Parse_eqn_file.py'
    tree = ast.parse(open(os.path.join(REPO, path)).read())
    S = PS(fname, limit)
    genv = Env()
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Assign)):
            try: S.st(st, genv)
            except OutOfReach: pass
    f = genv.v.get(fname)
    if not isinstance(f, Fun): raise OutOfReach('%s not found' % fname)
    ns, nc, nb = z3.Ints('num_species num_condensed num_bins')
    dense = fname.endswith('fortran')
    S.hyp += [ns >= 1, nc >= 1, nb >= 1, nc <= ns]
    if dense: nc = ns
    INC, INV = z3.Function('include_index', I, I), z3.Function('compound_at', I, I)
    inc = dict(at=(lambda k: INC(k)) if not dense else (lambda k: k), inv=(lambda s: INV(s)) if not dense else (lambda s: s),
               facts_k=lambda k: [z3.Implies(z3.And(k >= 0, k < nc), z3.And(INC(k) >= 0, INC(k) < ns, INV(INC(k)) == k))] if not dense else [],
               facts_s=lambda s: [z3.Implies(z3.And(INV(s) >= 0, INV(s) < nc, INC(INV(s)) == s), z3.And(s >= 0, s < ns))] if not dense else [])
    vals = dict(total_length_y=ns + nc * nb, num_bins=nb, num_species=ns, num_species_condensed=nc, include_index=Arr((nc,), lambda k: INC(num(k))))
    # facts of the include set hold for the element of the repetition
    S.callfun(f, [vals[a.arg] for a in f.node.args.args], {})
    if list(S.files) != ['Partitioning.f90']: raise OutOfReach('files written: %s' % list(S.files))
    def arr(n, *sh):
        g = z3.Function(n, *([I] * len(sh)), R); return FV(list(sh), lambda *ix: g(*[num(x) for x in ix]))
    inputs = dict(y=arr('y', ns + nc * nb), ycore=arr('ycore', nb), core_mass_array=arr('core_mass_array', nb), core_density_array=arr('core_density_array', nb), n_perbin=arr('N_perbin', nb),
                  density_input=arr('density_input', nc), dstar_org=arr('DStar_org', nc), alpha_d_org=arr('alpha_d_org', nc), gamma_gas=arr('gamma_gas', nc), latent_heat=arr('Latent_heat', nc), c_g_i_t=arr('C_g', nc),
                  ignore_index=FV([ns], lambda i: z3.IntVal(0)) if dense else FV([ns], lambda i: z3.Function('ignore_index', I, I)(num(i))), mw_array=arr('mw_array', nc), psat=arr('Psat', nc))
    for n in ('core_diss', 'GRAV', 'Updraft', 'cp', 'Ra', 'Lv_water_vapour', 'sigma', 'NA', 'kb', 'Rv', 'R_gas', 'Model_temp'): inputs[n.lower()] = z3.Real(n)
    inputs.update({'@nb': nb, '@nc': nc, '@ns': ns})
    F = Fortran(S, S.files['Partitioning.f90'], inputs, inc)
    F.run()
    return S, F, inputs, inc, (ns, nc, nb)

def job(prop, fname, limit):
    t0 = time.time(); oor = None; S = None; A = Alg(fname)
    try:
        S, F, inp, inc, (ns, nc, nb) = build(fname, limit)
        for n in ('dy_dt', 'total_soa_mass', 'size_array', 'aw_array'):
            S.fact('C13 ' + S.where('%s is an output' % n), F.intent.get(n) == 'out')
        dy, tot = F.val['dy_dt'], F.val['total_soa_mass']
        s, k, b, j = z3.Int('species'), z3.Int('compound'), z3.Int('bin'), z3.Int('sumindex')
        rs, rk, rb, rj = z3.And(s >= 0, s < ns), z3.And(k >= 0, k < nc), z3.And(b >= 1, b <= nb), z3.And(j >= 0, j < nb)
        S.hyp += inc['facts_k'](k) + inc['facts_s'](s)
        block = z3.Function('block_of', I, I)
        # the compound k of bin b lies in the block of bin b
        S.vc('C12 ' + S.where('place of a compound in its bin'), z3.Implies(z3.And(rk, block(k + (b - 1) * nc) * nc <= k + (b - 1) * nc, k + (b - 1) * nc < block(k + (b - 1) * nc) * nc + nc), block(k + (b - 1) * nc) == b - 1))
        facts = [('block_of', (b - 1) * nc + k, b - 1), ('block_of', j * nc + k, j), ('compound_at', inc['at'](k), k)]
        S.hyp += [z3.Implies(z3.And(rk, rb), (b - 1) * nc >= 0), z3.Implies(z3.And(rk, rj), z3.And(j * nc >= 0))]
        S.prune = True
        def prune(t, hyp): return undecided(S, rewrite(real(t), facts), hyp)
        cell = ns + (b - 1) * nc + k
        cond = prune(dy.fn(cell), [rk, rb])
        names = {}
        def const(nm):
            if nm not in names: names[nm] = sp.Symbol('v%d' % len(names), positive=True)
            return names[nm]
        def symz(t, hyp):
            """computer algebra form of t; applications of uninterpreted functions become symbols"""
            t = undecided(S, t, hyp)
            if 'if(' in str(t).lower().replace(' ', ''): raise OutOfReach('undecided case in %s' % str(t)[:100])
            def go(e):
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() not in ('pow',) and not e.decl().name().startswith('fn_'):
                    key = e.decl().name() + '(' + ','.join(str(z3.simplify(x, som=True)).replace('\n', ' ') for x in e.children()) + ')'
                    return z3.Real('sym:' + key)
                return e.decl()(*[go(x) for x in e.children()]) if e.num_args() else e
            class D(dict):
                def __contains__(self, n): return n.startswith('sym:')
                def __getitem__(self, n): return const(n)
            return tosym(go(t), D())
        rnd = random.Random(3)
        def samples(): return [{v: sp.Rational(rnd.randint(1, 99), 17) for v in names.values()} for _ in range(3)]
        A.label = 'C12 ' + fname
        # loss from the gas phase against the gains of the bins
        loss = prune(dy.fn(inc['at'](k)), [rk])
        sums = []
        def find(e):
            if z3.is_app(e):
                if e.decl().name() == 'sum_of' and not any(e.eq(x) for x in sums): sums.append(e)
                for x in e.children(): find(x)
        find(loss)
        if len(sums) != 1: raise OutOfReach('the loss from the gas phase is not one sum: %s' % str(loss)[:200])
        A.zero('the loss of a condensing compound from the gas phase is one sum over the bins', symz(loss, [rk]) + symz(sums[0], [rk]), samples())
        sh, f, c = [x for x in S.psums if x[2].eq(sums[0].arg(0))][0]
        S.vc('C12 ' + S.where('the loss of a compound runs over all bins'), z3.Implies(rk, num(sh) == nb))
        one = prune(f(sums[0].arg(1), j), [rk, rj])
        gain = prune(dy.fn(ns + j * nc + k), [rk, rj])
        g1, g2 = symz(one, [rk, rj]), symz(gain, [rk, rj])
        A.zero('what a condensing compound gains in a bin is what that bin takes from the gas phase', g1 - g2, samples())
        if not fname.endswith('fortran'):
            none = z3.Not(z3.And(inc['inv'](s) >= 0, inc['inv'](s) < nc, inc['at'](inc['inv'](s)) == s))
            S.hyp += [rs, none]
            zero = S.psum(nb, lambda j: z3.RealVal(0), None); S.hyp.append(zero == 0)
            for sh, f, c in list(S.psums):      # a sum of zeros is zero
                j = z3.Int('sumindex')
                if S.valid(num(sh) == nb) and S.valid(z3.Implies(z3.And(j >= 0, j < nb), f(s, j) == 0)): S.hyp.append(S.SUM(c, s) == 0)
            S.vc('C12 ' + S.where('a compound that does not condense has zero tendency'), real(dy.fn(s)) == 0)
            S.hyp[-1:] = []
        # the exchange with one bin
        S.hyp += [rk, rb]
        y, NA, mw = inp['y'].fn, inp['na'], inp['mw_array'].fn
        yk = lambda j: y(ns + (b - 1) * nc + num(j))
        moles = S.psum(nc, yk, b) + inp['ycore'].fn(b - 1) * inp['core_diss']
        mass = lambda j: z3.If(num(j) < nc, yk(j) / NA * mw(j), inp['core_mass_array'].fn(b - 1))
        tmass = S.psum(nc + 1, mass, b)
        dens = 1 / S.psum(nc + 1, lambda j: mass(j) / tmass / z3.If(num(j) < nc, inp['density_input'].fn(j), inp['core_density_array'].fn(b - 1)), b)
        size = real(F.val['size_array'].fn(b - 1))
        kel = EL['exp']((4 * mw(k) * z3.RealVal('1/1000') * inp['sigma']) / (inp['r_gas'] * inp['model_temp'] * size * 2 * dens))
        ceq = kel * (yk(k) / moles) * inp['psat'].fn(k) * 101325 * (NA / (z3.RealVal(83144598) / 10 * inp['model_temp']))
        pi = z3.RealVal('31415927/10000000')
        szspec = POW((3 * (tmass * 1000 / (inp['n_perbin'].fn(b - 1) * 1000000))) / (4 * pi * dens), z3.RealVal('1/3'))
        Kn = inp['gamma_gas'].fn(k) / size; al = inp['alpha_d_org'].fn(k)
        corr = 1 / (1 + ((z3.RealVal('133/100') + z3.RealVal('71/100') * (1 / Kn)) / (1 + 1 / Kn) + 4 * (1 - al) / (3 * al)) * Kn)
        coef = 4 * pi * size * 100 * inp['n_perbin'].fn(b - 1) * inp['dstar_org'].fn(k) * corr
        H = [rk, rb]
        C = symz(inp['c_g_i_t'].fn(k), H)
        gsym = symz(cond, H)
        dif = sp.diff(gsym, C, 2)
        A.zero('the exchange is linear in the gas concentration', dif, samples())
        A.zero('the exchange vanishes at the equilibrium concentration', gsym.subs(C, symz(ceq, H)), samples())
        cf = symz(coef, H)
        A.zero('the exchange coefficient is the corrected diffusion coefficient of the compound and bin', sp.diff(gsym, C) - cf, samples())
        A.zero('the size of a bin is that of its particles', symz(size, H) - symz(szspec, H), samples())
        S.hyp[-2:] = []
        bb = z3.Int('bin')
        S.hyp.append(rb)
        inner = S.psum(nc - 1, lambda j: y(ns + (bb - 1) * nc + num(j)) / NA * mw(j), bb)
        S.hyp[-1:] = []
        outer = S.psum(nb, lambda j: z3.substitute(inner, (bb, num(j) + 1)), None)
        S.vc('C12 ' + S.where('the reported organic mass is that of all condensed compounds except water and core, over all bins'), real(tot) == outer * 10 ** 12)
        # outputs do not depend on undefined private values or on variables other units write
        for n, t in (('dy_dt (gas)', real(dy.fn(s))), ('dy_dt (condensed)', cond), ('total_SOA_mass', real(tot)), ('size_array', real(F.val['size_array'].fn(b - 1))), ('aw_array', real(F.val['aw_array'].fn(b - 1)))):
            S.hyp += [rs, rk, rb]
            t = z3.simplify(t)
            bodies = [t] + [f(b, z3.Int('sumindex')) for sh, f, c in S.psums]
            S.fact('C13 ' + S.where('%s depends on inputs and values private to its unit of work only' % n), not any('race!' in undecidedtext(S, x) or 'undef!' in undecidedtext(S, x) for x in [t]), str(t)[:300])
            S.hyp[-3:] = []
        bad = []
        for sh, f, c in S.psums:
            p = z3.Int('parameter'); kind = S.parkind.get(str(c))
            rng = [p >= 1, p <= nb] if kind == 'bin' else [p >= 0, p < ns] + inc['facts_s'](p) if kind == 'row' else []
            if any(w in undecidedtext(S, f(p, j), rng + [j >= 0, j < num(sh)]) for w in ('race!', 'undef!')): bad.append(c)
        S.fact('C13 ' + S.where('no sum runs over undefined values or values another unit of work may write'), not bad, str(bad)[:200])
    except OutOfReach as e: oor = str(e)
    except Exception as e:
        if os.environ.get('PV_DEBUG'): raise
        oor = 'the verifier does not follow this code: %s: %s' % (type(e).__name__, e)
    vcs = (S.vcs if S else []) + A.vcs
    if S is not None and S.fuzzy: vcs = [(a, 'undecided' if st == 'failed' else st, c, d, e) for a, st, c, d, e in vcs]
    vcs = [v for v in vcs if not (v[0][:1] == 'C' and v[0][1:3].isdigit()) or v[0].startswith(prop + ' ')]
    cov = {'the routine is executed to its end': oor is None}
    if oor is None:
        q = z3.Solver(); q.set('timeout', 10000); q.add(*S.hyp); cov['hypotheses are satisfiable'] = q.check() != z3.unsat
    return dict(label='%s %s' % (prop, fname), vcs=vcs, functions=['Parse_eqn_file.py:%s' % fname, 'Partitioning.f90:dydt_partition (generated by it)'], oor=oor, covers=cov, wall=time.time() - t0)

def rewrite(t, facts):
    """t with applications f(x) replaced by v where x is the stated argument; facts: (function name, argument, value, guard proved by the caller)"""
    memo = {}
    def go(e):
        i = e.get_id()
        if i in memo: return memo[i]
        r = e
        if z3.is_app(e) and e.num_args():
            ch = [go(x) for x in e.children()]
            r = e.decl()(*ch) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[e.decl().kind()](*ch)
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for f, a, v in facts:
                    if e.decl().name() == f and z3.is_true(z3.simplify(ch[0] - a == 0, som=True)): r = v; break
        memo[i] = r; return r
    return z3.simplify(go(z3.simplify(t)), som=True)

def undecidedtext(S, t, hyp=()): return undecided(S, t, hyp).sexpr()
def undecided(S, t, hyp=()):
    """t after removing branches the hypotheses exclude"""
    memo = {}
    S.hyp += list(hyp)
    try:
        def go(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                if S.valid(e.arg(0)): return go(e.arg(1))
                if S.valid(z3.Not(e.arg(0))): return go(e.arg(2))
                S.hyp.append(e.arg(0)); x = go(e.arg(1))
                S.hyp[-1] = z3.Not(e.arg(0)); y = go(e.arg(2)); S.hyp.pop()
                return z3.If(e.arg(0), x, y)
            if z3.is_app(e) and e.num_args(): return e.decl()(*[go(x) for x in e.children()])
            return e
        return go(z3.simplify(t))
    finally:
        if hyp: del S.hyp[-len(hyp):]
