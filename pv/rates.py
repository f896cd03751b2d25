"""C08, C09: the rate constants and photolysis rates of the generated rate files.

The writers are executed symbolically for an arbitrary rate table; what they write apart from the slots is text without holes,
the same for every table.  That text is read as a program (Python by ast, Fortran by the reader of pv/partition.py) and executed
over the reals; every constant becomes one closed term in the temperature, water, RO2 and time.  Two terms are equal when they have
one normal form (rational functions over exp, log10, power, cosine ... of normal forms), they differ when an evaluation at a point
with 60 digits differs; anything else is undecided."""
import ast, os, re, json, time, random, subprocess, tempfile, shutil
from fractions import Fraction
import z3, sympy as sp, mpmath
from .common import REPO, VERIF, PY
from . import kpp
from .simx import Env, Arr, Fun, Opaque, OutOfReach, num, real, isz, I, R, EL, POW, Range
from .formulas import FSpec
from .partition import WSim, Seg, Hole, Text, text, Parser

FLOOR = z3.Function('fn_floor', R, R)
UN = {n: z3.Function('fn_' + n, R, R) for n in ('exp', 'log', 'log10', 'sqrt', 'cos', 'sin', 'tan', 'arctan', 'arccos', 'arcsin', 'abs')}
ALIAS = {'atan': 'arctan', 'acos': 'arccos', 'asin': 'arcsin', 'dexp': 'exp', 'dlog': 'log', 'dsqrt': 'sqrt', 'dabs': 'abs', 'dlog10': 'log10', 'alog10': 'log10', 'alog': 'log', 'fabs': 'abs', 'absolute': 'abs', 'dcos': 'cos', 'dsin': 'sin'}

# ------------------------------------------------------------------ the writers
class RateDict:
    def __init__(self, n): self.n = n
class RSim(WSim):
    def method(self, o, name, args, kw):
        if isinstance(o, RateDict):
            E = o.n
            if name == 'keys': return Range(0, E)
            if name == 'values': return RV(o, 'values')
            if name == 'items': return RV(o, 'items')
            if name == 'get': return Opaque('ratetext')
        return super().method(o, name, args, kw)
    def loopof(self, it):
        if isinstance(it, RateDict): return num(it.n), lambda k: num(k)
        if isinstance(it, RV):
            f = {'values': lambda k: Opaque('ratetext'), 'items': lambda k: (num(k), Opaque('ratetext'))}
            if isinstance(it.what, tuple):
                inner = self.loopof(it.d); return inner[0], lambda k: (num(k), inner[1](k))
            return num(it.d.n), f[it.what]
        if isinstance(it, Opaque): return num(self.newc(I, 'len')), lambda k: Opaque(it.name + '[]')
        return super().loopof(it)
    def builtin(self, name, args, kw):
        x = args[0] if args else None
        if name == 'len' and isinstance(x, RateDict): return x.n
        if name == 'len' and isinstance(x, RV): return x.d.n
        if name == 'len' and isinstance(x, Range): return num(x.hi) - num(x.lo)
        if name in ('sorted', 'list', 'tuple') and isinstance(x, (RateDict, RV, Range)): return x
        if name == 'enumerate' and isinstance(x, (RateDict, RV, Range)): return RV(x, ('enumerate',))
        if name in ('int', 'set', 'sorted', 'list', 'tuple') and isinstance(x, Opaque): return x
        return super().builtin(name, args, kw)
    def callee(self, f, args, kw):
        if f.mod == 'numpy' and f.name in ('linspace', 'arange', 'array_split'): return Opaque('breaks')
        if f.mod.split('.')[0] in ('multiprocessing', 'os', 'numpy') and f.mod != 'numpy': return Opaque(f.name)
        return super().callee(f, args, kw)
    def e_Subscript(self, n, env):
        if isinstance(n.ctx, ast.Load):
            o = self.ev(n.value, env)
            if isinstance(o, RateDict): return Opaque('ratetext')
            if isinstance(o, Opaque): return o
        return super().e_Subscript(n, env)
    def e_ListComp(self, n, env):
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(self.ev(n.generators[0].iter, env), Opaque): return Opaque('list')
        return super().e_ListComp(n, env)
    e_GeneratorExp = e_SetComp = e_ListComp
    def e_Compare(self, n, env):
        vs = [self.ev(x, env) for x in [n.left] + n.comparators]
        if any(isinstance(v, Opaque) for v in vs): return self.newc(z3.BoolSort(), 'cond')
        return super().e_Compare(n, env)
    def arith(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, str): return super().arith(op, a, b)
        if (isinstance(a, Opaque) or isinstance(b, Opaque)) and not isinstance(a, (str, Text)) and not isinstance(b, (str, Text)): return Opaque('value')
        return super().arith(op, a, b)
    def s_If(self, s, env):
        n = {p: len(b) for p, b in self.files.items()}
        sym = not isinstance(self.truth(self.ev(s.test, env)), bool)
        super().s_If(s, env)
        if sym:
            for p, b in self.files.items():
                k = n.get(p, 0)
                if len(b) > k: b[k:] = [Seg(None, None, b[k:])]
class RV:
    def __init__(self, d, what): self.d, self.what = d, what

def flat(ps):
    out = ''
    for p in ps: out += p if isinstance(p, str) else '@HOLE@' if isinstance(p, Hole) else flat(p.pieces)
    return out
def program(pieces):
    """text with the slots removed"""
    out = ''
    for p in pieces:
        if isinstance(p, str): out += p
        elif isinstance(p, Hole): out += '777001'
        elif isinstance(p, Seg):
            t = flat(p.pieces)
            if (out and not out.endswith('\n')) or (t and not t.endswith('\n')): raise OutOfReach('repetition inside a line')
            for l in t.split('\n'):
                l = l.strip()
                if l and not re.match(r'!\$OMP|#|!|rate_values\s*[\[(]', l, re.I): raise OutOfReach('text that depends on the rate table: %r' % l[:80])
        else: raise OutOfReach('piece')
    return out

WR = {'py': ('write_rate_file_numba', 'Rate_coefficients_numba.py'), 'f90': ('write_rate_file_fortran', 'Rate_coefficients.f90')}
def generated(dialect, omp, limit):
    """(program text, how obtained)"""
    fn, out = WR[dialect]
    try:
        tree = ast.parse(open(os.path.join(REPO, 'Parse_eqn_file.py')).read())
        S = RSim(fn, limit); genv = Env()
        for st in tree.body:
            if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Assign)):
                try: S.st(st, genv)
                except OutOfReach: pass
        f = genv.v.get(fn)
        if not isinstance(f, Fun): raise OutOfReach('%s not found' % fn)
        E = z3.Int('reactions'); S.hyp.append(E >= 1); rd = RateDict(E)
        names = [a.arg for a in f.node.args.args]
        vals = {'filename': 'X', 'openMP': omp, 'OpenMP': omp}
        S.callfun(f, [vals.get(n, rd) for n in names], {})
        if list(S.files) != [out]: raise OutOfReach('files written: %s' % list(S.files))
        if any(v[1] == 'failed' for v in S.vcs): raise OutOfReach('obligation of the writer')
        return program(S.files[out]), 'symbolic'
    except OutOfReach as e: why = str(e)
    except RecursionError as e: why = str(e)
    d = tempfile.mkdtemp(prefix='pyboxv.')
    try:
        txts = []
        for n in (1, 23):
            code = ("import sys,os; sys.path[:0]=['/opt/vp',%r]\nimport pybox_compat\nimport Parse_eqn_file as P\nrd={i:'1.0D0' for i in range(%d)}\n" % (REPO, n)) + \
                   ("P.write_rate_file_numba('X',rd)" if dialect == 'py' else "P.write_rate_file_fortran('X',rd,%r)" % omp)
            r = subprocess.run([PY, '-c', code], cwd=d, capture_output=True, text=True, timeout=120, env={'PATH': '/opt/venv/bin:/usr/bin:/bin', 'HOME': d, 'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8'})
            if r.returncode: raise OutOfReach('the writer failed: %s' % r.stderr[-200:])
            t = open(os.path.join(d, out)).read()
            t = '\n'.join(l for l in t.split('\n') if not re.match(r'\s*(!\$OMP|rate_values\s*[\[(]|# File created|! File created)', l, re.I))
            txts.append(re.sub(r'dimension\(\d+\) :: rate_values', 'dimension(777001) :: rate_values', t))
        if txts[0] != txts[1]: raise OutOfReach('the text around the slots depends on the rate table (%s)' % why)
        return txts[0], 'concrete: ' + why
    finally: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ reading the generated programs
class Prog:
    """values of names and of J after the prelude, as z3 terms over the reals"""
    def __init__(self, label): self.label, self.v, self.J, self.vcs, self.guards = label, {}, {}, [], []
    def floor(self, x, trunc):
        if trunc:
            s = z3.Solver(); s.set('timeout', 5000); t = z3.Real('ttime'); s.add(t >= 0, x < 0)
            if s.check() != z3.unsat: raise OutOfReach('integer part of a value that may be negative')
        return FLOOR(x)
    def power(self, a, b):
        b = z3.simplify(b)
        if z3.is_rational_value(b) and b.denominator_as_long() == 1 and abs(b.numerator_as_long()) <= 8:
            n = b.numerator_as_long(); r = z3.RealVal(1)
            for _ in range(abs(n)): r = r * a
            return r if n >= 0 else 1 / r
        return POW(a, b)
    def call(self, n, args):
        n = ALIAS.get(n, n)
        if n in ('floor', 'int', 'trunc', 'aint') and len(args) == 1: return self.floor(args[0], n != 'floor')
        if n in UN and len(args) == 1: return UN[n](args[0])
        if n in ('float', 'float64', 'real', 'dble') and args: return args[0]
        if n in ('max', 'maximum', 'min', 'minimum') and len(args) == 2:
            a, b = args; return z3.If(a >= b, a, b) if n[:3] == 'max' else z3.If(a <= b, a, b)
        if n in ('mod', 'fmod', 'remainder') and len(args) == 2:
            if n == 'mod' and self.label == 'Fortran': self.floor(args[0], True)
            return args[0] - args[1] * FLOOR(args[0] / args[1])
        if n in ('power', 'pow') and len(args) == 2: return self.power(*args)
        raise OutOfReach('function %s' % n)
    def merge(self, c, before, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None: continue
            out[k] = x if x is y or x.eq(y) else z3.If(c, x, y)
        return out

class Py(Prog):
    def __init__(self, txt):
        super().__init__('Python')
        tree = ast.parse(txt)
        self.help = {}
        self.mods = set()
        for s in tree.body:
            if isinstance(s, ast.FunctionDef): self.help[s.name] = s
            elif isinstance(s, (ast.Import, ast.ImportFrom)): pass
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name): self.glob(s)
            else: raise OutOfReach('generated statement %s' % ast.unparse(s)[:60])
        f = self.help.get('evaluate_rates')
        if f is None: raise OutOfReach('evaluate_rates not found')
        self.ps = [a.arg for a in f.args.args]
        if len(self.ps) != 6: raise OutOfReach('arguments of evaluate_rates')
        for p, n in zip(self.ps, ('ttime', 'RO2', 'H2O', 'TEMP', None, None)):
            if n: self.v[p] = z3.Real(n)
        self.jname, self.out = self.ps[5], self.ps[4]
        self.block(f.body)
    def glob(self, s): self.v[s.targets[0].id] = self.ex(s.value)
    def block(self, b):
        for s in b:
            if isinstance(s, ast.Return) or isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1: self.store(s.targets[0], s.value if isinstance(s.targets[0], ast.Tuple) else self.ex(s.value), s.value)
            elif isinstance(s, ast.If):
                c = self.cond(s.test)
                v0, j0 = dict(self.v), dict(self.J)
                self.block(s.body); v1, j1 = self.v, self.J
                self.v, self.J = dict(v0), dict(j0); self.block(s.orelse)
                self.v, self.J = self.merge(c, v0, v1, self.v), self.merge(c, j0, j1, self.J)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.v[s.target.id] = self.bin(s.op, self.v[s.target.id], self.ex(s.value))
            else: raise OutOfReach('generated statement %s' % ast.unparse(s)[:60])
    def store(self, t, v, src):
        if isinstance(t, ast.Name): self.v[t.id] = v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == self.jname and isinstance(t.slice, ast.Constant): self.J[t.slice.value] = v
        else: raise OutOfReach('generated assignment to %s' % ast.unparse(t))
    def cond(self, e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ex(e.left), self.ex(e.comparators[0])
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[type(e.ops[0])]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return z3.Not(self.cond(e.operand))
        if isinstance(e, ast.BoolOp): return (z3.And if isinstance(e.op, ast.And) else z3.Or)([self.cond(x) for x in e.values])
        raise OutOfReach('condition')
    def bin(self, op, a, b):
        if isinstance(op, ast.Add): return a + b
        if isinstance(op, ast.Sub): return a - b
        if isinstance(op, ast.Mult): return a * b
        if isinstance(op, ast.Div): return a / b
        if isinstance(op, ast.Pow): return self.power(a, b)
        if isinstance(op, ast.Mod): return a - b * FLOOR(a / b)
        if isinstance(op, ast.FloorDiv): return FLOOR(a / b)
        raise OutOfReach('operator')
    def ex(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return z3.RealVal(str(Fraction(repr(e.value))))
        if isinstance(e, ast.Name):
            if e.id in self.v: return self.v[e.id]
            raise OutOfReach('name %s' % e.id)
        if isinstance(e, ast.UnaryOp): 
            v = self.ex(e.operand); return -v if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.BinOp): return self.bin(e.op, self.ex(e.left), self.ex(e.right))
        if isinstance(e, ast.IfExp): return z3.If(self.cond(e.test), self.ex(e.body), self.ex(e.orelse))
        if isinstance(e, ast.Attribute) and e.attr == 'pi': return UN['arctan'](z3.RealVal(1)) * 4
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == self.jname and isinstance(e.slice, ast.Constant) and e.slice.value in self.J: return self.J[e.slice.value]
        if isinstance(e, ast.Call) and not e.keywords:
            args = [self.ex(a) for a in e.args]
            if isinstance(e.func, ast.Attribute): return self.call(e.func.attr, args)
            if e.func.id in self.help:
                h = self.help[e.func.id]
                if len(h.body) != 1 or not isinstance(h.body[0], ast.Return): raise OutOfReach('helper %s' % e.func.id)
                save = self.v; self.v = {**{k: v for k, v in save.items() if False}, **{a.arg: x for a, x in zip(h.args.args, args)}}
                try: return self.ex(h.body[0].value)
                finally: self.v = save
            return self.call(e.func.id, args)
        raise OutOfReach('generated expression %s' % ast.unparse(e)[:60])

class F90(Prog):
    def __init__(self, txt):
        super().__init__('Fortran')
        st, cur = [], ''
        for raw in txt.split('\n'):
            l = raw.strip()
            if l.startswith('!'): continue
            q = l.find('!')
            if q >= 0: l = l[:q].rstrip()
            if not l: continue
            if l.startswith('&'): l = l[1:].strip()
            if l.endswith('&'): cur += ' ' + l[:-1].strip(); continue
            st.append((cur + ' ' + l).strip()); cur = ''
        m = re.match(r'(?i)subroutine\s+evaluate_rates\s*\(([^)]*)\)', st[0])
        if not m: raise OutOfReach('evaluate_rates not found')
        self.dim = {}
        self.types = {}
        for n in ('ttime', 'RO2', 'H2O', 'TEMP'): self.v[n.lower()] = z3.Real(n)
        self.ints = set()
        if self.block(st, 1) != len(st): raise OutOfReach('end of the routine')
    def block(self, st, i):
        while i < len(st):
            l = st[i]
            if re.match(r'(?i)end\s*subroutine', l): return i + 1
            if re.match(r'(?i)(else|end\s*if)\b', l): return i
            if re.match(r'(?i)implicit|return', l): i += 1; continue
            if re.match(r'(?i)(real|integer)\b', l) and not re.match(r'(?i)real\w*\s*=', l): self.declare(l); i += 1; continue
            m = re.match(r'(?i)if\s*\((.*)\)\s*then$', l)
            if m:
                c = self.cond(Parser(m.group(1)).expr())
                v0, j0 = dict(self.v), dict(self.J)
                i = self.block(st, i + 1); v1, j1 = self.v, self.J
                self.v, self.J = dict(v0), dict(j0)
                if re.match(r'(?i)else$', st[i]): i = self.block(st, i + 1)
                if not re.match(r'(?i)end\s*if', st[i]): raise OutOfReach('IF block')
                self.v, self.J = self.merge(c, v0, v1, self.v), self.merge(c, j0, j1, self.J)
                i += 1; continue
            self.stmt(l); i += 1
        return i
    def declare(self, l):
        m = re.match(r'(?i)(real|integer)\s*(\(\s*\d+\s*\))?\s*(.*)$', l)
        at, _, names = m.group(3).rpartition('::')
        d = re.search(r'(?i)dimension\s*\(\s*(\d+)\s*\)', at)
        p = Parser(names)
        while p.peek()[0] != 'e':
            n = p.next()[1]
            if p.op('('):
                p.next(); self.dim[n] = int(z3.simplify(self.ex(p.expr())).as_fraction()); p.expect(')')
            elif d: self.dim[n] = int(d.group(1))
            self.types[n] = m.group(1).lower()
            if p.op('='): p.next(); self.v[n] = self.ex(p.expr())
            if p.op(','): p.next()
    def stmt(self, l):
        p = Parser(l); n = p.next()[1]
        if self.types.get(n) != 'real': raise OutOfReach('Fortran statement %s' % l[:60])
        if p.op('('):
            p.next(); k = p.expr(); p.expect(')')
            if n != 'j' or k[0] != 'int': raise OutOfReach('Fortran statement %s' % l[:60])
            if not 1 <= k[1] <= self.dim['j']: raise OutOfReach('J(%d) is outside its declaration' % k[1])
            p.expect('='); self.J[k[1]] = self.ex(p.expr())
        else:
            if n in self.dim: raise OutOfReach('whole array')
            p.expect('='); self.v[n] = self.ex(p.expr())
        if p.peek()[0] != 'e': raise OutOfReach('Fortran statement %s' % l[:60])
    def cond(self, e):
        if e[0] == 'bin' and e[1] in ('==', '/=', '<', '>', '<=', '>='):
            a, b = self.ex(e[2]), self.ex(e[3])
            return {'==': a == b, '/=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e[1]]
        raise OutOfReach('condition')
    def isint(self, e): return e[0] == 'int' or e[0] == 'neg' and self.isint(e[1]) or e[0] == 'bin' and self.isint(e[2]) and self.isint(e[3])
    def ex(self, e):
        if e[0] == 'int': return z3.RealVal(e[1])
        if e[0] == 'real': return z3.RealVal(str(e[1]))
        if e[0] == 'neg': return -self.ex(e[1])
        if e[0] == 'bin':
            if e[1] == '/' and self.isint(e[2]) and self.isint(e[3]):
                x, y = self.ex(e[2]), self.ex(e[3]); q = z3.simplify(x / y).as_fraction(); return z3.RealVal(int(q))
            a, b = self.ex(e[2]), self.ex(e[3])
            if e[1] == '+': return a + b
            if e[1] == '-': return a - b
            if e[1] == '*': return a * b
            if e[1] == '/': return a / b
            if e[1] == '**': return self.power(a, b)
            raise OutOfReach('operator %s' % e[1])
        if e[0] == 'ref':
            n, args = e[1], e[2]
            if args is None:
                if n in self.v: return self.v[n]
                raise OutOfReach('name %s' % n)
            if n == 'j' and 'j' in self.dim:
                if args[0][0] == 'ix' and args[0][1][0] == 'int' and args[0][1][1] in self.J: return self.J[args[0][1][1]]
                raise OutOfReach('J before its value')
            return self.call(n, [self.ex(a[1]) for a in args if a[0] == 'ix'])
        raise OutOfReach('Fortran expression')

# ------------------------------------------------------------------ normal forms
class Canon:
    """normal forms of real terms: a rational function over atoms (applications of functions to normal forms)"""
    def __init__(self):
        self.memo, self.atoms, self.info = {}, {}, {}
        self.sol = z3.Solver()
    def atom(self, key, kind, args):
        if key not in self.atoms:
            a = sp.Symbol('a%d' % len(self.atoms), real=True); self.atoms[key] = a; self.info[a] = (kind, args)
        return self.atoms[key]
    def norm(self, e): return sp.cancel(sp.together(e))
    def split(self, c, assume):
        """truth of a condition under the assumptions (conditions by normal form)"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT: return not self.split(c.arg(0), assume)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            vs = [self.split(x, assume) for x in c.children()]
            return all(vs) if k == z3.Z3_OP_AND else any(vs)
        d = self.norm(self.of(c.arg(0), assume) - self.of(c.arg(1), assume))
        neg = False
        if k == z3.Z3_OP_GE: d = self.norm(-d); rel = '<='
        elif k == z3.Z3_OP_LE: rel = '<='
        elif k == z3.Z3_OP_GT: rel = '<='; neg = True
        elif k == z3.Z3_OP_LT: d = self.norm(-d); rel = '<='; neg = True
        elif k == z3.Z3_OP_EQ: rel = '=='
        else: raise OutOfReach('condition %s' % c)
        if d.is_number:
            v = bool(d <= 0) if rel == '<=' else bool(d == 0)
        else:
            key = (rel, sp.srepr(d))
            if key not in assume: raise Case(key, d, rel)
            v = assume[key]
        return v != neg
    def of(self, t, assume):
        key = (t.get_id(), tuple(sorted(assume.items())))
        if key in self.memo: return self.memo[key][1]
        r = self.of1(t, assume); self.memo[key] = (t, r); return r
    def of1(self, t, A):
        k = t.decl().kind(); n = t.decl().name(); ch = t.children()
        if z3.is_rational_value(t): return sp.Rational(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t): return sp.Integer(t.as_long())
        if k == z3.Z3_OP_ITE: return self.of(ch[1] if self.split(ch[0], A) else ch[2], A)
        a = [self.of(c, A) for c in ch]
        if k == z3.Z3_OP_ADD: return self.norm(sp.Add(*a))
        if k == z3.Z3_OP_MUL: return self.norm(sp.Mul(*a))
        if k == z3.Z3_OP_SUB: return self.norm(a[0] - sp.Add(*a[1:]))
        if k == z3.Z3_OP_UMINUS: return self.norm(-a[0])
        if k == z3.Z3_OP_DIV:
            if a[1] == 0: raise OutOfReach('division by zero')
            return self.norm(a[0] / a[1])
        if k == z3.Z3_OP_TO_REAL: return a[0]
        if not ch: return sp.Symbol(n, real=True)
        if n == 'pow':
            if a[0] == 0 and a[1].is_number and a[1] > 0: return sp.Integer(0)
            if a[0] == 0: raise OutOfReach('power of zero')
            if a[1].is_Integer and abs(a[1]) <= 8: return self.norm(a[0] ** a[1])
            if a[0] == 1: return sp.Integer(1)
        if n == 'fn_floor' :
            x = sp.expand(a[0]); c = [q for q in sp.Add.make_args(x) if q.is_Rational]
            m = sp.floor(c[0]) if c else 0
            if m != 0:
                return self.norm(self.floor(x - m) + m)
            return self.floor(x)
        if n == 'fn_exp' and a[0] == 0: return sp.Integer(1)
        if n == 'fn_arctan' and a[0] == 1: return sp.pi / 4
        if n == 'fn_sqrt': return self.atom(('pow', sp.srepr(a[0]), sp.srepr(sp.Rational(1, 2))), 'pow', (a[0], sp.Rational(1, 2)))
        if n == 'fn_abs' and a[0].is_number: return abs(a[0])
        if n in ('fn_cos', 'fn_sin') and a[0] == 0: return sp.Integer(1 if n == 'fn_cos' else 0)
        sgn = 1
        if n in ('fn_sin', 'fn_cos'):       # parity
            nu = sp.expand(a[0]); lead = sp.Add.make_args(nu)[0]
            if sp.srepr(self.norm(-a[0])) < sp.srepr(a[0]): a = [self.norm(-a[0])]; sgn = -1 if n == 'fn_sin' else 1
        return sgn * self.atom((n,) + tuple(sp.srepr(x) for x in a), n if n != 'pow' else 'pow', tuple(a))
    def floor(self, x):
        if x.is_number: return sp.floor(x)
        return self.atom(('fn_floor', sp.srepr(self.norm(x))), 'fn_floor', (self.norm(x),))
class Case(Exception):
    def __init__(self, key, d, rel): self.key, self.d, self.rel = key, d, rel

def cases(f, assume=None, depth=0):
    """results of f under every truth assignment of the conditions it meets"""
    assume = assume or {}
    try: return [(assume, f(assume))]
    except Case as c:
        if depth > 5: raise OutOfReach('too many cases')
        return cases(f, {**assume, c.key: True}, depth + 1) + cases(f, {**assume, c.key: False}, depth + 1)

def evaluate(t, env):
    """value of a term with 60 digits"""
    memo = {}
    mp = mpmath
    def go(t):
        i = t.get_id()
        if i not in memo: memo[i] = go1(t)
        return memo[i]
    def truth(c):
        k = c.decl().kind(); a = c.children()
        if k == z3.Z3_OP_NOT: return not truth(a[0])
        if k == z3.Z3_OP_AND: return all(truth(x) for x in a)
        if k == z3.Z3_OP_OR: return any(truth(x) for x in a)
        x, y = go(a[0]), go(a[1])
        return {z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y, z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y, z3.Z3_OP_EQ: x == y}[k]
    def go1(t):
        k = t.decl().kind(); n = t.decl().name(); ch = t.children()
        if z3.is_rational_value(t): return mp.mpf(t.numerator_as_long()) / t.denominator_as_long()
        if k == z3.Z3_OP_ITE: return go(ch[1]) if truth(ch[0]) else go(ch[2])
        if not ch: return mp.mpf(env[n])
        a = [go(c) for c in ch]
        if k == z3.Z3_OP_ADD: return mp.fsum(a)
        if k == z3.Z3_OP_MUL: return mp.fprod(a)
        if k == z3.Z3_OP_SUB: return a[0] - mp.fsum(a[1:])
        if k == z3.Z3_OP_UMINUS: return -a[0]
        if k == z3.Z3_OP_DIV: return a[0] / a[1]
        if n == 'pow': return mp.mpf(0) if a[0] == 0 and a[1] > 0 else mp.power(a[0], a[1])
        f = {'fn_exp': mp.exp, 'fn_log': mp.log, 'fn_log10': mp.log10, 'fn_sqrt': mp.sqrt, 'fn_cos': mp.cos, 'fn_sin': mp.sin, 'fn_tan': mp.tan, 'fn_arctan': mp.atan, 'fn_arccos': mp.acos, 'fn_arcsin': mp.asin, 'fn_abs': abs, 'fn_floor': mp.floor}[n]
        return f(a[0])
    with mp.workdps(60): return go(t)

class Dec:
    def __init__(self, label, limit): self.label, self.vcs, self.C, self.t0, self.limit = label, [], Canon(), time.time(), limit
    def vc(self, name, st, det='', t=0.0, be='normal forms'): self.vcs.append(('%s: %s' % (self.label, name), st, round(t, 3), det, be))
    def points(self):
        rnd = random.Random(5)
        out = []
        for i in range(24): out.append(dict(ttime=str(rnd.choice([0, 43200, 86400 * 3 + 21600, rnd.randint(0, 200000)]) + i * 37), RO2='3e9', H2O='%de16' % rnd.randint(1, 90), TEMP=str(rnd.choice([200, 273, 298, 320, 1000, 40]) + i)))
        for x in (13000, 13600, 13900, 14100, 14300, 14800, 71600, 72000, 72300, 72600, 73200, 86399, 86401, 172000): out.append(dict(ttime=str(x), RO2='3e9', H2O='2e17', TEMP='290'))
        return out
    def equal(self, name, a, b):
        t = time.time()
        if time.time() - self.t0 > self.limit: return self.vc(name, 'undecided', 'time limit')
        try:
            bad = None
            for A, d in cases(lambda A: self.C.norm(self.C.of(a, A) - self.C.of(b, A))):
                if d != 0: bad = (A, d)
            if bad is None: return self.vc(name, 'proved', '', time.time() - t)
            det = str(bad[1])[:200]
        except OutOfReach as e: det = str(e)
        for p in self.points():
            try: x, y = evaluate(a, p), evaluate(b, p)
            except Exception as e: det = str(e); continue
            if abs(x - y) > mpmath.mpf('1e-25') * max(abs(x), abs(y)): return self.vc(name, 'failed', '%s: %s against %s' % (p, mpmath.nstr(x, 12), mpmath.nstr(y, 12)), time.time() - t, 'evaluation')
        self.vc(name, 'undecided', det, time.time() - t)
    def z3term(self, e, hyps, done):
        """sympy normal form -> z3, with facts about its atoms"""
        e = sp.sympify(e)
        if e.is_Rational: return z3.RealVal(str(Fraction(int(e.p), int(e.q))))
        if e.is_Symbol:
            v = z3.Real(e.name)
            if e in self.C.info and e not in done:
                done.add(e); kind, args = self.C.info[e]
                hyps += self.facts(v, kind, args, hyps, done)
            return v
        if e.is_Add: return z3.Sum([self.z3term(x, hyps, done) for x in e.args])
        if e.is_Mul: return z3.Product([self.z3term(x, hyps, done) for x in e.args])
        if e.is_Pow and e.exp.is_Integer:
            b = self.z3term(e.base, hyps, done); r = z3.RealVal(1)
            for _ in range(abs(int(e.exp))): r = r * b
            return r if e.exp > 0 else 1 / r
        if e == sp.pi: hyps += [z3.Real('pi') > 3]; return z3.Real('pi')
        raise OutOfReach('term %s' % e)
    def facts(self, v, kind, args, hyps, done):
        z = [self.z3term(x, hyps, done) for x in args]
        base = [z3.Real('TEMP') > 0, z3.Real('H2O') >= 0, z3.Real('ttime') >= 0]
        if kind == 'fn_exp':
            out = [v > 0]
            if self.valid(base + hyps, z[0] <= 0): out += [v <= 1, v * (1 - z[0]) <= 1]
            return out
        if kind == 'pow':
            out = []
            if self.valid(base + hyps, z[0] > 0):
                out.append(v > 0)
                if self.valid(base + hyps, z[0] >= 1) and self.valid(base + hyps, z[1] <= 0): out.append(v <= 1)
            return out
        if kind == 'fn_log10':
            if self.valid(base + hyps, z3.And(z[0] > 0, z[0] < 1)): return [v < 0]
            return []
        if kind == 'fn_floor': return [v <= z[0], z[0] < v + 1]
        if kind in ('fn_cos', 'fn_sin'): return [v <= 1, v >= -1]
        return []
    def valid(self, hyps, goal, to=8000):
        s = z3.Solver(); s.set('timeout', to); s.add(*hyps); s.add(z3.Not(goal)); return s.check() == z3.unsat
    def bounds(self, name, term, lo_term=None):
        """0 < term (lo_term None) or term <= lo_term"""
        t = time.time()
        det = ''
        try:
            ok = True
            for A, d in cases(lambda A: (self.C.of(term, A), None if lo_term is None else self.C.of(lo_term, A))):
                x, lim = d
                hyps, done = [z3.Real('TEMP') > 0, z3.Real('H2O') >= 0], set()
                if lim is None:
                    n, m = sp.fraction(self.C.norm(x)); n, m = sp.factor(n), sp.factor(m)
                    g = self.z3term(n, hyps, done) * self.z3term(m, hyps, done) > 0
                else:
                    r = self.C.norm(x / lim); n, m = sp.fraction(r)
                    zn, zm = self.z3term(n, hyps, done), self.z3term(m, hyps, done)
                    g = z3.Or(z3.And(zm > 0, zn <= zm), z3.And(zm < 0, zn >= zm))
                if not self.valid(hyps, g, 20000): ok = False; det = 'the bound does not follow from the facts about its parts'
            if ok: return self.vc(name, 'proved', '', time.time() - t, 'z3')
        except OutOfReach as e: det = str(e)
        for p in self.points():
            try: x = evaluate(term, p); y = mpmath.mpf(0) if lo_term is None else evaluate(lo_term, p)
            except Exception as e: det = str(e); continue
            if (lo_term is None and not x > 0) or (lo_term is not None and x > y * (1 + mpmath.mpf('1e-20'))): return self.vc(name, 'failed', '%s: %s against %s' % (p, mpmath.nstr(x, 12), mpmath.nstr(y, 12)), time.time() - t, 'evaluation')
        self.vc(name, 'undecided', det, time.time() - t)

def kterm(txt):
    """reference text -> term"""
    def go(n):
        if n[0] == 'num': return z3.RealVal(str(Fraction(repr(n[1]))))
        if n[0] == 'name': return z3.RealVal('25500000000000000000') if n[1] == 'M' else z3.Real(n[1])
        if n[0] == 'neg': return -go(n[1])
        if n[0] == 'call': return UN[n[1].lower()](go(n[2]))
        a, b = go(n[1]), go(n[2])
        if n[0] == '**': return Prog('ref').power(a, b)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[n[0]]()
    return go(kpp.parse(txt))

def cosx_spec():
    """cosine of the solar zenith angle (AtChem2 formulae) at the modelled site"""
    q = lambda s: z3.RealVal(s)
    t = z3.Real('ttime'); pi = UN['arctan'](z3.RealVal(1)) * 4
    c, s = UN['cos'], UN['sin']
    th = 2 * pi * 149 / 365
    b = [q(x) for x in ('0.006918', '-0.399912', '0.070257', '-0.006758', '0.000907', '-0.002697', '0.001480')]
    dec = b[0] + b[1] * c(th) + b[2] * s(th) + b[3] * c(2 * th) + b[4] * s(2 * th) + b[5] * c(3 * th) + b[6] * s(3 * th)
    eq = q('0.000075') + q('0.001868') * c(th) - q('0.032077') * s(th) - q('0.014615') * c(2 * th) - q('0.040849') * s(2 * th)
    day = t / 86400
    lha = pi * ((day - FLOOR(day)) * 24 / 12 - (1 + q('0.13') / 180)) + eq
    la = q('51.51') * pi / 180
    return c(lha) * (c(la) * c(dec)) + s(la) * s(dec)

def value(P, name):
    if name.startswith('J('):
        k = int(name[2:-1])
        if k not in P.J: raise OutOfReach('%s has no value in the %s file' % (name, P.label))
        return P.J[k]
    n = name if P.label == 'Python' else name.lower()
    if n not in P.v: raise OutOfReach('%s has no value in the %s file' % (name, P.label))
    return P.v[n]

ALL = kpp.KNAMES + ['J(%d)' % i for i in kpp.JNUM]
def job(prop, part, limit):
    """part: py, f90, omp (C09 and bounds of C08), or eq, eqomp (equality of the two files)"""
    t0 = time.time(); oor = None; D = Dec('%s %s' % (prop, part), limit); assumed = []
    how = {}
    try:
        def load(w):
            txt, h = generated('py' if w == 'py' else 'f90', w == 'omp', limit); how[w] = h
            return Py(txt) if w == 'py' else F90(txt)
        if part in ('eq', 'eqomp'):
            a, b = load('py'), load('f90' if part == 'eq' else 'omp')
            for n in ALL:
                try: x, y = value(a, n), value(b, n)
                except OutOfReach as e: D.vc('%s has one value in both files' % n, 'failed', str(e)); continue
                D.equal('%s has one value in both files' % n, x, y)
        elif prop == 'C08':
            P = load(part); ref = json.load(open(os.path.join(VERIF, 'pv', 'reference', 'falloff.json')))
            for n, (k0, ki) in ref.items():
                D.bounds('%s is positive' % n, value(P, n))
                D.bounds('%s is no larger than its low-pressure limit' % n, value(P, n), kterm(k0))
                D.bounds('%s is no larger than its high-pressure limit' % n, value(P, n), kterm(ki))
        else:
            P = load(part); C = D.C; spec = C.of(cosx_spec(), {})
            t = z3.Real('ttime')
            for k in kpp.JNUM:
                n = 'J(%d)' % k
                try: j = value(P, n)
                except OutOfReach as e: D.vc('%s has a value' % n, 'failed', str(e)); continue
                D.equal('%s repeats every day' % n, j, z3.substitute(j, (t, t + 86400)))
                photolysis(D, n, j, spec)
    except OutOfReach as e: oor = str(e)
    except Exception as e:
        if os.environ.get('PV_DEBUG'): raise
        oor = 'the verifier does not follow this code: %s: %s' % (type(e).__name__, e)
    for w, h in how.items():
        if h != 'symbolic': assumed.append('%s: the text around the slots was obtained by running the writer for two rate tables and assumed for all (%s)' % (w, h))
    fns = ['Parse_eqn_file.py:%s' % WR['py' if w == 'py' else 'f90'][0] for w in how] + ['%s:evaluate_rates (generated)' % WR['py' if w == 'py' else 'f90'][1] for w in how]
    return dict(label='%s %s' % (prop, part), vcs=D.vcs, functions=fns, oor=oor, covers={'both files are read to their end': oor is None}, wall=time.time() - t0, assumed=assumed)

def photolysis(D, n, j, spec):
    """non-negative always, zero when the cosine of the zenith angle is not positive"""
    t = time.time(); C = D.C; det = ''; st = 'proved'
    try:
        cs = cases(lambda A: C.of(j, A))
    except OutOfReach as e: cs, det, st = [], str(e), 'undecided'
    X = z3.Real('cosine')
    res = {'is non-negative': st, 'is zero while the sun is below the horizon': st}
    for A, x in cs:
        # what the case says about the cosine: conditions that are affine in the specified cosine
        hyps = []
        for (rel, key), truth in A.items():
            d = sp.sympify(eval(key, {k: getattr(sp, k) for k in ('Symbol', 'Rational', 'Integer', 'Add', 'Mul', 'Pow', 'pi')}))
            aff = affine(C, d, spec)
            if aff is None: det = 'condition on something other than the solar zenith angle: %s' % str(d)[:120]; continue
            c, r = aff; e = z3.RealVal(str(c)) * X + z3.RealVal(str(r))
            f = e <= 0 if rel == '<=' else e == 0
            hyps.append(f if truth else z3.Not(f))
        s = z3.Solver(); s.add(*hyps)
        if s.check() == z3.unsat: continue
        if x == 0: continue
        s.add(X <= 0)
        if s.check() != z3.unsat: res['is zero while the sun is below the horizon'] = 'undecided'; det = det or 'not zero for a cosine that is not positive'
        # sign: product of positive constant, powers of a positive cosine, exponentials
        h2, done = [], set()
        def pos(e):
            e = sp.factor(e)
            if e.is_Rational: return e > 0
            if e.is_Mul: return all(pos(q) for q in e.args)
            if e.is_Pow and e.exp.is_Integer: return pos(e.base)
            if e.is_Symbol and e in C.info:
                kind, args = C.info[e]
                if kind == 'fn_exp': return True
                if kind == 'pow':
                    aff = affine(C, args[0], spec)
                    if aff is None: return False
                    c, r = aff; s2 = z3.Solver(); s2.add(*hyps); s2.add(z3.Not(z3.RealVal(str(c)) * X + z3.RealVal(str(r)) > 0)); return s2.check() == z3.unsat
            aff = affine(C, e, spec)
            if aff is not None:
                c, r = aff; s2 = z3.Solver(); s2.add(*hyps); s2.add(z3.Not(z3.RealVal(str(c)) * X + z3.RealVal(str(r)) > 0)); return s2.check() == z3.unsat
            return False
        if not pos(x): res['is non-negative'] = 'undecided'; det = det or 'sign of %s' % str(x)[:120]
    # refutation by evaluation
    cosf = cosx_spec()
    if 'undecided' in res.values():
        rnd = random.Random(11)
        for i in range(120):
            p = dict(ttime=str(i * 720 + rnd.randint(0, 3) * 86400), RO2='1e9', H2O='1e17', TEMP='298')
            try: v, c = evaluate(j, p), evaluate(cosf, p)
            except Exception as e: det = det or str(e); continue
            if isinstance(v, mpmath.mpc) or v < 0: res['is non-negative'] = 'failed'; det = '%s: %s' % (p, v)
            if c < mpmath.mpf('-1e-9') and v != 0: res['is zero while the sun is below the horizon'] = 'failed'; det = '%s: %s, cosine %s' % (p, mpmath.nstr(v, 8), mpmath.nstr(c, 8))
    for k, v in res.items(): D.vc('%s %s' % (n, k), v, '' if v == 'proved' else det, time.time() - t, 'normal forms, z3' if v != 'failed' else 'evaluation')

def affine(C, d, spec):
    """(c, r) with d = c * spec + r, rational c and r"""
    a = [x for x in spec.free_symbols if x in C.info and C.info[x][0] == 'fn_cos' and any(C.info.get(y, ('',))[0] == 'fn_floor' for y in C.info[x][1][0].free_symbols)]
    if d.is_Rational: return Fraction(0), Fraction(int(d.p), int(d.q))
    for x in a:
        try: c = C.norm(sp.diff(d, x) / sp.diff(spec, x))
        except Exception: continue
        if c.is_Rational:
            r = C.norm(d - c * spec)
            if r.is_Rational: return Fraction(int(c.p), int(c.q)), Fraction(int(r.p), int(r.q))
    return None
