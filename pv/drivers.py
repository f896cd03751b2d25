"""C21: the drivers, executed twice in terms: once fresh, once from the files the fresh run left behind.

Library functions, the parser, the writers and the property functions are uninterpreted functions of the contents of their
arguments (and of the files they are given); files are a store from path to content. A statement outside the subset is a
deterministic function of everything it reads. The two calls of run_simulation must receive equal terms."""
import ast, os, sys, time, fnmatch
from .common import REPO

class Out(Exception): pass
class Fail(Exception):
    def __init__(s, what): s.what = what
class NoName(Fail): pass
class Ret(Exception): pass
class Brk(Exception): pass
class Cnt(Exception): pass

THIRD = {'numpy', 'scipy', 'matplotlib', 'pandas', 'assimulo', 'pybel', 'openbabel', 'numba', 'umansysprop', 'pylab', 'sympy', 'PyBox'}
NONDET = ('time.', 'datetime.', 'random.', 'uuid.', 'numpy.random.', 'os.getpid', 'secrets.')
SCALAR = {'len', 'int', 'float', '+', '-', '*', '/', 'sum', 'max', 'min'}
_T = {}
class Term:
    """hash-consed application"""
    __slots__ = ('op', 'args', 'key')
    def __repr__(s): return show(s)
def T(op, *args):
    k = (op,) + tuple(id(a) if isinstance(a, Term) else (type(a).__name__, a) for a in args)
    t = _T.get(k)
    if t is None:
        t = Term(); t.op, t.args = op, args; _T[k] = t
        KEEP.append(t)
    return t
KEEP = []
def show(t, d=4):
    if not isinstance(t, Term): return repr(t)
    if d == 0: return '...'
    return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) for a in t.args)) if t.args else t.op
def first_diff(a, b, path='', d=12):
    if a is b or not isinstance(a, Term) and not isinstance(b, Term) and a == b and type(a) == type(b): return None
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.args) == len(b.args) and d:
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            r = first_diff(x, y, '%s/%s.%d' % (path, a.op, i), d - 1)
            if r: return r
    return '%s: fresh %s, restart %s' % (path or 'argument', show(a, 3)[:300], show(b, 3)[:300])

class Ref:
    """a mutable object; content is a term"""
    def __init__(s, content): s.content, s.kids = content, {}
class DRef(Ref):
    """a dictionary or list built by the driver with concrete keys"""
    def __init__(s, kind, items): s.kind, s.items, s.kids = kind, items, {}
class Mod:
    def __init__(s, n): s.n = n
class Fn:
    def __init__(s, n): s.n = n
class Meth:
    def __init__(s, o, m): s.o, s.m = o, m
class Handle:
    def __init__(s, path, mode): s.path, s.mode = path, mode
PRIM = (int, float, str, bool, type(None), complex, bytes)

def content(v, seen=()):
    if isinstance(v, PRIM): return v
    if isinstance(v, Term): return v
    if id(v) in seen: return T('cycle')
    sn = seen + (id(v),)
    if isinstance(v, DRef):
        if v.kind == 'dict':
            its = [(content(k, sn), content(x, sn)) for k, x in v.items]
            return T('dict', *[y for x in its for y in x])
        return T(v.kind, *[content(x, sn) for x in v.items])
    if isinstance(v, Ref):
        # changes of an element that was handed out belong to the content
        ch = [(k, content(x, sn)) for k, x in v.kids.items()]
        ch = [(k, x) for k, x in ch if x is not T('get', v.content, k)]
        t = v.content
        for k, x in ch: t = T('with', t, k, x)
        return t
    if isinstance(v, tuple): return T('tuple', *[content(x, sn) for x in v])
    if isinstance(v, Mod): return T('module ' + v.n)
    if isinstance(v, Fn): return T('function ' + v.n)
    if isinstance(v, Meth): return T('method ' + v.m, content(v.o, sn))
    if isinstance(v, Handle): return T('file', v.path, v.mode)
    raise Out('a value of the driver')

# ---- which arguments a project function may change, which files it writes --------------------------------------------------
MUT = {'append', 'update', 'pop', 'clear', 'insert', 'extend', 'remove', 'sort', 'reverse', 'setdefault', 'popitem', 'fill', 'resize', 'put', 'itemset', '__setitem__', 'add', 'discard', 'sort'}
class Lib:
    def __init__(s, dirs):
        s.dirs, s.mods = dirs, {}
    def find(s, mod):
        mod = mod.split('.')[-1]
        for d in s.dirs:
            f = os.path.join(d, mod + '.py')
            if os.path.exists(f): return f
    def defs(s, mod):
        if mod not in s.mods:
            f = s.find(mod)
            if not f: return None
            t = ast.parse(open(f).read())
            s.mods[mod] = {n.name: n for n in t.body if isinstance(n, ast.FunctionDef)}
        return s.mods[mod]
    def changes(s, mod, fn, depth=0):
        """names of parameters whose object may be changed (flow-insensitive, through local names)"""
        d = s.defs(mod)
        f = d.get(fn)
        if f is None: return None
        par = [a.arg for a in f.args.args + f.args.kwonlyargs]
        roots = {p: {p} for p in par}
        def root(e):
            if isinstance(e, ast.Name): return roots.get(e.id, set())
            if isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)): return root(e.value)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'values', 'get', 'setdefault', 'pop', 'keys'): return root(e.func.value)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'zip', 'reversed', 'sorted', 'list', 'tuple', 'iter', 'next'): return set().union(set(), *[root(a) for a in e.args])
            if isinstance(e, (ast.Tuple, ast.List)): return set().union(set(), *[root(x) for x in e.elts])
            if isinstance(e, ast.IfExp): return root(e.body) | root(e.orelse)
            if isinstance(e, ast.BoolOp): return set().union(set(), *[root(x) for x in e.values])
            return set()
        rebound = set()
        for n in ast.walk(f):
            # rd = dict(rd): the name no longer stands for the parameter afterwards
            if isinstance(n, ast.Assign) and n in f.body and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ('dict', 'list') and len(n.value.args) == 1 and isinstance(n.value.args[0], ast.Name) and n.value.args[0].id == n.targets[0].id:
                before = f.body[:f.body.index(n)]
                if not any(isinstance(x, ast.Name) and x.id == n.targets[0].id for b in before for x in ast.walk(b)): rebound.add(n.targets[0].id)
        for p in rebound: roots[p] = set()
        for _ in range(4):
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    r = root(n.value)
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in rebound: roots.setdefault(x.id, set()).update(r)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    r = root(n.iter)
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name): roots.setdefault(x.id, set()).update(r)
        out = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)): out |= root(n.value)
            if isinstance(n, ast.AugAssign): out |= root(n.target)
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT: out |= root(n.func.value)
                callee = n.func.id if isinstance(n.func, ast.Name) else None
                if callee in d and depth < 5 and callee != fn:
                    ch = s.changes(mod, callee, depth + 1) or set()
                    ps = [a.arg for a in d[callee].args.args]
                    for p, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                        if p in ch: out |= root(a)
        return out & set(par)
    def writes(s, mod, fn, env, depth=0):
        """[(path, certain)] of files written, evaluated with the known text arguments"""
        d = s.defs(mod); f = d[fn]; res = []
        def val(e):
            if isinstance(e, ast.Constant): return e.value if isinstance(e.value, str) else None
            if isinstance(e, ast.Name): return env.get(e.id)
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                a, b = val(e.left), val(e.right)
                return a + b if isinstance(a, str) and isinstance(b, str) else None
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
                r = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
                vs = [val(x) for x in r]
                return e.left.value % tuple(vs) if all(isinstance(v, str) for v in vs) else None
            if isinstance(e, ast.JoinedStr):
                vs = [val(x.value) if isinstance(x, ast.FormattedValue) else x.value for x in e.values]
                return ''.join(vs) if all(isinstance(v, str) for v in vs) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant) and not e.keywords:
                vs = [val(x) for x in e.args]
                return e.func.value.value.format(*vs) if all(isinstance(v, str) for v in vs) else None
            return None
        def walk(b, sure):
            for n in b:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)): continue
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and val(n.value) is not None and sure: env[n.targets[0].id] = val(n.value)
                exprs = []
                for k, v in ast.iter_fields(n):
                    if isinstance(v, ast.expr): exprs.append(v)
                    elif isinstance(v, list): exprs += [x for x in v if isinstance(x, (ast.expr, ast.withitem))]
                for x in exprs:
                    for c in ast.walk(x):
                        if isinstance(c, ast.Call): call(c, sure)
                sub = sure and isinstance(n, (ast.With, ast.Try))
                for k in ('body', 'orelse', 'finalbody'): walk(getattr(n, k, []) or [], sub if k != 'orelse' else False)
                for h in getattr(n, 'handlers', []) or []: walk(h.body, False)
        def call(c, sure):
            nm = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            if nm == 'open' and len(c.args) > 1 and isinstance(c.args[1], ast.Constant) and 'w' in str(c.args[1].value): res.append((val(c.args[0]), sure))
            elif nm in ('save', 'savez', 'save_npz', 'savetxt', 'savez_compressed') and isinstance(c.func, ast.Attribute):
                p = val(c.args[0])
                ext = {'save': '.npy', 'savetxt': ''}.get(nm, '.npz')
                res.append((p + ('' if p.endswith(ext) else ext) if p is not None else None, sure))
            elif isinstance(c.func, ast.Name) and nm in d and nm != fn and depth < 5:
                g = d[nm]; ps = [a.arg for a in g.args.args]
                e2 = {p: val(a) for p, a in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords]}
                res.extend((p, q and sure) for p, q in s.writes(mod, nm, {k: v for k, v in e2.items() if v is not None}, depth + 1))
        walk(f.body, True)
        return res

class Run:
    def __init__(s, path, fresh, store, decide, lib):
        s.path, s.fresh, s.store, s.decide, s.lib = path, fresh, store, decide, lib
        s.env, s.calls, s.used, s.reads, s.nd, s.switches, s.unknown = {}, [], set(), set(), 0, 0, set()
    def run(s):
        t = ast.parse(open(os.path.join(REPO, s.path)).read())
        s.tree = t
        s.fdefs = {n.name: n for n in t.body if isinstance(n, ast.FunctionDef)}
        try:
            s.block(t.body)
        except Ret: raise Out('return')
        return s
    def block(s, b):
        for n in b: s.stmt(n)
    # names
    def get(s, k):
        if k in s.env: return s.env[k]
        import builtins
        if k == '__name__': return '__main__'
        if hasattr(builtins, k): return Fn(k)
        raise NoName('%s has no value here' % k)
    def stmt(s, n):
        try: s.stmt1(n)
        except Out as o:
            if getattr(o, 'final', False) or isinstance(n, (ast.FunctionDef, ast.ClassDef)): raise
            s.havoc(n, o)
    def havoc(s, n, why):
        """a statement outside the subset: a deterministic function of everything it reads"""
        bad = None
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                nm = ast.unparse(x.func)
                if any(k in nm for k in ('open', 'load', 'dump', 'remove', 'system', 'save', 'run_simulation', 'exec', 'eval', 'copy2', 'unlink')) or nm.startswith(NONDET): bad = nm
                if isinstance(x.func, ast.Name) and x.func.id in s.fdefs: bad = nm
            if isinstance(x, (ast.Return, ast.Raise, ast.Global, ast.Nonlocal, ast.Lambda, ast.Yield)): bad = type(x).__name__
        if bad or s.depth:
            e = Out('%s (line %d, %s)' % (why, n.lineno, bad)); e.final = True
            raise e
        read = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in s.env})
        src = T('code ' + ast.unparse(n))
        state = [T('var', k, content(s.env[k])) for k in read]
        stored = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        touched = set()
        for x in ast.walk(n):
            e = None
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)): e = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute): e = x.func.value
            elif isinstance(x, ast.AugAssign): e = x.target
            while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)): e = e.value if not isinstance(e, ast.Call) else e.func
            if isinstance(e, ast.Name): touched.add(e.id)
            if isinstance(x, ast.Call):
                for a in x.args + [k.value for k in x.keywords]:
                    f = s.impure(x)
                    if f and isinstance(a, ast.Name): touched.add(a.id)
        objs = [s.env[k] for k in sorted(touched) if k in s.env and isinstance(s.env[k], Ref)]
        for i, o in enumerate(objs): s.set_content(o, T('object %d after' % i, src, *state))
        for k in stored: s.env[k] = Ref(T('value of ' + k, src, *state))
    def impure(s, call):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and isinstance(s.env.get(f.value.id), Mod):
            m = s.env[f.value.id].n
            return bool(s.lib.defs(m) is not None and s.lib.changes(m, f.attr))
        return False
    def set_content(s, o, t):
        if isinstance(o, DRef):
            o.__class__ = Ref; del o.items, o.kind
        for k in list(o.kids.values()): s.set_content(k, T('part of', t, content(k)))
        o.content = t; o.kids = {}
    depth = 0
    def stmt1(s, n):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if isinstance(n, ast.Import): s.env[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])
                else: s.env[a.asname or a.name] = Mod(n.module + '.' + a.name) if n.module in ('PyBox',) or s.lib.find(a.name) or n.module == 'datetime' else Fn((n.module or '') + '.' + a.name)
        elif isinstance(n, ast.Expr):
            if not isinstance(n.value, ast.Constant): s.ev(n.value)
        elif isinstance(n, ast.Assign):
            v = s.ev(n.value)
            for t in n.targets: s.bind(t, v)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None: s.bind(n.target, s.ev(n.value))
        elif isinstance(n, ast.AugAssign):
            a = s.ev(ast.Name(id=n.target.id, ctx=ast.Load()) if isinstance(n.target, ast.Name) else n.target); b = s.ev(n.value)
            r = s.binop(type(n.op), a, b)
            if isinstance(a, Ref) and not (type(a) is Ref and isinstance(a.content, Term) and a.content.op in SCALAR):
                s.set_content(a, content(r))
            else: s.bind(n.target, r)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name): s.get(t.id); del s.env[t.id]
                else: raise Out('del')
        elif isinstance(n, ast.If): s.block(n.body if s.truth(s.ev(n.test)) else n.orelse)
        elif isinstance(n, ast.For): s.loop(n)
        elif isinstance(n, ast.With): s.withs(n)
        elif isinstance(n, ast.Pass): pass
        elif isinstance(n, ast.FunctionDef): s.env[n.name] = n
        elif isinstance(n, ast.Return): r = Ret(); r.v = s.ev(n.value) if n.value else None; raise r
        elif isinstance(n, ast.Continue): raise Cnt()
        elif isinstance(n, ast.Break): raise Brk()
        elif isinstance(n, ast.Global): pass
        else: raise Out(type(n).__name__)
    def withs(s, n):
        for w in n.items:
            v = s.ev(w.context_expr)
            if not isinstance(v, Handle): raise Out('with')
            if w.optional_vars is not None: s.bind(w.optional_vars, v)
        s.block(n.body)
    def loop(s, n):
        it = s.ev(n.iter)
        if isinstance(it, DRef) and it.kind in ('list', 'tuple'): vs = list(it.items)
        elif isinstance(it, tuple): vs = list(it)
        elif isinstance(it, DRef) and it.kind == 'dict': vs = [k for k, _ in it.items]
        else: raise Out('a loop over ' + type(it).__name__)
        if len(vs) > 200: raise Out('a long loop')
        for v in vs:
            s.bind(n.target, v)
            try: s.block(n.body)
            except Cnt: continue
            except Brk: return
        s.block(n.orelse)
    def bind(s, t, v):
        if isinstance(t, ast.Name):
            if t.id == s.SWITCH and v is False and not s.fresh: v = True
            if t.id == s.SWITCH: s.switches += 1
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple) and len(v) == len(t.elts):
                for x, y in zip(t.elts, v): s.bind(x, y)
            else:
                c = content(v)
                for i, x in enumerate(t.elts): s.bind(x, Ref(T('element', c, i)))
        elif isinstance(t, ast.Subscript):
            o, k = s.ev(t.value), s.ev(t.slice)
            if isinstance(o, DRef) and o.kind == 'dict' and isinstance(k, PRIM):
                for i, (a, b) in enumerate(o.items):
                    if a == k and type(a) == type(k): o.items[i] = (k, v); return
                o.items.append((k, v)); return
            if isinstance(o, Ref): s.set_content(o, T('set', content(o), content(k), content(v)))
            else: raise Out('assignment to an element')
        elif isinstance(t, ast.Attribute):
            o = s.ev(t.value)
            if isinstance(o, Mod): return
            if isinstance(o, Ref): s.set_content(o, T('setattr', content(o), t.attr, content(v)))
            else: raise Out('assignment to an attribute')
        else: raise Out('assignment')
    SWITCH = 'files_exist'
    def truth(s, v):
        if isinstance(v, PRIM): return bool(v)
        t = content(v)
        if t not in s.dec: s.dec[t] = s.decide()
        return s.dec[t]
    dec = None
    def binop(s, op, a, b):
        if isinstance(a, PRIM) and (isinstance(b, PRIM) or op is ast.Mod and isinstance(a, str) and isinstance(b, tuple) and all(isinstance(x, PRIM) for x in b)):
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b}.get(op)
            if f:
                try: return f()
                except Exception as e: raise Out('arithmetic: %s' % e)
        nm = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}.get(op, op.__name__)
        return Ref(T(nm, content(a), content(b)))
    def ev(s, e):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name): return s.get(e.id)
        if isinstance(e, ast.Tuple): return tuple(s.ev(x) for x in e.elts)
        if isinstance(e, ast.List): return DRef('list', [s.ev(x) for x in e.elts])
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys): raise Out('dictionary')
            d = DRef('dict', [])
            for k, v in zip(e.keys, e.values):
                k, v = s.ev(k), s.ev(v)
                d.items = [(a, b) for a, b in d.items if a is not k and not (isinstance(a, PRIM) and a == k)] + [(k, v)]
            return d
        if isinstance(e, ast.Attribute):
            o = s.ev(e.value)
            if isinstance(o, Mod): return Fn(o.n + '.' + e.attr) if not (o.n + '.' + e.attr) in ('os.path', 'numpy.random', 'datetime.datetime') else Mod(o.n + '.' + e.attr)
            return Meth(o, e.attr)
        if isinstance(e, ast.Subscript):
            o = s.ev(e.value); k = s.ev(e.slice) if not isinstance(e.slice, ast.Slice) else T('slice', *[content(s.ev(x)) if x else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])
            if isinstance(o, DRef):
                if o.kind == 'dict' and isinstance(k, PRIM):
                    for a, b in o.items:
                        if isinstance(a, PRIM) and a == k: return b
                    raise Fail('no entry %r' % k)
                if o.kind == 'list' and isinstance(k, int) and -len(o.items) <= k < len(o.items): return o.items[k]
                return Ref(T('get', content(o), content(k)))
            if isinstance(o, tuple) and isinstance(k, int): return o[k]
            if isinstance(o, str) and isinstance(k, int): return o[k]
            if isinstance(o, Ref):
                kk = k if isinstance(k, PRIM) else content(k)
                if kk not in o.kids: o.kids[kk] = Ref(T('get', o.content, kk))
                return o.kids[kk]
            return Ref(T('get', content(o), content(k)))
        if isinstance(e, ast.BinOp): return s.binop(type(e.op), s.ev(e.left), s.ev(e.right))
        if isinstance(e, ast.UnaryOp):
            v = s.ev(e.operand)
            if isinstance(e.op, ast.Not): return not s.truth(v)
            if isinstance(v, (int, float)) and isinstance(e.op, ast.USub): return -v
            return Ref(T(type(e.op).__name__, content(v)))
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = s.ev(x)
                if s.truth(v) == isinstance(e.op, ast.Or): return v
            return v
        if isinstance(e, ast.IfExp): return s.ev(e.body if s.truth(s.ev(e.test)) else e.orelse)
        if isinstance(e, ast.Compare):
            if len(e.ops) != 1: raise Out('comparison')
            a, b, o = s.ev(e.left), s.ev(e.comparators[0]), e.ops[0]
            if isinstance(a, PRIM) and isinstance(b, PRIM):
                try:
                    return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Is: lambda: a is b or type(a) == type(b) and a == b, ast.IsNot: lambda: not (a is b or type(a) == type(b) and a == b), ast.In: lambda: a in b, ast.NotIn: lambda: a not in b,
                            ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(o)]()
                except TypeError: raise Out('comparison')
            if isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, (tuple, DRef)):
                its = list(b) if isinstance(b, tuple) else [k for k, _ in b.items] if b.kind == 'dict' else b.items
                if isinstance(a, PRIM) and all(isinstance(x, PRIM) for x in its): return (a in its) == isinstance(o, ast.In)
            return Ref(T(type(o).__name__, content(a), content(b)))
        if isinstance(e, ast.JoinedStr):
            r = ''
            for x in e.values:
                v = s.ev(x.value) if isinstance(x, ast.FormattedValue) else x.value
                if not isinstance(v, PRIM) or isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion != -1): raise Out('format')
                r += str(v)
            return r
        if isinstance(e, ast.Starred): raise Out('*')
        if isinstance(e, ast.NamedExpr):
            v = s.ev(e.value); s.bind(e.target, v); return v
        if isinstance(e, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            if isinstance(e, ast.ListComp) and len(e.generators) == 1:
                g = e.generators[0]; it = s.ev(g.iter)
                if isinstance(it, DRef) and it.kind == 'list' or isinstance(it, tuple):
                    out = []; saved = dict(s.env)
                    for v in list(it.items if isinstance(it, DRef) else it):
                        s.bind(g.target, v)
                        if all(s.truth(s.ev(c)) for c in g.ifs): out.append(s.ev(e.elt))
                    s.env = saved
                    return DRef('list', out)
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr in MUT or any(k in ast.unparse(x.func) for k in ('open', 'load', 'dump', 'remove', 'system', 'save'))): raise Out('comprehension')
            rd = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in s.env})
            return Ref(T('code ' + ast.unparse(e), *[T('var', k, content(s.env[k])) for k in rd]))
        if isinstance(e, ast.Call): return s.call(e)
        if isinstance(e, ast.Lambda): raise Out('lambda')
        raise Out(type(e).__name__)
    # calls
    def norm(s, p):
        return os.path.normpath(p)
    def readfile(s, p):
        p = s.norm(p)
        s.reads.add(p)
        if p in s.store:
            sure, c = s.store[p]
            if not sure: raise Out('%s is written only under a condition' % p)
            return c
        if not s.fresh and not s.outside(p): raise Fail('the restart reads %s, which the fresh run has not written' % p)
        if s.fresh and not s.outside(p): raise Fail('the fresh run reads %s, which it has not written' % p)
        return T('input file ' + p)
    def outside(s, p):
        """an input that is delivered with the repository"""
        return os.path.exists(os.path.join(REPO, os.path.dirname(s.path), p)) or p.startswith('..') or '/' in p
    def write(s, p, c, sure=True):
        s.store[s.norm(p)] = (sure, c)
    def user(s, f, args, kw):
        if s.depth > 10: raise Out('deep calls')
        if f.args.vararg or f.args.kwarg: raise Out('signature')
        ps = [a.arg for a in f.args.args]
        loc = {}
        for n, d in zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults): loc[n] = s.ev(d)
        for n, d in zip(f.args.kwonlyargs, f.args.kw_defaults):
            if d is not None: loc[n.arg] = s.ev(d)
        loc.update(zip(ps, args)); loc.update(kw)
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)): raise Out('global')
        saved = s.env
        names = {x.id for b in f.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        s.env = {k: v for k, v in saved.items() if k not in names and k not in ps}
        s.env.update(loc); s.depth += 1
        try: s.block(f.body); return None
        except Ret as r: return r.v
        finally:
            s.env = saved; s.depth -= 1
    def call(s, e):
        f = s.ev(e.func)
        args, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred): raise Out('*')
            args.append(s.ev(x))
        for k in e.keywords:
            if k.arg is None: raise Out('**')
            kw[k.arg] = s.ev(k.value)
        if isinstance(f, ast.FunctionDef): return s.user(f, args, kw)
        if isinstance(f, Fn): return s.fcall(f.n, args, kw, e)
        if isinstance(f, Meth): return s.mcall(f.o, f.m, args, kw)
        raise Out('call of a value')
    def fcall(s, n, args, kw, e):
        base = n.split('.')[-1]
        if n in ('print', 'pdb.set_trace', 'gc.collect', 'sys.path.append', 'sys.stdout.flush') or n.startswith(('matplotlib.', 'warnings.', 'logging.')) : return None
        if n.startswith(NONDET):
            s.nd += 1
            return Ref(T('%s #%d of the %s run' % (n, s.nd, 'fresh' if s.fresh else 'restart')))
        if base == 'run_simulation':
            s.calls.append((args, {k: v for k, v in kw.items()}))
            s.snap.append((T('call', *[content(a) for a in args]), {k: content(v) for k, v in kw.items()}, n))
            return Ref(T('result of run_simulation', T('call', *[content(a) for a in args])))
        if n in ('open', 'io.open', 'gzip.open'):
            if not isinstance(args[0], str): raise Out('file name')
            mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
            if 'a' in mode or '+' in mode: raise Out('append to a file')
            return Handle(s.norm(args[0]), mode)
        if n in ('pickle.dump', 'json.dump', 'dill.dump'):
            h = args[1] if len(args) > 1 else kw.get('file')
            if not isinstance(h, Handle) or 'w' not in h.mode: raise Out('dump')
            s.write(h.path, T('dump ' + n.split('.')[0], content(args[0]))); return None
        if n in ('pickle.load', 'json.load', 'dill.load'):
            h = args[0]
            if not isinstance(h, Handle): raise Out('load')
            c = s.readfile(h.path)
            if isinstance(c, Term) and c.op == 'dump ' + n.split('.')[0]: return s.value(c.args[0])
            if isinstance(c, Term) and c.op.startswith('input file'): return Ref(T(n, c))
            raise Fail('%s is read with %s but was not written so' % (h.path, n))
        if n in ('numpy.save', 'numpy.savetxt'):
            p = args[0]
            if not isinstance(p, str): raise Out('file name')
            s.write(p if p.endswith('.npy') or base == 'savetxt' else p + '.npy', T('dump ' + n, content(args[1]))); return None
        if n in ('numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'scipy.sparse.load_npz'):
            if not isinstance(args[0], str): raise Out('file name')
            c = s.readfile(args[0])
            if isinstance(c, Term) and c.op == 'dump numpy.save': return Ref(T('numpy.array', c.args[0]))
            return Ref(T(n, c, *[content(a) for a in args[1:]]))
        if n == 'os.listdir':
            d = args[0] if args else '.'
            if not isinstance(d, str): raise Out('directory')
            d = s.norm(d)
            return DRef('list', sorted(os.path.basename(p) for p in s.store if (os.path.dirname(p) or '.') == d))
        if n in ('glob.glob', 'glob.iglob'):
            if not isinstance(args[0], str): raise Out('pattern')
            return DRef('list', sorted(p for p in s.store if fnmatch.fnmatch(p, s.norm(args[0]))))
        if n in ('os.remove', 'os.unlink'):
            if not isinstance(args[0], str): raise Out('file name')
            s.store.pop(s.norm(args[0]), None); return None
        if n == 'os.path.join' and all(isinstance(a, str) for a in args): return os.path.join(*args)
        if n in ('os.path.isdir', 'os.path.exists', 'os.path.isfile'):
            if isinstance(args[0], str) and s.norm(args[0]) in s.store and s.store[s.norm(args[0])][0]: return n != 'os.path.isdir'
            return Ref(T(n, content(args[0])))
        if n in ('os.path.abspath', 'os.getcwd', 'os.path.dirname', 'os.path.basename'): return Ref(T(n, *[content(a) for a in args]))
        if n in ('shutil.copy2', 'shutil.copy', 'shutil.copyfile'):
            a, b = args
            if not isinstance(a, str) or not isinstance(b, str): raise Out('file name')
            c = s.readfile(a)
            s.write(os.path.join(b, os.path.basename(a)) if b in ('.', './') or b.endswith('/') else b, c); return None
        if n in ('os.system', 'subprocess.call', 'subprocess.check_call', 'subprocess.run'):
            return s.system(args[0], kw)
        if n in ('time.sleep', 'os.makedirs', 'os.mkdir', 'os.chdir'):
            if n == 'os.chdir': raise Out('chdir')
            return None
        if n == 'dict' and not args: return DRef('dict', [(k, v) for k, v in kw.items()])
        if n == 'list' and not args: return DRef('list', [])
        if n == 'dict' and len(args) == 1 and isinstance(args[0], Ref) and not kw: return s.value(content(args[0]))
        if n == 'len' and isinstance(args[0], DRef): return len(args[0].items)
        if n == 'len':
            c = content(args[0])
            while isinstance(c, Term) and c.op in ('.keys', '.values', '.items', 'list', 'sorted', 'set') and len(c.args) == 1: c = c.args[0]
            return Ref(T('len', c))
        if n in ('str', 'int', 'float', 'bool', 'abs', 'round', 'min', 'max') and args and all(isinstance(a, PRIM) for a in args) and not kw:
            import builtins
            try: return getattr(builtins, n)(*args)
            except Exception: raise Out(n)
        if n in ('exec', 'eval', 'setattr', 'globals', 'locals', 'vars', 'input', 'compile', '__import__'): raise Out('call of %s' % n)
        # project functions
        parts = n.split('.')
        if len(parts) >= 2 and parts[0] not in sys.stdlib_module_names and s.lib.defs(parts[-2]) is not None: return s.project(parts[-2], base, args, kw)
        if len(parts) >= 2 and s.lib.find(parts[-2]) : return s.project(parts[-2], base, args, kw)
        pure = parts[0] in THIRD or parts[0] in sys.stdlib_module_names or len(parts) == 1
        if n in ('numpy.put', 'numpy.place', 'numpy.copyto', 'numpy.fill_diagonal', 'random.shuffle', 'numpy.random.shuffle') or 'out' in kw: pure = False
        t = T(n, *([content(a) for a in args] + [T('kw ' + k, content(v)) for k, v in sorted(kw.items())]))
        if not pure:
            for i, a in enumerate(args):
                if isinstance(a, Ref): s.set_content(a, T('argument %d after' % i, t))
        s.used.add(n)
        return Ref(t)
    def value(s, c):
        """a fresh object with the given content"""
        if isinstance(c, PRIM): return c
        if c.op == 'dict': return DRef('dict', [(s.value(c.args[i]), s.value(c.args[i + 1])) for i in range(0, len(c.args), 2)])
        if c.op == 'list': return DRef('list', [s.value(a) for a in c.args])
        if c.op == 'tuple': return tuple(s.value(a) for a in c.args)
        return Ref(c)
    def project(s, mod, fn, args, kw):
        d = s.lib.defs(mod)
        if d is None or fn not in d: raise Fail('%s has no function %s' % (mod, fn)) if d is not None else Out('%s.%s' % (mod, fn))
        f = d[fn]; ps = [a.arg for a in f.args.args]
        if len(args) > len(ps) or any(k not in ps for k in kw): raise Fail('%s.%s is called with arguments it does not have' % (mod, fn))
        bound = dict(zip(ps, args)); bound.update(kw)
        for p in ps[:len(ps) - len(f.args.defaults)]:
            if p not in bound: raise Fail('%s.%s is called without %s' % (mod, fn, p))
        parts = []
        for p in ps:
            if p not in bound: continue
            v = bound[p]; parts.append(T('arg ' + p, content(v)))
            if isinstance(v, str) and s.norm(v) in s.store: parts.append(T('text', s.readfile(v)))
        t = T('%s.%s' % (mod, fn), *parts)
        s.used.add('%s.%s' % (mod, fn))
        ws = s.lib.writes(mod, fn, {p: v for p, v in bound.items() if isinstance(v, str)})
        for p, sure in ws:
            if p is None: raise Out('%s.%s writes a file whose name is not known' % (mod, fn))
            s.write(p, T('written by', t, p), sure)
        for p in s.lib.changes(mod, fn) or ():
            if p in bound and isinstance(bound[p], Ref): s.set_content(bound[p], T('after', t, p))
        return Ref(t)
    def system(s, cmd, kw):
        if isinstance(cmd, DRef): cmd = ' '.join(str(x) for x in cmd.items)
        if not isinstance(cmd, str): raise Out('command')
        w = cmd.split()
        if '-m' in w and any(x.endswith('.f90') for x in w):
            m = w[w.index('-m') + 1]; src = [x for x in w if x.endswith('.f90')]
            s.write('module ' + m, T('compiled', cmd, *[s.readfile(x) for x in src]))
            return Ref(T('status'))
        raise Out('command %s' % cmd[:60])
    PURE = {'keys', 'values', 'items', 'get', 'tolist', 'copy', 'sum', 'mean', 'min', 'max', 'format', 'strip', 'split', 'join', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'astype', 'reshape', 'index', 'count', 'flatten', 'transpose', 'dot'}
    def mcall(s, o, m, args, kw):
        if isinstance(o, str) and all(isinstance(a, PRIM) for a in args) and not kw:
            try: return getattr(o, m)(*args)
            except Exception: raise Out('text method')
        if isinstance(o, Handle):
            if m == 'close': return None
            if m in ('read', 'readlines') and 'w' not in o.mode: return Ref(T(m, s.readfile(o.path)))
            if m == 'write': raise Out('write to a file')
            raise Out('file method')
        if isinstance(o, DRef):
            if o.kind == 'dict' and m == 'update' and len(args) == 1 and isinstance(args[0], DRef) and args[0].kind == 'dict' and all(isinstance(k, PRIM) for k, _ in args[0].items + o.items):
                dd = dict(o.items); dd.update(dict(args[0].items)); o.items = list(dd.items()); return None
            if o.kind == 'list' and m == 'append': o.items.append(args[0]); return None
            if o.kind == 'dict' and m == 'items': return DRef('list', [tuple(x) for x in o.items])
            if o.kind == 'dict' and m == 'keys': return DRef('list', [x[0] for x in o.items])
            if o.kind == 'dict' and m == 'values': return DRef('list', [x[1] for x in o.items])
        c = content(o)
        t = T('.' + m, c, *([content(a) for a in args] + [T('kw ' + k, content(v)) for k, v in sorted(kw.items())]))
        if isinstance(o, Ref) and m not in s.PURE: s.set_content(o, T('after .' + m, c, *t.args[1:]))
        if isinstance(o, Ref) and m == 'get' and len(args) == 1 and isinstance(args[0], PRIM): return Ref(T('get or None', c, args[0]))
        return Ref(t)

def needs(lib, fname):
    """modules and files the solver module takes from disk"""
    t = ast.parse(open(fname).read()); mods = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Import): mods |= {a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom) and n.module: mods.add(n.module.split('.')[0])
    return sorted(m for m in mods if m not in sys.stdlib_module_names and m not in THIRD and not lib.find(m))

DRIVERS = dict(gas=('Gas_simulation.py', ['.']), f2py=('f2py/Gas_simulation_f2py.py', ['f2py', '.']), aerosol=('Aerosol/f2py/Aerosol_simulation_f2py.py', ['Aerosol/f2py', 'Aerosol', '.']),
               fixed=('Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py', ['Aerosol/f2py/Fixed_yield', 'Aerosol', '.']))
def job(variant, limit):
    t0 = time.time()
    path, dirs = DRIVERS[variant]
    vcs, oor, funs, cover = [], None, ['%s: main section' % path], {}
    def vc(n, ok, det='', st='refuted'): vcs.append(('%s driver: %s' % (variant, n), 'proved' if ok else st, time.time() - t0, det, 'symbolic execution, equality of terms'))
    lib = Lib([os.path.join(REPO, d) for d in dirs])
    ran, frames = 0, set()
    try:
        todo = [[]]
        while todo:
            dec = todo.pop(); k = [0]; memo = {}
            def decide():
                i = k[0]; k[0] += 1
                if i == len(dec): dec.append(True); todo.append(dec[:i] + [False])
                return dec[i]
            if len(dec) > 8: raise Out('too many branches')
            def go(fresh, store):
                r = Run(path, fresh, store, decide, lib); r.dec, r.snap = memo, []
                return r.run()
            try: f = go(True, {})
            except Fail as x: vc('the fresh run reaches the solver', False, x.what); continue
            tag = ' (branches %s)' % ''.join('yn'[not b] for b in dec) if dec else ''
            if f.switches != 1: raise Out('the switch files_exist is set %d times' % f.switches)
            if len(f.snap) < 1: raise Out('no call of run_simulation')
            vc('the fresh run calls the solver once' + tag, len(f.snap) == 1, '%d calls' % len(f.snap))
            kept = dict(f.store)
            try: r = go(False, dict(f.store))
            except Fail as x:
                vc('everything the restart uses has been saved by the fresh run' + tag, False, x.what); continue
            vc('everything the restart uses has been saved by the fresh run' + tag, True, 'reads %s' % ', '.join(sorted(r.reads)))
            vc('the restart calls the solver as often' + tag, len(r.snap) == len(f.snap), '%d and %d' % (len(f.snap), len(r.snap)))
            for (a, ka, n1), (b, kb, n2) in zip(f.snap, r.snap):
                vc('the same solver is called' + tag, n1 == n2, '%s, %s' % (n1, n2))
                vc('the same number of arguments' + tag, len(a.args) == len(b.args) and set(ka) == set(kb))
                for i, (x, y) in enumerate(zip(a.args, b.args)):
                    if isinstance(x, Term) and isinstance(y, Term) and x.op == y.op == 'dict' and x is not y:
                        dx, dy = {x.args[j]: x.args[j + 1] for j in range(0, len(x.args), 2)}, {y.args[j]: y.args[j + 1] for j in range(0, len(y.args), 2)}
                        vc('argument %d: same entries%s' % (i + 1, tag), set(map(str, dx)) == set(map(str, dy)), '%s' % sorted(set(map(str, dx)) ^ set(map(str, dy))))
                        for q in dx:
                            if q in dy: d = first_diff(dx[q], dy[q]); vc('argument %d, entry %s: same value%s' % (i + 1, q, tag), d is None, d or '')
                    elif isinstance(x, Term) and isinstance(y, Term) and x.op == y.op == 'dict':
                        for j in range(0, len(x.args), 2): vc('argument %d, entry %s: same value%s' % (i + 1, x.args[j], tag), True)
                    else: d = first_diff(x, y); vc('argument %d: same value%s' % (i + 1, tag), d is None, d or '')
                for q in ka:
                    if q in kb: d = first_diff(ka[q], kb[q]); vc('argument %s: same value%s' % (q, tag), d is None, d or '')
            sm = lib.find(f.snap[0][2].split('.')[-2]) if '.' in f.snap[0][2] else None
            if not sm: raise Out('the module of run_simulation is not found')
            for m in needs(lib, sm):
                key = 'module ' + m if 'module ' + m in kept else m + '.py'
                vc('the module %s that the solver imports has been made by the fresh run%s' % (m, tag), key in kept and kept[key][0], '' if key in kept else 'not made')
                if key in kept: vc('the restart uses the same module %s%s' % (m, tag), key in r.store and r.store[key][1] is kept[key][1])
            for p in sorted(kept):
                if p not in r.store or r.store[p][1] is not kept[p][1]: vc('the restart leaves %s as it was%s' % (p, tag), False, 'changed or removed')
            ran += 1
            for m in sorted(f.used | r.used):
                mod, _, fn = m.rpartition('.')
                if mod and lib.find(mod) and lib.defs(mod) and fn in lib.defs(mod): frames.add(m)
    except Out as o:
        oor = 'out of reach: %s' % o
    except Fail as x:
        oor = 'out of reach: %s' % x.what
    for m in sorted(frames):
        mod, fn = m.rsplit('.', 1)
        funs.append('%s:%s (which files it writes, which arguments it may change)' % (os.path.relpath(lib.find(mod), REPO), fn))
    cover['a fresh run and a restart are executed to the solver call'] = ran > 0
    return dict(label='C21 ' + path, vcs=vcs, functions=funs, oor=oor, covers=cover, wall=time.time() - t0)
