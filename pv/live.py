"""Which local variables can still be read at the head of a loop (backward analysis of the syntax tree)."""
import ast
_cache = {}
def reads(e, out=None):
    """names an expression may read; comprehension variables are their own scope"""
    out = set() if out is None else out
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        inner, bound = set(), set()
        for g in e.generators:
            bound |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for c in g.ifs: reads(c, inner)
        for g in e.generators[1:]: reads(g.iter, inner)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]): reads(x, inner)
        out |= inner - bound
        reads(e.generators[0].iter, out)
        return out
    if isinstance(e, ast.Name):
        if isinstance(e.ctx, ast.Load): out.add(e.id)
        return out
    for x in ast.iter_child_nodes(e): reads(x, out)
    return out
def defs(t):
    """plain names a target certainly overwrites, and names it reads"""
    d, r = set(), set()
    if isinstance(t, ast.Name): d.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            a, b = defs(x); d |= a; r |= b
    elif isinstance(t, ast.Starred): return defs(t.value)
    else: r |= reads(t)
    return d, r
class Live:
    def __init__(self, fn):
        self.head = {}
        self.always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda)): self.always |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
        self.block(fn.body, set(), set(), set())
    def block(self, stmts, out, brk, cont):
        live = set(out)
        for s in reversed(stmts): live = self.stmt(s, live, brk, cont)
        return live
    def stmt(self, s, out, brk, cont):
        t = type(s)
        if t is ast.Assign:
            d, r = set(), set()
            for x in s.targets:
                a, b = defs(x); d |= a; r |= b
            return (out - d) | r | reads(s.value)
        if t is ast.AnnAssign:
            if s.value is None: return out
            d, r = defs(s.target); return (out - d) | r | reads(s.value)
        if t is ast.AugAssign: return out | reads(s.value) | ({s.target.id} if isinstance(s.target, ast.Name) else reads(s.target))
        if t is ast.If: return self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont) | reads(s.test)
        if t in (ast.For, ast.While):
            after = self.block(s.orelse, out, brk, cont) | out
            extra = reads(s.test) if t is ast.While else set()
            head = after | extra
            d, r = defs(s.target) if t is ast.For else (set(), set())
            while True:
                h = head | r | (self.block(s.body, head, out, head) - d)
                if h == head: break
                head = h
            self.head[id(s)] = head
            return head | (reads(s.iter) if t is ast.For else set())
        if t is ast.Break: return set(brk)
        if t is ast.Continue: return set(cont)
        if t is ast.Return: return reads(s.value) if s.value is not None else set()
        if t is ast.Raise: return out | reads(s)
        if t is ast.Try:
            h = set(out)
            for x in s.handlers: h |= self.block(x.body, out, brk, cont)
            h |= self.block(s.finalbody, out, brk, cont)
            # an exception may leave anything in the body: keep what the handlers need throughout
            b = self.block(s.orelse, out, brk, cont)
            always = self.always
            live = self.block(s.body, b | h, brk, cont) | h
            return live | {y.id for q in s.body for y in ast.walk(q) if isinstance(y, ast.Name)}
        if t is ast.With:
            live = self.block(s.body, out, brk, cont)
            for i in s.items: live |= reads(i.context_expr)
            return live
        if t is ast.FunctionDef: return out | reads(s)
        return out | reads(s)
def head_live(fn, loop):
    k = id(fn)
    if k not in _cache: _cache[k] = (Live(fn), fn)
    l = _cache[k][0]
    return l.head.get(id(loop)), l.always
