#!/usr/bin/env python3-vt
"""Behaviour-preserving rewrites of a source file, to test that the checks stay quiet: refactor.py <kind> <in> <out>"""
import ast, sys, copy
class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, ast.parse('_unused_marker = 0').body[0]); n.body.insert(k + 1, ast.Pass())
        return n
class KeysIn(ast.NodeTransformer):      # x in d.keys() -> x in d
    def visit_Compare(self, n):
        self.generic_visit(n)
        c = n.comparators[0]
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys': n.comparators = [c.func.value]
        return n
class ItemsLoop(ast.NodeTransformer):   # for k, v in d.items() -> for k in d: v = d[k]
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'items' and not c.args:
            k, v = n.target.elts
            n.target = k; n.iter = c.func.value
            kk = copy.deepcopy(k); kk.ctx = ast.Load()
            n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(c.func.value), kk, ast.Load())))
        return n
class Fmt(ast.NodeTransformer):         # 'a%sb' % (x, y) -> f'a{x}b{y}'
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            ps = n.left.value.split('%s')
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if any('%' in p for p in ps) or len(args) != len(ps) - 1: return n
            vs = []
            for i, p in enumerate(ps):
                if p: vs.append(ast.Constant(p))
                if i < len(args): vs.append(ast.FormattedValue(args[i], -1))
            return ast.JoinedStr(vs)
        return n
class Format(Fmt):                      # -> 'a{}b{}'.format(x, y)
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            ps = n.left.value.split('%s')
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if any('%' in p or '{' in p for p in ps) or len(args) != len(ps) - 1: return n
            return ast.Call(ast.Attribute(ast.Constant('{}'.join(ps)), 'format', ast.Load()), args, [])
        return n
def iswrite(s): return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'write' and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1
class MergeWrites(ast.NodeTransformer): # f.write(a); f.write(b) -> f.write(a + b)
    def blk(self, b):
        out = []
        for s in b:
            if out and iswrite(s) and iswrite(out[-1]) and s.value.func.value.id == out[-1].value.func.value.id:
                o = out[-1].value; k = getattr(out[-1], 'k', 1)
                if k > 15: out.append(s); continue
                out[-1] = ast.Expr(ast.Call(o.func, [ast.BinOp(o.args[0], ast.Add(), s.value.args[0])], [])); out[-1].k = k + 1
            else: out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        for a in ('body', 'orelse'):
            if isinstance(getattr(n, a, None), list): setattr(n, a, self.blk(getattr(n, a)))
        return n
class Helper(ast.NodeTransformer):      # f.write(x) -> _put(f, x)
    def visit_Module(self, n):
        self.generic_visit(n)
        i = next(k for k, s in enumerate(n.body) if isinstance(s, ast.FunctionDef))
        n.body[i:i] = ast.parse('def _put(handle, text):\n    handle.write(text)\n').body
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'write' and isinstance(n.func.value, ast.Name) and n.func.value.id == 'f' and len(n.args) == 1:
            return ast.Call(ast.Name('_put', ast.Load()), [n.func.value, n.args[0]], [])
        return n
class Lines(ast.NodeTransformer):       # collect the text in a list, write it at close
    def visit_FunctionDef(self, n):
        calls = [c for c in ast.walk(n) if iswrite(c)]
        closes = [c for c in ast.walk(n) if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Attribute) and c.value.func.attr == 'close']
        opens = [s for s in n.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'open']
        if not calls or len(closes) != 1 or len(opens) != 1 or closes[0] not in n.body: return n
        for c in calls: c.value.func = ast.Attribute(ast.Name('_pieces', ast.Load()), 'append', ast.Load())
        n.body.insert(n.body.index(opens[0]), ast.parse('_pieces = []').body[0])
        n.body.insert(n.body.index(closes[0]), ast.parse("f.write(''.join(_pieces))").body[0])
        return n
class NotIn(ast.NodeTransformer):       # if x not in L: A else: B  -> if x in L: B else: A ; x not in L -> not (x in L)
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn):
            t.ops = [ast.In()]
            n.body, n.orelse = (n.orelse or [ast.Pass()]), n.body
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq): n.test = ast.UnaryOp(ast.Not(), ast.Compare(t.left, [ast.NotEq()], t.comparators))
        return n
class Comp(ast.NodeTransformer):        # x = [e for a in b] -> loop
    def blk(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name):
                g = s.value.generators[0]
                names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                ren = {k: k + '_c' for k in names}
                class R(ast.NodeTransformer):
                    def visit_Name(self, n): return ast.Name(ren.get(n.id, n.id), n.ctx)
                app = ast.Expr(ast.Call(ast.Attribute(ast.Name(s.targets[0].id + '_acc', ast.Load()), 'append', ast.Load()), [R().visit(copy.deepcopy(s.value.elt))], []))
                body = [app]
                for c in g.ifs: body = [ast.If(R().visit(copy.deepcopy(c)), body, [])]
                out.append(ast.parse(s.targets[0].id + '_acc = []').body[0])
                out.append(ast.For(R().visit(copy.deepcopy(g.target)), g.iter, body, []))
                out.append(ast.parse('%s = %s_acc' % (s.targets[0].id, s.targets[0].id)).body[0])
            else: out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        for a in ('body', 'orelse'):
            if isinstance(getattr(n, a, None), list): setattr(n, a, self.blk(getattr(n, a)))
        return n
class Rename(ast.NodeTransformer):      # locals get other names
    def visit_FunctionDef(self, n):
        params = {a.arg for a in n.args.args}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        glob = {g for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        inner = {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef) and x is not n}
        if inner: return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc - glob: x.id = x.id + '_v'
        return n
class With(ast.NodeTransformer):        # f=open(..) ... f.close() -> with open(..) as f: ...
    def visit_FunctionDef(self, n):
        b = n.body
        o = [i for i, s in enumerate(b) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'open']
        c = [i for i, s in enumerate(b) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'close']
        if len(o) == 1 and len(c) == 1 and o[0] < c[0]:
            w = ast.With([ast.withitem(b[o[0]].value, b[o[0]].targets[0])], b[o[0] + 1:c[0]])
            n.body = b[:o[0]] + [w] + b[c[0] + 1:]
        return n
class Guard(ast.NodeTransformer):       # for x in c: if t: A   ->   for x in c: if not t: continue; A
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return n
KINDS = dict(noop=Noop, keysin=KeysIn, itemsloop=ItemsLoop, fmt=Fmt, format=Format, merge=MergeWrites, helper=Helper, lines=Lines, notin=NotIn, comp=Comp, rename=Rename, withopen=With, guard=Guard)
if __name__ == '__main__':
    t = ast.parse(open(sys.argv[2]).read())
    for k in sys.argv[1].split('+'): t = KINDS[k]().visit(t)
    open(sys.argv[3], 'w').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')
