"""C10: the rate-text conversions, read from /repo as text functions and decided for every rate text.

The function is executed symbolically with one arbitrary entry of the table; the text of that entry is a chain of text
functions (contracts of str.replace, str.find, list, str.join, re.sub). Each of them is a deterministic finite-state text
function, so `same text for every rate text` is decided by an inductive invariant over the product of the automaton of rate
texts, the chain and the meaning: every reachable configuration is enumerated, whatever the length of the text."""
import ast, os, time, re as _re
from collections import deque
from .common import REPO
from . import kpp

class Out(Exception): pass
class Fail(Exception):
    def __init__(s, what): s.what = what

# ---- text functions as stages: init() -> state; step(state, c) -> (state, text); end(state) -> text -----------------------
class Replace:
    def __init__(s, old, new):
        if not old: raise Out('replace of the empty text')
        s.old, s.new = old, new
    def init(s): return ''
    def step(s, p, c):
        p += c
        if p == s.old: return '', s.new
        o = ''
        while p and not s.old.startswith(p): o += p[0]; p = p[1:]
        return p, o
    def end(s, p): return p
    def __repr__(s): return 'replace(%r, %r)' % (s.old, s.new)

class Map:
    """one character at a time (upper, lower, translate)"""
    def __init__(s, f, n): s.f, s.n = f, n
    def init(s): return ''
    def step(s, p, c): return p, s.f(c)
    def end(s, p): return ''
    def __repr__(s): return s.n

class Marks:
    """at every occurrence of pat (no proper border): the first a at or after it becomes x, the first b after it becomes y, ..."""
    def __init__(s, pat, writes):
        for k in range(1, len(pat)):
            if pat.startswith(pat[k:]): raise Out('search for %r, which can overlap itself' % pat)
        if len({a for a, _ in writes}) != len(writes): raise Out('two writes for one character')
        s.pat, s.writes = pat, tuple(writes)
    def init(s): return ('', ())
    def one(s, armed, c):
        o = c; arm = list(armed)
        for a, x in s.writes:
            if a == c and a in arm: o = x; arm.remove(a)
        return tuple(arm), o
    def drain(s, armed, t):
        o = ''
        for c in t:
            armed, x = s.one(armed, c); o += x
        return armed, o
    def step(s, st, c):
        p, armed = st
        p += c
        if p == s.pat:
            armed = tuple(sorted(a for a, _ in s.writes))
            armed, o = s.drain(armed, p)
            return ('', armed), o
        o = ''
        while p and not s.pat.startswith(p):
            armed, x = s.one(armed, p[0]); o += x; p = p[1:]
        return (p, armed), o
    def end(s, st):
        p, armed = st
        armed, o = s.drain(armed, p)
        if armed: raise Fail('a write at position -1: %r not found after %r' % (armed[0], s.pat))
        return o
    def __repr__(s): return 'at every %r: %s' % (s.pat, ', '.join('%s -> %s' % w for w in s.writes))

class Sub:
    """re.sub with a pattern whose matches have bounded length on rate texts: all text not yet decided is kept"""
    def __init__(s, pat, rep, flags=0):
        s.re, s.rep, s.pat = _re.compile(pat, flags), rep, pat
        if s.re.match(''): raise Out('a pattern that matches the empty text')
        try: from re import _parser as sp
        except ImportError: import sre_parse as sp
        s.nx, s.acc = [], None              # automaton: state -> [(predicate or None, state)]
        s.acc = s.build(list(sp.parse(pat, flags)), s.new())
    def new(s): s.nx.append([]); return len(s.nx) - 1
    def build(s, items, q):
        for op, av in items:
            n = str(op)
            if n == 'LITERAL': r = s.new(); s.nx[q].append((lambda c, k=av: ord(c) == k, r)); q = r
            elif n == 'NOT_LITERAL': r = s.new(); s.nx[q].append((lambda c, k=av: ord(c) != k, r)); q = r
            elif n == 'ANY': r = s.new(); s.nx[q].append((lambda c: True, r)); q = r
            elif n == 'IN': r = s.new(); s.nx[q].append((s.cls(av), r)); q = r
            elif n == 'SUBPATTERN': q = s.build(list(av[3]), q)
            elif n == 'BRANCH':
                r = s.new()
                for x in av[1]: s.nx[s.build(list(x), s.fork(q))].append((None, r))
                q = r
            elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
                lo, hi, sub = av
                if lo > 20 or hi < 4000000000 and hi > 20: raise Out('a long repetition')
                for _ in range(lo): q = s.build(list(sub), q)
                r = s.new(); s.nx[q].append((None, r))
                if hi >= 4000000000:
                    s.nx[s.build(list(sub), s.fork(r))].append((None, r)); q = r
                else:
                    for _ in range(hi - lo):
                        q = s.build(list(sub), s.fork(q)); s.nx[q].append((None, r))
                    q = r
            else: raise Out('a pattern with %s' % n)
        return q
    def fork(s, q): r = s.new(); s.nx[q].append((None, r)); return r
    def cls(s, av):
        neg = any(str(o) == 'NEGATE' for o, _ in av); ps = []
        for o, v in av:
            n = str(o)
            if n == 'LITERAL': ps.append(lambda c, k=v: ord(c) == k)
            elif n == 'RANGE': ps.append(lambda c, k=v: k[0] <= ord(c) <= k[1])
            elif n == 'CATEGORY' and str(v) == 'CATEGORY_DIGIT': ps.append(str.isdigit)
            elif n == 'CATEGORY' and str(v) == 'CATEGORY_WORD': ps.append(lambda c: c.isalnum() or c == '_')
            elif n == 'CATEGORY' and str(v) == 'CATEGORY_SPACE': ps.append(str.isspace)
            elif n != 'NEGATE': raise Out('a character class')
        return lambda c: any(p(c) for p in ps) != neg
    def closure(s, qs):
        st, out = list(qs), set(qs)
        while st:
            for p, r in s.nx[st.pop()]:
                if p is None and r not in out: out.add(r); st.append(r)
        return out
    def alive(s, t):
        """could t be a proper prefix of a longer match?"""
        qs = s.closure({0})
        for c in t: qs = s.closure({r for q in qs for p, r in s.nx[q] if p is not None and p(c)})
        return any(p is not None for q in qs for p, r in s.nx[q])
    def init(s): return ''
    def step(s, p, c):
        p += c
        o = ''
        while p:
            if s.alive(p):
                if len(p) > 40: raise Out('the pattern %r can match long texts' % s.pat)
                return p, o
            m = s.re.match(p)
            if m: o += m.expand(s.rep) if isinstance(s.rep, str) else s.rep(m); p = p[m.end():]
            else: o += p[0]; p = p[1:]
        return p, o
    def end(s, p):
        return s.re.sub(s.rep, p)
    def __repr__(s): return 'sub(%r, %r)' % (s.pat, s.rep)
class Pre:
    def __init__(s, t): s.t = t
    def init(s): return 0
    def step(s, st, c): return (1, c) if st else (1, s.t + c)
    def end(s, st): return '' if st else s.t
    def __repr__(s): return 'prefix %r' % s.t
class Post(Pre):
    def step(s, st, c): return 0, c
    def end(s, st): return s.t
    def __repr__(s): return 'suffix %r' % s.t

class Chain:
    def __init__(s, stages): s.st = list(stages)
    def init(s): return tuple(x.init() for x in s.st)
    def push(s, state, i, text):
        state = list(state)
        for k in range(i, len(s.st)):
            o = ''
            for c in text:
                state[k], y = s.st[k].step(state[k], c); o += y
            text = o
            if not text: break
        return tuple(state), text
    def step(s, state, c): return s.push(state, 0, c)
    def end(s, state):
        out = ''
        for k in range(len(s.st)):
            t = s.st[k].end(state[k])
            state, o = s.push(state, k + 1, t); out += o
        return out
    def apply(s, t):
        st, o = s.init(), ''
        for c in t:
            st, x = s.step(st, c); o += x
        return o + s.end(st)

# ---- the rate texts and their meaning ------------------------------------------------------------------------------------
FUNCS = {'EXP': '<exp>', 'LOG': '<log>', 'dlog': '<log>', 'dabs': '<abs>', 'dsqrt': '<sqrt>'}
NAMES = list(kpp.KNAMES) + ['RO2', 'H2O', 'TEMP']
NAMES = list(dict.fromkeys(NAMES))
WORDS = set(NAMES) | set(FUNCS) | {'J'}
PREFIX = {w[:k] for w in WORDS for k in range(1, len(w) + 1)}
DIG = '0123456789'
ALPHA = '3528467910' + '.+-*/()' + ''.join(sorted({c for w in WORDS for c in w if c not in DIG} | set('DE')))
class Lang:
    """automaton of rate texts with its meaning: the canonical text of the tokens"""
    def __init__(s, back): s.back = back; s.o, s.c = ('[', ']') if back == 'numba' else ('(', ')')
    def init(s): return ('S',)
    def after(s, c):
        if c in '+-/': return ('S',), c
        if c == '*': return ('M',), c
        if c == ')': return ('E',), c
        return None
    def step(s, q, c):
        k = q[0]
        if k in ('S', 'M'):
            if k == 'M' and c == '*': return ('S',), c
            if c in DIG: return ('N1',), c
            if c == '.': return ('N2d',), c
            if c in '(+-': return ('S',), c
            return (('T', c), '') if c in PREFIX else None
        if k == 'N1':
            if c in DIG: return q, c
            if c == '.': return ('N2',), c
            if c in 'DE': return ('X0',), ''
            return s.after(c)
        if k == 'N2d': return (('N2',), c) if c in DIG else None
        if k == 'N2':
            if c in DIG: return q, c
            if c in 'DE': return ('X0',), ''
            return s.after(c)
        if k == 'X0':
            if c in '+-': return ('X1',), 'E' + c
            return (('X2',), 'E+' + c) if c in DIG else None
        if k == 'X1': return (('X2',), c) if c in DIG else None
        if k == 'X2': return (q, c) if c in DIG else s.after(c)
        if k == 'E': return s.after(c)
        if k == 'T':
            w = q[1]
            if w + c in PREFIX: return ('T', w + c), ''
            if c == '(':
                if w == 'J': return ('J0',), 'J' + s.o
                return (('S',), FUNCS[w] + '(') if w in FUNCS else None
            if w not in NAMES: return None
            r = s.after(c)
            return (r[0], w + r[1]) if r else None
        if k == 'J0': return (('J2',) if c == '0' else ('J1',), c) if c in DIG else None
        if k == 'J1':
            if c in DIG: return ('J2',), c
            return (('E',), s.c) if c == ')' else None
        if k == 'J2': return (('E',), s.c) if c == ')' else None
    def end(s, q):
        if q[0] in ('N1', 'N2', 'X2', 'E'): return ''
        if q[0] == 'T' and q[1] in NAMES: return q[1]
        return None

CANON = dict(numba={p + f: '<%s>' % (f if f != 'absolute' else 'abs') for f in ('exp', 'log', 'abs', 'sqrt') for p in ('numba_', 'np.', 'numpy.')}, fortran={f: '<%s>' % f.lower() for f in ('EXP', 'LOG', 'ABS', 'SQRT')})
class Reader:
    """meaning of a text in the notation of a back end, as the canonical text of its tokens; anything unknown becomes '?'"""
    def __init__(s, back): s.back, s.fun = back, CANON[back]
    def init(s): return ('S',)
    def step(s, q, c):
        k = q[0]
        if k == 'S':
            if c.isalpha() or c == '_': return ('W', c), ''
            if c in DIG or c == '.': return ('N',), c
            return q, c
        if k == 'W':
            w = q[1]
            if c.isalnum() or c == '_' or (c == '.' and s.back == 'numba' and w in ('np', 'numpy')):
                return (('W', w + c), '') if len(w) < 30 else (('Z',), '?')
            return ('S',), s.word(w, c) + c
        if k == 'N':
            if c in DIG or c == '.': return q, c
            if c in ('Ee' if s.back == 'numba' else 'EeDd'): return ('X0',), ''
            if c.isalpha() or c == '_': return ('Z',), '?'
            return ('S',), c
        if k == 'X0':
            if c in '+-': return ('X1',), 'E' + c
            return (('X2',), 'E+' + c) if c in DIG else (('Z',), '?')
        if k == 'X1': return (('X2',), c) if c in DIG else (('Z',), '?')
        if k == 'X2':
            if c in DIG: return q, c
            if c.isalpha() or c in '_.': return ('Z',), '?'
            return ('S',), c
        return q, ''
    def word(s, w, c):
        if c == '(':
            f = s.fun.get(w if s.back == 'numba' else w.upper())
            if f: return f
            return w if w == 'J' else '?' + w
        return w
    def end(s, q):
        if q[0] == 'W': return s.word(q[1], '')
        return '?' if q[0] in ('X0', 'X1', 'Z') else ''

class Ident:
    def init(s): return 0
    def step(s, q, c): return q, c
    def end(s, q): return ''

def compare(back, left, right, conds, limit=60, many=12):
    """for every rate text satisfying conds: left (a Chain or None for the meaning) and right give the same text.
    Returns (configurations, [(text, why), ...]), no text when they are equal."""
    L = Lang(back)
    start = (L.init(), left.init() if left else None, right.init(), '', '', tuple((ch.init(), '', False) for ch, pat, pos in conds))
    seen = {start: None}; todo = deque([start]); t0 = time.time()
    def word(x):
        w = ''
        while seen[x] is not None:
            x, c = seen[x]; w = c + w
        return w
    def mon(ms, c, final=False):
        out = []
        for (ch, pat, pos), (st, buf, hit) in zip(conds, ms):
            if not hit:
                if final: t = ch.end(st)
                else: st, t = ch.step(st, c)
                for d in t:
                    buf += d
                    while buf and not pat.startswith(buf): buf = buf[1:]
                    if buf == pat: hit = True; break
            if hit: st, buf = ch.init(), ''
            out.append((st, buf, hit))
        return tuple(out)
    def norm(a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
        return a[n:], b[n:]
    bad = '!bad'; found = []
    while todo and len(found) < many:
        x = todo.popleft()
        q, ls, rs, da, db, ms = x
        if len(seen) > 400000 or time.time() - t0 > limit: raise Out('too many configurations (%d)' % len(seen))
        e = L.end(q)
        if e is not None:
            hits = mon(ms, None, True)
            if all(h == pos for (_, _, h), (_, _, pos) in zip(hits, conds)):
                if ls == bad: found.append((word(x), 'the texts differ')); continue
                a, b = da + (left.end(ls) if left else e), db
                try:
                    b += right.end(rs)
                    if a != b: found.append((word(x), 'ends %r instead of %r' % (b[-30:], a[-30:])))
                except Fail as f:
                    found.append((word(x), f.what))
        for c in ALPHA:
            r = L.step(q, c)
            if r is None: continue
            q2, o = r
            if ls == bad: y = (q2, bad, None, '', '', mon(ms, c))
            else:
                if left: l2, o = left.step(ls, c)
                else: l2 = None
                r2, o2 = right.step(rs, c)
                a, b = norm(da + o, db + o2)
                if a and b:
                    y = (q2, bad, None, '', '', mon(ms, c))
                else:
                    if len(a) > 120 or len(b) > 120: raise Out('the two texts drift apart')
                    y = (q2, l2, r2, a, b, mon(ms, c))
            if y not in seen:
                seen[y] = (x, c); todo.append(y)
    return len(seen), found

# ---- the symbolic executor --------------------------------------------------------------------------------------------------
class Txt:
    def __init__(s, st=()): s.st = tuple(st)
    def then(s, x): return Txt(s.st + (x,))
    def __repr__(s): return 'text'
class Key: pass
class Chars:
    def __init__(s, txt): s.txt, s.w = txt, None
class Tab:
    """key -> Txt for every key of the parsed table"""
    def __init__(s, val, param=False): s.val, s.param = val, param
class Items:
    def __init__(s, tab, kind): s.tab, s.kind = tab, kind
class Occ:      # indices of all occurrences of pat in txt, ascending
    def __init__(s, txt, pat): s.txt, s.pat = txt, pat
class Idx:      # kind: prev, prev+1, next, one (an arbitrary occurrence), off
    def __init__(s, kind, txt=None, pat=None, ch=None): s.kind, s.txt, s.pat, s.ch = kind, txt, pat, ch
class Acc:      # list under construction by the search loop
    def __init__(s, upto): s.upto = upto
class Has:
    def __init__(s, txt, pat, neg=False): s.txt, s.pat, s.neg = txt, pat, neg
class Fun:
    def __init__(s, node, env): s.node, s.env = node, env
class Mod:
    def __init__(s, n): s.n = n
class Bound:
    def __init__(s, o, m): s.o, s.m = o, m
class Undef: pass
UNDEF = Undef()
class Break(Exception): pass
class Continue(Exception): pass
class Return(Exception):
    def __init__(s, v): s.v = v
SAFE = dict(range=range, len=len, str=str, tuple=tuple, sorted=sorted, zip=zip, enumerate=enumerate, reversed=reversed, set=set, int=int, chr=chr, ord=ord)
CONST = (int, str, float, bool, type(None))
def concrete(v):
    if isinstance(v, CONST): return True
    if isinstance(v, (list, tuple, set, frozenset, range)): return all(concrete(x) for x in v)
    if isinstance(v, dict): return all(concrete(a) and concrete(b) for a, b in v.items())
    return isinstance(v, (zip, enumerate, type({}.items()), type({}.keys()), type({}.values())))

class Exec:
    def __init__(s, path, fname, decide):
        s.tree = ast.parse(open(os.path.join(REPO, path)).read()); s.fname, s.decide = fname, decide
        s.defs = {n.name: n for n in s.tree.body if isinstance(n, ast.FunctionDef)}
        s.glob = {}; s.conds, s.functions, s.depth = [], [fname], 0
        s.inloop = False
    def run(s):
        if s.fname not in s.defs: raise Out('no function %s' % s.fname)
        f = s.defs[s.fname]
        s.inp = Tab(Txt(), True)
        return s.call(f, [s.inp], {})
    def call(s, f, args, kw):
        s.depth += 1
        if s.depth > 20: raise Out('deep calls')
        a = f.args
        if a.vararg or a.kwarg or a.posonlyargs or f.decorator_list: raise Out('signature of %s' % f.name)
        names = [x.arg for x in a.args]; env = {}
        for n, v in zip(names, args): env[n] = v
        if len(args) > len(names): raise Out('arguments of %s' % f.name)
        for k, v in kw.items(): env[k] = v
        dn = names[len(names) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in env: env[n] = s.ev(d, {})
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg not in env: env[n.arg] = s.ev(d, {})
        if f.name not in s.functions: s.functions.append(f.name)
        try:
            s.block(f.body, env)
            return None
        except Return as r:
            return r.v
        finally:
            s.depth -= 1
    def block(s, b, env):
        for n in b: s.stmt(n, env)
    def bind(s, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (list, tuple)) or len(v) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts): raise Out('unpacking')
            for x, y in zip(t.elts, v): s.bind(x, y, env)
        elif isinstance(t, ast.Subscript):
            o, k = s.ev(t.value, env), s.ev(t.slice, env)
            if isinstance(o, Tab) and isinstance(k, Key):
                if not isinstance(v, Txt): raise Out('a value that is not a text')
                if o.param: raise Fail('the table that is handed in is changed, so converting it again starts from converted texts')
                if o.val is None or not getattr(o, 'building', False): o.val = v
                else: raise Out('writes to a table')
            elif isinstance(o, Chars):
                if not (isinstance(k, Idx) and k.kind == 'off' and isinstance(v, str) and len(v) == 1): raise Out('write to a character')
                if k.txt.st != o.txt.st: raise Out('positions of another text')
                if s.marks is None or s.marks[0] is not o: raise Out('write to a character outside the loop over the occurrences')
                s.marks[1].append((k.pat, k.ch, v))
            elif isinstance(o, (list, dict)) and concrete(k) and concrete(v) and not s.inloop: o[k] = v
            else: raise Out('assignment to an element')
        else: raise Out('assignment target')
    marks = None
    def stmt(s, n, env):
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant): return
            s.ev(n.value, env)
        elif isinstance(n, ast.Assign):
            v = s.ev(n.value, env)
            for t in n.targets: s.bind(t, v, env)
        elif isinstance(n, ast.AnnAssign) and n.value is not None: s.bind(n.target, s.ev(n.value, env), env)
        elif isinstance(n, ast.AugAssign):
            s.bind(n.target, s.ev(ast.BinOp(left=ast.Name(id=n.target.id, ctx=ast.Load()) if isinstance(n.target, ast.Name) else n.target, op=n.op, right=n.value), env), env)
        elif isinstance(n, ast.Return): raise Return(s.ev(n.value, env) if n.value else None)
        elif isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)): s.imp(n, env)
        elif isinstance(n, ast.If):
            t = s.ev(n.test, env)
            if isinstance(t, Has) and not t.neg and not n.orelse and s.guarded(n, t, env): return
            s.block(n.body if s.truth(t) else n.orelse, env)
        elif isinstance(n, ast.For): s.loop(n, env)
        elif isinstance(n, ast.While): s.search(n, env)
        elif isinstance(n, ast.Try):
            s.block(n.body, env); s.block(n.orelse, env); s.block(n.finalbody, env)     # every operation in reach cannot raise
        elif isinstance(n, ast.Break): raise Break()
        elif isinstance(n, ast.Continue): raise Continue()
        elif isinstance(n, ast.FunctionDef):
            env[n.name] = Fun(n, env)
        elif isinstance(n, ast.Assert): pass
        else: raise Out(type(n).__name__)
    def guarded(s, n, t, env):
        """if p in t: t = t.replace(q, r) with p part of q is the replacement alone"""
        if len(n.body) != 1 or not isinstance(n.body[0], ast.Assign) or len(n.body[0].targets) != 1 or not isinstance(n.body[0].targets[0], ast.Name): return False
        k = n.body[0].targets[0].id; old = env.get(k)
        if not isinstance(old, Txt) or old.st != t.txt.st: return False
        v = s.ev(n.body[0].value, env)
        if isinstance(v, Txt) and len(v.st) == len(old.st) + 1 and v.st[:-1] == old.st and isinstance(v.st[-1], Replace) and t.pat in v.st[-1].old:
            env[k] = v
            return True
        return False
    def imp(s, n, env):
        if isinstance(n, ast.Import):
            for a in n.names: env[a.asname or a.name.split('.')[0]] = Mod(a.name)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names: env[a.asname or a.name] = Bound(Mod(n.module), a.name)
    def truth(s, v):
        if isinstance(v, Has):
            if not v.pat: return not v.neg
            for t, p, b in s.conds:
                if t.st == v.txt.st and p == v.pat: return b != v.neg
            b = s.decide()
            s.conds.append((v.txt, v.pat, b))
            return b != v.neg
        if concrete(v): return bool(v)
        raise Out('a condition')
    # loops
    def assigned(s, body):
        return {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    def loop(s, n, env):
        it = s.ev(n.iter, env)
        if concrete(it):
            if n.orelse: raise Out('for-else')
            for v in list(it):
                s.bind(n.target, v, env)
                try: s.block(n.body, env)
                except Break: break
                except Continue: continue
            return
        if isinstance(it, Tab): it = Items(it, 'keys')
        if isinstance(it, Items): return s.generic(n, it, env)
        if isinstance(it, Occ): return s.occ(n, it, env)
        raise Out('a loop over something else')
    def generic(s, n, it, env):
        """one arbitrary entry: nothing may be carried from an earlier entry"""
        if s.inloop or n.orelse: raise Out('nested loops over the table')
        for x in s.assigned(n.body): env[x] = UNDEF
        objs = {id(v) for v in env.values() if isinstance(v, (list, dict, set))}
        s.inloop = True
        item = {'items': (Key(), it.tab.val), 'keys': Key(), 'values': it.tab.val}[it.kind]
        if it.kind != 'keys' and it.tab.val is None: raise Out('a table that is not filled')
        s.bind(n.target, item, env)
        s.outer = objs
        fresh = [v for v in env.values() if isinstance(v, Tab) and v.val is None]
        try: s.block(n.body, env)
        except Continue: pass
        except Break: raise Out('break')
        s.inloop = False
        for x in s.assigned(n.body) | s.assigned([ast.Expr(n.target)]) : env[x] = UNDEF
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name): env[x.id] = UNDEF
    def occ(s, n, it, env):
        """for p in (all occurrences): writes at find(ch, p)"""
        if n.orelse or s.marks is not None: raise Out('loops over occurrences')
        chars = [v for v in env.values() if isinstance(v, Chars)]
        for x in s.assigned(n.body): env[x] = UNDEF
        s.bind(n.target, Idx('one', it.txt, it.pat), env)
        tgt = {}
        # every write must go to one list of characters of the searched text
        for c in chars:
            if c.txt.st == it.txt.st: tgt[id(c)] = c
        if len(tgt) != 1: raise Out('no list of characters to write to')
        c = list(tgt.values())[0]
        s.marks = (c, [])
        try: s.block(n.body, env)
        except (Break, Continue): raise Out('break')
        ws = [(a, x) for p, a, x in s.marks[1] if p == it.pat]
        if len(ws) != len(s.marks[1]) or c.w is not None: raise Out('writes')
        s.marks = None
        c.w = Marks(it.pat, ws)
        for x in s.assigned(n.body): env[x] = UNDEF
        env[n.target.id] = UNDEF
    def search(s, n, env):
        """the loop that collects all occurrences: invariant index = previous occurrence (or -1) and the list holds the occurrences up to it"""
        if n.orelse: raise Out('while-else')
        ass = s.assigned(n.body)
        idx = [x for x in ass if env.get(x) == -1 or isinstance(env.get(x), Idx) and env[x].kind == 'first']
        acc = [x for x, v in env.items() if isinstance(v, list) and v == [] and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'append' and isinstance(y.func.value, ast.Name) and y.func.value.id == x for b in n.body for y in ast.walk(b))]
        if len(idx) != 1 or len(acc) != 1: raise Out('a while loop that is not the search loop')
        i, a = idx[0], acc[0]
        if s.inloop and id(env[a]) in s.outer: raise Out('a list that collects over the entries')
        if isinstance(env[i], Idx): return s.search2(n, env, i, a)
        st = dict(env)
        for x in ass: st[x] = UNDEF
        st[i] = Idx('prev'); st[a] = Acc('prev')
        if not (isinstance(n.test, ast.Constant) and n.test.value): raise Out('the condition of the search loop')
        # one arbitrary iteration, both outcomes of the search
        outs = []
        for found in (False, True):
            e = dict(st); e[a] = Acc('prev'); s.found = found; s.occinfo = None
            try:
                s.block(n.body, e); how = 'end'
            except Break: how = 'break'
            except Continue: how = 'end'
            if s.occinfo is None: raise Out('no search in the loop')
            outs.append((how, e, s.occinfo))
        s.found = None
        (h0, e0, o0), (h1, e1, o1) = outs
        if o0[0].st != o1[0].st or o0[1] != o1[1]: raise Out('two searches')
        if h0 != 'break' or e0[a].upto != 'prev': raise Out('the search loop does not stop when nothing is found')
        if h1 != 'end' or e1[a].upto != 'next' or not (isinstance(e1[i], Idx) and e1[i].kind == 'next'): raise Out('the search loop does not collect every occurrence')
        for x in ass: env[x] = UNDEF
        env[a] = Occ(*o0)
    def search2(s, n, env, i, a):
        """i = t.find(p); while i != -1: acc.append(i); i = t.find(p, i + 1)"""
        o = (env[i].txt, env[i].pat)
        st = dict(env)
        for x in s.assigned(n.body): st[x] = UNDEF
        st[i] = Idx('next', *o); st[a] = Acc('prev')
        s.found = True
        if not s.truth(s.ev(n.test, st)): raise Out('the condition of the search loop')
        s.found = False
        if s.truth(s.ev(n.test, st)): raise Out('the condition of the search loop')
        s.occinfo = None; s.found = None
        st[i] = Idx('one+', *o); st[a] = Acc('one')
        try: s.block(n.body, st)
        except (Break, Continue): raise Out('break')
        if not (st[a].upto == 'one+' and isinstance(st[i], Idx) and st[i].kind == 'after' and (st[i].txt.st, st[i].pat) == (o[0].st, o[1])): raise Out('the search loop does not collect every occurrence')
        for x in s.assigned(n.body): env[x] = UNDEF
        env[a] = Occ(*o)
    found = None
    # expressions
    def name(s, k, env):
        if k in env:
            if env[k] is UNDEF: raise Out('%s may hold the value of an earlier entry' % k)
            return env[k]
        if k in s.glob: return s.glob[k]
        if k in s.defs: return Fun(s.defs[k], {})
        for n in s.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k for t in n.targets):
                s.glob[k] = s.ev(n.value, {})
                return s.glob[k]
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                e = {}; s.imp(n, e)
                if k in e: return e[k]
        if k in ('dict', 'list', 'reduce', 'any', 'all') or k in SAFE: return Bound(None, k)
        raise Out('unknown name %s' % k)
    def ev(s, e, env):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name): return s.name(e.id, env)
        if isinstance(e, ast.Tuple): return tuple(s.ev(x, env) for x in e.elts)
        if isinstance(e, ast.List): return [s.ev(x, env) for x in e.elts]
        if isinstance(e, ast.Set): return {s.ev(x, env) for x in e.elts}
        if isinstance(e, ast.Dict):
            if not e.keys: return Tab(None) if s.tablike(e) else {}
            if len(e.keys) == 1 and e.keys[0] is None:
                t = s.ev(e.values[0], env)
                if isinstance(t, Tab): return Tab(t.val)
            if any(k is None for k in e.keys): raise Out('dictionary')
            return {s.ev(k, env): s.ev(v, env) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.Attribute):
            return Bound(s.ev(e.value, env), e.attr)
        if isinstance(e, ast.Subscript):
            o, k = s.ev(e.value, env), s.ev(e.slice, env) if not isinstance(e.slice, ast.Slice) else e.slice
            if isinstance(o, Tab) and isinstance(k, Key):
                if o.val is None: raise Out('a table that is not filled')
                return o.val
            if concrete(o) and not isinstance(k, ast.Slice) and concrete(k): return o[k]
            if concrete(o) and isinstance(k, ast.Slice): return o[slice(*[s.ev(x, env) if x else None for x in (k.lower, k.upper, k.step)])]
            raise Out('element')
        if isinstance(e, ast.UnaryOp):
            v = s.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                if isinstance(v, Has): return Has(v.txt, v.pat, not v.neg)
                return not s.truth(v)
            if isinstance(e.op, ast.USub) and isinstance(v, (int, float)): return -v
            raise Out('operator')
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = s.ev(x, env); b = s.truth(v)
                if b == isinstance(e.op, ast.Or): return b
            return b
        if isinstance(e, ast.IfExp): return s.ev(e.body if s.truth(s.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.Compare): return s.compare(e, env)
        if isinstance(e, ast.BinOp): return s.binop(e.op, s.ev(e.left, env), s.ev(e.right, env))
        if isinstance(e, ast.JoinedStr):
            r = ''
            for x in e.values:
                v = s.ev(x.value, env) if isinstance(x, ast.FormattedValue) else x.value
                if isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion != -1): raise Out('format')
                r = s.binop(ast.Add(), r, v if isinstance(v, Txt) else str(v) if concrete(v) else s.no('format'))
            return r
        if isinstance(e, ast.Lambda): return Fun(e, env)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)): return s.comp(e, env)
        if isinstance(e, ast.NamedExpr):
            v = s.ev(e.value, env); s.bind(e.target, v, env); return v
        if isinstance(e, ast.Call): return s.callx(e, env)
        raise Out(type(e).__name__)
    def no(s, w): raise Out(w)
    def tablike(s, e): return True
    def compare(s, e, env):
        if len(e.ops) != 1: raise Out('comparison')
        a, b, op = s.ev(e.left, env), s.ev(e.comparators[0], env), e.ops[0]
        if isinstance(b, Txt) and isinstance(a, str) and isinstance(op, (ast.In, ast.NotIn)): return Has(b, a, isinstance(op, ast.NotIn))
        if isinstance(a, Idx) and concrete(b):
            if a.kind == 'next' and s.found is not None:
                if b == -1 and isinstance(op, ast.Eq) or b == 0 and isinstance(op, ast.Lt): return not s.found
                if b == -1 and isinstance(op, (ast.NotEq, ast.Gt)) or b == 0 and isinstance(op, ast.GtE): return s.found
            raise Out('comparison of a position')
        if concrete(a) and concrete(b):
            f = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}.get(type(op))
            if f: return f()
        if isinstance(op, (ast.Is, ast.IsNot)) and b is None: return isinstance(op, ast.IsNot)
        raise Out('comparison')
    def binop(s, op, a, b):
        if isinstance(a, Idx) and b == 1 and isinstance(op, ast.Add) and a.kind in ('prev', 'one+'): return Idx(a.kind + '1', a.txt, a.pat)
        if isinstance(op, ast.Add):
            if isinstance(a, Txt) and isinstance(b, str): return a.then(Post(b)) if b else a
            if isinstance(b, Txt) and isinstance(a, str): return b.then(Pre(a)) if a else b
        if concrete(a) and concrete(b):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Mod: lambda: a % b, ast.BitOr: lambda: a | b}[type(op)]()
            except KeyError: pass
        if isinstance(op, ast.Add) and isinstance(a, list) and isinstance(b, list): return a + b
        raise Out('operator')
    def comp(s, e, env):
        if len(e.generators) != 1: raise Out('comprehension')
        g = e.generators[0]; it = s.ev(g.iter, env)
        if isinstance(it, Tab): it = Items(it, 'keys')
        if isinstance(it, Items):
            if not isinstance(e, ast.DictComp) or g.ifs or s.inloop or it.tab.val is None and it.kind != 'keys': raise Out('comprehension over the table')
            en = dict(env); s.bind(g.target, {'items': (Key(), it.tab.val), 'keys': Key(), 'values': it.tab.val}[it.kind], en)
            s.inloop = True
            k, v = s.ev(e.key, en), s.ev(e.value, en)
            s.inloop = False
            if not isinstance(k, Key) or not isinstance(v, Txt): raise Out('comprehension over the table')
            return Tab(v)
        if not concrete(it): raise Out('comprehension')
        out = []
        for v in list(it):
            en = dict(env); s.bind(g.target, v, en)
            if not all(s.truth(s.ev(c, en)) for c in g.ifs): continue
            out.append((s.ev(e.key, en), s.ev(e.value, en)) if isinstance(e, ast.DictComp) else s.ev(e.elt, en))
        return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
    def apply(s, f, args, kw=None):
        if isinstance(f, Fun):
            if isinstance(f.node, ast.Lambda):
                en = dict(f.env)
                for p, v in zip(f.node.args.args, args): en[p.arg] = v
                if len(f.node.args.args) != len(args): raise Out('lambda')
                return s.ev(f.node.body, en)
            if f.env:
                if any(isinstance(x, (ast.Nonlocal,)) for x in ast.walk(f.node)): raise Out('nonlocal')
                saved = s.glob; s.glob = dict(saved, **{k: v for k, v in f.env.items() if v is not UNDEF})
                try: return s.call(f.node, args, kw or {})
                finally: s.glob = saved
            return s.call(f.node, args, kw or {})
        raise Out('call')
    def callx(s, e, env):
        f = s.ev(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred): args += list(s.ev(x.value, env))
            else: args.append(s.ev(x, env))
        kw = {k.arg: s.ev(k.value, env) for k in e.keywords}
        if isinstance(f, Fun): return s.apply(f, args, kw)
        if not isinstance(f, Bound): raise Out('call')
        o, m = f.o, f.m
        if o is None:
            if m == 'dict':
                if not args and not kw: return Tab(None)
                if len(args) == 1 and isinstance(args[0], Tab) and args[0].val is not None: return Tab(args[0].val)
                if len(args) == 1 and isinstance(args[0], Items) and args[0].kind == 'items': return Tab(args[0].tab.val)
                if concrete(args): return dict(*args, **kw)
            if m == 'list':
                if args and isinstance(args[0], Txt): return Chars(args[0])
                if args and isinstance(args[0], (Items, Tab, Occ)): return args[0]
                if concrete(args): return list(*args)
            if m == 'str' and args and isinstance(args[0], Txt): return args[0]
            if m in ('sorted', 'tuple') and len(args) == 1 and isinstance(args[0], (Items, Tab)): return args[0]
            if m == 'sorted' and len(args) == 1 and isinstance(args[0], Occ): return args[0]
            if m == 'reversed' and len(args) == 1 and isinstance(args[0], Occ): return args[0]
            if m == 'len' and isinstance(args[0], (list, dict)): return len(args[0])
            if m == 'print': return None
            if m in ('any', 'all') and isinstance(args[0], list):
                for v in args[0]:
                    if s.truth(v) == (m == 'any'): return m == 'any'
                return m == 'all'
            if m in SAFE and concrete(args) and concrete(kw): return SAFE[m](*args, **kw)
            raise Out('call of %s' % m)
        if isinstance(o, Mod): return s.modcall(o.n, m, args, kw)
        if isinstance(o, Bound) and o.o is None: raise Out('method')
        if isinstance(o, Bound):
            if isinstance(o.o, Mod) and o.o.n == 're:' and m == 'sub' and len(args) == 2 and isinstance(args[1], Txt) and concrete(args[0]) and not kw: return args[1].then(Sub(o.m, args[0]))
            raise Out('call of %s' % m)
        if isinstance(o, Txt): return s.textm(o, m, args, kw)
        if isinstance(o, Tab):
            if m in ('items', 'keys', 'values') and not args: return Items(o, m)
            if m == 'copy' and not args and o.val is not None: return Tab(o.val)
            if m == 'get' and isinstance(args[0], Key) and o.val is not None: return o.val
            if m == 'update' and len(args) == 1 and isinstance(args[0], Tab) and not o.param and args[0].val is not None and not s.inloop: o.val = args[0].val; return None
            raise Out('method %s of the table' % m)
        if isinstance(o, str):
            if m == 'join' and isinstance(args[0], Chars):
                c = args[0]
                if o != '': raise Out('join')
                return c.txt.then(c.w) if c.w else c.txt
            if concrete(args) and concrete(kw): return getattr(o, m)(*args, **kw)
        if isinstance(o, Acc) and m == 'append':
            v = args[0]
            if isinstance(v, Idx) and v.kind == 'next' and o.upto == 'prev' and s.found: o.upto = 'next'; return None
            if isinstance(v, Idx) and v.kind == 'one+' and o.upto == 'one': o.upto = 'one+'; return None
            raise Out('append')
        if isinstance(o, list) and m in ('append', 'extend', 'insert'):
            if s.inloop and id(o) in getattr(s, 'outer', ()):
                if s.concreteuse(o): raise Out('a list that collects over the entries')
                return None
            getattr(o, m)(*args); return None
        if concrete(o) and concrete(args) and concrete(kw) and not isinstance(o, CONST):
            if m in ('items', 'keys', 'values', 'get', 'index', 'copy', 'count'): return getattr(o, m)(*args, **kw)
        raise Out('method %s' % m)
    def concreteuse(s, o): return True
    def modcall(s, mod, m, args, kw):
        if mod in ('copy',) and m in ('copy', 'deepcopy') and isinstance(args[0], Tab) and args[0].val is not None: return Tab(args[0].val)
        if mod == 'collections' and m in ('OrderedDict', 'defaultdict'):
            if not args or m == 'defaultdict' and len(args) == 1: return Tab(None)
            if isinstance(args[-1], Tab) and args[-1].val is not None: return Tab(args[-1].val)
        if mod == 're':
            if m == 'sub' and len(args) == 3 and concrete(args[:2]) and isinstance(args[2], Txt) and not kw and len(args) == 3: return args[2].then(Sub(args[0], args[1]))
            if m == 'compile' and concrete(args) and len(args) == 1: return Bound(Mod('re:'), args[0])
            if m == 'escape' and concrete(args): return _re.escape(*args)
        if mod == 'functools' and m == 'reduce' and concrete(args[1]):
            v = args[2] if len(args) > 2 else s.no('reduce')
            for x in args[1]: v = s.apply(args[0], [v, x])
            return v
        raise Out('call of %s.%s' % (mod, m))
    def textm(s, t, m, args, kw):
        if m == 'replace' and len(args) == 2 and concrete(args) and not kw: return t.then(Replace(*args))
        if m in ('strip', 'rstrip', 'lstrip') and not args: return t      # rate texts hold no white space (property C01)
        if m in ('upper', 'lower') and not args: return t.then(Map(str.upper if m == 'upper' else str.lower, m))
        if m == 'find' and not kw and isinstance(args[0], str):
            if len(args) == 1: return Idx('first', t, args[0])
            p = args[1]
            if isinstance(p, Idx):
                if p.kind == 'prev1' and s.found is not None:
                    if s.occinfo is not None: raise Out('two searches in one loop')
                    s.occinfo = (t, args[0]); return Idx('next', t, args[0])
                if p.kind == 'one+1' and p.txt.st == t.st and p.pat == args[0]: return Idx('after', t, args[0])
                if p.kind == 'one' and len(args[0]) == 1:
                    if p.txt.st != t.st: raise Out('positions of another text')
                    return Idx('off', t, p.pat, args[0])
        if m == 'index' and len(args) == 2 and isinstance(args[1], Idx) and args[1].kind == 'one' and len(args[0]) == 1 and args[1].txt.st == t.st:
            raise Out('index may raise')
        if m == 'translate' and len(args) == 1 and isinstance(args[0], dict):
            tb = args[0]; return t.then(Map(lambda c: c.translate(tb), 'translate'))
        if m == '__contains__': return Has(t, args[0])
        if m == 'count' and args and isinstance(args[0], str): raise Out('count')
        raise Out('text method %s' % m)

def paths(path, fname, limit=64):
    """all paths: [(conditions, chain, functions)]; Fail for a table that is changed"""
    out, todo = [], [[]]
    while todo:
        dec = todo.pop(); k = [0]
        def decide():
            i = k[0]; k[0] += 1
            if i == len(dec): dec.append(True); todo.append(dec[:i] + [False])
            return dec[i]
        x = Exec(path, fname, decide)
        r = x.run()
        if not isinstance(r, Tab): raise Out('the function does not return a table')
        if r.val is None: raise Out('the returned table is not filled')
        out.append(([(Chain(t.st), p, b) for t, p, b in x.conds], Chain(r.val.st), x.functions, r is x.inp))
        if len(out) > limit: raise Out('too many paths')
    return out

def complete(back, w):
    """shortest ending that makes w a rate text, with balanced brackets"""
    L = Lang(back); q = L.init()
    for c in w: q = L.step(q, c)[0]
    todo, seen = deque([(q, '')]), {q}
    while todo:
        q, e = todo.popleft()
        if L.end(q) is not None: w += e; break
        for c in ALPHA:
            r = L.step(q, c)
            if r and r[0] not in seen: seen.add(r[0]); todo.append((r[0], e + c))
    low = bal = 0
    for c in w:
        bal += (c == '(') - (c == ')'); low = min(low, bal)
    return '(' * -low + w + ')' * (bal - low)

def check_text(back, text):
    """the real code on one text"""
    from .replay_rates import py_value, close, run_jobs
    env = dict(TEMP=287.3, RO2=3.1e3, H2O=2.2e2); J = {i: .21 + .017 * i for i in range(100)}
    for i, k in enumerate(kpp.KNAMES): env[k] = .37 + .113 * i
    a = run_jobs([dict(op='convert', texts=[text], seqs=[[back], [back, back]])])[0]
    if not a['ok']: return dict(what='conversion raised an error', text=text, error=a.get('error'))
    try: exp = kpp.evaluate(text, env, J.__getitem__)
    except Exception: return None
    for c in (a['value'][0][0], a['value'][1][0]):
        try: got = py_value(c, env, J) if back == 'numba' else kpp.evaluate(c, env, J.__getitem__)
        except Exception as e: return dict(what='converted (%s) text cannot be evaluated' % back, text=text, converted=c, error='%s: %s' % (type(e).__name__, e))
        if not close(exp, got, 1e-9, 1e-290): return dict(what='conversion (%s) changed the value' % back, text=text, converted=c, expected=exp, got=got)
    return None

def job(back, limit):
    t0 = time.time(); path = 'rate_coeff_conversion.py'; fname = 'convert_rate_mcm_' + back
    vcs, oor, funs, wit, cover = [], None, [], [], False
    def vc(name, st, t, det='', be='automata (inductive invariant over reachable configurations)'): vcs.append((name, st, time.time() - t, det, be))
    try:
        ps = paths(path, fname)
        vc('%s: the table handed in is not changed, and the returned table has the same entries' % fname, 'proved' if not any(p[3] for p in ps) else 'refuted', t0, '', 'symbolic execution')
        for conds, ch, fs, _ in ps:
            for f in fs:
                if '%s:%s' % (path, f) not in funs: funs.append('%s:%s' % (path, f))
            tag = ' (when %s)' % ', '.join('%r %s' % (p, 'occurs' if b else 'does not occur') for _, p, b in conds) if conds else ''
            n = [0]
            for name, left, right, cs in [('every converted text means what the rate text means', None, Chain(ch.st + [Reader(back)]), conds)] + \
                    [('converting a converted text changes nothing', Chain(c2.st), Chain(ch.st + c2.st), conds + [(Chain(ch.st + x.st), p, b) for x, p, b in cd2]) for cd2, c2, _, _ in ps if len(ps) == 1] + \
                    [('converting a converted text changes nothing', ch, Chain(ch.st + c2.st), conds + [(Chain(ch.st + x.st), p, b) for x, p, b in cd2]) for cd2, c2, _, _ in ps if len(ps) > 1]:
                t1 = time.time()
                if time.time() - t0 > limit: raise Out('time limit')
                num, bad = compare(back, left, right, cs, limit - (time.time() - t0))
                cover = cover or num > 100
                if not bad: vc('%s: %s%s' % (fname, name, tag), 'proved', t1, '%d configurations, %d text functions' % (num, len(right.st)))
                else:
                    v = None
                    for w0, why in bad:
                        w = complete(back, w0); v = check_text(back, w)
                        if v: wit.append(v); break
                    vc('%s: %s%s' % (fname, name, tag), 'failed' if v else 'undecided', t1, 'on %r: %s%s' % (w, why, '' if v else ' (the value on the real code is unchanged)'))
    except Fail as f:
        vc('%s: the table handed in is not changed' % fname, 'refuted', t0, f.what, 'symbolic execution')
    except Out as o:
        oor = 'out of reach: ' + str(o)
    return dict(label='C10 ' + fname, vcs=vcs, functions=funs or ['%s:%s' % (path, fname)], oor=oor, covers={'rate texts are explored': cover or oor is not None or not vcs}, witness=wit, wall=time.time() - t0)
