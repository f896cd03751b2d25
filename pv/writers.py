"""Obligations of the equation-file writers (C03-C07, C13): every writer is executed symbolically against the contract of
the tables it reads; the text that reaches its file is read back by emit.Mach and must mean what the property says."""
import os, time, re, json
import z3
from .sym import *
from .emit import *
from . import emit
from .common import REPO

PARSE = REPO + '/Parse_eqn_file.py'
s_, n_, m_ = [z3.Const(x, Name) for x in ('s', 'n', 'm')]
e_ = z3.Int('e')
SPECIAL = ('AIR', 'H2O', 'O2', 'hv')

def engine(label, spec, filemap, deadline=None):
    def mk(eng, nm, st):
        if isinstance(nm, str) and os.path.basename(nm) in filemap: return Mach(spec)
        return None
    v = Vocab(mk)
    eng = Engine(v, label, deadline=deadline)
    eng.hooks.update(call=call_hook, attr=attr_hook)
    load(eng, PARSE)
    return eng, v

def argvals(fn, omp, special=None):
    """values of a writer's parameters, by name"""
    vals = dict(filename='X', equations=E, num_species=N, species_dict2array=SMap('sp'), rate_dict_reactants=SMap('react'), loss_dict=SMap('loss'), gain_dict=SMap('gain'),
                rate_dict=SMap('rate'), rate_dict_fortran=SMap('rate'), openMP=omp, OpenMP=omp)
    out = []
    for a in fn.node.args.args:
        if a.arg not in vals: raise OutOfReach('parameter %s of %s' % (a.arg, fn.node.name))
        out.append(vals[a.arg])
    return tuple(out)

def run_writer(eng, name, args_of, pc, deadline=None):
    fn = eng.globals.get(name)
    if not isinstance(fn, Fn): raise OutOfReach('%s is not in the file any more' % name)
    st = State().assume(*pc)
    eng.base = frozenset(eid(p) for p in st.pc)
    return eng.callfn(fn, args_of(fn), {}, st)

def finals(eng, outs, fnames):
    """[(machine, state)] of the last content of the file"""
    res = []
    for v, s in outs:
        ms = [o for i, o in sorted(s.heap.items()) if isinstance(o, HFile) and o.mach is not None]
        if not ms: raise OutOfReach('the file is not written')
        if len(ms) > 1: raise OutOfReach('the file is written more than once')
        res.append((ms[0].mach, s))
    return res

def net(s, e):
    return z3.If(Gk(s, e), Gv(s, e), ZERO) - z3.If(Lk(s, e), Lv(s, e), ZERO)
def special(v, s): return z3.Or([s == v.lit(x) for x in SPECIAL])

PARTS3 = {'s,n,m distinct': (s_, n_, m_), 's=n': (s_, s_, m_), 's=m': (s_, n_, s_), 'n=m': (s_, n_, n_), 's=n=m': (s_, s_, s_)}

def case_react(dialect, omp):
    f = dict(e=e_, m=m_)
    spec = Spec(dialect, 'react', f, omp)
    fn, file = {'py': ('write_reactants_indices', 'Reactants_conc_numba.py'), 'f90': ('write_reactants_indices_fortran', 'Reactants_conc.f90')}[dialect]
    eng, v = engine('%s%s' % (fn, ' with OpenMP' if omp else ''), spec, {file})
    eng.foci = {'Name': [m_], 'Int': [e_]}
    pc = [SP(m_), e_ >= 0, e_ < E]
    def cell(eng, st, val):
        c, ex, rn = val
        eng.oblige(st, 'the product of reaction e is a single term without rates', rn == 0)
        eng.oblige(st, 'the product of reaction e has coefficient one', c == 1)
        eng.oblige(st, 'the exponent of species m in reaction e is its total coefficient', ex == z3.If(Lk(m_, e_), Lv(m_, e_), ZERO))
    spec.goal = cell
    def goal(mach, st):
        eng.oblige(st, 'the product of reaction e is assigned', mach.sealed)
        eng.oblige(st, 'the generated function is complete', bool(mach.fn) and mach.ended and mach.mode == 'bol' and not mach.buf)
        if omp: eng.oblige(st, 'parallel region is closed', mach.omp == 'done'); eng.oblige(st, 'one thread writes each cell', mach.written <= 1)
    return eng, fn, file, omp, pc, goal

def case_tend(dialect, omp):
    f = dict(e=e_, s=s_)
    spec = Spec(dialect, 'tend', f, omp)
    fn, file = {'py': ('write_loss_gain_matrix', 'Loss_Gain_numba.py'), 'f90': ('write_loss_gain_fortran', 'Loss_Gain.f90')}[dialect]
    eng, v = engine('%s%s' % (fn, ' with OpenMP' if omp else ''), spec, {file})
    eng.foci = {'Name': [s_], 'Int': [e_]}
    pc = [SP(s_), e_ >= 0, e_ < E]
    def cell(eng, st, val): eng.oblige(st, 'coefficient of reaction e in the tendency of species s is produced minus consumed', val == z3.If(special(v, s_), ZERO, net(s_, e_)))
    spec.goal = cell
    def goal(mach, st):
        if not mach.sealed: cell(eng, st, ZERO)
        if dialect == 'f90': eng.oblige(st, 'the array is defined before it is returned', mach.inited or mach.written >= 1)
        eng.oblige(st, 'the generated function is complete', bool(mach.fn) and mach.ended and mach.mode == 'bol' and not mach.buf)
        if omp: eng.oblige(st, 'parallel region is closed', mach.omp == 'done'); eng.oblige(st, 'one thread writes each cell', mach.written <= 1)
    return eng, fn, file, omp, pc, goal

def case_jac(dialect, omp, part):
    s, n, m = PARTS3[part]
    f = dict(e=e_, s=s, n=n, m=m)
    spec = Spec(dialect, 'jac', f, omp)
    fn, file = {'py': ('write_gas_jacobian_numba', 'Jacobian_numba.py'), 'f90': ('write_gas_jacobian_fortran', 'Jacobian.f90')}[dialect]
    eng, v = engine('%s%s (%s)' % (fn, ' with OpenMP' if omp else '', part), spec, {file})
    names = []
    for x in (s, n, m):
        if not any(x.eq(y) for y in names): names.append(x)
    eng.foci = {'Name': names, 'Int': [e_]}
    v.pairs = [(s, n)]; v.summ = [W(s, n)]
    uniq = lambda xs: [x for i, x in enumerate(xs) if not any(x.eq(y) for y in xs[:i])]
    v.outer, v.inner = uniq([s, n]), uniq([n, m])
    pc = [SP(x) for x in names] + [e_ >= 0, e_ < E] + [a != b for i, a in enumerate(names) for b in names[:i]]
    def cell(eng, st, val):
        k = z3.If(Lk(n, e_), Lv(n, e_), ZERO)
        eng.oblige(st, 'coefficient of reaction e in the derivative of tendency s by species n', val == z3.If(special(v, s), ZERO, net(s, e_) * k))
    spec.goal = cell
    def goal(mach, st):
        if not mach.sealed: cell(eng, st, ZERO)
        if dialect == 'f90': eng.oblige(st, 'the array is defined before it is returned', mach.inited or mach.written >= 1)
        eng.oblige(st, 'the generated function is complete', bool(mach.fn) and mach.ended and mach.mode == 'bol' and not mach.buf)
        if omp: eng.oblige(st, 'parallel region is closed', mach.omp == 'done'); eng.oblige(st, 'one thread writes each cell', mach.written <= 1)
    return eng, fn, file, omp, pc, goal

def case_rate(dialect, omp):
    spec = Spec(dialect, 'rate', dict(e=e_), omp)
    fn, file = {'py': ('write_rate_file_numba', 'Rate_coefficients_numba.py'), 'f90': ('write_rate_file_fortran', 'Rate_coefficients.f90')}[dialect]
    eng, v = engine('%s%s' % (fn, ' with OpenMP' if omp else ''), spec, {file})
    eng.foci = {'Int': [e_]}
    pc = [e_ >= 0, e_ < E]
    def cell(eng, st, rhs):
        ps = [p for p in rhs if not (isinstance(p, str) and not p.strip(' '))]
        if len(ps) == 3 and isinstance(ps[0], str) and ps[0].strip() == '(' and isinstance(ps[2], str) and ps[2].strip() == ')': ps = ps[1:2]
        if len(ps) != 1 or not isinstance(ps[0], Hole):
            if not any(isinstance(p, Hole) for p in ps): eng.oblige(st, 'slot e holds the rate text of reaction e', False, 'the slot holds %r' % (''.join(ps),)); return
            raise OutOfReach('slot text other than one rate text')
        h = ps[0].v
        if not (isz(h) and h.sort() == RText): raise OutOfReach('slot holds a value of another kind')
        eng.oblige(st, 'slot e holds the rate text of reaction e', h == RT(e_))
    spec.goal = cell
    def goal(mach, st):
        eng.oblige(st, 'slot e is assigned', mach.sealed)
        eng.oblige(st, 'the generated function is complete', bool(mach.fn) and mach.ended and mach.mode == 'bol' and not mach.buf)
        if omp: eng.oblige(st, 'parallel region is closed', mach.omp == 'done'); eng.oblige(st, 'one thread writes each slot', mach.written <= 1)
    return eng, fn, file, omp, pc, goal

def isint(d):
    if isinstance(d, Builtin): d = d.name
    return isinstance(d, str) and re.match(r'(np\.|numpy\.)?(int|int32|int64|intp|i8|i4)$', d.split('builtin:')[-1]) is not None
def namekey(x):
    return ''.join(p if isinstance(p, str) else '\0' for p in x.parts) if isinstance(x, Text) else x
def case_ro2():
    """the saved index list, for an arbitrary species p: its position is in it exactly once iff p is a species on the list"""
    p = z3.Const('p', Name)
    eng, v = engine('write_RO2_indices', None, {})
    eng.foci = {'Name': [p]}
    eng.vals_tracked = [idx(p)]
    lists = []
    orig = v.literal_list
    def lit(e, items):
        c = orig(e, items)
        if not any(i == items for i, _ in lists): lists.append((items, c)); v.summ = [c.has(p)]
        return c
    v.literal_list = lit
    state = dict(saved=0)
    def save(eng, st, what, args, kw):
        if what in ('array', 'asarray'):
            if not args or not isinstance(args[0], Ref) or not isinstance(st.heap[args[0].id], (HAcc, HColl, HList)): raise OutOfReach('array of something else')
            d = kw.get('dtype', args[1] if len(args) > 1 else None)
            r, s = st.alloc(st.heap[args[0].id])
            return [(r, s.setextra('int', s.extra.get('int', ()) + (r.id,)) if isint(d) else s)]
        if what == 'savez': raise OutOfReach('savez')
        nm = namekey(args[0])
        if nm is None or not isinstance(nm, str) or not re.search(r'_RO2_indices(\.npy)?$', nm): return [(None, st)]
        val = args[1]
        if not isinstance(val, Ref): raise OutOfReach('saved value')
        o = st.heap[val.id]
        if len(lists) != 1: raise OutOfReach('not one list of names')
        items, inl = lists[0]
        ref = set(json.load(open(os.path.join(os.path.dirname(__file__), 'reference', 'ro2.json'))))
        eng.oblige(st, 'the list of names is the peroxy-radical list', set(items) == ref, 'differs in %s' % sorted(set(items) ^ ref)[:6])
        eng.oblige(st, 'the list names each radical once', len(items) == len(set(items)), 'repeated %s' % [x for x in items if items.count(x) > 1][:4])
        want = z3.And(SP(p), inl.has(p))
        if isinstance(o, HList) and not o.items: o = HAcc({})
        if isinstance(o, HColl):
            c = o.coll
            if vkey(c.elem) != vkey(idx(placeholder(Name))): raise OutOfReach('elements of the saved list')
            eng.oblige(st, 'p is indexed exactly when it is a radical of the mechanism', c.has(p) == want)
            eng.oblige(st, 'no position is listed twice', c.distinct)
        elif isinstance(o, HAcc):
            k = o.counts.get(0, 0)
            eng.oblige(st, 'the position of p is listed exactly when it is a radical of the mechanism', (want if k >= 1 else z3.Not(want)))
            eng.oblige(st, 'no position is listed twice', k <= 1)
        else: raise OutOfReach('saved value')
        eng.oblige(st, 'the array has an integer type, also when it is empty', val.id in st.extra.get('int', ()))
        state['saved'] += 1
        return [(None, st.setextra('saved', st.extra.get('saved', 0) + 1))]
    eng.hooks['save'] = save
    def acc(eng, st, x):
        if not (isz(x) and z3.is_app(x) and x.decl().name() == 'idx'): raise OutOfReach('a listed value is not the position of a species')
        if not lists: raise OutOfReach('no list of names')
        eng.oblige(st, 'only positions of listed species are collected', z3.And(SP(x.arg(0)), lists[0][1].has(x.arg(0))))
    eng.hooks['acc'] = acc
    return eng, 'write_RO2_indices', None, None, [SP(p)], None
def job_ro2(limit):
    t0 = time.time()
    eng, fn, _, _, pc, _ = case_ro2()
    eng.deadline = t0 + limit
    try:
        outs = run_writer(eng, fn, lambda f: argvals(f, None), pc)
        for _, st in outs: eng.oblige(st, 'the indices are saved once', st.extra.get('saved', 0) == 1)
        r = dict(label=eng.label, vcs=eng.vcs, functions=sorted(eng.functions), oor=None, covers={'an execution reaches the end': bool(outs)})
    except OutOfReach as x:
        r = dict(label=eng.label, vcs=eng.vcs, functions=sorted(eng.functions), oor=str(x), covers={})
    r['vcs'] = vctuples(r['vcs'])
    return r

def case_mat(which):
    """one arbitrary cell of the stored sparse matrix"""
    fn, prefix, rows = dict(reactants=('write_reactants_indices', 'reactants_indices_sparse_', True), loss_gain=('write_loss_gain_matrix', 'loss_gain_', False))[which]
    eng, v = engine('%s (stored matrix)' % fn, None, {})
    x = m_ if which == 'reactants' else s_
    eng.foci = {'Name': [x], 'Int': [e_]}
    v.cell = (e_, idx(x)) if rows else (idx(x), e_)
    dims = (E, N) if rows else (N, E)
    val = lambda: z3.If(Lk(m_, e_), Lv(m_, e_), ZERO) if rows else z3.If(special(v, s_), ZERO, net(s_, e_))
    def matrix(eng, st, args, kw):
        sh = args[0] if args else kw.get('shape')
        if not (isinstance(sh, tuple) and len(sh) == 2): raise OutOfReach('shape of the matrix')
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        nm = dt.name if isinstance(dt, Builtin) else dt
        if dt is not None and not re.match(r'(builtin:)?(np\.|numpy\.)?(float|float64|double|f8|d)$', str(nm)):
            if isint(dt) : eng.oblige(st, 'the matrix can hold fractional amounts', False, 'integer matrix')
            else: raise OutOfReach('dtype of the matrix')
        # only the matrices of the right shape are followed
        f = z3.And([(a if isz(a) else z3.IntVal(a)) == b for a, b in zip(sh, dims)])
        if not eng.entails(st, f): raise OutOfReach('a matrix of another shape')
        r, s = st.alloc(HMat(ZERO, 'lil')); return [(r, s)]
    eng.hooks['matrix'] = matrix
    def save(eng, st, what, args, kw):
        if what in ('array', 'asarray'): return None
        if what == 'save': return [(None, st)]
        nm = namekey(args[0]) if args else None
        if not isinstance(nm, str) or not nm.startswith(prefix): return [(None, st)]
        if set(kw) != {'data', 'indices', 'indptr', 'shape'}: raise OutOfReach('what is stored')
        refs = set()
        for k, w in kw.items():
            if not (isinstance(w, Op) and w.name == 'attr'): raise OutOfReach('what is stored')
            eng.oblige(st, 'the stored %s are the matrix\'s' % k, w.args[0] == k); refs.add(w.args[1].args[0])
        if len(refs) != 1: raise OutOfReach('parts of several matrices')
        o = st.heap[int(refs.pop())]
        if not isinstance(o, HMat): raise OutOfReach('stored object')
        eng.oblige(st, 'the matrix is stored in csr form', o.tag == 'csr')
        if not isz(o.val) and not isinstance(o.val, (int, float)): raise OutOfReach('value of the cell')
        w = o.val if isz(o.val) else eng.real(float(o.val))
        eng.oblige(st, 'the stored entry is the stoichiometry of the reaction', w == val())
        return [(None, st.setextra('saved', st.extra.get('saved', 0) + 1))]
    eng.hooks['save'] = save
    return eng, fn, [SP(x), e_ >= 0, e_ < E]
def job_mat(which, limit):
    t0 = time.time()
    eng, fn, pc = case_mat(which)
    eng.deadline = t0 + limit
    try:
        outs = run_writer(eng, fn, lambda f: argvals(f, None), pc)
        for _, st in outs: eng.oblige(st, 'the matrix is stored once', st.extra.get('saved', 0) == 1)
        r = dict(label=eng.label, vcs=eng.vcs, functions=sorted(eng.functions), oor=None, covers={'an execution reaches the end': bool(outs)})
    except OutOfReach as x:
        r = dict(label=eng.label, vcs=eng.vcs, functions=sorted(eng.functions), oor=str(x), covers={})
    r['vcs'] = vctuples(r['vcs'])
    return r

def decide(case, limit=240):
    """run one case -> dict(vcs, functions, oor, stats)"""
    t0 = time.time()
    try:
        eng, fn, file, omp, pc, goal = case
        eng.deadline = t0 + limit
        outs = run_writer(eng, fn, lambda f: argvals(f, omp), pc)
        fs = finals(eng, outs, {file})
        if not fs: raise OutOfReach('no execution reaches the end')
        for mach, st in fs: goal(mach, st)
        covers = {'an execution reaches the end': any(eng.feasible(st) for _, st in fs), 'the focus cell is written on some execution': any(m.written for m, _ in fs)}
        return dict(label=eng.label, vcs=eng.vcs, functions=sorted(eng.functions), oor=None, secs=time.time() - t0, qtime=eng.qtime, nq=eng.nq, heads=eng.stats['heads'], covers=covers, finals=len(fs))
    except OutOfReach as x:
        return dict(label=eng.label, vcs=eng.vcs, functions=sorted(eng.functions), oor=str(x), secs=time.time() - t0, qtime=eng.qtime, nq=eng.nq, heads=eng.stats['heads'], covers={}, finals=0)
CASES = dict(rate=case_rate, react=case_react, tend=case_tend, jac=case_jac)
def vctuples(vcs): return [(v.name, v.status, round(v.secs, 4), v.detail if v.status != 'proved' else '', v.backend) for v in vcs]
def job(kind, dialect, omp, part, limit):
    """a case, decided; an obligation that does not go through is tried once more without any weakening of what is known"""
    def mk(): return CASES[kind](*([dialect, omp] + ([part] if part else [])))
    r = decide(mk(), limit)
    if r['oor']:
        for v in r['vcs']:
            if v.status == 'failed': v.status, v.detail = 'undecided', 'not discharged with weakened assumptions, and the run did not end'
    elif any(v.status != 'proved' for v in r['vcs']):
        c = mk(); c[0].weaken = False
        r2 = decide(c, 0.7 * limit)
        if r2['oor']:
            for v in r['vcs']:
                if v.status != 'proved': v.status, v.detail = 'undecided', 'not discharged with weakened assumptions (%s); without weakening: %s' % (v.status, r2['oor'])
        else: r = r2
    r['vcs'] = vctuples(r['vcs'])
    return r
def show(r):
    from collections import Counter
    print(r['label'], 'vcs', len(r['vcs']), Counter(v.status for v in r['vcs']), 'oor', r['oor'], '%.1fs (solver %.1f, %d queries, %d heads, %d finals)' % (r['secs'], r['qtime'], r['nq'], r['heads'], r['finals']), r['covers'])
    for v in r['vcs']:
        if v.status != 'proved': print('   ', v.status, v.name, v.detail[:700])
if __name__ == '__main__':
    import sys
    for d in ('py', 'f90'):
        show(decide(case_react(d, False)))
        if d == 'f90': show(decide(case_react(d, True)))
