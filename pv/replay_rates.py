"""Concrete replay of C07-C11 and C22 on the real code."""
import random, math, os, re, json, glob
from . import mech as M, kpp
from .common import run_jobs, close, SEED, REPO, VERIF
REF = os.path.join(VERIF, 'pv', 'reference')

def probe_mech(texts, label='probe'):
    return M.Mech([M.R('A%d' % i, 'B', t) for i, t in enumerate(texts)], label)

def conds(rng, n, tmin=200, tmax=320):
    return [[rng.uniform(0, 86400 * 1.5), 10 ** rng.uniform(6, 11), 10 ** rng.uniform(15, 18), rng.uniform(tmin, tmax)] for _ in range(n)]

def mech_texts():
    """Distinct rate texts of the mechanisms that come with the repository."""
    out = []
    for f in sorted(glob.glob(REPO + '/*.eqn.txt') + glob.glob(REPO + '/mechanism_files/*.txt') + glob.glob(REPO + '/*/*.eqn.txt')):
        try:
            s = open(f, errors='replace').read()
        except OSError:
            continue
        s = re.sub(r'\{[^}]*\}|//.*', '', s)
        for m in re.finditer(r':([^:;]*);', s):
            t = ''.join(m.group(1).split())
            if t and t not in out:
                try:
                    kpp.parse(t)
                except kpp.BadText:
                    continue
                out.append(t)
    return out

def values_job(texts, cs, omp=(False,), cores=4, **k):
    return dict(op='mech', text=probe_mech(texts).text(), want=['rates'], conds=cs, omp=list(omp), cores=cores, **k)

def stage(v, st):
    s = v.get(st)
    if not s or not s.get('ok'):
        return None, (s or {}).get('error', 'missing')
    return s['value'], None

ALL = kpp.KNAMES + ['J(%d)' % i for i in kpp.JNUM]

def c07(seed=SEED, n=24, omp=(False, True), cores=(4, 6, 3)):
    """Slot e holds the value of expression e: constants' values come from probe reactions of the same file."""
    rng = random.Random(seed * 7 + 1)
    jobs, meta = [], []
    for i in range(n):
        E = rng.choice([1, 2, 3, 5, 7, 11, 16, 25])
        texts = [kpp.random_text(rng) if rng.random() < .8 else rng.choice(kpp.fixed_texts()) for _ in range(E)]
        if rng.random() < .5 and E > 2:
            texts[-1] = texts[0]
        probe = ALL if i % 2 == 0 else []
        if not probe:
            texts = ['%d.%dD-%d*EXP(-%d/TEMP)+%d.0D-20*H2O' % (rng.randint(1, 9), rng.randint(0, 99), rng.randint(1, 12), rng.randint(1, 500), rng.randint(1, 9)) for _ in range(E)]
        order = [('t', t) for t in texts] + [('p', t) for t in probe]
        if i % 4 == 2:
            rng.shuffle(order)
        jobs.append(values_job([t for _, t in order], conds(rng, 3), omp, cores[i % len(cores)]))
        meta.append(order)
    # large: more reactions than any grouping in the writers
    texts = ['%d.0D-3*TEMP' % (i + 1) for i in range(230)]
    jobs.append(values_job(texts, conds(rng, 1), omp, 8)); meta.append([('t', t) for t in texts])
    out = []
    for j, order, r in zip(jobs, meta, run_jobs(jobs)):
        if not r['ok']:
            out.append(dict(what='the code raised an error on a well-formed mechanism', error=r.get('error'), tb=r.get('tb'), mechanism=j['text'])); continue
        v = r['value']
        for st, tol in [('rates_numba', 1e-9)] + [('rates_fortran_%s' % o, 2e-5) for o in omp]:
            val, err = stage(v, st)
            if val is None:
                e2 = v.get('rates_fortran', {})
                out.append(dict(what=st + ' could not be produced or run', error=err if err != 'missing' else e2.get('error'), tb=(v.get(st) or e2).get('tb'), mechanism=j['text'])); continue
            for c, vec in zip(j['conds'], val):
                if len(vec) != len(order):
                    out.append(dict(what='%s: %d values for %d reactions' % (st, len(vec), len(order)), mechanism=j['text'])); break
                env = dict(TEMP=c[3], RO2=c[1], H2O=c[2]); J = {}
                for i, (k, t) in enumerate(order):
                    if k == 'p':
                        if t.startswith('J('): J[int(t[2:-1])] = float(vec[i])
                        else: env[t] = float(vec[i])
                bad = None
                for i, (k, t) in enumerate(order):
                    try:
                        exp = kpp.evaluate(t, env, J.__getitem__); mag = kpp.evaluate(t.replace('-', '+') if 'EXP' not in t else t, env, J.__getitem__)
                    except (KeyError, OverflowError, ZeroDivisionError, ValueError, kpp.BadText):
                        continue
                    if isinstance(exp, complex) or abs(exp) > 1e300: continue
                    g = float(vec[i])
                    if not close(exp, g, tol, tol * abs(mag) + 1e-290) and not (st != 'rates_numba' and (abs(exp) < 1e-30 or 'D+' in t or sens(t, env, J, exp, g))):
                        bad = dict(what='%s: reaction %d' % (st, i + 1), rate=t, expected=exp, got=g, conditions=c, mechanism=j['text']); break
                if bad:
                    out.append(bad); break
    return out, len(jobs) * (1 + len(omp)), [o for o in meta[:3]]

def sens(t, env, J, exp, got):
    """True when single-precision literals explain the difference (cancellation)."""
    lo = hi = exp
    rng = random.Random(1)
    a = kpp.parse(t)
    def jit(n, r):
        if n[0] == 'num': return ('num', n[1] * (1 + r.uniform(-1.2e-7, 1.2e-7)))
        return tuple(jit(x, r) if isinstance(x, tuple) else x for x in n)
    for _ in range(40):
        try:
            x = kpp.ev(jit(a, rng), {k: v * (1 + rng.uniform(-3e-7, 3e-7)) for k, v in env.items()}, lambda n: J[n] * (1 + rng.uniform(-3e-7, 3e-7)))
        except Exception:
            return True
        lo, hi = min(lo, x), max(hi, x)
    w = hi - lo
    return lo - 5 * w <= got <= hi + 5 * w

def times(rng, n):
    """Times of day: regular, random and next to sunrise and sunset."""
    ts = [i * 3600.0 for i in range(25)] + [rng.uniform(0, 86400) for _ in range(n)]
    # around the horizon
    for a, b in ((0, 43200), (43200, 86400)):
        lo, hi = float(a), float(b)
        for _ in range(60):
            m = (lo + hi) / 2
            if (cosx(m) > 0) == (cosx(hi) > 0): hi = m
            else: lo = m
        ts += [lo - 5, lo + 5, lo - 120, lo + 120, lo - .5, lo + .5]
    return ts

def cosx(t, lat=51.51, lon=0.13, day=150.0):
    """Cosine of the solar zenith angle at the site the repository models (AtChem2 formulae)."""
    th = 2 * math.pi * (day - 1) / 365
    b = [0.006918, -0.399912, 0.070257, -0.006758, 0.000907, -0.002697, 0.001480]
    dec = b[0] + b[1] * math.cos(th) + b[2] * math.sin(th) + b[3] * math.cos(2 * th) + b[4] * math.sin(2 * th) + b[5] * math.cos(3 * th) + b[6] * math.sin(3 * th)
    eq = 0.000075 + 0.001868 * math.cos(th) - 0.032077 * math.sin(th) - 0.014615 * math.cos(2 * th) - 0.040849 * math.sin(2 * th)
    h = (t % 86400) / 3600
    lha = math.pi * (h / 12 - (1 + lon / 180)) + eq
    la = lat * math.pi / 180
    return math.cos(lha) * math.cos(la) * math.cos(dec) + math.sin(la) * math.sin(dec)

def c08(seed=SEED, n=30):
    rng = random.Random(seed * 11 + 3)
    cs = []
    for t in times(rng, n)[:n + 30]:
        T = rng.choice([298.15, rng.uniform(150, 400), 150.0, 400.0, 273.15])
        base = [10 ** rng.uniform(6, 11), 10 ** rng.uniform(15, 18), T]
        cs += [[t] + base, [t + .4] + base, [t - .4] + base]
    j = values_job(ALL, cs)
    r = run_jobs([j])[0]
    out = []
    if not r['ok']:
        return [dict(what='probe mechanism failed', error=r.get('error'), tb=r.get('tb'))], 0, []
    nv, e1 = stage(r['value'], 'rates_numba'); fv, e2 = stage(r['value'], 'rates_fortran_False')
    if nv is None or fv is None:
        return [dict(what='a rate file could not be produced or run for the MCM constants', error=[e1, r['value'].get('rates_fortran', {}).get('error')], tb=(r['value'].get('rates_numba', {}).get('tb'), r['value'].get('rates_fortran', {}).get('tb')))], 0, []
    ref = json.load(open(REF + '/falloff.json'))
    for i in range(0, len(cs), 3):
        for k, nm in enumerate(ALL):
            a, b = float(nv[i][k]), float(fv[i][k])
            tol = 2e-5 * abs(a)
            if nm.startswith('J('):
                tol += max(abs(float(nv[i + d][k]) - a) for d in (1, 2)) + 1e-300
            if not abs(a - b) <= tol:
                out.append(dict(what='%s differs between Python and Fortran' % nm, python=a, fortran=b, conditions=cs[i])); 
        T = cs[i][3]
        for nm, (k0, ki) in ref.items():
            env = dict(TEMP=T, M=2.55e19)
            l0, li = kpp.evaluate(k0, env, None), kpp.evaluate(ki, env, None)
            for which, vec, tol in (('python', nv[i], 1e-9), ('fortran', fv[i], 1e-5)):
                v = float(vec[ALL.index(nm)])
                if not (v > 0 and v <= min(l0, li) * (1 + tol)):
                    out.append(dict(what='%s (%s) is not positive and below its limits' % (nm, which), value=v, low_pressure_limit=l0, high_pressure_limit=li, conditions=cs[i]))
        if len(out) > 20: break
    return out, len(cs) // 3 * len(ALL), [dict(conditions=cs[0], KMT01=[float(nv[0][ALL.index('KMT01')]), float(fv[0][ALL.index('KMT01')])])]

def c09(seed=SEED, n=60):
    rng = random.Random(seed * 13 + 5)
    ts = [t for t in times(rng, n)]
    texts = ['J(%d)' % i for i in kpp.JNUM]
    cs = []
    for t in ts:
        for s in (t, t + 86400.0 * rng.choice([1, 2, 3, 10, 40]), t + .01, t - .01):
            cs.append([s, 1e8, 1e17, 298.0])
    j = values_job(texts, cs)
    r = run_jobs([j])[0]
    if not r['ok']:
        return [dict(what='probe mechanism failed', error=r.get('error'), tb=r.get('tb'))], 0, []
    out = []; cnt = 0; night = 0
    for st, slack in (('rates_numba', 1e-7), ('rates_fortran_False', 3e-5)):
        val, err = stage(r['value'], st)
        if val is None:
            out.append(dict(what=st + ' could not be produced or run', error=err if err != 'missing' else r['value'].get('rates_fortran', {}).get('error'))); continue
        for i in range(0, len(cs), 4):
            t = cs[i][0]
            for k, nm in enumerate(texts):
                cnt += 1
                a, b = float(val[i][k]), float(val[i + 1][k])
                if not a >= 0 or not b >= 0:
                    out.append(dict(what='%s %s is negative or not a number' % (st, nm), time=[t, cs[i + 1][0]], value=[a, b]))
                c = cosx(t)
                if c < -slack:
                    night += 1
                    if a != 0 or b != 0:
                        out.append(dict(what='%s %s is not zero while the sun is below the horizon' % (st, nm), time=[t, cs[i + 1][0]], value=[a, b]))
                s = max(abs(float(val[i + d][k]) - a) for d in (2, 3))
                if not abs(a - b) <= 1e-7 * abs(a) + s:
                    out.append(dict(what='%s %s does not repeat after whole days' % (st, nm), time=[t, cs[i + 1][0]], value=[a, b]))
            if len(out) > 10: break
    return out, cnt, [dict(times=len(ts), night_values=night)]

class JJ:
    def __init__(self, v): self.v = v
    def __getitem__(self, n): return self.v[n]

def py_value(text, env, J):
    g = dict(env); g.update(numba_exp=math.exp, numba_log=math.log, numba_abs=abs, numba_sqrt=math.sqrt, numba_log10=math.log10, J=JJ(J), __builtins__={}, np=None)
    v = eval(compile(text, '<rate>', 'eval'), g)
    return v

def c10(seed=SEED, n=250, full=False):
    rng = random.Random(seed * 17 + 7)
    texts = kpp.fixed_texts() + [kpp.random_text(rng) for _ in range(n)]
    mt = mech_texts()
    if not full and len(mt) > 1200:
        rng.shuffle(mt); mt = mt[:1200]
    texts += mt
    seqs = [['numba'], ['fortran'], ['numba', 'numba'], ['fortran', 'fortran'], ['-fortran', 'numba'], ['-numba', 'fortran'], ['-fortran', '-fortran', 'numba']]
    job = dict(op='convert', texts=texts, seqs=seqs)
    vt = kpp.fixed_texts() + texts[len(kpp.fixed_texts()):len(kpp.fixed_texts()) + 60]
    env = dict(TEMP=287.3, RO2=3.1e9, H2O=2.2e17); J = {}
    for i, k in enumerate(kpp.KNAMES): env[k] = 0.37 + .113 * i
    for i in range(63): J[i] = 0.21 + .017 * i
    g = values_job(vt, [[43200.0, 1e9, 2e17, 287.3]])
    a, b = run_jobs([job, g])
    out = []
    if not a['ok']:
        out.append(dict(what='conversion raised an error', error=a.get('error'), tb=a.get('tb')))
        return out, 0, []
    cnt = 0
    for seq, res in zip(seqs, a['value']):
        for t, c in zip(texts, res):
            cnt += 1
            try:
                exp = kpp.evaluate(t, env, J.__getitem__)
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
            try:
                got = py_value(c, env, J) if seq[-1] == 'numba' else kpp.evaluate(c, env, J.__getitem__)
                if seq[-1] == 'fortran' and re.search(r'[a-z]', c) : got = kpp.evaluate(c, env, J.__getitem__)
            except Exception as e:
                out.append(dict(what='converted (%s) text cannot be evaluated' % '>'.join(seq), text=t, converted=c, error='%s: %s' % (type(e).__name__, e))); continue
            if not close(exp, got, 1e-9, 1e-290):
                out.append(dict(what='conversion (%s) changed the value' % '>'.join(seq), text=t, converted=c, expected=exp, got=got))
    # the converted text is accepted by the real back ends
    if not b['ok']:
        out.append(dict(what='the code raised an error on well-formed rate texts', error=b.get('error'), tb=b.get('tb')))
    else:
        for st in ('rates_numba', 'rates_fortran'):
            s = b['value'].get(st)
            if not s or not s['ok']:
                out.append(dict(what=st + ': converted rate texts are not accepted by the back end', error=(s or {}).get('error')))
    return out, cnt, [dict(text=texts[3], numba=a['value'][0][3], fortran=a['value'][1][3])]

def c11(seed=SEED, n=25):
    rng = random.Random(seed * 19 + 9)
    ref = json.load(open(REF + '/ro2.json')); refs = set(ref)
    ms = []
    chunk = 60
    names = list(ref); rng.shuffle(names)
    for i in range(0, len(names), 300):          # every listed name once, mixed with near misses
        rs = []
        for k in range(i, min(i + 300, len(names)), 3):
            g = names[k:k + 3]
            rs.append(M.R(' + '.join(g[:2]), g[-1] if len(g) > 2 else ''))
        for x in names[i:i + 20]:
            for y in (x + 'X', 'X' + x, x[:-1] if len(x) > 2 and x[0].isalpha() else 'ZZ'):
                rs.append(M.R(y, 'NO'))
        ms.append(M.Mech(rs, 'list'))
    for _ in range(n):
        pool = rng.sample(names, 6) + ['NO', 'OH', 'APINENE', 'O3', 'XRO2']
        rs = [M.R(' + '.join(rng.sample(pool, rng.randint(1, 2))), ' + '.join(rng.sample(pool, rng.randint(0, 3)))) for _ in range(rng.randint(1, 10))]
        ms.append(M.Mech(rs, 'random'))
    ms += [M.Mech([M.R('NO', 'NO2')], 'none'), M.Mech([M.R('CH3O2', 'NO2')], 'first'), M.Mech([M.R('NO', 'CH3O2')], 'last')]
    jobs = [dict(op='mech', text=m.text(), want=['ro2'], conds=[]) for m in ms]
    out = []
    for m, j, r in zip(ms, jobs, run_jobs(jobs)):
        if not r['ok']:
            out.append(dict(what='the code raised an error on a well-formed mechanism', error=r.get('error'), tb=r.get('tb'), mechanism=j['text'][:3000])); continue
        v = r['value']; s = v['ro2']
        if not s['ok']:
            out.append(dict(what='the index set could not be written or used as an index', error=s.get('error'), mechanism=j['text'][:3000])); continue
        s2a = v['parse']['species_dict2array']
        got = [int(x) for x in list(s['value'])]
        exp = sorted(i for x, i in s2a.items() if x in refs)
        if sorted(got) != exp or any(float(x) != int(x) for x in list(s['value'])):
            inv = {i: x for x, i in s2a.items()}
            out.append(dict(what='peroxy-radical positions differ', missing=[inv[i] for i in exp if i not in got][:20], extra=[inv.get(i, i) for i in got if i not in exp][:20], repeated=sorted({inv.get(i, i) for i in got if got.count(i) > 1})[:20], mechanism=j['text'][:3000]))
    return out, len(jobs), [dict(names=len(names), first=names[:5])]

def c22(seed=SEED, n=60, omp=(False,)):
    """Tendency of an absent species from the real reactant products and the real loss/gain code."""
    rng = random.Random(seed * 23 + 11)
    ms = M.corpus(seed, n)
    # pass 1: react values per y; r = k * product; pass 2: dydt of r
    jobs = []
    for m in ms:
        sp = m.species(); ys = []
        for z in range(5):
            ys.append([0.0 if rng.random() < (.3 if z else 0) else rng.uniform(.2, 3) for _ in sp])
        for i in range(min(len(sp), 4)):
            y = [rng.uniform(.2, 3) for _ in sp]; y[rng.randrange(len(sp))] = 0.0; ys.append(y)
        jobs.append(dict(op='mech', text=m.text(), want=['react'], ys=ys, rs=[], omp=list(omp), conds=[]))
    res = run_jobs(jobs)
    jobs2, idx = [], []
    out = []
    for m, j, r in zip(ms, jobs, res):
        if not r['ok']:
            out.append(dict(what='the code raised an error on a well-formed mechanism', error=r.get('error'), mechanism=j['text'])); continue
        for st, st2 in [('react_numba', 'dydt_numba')] + [('react_fortran_%s' % o, 'dydt_fortran_%s' % o) for o in omp]:
            s = r['value'].get(st)
            if not s or not s['ok']:
                out.append(dict(what=st + ' could not be produced or run', error=(s or {}).get('error'), mechanism=j['text'])); continue
            try:
                rs = [[rng.uniform(.1, 2) * float(x) for x in v] for v in s['value']]
            except TypeError:
                continue
            jobs2.append(dict(op='mech', text=j['text'], want=['dydt'], ys=[], rs=rs, omp=list(omp), conds=[])); idx.append((m, j, st2))
    cnt = 0
    for (m, j, st2), j2, r in zip(idx, jobs2, run_jobs(jobs2)):
        s = r['ok'] and r['value'].get(st2)
        if not s or not s['ok']:
            out.append(dict(what=st2 + ' could not be produced or run', error=(s or r).get('error'), mechanism=j['text'])); continue
        s2a = r['value']['parse']['species_dict2array']
        for y, rr, dy in zip(j['ys'], j2['rs'], s['value']):
            sc = max([abs(x) for x in rr] + [0])
            for name, i in s2a.items():
                if i < len(y) and y[i] == 0.0:
                    cnt += 1
                    if not float(dy[i]) >= -1e-6 * sc * 0 - 1e-300:
                        out.append(dict(what='%s: tendency of absent %s is negative' % (st2, name), value=float(dy[i]), y={n: y[k] for n, k in s2a.items()}, mechanism=j['text'])); break
    return out, cnt, [dict(mechanism=ms[0].text())]
