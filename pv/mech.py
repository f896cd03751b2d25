"""Mechanisms: an abstract form, its text, and the meaning the properties give it (independent of /repo)."""
import random, math, re
from fractions import Fraction

class Reaction:
    def __init__(self, react, prod, rate):
        self.react, self.prod, self.rate = react, prod, rate      # [(coef text, name)]

def R(lhs, rhs='', rate='1.0D-12'):
    def side(s):
        out = []
        for t in s.split('+'):
            t = t.strip()
            if t:
                m = re.match(r'^(\d+\.\d+|\d+|\.\d+)?([A-Za-z].*)$', t)
                out.append((m.group(1) or '', m.group(2)))
        return out
    return Reaction(side(lhs), side(rhs), rate)

class Mech:
    def __init__(self, reactions, label='', style=0):
        self.rs, self.label, self.style = reactions, label, style
    def text(self):
        out = []
        for i, r in enumerate(self.rs):
            st = self.style
            l = [c + n for c, n in r.react]; p = [c + n for c, n in r.prod]
            rate = r.rate
            if st == 0:
                out.append('{%d.} \t %s = %s : \t%s \t;\n' % (i + 1, ' + '.join(l), ' + '.join(p), rate))
            elif st == 1:      # tight
                out.append('{%d.}%s=%s:%s;\n' % (i + 1, '+'.join(l), '+'.join(p), rate))
            elif st == 2:      # over several lines
                out.append('{%d.}\t %s\n = %s\n : %s\n ;\n' % (i + 1, ' + '.join(l), ' +\n  '.join(p), rate))
            elif st == 3:      # padded
                out.append('{%d.}   %s   =   %s   :  %s  ;  \n\n' % (i + 1, '  +  '.join(l), '  +  '.join(p), rate))
        return ''.join(out)
    # ---- meaning -------------------------------------------------------------------------
    def sides(self):
        """[(consumed {name: amount}, produced {name: amount})]"""
        res = []
        for r in self.rs:
            c, p = {}, {}
            for d, s in ((c, r.react), (p, r.prod)):
                for co, n in s:
                    if n != 'hv':
                        d[n] = d.get(n, Fraction(0)) + (Fraction(co if not co.startswith('.') else '0' + co) if co else 1)
            res.append((c, p))
        return res
    def species(self):
        seen = []
        for c, p in self.sides():
            for n in list(c) + list(p):
                if n not in seen:
                    seen.append(n)
        return seen
    def rates_text(self):
        return [''.join(r.rate.split()) for r in self.rs]

FIXED = ('AIR', 'H2O', 'O2', 'hv')

def exp_reactants(m, s2a, y):
    out = []
    for c, p in m.sides():
        v = 1.0
        for n, k in c.items():
            v *= y[s2a[n]] ** float(k)
        out.append(v)
    return out

def exp_dydt(m, s2a, r):
    out = [0.0] * len(s2a); mag = [0.0] * len(s2a)
    for e, (c, p) in enumerate(m.sides()):
        for n, k in c.items():
            if n not in FIXED:
                out[s2a[n]] -= float(k) * r[e]; mag[s2a[n]] += float(k) * abs(r[e])
        for n, k in p.items():
            if n not in FIXED:
                out[s2a[n]] += float(k) * r[e]; mag[s2a[n]] += float(k) * abs(r[e])
    return out, mag

def exp_jac(m, s2a, y, r):
    N = len(s2a)
    J = [[0.0] * N for _ in range(N)]; M = [[0.0] * N for _ in range(N)]
    for e, (c, p) in enumerate(m.sides()):
        for n, k in c.items():
            d = float(k) * y[s2a[n]] ** (float(k) - 1)
            for n2, k2 in c.items():
                if n2 != n:
                    d *= y[s2a[n2]] ** float(k2)
            d *= r[e]
            for s in set(c) | set(p):
                if s not in FIXED:
                    net = float(p.get(s, 0)) - float(c.get(s, 0))
                    J[s2a[s]][s2a[n]] += net * d
                    M[s2a[s]][s2a[n]] += (float(p.get(s, 0)) + float(c.get(s, 0))) * abs(d)
    return J, M

# ---- corpora ---------------------------------------------------------------------------------
RO2_SAMPLE = ['CH3O2', 'C2H5O2', 'HOCH2CH2O2', 'APINAO2', 'CH3CO3', 'C107O2', 'NAPINAO2', 'ISOPAO2']

def fixed_corpus():
    ms = []
    ms.append(Mech([R('NO2', 'NO + O'), R('O', 'O3'), R('O3 + NO', 'NO2')], 'basic'))
    ms.append(Mech([R('HO2 + HO2', 'H2O2'), R('2HO2', 'H2O2 + O2'), R('NO + NO + O2', 'NO2 + NO2')], 'repeats'))
    ms.append(Mech([R('A + B', 'B + C + C'), R('B', 'B + B + D'), R('C + C', 'C'), R('A', '2A'), R('D + B', 'A + D')], 'both sides'))
    ms.append(Mech([R('2NO2', 'N2O4'), R('2.0NO2 + 0.5O3', '1.5N2O5 + 0.25XO2'), R('3C5H8', '2C10H16 + 4H2O2'), R('0.5A1B2C3', '.5Z9')], 'coefficients'))
    ms.append(Mech([R('O + O3', ''), R('OH + HO2', ''), R('X', '')], 'empty products'))
    ms.append(Mech([R('NO2 + hv', 'NO + O'), R('hv + HCHO', 'CO + HO2 + HO2'), R('HCHO', 'H2 + CO')], 'hv'))
    ms.append(Mech([R('OH + H2', 'H2O + HO2'), R('O1D + H2O', 'OH + OH'), R('O + O2 + AIR', 'O3 + AIR'), R('H2O + AIR', '2O2')], 'fixed species'))
    # one species in many reactions on each side: more than four terms per line several times over
    many = [R('X + Q%d' % i, 'Z%d' % i, '1.0D-%d' % (10 + i)) for i in range(13)] + [R('Q%d' % i, 'X + W', '2.0D-3') for i in range(13)] + [R('X', '2.0X'), R('2X + W', 'Q1')]
    ms.append(Mech(many, 'many terms'))
    ms.append(Mech([R('A + B + C', 'D'), R('2A + B + C', '3D + A'), R('A + 2B + 3C', 'B'), R('A + A + B + B', 'A + 2.5B'), R('3A', 'D'), R('2A', 'A'), R('1.5A + B', 'C')], 'third order'))
    ms.append(Mech([R('CH3O2 + NO', 'HCHO + HO2 + NO2'), R('APINENE + OH', 'APINAO2'), R('APINAO2 + HO2', 'APINAOOH'), R('CH3CO3 + NO2', 'PAN'), R('C107O2', 'C107O2 + CO'), R('NONRO2', 'XO2')], 'peroxy radicals', 1))
    ms.append(Mech([R('A', 'B'), R('B', 'C'), R('C', 'A')], 'linear', 2))
    ms.append(Mech([R('N2O5', 'NO2 + NO3'), R('C5H8O2N1', '2C1 + 10C2'), R('10A2', '12A2B')], 'digits', 3))
    ms.append(Mech([R('A', 'A'), R('A + B', 'A + B'), R('A + B', 'A + C'), R('2A + B', '2A + D'), R('A + 2B', '3A')], 'catalysts'))
    ms.append(Mech([R('A + B', 'P%d' % (i % 3), '%d.5D-13' % i) for i in range(1, 24)], 'same reactants', 1))
    ms.append(Mech([R('E2', 'E1'), R('E1', 'D2'), R('D2 + E2', 'E3'), R('EXPO2 + LOGB', 'JUNK')], 'awkward names'))
    ms.append(Mech([R('A', 'B')], 'one reaction'))
    ms.append(Mech([R('12.5A + 1.05BB3', '10.75C4D + 0.08A'), R('.75C4D', '100.25BB3 + 20X'), R('1.999A', '1.001X + 0.999C4D'), R('0.01X + A', '.005A')], 'long coefficients'))
    ms.append(Mech([R('NO + O3', 'NO2 + hv'), R('NO2 + hv', 'NO + O + hv'), R('A', 'hv')], 'hv produced', 1))
    ms.append(Mech([R('OH', 'HO2'), R('OH + CO', 'HO2 + OH'), R('O + O', 'O2'), R('CO + CO', '2CO + O')], 'net zero'))
    ms.append(Mech([R('Air + h2o', 'o2 + HV'), R('O2A + AIRY', 'H2OX + XO2 + hvA', '2.5D-13 * EXP( 360 / TEMP )'), R('Cl + CL', 'cl + Hv'), R('o2 + hO2', 'H2o + air + O2B', '1.2D-12\t* ( TEMP / 300.0 )**( -0.5 )')], 'case and substrings'))
    ms.append(Mech([R('A + 2A + 0.5A', 'B + 2B + 0.25B + B'), R('2A + A + C', '3B + C + C + .5C'), R('B + B + B', 'A + 2A')], 'repeats with coefficients'))
    ms.append(Mech([R('0.2A + 0.7B', '0.125C'), R('0.4C + A', '0.3333A + 0.6B'), R('0.9B', '1.4C'), R('3.6A + 2.5C', '12.25B')], 'fractional orders', 2))
    return ms

def random_mech(rng, n=None):
    n = n or rng.choice([2, 3, 5, 8, 14, 22])
    pool = ['A', 'B', 'NO2', 'N2O5', 'C10H16', 'HO2', 'OH', 'CH3O2', 'X1Y2Z3', 'O2', 'H2O', 'AIR', 'hv', 'C5H8', 'APINAO2', 'H2O2']
    rng.shuffle(pool)
    pool = pool[:rng.randint(3, len(pool))]
    if all(x == 'hv' for x in pool[:1]): pool.append('A')
    def side(lo, hi):
        k = rng.randint(lo, hi); out = []
        for _ in range(k):
            c = rng.choice(['', '', '', '', '2', '3', '2.0', '0.5', '1.5', '1', '1.0', '0.25', '12', None])
            if c is None:
                c = rng.choice(['%d' % rng.randint(2, 25), '%d.%d' % (rng.randint(0, 40), rng.randint(1, 999)), '%d.%02d' % (rng.randint(0, 9), rng.randint(1, 99)), '.%d' % rng.randint(1, 99), '1.%d' % rng.randint(1, 9), '0.%03d' % rng.randint(1, 999)])
            out.append((c, rng.choice(pool)))
        return out
    rs = []
    for _ in range(n):
        l = side(1, 4)
        if all(x[1] == 'hv' for x in l):
            l.append(('', 'A'))
        l = [('' if x[1] == 'hv' else x[0], x[1]) for x in l]
        p = [('' if x[1] == 'hv' else x[0], x[1]) for x in side(0, 5)]
        rs.append(Reaction(l, p, rng.choice(['1.0D-12', '2.5D-13*EXP(360/TEMP)', '3.0E-5', '2.0D-12 * dabs( -1.5D0 )\t*KRO2NO', 'dsqrt(TEMP/300.0D0)*1.0D-12', '1.0D-12*J(4) * dlog(TEMP)'])))
    return Mech(rs, 'random', rng.choice([0, 0, 1, 2, 3]))

def corpus(seed, nrandom):
    rng = random.Random(seed)
    return fixed_corpus() + [random_mech(rng) for _ in range(nrandom)]
