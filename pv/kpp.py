"""Rate expressions: an independent reader and evaluator of the KPP notation (and of the Fortran one)."""
import re, math, random
TOK = re.compile(r'\s*(?:(\d+\.\d*(?:[DdEe][+-]?\d+)?|\.\d+(?:[DdEe][+-]?\d+)?|\d+(?:[DdEe][+-]?\d+)?)|([A-Za-z_][A-Za-z_0-9]*)|(\*\*|[-+*/()\[\],]))')
FUN = {'EXP': math.exp, 'LOG': math.log, 'DLOG': math.log, 'DABS': abs, 'ABS': abs, 'DSQRT': math.sqrt, 'SQRT': math.sqrt, 'LOG10': math.log10, 'DEXP': math.exp}

class BadText(Exception): pass

def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise BadText('cannot read %r at %r' % (s, s[i:i + 10]))
        n, w, o = m.groups()
        out.append(('n', n) if n else ('w', w) if w else ('o', o))
        i = m.end()
    return out

def parse(s):
    t = tokens(s); p = [0]
    def peek(): return t[p[0]] if p[0] < len(t) else ('e', '')
    def eat(o):
        if peek() != ('o', o): raise BadText('expected %s in %r' % (o, s))
        p[0] += 1
    def expr():
        if peek()[1] in '+-' and peek()[0] == 'o':
            o = peek()[1]; p[0] += 1
            a = term(); a = ('neg', a) if o == '-' else a
        else:
            a = term()
        while peek()[0] == 'o' and peek()[1] in ('+', '-'):
            o = peek()[1]; p[0] += 1
            a = (o, a, term())
        return a
    def term():
        a = factor()
        while peek()[0] == 'o' and peek()[1] in ('*', '/'):
            o = peek()[1]; p[0] += 1
            a = (o, a, factor())
        return a
    def factor():
        if peek() == ('o', '-'):
            p[0] += 1
            return ('neg', factor())
        if peek() == ('o', '+'):
            p[0] += 1
            return factor()
        a = atom()
        if peek() == ('o', '**'):
            p[0] += 1
            return ('**', a, factor())
        return a
    def atom():
        k, v = peek(); p[0] += 1
        if k == 'n': return ('num', float(v.upper().replace('D', 'E')))
        if k == 'w':
            if peek() == ('o', '('):
                p[0] += 1; a = expr(); eat(')')
                return ('call', v, a)
            return ('name', v)
        if (k, v) == ('o', '('):
            a = expr(); eat(')'); return a
        raise BadText('unexpected %r in %r' % (v, s))
    a = expr()
    if p[0] != len(t): raise BadText('trailing text in %r' % s)
    return a

def ev(a, env, J):
    k = a[0]
    if k == 'num': return a[1]
    if k == 'name': return env[a[1]]
    if k == 'neg': return -ev(a[1], env, J)
    if k == 'call':
        if a[1] == 'J': return J(int(ev(a[2], env, J)))
        f = FUN.get(a[1].upper())
        if f is None: raise BadText('unknown function ' + a[1])
        return f(ev(a[2], env, J))
    x, y = ev(a[1], env, J), ev(a[2], env, J)
    return x + y if k == '+' else x - y if k == '-' else x * y if k == '*' else x / y if k == '/' else x ** y

def evaluate(text, env, J):
    return ev(parse(text), env, J)

# constants the MCM uses, with the J numbers both preludes define
KNAMES = ['KRONO2', 'KRO2NO', 'KRO2HO2', 'KAPHO2', 'KAPNO', 'KRO2NO3', 'KNO3AL', 'KDEC', 'KROSEC', 'KALKOXY', 'KALKPXY', 'KROPRIM', 'KCH3O2', 'K298CH3O2', 'K14ISOM1', 'KFPAN', 'KBPAN', 'KBPPN',
          'KMT01', 'KMT02', 'KMT03', 'KMT04', 'KMT05', 'KMT06', 'KMT07', 'KMT08', 'KMT09', 'KMT10', 'KMT11', 'KMT12', 'KMT13', 'KMT14', 'KMT15', 'KMT16', 'KMT17', 'KMT18', 'M', 'N2', 'O2']
JNUM = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 31, 32, 33, 34, 35, 41, 51, 52, 53, 54, 55, 56, 57, 61]

def random_text(rng, names=None, depth=0):
    names = names or KNAMES[:-3] + ['RO2', 'H2O', 'O2', 'TEMP']
    def num(d=0):
        # literals stay ordinary: a whole number as the argument of a function is not Fortran (SQRT(5)), and a
        # quotient of literals in EXP is folded in single precision by the compiler
        if d: return rng.choice(['%d.%dD-%d' % (rng.randint(1, 9), rng.randint(0, 99), rng.randint(1, 9)), '%d.%dD+%d' % (rng.randint(1, 9), rng.randint(0, 99), rng.randint(0, 3)), '0.%d' % rng.randint(1, 999), '%d.0' % rng.randint(1, 30), '%d.%dD0' % (rng.randint(1, 9), rng.randint(0, 9))])
        return rng.choice(['%d.%dD-%d' % (rng.randint(1, 9), rng.randint(0, 99), rng.randint(1, 19)), '%d.%dD+%d' % (rng.randint(1, 9), rng.randint(0, 99), rng.randint(0, 12)), '%d.%dD%d' % (rng.randint(1, 9), rng.randint(0, 9), rng.randint(0, 14)),
                           '0.%d' % rng.randint(1, 999), '%d.0' % rng.randint(1, 30), '%d' % rng.randint(1, 9), '%dD-%02d' % (rng.randint(1, 9), rng.randint(1, 9)), '%d.E-%d' % (rng.randint(1, 9), rng.randint(1, 9)), '%d.%dE%d' % (rng.randint(1, 9), rng.randint(1, 9), rng.randint(0, 3))])
    def atom(d):
        c = rng.random()
        if c < .3: return num(d)
        if c < .5: return rng.choice(names)
        if c < .65: return 'J(%d)' % rng.choice(JNUM)
        if c < .78: return 'EXP(%s%d.%s/TEMP)' % (rng.choice(['', '-']), rng.randint(10, 900), rng.choice(['', '0']))
        if c < .9 and d < 2:
            f = rng.choice(['EXP', 'LOG', 'dlog', 'dabs', 'dsqrt'])
            if f == 'EXP':
                x = atom(2)
                return 'EXP(-dabs(%s)/(1.0+dabs(%s)))' % (x, x)
            if f in ('LOG', 'dlog'): return '%s(2.0+dabs(%s))' % (f, expr(d + 1))
            if f == 'dsqrt': return 'dsqrt(dabs(%s))' % expr(d + 1)
            return 'dabs(%s)' % expr(d + 1)
        if c < .95: return '(TEMP/300.)**%s' % rng.choice(['(-1.5)', '2', '0.5', '(-2.6)'])
        return '(%s)' % expr(d + 1) if d < 2 else num(d)
    def expr(d):
        n = rng.choice([1, 1, 2, 2, 3, 4]) if d == 0 else rng.choice([1, 1, 2])
        t = atom(d)
        for _ in range(n - 1):
            t += rng.choice(['*', '*', '*', '+', '-']) + atom(d)
        return t
    while True:
        t = expr(depth)
        if len(t) <= 90:        # longer ones do not fit on the Fortran line the code writes
            return t

def fixed_texts():
    t = ['1.0D-12', '3.8D-13*EXP(780/TEMP)*(1-1/(1+498*EXP(-1160/TEMP)))', 'J(1)', 'J(11)+J(12)*0.5', 'J(4)*J(4)+J(4)', '5.6D-34*N2*(TEMP/300)**(-2.6)*O2', 'KMT01', 'KRO2NO*0.9', '2.0D0*KDEC', '1.5D1', '1D0*J(61)', '2.3D5*J(31)', '9.0D9*KDEC',
         'EXP(1.0D8/TEMP**3)*1.87D-20', '2.20D-13*KMT06*EXP(600/TEMP)', '2*(K298CH3O2*8.0D-12)**0.5*RO2*0.2', '2*KCH3O2*RO2*7.18*EXP(-885/TEMP)', '2*KCH3O2*RO2*0.5*(1-7.18*EXP(-885/TEMP))', 'dsqrt(2.0D-12)*dlog(5.0D0)', 'LOG(TEMP)*dlog(TEMP)',
         'dabs(-1.0D-3)', 'dsqrt(TEMP)*dsqrt(300.0D0)', 'EXP(LOG(TEMP)/2)', '1.0D+5*1.0D-5', '4.0D0+5.0D1+6.0D2+7.0D3+8.0D4', '1.0D5*1.0D6*1.0D7', '3.0D-7-1.0D-8', '1.0E-12*EXP(-3.0E2/TEMP)', '6.0D10', '1.2D19*1.0D-19', 'KROSEC*O2', '3.8D-12*EXP(-1.0*930/TEMP)',
         '(1.0D0+J(2))*(J(3)+1.0D-3)', 'J(15)*2*J(16)*J(17)+J(18)', 'EXP(-1.0D0)*EXP(2.0D0)+LOG(10.0D0)', 'TEMP', 'H2O*1.0D-17', 'RO2', '1.0D0']
    t.append('+'.join('J(%d)*0.%d' % (k, k) for k in JNUM[:9]))
    t.append('+'.join('J(%d)' % k for k in JNUM[:-14:-1]) + '+EXP(-1.0D0)')
    for f in ('EXP(-%d.0D0/TEMP)', 'LOG(%d.0D0+TEMP)', 'dlog(%d.0D0+TEMP)', 'dabs(-%d.0D0)', 'dsqrt(%d.0D0)'):
        t.append('+'.join(f % k for k in range(1, 7)))
        t.append('*'.join(f % k for k in range(1, 6)) + '-J(4)*J(5)')
    for k in range(10):
        t += ['+'.join('%d.%dD%d' % (j, j, k) for j in range(1, 10)), '+'.join('1.%dD%d%d' % (j, k % 3, k) for j in range(1, 4)), '+'.join('%d.%dD-%d' % (j, j, k) for j in range(1, 10)), '+'.join('%d.%dD+0%d' % (j, j, k) for j in range(1, 10)), '1.1D-1%d*1.1D+1%d' % (k, k)]
    return t
