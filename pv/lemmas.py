"""Lemmas over the contracts: consequences proved by the solver from the postconditions of the functions, not from their bodies."""
import time
import z3
from .emit import Lk, Lv, Gk, Gv, SP, idx, Vocab, Name
from .sym import VC

class Prover:
    def __init__(self, label): self.label, self.vcs = label, []
    def prove(self, name, hyps, goal, timeout=20000):
        t = time.time()
        s = z3.Solver(); s.set('timeout', timeout)
        s.add(*hyps); s.add(z3.Not(goal))
        r = str(s.check())
        st = {'unsat': 'proved', 'sat': 'failed'}.get(r, 'undecided')
        self.vcs.append(('%s: %s' % (self.label, name), st, round(time.time() - t, 4), '' if st == 'proved' else (str(s.model()) if r == 'sat' else 'unknown'), 'z3'))
        return st == 'proved'
    def cover(self, name, hyps):
        s = z3.Solver(); s.set('timeout', 20000); s.add(*hyps)
        return str(s.check()) == 'sat'
    def result(self, functions=(), **kw):
        return dict(dict(label=self.label, vcs=self.vcs, functions=list(functions), oor=None, covers={}), **kw)

def absent_species():
    """C22 from the contracts of C03 (product of reaction e) and C04 (coefficient of e in the tendency of s)"""
    P = Prover('lemma C22')
    s = z3.Const('s', Name); e = z3.Int('e')
    k, ys, rest, fac, prod, coef, acc, pw = z3.Reals('k y_s rest factor product coefficient acc power')
    special = z3.Bool('special')
    net = z3.If(Gk(s, e), Gv(s, e), 0) - z3.If(Lk(s, e), Lv(s, e), 0)
    table = [z3.Implies(Lk(s, e), Lv(s, e) > 0), z3.Implies(Gk(s, e), Gv(s, e) > 0), SP(s)]
    # C03 at m = s: the product of e is y_s**Lv times the other factors when s is consumed, and free of y_s otherwise
    c03 = [prod == z3.If(Lk(s, e), fac, z3.RealVal(1)) * rest, z3.Implies(z3.And(Lv(s, e) > 0, ys == 0), fac == 0)]
    c04 = [coef == z3.If(special, z3.RealVal(0), net)]
    hyp = table + c03 + c04 + [ys == 0, k >= 0, rest >= 0]
    P.prove('a reaction that consumes an absent species has product zero', hyp + [Lk(s, e)], prod == 0)
    P.prove('a reaction that does not consume it does not lower it', hyp + [z3.Not(Lk(s, e))], coef >= 0)
    P.prove('its contribution to the tendency is not negative', hyp, coef * (k * prod) >= 0)
    P.prove('sums of such contributions are not negative (induction step)', [acc >= 0, pw >= 0], acc + pw >= 0)
    return P.result(covers={'hypotheses are satisfiable with a consuming reaction': P.cover('c', hyp + [Lk(s, e), k > 0]), 'and with a producing one': P.cover('c', hyp + [Gk(s, e), z3.Not(Lk(s, e)), k > 0, prod > 0])})
