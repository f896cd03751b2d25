"""The concrete part of each check: run the real code on a corpus, compare with the meaning of the property."""
from . import replay_mech as RM, replay_rates as RR, replay_more as RX, mech as M
from .common import SEED

def _mech(prop, omp=(False, True)):
    def f(seed, tier, deep=False):
        n = 24 if tier == 'quick' else 250
        if deep: n *= 4
        ms = M.corpus(seed, n)
        om = omp if prop in ('C03', 'C04', 'C05') else (False,)
        out, cnt, _ = RM.run([prop], ms, seed, om, cores=4)
        v = out[prop]
        if prop in ('C03', 'C04', 'C05') and not v:
            for cores in (2, 8):
                o2, c2, _ = RM.run([prop], M.fixed_corpus() + ms[-8:], seed + cores, (True,), cores=cores)
                v += o2[prop]; cnt += c2
        return v, cnt, [dict(mechanism=m.text()[:600]) for m in ms[7:9]]
    return f

def _s(f, nq, nt, **kw):
    def g(seed, tier, deep=False):
        return f(seed=seed, n=(nq if tier == 'quick' else nt) * (3 if deep else 1), **kw)
    return g

def _c21(seed, tier, deep=False):
    return RX.c21(seed)

REPLAY = {p: _mech(p) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06')}
REPLAY.update(C07=_s(RR.c07, 24, 150), C08=_s(RR.c08, 30, 400), C09=_s(RR.c09, 60, 600), C10=_s(RR.c10, 250, 4000), C11=_s(RR.c11, 25, 200), C22=_s(RR.c22, 60, 400, omp=(False, True)),
              C12=_s(RX.c12, 14, 120), C13=_s(RX.c13, 6, 12), C14=_s(RX.c14, 10, 60), C15=_s(RX.c15, 10, 60), C16=_s(RX.c16, 10, 60), C17=_s(RX.c17, 80, 1000), C18=_s(RX.c18, 60, 600), C19=_s(RX.c19, 60, 600), C20=_s(RX.c20, 60, 600), C21=_c21)
