#!/usr/bin/env python3-vt
"""run_check.py <property>: proof obligations on the current /repo source, then replay on the real code."""
import sys, os, json, time, traceback, hashlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pv import common
from pv.replays import REPLAY

def jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray): return jsonable(x.tolist())
    if isinstance(x, np.generic): return jsonable(x.item())
    if isinstance(x, (int, str, bool)) or x is None: return x
    if isinstance(x, float): return x if x == x and abs(x) != float('inf') else repr(x)
    return repr(x)

def known():
    out = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            if l.startswith('known:'): out.append(l.strip())
    except OSError:
        pass
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else common.TIER
    seed = common.SEED
    t0 = time.time()
    from pv import proofs
    crashed = []
    def replay(*a):
        try: return REPLAY[prop](*a)
        except Exception:          # the harness itself could not cope: no answer from it
            crashed.append(traceback.format_exc()); return [], 0, []
    viols, cnt, samples = replay(seed, tier)
    res = proofs.run(prop, tier, 240 if viols else None)            # Result: obligations, functions, assumptions, notes
    viols += res.witness             # a counterexample of the verifier that failed on the real code
    deep = False
    if not viols and any(o.status != 'proved' for o in res.obligations):       # something is not discharged: look harder for an input
        deep = True
        for s in (seed + 101, seed + 202):
            if time.time() - t0 > 420: break
            v2, c2, _ = replay(s, 'quick', True)
            viols += v2; cnt += c2
            if viols: break
    for o in res.obligations:        # a refutation in an abstract state counts when the real code fails too
        if o.status == 'refuted':
            o.status = 'failed' if viols else 'undecided'
            if not viols: o.detail = 'not established; no failing input found by the replay: ' + str(o.detail)
    failed = [o for o in res.obligations if o.status == 'failed']
    reach = [o for o in res.obligations if o.status == 'undecided']
    proved = [o for o in res.obligations if o.status == 'proved']
    wall = time.time() - t0
    level = 'proof' if res.obligations else 'exploration'
    byend, st = {}, 0.0
    for o in res.obligations:
        byend.setdefault(o.backend or '-', [0, 0])
        byend[o.backend or '-'][0] += 1
        byend[o.backend or '-'][1] += o.status == 'proved'
        st += o.time
    cov = dict(replay=dict(comparisons=cnt, deep=deep, what='bounded: well-formed inputs run through the real code, the results compared with an independent evaluation of the property'), samples=jsonable(samples))
    if not res.obligations: cov.update(evaluations=cnt, rule='see replay')
    else:
        cov.update(obligations=len(res.obligations), discharged=len(proved), checker_cmd='python3-vt run_check.py %s' % prop, trusted_base=res.trusted,
                   functions_under_contract=res.functions, by_back_end={k: dict(obligations=a, discharged=b) for k, (a, b) in byend.items()}, solver_seconds=round(st, 3),
                   undecided=[dict(name=o.name, why=str(o.detail)[:400]) for o in reach][:50], failed=[dict(name=o.name, why=str(o.detail)[:400]) for o in failed][:50],
                   obligation_names=[o.name for o in res.obligations][:400], bounded=res.bounded, vacuity=res.vacuity)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=res.assumptions, wall_s=round(wall, 2), violations=len(viols) + (1 if failed and not viols else 0))
    os.makedirs(HERE + '/evidence/replays', exist_ok=True)
    json.dump(jsonable(ev), open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s: %d obligations (%d proved, %d failed, %d undecided), %d replays, %.1fs' % (prop, len(res.obligations), len(proved), len(failed), len(reach), cnt, wall))
    for c in crashed: print('  replay harness gave no answer: ' + c[-600:])
    for o in reach[:8]: print('  undecided (bounded check stands in): %s: %s' % (o.name, str(o.detail)[:300]))
    for o in failed[:8]: print('  FAILED obligation %s: %s' % (o.name, ' '.join(str(o.detail)[:900].split())))
    if viols or failed:
        path = HERE + '/evidence/replays/%s.json' % prop
        json.dump(jsonable(dict(property=prop, seed=seed, violations=viols[:20], failed_obligations=[dict(name=o.name, backend=o.backend, verifier_output=str(o.detail), location=o.where) for o in failed], repo=common.REPO,
                                how='python3-vt /verif/run_check.py %s' % prop)), open(path, 'w'), indent=1)
        if viols:
            print('  first failing input: %s' % json.dumps(jsonable(viols[0]))[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        sys.stdout.flush(); os._exit(1)
    for k in known():
        if 'property=%s ' % prop in k: print('KNOWN-FINDING: ' + k[len('known: '):])
    sys.stdout.flush(); os._exit(0)

try:
    main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.stdout.flush(); os._exit(3)
