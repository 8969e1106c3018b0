#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough] | check.py --replay <file>

Decides one property on /repo's current working tree: (1) the contracts of the property's functions are discharged by
the verification-condition generator pyvc (function by function, from the source in /repo), (2) solver counterexamples
are replayed on the real code, and the same contracts are evaluated at run time on generated inputs, (3) the verdict
and evidence/<property>.json are written.  Exit 0 held, 1 violated (VIOLATION line)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'     # never run stale byte code of /repo
from pyvc import binding

ORACLES = {'codec': ('C01', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11'), 'utils': ('C05', 'C26'), 'serials': ('C13', 'C14'),
           'modems': ('C12', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C27', 'C28'), 'term': ('C24', 'C25', 'C29'), 'cli': ('C30',)}
QUICK, THOROUGH = 6.0, 240.0


def load_oracle(prop):
    from oracle import base
    for m, ps in ORACLES.items():
        if prop in ps: importlib.import_module('oracle.' + m)
    return base


def known(prop):
    """(case, input repr) pairs of the listed findings of this property"""
    out = []
    p = os.path.join(HERE, 'KNOWN-FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == prop: out.append(d)
    return out


def write_replay(prop, d):
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', 'replay', '%s.json' % prop)
    with open(path, 'w') as f: json.dump(d, f, indent=1)
    return path


def replay(path):
    d = json.load(open(path))
    binding.setup_path()
    base = load_oracle(d['property'])
    if 'input' not in d:
        print('no input: failed obligation(s) %s' % d.get('obligations')); return 1
    import datetime
    c = next(c for c in base.CASES[d['property']] if c.name == d['case'])
    m = base.execute(c, eval(d['input'], {'datetime': datetime}))
    print('%s: %s(%s): %s' % (d['property'], d['case'], d['input'][:2000], m or 'holds'))
    return 1 if m else 0


def main():
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    binding.setup_path()
    problems = []
    violation = None
    try:
        base = load_oracle(prop)
    except Exception as e:
        # the code under test cannot even be imported
        tb = traceback.format_exc()
        path = write_replay(prop, dict(property=prop, obligations=['import of the code under verification'], output=tb[-3000:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('the modules of this property cannot be imported: %s' % e)
        sys.exit(1)
    # -- deductive part
    proof = None
    try:
        from contracts import registry
        proof = registry.prove(prop, tier, seed)
    except Exception:
        problems.append('verifier failure: ' + traceback.format_exc()[-1500:])
    # -- run-time evaluation of the contracts (replays the solver's counterexamples first)
    extra = []
    if proof: extra = proof.get('inputs', [])
    secs = float(os.environ.get('VERIF_SECONDS') or (QUICK if tier == 'quick' else THOROUGH))
    refuted = proof.get('refuted', []) if proof else []
    if refuted: secs = max(secs, 45.0)
    res = base.search(prop, seed, secs, extra=extra)
    findings = known(prop)
    for k in findings:
        c = next((c for c in base.CASES[prop] if c.name == k['case']), None)
        if c and base.execute(c, eval(k['input'])): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if res.failure:
        c, inp, msg = res.failure
        violation = dict(property=prop, case=c.name, input=repr(inp), message=msg, seed=seed, obligations=[r['name'] for r in refuted])
    elif refuted:
        violation = dict(property=prop, obligations=refuted, note='no failing input found')
    level = 'proof' if (proof and proof.get('claims_proof')) else 'exploration'
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=len(res.distinct),
               rule='contract evaluations on the real code; an input is non-trivial and distinct when its (contract, input) pair was not evaluated before; fixed corner inputs plus seeded random inputs per contract',
               samples=res.samples or ['none'], per_contract=res.per_case, label='bounded' if level != 'proof' else 'cross-check of the proof by execution')
    assumptions = []
    if proof:
        cov.update(proof['coverage'])
        assumptions = proof.get('assumptions', [])
    if problems: cov['problems'] = problems
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 3), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for p in problems: print(p, file=sys.stderr)
    if violation:
        path = write_replay(prop, violation)
        if 'input' in violation:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('%s: contract %s, input %s: %s' % (prop, violation['case'], violation['input'][:500], violation['message']))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            for o in violation['obligations']: print('%s: obligation %s fails: %s' % (prop, o['name'], str(o.get('reason'))[:300]))
        sys.exit(1)
    print('%s holds: %s%d contract evaluations on the real code, %.1f s' % (prop, '%d of %d obligations discharged, ' % (cov['discharged'], cov['obligations']) if 'discharged' in cov else '', res.evaluations, time.time() - t0))
    sys.exit(0)


if __name__ == '__main__':
    main()
