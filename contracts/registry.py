"""Which contracts decide which property; runs them and condenses the outcome."""
import importlib
import json
import os
import time

MODULES = ['times', 'lines', 'header', 'alphabet', 'septets', 'address', 'ucs2', 'submit', 'receive', 'total', 'serialport', 'command', 'modem', 'calls', 'sms', 'stored', 'active', 'ussd', 'dispatch', 'trie', 'editor', 'settings', 'connect', 'lifecycle', 'typed', 'tools']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_loaded = False
TRUSTED = ['pyvc: the symbolic interpreter of Python (pyvc/interp.py), its models of builtins and library functions (pyvc/models.py, pyvc/rx.py) and ropes (pyvc/seq.py)',
           'z3 %s (every obligation); integers are mathematical in Python, so no machine-arithmetic assumption', 'CPython executes the source whose byte code was compared with the running functions (pyvc/binding.py)']
COMMON = ['Floating point quotients are treated as exact rationals before truncation (all of them have numerators below 2**44 and small constant divisors, for which IEEE division truncates to the same integer).']


def load():
    global _loaded
    if not _loaded:
        for m in MODULES: importlib.import_module('contracts.' + m)
        _loaded = True


def prove(prop, tier, seed):
    from . import lib
    load()
    units = [u for u in lib.UNITS if prop in u.props]
    if not units: return None
    t0 = time.time()
    rs = lib.run_all(prop, deadline=t0 + (120 if tier == 'quick' else 420))
    inputs, refuted = [], []
    for r in rs:
        if not r['own']: continue       # a callee that breaks its own contract need not break this property: not discharged, decided below
        for x in r['refuted']:
            inputs += [i for i in x['inputs'] if i not in inputs]
            if not any(y['name'] == x['name'] for y in refuted): refuted.append(dict(name=x['name'], reason=x['reason']))
    total = sum(r.get('checked', 0) for r in rs) + sum(1 for r in rs if r['status'] in ('unsupported', 'error', 'unknown', 'vacuous') and r['reason'])
    done = sum(r.get('checked', 0) for r in rs) - sum(len(r['refuted']) for r in rs) - sum(1 for r in rs for v in r['obligations'].values() if v == 'unknown')
    open_ = ['%s: %s: %s' % (r['unit'], r['status'], r['reason'][:300]) for r in rs if r['status'] in ('unsupported', 'unknown', 'error', 'vacuous') or (r['status'] == 'refuted' and not r['own'])]
    levels = json.load(open(os.path.join(HERE, 'levels.json')))
    proved = all(r['status'] == 'proved' for r in rs)
    claims = proved and levels.get(prop, {}).get('level') == 'proof'
    import z3
    uses = sorted({c for r in rs for c in r['contracts']})
    assumptions = list(COMMON) + levels.get(prop, {}).get('assumptions', [])
    for c in uses:
        ct = lib.CONTRACTS[c]
        if ct.trusted: assumptions.append('assumed contract of %s: %s' % (c, ct.trusted))
    cov = dict(obligations=total, discharged=done, checker_cmd='python3-vt tools/pv.py %s' % prop, trusted_base=[t % z3.get_version_string() if '%s' in t else t for t in TRUSTED],
               backend='z3 ' + z3.get_version_string(), solver_s=round(sum(r['solver_s'] for r in rs), 2), solver_queries=sum(r['queries'] for r in rs), proof_wall_s=round(time.time() - t0, 2),
               functions_under_contract=sorted({r['fn'] for r in rs if r['own']}), callee_functions_under_contract=sorted({r['fn'] for r in rs if not r['own']}), inlined_functions=sorted({x for r in rs for x in r['inlined']}), callee_contracts={c: [u.id for u in lib.CONTRACTS[c].units()] or 'assumed' for c in uses},
               units=[dict(unit=r['unit'], own=r['own'], status=r['status'], paths=r['paths'], obligations=r['obligations'], reason=r['reason'], wall_s=r.get('wall')) for r in rs], not_discharged=open_)
    return dict(inputs=inputs[:40], refuted=refuted, claims_proof=claims, coverage=cov, assumptions=assumptions)
