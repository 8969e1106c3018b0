#!/opt/veriftools/pyvenv/bin/python
"""pv.py [filter...]: run verification units, print their status (development)"""
import sys, os, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'
from pyvc import binding
binding.setup_path()
from contracts import lib, registry
registry.load()
dbg = '-d' in sys.argv
flt = [a for a in sys.argv[1:] if a != '-d']
for u in lib.UNITS:
    if flt and not any(f in u.id or f in u.props for f in flt): continue
    r = lib.run(u, debug=dbg)
    print('%-9s %s  paths=%d obl=%d(%d) %.1fs q=%d inl=%s ct=%s %s' % (r['status'], r['unit'], r['paths'], len(r['obligations']), r.get('checked', 0), r.get('wall', 0), r['queries'], ','.join(r['inlined']), ','.join(r['contracts']), r['reason']))
    for x in r['refuted'][:4]: print('    REFUTED', x['name'], x['reason'][:400], x['inputs'])
    if dbg:
        for k, v in r['obligations'].items(): print('      ', v, k)
