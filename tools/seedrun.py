"""Development aid: apply each planted change to /repo, run its property's quick check, undo.  Not used by any check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        t = time.time()
        r = subprocess.run(['python3-vt', V + '/check.py', prop, 'quick'], capture_output=True, text=True, cwd=V)
        out = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        print(i, 'rc', r.returncode, '%.0fs' % (time.time() - t), out[:2], flush=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
