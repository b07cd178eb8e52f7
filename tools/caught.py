#!/usr/bin/env python3
"""caught.py ID...   (development tool) apply seeded/ID/patch.diff to /repo, run the quick check of its property, undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    ps = m['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    t = time.time()
    try:
        r = subprocess.run(['/opt/veriftools/pyvenv/bin/python', V + '/engine/check.py', ps, '--tier', 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
    vs = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, ps, 'rc=%d' % r.returncode, '%.0fs' % (time.time() - t), 'CAUGHT' if r.returncode == 1 and vs else 'MISSED', (vs or r.stdout.splitlines()[-1:])[0][:150], flush=True)
