#!/usr/bin/env python3
"""plant.py ID...   (development tool, used by no check)
Scratch copy of /repo in /tmp/w (built with /tmp/vp, a copy of /opt/vp with the paths replaced).
For each ID with seeded/ID/patch.diff: apply to the scratch copy, build, run the stable tests, run the demo
(must fail), undo, and run the demo on /repo (must pass).  --diff ID saves the scratch copy's diff first."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(i, save):
    d = V + '/seeded/' + i
    if save:
        t = sh('git -C %s diff' % W).stdout
        assert t, 'no diff'
        open(d + '/patch.diff', 'w').write(t)
    sh('git -C %s checkout -- .' % W)
    r = sh('git -C %s apply %s/patch.diff' % (W, d))
    if r.returncode:
        return 'does not apply: ' + r.stdout
    try:
        r = sh('bash /tmp/vp/build.sh')
        if r.returncode:
            return 'does not build\n' + r.stdout[-1500:]
        bad = None
        for _ in range(2):
            sh('bash /tmp/vp/test.sh /tmp/o.json')
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            bad = st - set(json.load(open('/tmp/o.json'))['passed'])
            if not bad:
                break
        if bad:
            return 'fails tests: ' + ' '.join(sorted(bad)[:6])
        a = sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
    finally:
        sh('git -C %s checkout -- .' % W)
    b = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
    return 'planted rc=%d (%s)  clean rc=%d %s' % (a.returncode, a.stdout.strip()[-160:], b.returncode, '' if b.returncode == 0 else b.stdout[-800:])


if __name__ == '__main__':
    save = '--diff' in sys.argv
    for i in [a for a in sys.argv[1:] if a[0] != '-']:
        print(i, one(i, save), flush=True)
