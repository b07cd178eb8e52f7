#!/opt/veriftools/pyvenv/bin/python
"""slow.py <contract> [seconds]: the slowest obligations of one contract"""
import sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/engine', ROOT + '/specs']
import check, build, exec as X, time
sys.setrecursionlimit(100000)
check.load_specs()
sp = [s for s in check.SPECS if s.name == sys.argv[1]][0]
b = build.build()
keep = []
o = X.Engine.__init__


def init(self, *a, **k):
    o(self, *a, **k)
    keep.append(self)


X.Engine.__init__ = init
q = []
os_ = X.Engine.sat


def sat(self, st, extra, m=False):
    t = time.time()
    r = os_(self, st, extra, m)
    q.append((time.time() - t, r[0], '%d pc' % len(st.pc), ' < '.join('%s:%d' % (X.demangle(f.f.name)[:30], f.idx) for f in reversed(st.frames[-4:]) if f.f)))
    return r


X.Engine.sat = sat
r = check.run_deductive(sp, b['ll'], b['key'], build.CACHE, float(sys.argv[2]) if len(sys.argv) > 2 else 300)
print({k: (v if len(str(v)) < 300 else '..') for k, v in r.items() if k not in ('functions',)})
for e in keep:
    for k, n, how, dt in sorted(e.obligations, key=lambda x: -x[3])[:15]:
        print('%.1f %s %s %s' % (dt, k, n, how))
for x in sorted(q, key=lambda x: -x[0])[:20]:
    print('%.2f %s %s %s' % x)
