#!/opt/veriftools/pyvenv/bin/python
"""prof.py <contract> [seconds]: run one contract in process under the profiler"""
import sys, os, cProfile, pstats, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/engine', ROOT + '/specs']
import check, build
sys.setrecursionlimit(100000)
if "-d" in sys.argv:
    import exec as X
    X.DEBUG = True
    sys.argv.remove("-d")
check.load_specs()
sp = [s for s in check.SPECS if s.name == sys.argv[1]][0]
b = build.build() if hasattr(build, 'build') else None
ll = b.ll if hasattr(b, 'll') else b['ll']
key = b.key if hasattr(b, 'key') else b['key']
tl = float(sys.argv[2]) if len(sys.argv) > 2 else 60
pr = cProfile.Profile()


def stop(*a):
    raise KeyboardInterrupt


signal.signal(signal.SIGALRM, stop)
signal.alarm(int(tl * 1.3) + 5)
pr.enable()
try:
    r = check.run_deductive(sp, ll, key, build.CACHE, tl)
    print({k: (v if len(str(v)) < 300 else '..') for k, v in r.items() if k not in ('functions',)})
except KeyboardInterrupt:
    import traceback
    tb = traceback.extract_tb(sys.exc_info()[2])
    print('\n'.join('%s:%s' % (os.path.basename(f.filename), f.lineno) + ' ' + f.name for f in tb[-14:]))
pr.disable()
pstats.Stats(pr).sort_stats('cumulative').print_stats(45)
