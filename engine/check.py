#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] | --replay FILE | --list
Re-verifies every contract of the property against the IR of /repo's current working tree."""
import os, sys, json, time, random, hashlib, subprocess, traceback, importlib, signal, glob, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'specs'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Spec:
    def __init__(self, prop, name, fn, dom, targets, opts, tier, native, weight, mem, abstract_ok, extra):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.dom = dom
        self.targets = targets
        self.opts = opts
        self.tier = tier
        self.native = native
        self.weight = weight
        self.mem = mem
        self.extra = extra
        self.ub = extra.get('ub', False)
        self.doc = (fn.__doc__ or '').strip()


SPECS = []


def spec(prop, name=None, dom='int', targets=(), tier='quick', native=True, weight=1, mem=0, abstract_ok=True, opts=None, **extra):
    def deco(fn):
        ps = [prop] if isinstance(prop, str) else list(prop)
        for p in ps:
            SPECS.append(Spec(p, name or fn.__name__, fn, dom, list(targets), opts or {}, tier, native, weight, mem, abstract_ok, extra))
        return fn
    return deco


def load_specs():
    sys.modules.setdefault('check', sys.modules[__name__])
    for p in sorted(glob.glob(os.path.join(ROOT, 'specs', '*.py'))):
        m = os.path.basename(p)[:-3]
        if m.startswith('_'):
            continue
        importlib.import_module(m)
    return SPECS


# ------------------------------------------------------------------ one spec, deductive back end (child process)
def run_deductive(sp, ll, key, cache, tl):
    import z3
    import ir, lib, exec as X, contract as K
    from dom import BV, INT, Unsupported
    t0 = time.time()
    mod = get_module(ll)
    syms = K.Symbols(mod, key, cache)
    hooks = lib.Hooks()
    o = dict(deadline=t0 + tl)
    o.update(sp.opts)
    opts = X.Opts(**o)
    dom = INT if sp.dom == 'int' else BV
    E = X.Engine(mod, dom, hooks, opts)
    c = K.Ctx(E, syms)
    E.ctx = c
    res = {'name': sp.name, 'missing': None, 'error': None}
    try:
        npaths = c.explore(sp.fn)
    except K.SpecMissing as e:
        res['missing'] = str(e)
    except Unsupported as e:
        E.note_unsupported(c.st, e) if c.st is not None else E.unsupported.append((str(e), ''))
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, AssertionError, ValueError, IndexError, RecursionError) as e:
        if X.DEBUG:
            raise
        res['error'] = repr(e)[:300] + ' ' + traceback.format_exc()[-1800:]
    fails = []
    for f in E.failures:
        d = {'kind': f.kind, 'name': f.name, 'site': f.site, 'status': f.status, 'detail': f.detail,
             'abstract': bool(f.st.ghost.get('abs'))}
        if f.model is not None:
            try:
                d['inputs'] = model_inputs(c, f.model)
            except Exception as e:
                d['inputs_error'] = repr(e)[:200]
        fails.append(d)
    kinds = {}
    backs = {}
    for k, n, how, dt in E.obligations:
        kinds[k] = kinds.get(k, 0) + 1
        backs[how] = backs.get(how, 0) + 1
    res.update(failures=fails, unsupported=[list(x) for x in E.unsupported[:20]], nob=len(E.obligations), kinds=kinds,
               backs=backs, solver=E.solver_time, wall=time.time() - t0, functions={X.demangle(k): v for k, v in E.functions.items()},
               returns=c.nret, ensured=c.ensured, covers=sorted(c.covers), checks=E.nchecks)
    return res


def model_inputs(c, m):
    import z3
    from dom import SI
    out = {}
    for name, d in c.inputs.items():
        if d[0] == 'int':
            _, v, w, L, H = d
            r = m.eval(v.e if isinstance(v, SI) else v, model_completion=True).as_long()
            if not isinstance(v, SI) and L < 0 and r >> (w - 1):
                r -= 1 << w
            out[name] = r
        elif d[0] == 'bool':
            out[name] = int(z3.is_true(m.eval(d[1], model_completion=True)))
        elif d[0] == 'choice':
            out[name] = m.eval(d[1], model_completion=True).as_long()
        else:
            _, a, n, lo, hi = d
            if isinstance(n, int):
                k = n
            else:
                k = m.eval(n.e if isinstance(n, SI) else n, model_completion=True).as_long()
            k = min(k, 1 << 20)
            b = bytearray()
            isint = a.sort().domain() == z3.IntSort()
            for i in range(k):
                ix = z3.IntVal(i) if isint else z3.BitVecVal(i, 64)
                b.append(m.eval(z3.Select(a, ix), model_completion=True).as_long() & 0xff)
            out[name] = b.hex()
    return out


_mod = {}


def get_module(ll):
    import ir
    m = _mod.get(ll)
    if m is None:
        m = ir.Module(open(ll).read())
        _mod[ll] = m
    return m


# ------------------------------------------------------------------ native worker (separate process: may crash)
def native_setup(so, cache):
    import ctypes
    import native as N
    sh = ctypes.CDLL(N.shim(cache))
    lib = ctypes.CDLL(so, mode=ctypes.RTLD_LOCAL)
    return lib, sh


def native_worker(args):
    """child: run the contract natively on the inputs listed in a job file; writes progress so that a crash names its input"""
    job = json.load(open(args))
    import contract as K, native as N, pickle
    load_specs()
    sp = [s for s in SPECS if s.name == job['spec'] and s.prop == job['prop']][0]
    lib, sh = native_setup(job['so'], job['cache'])
    dem = pickle.load(open(job['syms'], 'rb'))
    by = {}
    for n, d in dem.items():
        by.setdefault(K.norm_dem(d), []).append(n)

    class M:
        funcs = None

    def table(sig):
        if sig.startswith('_Z'):
            return sig
        c = by.get(K.norm_dem(sig))
        if not c:
            raise K.SpecMissing(sig)
        if len(c) > 1:
            c = sorted(c, key=lambda n: (('C2E' in n) or ('D2E' in n) or 'D0E' in n, not hasattr(lib, n), n))
        return c[0]
    out = {'runs': 0, 'skips': 0, 'fails': [], 'covers': []}
    prog = open(job['progress'], 'w')
    covers = set()
    os.chdir(job['scratch'])

    def one(values, gen=None):
        # record the intended input first
        st, fails, vals, trace, cov = N.run_one(lib, sh, table, sp.fn, values, gen)
        return st, fails, vals, trace, cov
    if job['mode'] == 'replay':
        for v in job['inputs']:
            prog.seek(0)
            prog.truncate()
            prog.write(json.dumps(v))
            prog.flush()
            st, fails, vals, trace, cov = one(v)
            out['runs'] += 1
            if st == 'skip':
                out['skips'] += 1
            if st == 'fail':
                out['fails'].append({'inputs': vals, 'names': fails, 'trace': trace[-12:]})
            if st == 'missing':
                out['missing'] = fails[0]
    else:
        rng = random.Random(job['seed'])
        t0 = time.time()
        n = 0
        while n < job['n'] and time.time() - t0 < job['secs']:
            n += 1
            # two passes so that a crash leaves the input behind: the generator is deterministic per case
            cs = rng.randrange(1 << 48)
            prog.seek(0)
            prog.truncate()
            prog.write(json.dumps({'\0case': cs}))
            prog.flush()
            g = N.rand_gen(random.Random(cs))
            if job['inputs'] and cs % 2:
                g = N.near_gen(random.Random(cs), job['inputs'][cs // 2 % len(job['inputs'])], g)
            if sp.extra.get('gen'):
                g = sp.extra['gen'](random.Random(cs), g)
            st, fails, vals, trace, cov = one({}, g)
            covers |= cov
            out['runs'] += 1
            if st == 'skip':
                out['skips'] += 1
            if st == 'fail':
                out['fails'].append({'inputs': vals, 'names': fails, 'trace': trace[-12:]})
                if len(out['fails']) >= 3:
                    break
            if st == 'missing':
                out['missing'] = fails[0]
                break
    out['covers'] = sorted(covers)
    json.dump(out, open(job['result'], 'w'))


def run_native(sp, so, cache, syms, mode, inputs=(), n=0, secs=20, seed=1, scratch=None):
    """parent side: -> result dict; 'crash' with the input when the code died"""
    import tempfile
    d = tempfile.mkdtemp(prefix='verif-nat-')
    try:
        job = {'spec': sp.name, 'prop': sp.prop, 'so': so, 'cache': cache, 'syms': syms, 'mode': mode, 'inputs': list(inputs),
               'n': n, 'secs': secs, 'seed': seed, 'progress': d + '/progress', 'result': d + '/result', 'scratch': d}
        json.dump(job, open(d + '/job', 'w'))
        env = dict(os.environ)
        env['ARKI_VERIF_SCRATCH'] = d
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--native', d + '/job'], stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, env=env, start_new_session=True)
        try:
            _, err = p.communicate(timeout=secs + 40)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            pr = read_progress(d + '/progress', sp)
            return {'runs': 0, 'skips': 0, 'fails': [], 'covers': [], 'timeout': True, 'at': pr}
        if os.path.exists(d + '/result'):
            return json.load(open(d + '/result'))
        pr = read_progress(d + '/progress', sp)
        if p.returncode < 0:
            return {'runs': 1, 'skips': 0, 'covers': [], 'fails': [{'inputs': pr, 'names': ['the real code crashed (signal %d)' % -p.returncode], 'trace': []}],
                    'crash': True}
        return {'runs': 0, 'skips': 0, 'fails': [], 'covers': [], 'error': err.decode(errors='replace')[-500:]}
    finally:
        subprocess.call(['rm', '-rf', d])


def read_progress(p, sp):
    try:
        v = json.load(open(p))
    except Exception:
        return {}
    return v


# ------------------------------------------------------------------ scheduling
def pool_run(jobs, nproc, tl):
    """jobs: list of (key, callable); each in a forked child; -> {key: result or ('timeout',)}"""
    import pickle, tempfile
    out = {}
    run = {}
    jobs = list(jobs)
    d = tempfile.mkdtemp(prefix='verif-pool-')
    try:
        while jobs or run:
            while jobs and len(run) < nproc:
                key, f = jobs.pop(0)
                path = os.path.join(d, '%d' % (len(out) + len(run) + len(jobs) * 1000))
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setsid()
                        try:
                            import resource
                            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                        except Exception:
                            pass
                        r = f()
                        with open(path + '.tmp', 'wb') as fh:
                            pickle.dump(r, fh)
                        os.rename(path + '.tmp', path)
                    except BaseException as e:
                        try:
                            with open(path + '.tmp', 'wb') as fh:
                                pickle.dump({'error': 'child: ' + repr(e)[:300] + traceback.format_exc()[-2500:]}, fh)
                            os.rename(path + '.tmp', path)
                        except BaseException:
                            pass
                    os._exit(0)
                run[pid] = (key, path, time.time())
            time.sleep(0.02)
            for pid in list(run):
                key, path, t0 = run[pid]
                r, stt = os.waitpid(pid, os.WNOHANG)
                if r == 0:
                    if time.time() - t0 > tl:
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            pass
                        os.waitpid(pid, 0)
                        out[key] = {'error': 'time limit', 'timeout': True}
                        del run[pid]
                    continue
                del run[pid]
                if os.path.exists(path):
                    out[key] = pickle.load(open(path, 'rb'))
                    os.unlink(path)
                else:
                    out[key] = {'error': 'child died (status %d)' % stt}
    finally:
        subprocess.call(['rm', '-rf', d])
    return out


def known_findings():
    p = os.path.join(ROOT, 'known-findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []


UB_KINDS = {'overflow', 'shift'}


def check(prop, tier, verbose=False, only=None, nonative=False):
    t0 = time.time()
    import build, z3
    load_specs()
    specs = [s for s in SPECS if s.prop == prop and (tier == 'thorough' or s.tier == 'quick')]
    if only:
        specs = [s for s in specs if only in s.name]
    if not specs:
        print('no contract for ' + prop)
        return 2
    b = build.build()
    import contract as K
    mod = get_module(b['ll'])
    K.Symbols(mod, b['key'], build.CACHE)
    symf = os.path.join(build.CACHE, 'dem-%s.pickle' % b['key'])
    tl = 240 if tier == 'quick' else 780
    soh = {}

    def so_job():
        return build.native(b)
    import threading
    th = threading.Thread(target=lambda: soh.update(so=safe(so_job)))
    th.start()
    th.join() if (os.cpu_count() or 1) < 3 else None
    order = sorted(specs, key=lambda s: -s.weight)
    th.join()
    jobs = [((s.name), (lambda s=s: run_deductive(s, b['ll'], b['key'], build.CACHE, s.opts.get('tl', tl)))) for s in order]
    res = pool_run(jobs, build.JOBS, tl + 30)
    so = soh.get('so')
    if isinstance(so, Exception):
        print('native build failed: %s' % so)
        so = None
    # replay / bounded stand-in / cross-check
    left = max(60, (800 if tier == 'quick' else 860) - (time.time() - t0))
    nat = {}
    njobs = []
    for s in specs:
        r = res[s.name]
        if so is None or not s.native or nonative:
            continue
        reps = []
        for f in r.get('failures', ()):
            if f.get('inputs') is not None:
                reps.append(f['inputs'])
        und = is_undecided(r)
        n = 200000 if und else (400 if tier == 'quick' else 5000)
        secs = (min(60, left / 3) if und else (6 if tier == 'quick' else 60))
        njobs.append((s.name, (lambda s=s, reps=reps, n=n, secs=secs: (
            run_native(s, so, build.CACHE, symf, 'replay', inputs=reps[:12]) if reps else None,
            run_native(s, so, build.CACHE, symf, 'random', inputs=reps[:12], n=n, secs=secs, seed=SEED)))))
    nat = pool_run(njobs, build.JOBS, left) if njobs else {}
    violations = []
    evid = []
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status', 'open') == 'open']
    tot = dict(ob=0, dis=0, solver=0.0, und=0)
    kf_lines = []
    for s in specs:
        r = res[s.name]
        n = nat.get(s.name)
        if isinstance(n, dict):
            n = (None, {'runs': 0, 'skips': 0, 'fails': [], 'covers': [], 'error': n.get('error')})
        rep, rnd = n if n else (None, None)
        st = 'proved'
        vio = []
        nativefails = (rep['fails'] if rep else []) + (rnd['fails'] if rnd else [])
        und = is_undecided(r)
        sat = [f for f in r.get('failures', ()) if f['status'] == 'sat']
        if sat or und:
            st = 'undecided'
        if nativefails:
            for f in nativefails[:2]:
                vio.append({'kind': 'contract fails on the compiled code', 'names': f['names'], 'inputs': f['inputs'], 'trace': f['trace'],
                            'obligations': [x for x in r.get('failures', ())][:4], 'replayed': True})
        elif sat:
            ex = [f for f in sat if not f['abstract'] and not (f['kind'] in UB_KINDS and not s.ub)]
            if ex and (not s.native or s.extra.get('noreplay') or any(f['kind'] != 'post' for f in ex)):
                vio.append({'kind': 'obligation refuted', 'names': [f['name'] for f in ex], 'inputs': ex[0].get('inputs'), 'trace': [],
                            'obligations': ex[:4], 'replayed': False})
        if vio:
            st = 'violated'
            v = vio[0]
            kk = match_known(known, s, v)
            if kk:
                st = 'known-finding'
                kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, kk['what']))
            else:
                violations.append((s, v))
        if st == 'undecided':
            tot['und'] += 1
        tot['ob'] += r.get('nob', 0)
        bad = r.get('backs', {}).get('FAILED', 0) + r.get('backs', {}).get('UNKNOWN', 0)
        tot['dis'] += r.get('nob', 0) - bad
        tot['solver'] += r.get('solver', 0)
        evid.append({'contract': s.name, 'doc': s.doc, 'targets': s.targets, 'status': st if st != 'undecided' else 'undecided: bounded native stand-in passed',
                     'domain': s.dom, 'obligations': r.get('nob', 0), 'kinds': r.get('kinds'), 'backends': r.get('backs'),
                     'paths': r.get('returns'), 'solver_s': round(r.get('solver', 0), 2), 'wall_s': round(r.get('wall', 0), 2),
                     'ensures': r.get('ensured'), 'undecided': undecided_why(r), 'covers': r.get('covers'),
                     'native_runs': (rnd or {}).get('runs', 0), 'native_skips': (rnd or {}).get('skips', 0),
                     'native_error': (rnd or {}).get('error')})
        if verbose or st != 'proved':
            print('%-40s %-12s ob=%d paths=%s %.1fs nat=%s/%s %s' % (
                s.name, st, r.get('nob', 0), r.get('returns'), r.get('wall', 0), (rnd or {}).get('runs'), (rnd or {}).get('skips'),
                str(undecided_why(r))[:400] if st != 'proved' else ''))
            if verbose:
                for f in r.get('failures', ())[:6]:
                    print('   ', {k: (str(v)[:300]) for k, v in f.items()})
                for f in nativefails[:2]:
                    print('    native:', str(f)[:600])
                if rnd and rnd.get('error'):
                    print('    native error:', rnd['error'])
                if r.get('error'):
                    print('    error:', r['error'])
    funcs = {}
    for s in specs:
        for k, v in (res[s.name].get('functions') or {}).items():
            if funcs.get(k) != 'contract':
                funcs[k] = v
    write_evidence(prop, tier, specs, res, evid, tot, funcs, violations, b, time.time() - t0, kf_lines)
    for l in kf_lines:
        print(l)
    if violations:
        violations.sort(key=lambda x: not x[1]['replayed'])
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for s, v in violations[:4]:
            path = os.path.join(rd, '%s-%s.json' % (prop, s.name))
            json.dump({'property': prop, 'contract': s.name, 'violation': v}, open(path, 'w'), indent=1, default=str)
            print('contract %s: %s' % (s.name, '; '.join(map(str, v['names']))[:300]))
        s, v = violations[0]
        path = os.path.join(rd, '%s-%s.json' % (prop, s.name))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if any(v['replayed'] for s, v in violations) else ' no-failing-input-found'))
        return 1
    print('%s %s: %d contracts, %d obligations, %d discharged, %d undecided, %.1fs' % (
        prop, tier, len(specs), tot['ob'], tot['dis'], tot['und'], time.time() - t0))
    return 0


def safe(f):
    try:
        return f()
    except Exception as e:
        return e


def is_undecided(r):
    if r.get('error') or r.get('missing') or r.get('unsupported'):
        return True
    if any(True for f in r.get('failures', ())):
        return True
    if not r.get('nob') or not r.get('returns') or not r.get('ensured'):
        return True
    return False


def undecided_why(r):
    out = []
    if r.get('missing'):
        out.append('missing function: ' + r['missing'])
    if r.get('error'):
        out.append(r['error'][:300])
    for m, s in (r.get('unsupported') or ())[:4]:
        out.append('%s @ %s' % (m, s))
    for f in (r.get('failures') or ())[:4]:
        out.append('%s %s %s' % (f['kind'], f['name'], f['status']))
    if not out and (not r.get('nob') or not r.get('returns') or not r.get('ensured')):
        out.append('vacuous: no obligation generated')
    return out


def match_known(known, s, v):
    for k in known:
        if k.get('contract') == s.name and all(any(n == x for x in k.get('obligations', [])) for n in v['names']):
            return k
    return None


def write_evidence(prop, tier, specs, res, evid, tot, funcs, violations, b, wall, kf):
    import lib
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    contracts = sorted(k for k, v in funcs.items() if v == 'body')
    trusted = sorted(k for k, v in funcs.items() if v == 'trusted')
    assumed = sorted(k for k, v in funcs.items() if v not in ('body', 'trusted'))
    proved = sum(1 for e in evid if e['status'] == 'proved')
    bounded = [e for e in evid if e['status'].startswith('undecided') or e.get('bounded_only')]
    ev = {
        'property': prop, 'tier': tier, 'seed': SEED, 'level': 'proof' if not bounded else 'other',
        'coverage': {
            'explanation': '%d of %d contracts discharged deductively for all inputs; %s' % (
                proved, len(evid), 'no bounded stand-in' if not bounded else 'bounded stand-ins (random executions of the contract on the compiled code, never counted as proved): '
                + ', '.join(e['contract'] for e in bounded)),
            'obligations': tot['ob'], 'discharged': tot['dis'],
            'checker_cmd': 'engine/check.py %s --tier %s' % (prop, tier),
            'contracts_total': len(evid), 'contracts_proved': proved, 'contracts_undecided_bounded': tot['und'],
            'functions_verified_bodies': len(contracts), 'functions': contracts[:400],
            'trusted_base': trusted, 'callee_contracts': assumed,
            'solver_seconds': round(tot['solver'], 1), 'contracts': evid, 'known_findings': kf,
            'ir_units': b['units'], 'back_ends': 'z3 %s (python API), cvc5 (fallback)' % __import__('z3').get_version_string(),
        },
        'wall_s': round(wall, 1),
        'assumptions': ASSUMPTIONS,
        'violations': len(violations),
    }
    ev['coverage']['violation_list'] = [{'contract': s.name, 'names': v['names'], 'inputs': str(v['inputs'])[:2000], 'replayed': v['replayed']} for s, v in violations]
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


ASSUMPTIONS = [
    'clang 18 front end (-O1 -disable-llvm-passes) plus the LLVM passes sroa and mem2reg preserve the meaning of the C++ source; the IR verified is generated from /repo on every run',
    'the verifier itself (engine/*.py: IR semantics, memory model, VC generation) and the SMT solvers z3/cvc5 are trusted',
    'libc / libstdc++ functions without a body in /repo follow the contracts in engine/lib.py (listed under trusted_base)',
    'operator new never fails; byte strings are shorter than 2^31',
    'partial correctness: termination is not proved',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--native')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--nonative', action='store_true')
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    if a.native:
        native_worker(a.native)
        return 0
    if a.debug:
        import exec as X
        X.DEBUG = True
    if a.list:
        load_specs()
        for s in SPECS:
            print(s.prop, s.name, s.targets)
        return 0
    if a.replay:
        import build, contract as K
        load_specs()
        d = json.load(open(a.replay))
        s = [s for s in SPECS if s.name == d['contract'] and s.prop == d['property']][0]
        b = build.build()
        mod = get_module(b['ll'])
        K.Symbols(mod, b['key'], build.CACHE)
        so = build.native(b)
        inp = d['violation']['inputs']
        if inp and '\0case' in inp:
            print('input generator case', inp)
            return 1
        r = run_native(s, so, build.CACHE, os.path.join(build.CACHE, 'dem-%s.pickle' % b['key']), 'replay', inputs=[inp])
        print(json.dumps(r, indent=1))
        return 1 if r['fails'] else 0
    return check(a.prop, a.tier, a.v, a.only, a.nonative)


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
