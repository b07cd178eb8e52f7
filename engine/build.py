"""Rebuild the verified program from /repo's working tree: every library translation unit -> LLVM IR
(no optimisation except sroa/mem2reg), linked into one module."""
import os, sys, json, hashlib, subprocess, glob, shutil, time, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.cache')
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr.decode(errors='replace')[-3000:])
    return r.stdout


def lib_sources():
    """library translation units, from the build database when there is one, by globbing otherwise"""
    cc = os.path.join(REPO, '_build', 'compile_commands.json')
    out = []
    if os.path.exists(cc):
        try:
            for e in json.load(open(cc)):
                if e['output'].startswith('arki/libarkimet.so.p') and e['file'].endswith('.cc') \
                        and e['file'].startswith('../arki/'):
                    out.append(e['file'][3:])
        except Exception:
            out = []
    if not out:
        out = json.load(open(os.path.join(HERE, 'engine', 'sources.json')))
    return sorted(p for p in set(out) if os.path.exists(os.path.join(REPO, p)))


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for root, ds, ff in os.walk(os.path.join(REPO, 'arki')):
        ds.sort()
        for f in sorted(ff):
            if f.endswith(('.h', '.hh', '.tcc', '.in')):
                fs.append(os.path.join(root, f))
    for f in fs:
        h.update(f[len(REPO):].encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def config_dir(work):
    """directory holding config.h"""
    b = os.path.join(REPO, '_build')
    if os.path.exists(os.path.join(b, 'config.h')):
        return b
    d = os.path.join(work, 'conf')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(HERE, 'engine', 'config.h.fallback'), os.path.join(d, 'config.h'))
    return d


CXX = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-D_FILE_OFFSET_BITS=64', '-fPIC', '-pthread', '-w',
       '-I/usr/include/lua5.1', '-I/usr/include/lzo', '-ftrivial-auto-var-init=uninitialized',
       '-fno-c++-static-destructors']


def build(verbose=False, extra=()):
    """returns dict(ll=path of the linked module text, bcs=..., hash=...)"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    gen = os.path.join(CACHE, 'gen')
    hh = tree_hash()
    srcs = [(s, os.path.join(REPO, s)) for s in lib_sources()]
    # the generated parser
    rt = os.path.join(REPO, 'arki/matcher/reftime')
    gh = hashlib.sha256()
    for f in ('reftime-lex.ll', 'reftime-parse.yy'):
        p = os.path.join(rt, f)
        if os.path.exists(p):
            gh.update(open(p, 'rb').read())
    gdir = os.path.join(gen, gh.hexdigest()[:16])
    if not os.path.exists(os.path.join(gdir, 'ok')):
        os.makedirs(gdir, exist_ok=True)
        sh(['flex', '--outfile=' + gdir + '/reftime-lex.cc', '--header-file=' + gdir + '/reftime-lex.h',
            rt + '/reftime-lex.ll'])
        sh(['bison', '--output=' + gdir + '/reftime-parse.cc', rt + '/reftime-parse.yy'])
        open(os.path.join(gdir, 'ok'), 'w').close()
    srcs += [('gen/reftime-lex.cc', gdir + '/reftime-lex.cc'), ('gen/reftime-parse.cc', gdir + '/reftime-parse.cc')]
    conf = config_dir(CACHE)
    inc = ['-I' + gdir, '-I' + REPO + '/arki', '-I' + REPO, '-I' + rt, '-I' + conf,
           '-include', REPO + '/arki/pch/arkimet_pch.h']
    if not os.path.exists(REPO + '/arki/pch/arkimet_pch.h'):
        inc = inc[:-2]
    srcs += [('verif/' + os.path.basename(e), e) for e in tuple(extra) + tuple(sorted(glob.glob(os.path.join(HERE, 'engine/tu/*.cc'))))]
    bcdir = os.path.join(CACHE, 'bc')
    os.makedirs(bcdir, exist_ok=True)
    flags = CXX + inc
    fkey = hashlib.sha256((' '.join(flags) + hh).encode()).hexdigest()

    def one(it):
        rel, path = it
        k = hashlib.sha256(fkey.encode() + rel.encode() + open(path, 'rb').read()).hexdigest()[:24]
        out = os.path.join(bcdir, k + '.bc')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            try:
                sh(['clang++'] + flags + ['-c', '-emit-llvm', '-o', tmp + '0', path], cwd=conf)
            except BuildError as e:
                if not rel.startswith('verif/h'):
                    raise
                # entry points that no longer fit the code: the contracts that need them are left undecided
                print('NOTICE: %s does not compile with this tree and is left out: %s' % (rel, str(e)[-300:]), file=sys.stderr)
                return None, k
            sh([LLVM + 'opt', '-passes=sroa,mem2reg', tmp + '0', '-o', tmp])
            os.unlink(tmp + '0')
            os.rename(tmp, out)
        return out, k

    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, srcs))
    key = hashlib.sha256(''.join(sorted(k for p, k in res if p)).encode()).hexdigest()[:24]
    ll = os.path.join(CACHE, 'all-' + key + '.ll')
    if not os.path.exists(ll):
        tmp = os.path.join(CACHE, 'all-%s.%d' % (key, os.getpid()))
        sh([LLVM + 'llvm-link', '-o', tmp + '.bc'] + [p for p, _ in res if p])
        sh([LLVM + 'llvm-dis', tmp + '.bc', '-o', tmp + '.ll'])
        os.rename(tmp + '.bc', os.path.join(CACHE, 'all-' + key + '.bc'))
        os.rename(tmp + '.ll', ll)
    prune(key, set(k for _, k in res))
    if verbose:
        print('build: %d units, %.1fs -> %s' % (len(srcs), time.time() - t0, ll), file=sys.stderr)
    return {'ll': ll, 'bc': ll[:-3] + '.bc', 'key': key, 'units': len(srcs), 'wall': time.time() - t0}


def prune(key, keep):
    """keep the cache small: three linked modules, and object code of the recent past"""
    alls = sorted(glob.glob(os.path.join(CACHE, 'all-*.ll')), key=os.path.getmtime, reverse=True)
    for p in alls[3:]:
        if key not in p:
            for q in glob.glob(p[:-3] + '*'):
                try:
                    os.unlink(q)
                except OSError:
                    pass
    bcs = sorted(glob.glob(os.path.join(CACHE, 'bc', '*.bc')), key=os.path.getmtime, reverse=True)
    for p in bcs[900:]:
        if os.path.basename(p)[:-3] not in keep:
            try:
                os.unlink(p)
            except OSError:
                pass


L64 = '/usr/lib/x86_64-linux-gnu/lib'
LIBS = [L64 + x + '.so' for x in ('geos_c', 'lua5.1', 'lzo2', 'eccodes', 'archive', 'zip', 'z', 'curl', 'sqlite3', 'ssl', 'crypto')]
ABSENT = ['_ZN4arki4data4bufr7ScannerC2Ev', '_ZN4arki4data4bufr9validatorEv', '_ZN4arki4data3vm29validatorEv',
          '_ZTVN4arki4data4bufr11MockScannerE', '_ZTVN4arki4data3vm27ScannerE']


def native(b):
    """shared object of exactly the linked module (internal symbols exported), for replay"""
    so = b['ll'][:-3] + '.so'
    if os.path.exists(so):
        return so
    tmp = so + '.%d' % os.getpid()
    import re
    t = open(b['ll']).read()
    t = re.sub(r'^define internal ', 'define dso_local ', t, flags=re.M)
    t = re.sub(r'^define available_externally ', 'define linkonce_odr ', t, flags=re.M)
    open(tmp + '.ll', 'w').write(t)
    sh(['clang++', '-w', '-O0', '-fPIC', '-c', tmp + '.ll', '-o', tmp + '.o'])
    libs = [l for l in LIBS if os.path.exists(l)]
    sh(['clang++', '-shared', '-o', tmp, tmp + '.o'] + ['-Wl,--defsym=%s=0' % x for x in ABSENT]
       + libs + ['-lstdc++fs', '-pthread'])
    os.unlink(tmp + '.ll')
    os.unlink(tmp + '.o')
    os.rename(tmp, so)
    return so


if __name__ == '__main__':
    b = build(True)
    print(b)
