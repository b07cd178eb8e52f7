"""Native back end of the contracts: the compiled real code on concrete inputs."""
import re, os, sys, json, ctypes, subprocess, struct, random, signal, time, mmap
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contract as K
from contract import Skip, SpecMissing, Res, V, Bytes
from dom import *

SHIM = r'''
#include <exception>
#include <typeinfo>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <sys/mman.h>
typedef uint64_t u;
typedef __int128 (*fn)(u,u,u,u,u,u,u,u,u,u,u,u);
typedef __int128 (*fnd)(u,u,u,u,u,u,double,double,u,u,u,u);
static char msg[512];
extern "C" const char* vp_msg() { return msg; }
extern "C" int vp_call(void* f, const u* a, const double* d, u* r, char* ti)
{
    try {
        __int128 v;
        if (d) v = ((fnd)f)(a[0],a[1],a[2],a[3],a[4],a[5],d[0],d[1],a[6],a[7],a[8],a[9]);
        else v = ((fn)f)(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11]);
        r[0] = (u)v; r[1] = (u)(v >> 64);
        return 0;
    } catch (std::exception& e) {
        strncpy(ti, abi::__cxa_current_exception_type()->name(), 250);
        strncpy(msg, e.what(), 500);
        return 1;
    } catch (...) {
        strncpy(ti, abi::__cxa_current_exception_type()->name(), 250);
        return 1;
    }
}
'''


def shim(cache):
    import hashlib
    k = hashlib.sha256(SHIM.encode()).hexdigest()[:12]
    so = os.path.join(cache, 'shim-%s.so' % k)
    if not os.path.exists(so):
        src = so[:-3] + '.%d.cc' % os.getpid()
        open(src, 'w').write(SHIM)
        subprocess.check_call(['g++', '-shared', '-fPIC', '-O1', '-w', '-o', so + '.tmp%d' % os.getpid(), src])
        os.rename(so + '.tmp%d' % os.getpid(), so)
        os.unlink(src)
    return so


class NFail(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class NDone(Exception):
    pass


class NCtx:
    native = True

    def __init__(self, lib, sh, table, values):
        self.lib = lib
        self.sh = sh
        self.table = table          # demangled -> mangled resolver
        self.values = values        # name -> int | hex bytes
        self.keep = []
        self.dom = BV
        self.failures = []
        self.trace = []
        self.asked = []             # declarations, for input generation
        self.gen = None
        self.covers = set()
        self._g = {}

    # ---- inputs
    def _val(self, name, decl):
        self.asked.append((name, decl))
        if name in self.values:
            return self.values[name]
        if self.gen is not None:
            v = self.gen(name, decl)
        else:
            v = default_value(decl)
        self.values[name] = v
        return v

    def int(self, name, w=32, signed=True, lo=None, hi=None):
        L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
        if lo is not None:
            L = lo
        if hi is not None:
            H = hi
        v = self._val(name, ('int', w, signed, L, H))
        if not (L <= v <= H):
            raise Skip()
        return V(v & mask(w), w, self)

    def bool(self, name):
        return V(int(bool(self._val(name, ('bool',)))), 1, self)

    def choice(self, name, n):
        v = self._val(name, ('choice', n))
        if not (0 <= v < n):
            raise Skip()
        return v

    def _guarded(self, n):
        """n bytes ending exactly at an inaccessible page"""
        pages = (n + 4095) // 4096 + 1
        libc = ctypes.CDLL(None, use_errno=True)
        libc.mmap.restype = ctypes.c_void_p
        libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        a = libc.mmap(None, (pages + 1) * 4096, 3, 0x22, -1, 0)
        libc.mprotect(ctypes.c_void_p(a + pages * 4096), 4096, 0)
        self.keep.append((a, (pages + 1) * 4096))
        return a + pages * 4096 - n

    def close(self):
        libc = ctypes.CDLL(None)
        for a, n in self.keep:
            if isinstance(n, int):
                libc.munmap(ctypes.c_void_p(a), ctypes.c_size_t(n))

    def bytes(self, name, lo, hi=None, exact=False):
        b = bytes.fromhex(self._val(name, ('bytes', lo, hi if hi is not None else lo)))
        p = self._guarded(len(b))
        ctypes.memmove(p, b, len(b))
        return p, V(len(b), 64, self)

    def _mkstr(self, b):
        p = self.alloc(32)
        q = self._malloc(len(b) + 1)
        ctypes.memmove(q, b + b'\0', len(b) + 1)
        self._w(p, struct.pack('<QQQ', q, len(b), len(b)))
        return p

    def string(self, name, lo, hi=None):
        return self._mkstr(bytes.fromhex(self._val(name, ('bytes', lo, hi if hi is not None else lo))))

    def conststr(self, b):
        return self._mkstr(bytes(b))

    def cbytes(self, b):
        p = self._guarded(len(b))
        ctypes.memmove(p, bytes(b), len(b))
        return p

    def _malloc(self, n):
        libc = ctypes.CDLL(None)
        libc.malloc.restype = ctypes.c_void_p
        return libc.malloc(ctypes.c_size_t(max(n, 1)))

    def alloc(self, size, zero=True, name='obj'):
        n = K.rawint(size)
        if n > (1 << 24):
            raise Skip()
        a = self._malloc(n)
        ctypes.memset(a, 0 if zero else 0xA5, n)
        return a

    def _w(self, p, b):
        ctypes.memmove(p, b, len(b))

    def _r(self, p, n):
        if p < 4096:
            raise NFail('null pointer read by the contract')
        return ctypes.string_at(p, n)

    def ld(self, p, off=0, w=32):
        if w == 1:
            return V(self._r(p + off, 1)[0] & 1, 1, self)
        return V(int.from_bytes(self._r(p + off, w // 8), 'little'), w, self)

    def ldp(self, p, off=0):
        return int.from_bytes(self._r(p + off, 8), 'little')

    def sto(self, p, off, w, v):
        self._w(p + off, (K.rawint(v, w) & mask(w)).to_bytes(max(w // 8, 1), 'little'))

    def stp(self, p, off, q):
        self._w(p + off, q.to_bytes(8, 'little'))

    def padd(self, p, n):
        return p + (n if isinstance(n, int) else n.s)

    def isnull(self, p):
        return int(p == 0)

    def pdiff(self, a, b):
        return V((a - b) & mask(64), 64, self)

    def sameptr(self, a, b):
        return int(a == b)

    def symptr(self, name):
        return ctypes.addressof(ctypes.c_char.in_dll(self.lib, name))

    def fnptr(self, sig):
        return self._addr(sig)

    def _mk(self, b):
        return Bytes(self, len(b), lambda i: b[i if isinstance(i, int) else i.s], b)

    def str(self, p):
        q, n = struct.unpack('<QQ', self._r(p, 16))
        if n > (1 << 26):
            raise NFail('corrupt string')
        return self._mk(self._r(q, n) if n else b'')

    def vec(self, p):
        b, e = struct.unpack('<QQ', self._r(p, 16))
        if e - b > (1 << 26) or e < b:
            raise NFail('corrupt vector')
        return self._mk(self._r(b, e - b) if e > b else b'')

    def mem(self, p, n):
        n = K.rawint(n)
        return self._mk(self._r(p, n) if n else b'')

    def bytes_eq(self, a, b, maxn=None):
        x = a.sv
        y = b if isinstance(b, (bytes, bytearray)) else b.sv
        return int(x == bytes(y))

    def _addr(self, sig):
        name = self.table(sig)
        try:
            f = getattr(self.lib, name)
        except AttributeError:
            raise SpecMissing(sig)
        return ctypes.cast(f, ctypes.c_void_p).value

    def call(self, sig, *args, ret=None, dargs=()):
        return self._call(self._addr(sig), args, ret, dargs, sig)

    def _call(self, addr, args, ret, dargs=(), sig='?'):
        a = (ctypes.c_uint64 * 12)()
        for i, x in enumerate(args):
            a[i] = K.rawint(x) & mask(64)
        r = (ctypes.c_uint64 * 2)()
        ti = ctypes.create_string_buffer(256)
        d = None
        if dargs:
            d = (ctypes.c_double * 2)(*(list(dargs) + [0.0, 0.0])[:2])
        k = self.sh.vp_call(ctypes.c_void_p(addr), a, d, r, ti)
        if k:
            self.trace.append('%s -> throw %s' % (sig, ti.value.decode()))
            return Res('throw', None, '_ZTI' + ti.value.decode())
        if ret == 'p' or ret is None:
            v = r[0]
        elif ret == 'raw':
            v = (r[0], r[1])
        else:
            v = V(r[0] & mask(ret), ret, self)
        self.trace.append('%s -> %s' % (sig, v.s if isinstance(v, V) else v if ret == 'raw' else ''))
        return Res('ret', v)

    def callp(self, fp, *args, ret=None):
        return self._call(fp, args, ret)

    def vcall(self, p, slot, *args, ret=None):
        return self._call(self.ldp(self.ldp(p), 8 * slot), (p,) + args, ret, (), 'vcall %d' % slot)

    def static_init(self, gname):
        pass

    # ---- logic
    def concrete(self, v, hi=64):
        """the number v, which has few possible values"""
        if isinstance(v.raw, int):
            return v.raw
        for i in range(hi + 1):
            if self.split(K.Eq(v.u, i)):
                return i
        self.fail('a number out of the expected range')

    def assume(self, cond):
        if not K._nb(cond):
            raise Skip()

    def split(self, cond):
        return bool(K._nb(cond))

    def ensure(self, name, cond):
        if not K._nb(cond):
            self.failures.append(name)

    def fail(self, name):
        self.failures.append(name)
        raise NDone()

    def cover(self, name):
        self.covers.add(name)

    def ghost(self, key, val=None, set=False):
        if set:
            self._g[key] = val
        return self._g.get(key)

    def loop(self, cand, name='', only=None):
        pass

    def noloop(self):
        pass

    def use(self, *a, **k):
        pass


def default_value(decl):
    k = decl[0]
    if k == 'int':
        return min(max(0, decl[3]), decl[4])
    if k in ('bool', 'choice'):
        return 0
    return '00' * decl[1]


def rand_gen(rng, pool=None):
    # in half of the runs, inputs that are the same field of different values (a.ye, b.ye) are often close to each other
    related = rng.random() < 0.5
    last = {}

    strs = []

    def g(name, decl):
        if related and decl[0] == 'bytes':
            v = None
            if strs and rng.random() < 0.5:
                b = bytearray.fromhex(rng.choice(strs))
                m = rng.random()
                if b and m < 0.3:
                    i = rng.randrange(len(b))
                    b[i] = (b[i] + rng.choice([1, -1, 32, 128])) & 255
                elif m < 0.4:
                    b = b[:-1]
                elif m < 0.5:
                    b.append(rng.randrange(256))
                if decl[1] <= len(b) <= decl[2]:
                    v = bytes(b).hex()
            if v is None:
                v = g0(name, decl)
            strs.append(v)
            return v
        k = re.split('[._]', name)[-1] if related and decl[0] == 'int' else None
        if k in last and rng.random() < 0.75:
            v = rng.choice(last[k]) + rng.choice([0, 0, 0, 0, 0, 1, -1])
            if decl[3] <= v <= decl[4]:
                last[k].append(v)
                return v
        v = g0(name, decl)
        if k is not None:
            last.setdefault(k, []).append(v)
        return v

    def g0(name, decl):
        k = decl[0]
        if k == 'int':
            w, signed, L, H = decl[1:]
            r = rng.random()
            if r < 0.25:
                c = [L, H, 0, 1, -1, 2, L + 1, H - 1, 12, 13, 28, 29, 30, 31, 23, 24, 59, 60, 61, 100, 126, 127, 128, 252, 253,
                     254, 255, 256, 400, 1999, 2000, 2001, 2007, 2100, 65535, 65536]
                c = [x for x in c if L <= x <= H]
                return rng.choice(c)
            if r < 0.6:
                lo, hi = max(L, -5), min(H, 40)
                if lo <= hi:
                    return rng.randint(lo, hi)
            if r < 0.8:
                b = rng.randint(1, w)
                lo, hi = max(L, -(1 << b)), min(H, 1 << b)
                if lo <= hi:
                    return rng.randint(lo, hi)
            return rng.randint(L, H)
        if k == 'bool':
            return rng.randint(0, 1)
        if k == 'choice':
            return rng.randrange(decl[1])
        lo, hi = decl[1], min(decl[2], max(decl[1], 300))
        n = rng.randint(lo, hi) if rng.random() < 0.3 else rng.randint(lo, min(hi, lo + 24))
        m = rng.random()
        if m < 0.3:
            return bytes(rng.randrange(256) for _ in range(n)).hex()
        if m < 0.6:
            return bytes(rng.choice(b'abcXYZ019 ./-_:%=,;{}"\\+') for _ in range(n)).hex()
        return bytes(rng.choice([0, 1, 2, 3, 4, 5, 255, 128, 127, 254, 253, 252, 64, 48, 49, 97, 37]) for _ in range(n)).hex()
    return g


def near_gen(rng, seed, g):
    """inputs close to the given ones (those of a refuted obligation)"""
    p = rng.choice([0.1, 0.3, 0.6])

    def f(name, decl):
        if name not in seed or rng.random() < p:
            if name in seed and decl[0] == 'int' and rng.random() < 0.5:
                v = seed[name] + rng.choice([1, -1, 2, -2])
                if decl[3] <= v <= decl[4]:
                    return v
            return g(name, decl)
        return seed[name]
    return f


def run_one(lib, sh, table, fn, values, gen=None):
    """-> (status, failures, values, trace): status ok|fail|skip"""
    c = NCtx(lib, sh, table, dict(values))
    c.gen = gen
    try:
        fn(c)
        st = 'fail' if c.failures else 'ok'
    except Skip:
        st = 'fail' if c.failures else 'skip'
    except NDone:
        st = 'fail'
    except NFail as e:
        c.failures.append(e.name)
        st = 'fail'
    except SpecMissing as e:
        return 'missing', [str(e)], c.values, c.trace, c.covers
    finally:
        c.close()
    return st, list(c.failures), c.values, c.trace, c.covers
