"""Contracts.  A contract is a Python function over a context `c`: it declares symbolic inputs, states requires
(`c.assume`), calls the real function(s) (`c.call`) and states ensures (`c.ensure`).  The same text is executed by two
back ends: the deductive one (Ctx: every path of the real code, obligations to the SMT solvers, all inputs) and the
native one (NCtx: the compiled real code on one concrete input; used for replaying counterexamples and as the labelled
bounded stand-in when an obligation is left undecided)."""
import os, re, subprocess, pickle, hashlib, time
import z3
from dom import *
import exec as X
import ir, lib
from exec import PathEnd, Failure


class SpecMissing(Exception):
    """a function named by the contract is not in the program any more"""


class Skip(Exception):
    """native: the requires does not hold for this input"""


# ------------------------------------------------------------------ logic usable on python values and on z3 terms
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return b_and(*[_nb(x) for x in xs])


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return b_or(*[_nb(x) for x in xs])


def Not(x):
    return b_not(_nb(x))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return b_iff(_nb(a), _nb(b))


def _nb(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(bool(x))
    return b_norm(x)


def If(c, a, b):
    c = _nb(c)
    if isinstance(c, int):
        return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return Or(And(c, a), And(Not(c), b))
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if CURDOM[0] is not INT:
            return z3.If(c, z3.BitVecVal(a, WIDE), z3.BitVecVal(b, WIDE))
    return z3.If(c, a, b)


CURDOM = [INT]


def Eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return int(int(a) == int(b))
    if z3.is_bool(a) if not isinstance(a, (int, bool)) else False:
        return Iff(a, b)
    if z3.is_bool(b) if not isinstance(b, (int, bool)) else False:
        return Iff(a, b)
    return a == b


def fdiv(a, k):
    """floor division by a positive python constant"""
    if isinstance(a, int):
        return a // k
    if z3.is_int(a):
        return a / k
    # bit-vectors (signed)
    w = a.size()
    q = a / k
    return z3.If(z3.And(a < 0, q * k != a), q - 1, q)


def fmod(a, k):
    if isinstance(a, int):
        return a % k
    if z3.is_int(a):
        return a % k
    return a - fdiv(a, k) * k


WIDE = 128


class V:
    """a machine integer; .s and .u are its mathematical views"""
    __slots__ = ('raw', 'w', 'c')

    def __init__(self, raw, w, c):
        self.raw = raw
        self.w = w
        self.c = c

    @property
    def s(self):
        r, w = self.raw, self.w
        if isinstance(r, int):
            return sgn(r, w) if w > 1 else r
        if w == 1:
            return z3.If(r, 1, 0) if self.c.dom is INT else z3.If(r, z3.BitVecVal(1, WIDE), z3.BitVecVal(0, WIDE))
        if isinstance(r, SI):
            return INT.sv(r, w)[0]
        return z3.SignExt(WIDE - w, r)

    @property
    def u(self):
        r, w = self.raw, self.w
        if isinstance(r, int):
            return r
        if w == 1:
            return self.s
        if isinstance(r, SI):
            return INT.uv(r, w)[0]
        return z3.ZeroExt(WIDE - w, r)

    @property
    def b(self):
        """truth value"""
        r = self.raw
        if isinstance(r, int):
            return int(r != 0)
        if self.w == 1:
            return r
        return self.c.dom.icmp('ne', self.w, r, 0)

    def trunc(self, w):
        return V(self.c.dom.trunc(self.raw, self.w, w), w, self.c)

    def bits(self):
        return self.raw


class Res:
    __slots__ = ('kind', 'v', 'ti', 'exc', 'p')

    def __init__(self, kind, v=None, ti=None, exc=None):
        self.kind = kind
        self.v = v
        self.ti = ti
        self.exc = exc

    @property
    def threw(self):
        return self.kind == 'throw'

    @property
    def ok(self):
        return self.kind == 'ret'


class Bytes:
    """a byte string value: n and byte(i), as mathematical values"""
    def __init__(self, c, n, fn, sv=None):
        self.c = c
        self.n = n
        self.fn = fn
        self.sv = sv

    def byte(self, i):
        return self.fn(i)


def rawint(x, w=64):
    if isinstance(x, V):
        return x.raw
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x & mask(w)
    return x


# ------------------------------------------------------------------ symbol table
class Symbols:
    def __init__(self, mod, key=None, cache=None):
        self.mod = mod
        self.by = {}
        path = os.path.join(cache, 'dem-%s.pickle' % key) if cache and key else None
        d = None
        if path and os.path.exists(path):
            try:
                d = pickle.load(open(path, 'rb'))
            except Exception:
                d = None
        if d is None:
            names = list(mod.funcs) + list(mod.decls) + list(mod.aliases)
            X.demangle_many(names)
            d = {n: X._dm[n] for n in names}
            if path:
                tmp = path + '.%d' % os.getpid()
                pickle.dump(d, open(tmp, 'wb'))
                os.rename(tmp, path)
        X._dm.update(d)
        for n, dm in d.items():
            dm = norm_dem(dm)
            self.by.setdefault(dm, []).append(n)

    def find(self, name):
        """mangled symbol from a demangled signature (exact), or a mangled name"""
        if name.startswith('_Z') or name.startswith('verif_'):
            if name in self.mod.funcs or name in self.mod.aliases:
                return name
            raise SpecMissing(name)
        c = self.by.get(norm_dem(name))
        if not c:
            raise SpecMissing(name)
        if len(c) > 1:
            # complete-object constructors/destructors first
            c = sorted(c, key=lambda n: (('C2E' in n) or ('D2E' in n) or 'D0E' in n, n not in self.mod.funcs, n))
        return c[0]

    def has(self, name):
        try:
            self.find(name)
            return True
        except SpecMissing:
            return False


def norm_dem(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
    d = re.sub(r'std::vector<unsigned char, std::allocator<unsigned char>\s*>', 'bytes', d)
    return d.replace('std::string', 'string').replace(' ', '')


# ------------------------------------------------------------------ deductive back end
class Restart(Exception):
    pass


class Ctx:
    native = False

    def __init__(self, E, syms):
        CURDOM[0] = E.dom
        self.E = E
        self.dom = E.dom
        self.syms = syms
        self.st = None
        self.log = []
        self.pos = 0
        self.pending = []
        self.nret = 0
        self.covers = set()
        self.inputs = {}          # name -> (kind, data)
        self.inlog = []
        self.ensured = {}
        self.nensure = 0

    # ---- path exploration by re-execution with a log
    def explore(self, fn):
        self.pending = [([], X.State())]
        n = 0
        while self.pending:
            self.log, self.st = self.pending.pop()
            self.log = list(self.log)
            self.pos = 0
            n += 1
            if n > self.E.opts.max_paths:
                raise Unsupported('path limit of the contract')
            try:
                fn(self)
                self.nret += 1
            except PathEnd:
                continue
        return n

    def _op(self, f):
        if self.pos < len(self.log):
            r = self.log[self.pos]
            self.pos += 1
            return r
        r = f()
        self.log.append(r)
        self.pos += 1
        return r

    def _fork(self, outs):
        """outs: list of (state, value): continue with the first, schedule the others"""
        if not outs:
            raise PathEnd()
        for s, v in outs[1:]:
            self.pending.append((self.log + [v], s))
        self.st = outs[0][0]
        return outs[0][1]

    # ---- inputs
    def int(self, name, w=32, signed=True, lo=None, hi=None):
        def f():
            E = self.E
            nm = 'in.' + name
            L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
            if lo is not None:
                L = lo
            if hi is not None:
                H = hi
            if self.dom is INT:
                v = SI(z3.Int(nm), L, H)
                self.st.pc.append(z3.And(v.e >= L, v.e <= H))
            else:
                v = z3.BitVec(nm, w)
                if lo is not None or hi is not None:
                    if signed:
                        self.st.pc.append(z3.And(v >= L, v <= H))
                    else:
                        self.st.pc.append(z3.And(z3.UGE(v, L), z3.ULE(v, H)))
            self.st.model = None
            self.inputs[name] = ('int', v, w, L, H)
            return V(v, w, self)
        return self._op(f)

    def bool(self, name):
        def f():
            v = z3.Bool('in.' + name)
            self.inputs[name] = ('bool', v, 1, 0, 1)
            return V(v, 1, self)
        return self._op(f)

    def choice(self, name, n):
        """a case split enumerated completely: 0..n-1"""
        def f():
            outs = []
            for i in range(n):
                s = self.st if i == 0 else self.st.fork()
                outs.append((s, i))
            v = z3.Int('in.' + name) if self.dom is INT else z3.BitVec('in.' + name, 16)
            for s, i in outs:
                s.pc.append(v == i)
                s.model = None
            self.inputs[name] = ('choice', v, n)
            return self._fork(outs)
        return self._op(f)

    def bytes(self, name, lo, hi=None, exact=False):
        """input buffer of symbolic length in [lo,hi] (concrete when hi is None): (pointer, length V)"""
        def f():
            E = self.E
            a = self.dom.arr('in.%s.b' % name)
            c = lib.Content(('arr', a, 0))
            if hi is None:
                n = lo
            else:
                if self.dom is INT:
                    n = SI(z3.Int('in.%s.n' % name), lo, hi)
                    self.st.pc.append(z3.And(n.e >= lo, n.e <= hi))
                else:
                    n = z3.BitVec('in.%s.n' % name, 64)
                    self.st.pc.append(z3.And(n >= lo, n <= hi))
                self.st.model = None
            p = E.alloc(self.st, n, 'heap', ('arr', a, 0), name)
            self.inputs[name] = ('bytes', a, n, lo, hi if hi is not None else lo)
            return (p, V(n, 64, self))
        return self._op(f)

    def string(self, name, lo, hi=None):
        """std::string input object"""
        def f():
            E = self.E
            a = self.dom.arr('in.%s.b' % name)
            if hi is None:
                n = lo
            else:
                if self.dom is INT:
                    n = SI(z3.Int('in.%s.n' % name), lo, hi)
                    self.st.pc.append(z3.And(n.e >= lo, n.e <= hi))
                else:
                    n = z3.BitVec('in.%s.n' % name, 64)
                    self.st.pc.append(z3.And(n >= lo, n <= hi))
                self.st.model = None
            sv = lib.SV(lib.Content(('arr', a, 0)), None, 0, n)
            p = E.alloc(self.st, 32, 'heap', ('uninit',), name)
            lib.str_set(E, self.st, p, sv, True)
            self.inputs[name] = ('bytes', a, n, lo, hi if hi is not None else lo)
            return p
        return self._op(f)

    def conststr(self, b):
        """std::string object with known bytes"""
        def f():
            p = self.E.alloc(self.st, 32, 'heap', ('uninit',), 'str')
            lib.str_set(self.E, self.st, p, lib.lit(b), True)
            return p
        return self._op(f)

    def cbytes(self, b):
        def f():
            p = self.E.alloc(self.st, len(b), 'heap', ('bytes', bytes(b)), 'bytes')
            return p
        return self._op(f)

    def alloc(self, size, zero=True, name='obj'):
        def f():
            return self.E.alloc(self.st, rawint(size), 'heap', ('zero',) if zero else ('uninit',), name)
        return self._op(f)

    # ---- memory
    def ld(self, p, off=0, w=32):
        def f():
            v = self.E.ld(self.st, p.add(off), w)
            if v is UNDEF:
                self.E.check(self.st, 0, 'uninit', 'the contract reads an uninitialised field')
                raise PathEnd()
            return V(v, w, self)
        return self._op(f)

    def ldp(self, p, off=0):
        return self._op(lambda: self.E.ldp(self.st, p.add(off)))

    def sto(self, p, off, w, v):
        return self._op(lambda: self.E.sto(self.st, p.add(off), w, rawint(v, w)))

    def stp(self, p, off, q):
        return self._op(lambda: self.E.stp(self.st, p.add(off), q))

    def padd(self, p, n):
        """pointer plus byte offset (V or int)"""
        if isinstance(n, int):
            return p.add(n)

        def f():
            s, cc = self.E.off_norm(n.raw)
            s, cc = self.E.off_add((s, cc), (p.s, p.c))
            return P(p.o, cc, s)
        return self._op(f)

    def isnull(self, p):
        return int(p.o == 0)

    def pdiff(self, a, b):
        """a - b in bytes"""
        def f():
            return V(lib.ptr_diff(self.E, b, a), 64, self)
        return self._op(f)

    def sameptr(self, a, b):
        return self._op(lambda: self.E.ptr_cmp(self.st, 'eq', a, b))

    def symptr(self, name):
        return self._op(lambda: self.E.global_ptr(name))

    def fnptr(self, sig):
        return self._op(lambda: self.E.global_ptr(self.syms.find(sig)))

    def _mkbytes(self, sv):
        E, c = self.E, self

        def fn(i):
            def g():
                if isinstance(i, V):
                    ix = i.raw
                elif isinstance(i, int):
                    ix = i
                else:
                    ix = SI(i, 0, lib.SMAX) if c.dom is INT else i
                n0 = len(c.st.pc)
                b = sv.byte(E, c.st, ix)
                if b is UNDEF:
                    E.check(c.st, 0, 'uninit', 'the contract reads an uninitialised byte')
                    raise PathEnd()
                return V(b, 8, c).u
            return c._op(g)
        n = V(sv.n, 64, self).u
        return Bytes(self, n, fn, sv)

    def str(self, p):
        return self._op(lambda: self._mkbytes(lib.str_val(self.E, self.st, p)))

    def vec(self, p):
        return self._op(lambda: self._mkbytes(lib.vec_sv(self.E, self.st, p)))

    def mem(self, p, n):
        return self._op(lambda: self._mkbytes(lib.snap(self.E, self.st, p, rawint(n))))

    def bytes_eq(self, a, b, maxn=None):
        """equality of two byte strings as a formula (quantified over the positions when the length is symbolic).
        Positive use only (ensures)."""
        def f():
            if isinstance(b, (bytes, bytearray)):
                if isinstance(a.n, int) and a.n != len(b):
                    return 0
                cs = [Eq(a.n, len(b))]
                for i, x in enumerate(b):
                    cs.append(Eq(a.byte(i), x))
                return And(*cs)
            if isinstance(a.n, int) and isinstance(b.n, int):
                if a.n != b.n:
                    return 0
                return And(*[Eq(a.byte(i), b.byte(i)) for i in range(a.n)])
            if isinstance(a.n, int) or isinstance(b.n, int):
                k = a.n if isinstance(a.n, int) else b.n
                if k <= 512:
                    cs = [Eq(a.n, b.n)]
                    for i in range(k):
                        cs.append(Eq(a.byte(i), b.byte(i)))
                    return And(*cs)
            # fresh index: valid in a goal
            E = self.E
            i = E.fresh(self.st, 'pos', 64)
            iz = V(i, 64, self).s
            u = V(a.sv.byte(E, self.st, i), 8, self).u
            v = V(b.sv.byte(E, self.st, i), 8, self).u
            self.E.bounded_notes.discard(None)
            return And(Eq(a.n, b.n), Implies(And(iz >= 0, iz < a.n), Eq(u, v)))
        save = self.pos
        return self._op_nested(f)

    def _op_nested(self, f):
        if self.pos < len(self.log):
            r = self.log[self.pos]
            self.pos += 1
            return r
        # run f with its own private log
        log, pos = self.log, self.pos
        self.log, self.pos = [], 0
        try:
            r = f()
        finally:
            self.log, self.pos = log, pos
        self.log.append(r)
        self.pos += 1
        return r

    # ---- calls
    def call(self, sig, *args, ret=None, dargs=()):
        """call the real function; ret: width, 'p' or None"""
        def f():
            name = self.syms.find(sig)
            a = [rawint(x) for x in args]
            outs = []
            for s, kind, v in self.E.invoke_sync(self.st, name, a):
                if kind == 'ret':
                    if ret == 'p' or ret is None or ret == 'raw':
                        r = Res('ret', v)
                    else:
                        if v is UNDEF:
                            self.E.check(s, 0, 'uninit', 'returns an uninitialised value')
                            continue
                        r = Res('ret', V(v, ret, self))
                else:
                    r = Res('throw', None, v[0], v[1])
                outs.append((s, r))
            return self._fork(outs)
        return self._op(f)

    def static_init(self, gname):
        """the state of a global variable after the static initialisation of its file (the real initialiser is run)"""
        def f():
            mod = self.E.mod
            c = [n for n in mod.funcs if n.startswith('__cxx_global_var_init') and re.search(r'@%s\b' % re.escape(gname), mod.func(n).text)]
            if len(c) != 1:
                raise SpecMissing('initialiser of ' + gname)
            outs = []
            for s, kind, v in self.E.invoke_sync(self.st, c[0], []):
                outs.append((s, Res('ret', v) if kind == 'ret' else Res('throw', None, v[0], v[1])))
            return self._fork(outs)
        return self._op(f)

    def callp(self, fp, *args, ret=None):
        """call through a function pointer value"""
        def f():
            m = self.E.meta(self.st, fp.o)
            a = [rawint(x) for x in args]
            outs = []
            for s, kind, v in self.E.invoke_sync(self.st, m[2], a):
                if kind == 'ret':
                    r = Res('ret', v if ret in ('p', None) else V(v, ret, self))
                else:
                    r = Res('throw', None, v[0], v[1])
                outs.append((s, r))
            return self._fork(outs)
        return self._op(f)

    def vcall(self, p, slot, *args, ret=None):
        """virtual call through the vtable of the object at p"""
        def f():
            vt = self.E.ldp(self.st, p)
            return self.E.ldp(self.st, vt.add(8 * slot))
        fp = self._op(f)
        return self.callp(fp, p, *args, ret=ret)

    # ---- logic
    def concrete(self, v, hi=64):
        """the number v, which has few possible values"""
        if isinstance(v.raw, int):
            return v.raw
        for i in range(hi + 1):
            if self.split(Eq(v.u, i)):
                return i
        self.fail('a number out of the expected range')

    def assume(self, cond):
        def f():
            self.E.assume(self.st, _nb(cond))
            if not isinstance(_nb(cond), int) and self.E.sat(self.st, None)[0] == 'unsat':
                raise PathEnd()
            return None
        return self._op(f)

    def split(self, cond):
        """case split in the contract: python truth value on each branch"""
        def f():
            t, g = self.E.fork_on(self.st, _nb(cond))
            outs = []
            if t is not None:
                outs.append((t, True))
            if g is not None:
                outs.append((g, False))
            return self._fork(outs)
        return self._op(f)

    def ensure(self, name, cond):
        def f():
            self.nensure += 1
            self.ensured[name] = self.ensured.get(name, 0) + 1
            self.E.check(self.st, _nb(cond), 'post', name)
            return None
        return self._op(f)

    def fail(self, name):
        self.ensure(name, 0)
        raise PathEnd()

    def cover(self, name):
        """reachability witness: some input gets here"""
        def f():
            if name not in self.covers and self.E.sat(self.st, None)[0] == 'sat':
                self.covers.add(name)
            return None
        return self._op(f)

    def ghost(self, key, val=None, set=False):
        def f():
            if set:
                self.st.ghost = dict(self.st.ghost)
                self.st.ghost[key] = val
            return self.st.ghost.get(key)
        return self._op(f)

    def loop(self, cand, name='', only=None):
        """candidate invariants for symbolic loops met from here on"""
        self.E.loop_specs = [LoopSpec(self, cand, only)]

    def noloop(self):
        self.E.loop_specs = []

    def use(self, sig, fn, how='contract'):
        """install a callee contract: fn(E, st, args, I)"""
        try:
            n = self.syms.find(sig)
        except SpecMissing:
            return
        fn.how = how
        self.E.hooks.extra[n] = fn


# ------------------------------------------------------------------ loop invariants
class View:
    """what a candidate invariant may talk about: memory, the integer/pointer loop variables, entry values"""
    def __init__(self, c, E, st, phis, entry):
        self.c = c
        self.E = E
        self.st = st
        self.phis = phis          # reg -> value (at the header)
        self.entry = entry        # reg -> value on entry

    def ld(self, p, off=0, w=32):
        v = self.E.ld(self.st, p.add(off), w)
        if v is UNDEF:
            raise Unsupported('uninitialised')
        return V(v, w, self.c)

    def ldp(self, p, off=0):
        return self.E.ldp(self.st, p.add(off))

    def ints(self, w):
        """the loop-carried integer variables of width w: list of (entry V, current V), in header order"""
        out = []
        for k in self.phis:
            v = self.phis[k]
            e = self.entry[k]
            if isinstance(v, P) or isinstance(e, P) or v is UNDEF or e is UNDEF or isinstance(v, (tuple, F)):
                continue
            ww = self.width(k)
            if ww == w:
                out.append((V(e, w, self.c), V(v, w, self.c)))
        return out

    def width(self, k):
        return self.widths.get(k)

    def locals(self, size):
        """the local variables of that size of the function the loop is in"""
        out = []
        for k, v in sorted(self.st.frames[-1].regs.items(), key=lambda x: str(x[0])):
            if isinstance(v, P) and v.o and v.s is None and v.c == 0 and self.st.meta.get(v.o, (0, ''))[:2] == (size, 'stack'):
                out.append(v)
        return out

    def fact(self, cond):
        """an instance of the definition of a ghost function"""
        cond = _nb(cond)
        if not isinstance(cond, int):
            self.st.pc.append(cond)


class LoopSpec:
    def __init__(self, c, cand, only=None):
        self.c = c
        self.cand = cand
        self.only = only

    def match(self, E, st, fr, h):
        if self.only is not None:
            return re.search(self.only, X.demangle(fr.f.name)) is not None
        return True

    def apply(self, E, st, fr, h, C):
        return loop_rule(E, st, fr, h, C, self.c, self.cand)


def phi_types(fr, h):
    out = {}
    for I in fr.f.blocks[h].get():
        if I.op != 'phi':
            break
        out[I.res] = I.ty
    return out


def loop_rule(E, st, fr, h, C, c, cand):
    body = C.loops[h]
    depth = len(st.frames)
    tys = phi_types(fr, h)
    entry = {k: v for k, (v, t) in fr_phi(E, fr).items()}
    widths = {}
    for k, t in tys.items():
        r = E.mod.real(t)
        widths[k] = r.a if r.k == 'i' else None

    def view(s, vals):
        v = View(c, E, s, vals, entry)
        v.widths = widths
        return v
    # concrete loops are simply executed: try a few iterations first when the entry state decides them
    cells = {}       # (obj, off) -> (n, kind)
    # candidates valid on entry
    def cands(s, vals):
        out = []
        sup, E.suppress = E.suppress, E.suppress + 1
        npc = len(s.pc)
        try:
            for name, cond in cand(view(s, vals)):
                out.append((name, _nb(cond)))
        finally:
            E.suppress = sup
        return out

    E.solver_time += 0
    alive = None

    def make(havocked):
        s = st.fork()
        f = s.frames[-1]
        vals = {}
        for k, t in tys.items():
            e = entry[k]
            r = E.mod.real(t)
            if k not in havphi:
                vals[k] = e
            elif r.k == 'i':
                vals[k] = E.fresh(s, 'lv', r.a)
            elif r.k == 'ptr' and isinstance(e, P):
                vals[k] = fresh_ptr(E, s, e)
            else:
                raise Unsupported('loop variable of type ' + r.k)
        for (o, off), (n, kind) in cells.items():
            old = E.content(s, o)
            if kind == 'i':
                E.content(s, o, True).write(None, off, n, 'i', E.fresh(s, 'lm', 8 * n), E, s)
            elif kind == 'p':
                k0, ov = old.read(None, off, 8, E, s)
                if not isinstance(ov, P) or ov.o == 0:
                    raise Unsupported('loop changes a null pointer field')
                E.content(s, o, True).write(None, off, 8, 'p', fresh_ptr(E, s, ov), E, s)
            else:
                raise Unsupported('loop changes a float')
        f.prev = ('\0merged', vals)
        f.loops[h] = 1
        s.ghost = dict(s.ghost)
        s.ghost['abs'] = True
        return s, vals
    havphi = set()
    c0 = cands(st, entry)
    alive = set()
    for name, cond in c0:
        r = E.prove(st, cond, 2000)[0] if not isinstance(cond, int) else ('unsat' if cond else 'sat')
        if r == 'unsat':
            alive.add(name)
    specs, E.loop_specs = E.loop_specs, E.loop_specs
    nf, no, nu = len(E.failures), len(E.obligations), len(E.unsupported)

    def run_body(final):
        s, vals = make(cells)
        for name, cond in cands(s, vals):
            if name in alive:
                s.pc.append(b_z3(cond))
        s.model = None
        hav = s.fork()
        if E.sat(s, None)[0] == 'unsat':
            return None, [], hav, vals
        # enter the header with the havocked variables
        b0 = s.frames[-1].f.blocks[h].get()
        r = E.run_to(s, depth, None, (h, body))
        return r, [], hav, vals

    iters = 0
    while True:
        iters += 1
        if iters > 60:
            raise Unsupported('loop invariant search does not converge')
        E.suppress += 1
        try:
            uns = len(E.unsupported)
            r, _, hav, vals = run_body(False)
        finally:
            E.suppress -= 1
        if r is None:
            raise Unsupported('loop invariant contradictory')
        changed = False
        for s in r:
            top = s.frames[-1] if len(s.frames) >= depth else None
            if len(s.frames) != depth or top.f is None or top.blk != h or s.exc is not None:
                continue
            # memory frame
            for o, y in s.mem.items():
                x = hav.mem.get(o)
                if x is y or x is None:
                    continue
                m0 = hav.meta.get(o)
                if m0 is None:
                    continue
                if not base_eq(x, y):
                    raise Unsupported('loop changes an object beyond single fields')
                for k in set(x.cells) | set(y.cells):
                    u, v = x.cells.get(k), y.cells.get(k)
                    if u is v or (u is not None and v is not None and u[2] is v[2] and u[0] == v[0]):
                        continue
                    if u is not None and v is not None and u[0] == v[0]:
                        if isinstance(u[2], int) and isinstance(v[2], int) and u[2] == v[2]:
                            continue
                        if isinstance(u[2], P) and isinstance(v[2], P) and u[2].same(v[2]):
                            continue
                        if isinstance(u[2], SI) and isinstance(v[2], SI) and u[2].e.eq(v[2].e):
                            continue
                    cell = v if v is not None else u
                    if u is not None and v is not None and (u[0] != v[0] or u[1] != v[1]):
                        raise Unsupported('loop changes the layout of an object')
                    key = (o, k)
                    if key not in cells:
                        # a stack slot that is written before being read in every iteration may stay unknown
                        cells[key] = (cell[0], cell[1])
                        changed = True
            pv = fr_phi(E, top)
            for k in tys:
                v = pv[k][0]
                if k in havphi:
                    continue
                e = entry[k]
                if v is e or (isinstance(v, int) and isinstance(e, int) and v == e) or \
                        (isinstance(v, P) and isinstance(e, P) and v.same(e)) or \
                        (isinstance(v, SI) and isinstance(e, SI) and v.e.eq(e.e)) or \
                        (not isinstance(v, (int, P, SI, F, tuple)) and not isinstance(e, (int, P, SI, F, tuple))
                         and v is not UNDEF and e is not UNDEF and v.eq(e)):
                    continue
                havphi.add(k)
                changed = True
        if changed:
            continue
        # consecution
        dropped = False
        for s in r:
            top = s.frames[-1] if len(s.frames) >= depth else None
            if len(s.frames) != depth or top.f is None or top.blk != h or s.exc is not None:
                continue
            pv = {k: v for k, (v, t) in fr_phi(E, top).items()}
            cs = dict(cands(s, pv))
            for name in sorted(alive):
                cond = cs.get(name)
                if cond is None:
                    alive.discard(name)
                    dropped = True
                    continue
                q = E.prove(s, cond, 4000)[0] if not isinstance(cond, int) else ('unsat' if cond else 'sat')
                if q != 'unsat':
                    alive.discard(name)
                    dropped = True
        if not dropped:
            break
    # the accepted invariant: run once more with the obligations on
    r, _, hav, vals = run_body(True)
    out = []
    for s in r or []:
        top = s.frames[-1] if len(s.frames) >= depth else None
        if len(s.frames) == depth and top.f is not None and top.blk == h and s.exc is None:
            continue
        out.append(s)
    for name in sorted(alive):
        E.obligations.append(('invariant', '%s in %s' % (name, X.demangle(fr.f.name)), 'z3', 0.0))
    return out


def base_eq(x, y):
    return X.base_same(x.base, y.base) and X.layers_same(x.layers, y.layers) and \
        (X.same_sym(x.sym, y.sym))


def fr_phi(E, fr):
    return E.phi_vals(fr)


def fresh_ptr(E, s, e):
    v = E.fresh(s, 'lp', 64)
    sy, cc = E.off_norm(v)
    z = E.zoff(v)
    s.pc.append(z3.And(z >= -(1 << 40), z <= (1 << 40)))
    return P(e.o, cc, sy)
