"""Trusted contracts of the functions that have no body in /repo: libc, libstdc++ (out-of-line parts), C++ runtime.
They are the trusted base, listed in every evidence file."""
import re
import z3
from dom import *
from mem import Content
import exec as X
import ir

EXACT = {}
PATTERNS = []
SMAX = 1 << 31      # assumed bound on the length of any byte string


def hook(*names, how='trusted'):
    def deco(f):
        f.how = how
        for n in names:
            EXACT[n] = f
        return f
    return deco


def dhook(*pats, how='trusted'):
    """match on the demangled name"""
    def deco(f):
        f.how = how
        for p in pats:
            PATTERNS.append((re.compile(p), f))
        return f
    return deco


class Hooks:
    def __init__(self):
        self.cache = {}
        self.extra = {}          # exact mangled -> callable (contracts)
        self.extra_pats = []

    def find(self, name, E, st):
        h = self.extra.get(name)
        if h is not None:
            return h
        if name in self.cache:
            return self.cache[name]
        h = EXACT.get(name)
        if h is None:
            d = X.demangle(name)
            for p, f in self.extra_pats:
                if p.search(d):
                    h = f
                    break
            if h is None:
                for p, f in PATTERNS:
                    if p.search(d):
                        h = f
                        break
        self.cache[name] = h
        return h


# ------------------------------------------------------------------ helpers
def ret_fork(E, st, cond, vt, vf):
    """value by cases as an ite"""
    return E.dom.ite(cond, vt, vf, 32)


def throws(st, ti, obj=None):
    return [(st, 'throw', (ti, obj if obj is not None else P(0)))]


def throw_std(E, st, ti):
    o = E.alloc(st, 64, 'heap', ('zero',), 'exception')
    return [(st, 'throw', (ti, o))]


def length_ok(E, st, n):
    """assumption: lengths stay below SMAX"""
    if isinstance(n, int):
        return
    z = E.zoff(n)
    E.assume(st, z3.And(z >= 0, z <= SMAX))


class SV:
    """a byte-string value: n bytes at p of a frozen content"""
    __slots__ = ('c', 's', 'o', 'n')

    def __init__(self, content, sym, off, n):
        self.c = content
        self.s = sym
        self.o = off
        self.n = n

    def byte(self, E, st, i):
        """i: int or dom value i64"""
        if isinstance(i, int):
            return self.c.byte(self.s, self.o + i, E, st)
        s, c = E.off_norm(i)
        s, c = E.off_add((s, c), (self.s, self.o))
        return self.c.byte(s, c, E, st)

    def concrete(self, E, st):
        if not isinstance(self.n, int) or self.n > 4096:
            return None
        out = bytearray()
        for i in range(self.n):
            b = self.byte(E, st, i)
            if not isinstance(b, int):
                return None
            out.append(b)
        return bytes(out)


def snap(E, st, p, n):
    if p.o == 0:
        return SV(Content(('zero',)), None, 0, n)
    c = E.content(st, p.o)
    c.own = None
    return SV(c, p.s, p.c, n)


def str_val(E, st, p):
    """SV of the std::string at p"""
    buf = E.ldp(st, p)
    n = E.ld(st, p.add(8), 64)
    return snap(E, st, buf, n)


def add64(E, a, b):
    return E.dom.bin('add', 64, a, b)


def sub64(E, a, b):
    return E.dom.bin('sub', 64, a, b)


def mk_buf(E, st, sv, name='str'):
    """heap buffer with the bytes of sv and a NUL"""
    n = sv.n
    size = n + 1 if isinstance(n, int) else add64(E, n, 1)
    q = E.alloc(st, size, 'heap', ('uninit',), name)
    c = E.content(st, q.o, True)
    put(E, st, q, sv)
    put_nul(E, st, q, n)
    return q


def put_nul(E, st, q, n):
    if isinstance(n, int):
        E.content(st, q.o, True).write(q.s, q.c + n, 1, 'i', 0, E, st)
    else:
        s, c = E.off_norm(n)
        s, c = E.off_add((s, c), (q.s, q.c))
        E.content(st, q.o, True).write(s, c, 1, 'i', 0, E, st)


def put(E, st, q, sv):
    """write the bytes of sv at q (no checks)"""
    c = E.content(st, q.o, True)
    n = sv.n
    if isinstance(n, int):
        if n == 0:
            return
        if n <= 256:
            # try cell-wise
            j = 0
            ok = True
            bs = []
            for i in range(n):
                try:
                    bs.append(sv.byte(E, st, i))
                except Unsupported:
                    ok = False
                    break
            if ok:
                for i, b in enumerate(bs):
                    c.write(q.s, q.c + i, 1, 'i', b, E, st)
                return
    c.copy(q.s, q.c, n, sv.c, sv.s, sv.o, E)


def str_set(E, st, p, sv, fresh=False):
    """make the std::string at p hold sv (always out of line unless empty)"""
    q = mk_buf(E, st, sv)
    if not fresh:
        str_free(E, st, p)
    E.stp(st, p, q)
    E.sto(st, p.add(8), 64, sv.n)
    E.sto(st, p.add(16), 64, sv.n if True else 0)


def str_free(E, st, p):
    buf = E.ldp(st, p)
    if isinstance(buf, P) and buf.o == p.o and buf.s is p.s and buf.c == p.c + 16:
        return
    if isinstance(buf, P) and buf.o != 0:
        if E.meta(st, buf.o)[1] in ('const', 'global'):
            return
        E.free(st, buf)


def cat(E, st, a, b):
    """concatenation of two SVs as an SV over a fresh content"""
    if isinstance(a.n, int) and a.n == 0:
        return b
    if isinstance(b.n, int) and b.n == 0:
        return a
    n = add64(E, a.n, b.n)
    tmp = E.alloc(st, n if isinstance(n, int) else n, 'heap', ('uninit',), 'cat')
    put(E, st, tmp, a)
    if isinstance(a.n, int):
        q = tmp.add(a.n)
    else:
        s, c = E.off_norm(a.n)
        q = P(tmp.o, c, s)
    put(E, st, q, b)
    if not isinstance(n, int):
        length_ok(E, st, n)
    return snap(E, st, tmp, n)


def lit(b):
    return SV(Content(('bytes', b)), None, 0, len(b))


def fresh_sv(E, st, name, lo=0, hi=64):
    """unconstrained string of bounded symbolic length"""
    k = next(E.uid)
    n = E.fresh(st, name + '.len', 64)
    z = E.zoff(n)
    st.pc.append(z3.And(z >= lo, z <= hi))
    st.model = None
    if E.dom is INT:
        n = SI(n.e, lo, hi)
    a = E.dom.arr('%s.bytes!%d' % (name, k))
    return SV(Content(('arr', a, 0)), None, 0, n)


def cstr_len(E, st, p):
    """strlen: forks are avoided; a fresh length with the defining constraints when the content is symbolic"""
    if p.o == 0:
        E.check(st, 0, 'null', 'strlen of null')
        raise X.PathEnd()
    size, kind, name, alive = E.meta(st, p.o)
    c = E.content(st, p.o)
    if p.s is None:
        for i in range(0, 1 << 16):
            if isinstance(size, int) and p.c + i >= size:
                E.check(st, 0, 'bounds', 'string without terminating NUL in ' + str(name))
                raise X.PathEnd()
            b = c.byte(None, p.c + i, E, st)
            if b is UNDEF:
                break
            if isinstance(b, int):
                if b == 0:
                    return i
                continue
            d = E.decide(st, E.dom.icmp('eq', 8, b, 0))
            if d == 1:
                return i
            if d is None:
                break
    n = E.fresh(st, 'strlen', 64)
    z = E.zoff(n)
    st.pc.append(z3.And(z >= 0, z <= SMAX))
    s, cc = E.off_norm(n)
    s, cc = E.off_add((s, cc), (p.s, p.c))
    q = P(p.o, cc, s)
    E.check_range(st, P(p.o, p.c, p.s), 1, 'strlen')
    o = E.zoff(E.off_expr((q.s, q.c)))
    st.pc.append(o < E.zoff(size))
    E.assume(st, E.dom.icmp('eq', 8, c.byte(q.s, q.c, E, st), 0))
    # no NUL before: quantified
    i = z3.Int('i!%d' % next(E.uid)) if E.dom is INT else z3.BitVec('i!%d' % next(E.uid), 64)
    iv = SI(i, 0, SMAX) if E.dom is INT else i
    s, cc = E.off_norm(iv)
    s, cc = E.off_add((s, cc), (p.s, p.c))
    try:
        n0 = len(st.pc)
        b = c.byte(s, cc, E, st)
        del st.pc[n0:]
        if b is not UNDEF and not isinstance(b, int):
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z), b_z3(E.dom.icmp('ne', 8, b, 0)))))
    except Unsupported:
        pass
    st.model = None
    return n


# ------------------------------------------------------------------ libc memory
@hook('memcpy', 'memmove')
def h_memcpy(E, st, a, I):
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


@hook('memset')
def h_memset(E, st, a, I):
    E.memset(st, a[0], E.dom.trunc(a[1], 32, 8), a[2])
    return a[0]


def bytes_cmp(E, st, x, y, n, what='memcmp'):
    """exact three-way comparison result of the first n bytes (sign only is defined)"""
    if isinstance(n, int) and n <= 40:
        r = 0
        bs = []
        for i in range(n):
            u = x.byte(E, st, i)
            v = y.byte(E, st, i)
            if u is UNDEF or v is UNDEF:
                E.check(st, 0, 'uninit', what + ' of uninitialised bytes')
                raise X.PathEnd()
            bs.append((u, v))
        for u, v in reversed(bs):
            if isinstance(u, int) and isinstance(v, int):
                if u != v:
                    r = 1 if u > v else mask(32)
                continue
            eq = E.dom.icmp('eq', 8, u, v)
            gt = E.dom.icmp('ugt', 8, u, v)
            r = E.dom.ite(eq, r, E.dom.ite(gt, 1, mask(32), 32), 32)
        return r
    # symbolic length: k = first difference
    # identical contents?
    if x.c is y.c and x.o == y.o and (x.s is y.s or (x.s is not None and y.s is not None and x.s.eq(y.s))):
        return 0
    k = E.fresh(st, 'diff', 64)
    r = E.fresh(st, 'cmp', 32)
    z = E.zoff(k)
    N = E.zoff(n)
    st.pc.append(z3.And(z >= 0, z <= N))
    i = z3.Int('i!%d' % next(E.uid)) if E.dom is INT else z3.BitVec('i!%d' % next(E.uid), 64)
    iv = SI(i, 0, SMAX) if E.dom is INT else i
    n0 = len(st.pc)
    sm = st.model
    u, v = x.byte(E, st, iv), y.byte(E, st, iv)
    del st.pc[n0:]
    eqi = b_z3(E.dom.icmp('eq', 8, u, v))
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z), eqi)))
    ku, kv = x.byte(E, st, k), y.byte(E, st, k)
    rz = E.dom.s(r, 32)
    lt = E.dom.icmp('ult', 8, ku, kv)
    gt = E.dom.icmp('ugt', 8, ku, kv)
    st.pc.append(z3.Implies(z == N, rz == 0))
    st.pc.append(z3.Implies(z < N, z3.Or(z3.And(b_z3(lt), rz < 0), z3.And(b_z3(gt), rz > 0))))
    st.model = None
    return r


@hook('memcmp', 'bcmp')
def h_memcmp(E, st, a, I):
    x, y, n = a
    if isinstance(n, int) and n == 0:
        return 0
    for q in (x, y):
        if q.o == 0:
            E.check(st, E.dom.icmp('eq', 64, n, 0), 'null', 'memcmp of null')
            return 0
        E.check_alive(st, q, 'memcmp')
        E.check_range(st, q, n, 'memcmp')
    return bytes_cmp(E, st, snap(E, st, x, n), snap(E, st, y, n), n)


@hook('strlen')
def h_strlen(E, st, a, I):
    return cstr_len(E, st, a[0])


@hook('_ZNSt11char_traitsIcE6lengthEPKc')
def h_ctlength(E, st, a, I):
    return cstr_len(E, st, a[0])


@hook('strcmp')
def h_strcmp(E, st, a, I):
    x = snap(E, st, a[0], cstr_len(E, st, a[0]))
    y = snap(E, st, a[1], cstr_len(E, st, a[1]))
    cx, cy = x.concrete(E, st), y.concrete(E, st)
    if cx is not None and cy is not None:
        return 0 if cx == cy else (1 if cx > cy else mask(32))
    # compare including the NUL
    raise Unsupported('strcmp of symbolic strings')


def alloc_fn(E, st, n, name='new'):
    if not isinstance(n, int):
        length_ok(E, st, n)
    return E.alloc(st, n, 'heap', ('uninit',), name)


@hook('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t')
def h_new(E, st, a, I):
    return alloc_fn(E, st, a[0])


@hook('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t')
def h_delete(E, st, a, I):
    E.free(st, a[0])
    return None


# ------------------------------------------------------------------ C++ runtime
@hook('__cxa_allocate_exception')
def h_cxaalloc(E, st, a, I):
    return E.alloc(st, a[0], 'heap', ('zero',), 'exception')


@hook('__cxa_free_exception')
def h_cxafree(E, st, a, I):
    return None


@hook('__cxa_throw')
def h_throw(E, st, a, I):
    ti = E.names[a[1].o][1:]
    return [(st, 'throw', (ti, a[0]))]


@hook('__cxa_begin_catch')
def h_begin_catch(E, st, a, I):
    st.caught.append(st.exc)
    st.exc = None
    return a[0]


@hook('__cxa_end_catch')
def h_end_catch(E, st, a, I):
    st.caught.pop()
    return None


@hook('__cxa_rethrow')
def h_rethrow(E, st, a, I):
    e = st.caught[-1]
    return [(st, 'throw', (e[0], e[1]))]


@hook('__clang_call_terminate', '_ZSt9terminatev', 'abort')
def h_terminate(E, st, a, I):
    E.check(st, 0, 'terminate', 'std::terminate reached')
    raise X.PathEnd()


@hook('__assert_fail')
def h_assert_fail(E, st, a, I):
    E.check(st, 0, 'assert', 'assertion of the code fails')
    raise X.PathEnd()


@hook('__cxa_pure_virtual')
def h_pure(E, st, a, I):
    E.check(st, 0, 'purevirtual', 'pure virtual call')
    raise X.PathEnd()


@hook('__cxa_guard_acquire')
def h_guard(E, st, a, I):
    b = E.ld(st, a[0], 8)
    if b is UNDEF:
        return 1
    return E.dom.ite(E.dom.icmp('eq', 8, b, 0), 1, 0, 32)


@hook('__cxa_guard_release')
def h_guard_rel(E, st, a, I):
    E.sto(st, a[0], 8, 1)
    return None


@hook('__cxa_guard_abort', '__cxa_atexit')
def h_nop(E, st, a, I):
    return 0 if I is not None and I.res is not None else None


@dhook(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error)::'
       r'(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error)\(',
       r'^std::system_error::system_error\(', r'^std::(runtime_error|logic_error|invalid_argument|system_error|exception|out_of_range|bad_alloc)::~')
def h_exc_ctor(E, st, a, I):
    return None


@dhook(r'^std::(runtime_error|logic_error|exception|bad_alloc)::what\(\) const')
def h_what(E, st, a, I):
    sv = fresh_sv(E, st, 'what', 0, 1000)
    return mk_buf(E, st, sv, 'what')


THROWERS = {
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range', '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt9bad_alloc',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error', '_ZSt21__throw_bad_exceptionv': '_ZTISt9exception',
    '_ZSt20__throw_bad_weak_ptrv': '_ZTISt12bad_weak_ptr',
}


def _mk_thrower(ti):
    def f(E, st, a, I):
        return throw_std(E, st, ti)
    f.how = 'trusted'
    return f


for _n, _t in THROWERS.items():
    EXACT[_n] = _mk_thrower(_t)


@hook('__dynamic_cast')
def h_dyncast(E, st, a, I):
    p, src, dst, hint = a
    if p.o == 0:
        return NULL
    v = E.ldp(st, p)
    off_top = E.ld(st, v.add(-16), 64)
    ti = E.ldp(st, v.add(-8))
    tin = E.names[ti.o][1:]
    dn = E.names[dst.o][1:]
    if not isinstance(off_top, int):
        raise Unsupported('dynamic_cast')
    whole = P(p.o, p.c + sgn(off_top, 64), p.s)
    r = find_base(E, tin, dn, 0)
    if r is None:
        return NULL
    return whole.add(r)


def find_base(E, ti, dst, off):
    if ti == dst:
        return off
    g = E.mod.glob(ti)
    if g is None or g.init is None or g.init[0] != 'agg':
        return None
    items = g.init[2]
    if len(items) == 3:      # __si_class_type_info
        v = items[2][1]
        if v[0] == 'g':
            return find_base(E, v[1], dst, off)
    elif len(items) > 4:      # __vmi
        i = 4
        while i + 1 < len(items):
            v = items[i][1]
            flags = sgn(items[i + 1][1][1], 64)
            if not flags & 1:
                r = find_base(E, v[1], dst, off + (flags >> 8))
                if r is not None:
                    return r
            i += 2
    return None


@hook('__gxx_personality_v0')
def h_pers(E, st, a, I):
    raise Unsupported('personality')


@hook('__errno_location')
def h_errno(E, st, a, I):
    p = st.ghost.get('errno')
    if p is None:
        p = E.alloc(st, 4, 'global', ('zero',), 'errno')
        st.ghost['errno'] = p
    return p


# ------------------------------------------------------------------ std::string
S = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
SE = re.escape(S)


@dhook('^' + SE + r'::_M_assign\(')
def s_assign(E, st, a, I):
    if a[0].same(a[1]):
        return None
    str_set(E, st, a[0], str_val(E, st, a[1]))
    return None


@dhook('^' + SE + r'::_M_append\(')
def s_append(E, st, a, I):
    p, src, n = a
    _src_check(E, st, src, n)
    sv = cat(E, st, str_val(E, st, p), snap(E, st, src, n))
    str_set(E, st, p, sv)
    return p


def _src_check(E, st, src, n):
    if isinstance(n, int) and n == 0:
        return
    if src.o == 0:
        E.check(st, E.dom.icmp('eq', 64, n, 0), 'null', 'string from null')
        return
    E.check_alive(st, src, 'string copy')
    E.check_range(st, src, n, 'string copy')


def sub_sv(E, sv, off, n):
    if isinstance(off, int):
        return SV(sv.c, sv.s, sv.o + off, n)
    s, c = E.off_norm(off)
    s, c = E.off_add((s, c), (sv.s, sv.o))
    return SV(sv.c, s, c, n)


@dhook('^' + SE + r'::_M_replace\(unsigned long, unsigned long, char const\*, unsigned long\)')
def s_replace(E, st, a, I):
    p, pos, n1, src, n2 = a
    _src_check(E, st, src, n2)
    old = str_val(E, st, p)
    rest = sub64(E, sub64(E, old.n, pos), n1)
    sv = cat(E, st, sub_sv(E, old, 0, pos), snap(E, st, src, n2))
    tail = sub_sv(E, old, add64(E, pos, n1), rest)
    if not (isinstance(rest, int) and rest == 0):
        sv = cat(E, st, sv, tail)
    str_set(E, st, p, sv)
    return p


def fill_sv(E, st, n, ch):
    if isinstance(n, int):
        if n == 0:
            return lit(b'')
        if isinstance(ch, int) and n < 100000:
            return lit(bytes([ch]) * n)
    t = E.alloc(st, n, 'heap', ('uninit',), 'fill')
    E.content(st, t.o, True).fill(None, 0, n, ch, E)
    return snap(E, st, t, n)


@dhook('^' + SE + r'::_M_replace_aux\(unsigned long, unsigned long, unsigned long, char\)')
def s_replace_aux(E, st, a, I):
    p, pos, n1, n2, ch = a
    old = str_val(E, st, p)
    rest = sub64(E, sub64(E, old.n, pos), n1)
    sv = cat(E, st, sub_sv(E, old, 0, pos), fill_sv(E, st, n2, ch))
    if not (isinstance(rest, int) and rest == 0):
        sv = cat(E, st, sv, sub_sv(E, old, add64(E, pos, n1), rest))
    str_set(E, st, p, sv)
    return p


@dhook('^' + SE + r'::_M_construct\(unsigned long, char\)')
def s_construct_fill(E, st, a, I):
    p, n, ch = a
    length_ok(E, st, n)
    str_set(E, st, p, fill_sv(E, st, n, ch), True)
    return None


@dhook('^void ' + SE + r'::_M_construct<(char const\*|char\*|__gnu_cxx::__normal_iterator<char const\*, .*>|__gnu_cxx::__normal_iterator<char\*, .*>)>\(')
def s_construct_range(E, st, a, I):
    p, b, e = a[:3]
    if isinstance(b, tuple):
        b, e = b[0], e[0]
    n = ptr_diff(E, b, e)
    _src_check(E, st, b, n)
    str_set(E, st, p, snap(E, st, b, n), True)
    return None


@dhook('^void ' + SE + r'::_M_construct<(unsigned char const\*|__gnu_cxx::__normal_iterator<unsigned char const\*, .*>|__gnu_cxx::__normal_iterator<unsigned char\*, .*>|unsigned char\*)>\(')
def s_construct_urange(E, st, a, I):
    return s_construct_range(E, st, a, I)


def ptr_diff(E, b, e):
    """e - b in bytes, as an i64"""
    if b.o != e.o:
        if b.o == 0 and e.o == 0:
            return (e.c - b.c) & mask(64)
        raise Unsupported('difference of unrelated pointers')
    s, c = E.off_sub((e.s, e.c), (b.s, b.c))
    if s is None:
        return c & mask(64)
    return E.off_expr((s, c))


@dhook('^' + SE + r'::_M_erase\(unsigned long, unsigned long\)')
def s_erase(E, st, a, I):
    p, pos, n = a
    old = str_val(E, st, p)
    sv = sub_sv(E, old, 0, pos)
    end = add64(E, pos, n)
    rest = sub64(E, old.n, end)
    if not (isinstance(rest, int) and rest == 0):
        sv = cat(E, st, sv, sub_sv(E, old, end, rest))
    str_set(E, st, p, sv)
    return None


@dhook('^' + SE + r'::resize\(unsigned long, char\)')
def s_resize(E, st, a, I):
    p, n, ch = a
    old = str_val(E, st, p)
    g = E.dom.icmp('ugt', 64, n, old.n)
    t, f = E.fork_on(st, g)
    out = []
    if t is not None:
        str_set(E, t, p, cat(E, t, old, fill_sv(E, t, sub64(E, n, old.n), ch)))
        out.append((t, 'ret', None))
    if f is not None:
        str_set(E, f, p, sub_sv(E, old, 0, n))
        out.append((f, 'ret', None))
    return out


@dhook('^' + SE + r'::reserve\(')
def s_reserve(E, st, a, I):
    return None


@dhook('^' + SE + r'::push_back\(char\)')
def s_push_back(E, st, a, I):
    p, ch = a
    t = E.alloc(st, 1, 'heap', ('uninit',), 'ch')
    E.raw_store(st, t, 8, ch)
    str_set(E, st, p, cat(E, st, str_val(E, st, p), snap(E, st, t, 1)))
    return None


@dhook('^' + SE + r'::swap\(')
def s_swap(E, st, a, I):
    x, y = str_val(E, st, a[0]), str_val(E, st, a[1])
    str_set(E, st, a[0], y)
    str_set(E, st, a[1], x)
    return None


@dhook('^' + SE + r'::_M_create\(')
def s_create(E, st, a, I):
    n = E.ld(st, a[1], 64)
    return alloc_fn(E, st, add64(E, n, 1), 'str')


def find_char(E, st, sv, pred, start, fwd=True):
    """concrete-length search for the first/last index whose byte satisfies pred (a condition): list of (cond, index)"""
    n = sv.n
    if not isinstance(n, int) or not isinstance(start, int):
        return None
    rng = range(start, n) if fwd else range(min(start, n - 1), -1, -1)
    out = []
    for i in rng:
        out.append((pred(sv.byte(E, st, i)), i))
    return out


def by_cases(E, st, cases, default, w=64):
    r = default
    for c, v in reversed(cases):
        r = E.dom.ite(c, v, r, w)
    return r


NPOS = mask(64)


@dhook('^' + SE + r'::find\(char, unsigned long\) const')
def s_find_char(E, st, a, I):
    p, ch, pos = a
    sv = str_val(E, st, p)
    return sym_find(E, st, sv, lambda b: E.dom.icmp('eq', 8, b, ch), pos)


def sym_find(E, st, sv, pred, pos):
    cs = find_char(E, st, sv, pred, pos)
    if cs is not None and all(isinstance(c, int) for c, i in cs):
        return by_cases(E, st, cs, NPOS)
    if cs is not None and len(cs) <= 64:
        # fork per position so that later string operations stay concrete
        outs = []
        cur = st
        for c, i in cs:
            t, cur2 = E.fork_on(cur, c)
            if t is not None:
                outs.append((t, 'ret', i))
            cur = cur2
            if cur is None:
                break
        if cur is not None:
            outs.append((cur, 'ret', NPOS))
        return outs
    # symbolic length: fresh index r with its definition
    t, f = st, st.fork()
    outs = []
    n = E.zoff(sv.n)
    zpos = E.zoff(pos)

    def q(s, lo, hi):
        i = z3.Int('i!%d' % next(E.uid)) if E.dom is INT else z3.BitVec('i!%d' % next(E.uid), 64)
        iv = SI(i, 0, SMAX) if E.dom is INT else i
        n0 = len(s.pc)
        b = sv.byte(E, s, iv)
        del s.pc[n0:]
        return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), b_not(b_z3(pred(b)))))
    r = E.fresh(t, 'find', 64)
    rz = E.zoff(r)
    t.pc.append(z3.And(rz >= zpos, rz < n, rz >= 0))
    t.pc.append(b_z3(pred(sv.byte(E, t, r))))
    t.pc.append(q(t, zpos, rz))
    t.model = None
    f.pc.append(q(f, zpos, n))
    f.model = None
    for s, v in ((t, r), (f, NPOS)):
        if E.sat(s, None)[0] != 'unsat':
            outs.append((s, 'ret', v))
    return outs


@dhook('^' + SE + r'::rfind\(char, unsigned long\) const')
def s_rfind_char(E, st, a, I):
    p, ch, pos = a
    sv = str_val(E, st, p)
    if isinstance(pos, int) and pos > SMAX and isinstance(sv.n, int):
        pos = sv.n - 1
    if isinstance(sv.n, int) and sv.n == 0:
        return NPOS
    cs = find_char(E, st, sv, lambda b: E.dom.icmp('eq', 8, b, ch), pos, False)
    if cs is None:
        raise Unsupported('rfind in a string of symbolic length')
    if all(isinstance(c, int) for c, i in cs):
        return by_cases(E, st, cs, NPOS)
    outs = []
    cur = st
    for c, i in cs:
        t, cur = E.fork_on(cur, c)
        if t is not None:
            outs.append((t, 'ret', i))
        if cur is None:
            break
    if cur is not None:
        outs.append((cur, 'ret', NPOS))
    return outs


def fork_cases(E, st, cs, default):
    """one state per case, so that later string operations stay concrete"""
    if all(isinstance(c, int) for c, i in cs):
        return by_cases(E, st, cs, default)
    outs = []
    cur = st
    for c, i in cs:
        t, cur = E.fork_on(cur, c)
        if t is not None:
            outs.append((t, 'ret', i))
        if cur is None:
            break
    if cur is not None:
        outs.append((cur, 'ret', default))
    return outs


@dhook('^' + SE + r'::find\(char const\*, unsigned long, unsigned long\) const')
def s_find_str(E, st, a, I):
    p, s, pos, n = a
    sv = str_val(E, st, p)
    needle = snap(E, st, s, n)
    if not isinstance(sv.n, int) or not isinstance(n, int) or not isinstance(pos, int):
        raise Unsupported('find of symbolic strings')
    cs = []
    for i in range(pos, sv.n - n + 1):
        c = 1
        for j in range(n):
            c = b_and(c, E.dom.icmp('eq', 8, sv.byte(E, st, i + j), needle.byte(E, st, j)))
        cs.append((c, i))
    return fork_cases(E, st, cs, NPOS)


@dhook('^' + SE + r'::rfind\(char const\*, unsigned long, unsigned long\) const')
def s_rfind_str(E, st, a, I):
    p, s, pos, n = a
    sv = str_val(E, st, p)
    needle = snap(E, st, s, n)
    if not isinstance(sv.n, int) or not isinstance(n, int):
        raise Unsupported('rfind of symbolic strings')
    hi = sv.n - n
    if isinstance(pos, int):
        hi = min(hi, pos)
    cs = []
    for i in range(hi, -1, -1):
        c = 1
        for j in range(n):
            c = b_and(c, E.dom.icmp('eq', 8, sv.byte(E, st, i + j), needle.byte(E, st, j)))
        cs.append((c, i))
    return by_cases(E, st, cs, NPOS)


@dhook('^' + SE + r'::find_first_(not_)?of\(char const\*, unsigned long, unsigned long\) const')
def s_find_first_of(E, st, a, I):
    p, s, pos, n = a
    sv = str_val(E, st, p)
    nd = snap(E, st, s, n)
    if not isinstance(n, int):
        raise Unsupported('find_first_of')
    name = I.a[1] if I is not None else ''
    neg = 'find_first_not_of' in X.demangle(name)

    def pred(b):
        c = b_or(*[E.dom.icmp('eq', 8, b, nd.byte(E, st, j)) for j in range(n)])
        return b_not(c) if neg else c
    return sym_find(E, st, sv, pred, pos)


# std::to_string
@dhook(r'^std::__cxx11::to_string\((int|unsigned int|long|unsigned long|long long|unsigned long long)\)')
def h_to_string(E, st, a, I):
    name = X.demangle(I.a[1]) if I is not None else 'to_string(int)'
    ty = name[name.index('(') + 1:name.index(')')]
    w = 32 if ty in ('int', 'unsigned int') else 64
    signed = not ty.startswith('unsigned')
    out, v = a[0], a[1]
    if isinstance(v, int):
        str_set(E, st, out, lit(str(sgn(v, w) if signed else v).encode()), True)
        return None
    str_set(E, st, out, dec_sv(E, st, v, w, signed), True)
    return None


_dec_cache = {}


def dec_sv(E, st, v, w, signed):
    """decimal rendering of a symbolic integer as an uninterpreted string value: a function of the value"""
    key = (E, v.e.get_id() if isinstance(v, SI) else v.get_id(), w, signed)
    memo = st.ghost.get('dec')
    r = st.ghost.get(('dec', key[1:]))
    if r is None:
        r = fresh_sv(E, st, 'dec', 1, 11 if w == 32 else 20)
        st.ghost = dict(st.ghost)
        st.ghost[('dec', key[1:])] = r
    return r


# ------------------------------------------------------------------ std::vector<unsigned char>
VE = re.escape('std::vector<unsigned char, std::allocator<unsigned char>>')


def vec_parts(E, st, v):
    b = E.ldp(st, v)
    e = E.ldp(st, v.add(8))
    return b, e


def vec_sv(E, st, v):
    b, e = vec_parts(E, st, v)
    if b.o == 0:
        return lit(b'')
    return snap(E, st, b, ptr_diff(E, b, e))


def vec_set(E, st, v, sv, free=True):
    """replace the contents: fresh buffer of exactly the needed size"""
    old = E.ldp(st, v) if free else NULL
    q = E.alloc(st, sv.n, 'heap', ('uninit',), 'vec')
    put(E, st, q, sv)
    if free and isinstance(old, P) and old.o != 0:
        E.free(st, old)
    vec_point(E, st, v, q, sv.n)
    return q


def vec_point(E, st, v, q, n):
    if isinstance(n, int):
        e = q.add(n)
    else:
        s, c = E.off_norm(n)
        s, c = E.off_add((s, c), (q.s, q.c))
        e = P(q.o, c, s)
    E.stp(st, v, q)
    E.stp(st, v.add(8), e)
    E.stp(st, v.add(16), e)


def vec_append(E, st, v, sv):
    """append: same bytes, moved to a fresh object (pointers into the old buffer become dangling)"""
    b, e = vec_parts(E, st, v)
    if b.o == 0:
        return vec_set(E, st, v, sv)
    n0 = ptr_diff(E, b, e)
    n = add64(E, n0, sv.n)
    length_ok(E, st, n)
    old = E.content(st, b.o)
    if b.s is None and b.c == 0:
        q = E.alloc(st, n, 'heap', ('uninit',), 'vec')
        c = old.clone(st.tok)
        st.mem[q.o] = c
    else:
        q = E.alloc(st, n, 'heap', ('uninit',), 'vec')
        put(E, st, q, snap(E, st, b, n0))
    if sv.c is old:
        sv = SV(old.clone(None), sv.s, sv.o, sv.n)
    E.free(st, b)
    vec_point(E, st, v, q, n)
    if isinstance(n0, int):
        at = q.add(n0)
    else:
        s, c = E.off_norm(n0)
        at = P(q.o, c, s)
    put(E, st, at, sv)
    return q


@dhook('^' + VE + r'::push_back\(unsigned char (const&|&&)\)', r'^unsigned char& ' + VE + r'::emplace_back<unsigned char>\(unsigned char&&\)')
def v_push_back(E, st, a, I):
    x = E.ld(st, a[1], 8)
    t = E.alloc(st, 1, 'heap', ('uninit',), 'byte')
    E.raw_store(st, t, 8, x)
    q = vec_append(E, st, a[0], snap(E, st, t, 1))
    e = E.ldp(st, a[0].add(8))
    return e.add(-1)


def _at_end(E, st, v, pos):
    b, e = vec_parts(E, st, v)
    pp = pos
    if isinstance(pos, tuple):
        pp = pos[0]
    return pp, b, e


@dhook(r'^(void|__gnu_cxx::__normal_iterator<unsigned char\*, ' + VE[0:] + r'>) ' + VE + r'::(_M_range_insert|insert)<.*>\(')
def v_range_insert(E, st, a, I):
    name = X.demangle(I.a[1])
    ret_it = name.startswith('__gnu_cxx')
    v, pos, x, y = a[0], a[1], a[2], a[3]
    n = ptr_diff(E, x, y)
    _src_check(E, st, x, n)
    sv = snap(E, st, x, n)
    b, e = vec_parts(E, st, v)
    off = ptr_diff(E, b, pos) if b.o else 0
    if is1(E.ptr_cmp(st, 'eq', pos, e)):
        vec_append(E, st, v, sv)
    else:
        old = vec_sv(E, st, v)
        nsv = cat(E, st, cat(E, st, sub_sv(E, old, 0, off), sv), sub_sv(E, old, off, sub64(E, old.n, off)))
        vec_set(E, st, v, nsv)
    if ret_it:
        b = E.ldp(st, v)
        s, c = E.off_norm(off)
        s, c = E.off_add((s, c), (b.s, b.c))
        return P(b.o, c, s)
    return None


@dhook('^' + VE + r'::_M_fill_insert\(')
def v_fill_insert(E, st, a, I):
    v, pos, n, xp = a
    x = E.ld(st, xp, 8)
    sv = fill_sv(E, st, n, x)
    b, e = vec_parts(E, st, v)
    if is1(E.ptr_cmp(st, 'eq', pos, e)):
        vec_append(E, st, v, sv)
    else:
        off = ptr_diff(E, b, pos) if b.o else 0
        old = vec_sv(E, st, v)
        vec_set(E, st, v, cat(E, st, cat(E, st, sub_sv(E, old, 0, off), sv), sub_sv(E, old, off, sub64(E, old.n, off))))
    return None


@dhook('^' + VE + r'::reserve\(', '^' + VE + r'::shrink_to_fit\(')
def v_reserve(E, st, a, I):
    return None


@dhook('^' + VE + r'::_M_default_append\(')
def v_default_append(E, st, a, I):
    vec_append(E, st, a[0], fill_sv(E, st, a[1], 0))
    return None


@dhook('^' + VE + r'::resize\(unsigned long\)', '^' + VE + r'::resize\(unsigned long, unsigned char const&\)')
def v_resize(E, st, a, I):
    v, n = a[0], a[1]
    x = E.ld(st, a[2], 8) if len(a) > 2 else 0
    length_ok(E, st, n)
    old = vec_sv(E, st, v)
    t, f = E.fork_on(st, E.dom.icmp('ugt', 64, n, old.n))
    out = []
    if t is not None:
        vec_append(E, t, v, fill_sv(E, t, sub64(E, n, old.n), x))
        out.append((t, 'ret', None))
    if f is not None:
        if old.n is not n:
            b = E.ldp(f, v)
            if b.o:
                s, c = E.off_norm(n)
                s, c = E.off_add((s, c), (b.s, b.c))
                E.stp(f, v.add(8), P(b.o, c, s))
        out.append((f, 'ret', None))
    return out


@dhook('^' + VE + r'::vector\(unsigned long, std::allocator<unsigned char> const&\)',
       '^' + VE + r'::vector\(unsigned long, unsigned char const&, std::allocator<unsigned char> const&\)')
def v_ctor_n(E, st, a, I):
    v, n = a[0], a[1]
    x = E.ld(st, a[2], 8) if len(a) > 3 else 0
    length_ok(E, st, n)
    vec_set(E, st, v, fill_sv(E, st, n, x), False)
    return None


@dhook('^' + VE + r'::vector\(' + VE + r' const&\)')
def v_ctor_copy(E, st, a, I):
    vec_set(E, st, a[0], vec_sv(E, st, a[1]), False)
    return None


@dhook('^' + VE + r'::operator=\(' + VE + r' const&\)')
def v_assign(E, st, a, I):
    if not a[0].same(a[1]):
        vec_set(E, st, a[0], vec_sv(E, st, a[1]))
    return a[0]


@dhook('^' + VE + r'::vector<.*>\((unsigned char const\*|unsigned char\*|__gnu_cxx::__normal_iterator<unsigned char(?: const)?\*, .*>|char const\*), ')
def v_ctor_range(E, st, a, I):
    v, x, y = a[0], a[1], a[2]
    n = ptr_diff(E, x, y)
    _src_check(E, st, x, n)
    vec_set(E, st, v, snap(E, st, x, n), False)
    return None


# std::equal / copy on bytes go through memcmp/memmove in libstdc++ headers

# ------------------------------------------------------------------ red-black tree internals (order only matters)
def _rb(E, st, p, o):
    return E.ldp(st, p.add(o))


@hook('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def rb_insert(E, st, a, I):
    """unbalanced insertion: same in-order sequence (balance is not observable)"""
    left, x, p, header = a
    if not isinstance(left, int):
        t, f = E.fork_on(st, left)
        out = []
        for s, v in ((t, 1), (f, 0)):
            if s is not None:
                rb_insert(E, s, [v, x, p, header], I)
                out.append((s, 'ret', None))
        return out
    E.stp(st, x.add(8), p)
    E.stp(st, x.add(16), NULL)
    E.stp(st, x.add(24), NULL)
    E.sto(st, x, 32, 0)
    if left:
        E.stp(st, p.add(16), x)
        if p.same(header):
            E.stp(st, header.add(8), x)
            E.stp(st, header.add(24), x)
        elif p.same(_rb(E, st, header, 16)):
            E.stp(st, header.add(16), x)
    else:
        E.stp(st, p.add(24), x)
        if p.same(_rb(E, st, header, 24)):
            E.stp(st, header.add(24), x)
    return None


@hook('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def rb_inc(E, st, a, I):
    x = a[0]
    r = _rb(E, st, x, 24)
    if r.o:
        x = r
        while True:
            l = _rb(E, st, x, 16)
            if not l.o:
                return x
            x = l
    y = _rb(E, st, x, 8)
    while x.same(_rb(E, st, y, 24)):
        x = y
        y = _rb(E, st, y, 8)
    if not _rb(E, st, x, 24).same(y):
        x = y
    return x


@hook('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def rb_dec(E, st, a, I):
    x, header = a[0], None
    # end(): header's parent's parent is itself and its colour is red; ours: rightmost
    par = _rb(E, st, x, 8)
    if par.o and _rb(E, st, par, 8).same(x) and _is_header(E, st, x, par):
        return _rb(E, st, x, 24)
    l = _rb(E, st, x, 16)
    if l.o:
        y = l
        while True:
            r = _rb(E, st, y, 24)
            if not r.o:
                return y
            y = r
    y = _rb(E, st, x, 8)
    while x.same(_rb(E, st, y, 16)):
        x = y
        y = _rb(E, st, y, 8)
    return y


def _is_header(E, st, x, par):
    # header: left=leftmost right=rightmost parent=root; the root's parent is the header.  A root node r has
    # parent h with h.parent == r as well, so tell them apart by the colour slot: nodes store 0, headers 0 too;
    # a node is bigger than the header object part: compare via ghost
    c = E.ld(st, x, 32)
    cp = E.ld(st, par, 32)
    # the header is the one embedded in a non node object (offset 8 of the container)
    return x.c != 0 or E.meta(st, x.o)[1] in ('stack', 'global')


@hook('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def rb_erase(E, st, a, I):
    z, h = a
    l, r, p = _rb(E, st, z, 16), _rb(E, st, z, 24), _rb(E, st, z, 8)

    def setchild(parent, old, new):
        if parent.same(h):
            E.stp(st, h.add(8), new)
        elif _rb(E, st, parent, 16).same(old):
            E.stp(st, parent.add(16), new)
        else:
            E.stp(st, parent.add(24), new)
    if l.o and r.o:
        y = r
        while _rb(E, st, y, 16).o:
            y = _rb(E, st, y, 16)
        yr = _rb(E, st, y, 24)
        if not y.same(r):
            yp = _rb(E, st, y, 8)
            E.stp(st, yp.add(16), yr)
            if yr.o:
                E.stp(st, yr.add(8), yp)
            E.stp(st, y.add(24), r)
            E.stp(st, r.add(8), y)
        E.stp(st, y.add(16), l)
        E.stp(st, l.add(8), y)
        E.stp(st, y.add(8), p)
        setchild(p, z, y)
    else:
        c = l if l.o else r
        setchild(p, z, c)
        if c.o:
            E.stp(st, c.add(8), p)

        def ext(c, side):
            x = c
            while _rb(E, st, x, side).o:
                x = _rb(E, st, x, side)
            return x
        if _rb(E, st, h, 16).same(z):
            E.stp(st, h.add(16), ext(c, 16) if c.o else p)
        if _rb(E, st, h, 24).same(z):
            E.stp(st, h.add(24), ext(c, 24) if c.o else p)
    return z


# ------------------------------------------------------------------ ctype, errno, misc libc
def _byte_arg(E, v):
    return v


@hook('isdigit')
def h_isdigit(E, st, a, I):
    c = a[0]
    if isinstance(c, int):
        return int(48 <= c <= 57)
    return E.dom.zext(b_and(E.dom.icmp('sge', 32, c, 48), E.dom.icmp('sle', 32, c, 57)), 1, 32)


@hook('isspace')
def h_isspace(E, st, a, I):
    c = a[0]
    if isinstance(c, int):
        return int(c in (32, 9, 10, 11, 12, 13))
    return E.dom.zext(b_or(E.dom.icmp('eq', 32, c, 32), b_and(E.dom.icmp('sge', 32, c, 9), E.dom.icmp('sle', 32, c, 13))), 1, 32)


def _between(E, c, lo, hi):
    return b_and(E.dom.icmp('sge', 32, c, lo), E.dom.icmp('sle', 32, c, hi))


@hook('isalnum')
def h_isalnum(E, st, a, I):
    c = a[0]
    r = b_or(_between(E, c, 48, 57), _between(E, c, 65, 90), _between(E, c, 97, 122))
    return E.dom.zext(r, 1, 32)


@hook('isxdigit')
def h_isxdigit(E, st, a, I):
    c = a[0]
    r = b_or(_between(E, c, 48, 57), _between(E, c, 65, 70), _between(E, c, 97, 102))
    return E.dom.zext(r, 1, 32)


@hook('iscntrl')
def h_iscntrl(E, st, a, I):
    c = a[0]
    r = b_or(_between(E, c, 0, 31), E.dom.icmp('eq', 32, c, 127))
    return E.dom.zext(r, 1, 32)


@hook('tolower')
def h_tolower(E, st, a, I):
    c = a[0]
    return E.dom.ite(_between(E, c, 65, 90), E.dom.bin('add', 32, c, 32), c, 32)


@hook('toupper')
def h_toupper(E, st, a, I):
    c = a[0]
    return E.dom.ite(_between(E, c, 97, 122), E.dom.bin('sub', 32, c, 32), c, 32)


@hook('pthread_mutex_lock', 'pthread_mutex_unlock')
def h_mutex(E, st, a, I):
    return 0


# ------------------------------------------------------------------ snprintf with fixed integer formats
def dec_bytes(E, st, v, w, width, pad, signed=True):
    """bytes of a decimal rendering when the number of digits is decided by the path condition; None otherwise"""
    dom = E.dom
    if isinstance(v, int):
        x = sgn(v, w) if signed else v
        s = str(abs(x))
        neg = x < 0
        if pad == '0':
            s = s.rjust(width - (1 if neg else 0), '0')
            s = ('-' if neg else '') + s
        else:
            s = (('-' if neg else '') + s).rjust(width)
        return list(s.encode())
    lo = dom.icmp('sge', w, v, 0)
    if E.decide(st, lo) != 1:
        return None
    nd = None
    for d in range(1, 11):
        if E.decide(st, dom.icmp('slt', w, v, 10 ** d) if 10 ** d < (1 << (w - 1)) else 1) == 1:
            nd = d
            break
    if nd is None:
        return None
    if nd > 1 and not (pad == '0' and nd <= width):
        # need the exact digit count
        if E.decide(st, dom.icmp('sge', w, v, 10 ** (nd - 1))) != 1:
            return None
    total = max(nd, width if pad == '0' else nd)
    out = []
    for k in range(total - 1, -1, -1):
        if k >= nd:
            out.append(48)
            continue
        q = dom.bin('udiv', w, v, 10 ** k) if k else v
        dgt = dom.bin('urem', w, q, 10) if k < nd - 1 else q
        out.append(dom.trunc(dom.bin('add', w, dgt, 48), w, 8))
    if pad != '0' and len(out) < width:
        out = [32] * (width - len(out)) + out
    return out


FMT = re.compile(r'%([-0 +#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?([diuxXcsgf%])')


def format_sv(E, st, fmt, args):
    """SV of a printf rendering; symbolic integers become digits when their size is known, else an opaque string"""
    pieces = []
    pos = 0
    ai = 0
    for m in FMT.finditer(fmt):
        pieces.append(lit(fmt[pos:m.start()].encode('latin1')))
        pos = m.end()
        fl, wd, prec, ln, cv = m.groups()
        if cv == '%':
            pieces.append(lit(b'%'))
            continue
        v = args[ai]
        ai += 1
        width = int(wd) if wd else 0
        if cv == 's':
            n = cstr_len(E, st, v)
            pieces.append(snap(E, st, v, n))
            continue
        if cv == 'c':
            t = E.alloc(st, 1, 'heap', ('uninit',), 'c')
            E.raw_store(st, t, 8, E.dom.trunc(v, 32, 8))
            pieces.append(snap(E, st, t, 1))
            continue
        if cv in 'gf':
            pieces.append(fresh_sv(E, st, 'fp', 1, 400))
            continue
        w = 64 if ln in ('l', 'll', 'z') else 32
        if cv in 'xX':
            if isinstance(v, int):
                s = ('%x' if cv == 'x' else '%X') % v
                s = s.rjust(width, '0' if '0' in fl else ' ')
                pieces.append(lit(s.encode()))
            else:
                pieces.append(fresh_sv(E, st, 'hex', max(1, width), 16))
            continue
        bs = dec_bytes(E, st, v, w, width, '0' if '0' in fl else ' ', cv in 'di')
        if bs is None:
            # opaque but functional in the value
            sv = dec_sv(E, st, v, w, cv in 'di')
            pieces.append(sv)
            continue
        t = E.alloc(st, len(bs), 'heap', ('uninit',), 'dec')
        for i, b in enumerate(bs):
            E.raw_store(st, t.add(i), 8, b)
        pieces.append(snap(E, st, t, len(bs)))
    pieces.append(lit(fmt[pos:].encode('latin1')))
    r = pieces[0]
    for p in pieces[1:]:
        r = cat(E, st, r, p)
    return r


def cstring(E, st, p):
    n = cstr_len(E, st, p)
    b = snap(E, st, p, n).concrete(E, st)
    if b is None:
        raise Unsupported('symbolic format string')
    return b


@hook('snprintf')
def h_snprintf(E, st, a, I):
    dst, n = a[0], a[1]
    fmt = cstring(E, st, a[2]).decode('latin1')
    sv = format_sv(E, st, fmt, a[3:])
    if not isinstance(n, int):
        raise Unsupported('snprintf with symbolic size')
    E.check_range(st, dst, n, 'snprintf')
    ln = sv.n
    if isinstance(ln, int):
        k = min(ln, n - 1)
        put(E, st, dst, sub_sv(E, sv, 0, k))
        put_nul(E, st, dst, k)
        return ln & mask(32)
    k = E.dom.ite(E.dom.icmp('ult', 64, ln, n), ln, n - 1, 64)
    put(E, st, dst, sub_sv(E, sv, 0, k))
    put_nul(E, st, dst, k)
    return E.dom.trunc(ln, 64, 32)


# ------------------------------------------------------------------ iostreams used for messages: opaque
@dhook(r'^std::__cxx11::basic_(o|i)?stringstream<.*>::(basic_(o|i)?stringstream|~basic_(o|i)?stringstream)\(')
def h_ss_ctor(E, st, a, I):
    return None


@dhook(r'^std::__cxx11::basic_(o|i)?stringstream<.*>::str\(\) const')
def h_ss_str(E, st, a, I):
    str_set(E, st, a[0], fresh_sv(E, st, 'ss', 0, 4096), True)
    return None


@dhook(r'^std::basic_ostream<char, std::char_traits<char>>::operator<<\(', r'^std::ostream::operator<<\(',
       r'^std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<', r'^std::basic_ostream<.*>& std::(endl|flush)<',
       r'^std::ostream& std::ostream::_M_insert<', r'^std::basic_ostream<char, std::char_traits<char>>& std::__ostream_insert<')
def h_ostream(E, st, a, I):
    return a[0]


@hook('time')
def h_time(E, st, a, I):
    if isinstance(a[0], P) and a[0].o != 0:
        raise Unsupported('time(&t)')
    return E.fresh(st, 'now', 64)


TRUST_DOC = {
    'libc': 'memcpy memmove memset memcmp strlen snprintf (integer formats) ctype',
    'libstdc++': 'std::string out-of-line mutators/searches, std::vector<unsigned char> growth, red-black tree '
                 'insertion/iteration, exception constructors, to_string',
    'runtime': 'operator new/delete (never fail), __cxa_* exception protocol, __dynamic_cast',
}
