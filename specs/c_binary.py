"""Binary codec: arki::core::BinaryEncoder / BinaryDecoder"""
from check import spec
from contract import *

BE = 'arki::core::BinaryEncoder::'
BD = 'arki::core::BinaryDecoder::'
UT = {16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}


def encoder(c):
    v = c.alloc(24, name='dest')
    e = c.alloc(8, name='enc')
    c.stp(e, 0, v)
    return e, v


def decoder(c, p, n):
    d = c.alloc(16, name='dec')
    c.stp(d, 0, p)
    c.sto(d, 8, 64, n)
    return d


def vecdec(c, v):
    """decoder over the contents of a vector"""
    b = c.vec(v)
    p = c.ldp(v, 0)
    return decoder(c, p, c.pdiff(c.ldp(v, 8), p)), b


def what(c):
    return c.cbytes(b'item\0')


def drest(c, d):
    return c.ld(d, 8, 64)


def add_varint(w):
    return 'void %sadd_varint<%s>(%s)' % (BE, UT[w], UT[w])


def pop_varint(w):
    return '%s %spop_varint<%s, char const*>(char const*)' % (UT[w], BD, UT[w])


def dec_varint(w):
    return 'unsigned long %sdecode_varint<%s>(unsigned char const*, unsigned int, %s&)' % (BD, UT[w], UT[w])


def mk_varint(w):
    @spec('C01', name='varint_roundtrip_u%d' % w, dom='bv', targets=[add_varint(w), pop_varint(w), dec_varint(w)], ub=True)
    def f(c):
        """add_varint writes base-128 groups, least significant first; pop_varint inverts it and consumes exactly it"""
        v = c.int('v', w, signed=False)
        e, vec = encoder(c)
        c.call(add_varint(w), e, v)
        b = c.vec(vec)
        n = (w + 6) // 7
        c.ensure('length is minimal', And([Iff(b.n > k, v.u >= (1 << (7 * k))) for k in range(1, n)]))
        c.ensure('at most %d bytes, at least one' % n, And(b.n >= 1, b.n <= n))
        d, _ = vecdec(c, vec)
        r = c.call(pop_varint(w), d, what(c), ret=w)
        c.ensure('decodes without error', r.ok)
        c.ensure('decoded value equals the encoded one', Eq(r.v.u, v.u) if r.ok else 0)
        c.ensure('the whole encoding is consumed', Eq(drest(c, d).u, 0))

    @spec('C01', name='varint_concat_u%d' % w, dom='bv', targets=[add_varint(w), pop_varint(w), BE + 'add_byte(unsigned char)', 'unsigned char %spop_byte<char const*>(char const*)' % BD])
    def g(c):
        """two values and a byte encoded one after the other decode in the same order (self-delimiting)"""
        v = c.int('v', w, signed=False)
        u = c.int('u', 8, signed=False)
        z = c.int('z', w, signed=False, hi=300)
        e, vec = encoder(c)
        c.call(add_varint(w), e, v)
        c.call(BE + 'add_byte(unsigned char)', e, u)
        c.call(add_varint(w), e, z)
        d, _ = vecdec(c, vec)
        r = c.call(pop_varint(w), d, what(c), ret=w)
        c.ensure('first value', Eq(r.v.u, v.u) if r.ok else 0)
        r = c.call('unsigned char %spop_byte<char const*>(char const*)' % BD, d, what(c), ret=8)
        c.ensure('byte', Eq(r.v.u, u.u) if r.ok else 0)
        r = c.call(pop_varint(w), d, what(c), ret=w)
        c.ensure('last value', Eq(r.v.u, z.u) if r.ok else 0)
        c.ensure('nothing is left', Eq(drest(c, d).u, 0))


for _w in (16, 32, 64):
    mk_varint(_w)


def mk_unsigned(w):
    add = 'void %sadd_unsigned<%s>(%s, unsigned int)' % (BE, UT[w], UT[w])
    pop32 = 'unsigned int %spop_uint<char const*>(unsigned int, char const*)' % BD
    pop64 = 'unsigned long %spop_ulint<char const*>(unsigned int, char const*)' % BD

    @spec('C01', name='unsigned_roundtrip_u%d' % w, dom='bv', targets=[add, pop32, pop64])
    def f(c):
        """n bytes big endian; both readers recover any value that fits in n bytes"""
        n = c.choice('n', w // 8) + 1
        v = c.int('v', w, signed=False)
        e, vec = encoder(c)
        c.call(add, e, v, n)
        b = c.vec(vec)
        c.ensure('exactly n bytes', Eq(b.n, n))
        for i in range(n):
            c.ensure('big endian byte', Eq(b.byte(i), low8(c, v, n - 1 - i)))
        small = v.u < (1 << (8 * n))
        if n <= 4:
            d, _ = vecdec(c, vec)
            r = c.call(pop32, d, n, what(c), ret=32)
            c.ensure('pop_uint inverts (value fits in n bytes)', And(r.ok, Implies(small, Eq(r.v.u, v.u)), Eq(drest(c, d).u, 0)) if r.ok else 0)
        d, _ = vecdec(c, vec)
        r = c.call(pop64, d, n, what(c), ret=64)
        c.ensure('pop_ulint inverts (value fits in n bytes)', And(Implies(small, Eq(r.v.u, v.u)), Eq(drest(c, d).u, 0)) if r.ok else 0)


def low8(c, v, k):
    """byte k (0 = least significant) of an unsigned machine integer"""
    if c.native or isinstance(v.u, int):
        return (v.u >> (8 * k)) & 255
    return z3.ZeroExt(WIDE - 8, z3.Extract(8 * k + 7, 8 * k, v.u))


for _w in (32, 64):
    mk_unsigned(_w)


@spec('C01', dom='bv', targets=[BE + 'set_signed(unsigned char*, int, unsigned int)', BD + 'decode_sint(unsigned char const*, unsigned int)',
                                'int %spop_sint<char const*>(unsigned int, char const*)' % BD])
def signed_roundtrip(c):
    """n bytes two's complement big endian: exactly inverse for every value representable in n bytes"""
    n = c.choice('n', 4) + 1
    lo, hi = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
    v = c.int('v', 32, lo=lo, hi=hi)
    buf = c.alloc(n)
    c.call(BE + 'set_signed(unsigned char*, int, unsigned int)', buf, v, n)
    r = c.call(BD + 'decode_sint(unsigned char const*, unsigned int)', buf, n, ret=32)
    c.ensure('decode_sint inverts set_signed', Eq(r.v.s, v.s))
    d = decoder(c, buf, n)
    r = c.call('int %spop_sint<char const*>(unsigned int, char const*)' % BD, d, n, what(c), ret=32)
    c.ensure('pop_sint inverts set_signed', And(Eq(r.v.s, v.s), Eq(drest(c, d).u, 0)) if r.ok else 0)


for _w in (8, 16, 32):
    def mk(w):
        t = {8: 'unsigned char', 16: 'unsigned short', 32: 'unsigned int'}[w]
        fn = 'void %sset_unsigned<%s>(unsigned char*, %s, unsigned int)' % (BE, t, t)

        @spec('C01', name='set_unsigned_roundtrip_u%d' % w, dom='bv', targets=[fn, BD + 'decode_uint(unsigned char const*, unsigned int)'])
        def f(c):
            n = c.choice('n', w // 8) + 1
            v = c.int('v', w, signed=False, hi=(1 << (8 * n)) - 1)
            buf = c.alloc(n)
            c.call(fn, buf, v, n)
            r = c.call(BD + 'decode_uint(unsigned char const*, unsigned int)', buf, n, ret=32)
            c.ensure('decode_uint inverts set_unsigned', Eq(r.v.u, v.u))
    mk(_w)


@spec('C01', dom='bv', targets=[BE + 'add_raw(unsigned char const*, unsigned long)', BD + 'pop_string[abi:cxx11](unsigned long, char const*)',
                                BD + 'pop_data(unsigned long, char const*)', BE + 'add_raw(string const&)', BE + 'add_raw(bytes const&)'])
def raw_roundtrip(c):
    """raw bytes are copied verbatim and popped verbatim, whatever they contain and however long they are"""
    p, n = c.bytes('data', 0, 4000)
    e, vec = encoder(c)
    c.call(BE + 'add_raw(unsigned char const*, unsigned long)', e, p, n)
    b = c.vec(vec)
    src = c.mem(p, n)
    c.ensure('copied verbatim', c.bytes_eq(b, src))
    d, _ = vecdec(c, vec)
    s = c.alloc(32, zero=False)
    r = c.call(BD + 'pop_string[abi:cxx11](unsigned long, char const*)', s, d, n, what(c))
    c.ensure('pop_string succeeds', r.ok)
    if r.ok:
        c.ensure('pop_string returns the same bytes', c.bytes_eq(c.str(s), src))
        c.ensure('consumed', Eq(drest(c, d).u, 0))


@spec('C01', dom='bv', targets=[BE + 'add_signed(int, unsigned int)'])
def add_signed_bytes(c):
    """add_signed appends exactly n bytes, two's complement big endian"""
    n = c.choice('n', 4) + 1
    v = c.int('v', 32, lo=-(1 << (8 * n - 1)), hi=(1 << (8 * n - 1)) - 1)
    e, vec = encoder(c)
    c.call('verif_add_signed', e, v, n)
    b = c.vec(vec)
    c.ensure('n bytes', Eq(b.n, n))
    d, _ = vecdec(c, vec)
    r = c.call('int %spop_sint<char const*>(unsigned int, char const*)' % BD, d, n, what(c), ret=32)
    c.ensure('pop_sint inverts it', And(Eq(r.v.s, v.s), Eq(drest(c, d).u, 0)) if r.ok else 0)


for _w, _n in ((32, 'float'), (64, 'double')):
    def mkfp(w, n):
        @spec('C01', name='%s_roundtrip' % n, dom='bv', targets=[BE + 'add_%s(%s)' % (n, n)])
        def f(c):
            """floating point numbers keep their representation, NaN payloads and signed zeros included"""
            v = c.int('v', w, signed=False)
            e, vec = encoder(c)
            c.call('verif_add_' + n, e, v)
            c.ensure('as many bytes as the number has', Eq(c.vec(vec).n, w // 8))
            d, _ = vecdec(c, vec)
            r = c.call('verif_pop_' + n, d, ret=w)
            c.ensure('read back unchanged', And(Eq(r.v.u, v.u), Eq(drest(c, d).u, 0)) if r.ok else 0)
            if w == 64:
                buf = c.alloc(8)
                c.call('verif_set_double', buf, v)
                d = decoder(c, buf, 8)
                r = c.call('verif_pop_double', d, ret=w)
                c.ensure('set_double is read back unchanged', And(Eq(r.v.u, v.u), Eq(drest(c, d).u, 0)) if r.ok else 0)
    mkfp(_w, _n)


@spec('C01', dom='bv', targets=[BE + 'add_string(char const*)'])
def add_cstring(c):
    """the bytes of a C string without its terminator"""
    n = c.choice('n', 7)
    p = c.bytes('text', n, n)[0]
    q = c.alloc(n + 1)
    for i in range(n):
        x = c.ld(p, i, 8)
        c.assume(Not(Eq(x.u, 0)))
        c.sto(q, i, 8, x)
    e, vec = encoder(c)
    c.call('verif_add_cstring', e, q)
    c.ensure('the same bytes', c.bytes_eq(c.vec(vec), c.mem(q, n)))


# ------------------------------------------------------------------ C02: decoders stay inside their buffer
def mk_safe(name, sig, ret, maxb=24, args=(), dom='bv', **kw):
    @spec('C02', name=name, dom=dom, targets=[sig], ub=True, **kw)
    def f(c):
        """any buffer content and length: throws or returns, reads stay inside, what is left is a suffix of the input"""
        p, n = c.bytes('data', 0, maxb)
        d = decoder(c, p, n)
        r = c.call(sig, d, *[a(c) for a in args], ret=ret)
        left = drest(c, d)
        c.ensure('the rest is a suffix of the buffer', And(left.u <= n.u, Eq(c.pdiff(c.ldp(d, 0), p).s + left.s, n.s)))
        c.cover('returns' if r.ok else 'throws')


for _w in (16, 32, 64):
    mk_safe('pop_varint_u%d_safe' % _w, pop_varint(_w), _w, args=[what])
mk_safe('pop_byte_safe', 'unsigned char %spop_byte<char const*>(char const*)' % BD, 8, args=[what])
mk_safe('pop_double_safe', 'double %spop_double<char const*>(char const*)' % BD, 'raw', args=[what])
for _n in range(1, 5):
    mk_safe('pop_uint%d_safe' % _n, 'unsigned int %spop_uint<char const*>(unsigned int, char const*)' % BD, 32, args=[lambda c, n=_n: n, what])
    mk_safe('pop_sint%d_safe' % _n, 'int %spop_sint<char const*>(unsigned int, char const*)' % BD, 32, args=[lambda c, n=_n: n, what])
for _n in range(1, 9):
    mk_safe('pop_ulint%d_safe' % _n, 'unsigned long %spop_ulint<char const*>(unsigned int, char const*)' % BD, 64, args=[lambda c, n=_n: n, what])


mk_safe('skip_safe', 'void %sskip<char const*>(unsigned long, char const*)' % BD, None, args=[lambda c: c.int('k', 64, signed=False), what])
mk_safe('pop_data_safe', BD + 'pop_data(unsigned long, char const*)', None, args=[lambda c: c.int('k', 64, signed=False), what])


def sret(c, size):
    return c.alloc(size, zero=False, name='ret')


@spec('C02', dom='bv', targets=[BD + 'pop_string[abi:cxx11](unsigned long, char const*)'])
def pop_string_safe(c):
    p, n = c.bytes('data', 0, 100)
    k = c.int('k', 64, signed=False)
    d = decoder(c, p, n)
    s = sret(c, 32)
    r = c.call(BD + 'pop_string[abi:cxx11](unsigned long, char const*)', s, d, k, what(c))
    if r.threw:
        c.ensure('rejects only what does not fit', k.u > n.u)
        return
    c.ensure('returns the requested bytes', And(k.u <= n.u, c.bytes_eq(c.str(s), c.mem(p, k))))
    c.ensure('the rest is the suffix', And(Eq(drest(c, d).u, n.u - k.u), Eq(c.pdiff(c.ldp(d, 0), p).s, k.s)))


@spec('C02', dom='bv', targets=[BD + 'pop_type_envelope(arki::TypeCode&)'], ub=True)
def pop_type_envelope_safe(c):
    """the inner decoder and the rest are inside the buffer, for any bytes"""
    p, n = c.bytes('data', 0, 60)
    d = decoder(c, p, n)
    code = c.alloc(4)
    r = c.call(BD + 'pop_type_envelope(arki::TypeCode&)', d, code, ret='raw')
    left = drest(c, d)
    c.ensure('the rest is a suffix of the buffer', And(left.u <= n.u, Eq(c.pdiff(c.ldp(d, 0), p).s + left.s, n.s)))
    c.cover('returns' if r.ok else 'throws')


@spec('C02', dom='bv', targets=[BD + 'pop_metadata_bundle(string&, unsigned int&)'], ub=True)
def pop_metadata_bundle_safe(c):
    """signature, version, length: the body handed out never extends past the buffer"""
    p, n = c.bytes('data', 0, 60)
    d = decoder(c, p, n)
    sig = c.conststr(b'')
    ver = c.alloc(4)
    r = c.call(BD + 'pop_metadata_bundle(string&, unsigned int&)', d, sig, ver, ret='raw')
    left = drest(c, d)
    c.ensure('the rest is a suffix of the buffer', And(left.u <= n.u, Eq(c.pdiff(c.ldp(d, 0), p).s + left.s, n.s)))
    if r.ok:
        s = c.str(sig)
        b = c.mem(p, 8)
        c.ensure('signature: the first two bytes', And(Eq(s.n, 2), Eq(s.byte(0), b.byte(0)), Eq(s.byte(1), b.byte(1))))
        c.ensure('version: big endian', Eq(c.ld(ver, 0, 32).u, b.byte(2) * 256 + b.byte(3)))
        ln = ((b.byte(4) * 256 + b.byte(5)) * 256 + b.byte(6)) * 256 + b.byte(7)
        c.ensure('consumes header and body', Eq(left.u, n.u - 8 - ln))


def sub(name, post, maxb=60, **kw):
    """readers that hand out a part of the buffer: it is inside what was there to read"""
    @spec('C02', name=name, dom='bv', ub=True, **kw)
    def f(c):
        p, n = c.bytes('data', 0, maxb)
        d = decoder(c, p, n)
        o = c.alloc(16)
        r = post[0](c, o, d)
        left = drest(c, d)
        c.ensure('the rest is a suffix of the buffer', And(left.u <= n.u, Eq(c.pdiff(c.ldp(d, 0), p).s + left.s, n.s)))
        if r.ok:
            sz = c.ld(o, 8, 64)
            at = c.pdiff(c.ldp(o, 0), p)
            c.ensure('the part handed out ends where the rest begins', And(at.s >= 0, sz.u <= n.u, Eq(at.s + sz.s, n.s - left.s)))
            post[1](c, p, n, at, sz, r)
        else:
            post[2](c, p, n)


def _data(c, o, d):
    return c.call('verif_pop_data', o, d, c.int('k', 64, signed=False))


sub('pop_data_part', (_data, lambda c, p, n, at, sz, r: c.ensure('the bytes asked for', And(Eq(at.s, 0), Eq(sz.u, c.int('k', 64, signed=False).u))),
                            lambda c, p, n: c.ensure('rejects only what does not fit', c.int('k', 64, signed=False).u > n.u)),
    targets=[BD + 'pop_data(unsigned long, char const*)'])


def _bundle(c, p, n, at, sz, r):
    b = c.mem(p, 8)
    c.ensure('the body follows the header and is as long as it says', And(Eq(at.s, 8), Eq(sz.u, ((b.byte(4) * 256 + b.byte(5)) * 256 + b.byte(6)) * 256 + b.byte(7))))


def _nobundle(c, p, n):
    if c.split(n.u < 8):
        return
    b = c.mem(p, 8)
    c.ensure('rejects only truncated bundles', ((b.byte(4) * 256 + b.byte(5)) * 256 + b.byte(6)) * 256 + b.byte(7) > n.u - 8)


sub('pop_metadata_bundle_part', (lambda c, o, d: c.call('verif_pop_bundle', o, d, c.conststr(b''), ret=32), _bundle, _nobundle),
    targets=[BD + 'pop_metadata_bundle(string&, unsigned int&)'])


def _env(c, p, n, at, sz, r):
    # one byte code and one byte size: the common case stated exactly
    if c.split(And(n.u >= 2, c.ld(p, 0, 8).u < 128)) and c.split(c.ld(p, 1, 8).u < 128):
        c.ensure('code, size and body', And(Eq(r.v.u, c.ld(p, 0, 8).u), Eq(sz.u, c.ld(p, 1, 8).u), Eq(at.s, 2)))


sub('pop_type_envelope_part', (lambda c, o, d: c.call('verif_pop_envelope', o, d, ret=32), _env, lambda c, p, n: None), maxb=40,
    targets=[BD + 'pop_type_envelope(arki::TypeCode&)'])


@spec('C02', dom='bv', ub=True, targets=[BD + 'pop_data_copy(unsigned long, char const*)'])
def pop_data_copy_safe(c):
    p, n = c.bytes('data', 0, 40)
    k = c.int('k', 64, signed=False)
    d = decoder(c, p, n)
    v = c.alloc(24)
    r = c.call('verif_pop_data_copy', v, d, k)
    if r.threw:
        c.ensure('rejects only what does not fit', k.u > n.u)
        return
    c.ensure('returns the requested bytes', And(k.u <= n.u, c.bytes_eq(c.vec(v), c.mem(p, k))))
    c.ensure('the rest is the suffix', And(Eq(drest(c, d).u, n.u - k.u), Eq(c.pdiff(c.ldp(d, 0), p).s, k.s)))


def mk_line(n):
    @spec('C02', name='pop_line_%d' % n, dom='bv', ub=True, targets=[BD + 'pop_line[abi:cxx11](char)'])
    def f(c):
        """up to the first separator, which is consumed; all of it when there is none (buffers of enumerated length)"""
        p, _ = c.bytes('data', n, n)
        sep = c.int('sep', 8, signed=False)
        d = decoder(c, p, n)
        s = c.conststr(b'')
        r = c.call('verif_pop_line', s, d, V(sep.raw, 32, c) if isinstance(sep.raw, int) else V(c.dom.zext(sep.raw, 8, 32), 32, c))
        c.ensure('succeeds', r.ok)
        if r.threw:
            return
        got = c.str(s)
        hit = [Eq(c.ld(p, i, 8).u, sep.u) for i in range(n)]
        for k in range(n + 1):
            first = And(1, *[Not(h) for h in hit[:k]])
            if k < n:
                first = And(first, hit[k])
            used = min(k + 1, n)
            if c.split(first):
                c.ensure('the line', And(Eq(got.n, k), c.bytes_eq(got, c.mem(p, k))))
                c.ensure('what is left starts after the separator', And(Eq(drest(c, d).u, n - used), Eq(c.pdiff(c.ldp(d, 0), p).s, used) if n else 1))
                return


for _n in range(5):
    mk_line(_n)


def mk_leading(n):
    @spec('C02', name='skip_leading_%d' % n, dom='bv', ub=True, targets=[BD + 'skip_leading(unsigned char)'])
    def f(c):
        """the bytes equal to the one given are skipped, no further"""
        p, _ = c.bytes('data', n, n)
        v = c.int('v', 8, signed=False)
        d = decoder(c, p, n)
        c.call('verif_skip_leading', d, V(v.raw, 32, c) if isinstance(v.raw, int) else V(c.dom.zext(v.raw, 8, 32), 32, c))
        left = drest(c, d)
        for k in range(n + 1):
            first = And(1, *[Eq(c.ld(p, i, 8).u, v.u) for i in range(k)])
            if k < n:
                first = And(first, Not(Eq(c.ld(p, k, 8).u, v.u)))
            c.ensure('skips %d' % k, Implies(first, And(Eq(left.u, n - k), Eq(c.pdiff(c.ldp(d, 0), p).s, k) if n else 1)))


for _n in range(5):
    mk_leading(_n)
