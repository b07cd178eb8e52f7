"""Sources, quantities, areas: encoding and order"""
from check import spec
from contract import *
from _items import *
from c_types import roundtrip, clone_same, ENC, DEC
from c_order import pair, trans

FMT = '_ZN4arki12format_namesB5cxx11E'
SRC = TY + 'source::'


def start(c):
    init(c)
    c.static_init(FMT)


def fmt(c, tag, one=False):
    """any format, or one of them"""
    if one:
        return V(1, 32, c)
    return c.int(tag + 'format', 32, signed=False, lo=1, hi=6) if tag else pick(c, 'format', range(1, 7), 32)


def inline(c, tag=''):
    f, n = fmt(c, tag), c.int(tag + 'size', 64, signed=False)
    return c.call('verif_source_inline', f, n, ret='p').v, f, n


def url(c, tag='', n=20, exact=False):
    f, s = fmt(c, tag, not tag), mkstr(c, tag + 'url', n, exact)
    return c.call('verif_source_url', f, s, ret='p').v, f, s


def blob(c, tag='', n=20, exact=False, slash=False):
    f, s = fmt(c, tag, not tag), mkstr(c, tag + 'name', n, exact)
    b = mkstr(c, tag + 'base', 1, True)
    o, z = c.int(tag + 'offset', 64, signed=False), c.int(tag + 'size', 64, signed=False)
    return c.call('verif_source_blob', f, b, s, o, z, ret='p').v, f, s, o, z


def style(c, t, f, sty):
    c.ensure('format', Eq(c.call('verif_source_format', t, ret=32).v.u, f.u))
    c.ensure('style', Eq(c.call('verif_source_style', t, ret=32).v.u, sty))


DS = TY + 'Source::decodeRelative(arki::core::BinaryDecoder&, std::filesystem::__cxx11::path const&)'


@spec('C05', dom='bv', targets=[SRC + 'Inline::encodeWithoutEnvelope(arki::core::BinaryEncoder&) const', DS])
def source_inline_roundtrip(c):
    """format and size survive"""
    start(c)
    t, f, n = inline(c)
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is not None:
            style(c, x, f, 3)
            c.ensure('size', Eq(c.call('verif_source_inline_size', x, ret=64).v.u, n.u))
    clone_same(c, t)


@spec('C05', dom='bv', targets=[SRC + 'URL::encodeWithoutEnvelope(arki::core::BinaryEncoder&) const', DS])
def source_url_roundtrip(c):
    """format and address survive"""
    start(c)
    t, f, s = url(c)
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is not None:
            style(c, x, f, 2)
            c.ensure('address', c.bytes_eq(c.str(c.call('verif_source_url_url', x, ret='p').v), c.str(s)))
    clone_same(c, t)


@spec('C05', dom='bv', targets=[SRC + 'Blob::encodeWithoutEnvelope(arki::core::BinaryEncoder&) const', DS])
def source_blob_roundtrip(c):
    """format, file name, offset and size survive"""
    start(c)
    t, f, s, o, z = blob(c, n=12)
    # the encoding of integers of any length is C01's
    c.assume((z if c.choice('which', 2) else o).u <= 127)
    e, vec = encoder(c)
    r = c.call(ENC, t, e)
    c.ensure('the item can be encoded', r.ok)
    d, b = vecdec(c, vec)
    p = sret(c, 8)
    r = c.call(DEC, p, d)
    c.ensure('the encoded item can be decoded', r.ok)
    if r.threw:
        return
    c.ensure('decoding consumes the whole encoding', Eq(drest(c, d).u, 0))
    for x in (t, c.ldp(p, 0)):
        style(c, x, f, 1)
        c.ensure('file name', c.bytes_eq(c.str(c.call('verif_source_blob_name', x, ret='p').v), c.str(s)))
        c.ensure('offset', Eq(c.call('verif_source_blob_offset', x, ret=64).v.u, o.u))
        c.ensure('size', Eq(c.call('verif_source_blob_size', x, ret=64).v.u, z.u))


def name(c, tag, n):
    """a source by its kind, with short names without directories"""
    k = c.choice(tag + 'kind', 3)
    if k == 0:
        return inline(c, tag)[0]
    if k == 1:
        return url(c, tag, pick_len(c, tag, n), True)[0]
    n = pick_len(c, tag, n)
    t, f, s, o, z = blob(c, tag, n, True)
    for i in range(n):
        c.assume(Not(Eq(c.str(s).byte(i), 47)))
    return t


CMP = [SRC + x + '::compare_local(arki::types::Source const&) const' for x in ('Inline', 'URL', 'Blob')]
EQS = [SRC + x + '::equals(arki::types::Type const&) const' for x in ('Inline', 'URL', 'Blob')]


@spec('C06', dom='bv', targets=CMP + EQS)
def source_compare(c):
    """antisymmetric and consistent with equality, for every two sources"""
    start(c)
    pair(c, name(c, 'a_', 2), name(c, 'b_', 2))


@spec('C06', dom='bv', targets=CMP, weight=3)
def source_compare_transitive(c):
    """transitive, for every three sources"""
    start(c)
    trans(c, *[name(c, k, 1) for k in ('a_', 'b_', 'd_')])


def quantity(c, tag, n, ln):
    null = 0 if c.native else P(0)
    s = [mkstr(c, '%s%d' % (tag, i), l, True) for i, l in enumerate(ln[:n])]
    return c.call('verif_quantity', *(s + [null] * (3 - n)), ret='p').v, s


QT = TY + 'Quantity::'
for _n in range(4):
    def _f(n):
        @spec('C05', name='quantity_roundtrip_%d' % n, dom='bv', targets=[QT + 'create(std::set<std::string, std::less<std::string>, std::allocator<std::string > > const&)', QT + 'get() const'])
        def f(c):
            """the set of names survives"""
            init(c)
            t, s = quantity(c, 'q', n, [3, 2, 1])
            t2, b = roundtrip(c, t)
            for x in (t, t2):
                if x is None:
                    continue
                out = c.alloc(32 * 3)
                o = [c.conststr(b'') for i in range(3)]
                arr = c.call('verif_strings', ret='p').v
                r = c.call('verif_quantity_get', x, arr, ret=32)
                c.ensure('can be read', r.ok)
                m = c.concrete(r.v, 3)
                got = [c.str(c.padd(arr, 32 * i)) for i in range(m)]
                want = [c.str(x) for x in s]
                for a in want:
                    c.ensure('every name is there', Or(0, *[c.bytes_eq(a, b) for b in got]))
                for a in got:
                    c.ensure('and no others', Or(0, *[c.bytes_eq(a, b) for b in want]))
    _f(_n)


@spec('C06', dom='bv', targets=[QT + 'compare(arki::types::Type const&) const'])
def quantity_compare(c):
    """antisymmetric and consistent with equality, for sets of up to two names of one or two bytes"""
    init(c)
    x = []
    for k in 'ab':
        n = c.choice(k + 'n', 3)
        x.append(quantity(c, k, n, [1 + c.choice(k + 'l', 2) if n else 1, 1])[0])
    pair(c, *x)


@spec('C06', dom='bv', targets=[QT + 'compare(arki::types::Type const&) const'])
def quantity_compare_transitive(c):
    """transitive, for sets of up to two names of one byte"""
    init(c)
    trans(c, *[quantity(c, k, c.choice(k + 'n', 3), [1, 1])[0] for k in 'abd'])


def vm2(c, tag):
    i = c.int(tag + 'id', 32, signed=False)
    return c.call('verif_make_area_vm2', i, ret='p').v, i


@spec('C06', dom='bv', targets=[TY + 'area::VM2::compare_local(arki::types::area::VM2 const&) const', TY + 'area::VM2::equals(arki::types::Type const&) const'])
def area_vm2_compare(c):
    """antisymmetric and consistent with equality, for every two stations"""
    init(c)
    pair(c, vm2(c, 'a')[0], vm2(c, 'b')[0])


@spec('C06', dom='bv', targets=[TY + 'area::VM2::compare_local(arki::types::area::VM2 const&) const'])
def area_vm2_compare_transitive(c):
    """transitive, for every three stations"""
    init(c)
    trans(c, *[vm2(c, k)[0] for k in 'abd'])


@spec('C05', dom='bv', targets=[TY + 'area::VM2::encodeWithoutEnvelope(arki::core::BinaryEncoder&) const', TY + 'Area::get_VM2() const'])
def area_vm2_roundtrip(c):
    """the station survives"""
    init(c)
    t, i = vm2(c, 'a')
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is not None:
            c.ensure('station', Eq(c.call('verif_area_vm2_id', x, ret=32).v.u, i.u))
