"""key=value lists (areas, product definitions): codec, order, subset matching"""
from check import spec
from contract import *
from _items import *

VS = 'arki::types::values::'


@spec(['C01', 'C05'], dom='bv', targets=[VS + 'encode_int(arki::core::BinaryEncoder&, int)', VS + 'decode_int(arki::core::BinaryDecoder&, unsigned char)'])
def values_int_roundtrip(c):
    """every 32 bit integer of a key=value list is read back unchanged, consuming exactly its encoding of at most 5 bytes"""
    v = c.int('v', 32)
    e, vec = encoder(c)
    r = c.call(VS + 'encode_int(arki::core::BinaryEncoder&, int)', e, v)
    c.ensure('can be encoded', r.ok)
    b = c.vec(vec)
    c.ensure('small values take one byte', Iff(And(v.s >= -32, v.s < 31), Eq(b.n, 1)))
    c.ensure('at most five bytes', b.n <= 5)
    d, _ = vecdec(c, vec)
    l = c.call('unsigned char arki::core::BinaryDecoder::pop_byte<char const*>(char const*)', d, what(c), ret=8)
    c.ensure('has a lead byte', l.ok)
    r = c.call(VS + 'decode_int(arki::core::BinaryDecoder&, unsigned char)', d, l.v, ret=32)
    c.ensure('can be decoded', r.ok)
    if r.ok:
        c.ensure('decodes to the same value', Eq(r.v.s, v.s))
        c.ensure('consumes the whole encoding', Eq(drest(c, d).u, 0))


@spec('C02', dom='bv', targets=[VS + 'decode_int(arki::core::BinaryDecoder&, unsigned char)'])
def values_int_any(c):
    """any lead byte and any bytes: an error or a value, within the buffer"""
    p, n = c.bytes('data', 0, 12)
    d = decoder(c, p, n)
    r = c.call(VS + 'decode_int(arki::core::BinaryDecoder&, unsigned char)', d, c.int('lead', 8, signed=False), ret=32)
    if r.ok:
        c.ensure('never more than the buffer is consumed', drest(c, d).u <= n.u)
        c.cover('decoded')


def build(c, tag, n, kinds=None, keylen=1, maxstr=1, small=False):
    """a bag of n symbolic entries: (builder, [(key bytes, kind, value)])"""
    b = c.call('verif_vb_builder', ret='p').v
    es = []
    for i in range(n):
        k = c.string('%sk%d' % (tag, i), keylen if isinstance(keylen, int) else keylen[0] + c.choice('%sk%dl' % (tag, i), keylen[1] - keylen[0] + 1))
        kind = c.choice('%st%d' % (tag, i), 2) if kinds is None else kinds[i]
        if kind == 0:
            v = c.int('%sv%d' % (tag, i), 32)
            if small:
                c.assume(And(v.s >= -32, v.s < 31))
            r = c.call('verif_vb_add_int', b, k, v)
        else:
            v = c.string('%sv%d' % (tag, i), maxstr)
            r = c.call('verif_vb_add_str', b, k, v)
        c.ensure('can be added', r.ok)
        es.append((k, kind, v))
    return b, es


def bag(c, tag, n, **kw):
    b, es = build(c, tag, n, **kw)
    r = c.call('verif_vb_build', b, ret='p')
    c.ensure('can be built', r.ok)
    return r.v, es


def key(c, e):
    s = c.str(e[0])
    return [s.byte(i) for i in range(s.n)]


def val_eq(c, a, b):
    if a[1] != b[1]:
        return 0
    if a[1] == 0:
        return Eq(a[2].s, b[2].s)
    return c.bytes_eq(c.str(a[2]), c.str(b[2]))


def mk_any(n, tier):
    @spec(['C02', 'C07'], name='valuebag_any_%d' % n, dom='bv', tier=tier, weight=n, targets=['arki::types::ValueBag::encode(arki::core::BinaryEncoder&) const', VS + 'EncodedValue::decode(arki::core::BinaryDecoder&)'])
    def f(c):
        """a key=value list of any bytes: an error, or it encodes to the same bytes and equals itself"""
        p, l = c.bytes('data', 0, n)
        v = c.call('verif_vb_of', p, l.trunc(32), ret='p').v
        e, vec = encoder(c)
        r = c.call('verif_vb_encode', v, e)
        if r.threw:
            c.cover('rejected')
            return
        c.cover('accepted')
        c.ensure('encodes to the bytes it was read from', c.bytes_eq(c.vec(vec), c.mem(p, l)))
        r = c.call('verif_vb_compare', v, v, ret=32)
        c.ensure('compares equal to itself', Eq(r.v.s, 0) if r.ok else 0)
        r = c.call('verif_vb_equals', v, v, ret=1)
        c.ensure('equals itself', r.v.b if r.ok else 0)


mk_any(5, 'quick')
mk_any(7, 'thorough')


def enc_int(c, v):
    """expected encoding of an int that fits one byte"""
    return v


@spec('C05', dom='bv', targets=[VS + 'Values::set(std::unique_ptr<arki::types::values::Value, std::default_delete<arki::types::values::Value>>)', VS + 'ValueBagBuilder::build() const'])
def valuebag_builder(c):
    """entries end up sorted by key, the last value of a repeated key wins"""
    b, es = bag(c, '', 2, kinds=[0, 0], keylen=1)
    for e in es:
        c.assume(And(e[2].s >= 0, e[2].s < 31))
    k0, k1 = key(c, es[0])[0], key(c, es[1])[0]
    e, vec = encoder(c)
    c.call('verif_vb_encode', b, e)
    s = c.vec(vec)
    v0, v1 = es[0][2].u, es[1][2].u
    if c.split(Eq(k0, k1)):
        c.ensure('one entry', Eq(s.n, 3))
        c.ensure('the last value', And(Eq(s.byte(0), 1), Eq(s.byte(1), k1), Eq(s.byte(2), v1)))
    else:
        c.ensure('two entries', Eq(s.n, 6))
        f = k0 < k1
        c.ensure('sorted by key', And(Eq(s.byte(1), If(f, k0, k1)), Eq(s.byte(2), If(f, v0, v1)), Eq(s.byte(4), If(f, k1, k0)), Eq(s.byte(5), If(f, v1, v0))))


def mk_cmp(n, m, tr):
    @spec('C06', name='valuebag_compare_%d_%d' % (n, m), dom='bv', targets=['arki::types::ValueBag::compare(arki::types::ValueBag const&) const'], weight=n + m, tier='thorough' if n + m > 3 else 'quick')
    def f(c):
        """antisymmetric and consistent with equality"""
        a, _ = bag(c, 'a_', n, small=n + m > 2)
        b, _ = bag(c, 'b_', m, small=n + m > 2)
        x = c.call('verif_vb_compare', a, b, ret=32).v.s
        y = c.call('verif_vb_compare', b, a, ret=32).v.s
        e = c.call('verif_vb_equals', a, b, ret=1).v.b
        c.ensure('swapping the operands reverses the order', And(Iff(x < 0, y > 0), Iff(x > 0, y < 0)))
        c.ensure('zero exactly on equal lists', Iff(e, Eq(x, 0)))


for _n, _m in ((0, 1), (1, 1), (1, 2), (2, 2)):
    mk_cmp(_n, _m, False)


@spec('C06', tier='thorough', dom='bv', targets=['arki::types::ValueBag::compare(arki::types::ValueBag const&) const'])
def valuebag_compare_transitive(c):
    """transitive over lists of zero or one entries"""
    x = [bag(c, p, c.choice(p + 'n', 2), small=True)[0] for p in ('a_', 'b_', 'd_')]
    q = lambda i, j: c.call('verif_vb_compare', x[i], x[j], ret=32).v.s
    a, b, d = q(0, 1), q(1, 2), q(0, 2)
    c.ensure('transitive', Implies(And(a <= 0, b <= 0), d <= 0))


def mk_subset(n, m, prop, sfx='', opts={}, tier='quick', **kw):
    @spec(prop, name='valuebag_subset%s_%d_of_%d' % (sfx, n, m), dom='bv', opts=opts, tier=tier, targets=['arki::types::ValueBagMatcher::is_subset(arki::types::ValueBag const&) const'], weight=n + m)
    def f(c):
        """a list matches exactly when it has every wanted key with the wanted value"""
        w, we = build(c, 'w_', n, small=n + m > 2, **kw)
        mt = c.call('verif_vb_matcher', w, ret='p').v
        b, be = bag(c, 'b_', m, small=n + m > 2, **kw)
        r = c.call('verif_vb_is_subset', mt, b, ret=1)
        c.ensure('gives an answer', r.ok)
        # the last occurrence of a key counts
        def live(es, i):
            return And(*[Not(c.bytes_eq(c.str(es[i][0]), c.str(es[j][0]))) for j in range(i + 1, len(es))])
        want = And(*[Implies(live(we, i), Or(*[And(live(be, j), c.bytes_eq(c.str(we[i][0]), c.str(be[j][0])), val_eq(c, we[i], be[j])) for j in range(m)])) for i in range(n)])
        c.ensure('matches exactly when every wanted key is there with the wanted value', Iff(r.v.b, want))
        c.cover('done')


for _n, _m in ((0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)):
    mk_subset(_n, _m, 'C08')


# keys of different lengths: the order of the keys is not the order of their lengths
for _n, _m in ((1, 1), (1, 2), (2, 1), (2, 2)):
    mk_subset(_n, _m, 'C08', '_keys', keylen=(1, 2), kinds=[0] * 3)
for _n, _m in ((1, 3), (2, 3), (3, 2), (3, 3)):
    mk_subset(_n, _m, 'C08', '_more', kinds=[0] * 3, tier='quick' if _n + _m < 6 else 'thorough')
