"""Summary statistics: the statistics of a set of data are the union of those of its parts"""
from check import spec
from contract import *
from c_time import rd, lex, eqv, F6, valid, mkvalid
from c_interval import rdi, inside
from _items import *
import z3

SS = 'arki::summary::Stats::'


def stats(c, tag, ylo=0, yhi=9999, empty=True):
    """statistics of some data (count > 0, begin <= end), or of none"""
    p = c.alloc(64, name=tag)
    n = c.int(tag + '.count', 64, signed=False, lo=0 if empty else 1, hi=(1 << 48))
    sz = c.int(tag + '.size', 64, signed=False, lo=0, hi=(1 << 60))
    c.sto(p, 0, 64, n)
    c.sto(p, 8, 64, sz)
    ts = []
    for k, w in enumerate(('b', 'e')):
        q, t = mkvalid(c, '%s.%s' % (tag, w), ylo, yhi)
        for i in range(6):
            c.sto(p, 16 + 24 * k + 4 * i, 32, c.ld(q, 4 * i, 32))
        ts.append(t)
    c.assume(Not(lex(ts[1], ts[0])))
    return p, n.u, sz.u, ts[0], ts[1]


def rds(c, p):
    return c.ld(p, 0, 64).u, c.ld(p, 8, 64).u, rd(c, c.padd(p, 16)), rd(c, c.padd(p, 40))


def earlier(a, b):
    return lambda x: If(lex(b, a), eqv(x, b), eqv(x, a))


def later(a, b):
    return lambda x: If(lex(a, b), eqv(x, b), eqv(x, a))


@spec('C12', targets=[SS + 'merge(arki::summary::Stats const&)', SS + 'Stats()'])
def stats_merge(c):
    """counts and sizes add up, and the period is the smallest that has both"""
    p, n1, s1, b1, e1 = stats(c, 'a')
    q, n2, s2, b2, e2 = stats(c, 'b')
    r = c.call(SS + 'merge(arki::summary::Stats const&)', p, q)
    c.ensure('merges', r.ok)
    n, s, b, e = rds(c, p)
    c.ensure('counts add up', Eq(n, n1 + n2))
    c.ensure('sizes add up', Implies(n2 >= 1, Eq(s, s1 + s2)))
    c.ensure('earliest begin', Implies(And(n1 >= 1, n2 >= 1), earlier(b1, b2)(b)))
    c.ensure('latest end', Implies(And(n1 >= 1, n2 >= 1), later(e1, e2)(e)))
    c.ensure('merging the statistics of nothing changes nothing', Implies(Eq(n2, 0), And(Eq(s, s1), eqv(b, b1), eqv(e, e1))))
    c.ensure('starting from nothing, the period of the other', Implies(And(Eq(n1, 0), n2 >= 1), And(eqv(b, b2), eqv(e, e2))))
    n, s, b, e = rds(c, q)
    c.ensure('the other is unchanged', And(Eq(n, n2), Eq(s, s2), eqv(b, b2), eqv(e, e2)))


@spec('C12', dom='bv', targets=[SS + 'merge(arki::Metadata const&)', SS + 'Stats(arki::Metadata const&)'])
def stats_merge_metadata(c):
    """adding a datum: one more, its size, and its reference time is in the period; without a reference time it is an error that changes nothing"""
    init(c)
    md = c.call('verif_md_new', ret='p').v
    sz = c.int('size', 64, signed=False, lo=0, hi=1 << 60)
    c.call('verif_md_source_inline', md, sz)
    has = c.choice('reftime', 2)
    if has:
        t, f = reftime_position(c)
        c.call('verif_md_set', md, t)
    if c.choice('first', 2):
        p = c.alloc(64, name='stats')
        r = c.call('verif_stats_of', p, md)
        if not has:
            c.ensure('a datum without reference time is refused', r.threw)
            return
        c.ensure('is accepted', r.ok)
        n, s, b, e = rds(c, p)
        c.ensure('statistics of one datum', And(Eq(n, 1), Eq(s, sz.u), eqv(b, f), eqv(e, f)))
        return
    p, n1, s1, b1, e1 = stats(c, 'a')
    r = c.call(SS + 'merge(arki::Metadata const&)', p, md)
    n, s, b, e = rds(c, p)
    if not has:
        c.ensure('a datum without reference time is refused', r.threw)
        c.ensure('and nothing changes', And(Eq(n, n1), Eq(s, s1), eqv(b, b1), eqv(e, e1)))
        return
    c.ensure('is accepted', r.ok)
    c.ensure('one more datum', Eq(n, n1 + 1))
    c.ensure('its size is added', Eq(s, s1 + sz.u))
    c.ensure('the period begins with the earliest', If(Eq(n1, 0), eqv(b, f), earlier(b1, f)(b)))
    c.ensure('the period ends with the latest', If(Eq(n1, 0), eqv(e, f), later(e1, f)(e)))


@spec('C12', targets=[SS + 'make_interval() const'])
def stats_interval(c):
    """the interval of the statistics holds every time of the period and none outside"""
    p, n1, s1, b1, e1 = stats(c, 'a', 1, 9998)
    q = c.alloc(48)
    r = c.call('verif_stats_interval', p, q)
    c.ensure('gives an answer', r.ok)
    b, e = rdi(c, q)
    _, t = mkvalid(c, 't', 1, 9999)
    c.ensure('exactly the times of the period, ends included', Iff(inside(t, b, e), And(Not(lex(t, b1)), Not(lex(e1, t)))))


@spec('C12', targets=[SS + 'compare(arki::summary::Stats const&) const', SS + 'equals(arki::summary::Stats const&) const'])
def stats_compare(c):
    """equal statistics compare as equal, and no others; the order is antisymmetric"""
    p, n1, s1, b1, e1 = stats(c, 'a')
    q, n2, s2, b2, e2 = stats(c, 'b')
    same = And(Eq(n1, n2), Eq(s1, s2), eqv(b1, b2), eqv(e1, e2))
    x = c.call(SS + 'compare(arki::summary::Stats const&) const', p, q, ret=32).v.s
    y = c.call(SS + 'compare(arki::summary::Stats const&) const', q, p, ret=32).v.s
    r = c.call(SS + 'equals(arki::summary::Stats const&) const', p, q, ret=1)
    c.ensure('compare as equal exactly when equal', Iff(Eq(x, 0), same))
    c.ensure('equality', Iff(r.v.b, same))
    c.ensure('swapping the operands reverses the order', And(Iff(x < 0, y > 0), Iff(x > 0, y < 0)))


@spec('C12', targets=[SS + 'compare(arki::summary::Stats const&) const'])
def stats_compare_transitive(c):
    """the order is transitive"""
    x = [stats(c, k)[0] for k in 'abd']
    q = lambda i, j: c.call(SS + 'compare(arki::summary::Stats const&) const', x[i], x[j], ret=32).v.s
    a, b, d = q(0, 1), q(1, 2), q(0, 2)
    c.ensure('transitive', Implies(And(a <= 0, b <= 0), d <= 0))


@spec('C12', dom='bv', targets=[SS + 'encodeWithoutEnvelope(arki::core::BinaryEncoder&) const', SS + 'decode(arki::core::BinaryDecoder&)'])
def stats_roundtrip(c):
    """statistics are read back unchanged from their encoded form"""
    p, n1, s1, b1, e1 = stats(c, 'a')
    c.assume(n1 <= 0xffffffff)
    e, vec = encoder(c)
    r = c.call(SS + 'encodeWithoutEnvelope(arki::core::BinaryEncoder&) const', p, e)
    c.ensure('can be encoded', r.ok)
    q = c.alloc(64)
    c.call('verif_stats_init', q)
    r = c.call('verif_stats_decode', c.ldp(vec, 0), c.pdiff(c.ldp(vec, 8), c.ldp(vec, 0)).trunc(32), q)
    c.ensure('can be decoded', r.ok)
    n, s, b, e = rds(c, q)
    c.ensure('the same values', And(Eq(n, n1), Eq(s, s1), eqv(b, b1), eqv(e, e1)))
