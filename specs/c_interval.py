"""Time intervals: arki::core::Interval (half open, an unset bound is infinite)"""
from check import spec
from contract import *
from c_time import rd, mk, eqv, lex, F6

I = 'arki::core::Interval::'
IV = 'arki::core::Interval const&'


def mki(c, name, nonempty=True):
    """any interval: each bound set (any date) or unset"""
    p = c.alloc(48, name=name)
    vs = []
    for k, b in enumerate(('begin', 'end')):
        v = []
        for i, f in enumerate(F6):
            x = c.int('%s.%s.%s' % (name, b, f), 32, lo=-100000, hi=100000)
            c.sto(p, 24 * k + 4 * i, 32, x)
            v.append(x.s)
        vs.append(v)
    b, e = vs
    if nonempty:
        c.assume(Or(Eq(b[0], 0), Eq(e[0], 0), lex(b, e)))
    return p, b, e


def rdi(c, p):
    return rd(c, p), rd(c, c.padd(p, 24))


def isset(t):
    return Not(Eq(t[0], 0))


def inside(t, b, e):
    """the instant t belongs to [b, e)"""
    return And(Or(Not(isset(b)), Not(lex(t, b))), Or(Not(isset(e)), lex(t, e)))


def sub(b1, e1, b2, e2):
    """[b1,e1) non empty is included in [b2,e2)"""
    return And(Or(Not(isset(b2)), And(isset(b1), Not(lex(b1, b2)))), Or(Not(isset(e2)), And(isset(e1), Not(lex(e2, e1)))))


def meet(b1, e1, b2, e2):
    """two non empty intervals share an instant"""
    return And(Or(Not(isset(b1)), Not(isset(e2)), lex(b1, e2)), Or(Not(isset(b2)), Not(isset(e1)), lex(b2, e1)))


@spec('C04', targets=[I + 'contains(arki::core::Time const&) const', I + 'is_unbounded() const'])
def interval_contains_time(c):
    p, b, e = mki(c, 'i', nonempty=False)
    q, t = mk(c, 't', -100000, 100000)
    r = c.call(I + 'contains(arki::core::Time const&) const', p, q, ret=1)
    c.ensure('begin inclusive, end exclusive, unset bounds are infinite', Iff(r.v.b, inside(t, b, e)))
    r = c.call(I + 'is_unbounded() const', p, ret=1)
    c.ensure('is_unbounded', Iff(r.v.b, And(Not(isset(b)), Not(isset(e)))))


@spec('C04', targets=[I + 'contains(arki::core::Interval const&) const'])
def interval_contains_interval(c):
    p, b, e = mki(c, 'a')
    q, b2, e2 = mki(c, 'b')
    r = c.call(I + 'contains(arki::core::Interval const&) const', p, q, ret=1)
    c.ensure('inclusion', Iff(r.v.b, sub(b2, e2, b, e)))


@spec('C04', targets=[I + 'intersects(arki::core::Interval const&) const'])
def interval_intersects(c):
    p, b, e = mki(c, 'a')
    q, b2, e2 = mki(c, 'b')
    r = c.call(I + 'intersects(arki::core::Interval const&) const', p, q, ret=1)
    c.ensure('true iff the two share an instant', Iff(r.v.b, meet(b, e, b2, e2)))
    r2 = c.call(I + 'intersects(arki::core::Interval const&) const', q, p, ret=1)
    c.ensure('symmetric', Iff(r.v.b, r2.v.b))


@spec('C04', targets=[I + 'intersect(arki::core::Interval const&)'])
def interval_intersect(c):
    """pointwise: an instant is in the result iff it is in both; disjoint intervals are left alone"""
    p, b, e = mki(c, 'a')
    q, b2, e2 = mki(c, 'b')
    r = c.call(I + 'intersect(arki::core::Interval const&)', p, q, ret=1)
    b3, e3 = rdi(c, p)
    c.ensure('true iff they share an instant', Iff(r.v.b, meet(b, e, b2, e2)))
    _, t = mk(c, 't', -100000, 100000)
    c.ensure('the result holds exactly the common instants', Implies(r.v.b, Iff(inside(t, b3, e3), And(inside(t, b, e), inside(t, b2, e2)))))
    c.ensure('the result is not empty', Implies(r.v.b, Or(Not(isset(b3)), Not(isset(e3)), lex(b3, e3))))
    c.ensure('unchanged when disjoint', Implies(Not(r.v.b), And(eqv(b, b3), eqv(e, e3))))
    x, y = rdi(c, q)
    c.ensure('argument unchanged', And(eqv(x, b2), eqv(y, e2)))


@spec('C04', targets=[I + 'extend(arki::core::Interval const&)'])
def interval_extend(c):
    p, b, e = mki(c, 'a')
    q, b2, e2 = mki(c, 'b')
    c.call(I + 'extend(arki::core::Interval const&)', p, q)
    b3, e3 = rdi(c, p)
    c.ensure('contains both', And(sub(b, e, b3, e3), sub(b2, e2, b3, e3)))
    k, kb, ke = mki(c, 'k')
    c.ensure('smallest such interval', Implies(And(sub(b, e, kb, ke), sub(b2, e2, kb, ke)), sub(b3, e3, kb, ke)))


@spec('C04', targets=[I + 'spans_one_whole_month() const'])
def interval_spans_month(c):
    from c_time import mkvalid, c_normalise
    p = c.alloc(48)
    b, bv = mkvalid(c, 'begin', 1, 9999)
    e, ev = mkvalid(c, 'end', 1, 9999)
    for i in range(6):
        c.sto(p, 4 * i, 32, c.ld(b, 4 * i, 32))
        c.sto(p, 24 + 4 * i, 32, c.ld(e, 4 * i, 32))
    r = c.call(I + 'spans_one_whole_month() const', p, ret=1)
    # some month [m1, m2) is inside [b,e): the first whole month is the one starting at or after b
    y, m = bv[0], bv[1]
    first = eqv(bv[2:], [1, 0, 0, 0])
    k = m + If(first, 1, 2)             # month index where the first whole month ends
    endy, endm = y + If(k > 12, 1, 0), If(k > 12, k - 12, k)
    c.ensure('true iff a whole calendar month fits', Iff(r.v.b, Not(lex(ev, [endy, endm, 1, 0, 0, 0]))))


@spec('C04', targets=['arki::core::Interval::operator==', 'arki::core::Interval::operator!='])
def interval_eq(c):
    p, b, e = mki(c, 'a', False)
    q, b2, e2 = mki(c, 'b', False)
    r = c.call('verif_interval_eq', p, q, ret=1)
    c.ensure('equal iff same bounds', Iff(r.v.b, And(eqv(b, b2), eqv(e, e2))))
    r = c.call('verif_interval_ne', p, q, ret=1)
    c.ensure('!= is the negation', Iff(r.v.b, Not(And(eqv(b, b2), eqv(e, e2)))))


@spec('C04', targets=[I + 'iter_months(std::function<bool(arki::core::Interval const&)>) const'], weight=5)
def interval_iter_months(c):
    """the months visited partition the interval, however long: contiguous pieces, each inside one calendar month"""
    from c_time import mkvalid, valid
    p = c.alloc(48)
    b, bv = mkvalid(c, 'begin', 1, 9998)
    e, ev = mkvalid(c, 'end', 1, 9998)
    c.assume(lex(bv, ev))
    for i in range(6):
        c.sto(p, 4 * i, 32, c.ld(b, 4 * i, 32))
        c.sto(p, 24 + 4 * i, 32, c.ld(e, 4 * i, 32))
    g = c.alloc(32)

    def cand(view):
        out = [('no piece is wrong', Eq(view.ld(g, 28).u, 0))]
        last = [view.ld(g, 4 * i).s for i in range(6)]
        out.append(('last end valid', And(valid(last), last[0] >= 1, last[0] <= 9998)))
        for k, q in enumerate(view.locals(24)):
            try:
                t = [view.ld(q, 4 * i).s for i in range(6)]
            except Unsupported:
                continue
            out.append(('local %d is where the last piece ended' % k, eqv(t, last)))
            out.append(('local %d is before the end' % k, lex(t, ev)))
            out.append(('local %d is valid' % k, And(valid(t), t[0] >= 1, t[0] <= 9998)))
        return out
    c.loop(cand)
    c.call('verif_iter_months', p, g)
    c.ensure('contiguous pieces, each inside one calendar month', Eq(c.ld(g, 28, 32).u, 0))
    c.ensure('the pieces end where the interval ends', eqv(rd(c, g), ev))
