"""Reference time expressions: exact matching, and no data is left out when they are turned into time intervals"""
from check import spec
from contract import *
from c_time import rd, mk, mkvalid, eqv, lex, F6, RNG, dim, T
from c_interval import mki, rdi, inside, isset
from _items import init, reftime_position, TY
from c_match import both
import z3

PA = 'arki::matcher::reftime::Parser::'
KINDS = ['LE', 'LT', 'GE', 'GT', 'EQ']
NONE = mask(32)


def fuzzy(c, n, name='f', ylo=1, yhi=9998):
    """the first n components of a date and time"""
    vs = []
    for i, f in enumerate(F6):
        l, h = RNG[f] if f != 'ye' else (ylo, yhi)
        vs.append(c.int('%s.%s' % (name, f), 32, lo=l, hi=h) if i < n else V(NONE, 32, c))
    if n >= 3:
        c.assume(vs[2].s <= dim(vs[0].s, vs[1].s))
    return vs


def rel(kind, t, f):
    """t stands in the relation with the period f (same number of components)"""
    return {'LE': Or(lex(t, f), eqv(t, f)), 'LT': lex(t, f), 'GE': Not(lex(t, f)), 'GT': And(Not(lex(t, f)), Not(eqv(t, f))), 'EQ': eqv(t, f)}[kind]


def mk_date(k, kind, n):
    @spec('C11', name='reftime_%s_%s' % (kind.lower(), F6[n - 1]), targets=[PA + 'create%s(arki::core::FuzzyTime*)' % kind])
    def f(c):
        """<=, <, >=, >, = with a date given to the year, month .. second: a time matches exactly when the period it falls in does"""
        vs = fuzzy(c, n)
        m = c.call('verif_dt', k, *vs, ret='p')
        c.ensure('is a valid expression', m.ok)
        p, t = mkvalid(c, 't', 1, 9999)
        want = rel(kind, t[:n], [v.s for v in vs[:n]])
        r = c.call('verif_dt_match', m.v, p, ret=1)
        c.ensure('matches exactly the times it says', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)
        r = c.call('verif_dt_match', c.call('verif_dt_clone', m.v, ret='p').v, p, ret=1)
        c.ensure('a copy matches the same', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)


for _k, _kind in enumerate(KINDS):
    for _n in range(1, 7):
        mk_date(_k, _kind, _n)


def mk_interval(k, kind, n):
    @spec('C11', name='reftime_interval_%s_%s' % (kind.lower(), F6[n - 1]), targets=[PA + 'create%s(arki::core::FuzzyTime*)' % kind])
    def f(c):
        """a time that matches is never outside of the interval the expression is turned into, and intervals that hold one match"""
        vs = fuzzy(c, n)
        m = c.call('verif_dt', k, *vs, ret='p').v
        p, t = mkvalid(c, 't', 1, 9999)
        want = rel(kind, t[:n], [v.s for v in vs[:n]])
        q, b, e = mki(c, 'i')
        r = c.call('verif_dt_match_interval', m, q, ret=1)
        c.ensure('an interval with a matching time matches', And(r.ok, Implies(And(inside(t, b, e), want), r.v.b)) if r.ok else 0)
        r = c.call('verif_dt_intersect_interval', m, q, ret=1)
        b2, e2 = rdi(c, q)
        c.ensure('a matching time of the interval is kept', And(r.ok, Implies(And(inside(t, b, e), want), And(r.v.b, inside(t, b2, e2)))) if r.ok else 0)
        c.ensure('nothing else is added', Implies(inside(t, b2, e2), inside(t, b, e)))


for _k, _kind in enumerate(KINDS):
    for _n in range(1, 7):
        mk_interval(_k, _kind, _n)


def sec(h, m, s):
    return h * 3600 + m * 60 + s


def mk_daytime(k, kind, n):
    @spec('C11', name='reftime_time_%s_%s' % (kind.lower(), F6[3 + n - 1]), targets=[PA + 'createTime%s(int const*)' % kind])
    def f(c):
        """a time of the day given to the hour, minute or second, on every day"""
        vs = [c.int('f.' + x, 32, lo=RNG[x][0], hi=RNG[x][1]) if i < n else V(NONE, 32, c) for i, x in enumerate(F6[3:])]
        m = c.call('verif_dt', k + 5, *(vs + [V(0, 32, c)] * 3), ret='p')
        c.ensure('is a valid expression', m.ok)
        p, t = mkvalid(c, 't', 1, 9999)
        want = rel(kind, t[3:3 + n], [v.s for v in vs[:n]])
        r = c.call('verif_dt_match', m.v, p, ret=1)
        c.ensure('matches exactly the times it says', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)
        r = c.call('verif_dt_match', c.call('verif_dt_clone', m.v, ret='p').v, p, ret=1)
        c.ensure('a copy matches the same', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)
        q, b, e = mki(c, 'i')
        r = c.call('verif_dt_intersect_interval', m.v, q, ret=1)
        b2, e2 = rdi(c, q)
        c.ensure('dates are not restricted', And(r.ok, r.v.b, eqv(b, b2), eqv(e, e2)) if r.ok else 0)


for _k, _kind in enumerate(KINDS):
    for _n in range(1, 4):
        mk_daytime(_k, _kind, _n)


STEPS = [(1, 3), (2, 3), (3, 3), (6, 3), (12, 3), (24, 3), (36, 3), (90, 4), (25, 3)]


@spec('C11', targets=[PA + 'createStep(int, int, int const*)'])
def reftime_step(c):
    """every N hours, minutes or seconds, from the time of the day given"""
    val, idx = STEPS[c.choice('step', len(STEPS))]
    n = c.choice('base', 4)
    base = [(7, 30, 15)[i] if i < n else NONE for i in range(3)]
    a = c.alloc(12)
    for i, x in enumerate(base):
        c.sto(a, 4 * i, 32, V(x, 32, c))
    m = c.call('verif_dt_step', V(val, 32, c), V(idx, 32, c), a, ret='p')
    c.ensure('is a valid expression', m.ok)
    rep = val * {3: 3600, 4: 60, 5: 1}[idx]
    start = sec(*[x if x != NONE else 0 for x in base])
    p, t = mkvalid(c, 't', 1, 9999)
    want = Eq(fmod(sec(*t[3:]), rep), start % rep)
    r = c.call('verif_dt_match', m.v, p, ret=1)
    c.ensure('matches exactly the times of day that are a multiple of the step away from the start', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)


@spec('C11', targets=[PA + 'createStep(int, int, int const*)'])
def reftime_step_zero(c):
    """a step that is not a positive number of hours, minutes or seconds is refused"""
    a = c.alloc(12)
    for i in range(3):
        c.sto(a, 4 * i, 32, V(0, 32, c))
    k = c.choice('what', 3)
    v = c.int('v', 32, lo=0, hi=500) if k else V(0, 32, c)
    i = V(3 + c.choice('unit', 3), 32, c) if not k else V(k - 1 if k < 2 else 2, 32, c)
    r = c.call('verif_dt_step', v, i, a, ret='p')
    c.ensure('is refused', r.threw)


def days(c, name):
    """an interval of whole days, as the names of segments give: from 00:00:00 to 23:59:59 or to 00:00:00 of a later day"""
    p = c.alloc(48, name=name)
    vs = []
    for k, b in enumerate(('begin', 'end')):
        v = [c.int('%s.%s.%s' % (name, b, f), 32, lo=RNG[f][0] if f != 'ye' else 1, hi=RNG[f][1] if f != 'ye' else 9999) for f in F6[:3]]
        c.assume(v[2].s <= dim(v[0].s, v[1].s))
        vs.append(v)
    closed = c.choice(name + '.closed', 2)
    vs[0] += [V(0, 32, c)] * 3
    vs[1] += [V(x, 32, c) for x in ([23, 59, 59] if closed else [0, 0, 0])]
    for k in range(2):
        for i in range(6):
            c.sto(p, 24 * k + 4 * i, 32, vs[k][i])
    b, e = [[x.s for x in v] for v in vs]
    c.assume(lex(b, e))
    return p, b, e


@spec('C11', native=False, targets=['arki::core::Time::duration(arki::core::Time const&, arki::core::Time const&)'])
def reftime_days_lemma(c):
    """between two midnights of different days there is a day or more: used with the contract of Time::duration (time_duration)"""
    from c_time import valid, instant
    x, y = [[z3.Int(n + f) for f in F6[:3]] + [z3.IntVal(0)] * 3 for n in 'xy']
    c.assume(And(valid(x), valid(y), x[0] >= 1, y[0] <= 9999, lex(x, y)))
    c.ensure('a day or more', instant(y) - instant(x) >= 86400)


def use_duration(c):
    """callee contract of Time::duration: proved by time_duration, with reftime_days_lemma"""
    from c_time import DUR, valid

    def h(E, st, args, I):
        x, y = [[V(E.ld(st, p.add(4 * i), 32), 32, c).s for i in range(6)] for p in args]
        E.check(st, And(valid(x), valid(y), *[And(t[0] >= -9999, t[0] <= 9999) for t in (x, y)]), 'requires', 'duration: valid times')
        v = SI(z3.Int('dur!%d' % next(E.uid)), -2**62, 2**62)
        st.pc.append(b_z3(Implies(And(lex(x, y), x[0] >= 1, y[0] <= 9999, *[Eq(t, 0) for t in x[3:] + y[3:]]), v.e >= 86400)))
        st.model = None
        return v
    c.use(DUR, h)


def mk_daytime_interval(k, kind, n):
    @spec('C11', name='reftime_days_%s_%s' % (kind.lower(), F6[3 + n - 1]), targets=[PA + 'createTime%s(int const*)' % kind])
    def f(c):
        """whole days that hold a matching time are kept"""
        vs = [c.int('f.' + x, 32, lo=RNG[x][0], hi=RNG[x][1]) if i < n else V(NONE, 32, c) for i, x in enumerate(F6[3:])]
        m = c.call('verif_dt', k + 5, *(vs + [V(0, 32, c)] * 3), ret='p').v
        use_duration(c)
        p, t = mkvalid(c, 't', 1, 9999)
        q, b, e = days(c, 'i')
        want = rel(kind, t[3:3 + n], [v.s for v in vs[:n]])
        r = c.call('verif_dt_match_interval', m, q, ret=1)
        c.ensure('an interval with a matching time matches', And(r.ok, Implies(And(Not(lex(t, b)), Not(lex(e, t)), want), r.v.b)) if r.ok else 0)


for _k, _kind in enumerate(KINDS):
    for _n in range(1, 4):
        mk_daytime_interval(_k, _kind, _n)


# ---- expressions: conjunctions of restrictions, alternatives, and the query they belong to
def restriction(c, tag):
    """any interval of dates, as all date restrictions are (reftime_interval_*)"""
    q, b, e = mki(c, tag)
    return c.call('verif_dt_interval', q, ret='p').v, b, e


def conj(c, tag, n):
    m = c.call('verif_reftime_new', ret='p').v
    bs = []
    for i in range(n):
        d, b, e = restriction(c, '%s.%d' % (tag, i))
        c.call('verif_reftime_add', m, d)
        bs.append((b, e))
    return m, bs


def holds(t, bs):
    return And(1, *[inside(t, b, e) for b, e in bs])


def mk_conj(n):
    @spec('C11', name='reftime_conjunction_%d' % n, dom='bv', targets=['arki::matcher::MatchReftime::matchItem(arki::types::Type const&) const', 'arki::matcher::MatchReftime::match_buffer(arki::types::Code, unsigned char const*, unsigned int) const'])
    def f(c):
        """an item matches exactly when its time satisfies all the restrictions; the same for its encoded form and for a copy of the expression"""
        init(c)
        m, bs = conj(c, 'm', n)
        t, f = reftime_position(c)
        tt = f
        want = holds(tt, bs)
        both(c, m, t, 5, want)
        m2 = c.call('verif_match_clone', m, ret='p').v
        r = c.call('verif_match_item', m2, t, ret=1)
        c.ensure('a copy matches the same', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)
        c.ensure('the copy can be destroyed', c.call('verif_match_destroy', m2).ok)
        c.ensure('the original can be destroyed', c.call('verif_match_destroy', m).ok)

    @spec('C11', name='reftime_conjunction_interval_%d' % n, targets=['arki::matcher::MatchReftime::intersect_interval(arki::core::Interval&) const', 'arki::matcher::MatchReftime::match_interval(arki::core::Interval const&) const'])
    def g(c):
        """a time that satisfies all the restrictions stays in the interval"""
        m, bs = conj(c, 'm', n)
        p, t = mkvalid(c, 't', 1, 9999)
        q, b, e = mki(c, 'i')
        want = And(inside(t, b, e), holds(t, bs))
        r = c.call('verif_reftime_match_interval', m, q, ret=1)
        c.ensure('an interval with a matching time matches', And(r.ok, Implies(want, r.v.b)) if r.ok else 0)
        r = c.call('verif_reftime_intersect_interval', m, q, ret=1)
        b2, e2 = rdi(c, q)
        c.ensure('a matching time of the interval is kept', And(r.ok, Implies(want, And(r.v.b, inside(t, b2, e2)))) if r.ok else 0)


for _n in range(4):
    mk_conj(_n)


def alternatives(c, shape):
    o = c.call('verif_or_new', ret='p').v
    alts = []
    for i, n in enumerate(shape):
        m, bs = conj(c, 'a%d' % i, n)
        c.call('verif_or_add', o, m)
        alts.append(bs)
    return o, alts


def mk_or(shape):
    nm = ''.join(map(str, shape)) or 'none'

    @spec('C11', name='reftime_or_%s' % nm, targets=['arki::matcher::OR::intersect_interval(arki::core::Interval&) const', 'arki::matcher::OR::match_interval(arki::core::Interval const&) const', 'arki::Matcher::intersect_interval(arki::core::Interval&) const'])
    def f(c):
        """a time that satisfies any of the alternatives stays in the interval the query is turned into"""
        a = c.call('verif_and_new', ret='p').v
        o, alts = alternatives(c, shape)
        c.call('verif_and_set', a, V(5, 32, c), o)
        m = c.call('verif_matcher', a, ret='p').v
        p, t = mkvalid(c, 't', 1, 9999)
        q, b, e = mki(c, 'i')
        want = And(inside(t, b, e), Or(*[holds(t, bs) for bs in alts]) if shape else 1)
        r = c.call('verif_matcher_match_interval', m, q, ret=1)
        c.ensure('an interval with a matching time matches', And(r.ok, Implies(want, r.v.b)) if r.ok else 0)
        r = c.call('verif_matcher_intersect_interval', m, q, ret=1)
        b2, e2 = rdi(c, q)
        c.ensure('a matching time of the interval is kept', And(r.ok, Implies(want, And(r.v.b, inside(t, b2, e2)))) if r.ok else 0)


for _s in ((), (0,), (1,), (2,), (1, 1), (1, 2), (1, 0), (1, 1, 1)):
    mk_or(_s)


@spec('C11', targets=['arki::Matcher::intersect_interval(arki::core::Interval&) const'])
def reftime_unrestricted(c):
    """a query that says nothing about the reference time leaves the interval alone"""
    k = c.choice('query', 3)
    if k:
        a = c.call('verif_and_new', ret='p').v
        if k == 2:
            o = c.call('verif_or_new', ret='p').v
            c.call('verif_or_add', o, c.call('verif_fixed', V(0, 32, c), V(0, 32, c), ret='p').v)
            c.call('verif_and_set', a, V(1, 32, c), o)
    else:
        a = 0 if c.native else P(0)
    m = c.call('verif_matcher', a, ret='p').v
    q, b, e = mki(c, 'i')
    r = c.call('verif_matcher_match_interval', m, q, ret=1)
    c.ensure('every interval matches', And(r.ok, r.v.b) if r.ok else 0)
    r = c.call('verif_matcher_intersect_interval', m, q, ret=1)
    b2, e2 = rdi(c, q)
    c.ensure('the interval is left alone', And(r.ok, r.v.b, eqv(b, b2), eqv(e, e2)) if r.ok else 0)
