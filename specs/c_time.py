"""Calendar arithmetic: arki::core::Time"""
from check import spec
from contract import *
import z3

T = 'arki::core::Time::'
TB = 'arki::core::TimeBase::'
F6 = ['ye', 'mo', 'da', 'ho', 'mi', 'se']
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


# ---- the mathematical calendar (proleptic Gregorian): the spec functions every contract refers to
def leap(y):
    return Or(And(Eq(fmod(y, 4), 0), Not(Eq(fmod(y, 100), 0))), Eq(fmod(y, 400), 0))


def dim(y, m):
    """days in month m of year y"""
    return If(Eq(m, 2), If(leap(y), 29, 28), If(Or(Eq(m, 4), Eq(m, 6), Eq(m, 9), Eq(m, 11)), 30, 31))


def ydays(y):
    """days from year 0 to the start of year y"""
    z = y - 1
    return 365 * y + fdiv(z, 4) - fdiv(z, 100) + fdiv(z, 400)


def cum(y, m0):
    """days before the 0-based month m0 (0..11) of year y"""
    r = CUM[11] + If(leap(y), 1, 0)
    for i in range(10, -1, -1):
        r = If(Eq(m0, i), CUM[i] + (If(leap(y), 1, 0) if i >= 2 else 0), r)
    return r


def dayno(y, m0, d0):
    """day number of a possibly unnormalised (year, month-1, day-1)"""
    yy = y + fdiv(m0, 12)
    return ydays(yy) + cum(yy, fmod(m0, 12)) + d0


def instant(v):
    y, mo, da, ho, mi, se = v
    return dayno(y, mo - 1, da - 1) * 86400 + ho * 3600 + mi * 60 + se


# The same calendar as ghost functions defined by their recurrences, for the proofs about loops over months and years:
#   days_before_month(12 y + m + 1) = days_before_month(12 y + m) + dim(y, m + 1)   (0 <= m <= 11)
#   days_before_year(y + 1) = days_before_year(y) + 365 or 366
# (only differences matter, so the day they count from is left open).  calendar_definitions proves that the closed forms above satisfy them.
DBM = z3.Function('days_before_month', z3.IntSort(), z3.IntSort())
DBY = z3.Function('days_before_year', z3.IntSort(), z3.IntSort())


def ghost(c, f, x):
    if c.native:
        return dayno(x // 12, x % 12, 0) if f is DBM else ydays(x)
    return f(x if isinstance(x, z3.ExprRef) else z3.IntVal(x))


def instant_m(c, v):
    """instant(), with the months counted by their definition"""
    y, mo, da, ho, mi, se = v
    return (ghost(c, DBM, 12 * y + mo - 1) + da - 1) * 86400 + ho * 3600 + mi * 60 + se


def instant_y(c, v):
    """instant(), with the years counted by their definition"""
    y, mo, da, ho, mi, se = v
    return (ghost(c, DBY, y) + cum(y, mo - 1) + da - 1) * 86400 + ho * 3600 + mi * 60 + se


@spec('C03', native=False, targets=[T + 'days_in_month(int, int)'])
def calendar_definitions(c):
    """the closed forms of the spec satisfy the definition of the calendar: nth month, nth year"""
    y = z3.Int('y')
    m = z3.Int('m')
    c.assume(z3.And(m >= 0, m <= 11))
    c.ensure('a month later: the days of that month', Eq(dayno(y + If(Eq(m, 11), 1, 0), If(Eq(m, 11), 0, m + 1), 0), dayno(y, m, 0) + dim(y, m + 1)))
    c.ensure('a year later: 365 or 366 days', Eq(ydays(y + 1), ydays(y) + If(leap(y), 366, 365)))


def valid(v):
    y, mo, da, ho, mi, se = v
    return And(mo >= 1, mo <= 12, da >= 1, da <= dim(y, mo), ho >= 0, ho <= 23, mi >= 0, mi <= 59, se >= 0, se <= 59)


def lex(a, b):
    """a < b lexicographically"""
    r = 0
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(Eq(x, y), r))
    return r


def eqv(a, b):
    return And([Eq(u, v) for u, v in zip(a, b)])


# ---- symbolic times
def rd(c, p):
    return [c.ld(p, 4 * i, 32).s for i in range(6)]


def mk(c, name, lo=-1000000, hi=1000000, ylo=None, yhi=None):
    p = c.alloc(24, name=name)
    vs = []
    for i, f in enumerate(F6):
        l, h = (lo, hi) if f != 'ye' or ylo is None else (ylo, yhi)
        v = c.int('%s.%s' % (name, f), 32, lo=l, hi=h)
        c.sto(p, 4 * i, 32, v)
        vs.append(v.s)
    return p, vs


RNG = {'ye': (-9999, 99999), 'mo': (1, 12), 'da': (1, 31), 'ho': (0, 23), 'mi': (0, 59), 'se': (0, 59)}


def mkvalid(c, name, ylo=1, yhi=9999, assume=True):
    p = c.alloc(24, name=name)
    vs = []
    for i, f in enumerate(F6):
        l, h = RNG[f] if f != 'ye' else (ylo, yhi)
        v = c.int('%s.%s' % (name, f), 32, lo=l, hi=h)
        c.sto(p, 4 * i, 32, v)
        vs.append(v.s)
    if assume:
        c.assume(vs[2] <= dim(vs[0], vs[1]))
    return p, vs


# ---- contracts
@spec('C03', targets=[T + 'days_in_month(int, int)'])
def time_days_in_month(c):
    y = c.int('y')
    m = c.int('m')
    r = c.call(T + 'days_in_month(int, int)', y, m, ret=32)
    if r.threw:
        c.ensure('throws only for an invalid month', Or(m.s < 1, m.s > 12))
        return
    c.ensure('accepts only valid months', And(m.s >= 1, m.s <= 12))
    c.ensure('Gregorian days of the month', Eq(r.v.s, dim(y.s, m.s)))


@spec('C03', targets=[T + 'days_in_year(int)'])
def time_days_in_year(c):
    y = c.int('y')
    r = c.call(T + 'days_in_year(int)', y, ret=32)
    c.ensure('Gregorian days of the year', Eq(r.v.s, If(leap(y.s), 366, 365)))


@spec('C03', targets=[TB + 'compare(arki::core::TimeBase const&) const'])
def time_compare(c):
    a, x = mk(c, 'a')
    b, y = mk(c, 'b')
    r = c.call(TB + 'compare(arki::core::TimeBase const&) const', a, b, ret=32)
    c.ensure('negative iff lexicographically before', Iff(r.v.s < 0, lex(x, y)))
    c.ensure('zero iff equal fields', Iff(Eq(r.v.s, 0), eqv(x, y)))


@spec('C03', targets=[TB + 'operator==(arki::core::TimeBase const&) const', TB + 'operator!=(arki::core::TimeBase const&) const'])
def time_eq(c):
    a, x = mk(c, 'a', -2**31, 2**31 - 1)
    b, y = mk(c, 'b', -2**31, 2**31 - 1)
    r = c.call(TB + 'operator==(arki::core::TimeBase const&) const', a, b, ret=1)
    c.ensure('== iff all fields are equal', Iff(r.v.b, eqv(x, y)))
    r = c.call(TB + 'operator!=(arki::core::TimeBase const&) const', a, b, ret=1)
    c.ensure('!= is the negation', Iff(r.v.b, Not(eqv(x, y))))


def norm_inv(c, p, v0):
    """candidate loop invariants for the carries of normalise(): about the six fields only"""
    tot1 = instant_m(c, v0)

    def cand(view):
        y, mo, da, ho, mi, se = [view.ld(p, 4 * i, 32).s for i in range(6)]
        t0 = (DBM(12 * y + mo) + da) * 86400 + ho * 3600 + mi * 60 + se
        t1 = (DBM(12 * y + mo - 1) + da - 1) * 86400 + ho * 3600 + mi * 60 + se
        for m in (mo - 1, mo, mo + 1):
            view.fact(Implies(And(m >= 0, m <= 11), Eq(DBM(12 * y + m + 1), DBM(12 * y + m) + dim(y, m + 1))))
        return [('instant preserved (0-based fields)', Eq(t0, tot1)),
                ('instant preserved (1-based fields)', Eq(t1, tot1)),
                ('seconds in range', And(se >= 0, se <= 59)), ('minutes in range', And(mi >= 0, mi <= 59)),
                ('hours in range', And(ho >= 0, ho <= 23)),
                ('days not negative', da >= 0), ('days positive', da >= 1),
                ('month 0..11', And(mo >= 0, mo <= 11)), ('month 0..12', And(mo >= 0, mo <= 12)), ('month 1..12', And(mo >= 1, mo <= 12)),
                ('month bounded', And(mo >= -2000000, mo <= 2000000)),
                ('month bounded 1', And(mo >= v0[1] - 100, mo <= v0[1] + 100)),
                ('days at most 31', da <= 31),
                ('days bounded', And(da >= -3000000, da <= 3000000)),
                ('days bounded below', da >= -3000000),
                ('year bounded', And(y >= -10000000, y <= 10000000))] + [
                ('%d days a month: %s %d' % (n, o, L), And(da + n * (12 * y + mo) >= -L) if o == 'from' else And(da + n * (12 * y + mo) <= L))
                for n in (28, 31) for o in ('from', 'to') for L in (50000000, 60000000, 70000000)]
    return cand


NRM = T + 'normalise()'


@spec('C03', targets=[NRM], weight=20, opts=dict(trial_unroll=0))
def time_normalise(c):
    """any field values up to +-100000 (year within +-99999): same instant, all fields in their calendar range"""
    p, v = mk(c, 't', -100000, 100000)
    c.loop(norm_inv(c, p, v))
    r = c.call(NRM, p)
    c.ensure('does not throw', r.ok)
    w = rd(c, p)
    c.ensure('denotes the same instant', Eq(instant_m(c, v), instant_m(c, w)))
    c.ensure('fields in calendar range', valid(w))


def c_normalise(c):
    """callee contract of normalise(), proved by time_normalise"""
    def h(E, st, args, I):
        p = args[0]
        old = [V(E.ld(st, p.add(4 * i), 32), 32, c).s for i in range(6)]
        E.check(st, And([And(x >= -100000, x <= 100000) for x in old]), 'requires', 'normalise: fields within +-100000')
        new = []
        for i, f in enumerate(F6):
            l, h_ = RNG[f] if f != 'ye' else (-200000, 200000)
            v = SI(z3.Int('norm!%d' % next(E.uid)), l, h_)
            st.pc.append(z3.And(v.e >= l, v.e <= h_))
            E.sto(st, p.add(4 * i), 32, v)
            new.append(v.e)
        st.pc.append(b_z3(valid(new)))
        st.pc.append(b_z3(Eq(instant(new), instant(old))))
        st.pc.append(b_z3(Implies(valid(old), eqv(new, old))))
        st.model = None
        return None
    c.use(NRM, h)


@spec('C03', native=False, targets=[NRM])
def calendar_order(c):
    """the instants of valid times are in the order of their fields: a valid time is the only one of its instant (used with time_normalise)"""
    x, y = [[z3.Int(n + f) for f in F6] for n in 'xy']
    c.assume(And(valid(x), valid(y), lex(x, y), *[And(t[0] >= -200000, t[0] <= 200000) for t in (x, y)]))
    c.ensure('later fields, later instant', instant(y) > instant(x))


@spec('C03', targets=[T + 'next_instant() const', T + 'prev_instant() const'])
def time_next_prev_instant(c):
    c_normalise(c)
    p, v = mkvalid(c, 't', -9999, 9999)
    for fn, d in ((T + 'next_instant() const', 1), (T + 'prev_instant() const', -1)):
        q = c.alloc(24)
        r = c.call(fn, q, p)
        w = rd(c, q)
        c.ensure('one second later/earlier', Eq(instant(w), instant(v) + d))
        c.ensure('valid', valid(w))
    c.ensure('receiver unchanged', eqv(rd(c, p), v))


def lower_args(c, lo=-100000, hi=100000):
    """components with the documented -1 = unset convention: once one is unset the following ones are unset too"""
    n = c.choice('nset', 6)           # month..second set up to n
    y = c.int('y', lo=1, hi=9999)
    vals = [y]
    for i, f in enumerate(F6[1:]):
        if i < n:
            vals.append(c.int(f, lo=RNG[f][0], hi=RNG[f][1]))
        else:
            vals.append(V(mask(32), 32, c))
    if n >= 2:
        c.assume(vals[2].s <= dim(vals[0].s, vals[1].s))
    return n, vals


DEF = [0, 1, 1, 0, 0, 0]


@spec('C03', targets=[T + 'set_lowerbound(int, int, int, int, int, int)', T + 'set_upperbound(int, int, int, int, int, int)'], weight=5)
def time_bounds(c):
    """[lowerbound, upperbound] is exactly the period named by the components that are set"""
    c_normalise(c)
    n, a = lower_args(c)
    p = c.alloc(24)
    c.call(T + 'set_lowerbound(int, int, int, int, int, int)', p, *a)
    lo = rd(c, p)
    want = [a[i].s if i <= n else DEF[i] for i in range(6)]
    c.ensure('lower bound: first instant of the period', eqv(lo, want))
    q = c.alloc(24)
    c.call(T + 'set_upperbound(int, int, int, int, int, int)', q, *a)
    up = rd(c, q)
    nxt = list(want)
    nxt[n] = nxt[n] + 1
    c.ensure('upper bound: the second before the next period starts', Eq(instant(up), instant(nxt) - 1))
    c.ensure('upper bound is valid', valid(up))


@spec('C03', targets=[T + 'create_lowerbound(int, int, int, int, int, int)', T + 'create_upperbound(int, int, int, int, int, int)'], weight=5)
def time_create_bounds(c):
    c_normalise(c)
    n, a = lower_args(c)
    p, q = c.alloc(24), c.alloc(24)
    p2, q2 = c.alloc(24), c.alloc(24)
    c.call(T + 'create_lowerbound(int, int, int, int, int, int)', p, *a)
    c.call(T + 'create_upperbound(int, int, int, int, int, int)', q, *a)
    want = [a[i].s if i <= n else DEF[i] for i in range(6)]
    c.ensure('create_lowerbound: first instant of the period', eqv(rd(c, p), want))
    nxt = list(want)
    nxt[n] = nxt[n] + 1
    c.ensure('create_upperbound: last second of the period', And(Eq(instant(rd(c, q)), instant(nxt) - 1), valid(rd(c, q))))


@spec('C03', targets=[T + x + '() const' for x in ('start_of_month', 'start_of_next_month', 'start_of_previous_month', 'end_of_month', 'is_start_of_month')])
def time_months(c):
    p, v = mkvalid(c, 't', -9999, 99999)
    y, mo = v[0], v[1]
    q = c.alloc(24)
    c.call(T + 'start_of_month() const', q, p)
    c.ensure('start_of_month', eqv(rd(c, q), [y, mo, 1, 0, 0, 0]))
    q = c.alloc(24)
    c.call(T + 'start_of_next_month() const', q, p)
    c.ensure('start_of_next_month', eqv(rd(c, q), [If(Eq(mo, 12), y + 1, y), If(Eq(mo, 12), 1, mo + 1), 1, 0, 0, 0]))
    q = c.alloc(24)
    c.call(T + 'start_of_previous_month() const', q, p)
    c.ensure('start_of_previous_month', eqv(rd(c, q), [If(Eq(mo, 1), y - 1, y), If(Eq(mo, 1), 12, mo - 1), 1, 0, 0, 0]))
    q = c.alloc(24)
    r = c.call(T + 'end_of_month() const', q, p)
    c.ensure('end_of_month', And(r.ok, eqv(rd(c, q), [y, mo, dim(y, mo), 23, 59, 59])) if r.ok else 0)
    r = c.call(T + 'is_start_of_month() const', p, ret=1)
    c.ensure('is_start_of_month', Iff(r.v.b, eqv(v[2:], [1, 0, 0, 0])))
    c.ensure('receiver unchanged', eqv(rd(c, p), v))


DUR = T + 'duration(arki::core::Time const&, arki::core::Time const&)'


@spec('C03', targets=[DUR], weight=10, opts=dict(trial_secs=4))
def time_duration(c):
    """duration is the difference of the instants, for all valid times of years -9999..9999, in any order"""
    a, x = mkvalid(c, 'a', -9999, 9999)
    b, y = mkvalid(c, 'b', -9999, 9999)

    def cand(view):
        out = []
        for e, v in view.ints(32):
            for k in (e.s, v.s, v.s - 1):
                view.fact(Eq(ghost(c, DBY, k + 1), ghost(c, DBY, k) + If(leap(k), 366, 365)))
        i32 = view.ints(32)
        i64 = view.ints(64)
        for k, (e, v) in enumerate(i32):
            out.append(('i32#%d from its start' % k, v.s >= e.s))
            for nm, t in (('a', x), ('b', y)):
                out.append(('i32#%d <= year of %s' % (k, nm), v.s <= t[0]))
            out.append(('i32#%d year range' % k, And(v.s >= -10000, v.s <= 10000)))
            for j, (e2, v2) in enumerate(i64):
                out.append(('i64#%d is at most 366 days a year for i32#%d' % (j, k), And(v2.s >= e2.s, v2.s - e2.s <= 366 * 86400 * (v.s - e.s))))
                out.append(('i64#%d sums the years up to i32#%d' % (j, k), Eq(v2.s, e2.s + 86400 * (ghost(c, DBY, v.s) - ghost(c, DBY, e.s)))))
        return out
    c.loop(cand)
    r = c.call(DUR, a, b, ret=64)
    c.ensure('difference of the instants', Eq(r.v.s, instant_y(c, y) - instant_y(c, x)))


RO = T + 'range_overlaps(arki::core::Time const*, arki::core::Time const*, arki::core::Time const*, arki::core::Time const*)'


@spec('C03', targets=[RO])
def time_range_overlaps(c):
    """half-open ranges, null = unbounded: true iff some instant lies in both (closed ranges are taken non-empty)"""
    ps, vs = [], []
    for i in range(4):
        isn = c.choice('null%d' % i, 2)
        if isn:
            ps.append(0 if c.native else P(0))
            vs.append(None)
        else:
            p, v = mk(c, 't%d' % i)
            ps.append(p)
            vs.append(v)
    s1, e1, s2, e2 = vs
    for s, e in ((s1, e1), (s2, e2)):
        if s is not None and e is not None:
            c.assume(lex(s, e))
    r = c.call(RO, *ps, ret=1)
    c.ensure('overlap', Iff(r.v.b, And(1 if s1 is None or e2 is None else lex(s1, e2), 1 if s2 is None or e1 is None else lex(s2, e1))))


@spec('C03', targets=[TB + 'set_easter(int)'])
def time_easter(c):
    """Easter Sunday: a Sunday between 22 March and 25 April"""
    y = c.int('y', lo=1583, hi=99999)
    p = c.alloc(24)
    c.call(TB + 'set_easter(int)', p, y)
    v = rd(c, p)
    c.ensure('within 22 March..25 April of the year', And(Eq(v[0], y.s), valid(v), Or(And(Eq(v[1], 3), v[2] >= 22), And(Eq(v[1], 4), v[2] <= 25)), eqv(v[3:], [0, 0, 0])))
