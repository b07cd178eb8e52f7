"""Metadata items: compare() is a total order consistent with equals()"""
from check import spec
from contract import *
from _items import *


def cmp(c, a, b):
    r = c.call('verif_compare', a, b, ret=32)
    c.ensure('items of the same type can be compared', r.ok)
    return r.v.s if r.ok else None


def eq(c, a, b):
    r = c.call('verif_equals', a, b, ret=1)
    c.ensure('items of the same type can be tested for equality', r.ok)
    return r.v.b if r.ok else None


def sgn3(x):
    return If(x < 0, -1, If(x > 0, 1, 0))


def pair(c, a, b, iff=True):
    ab, ba, e = cmp(c, a, b), cmp(c, b, a), eq(c, a, b)
    if ab is None or ba is None or e is None:
        return
    c.ensure('swapping the operands reverses the order', And(Iff(ab < 0, ba > 0), Iff(ab > 0, ba < 0)))
    c.ensure('equal items compare as equal', Implies(e, Eq(ab, 0)))
    if iff:
        c.ensure('items that compare as equal are equal', Implies(Eq(ab, 0), e))
    e2 = eq(c, b, a)
    c.ensure('equality is symmetric', Iff(e, e2))


def trans(c, x, y, z):
    a, b, d = cmp(c, x, y), cmp(c, y, z), cmp(c, x, z)
    if a is None or b is None or d is None:
        return
    c.ensure('the order is transitive', Implies(And(a <= 0, b <= 0), d <= 0))


def mk(name, maker, dom='bv', iff=True, tr=True, **kw):
    tg = kw.pop('targets', [])
    ttier = kw.pop('ttier', kw.get('tier', 'quick'))

    @spec('C06', name=name + '_compare', dom=dom, targets=tg, **kw)
    def f(c):
        """antisymmetric and consistent with equality, for every two items"""
        init(c)
        a = maker(c, 'a_')
        b = maker(c, 'b_')
        if a is None or b is None:
            return
        pair(c, a, b, iff)

    if tr:
        @spec('C06', name=name + '_compare_transitive', dom=dom, targets=tg, **dict(kw, tier=ttier))
        def g(c):
            """transitive, for every three items"""
            init(c)
            x = [maker(c, p) for p in ('a_', 'b_', 'd_')]
            if any(y is None for y in x):
                return
            trans(c, *x)


for _k in sorted(SIMPLE):
    if _k == ('Level', 'GRIB2D'):
        continue
    mk('%s_%s' % (_k[0].lower(), _k[1].lower()), (lambda c, p, k=_k: simple(c, k[0], k[1], p, symbolic=True)[0]), targets=[TY + _k[0] + '::compare(arki::types::Type const&) const'],
       ttier='thorough' if _k in (('Timerange', 'GRIB1'), ('Timerange', 'BUFR')) else 'quick', weight=5)


def grib2d(c, p, small):
    t, exp, g = simple(c, 'Level', 'GRIB2D', p)
    if small:
        for i in (2, 5):
            c.assume(Or(exp[i] <= 127, Eq(exp[i], 0xffffffff)))
    return t


LVC = [TY + 'Level::compare(arki::types::Type const&) const']
mk('level_grib2d', lambda c, p: grib2d(c, p, True), targets=LVC, weight=5)
mk('level_grib2d_all', lambda c, p: grib2d(c, p, False), targets=LVC, weight=9, tr=False, tier='thorough')
mk('timerange_grib2', lambda c, p: timerange_grib2(c, p)[0], targets=[TY + 'timerange::GRIB2::compare_local(arki::types::timerange::GRIB2 const&) const'])

TDT = [TY + 'timerange::Timedef::compare_local(arki::types::timerange::Timedef const&) const', TY + 'timerange::Timedef::equals(arki::types::Type const&) const']
ALLU = TD_SEC + TD_MON + [255]


def td(c, p, units, stat, lo=0):
    """the step part alone, or the statistical processing part alone"""
    u = pick(c, p + 'unit', units, 32)
    n = c.int(p + 'len', 32, signed=False, lo=lo)
    if not stat:
        return make(c, TD2, n, u)
    return make(c, TD5, 0, 255, c.int(p + 'stat', 8, signed=False), n, u)


for _s in (0, 1):
    mk(('timedef_step', 'timedef_stat')[_s], lambda c, p, s=_s: td(c, p, ALLU, s), targets=TDT, tr=False, weight=9, tier='thorough')
    mk(('timedef_step', 'timedef_stat')[_s] + '_few_units', lambda c, p, s=_s: td(c, p, [0, 13, 3, 255], s), targets=TDT, weight=9, tr=False)
    mk(('timedef_step', 'timedef_stat')[_s] + '_large', lambda c, p, s=_s: td(c, p, [0, 13, 3, 255], s, 1 << 28), targets=TDT, weight=9)

mk('level_odimh5', lambda c, p: level_odimh5(c, p)[0], targets=LVC, weight=5)
mk('run_minute', lambda c, p: run_minute(c, p)[0])
mk('reftime', lambda c, p: reftime_position(c, p)[0])


def short(c, p, f, k, n=2):
    """strings of enumerated lengths (the k-th may be 0..n bytes, the others one byte): bounded, byte values unrestricted"""
    return f(c, p, k, n)


for _t, _n in ((task, 'task'), (value, 'value')):
    mk(_n, lambda c, p, t=_t: t(c, p, 6)[0], weight=8, ttier='thorough')
    mk(_n + '_short', lambda c, p, t=_t: t(c, p, pick_len(c, p, 2), exact=True)[0])
for _t, _n, _k in ((note, 'note', 1), (origin_odimh5, 'origin_odimh5', 3), (product_odimh5, 'product_odimh5', 2), (assigneddataset, 'assigneddataset', 2)):
    for _i in range(_k):
        mk(_n + '_short%d' % _i, lambda c, p, t=_t, k=_k, i=_i: t(c, p, [pick_len(c, p, 2) if j == i else 1 for j in range(k)], exact=True)[0], weight=4)
mk('note', lambda c, p: note(c, p, 4)[0], weight=9, tier='thorough')


@spec('C06', dom='bv')
def reftime_chronological(c):
    """reference times sort chronologically"""
    init(c)
    a, f = reftime_position(c, 'a_')
    b, g = reftime_position(c, 'b_')
    r = cmp(c, a, b)
    c.ensure('earlier iff it compares less', Iff(r < 0, tup_lt(f, g)))


@spec('C06', dom='bv')
def mixed_types_compare(c):
    """items of different types order by type code; they are never equal"""
    init(c)
    mk = [lambda p: simple(c, 'Origin', 'GRIB1', p)[0], lambda p: simple(c, 'Product', 'VM2', p)[0], lambda p: simple(c, 'Level', 'GRIB2S', p)[0],
          lambda p: timerange_grib2(c, p)[0], lambda p: run_minute(c, p)[0], lambda p: reftime_position(c, p)[0], lambda p: task(c, p, 4)[0], lambda p: value(c, p, 4)[0],
          lambda p: note(c, p, 4)[0], lambda p: assigneddataset(c, p, 4)[0]]
    i = c.choice('i', len(mk))
    j = c.choice('j', len(mk))
    a, b = mk[i]('a_'), mk[j]('b_')
    if i == j or a is None or b is None:
        return
    r, e = cmp(c, a, b), eq(c, a, b)
    ca = c.call('verif_type_code', a, ret=32).v.u
    cb = c.call('verif_type_code', b, ret=32).v.u
    c.ensure('different types have different codes', Not(Eq(ca, cb)))
    c.ensure('the order is the order of the type codes', And(Iff(r < 0, ca < cb), Iff(r > 0, ca > cb)))
    c.ensure('never equal', Not(e))


@spec('C06', dom='bv')
def mixed_styles_compare(c):
    """items of the same type and different style order by style; they are never equal"""
    init(c)
    groups = [[lambda p: simple(c, 'Origin', 'GRIB1', p)[0], lambda p: simple(c, 'Origin', 'GRIB2', p)[0], lambda p: simple(c, 'Origin', 'BUFR', p)[0]],
              [lambda p: simple(c, 'Product', 'GRIB1', p)[0], lambda p: simple(c, 'Product', 'GRIB2', p)[0], lambda p: simple(c, 'Product', 'VM2', p)[0]],
              [lambda p: simple(c, 'Level', 'GRIB1', p)[0], lambda p: simple(c, 'Level', 'GRIB2S', p)[0], lambda p: simple(c, 'Level', 'GRIB2D', p)[0], lambda p: level_odimh5(c, p)[0]],
              [lambda p: simple(c, 'Timerange', 'GRIB1', p, symbolic=True)[0], lambda p: timerange_grib2(c, p)[0], lambda p: simple(c, 'Timerange', 'BUFR', p, symbolic=True)[0], lambda p: timedef(c, p, False)[0]]]
    g = groups[c.choice('g', len(groups))]
    i = c.choice('i', len(g))
    j = c.choice('j', len(g))
    a, b = g[i]('a_'), g[j]('b_')
    if i >= j or a is None or b is None:
        return
    r, q, e = cmp(c, a, b), cmp(c, b, a), eq(c, a, b)
    c.ensure('the order follows the style, whatever the fields', And(r < 0, q > 0))
    c.ensure('never equal', Not(e))
