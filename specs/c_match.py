"""Matching expressions decide exactly what they say, for every item"""
from check import spec
from contract import *
from _items import *

CODE = {'Origin': 1, 'Product': 2, 'Level': 3, 'Timerange': 4, 'Run': 15, 'Task': 16, 'Quantity': 17, 'Area': 9, 'Proddef': 10}
MT = 'arki::matcher::'


def pstr(c, parts):
    """a std::string made of literal bytes and symbolic characters"""
    bs = []
    for p in parts:
        if isinstance(p, bytes):
            bs += list(p)
        else:
            bs += p
    s = c.conststr(bytes(b if isinstance(b, int) else 48 for b in bs))
    d = c.ldp(s, 0)
    for i, b in enumerate(bs):
        if not isinstance(b, int):
            c.sto(d, i, 8, b)
    return s


def num(c, name, k):
    """(k decimal digits, value)"""
    ds = [c.int('%s%d' % (name, i), 8, signed=False, lo=48, hi=57) for i in range(k)]
    v = 0
    for d in ds:
        v = v * 10 + (d.u - 48)
    return ds, v


def both(c, m, t, code, want):
    """the item, and its encoded form, match exactly when wanted"""
    r = c.call('verif_match_item', m, t, ret=1)
    c.ensure('matching gives an answer', r.ok)
    c.ensure('the item matches exactly when every stated value is the one it has', Iff(r.v.b, want))
    e, vec = encoder(c)
    c.call('verif_encode_inner', t, e)
    r = c.call('verif_match_buffer', m, code, c.ldp(vec, 0), c.pdiff(c.ldp(vec, 8), c.ldp(vec, 0)).trunc(32), ret=1)
    c.ensure('matching the encoded item gives an answer', r.ok)
    c.ensure('the encoded item matches exactly when every stated value is the one it has', Iff(r.v.b, want))


NUMERIC = {  # digits of each field in the expression
    ('Origin', 'GRIB1'): [3, 3, 3], ('Origin', 'GRIB2'): [5, 5, 3, 3, 3], ('Origin', 'BUFR'): [3, 3],
    ('Product', 'VM2'): [5], ('Product', 'GRIB1'): [3, 3, 3], ('Product', 'GRIB2'): [5, 3, 3, 3, 3, 3],
}


def mk_numeric(cls, style, digits):
    @spec('C09', name='match_%s_%s' % (cls.lower(), style.lower()), targets=['%sMatch%s::parse(std::string const&)' % (MT, cls), '%sMatch%s%s::matchItem(arki::types::Type const&) const' % (MT, cls, style)])
    def f(c):
        """style,n,,n..: every stated number is compared with its own field; blank or missing fields match anything"""
        init(c)
        parts, want, pend = [style.encode()], [], b''
        vals = []
        for i, k in enumerate(digits):
            pend += b','
            if c.choice('has%d' % i, 2):
                d, v = num(c, 'n%d_' % i, k)
                parts += [pend, d]
                pend = b''
                vals.append(v)
            else:
                vals.append(None)
        m = c.call('verif_match_parse', CODE[cls], pstr(c, parts), ret='p')
        c.ensure('is a valid expression', m.ok)
        t, exp, _ = simple(c, cls, style)
        both(c, m.v, t, CODE[cls], And(*[Eq(v, e) for v, e in zip(vals, exp) if v is not None]))


for _k, _d in NUMERIC.items():
    mk_numeric(_k[0], _k[1], _d)


def parse(c, cls, parts):
    m = c.call('verif_match_parse', CODE[cls], pstr(c, parts), ret='p')
    c.ensure('is a valid expression', m.ok)
    return m.v


def fields(c, digits, missing=False):
    """(pattern parts, [None | 'missing' | value])"""
    parts, vals, pend = [], [], b''
    for i, k in enumerate(digits):
        pend += b','
        w = c.choice('has%d' % i, 3 if missing else 2)
        if w == 0:
            vals.append(None)
            continue
        if w == 1:
            d, v = num(c, 'n%d_' % i, k)
        else:
            d, v = [45], 'missing'
        parts += [pend, d]
        pend = b''
        vals.append(v)
    return parts, vals


@spec('C09', name='match_level_grib1', targets=[MT + 'MatchLevel::parse(std::string const&)', MT + 'MatchLevelGRIB1::matchItem(arki::types::Type const&) const'])
def match_level_grib1(c):
    """GRIB1,type,l1,l2: a level type without that value never matches an expression that states it"""
    init(c)
    parts, (ty, l1, l2) = fields(c, [3, 5, 3])
    m = parse(c, 'Level', [b'GRIB1'] + parts)
    t, exp, _ = simple(c, 'Level', 'GRIB1')
    nv = c.call(TY + 'Level::GRIB1_type_vals(unsigned char)', V(c.ld(c.ldp(t, 8), 1, 8).raw, 8, c), ret=32).v.u
    want = []
    if ty is not None:
        want.append(Eq(ty, exp[0]))
    if l1 is not None:
        want.append(And(nv >= 1, Eq(l1, exp[1])))
    if l2 is not None:
        want.append(And(nv >= 2, Eq(l2, exp[2])))
    both(c, m, t, CODE['Level'], And(*want))


MISSING = [255, 255, 0xffffffff]


def mk_level_grib2(style, quick):
    n = 3 if style == 'GRIB2S' else 6

    @spec('C09', name='match_level_%s' % style.lower(), targets=[MT + 'MatchLevel%s::matchItem(arki::types::Type const&) const' % style], tier='quick' if quick else 'thorough')
    def f(c):
        """style,type,scale,value..: '-' matches exactly the missing value"""
        init(c)
        parts, vals = fields(c, [3, 3, 7] * (n // 3), missing=True)
        for i, v in enumerate(vals):
            if v is not None and not isinstance(v, str) and i % 3 < 2:
                c.assume(v <= 255)
        m = parse(c, 'Level', [style.encode()] + parts)
        t, exp, _ = simple(c, 'Level', style)
        miss = MISSING * (n // 3)
        both(c, m, t, CODE['Level'], And(*[Eq(x if not isinstance(x, str) else miss[i], exp[i]) for i, x in enumerate(vals) if x is not None]))


mk_level_grib2('GRIB2S', True)
mk_level_grib2('GRIB2D', False)


def mk_level_grib2d_one(i):
    @spec('C09', name='match_level_grib2d_%d' % i, targets=[MT + 'MatchLevelGRIB2D::matchItem(arki::types::Type const&) const'])
    def f(c):
        """GRIB2D: each of the six fields alone"""
        init(c)
        miss = c.choice('missing', 2)
        d, v = ([45], (MISSING * 2)[i]) if miss else num(c, 'n', [3, 3, 7][i % 3])
        if not miss and i % 3 < 2:
            c.assume(v <= 255)
        m = parse(c, 'Level', [b'GRIB2D', b',' * (i + 1), d])
        t, exp, _ = simple(c, 'Level', 'GRIB2D')
        both(c, m, t, CODE['Level'], Eq(v, exp[i]))


for _i in range(6):
    mk_level_grib2d_one(_i)


@spec('C09', targets=[MT + 'MatchTimerange::parse(std::string const&)', MT + 'MatchTimerangeGRIB2::matchItem(arki::types::Type const&) const'])
def match_timerange_grib2(c):
    """GRIB2,type,unit,p1,p2 compares numbers with the fields"""
    init(c)
    parts, vals = fields(c, [3, 3, 7, 7])
    m = parse(c, 'Timerange', [b'GRIB2'] + parts)
    t, (ty, un, p1, p2) = timerange_grib2(c)
    exp = [ty.u, un.u, p1.s, p2.s]
    both(c, m, t, CODE['Timerange'], And(*[Eq(x, exp[i]) for i, x in enumerate(vals) if x is not None]))


SUFFIX = {b's': (1, 1), b'm': (1, 60), b'h': (1, 3600), b'd': (1, 86400), b'mo': (0, 1), b'y': (0, 12)}


def mk_timerange_bufr(sfx):
    @spec('C09', name='match_timerange_bufr_%s' % sfx.decode(), targets=[MT + 'MatchTimerangeBUFR::matchItem(arki::types::Type const&) const'])
    def f(c):
        """BUFR,step: seconds match seconds, months match months, 0 matches 0 of any unit"""
        init(c)
        sec, mul = SUFFIX[sfx]
        d, v = num(c, 'n', 3)
        m = parse(c, 'Timerange', [b'BUFR,', d, sfx])
        t, (un, va), _ = simple(c, 'Timerange', 'BUFR')
        amount = va * MULT[un]
        c.assume(amount < 1 << 32)
        both(c, m, t, CODE['Timerange'], If(Eq(v, 0), Eq(va, 0), And(int(un in SECOND_UNITS) == sec, Eq(v * mul, amount))))


for _s in sorted(SUFFIX):
    mk_timerange_bufr(_s)


def significance(ty):
    """which of p1 and p2 mean something for a GRIB1 time range type"""
    def any_of(xs):
        return Or(*[Eq(ty, x) for x in xs])
    p1only = any_of([0, 10])
    none = Eq(ty, 1)
    p2only = any_of([118, 123, 124])
    return And(Not(none), Not(p2only)), And(Not(none), Not(p1only))


@spec('C09', targets=[MT + 'MatchTimerangeGRIB1::matchItem(arki::types::Type const&) const', TY + 'Timerange::get_GRIB1_normalised(unsigned char const*, unsigned int, int&, arki::types::timerange::GRIB1Unit&, int&, int&, bool&, bool&)'], weight=20)
def match_timerange_grib1(c):
    """GRIB1,type,p1,p2: amounts are compared after conversion to seconds or to months, only where they mean something"""
    init(c)
    parts, vals = [b'GRIB1,'], [None] * 3
    if c.choice('hastype', 2):
        d, vals[0] = num(c, 'ty', 3)
        parts.append(d)
    w = c.choice('values', 4)
    sec, mul, sfx = [(1, 3600, b'h'), (1, 1, b's'), (0, 12, b'y'), (0, 1, b'mo')][c.choice('suffix', 4)] if w else (1, 1, b'')
    for i in (1, 2):
        parts.append(b',')
        if w & i:
            d, v = num(c, 'p%d_' % i, 3)
            parts += [d, sfx]
            vals[i] = v * mul
    m = parse(c, 'Timerange', parts)
    t, (ty, un, p1, p2), _ = simple(c, 'Timerange', 'GRIB1')
    u1, u2 = significance(ty)
    mulu = MULT[un]
    isec = int(un in SECOND_UNITS)
    a1 = If(Eq(ty, 10), p1 * 256 + p2, p1) * mulu
    a2 = p2 * mulu
    c.assume(a1 < 1 << 31)
    want = []
    if vals[0] is not None:
        want.append(Eq(vals[0], ty))
    # amounts of zero mean the same in every unit; with another unit nothing else matches
    for v, a, use in ((vals[1], a1, u1), (vals[2], a2, u2)):
        if v is not None:
            want.append(Implies(use, And(Eq(v, a), Or(isec == sec, Eq(v, 0)))))
    both(c, m, t, CODE['Timerange'], And(*want))



# ---- Timedef expressions: forecast step, type of statistical processing, its duration, for items of any style
def grib1_semantics(ty, p1, p2, mul, sec):
    """(step, type, duration), each (present, amount): what a GRIB1 time range means"""
    point = Or(Eq(ty, 0), Eq(ty, 1))
    span = And(ty >= 2, ty <= 5)
    nudge = Eq(ty, 13)
    known = Or(point, span, nudge)
    step = If(span, p2 * mul, If(nudge, 0, p1 * mul))
    pt = If(Or(point, nudge), 254, If(Eq(ty, 2), 205, If(Eq(ty, 3), 0, If(Eq(ty, 4), 1, 4))))
    dur = If(span, (p2 - p1) * mul, 0)
    return (known, sec, step), (known, pt), (known, sec, dur)


TDUNIT = {1: b'h', 4: b'y', 0: b'm', 2: b'd', 3: b'mo', 5: b'de', 6: b'no', 7: b'ce', 10: b'h3', 11: b'h6', 12: b'h12', 13: b's'}


def td_pattern(c, which):
    """Timedef[,step][,type][,duration] with the fields in which; (parts, [None | 'missing' | value], is seconds)"""
    parts, vals, sec = [b'Timedef'], [None, None, None], [None] * 3
    for i in range(3):
        if i not in which:
            parts.append(b',')
            continue
        if c.choice('missing%d' % i, 2):
            parts.append(b',-')
            vals[i] = 'missing'
            if i == 1:
                break
            continue
        d, v = num(c, 'n%d_' % i, 3)
        sec[i] = 1
        sfx = b''
        if i != 1:
            sfx, sec[i] = [(b's', 1), (b'mo', 0)][c.choice('unit%d' % i, 2)]
        parts += [b',', d, sfx]
        vals[i] = v
    return parts, vals, sec


def td_want(vals, sec, step, pt, dur):
    w = []
    for i, (pres, isec, amount) in ((0, step), (2, dur)):
        if vals[i] is None:
            continue
        w.append(Not(pres) if isinstance(vals[i], str) else And(pres, int(sec[i] == isec) if isinstance(isec, int) else Iff(isec, sec[i]), Eq(vals[i], amount)))
    if vals[1] is not None:
        w.append(Not(pt[0]) if isinstance(vals[1], str) else And(pt[0], Eq(vals[1], pt[1])))
    return And(*w)


def mk_timedef(style, which):
    @spec('C09', name='match_timedef_%s_%s' % (style.lower(), ''.join(map(str, which))), targets=[MT + 'MatchTimerangeTimedef::matchItem(arki::types::Type const&) const',
          TY + 'timerange::%s::get_forecast_step(int&, bool&) const' % style, TY + 'timerange::%s::get_proc_type() const' % style,
          TY + 'timerange::%s::get_proc_duration(int&, bool&) const' % style])
    def f(c):
        """every stated field decides; - matches exactly the items that do not have it"""
        init(c)
        parts, vals, sec = td_pattern(c, which)
        m = parse(c, 'Timerange', parts)
        if style == 'GRIB1':
            t, (ty, un, p1, p2), _ = simple(c, 'Timerange', 'GRIB1')
            c.assume(Not(Eq(ty, 10)))
            c.assume(p1 <= p2)
            sem = grib1_semantics(ty, p1, p2, MULT[un], int(un in SECOND_UNITS))
        elif style == 'GRIB2':
            t, _ = timerange_grib2(c)
            sem = (0, 1, 0), (0, 0), (0, 1, 0)
        elif style == 'BUFR':
            t, (un, va), _ = simple(c, 'Timerange', 'BUFR')
            c.assume(va * MULT[un] < 1 << 31)
            sem = (1, int(un in SECOND_UNITS), va * MULT[un]), (0, 0), (0, 1, 0)
        else:
            us = TD_SEC + TD_MON + [255]
            su = us[c.choice('su', len(us))] if 0 in which else 1
            tu = us[c.choice('tu', len(us))] if 2 in which else 1
            sl = c.int('sl', 32, signed=False)
            tl = c.int('tl', 32, signed=False)
            st = c.int('st', 8, signed=False)
            c.assume(sl.u * MULT.get(su, 1) < 1 << 31)
            c.assume(tl.u * MULT.get(tu, 1) < 1 << 31)
            # a length of zero is stored as zero seconds
            if c.split(Eq(sl.u, 0)):
                nsu = 13 if su != 255 else 255
            else:
                nsu = su
            if c.split(Eq(tl.u, 0)):
                ntu = 13 if tu != 255 else 255
            else:
                ntu = tu
            t = make(c, TD5, sl, V(su, 32, c), st, tl, V(tu, 32, c))
            has = Not(Eq(st.u, 255))
            sem = ((int(su != 255), int(nsu not in MONTH_UNITS), sl.u * MULT.get(su, 1)), (has, st.u),
                   (And(has, int(tu != 255)), int(ntu not in MONTH_UNITS), tl.u * MULT.get(tu, 1)))
        r = c.call('verif_match_item', m, t, ret=1)
        c.ensure('matching gives an answer', r.ok)
        c.ensure('the item matches exactly when every stated field is as it says', Iff(r.v.b, td_want(vals, sec, *sem)))


for _st in ('GRIB1', 'GRIB2', 'BUFR', 'Timedef'):
    for _w in ((0,), (1,), (2,), (0, 1), (1, 2)):
        if _st == 'Timedef' or _w in ((0, 1), (1, 2)):
            mk_timedef(_st, _w)


@spec('C09', targets=[TY + 'timerange::Timedef::timeunit_parse(char const*&, arki::types::timerange::TimedefUnit&, unsigned int&)'])
def match_timedef_units(c):
    """every unit suffix of a step stands for that many seconds or months"""
    init(c)
    un = sorted(TDUNIT)[c.choice('unit', len(TDUNIT))]
    d, v = num(c, 'n', 3)
    m = parse(c, 'Timerange', [b'Timedef,', d, TDUNIT[un]])
    month = c.choice('month', 2)
    su = 3 if month else 13
    sl = c.int('sl', 32, signed=False)
    c.assume(sl.u < 1 << 31)
    c.assume(sl.u > 0)
    t = make(c, TD2, sl, V(su, 32, c))
    mul = MULT[un]
    r = c.call('verif_match_item', m, t, ret=1)
    c.ensure('matching gives an answer', r.ok)
    c.ensure('matches exactly the same amount of time', Iff(r.v.b, And(int((un in MONTH_UNITS) == bool(month)), Eq(v * mul, sl.u))))


@spec('C09', targets=[MT + 'MatchRun::parse(std::string const&)', MT + 'MatchRunMinute::matchItem(arki::types::Type const&) const'])
def match_run_minute(c):
    """MINUTE[,HH[:MM]]"""
    init(c)
    k = c.choice('has', 3)
    parts, want = [b'MINUTE'], None
    if k:
        d, h = num(c, 'h', 2)
        parts += [b',', d]
        want = h * 60
    if k == 2:
        d, mi = num(c, 'm', 2)
        parts += [b':', d]
        want = want + mi
    m = parse(c, 'Run', parts)
    t, exp = run_minute(c)
    both(c, m, t, CODE['Run'], 1 if want is None else Eq(want, exp))


# ---- strings
def text(c, name, n, lo=33, hi=126, bad=(44, 58)):
    """n printable characters, none of them a separator"""
    cs = [c.int('%s%d' % (name, i), 8, signed=False, lo=lo, hi=hi) for i in range(n)]
    for x in cs:
        c.assume(And(*[Not(Eq(x.u, b)) for b in bad]))
    return cs


def mkstring(c, cs):
    return pstr(c, [cs])


def mk_odim(cls, maker, n):
    @spec('C09', name='match_%s_odimh5' % cls.lower(), targets=[MT + 'Match%sODIMH5::matchItem(arki::types::Type const&) const' % cls])
    def f(c):
        """ODIMH5,s,..: every stated text is the one of the item, blank ones match anything"""
        init(c)
        parts, pat, pend = [b'ODIMH5'], [], b''
        for i in range(n):
            pend += b','
            k = c.choice('len%d' % i, 3)
            pat.append(text(c, 'p%d_' % i, k))
            if k:
                parts += [pend, pat[-1]]
                pend = b''
        m = parse(c, cls, parts)
        t, ss = maker(c, n=3)
        want = []
        for p, s in zip(pat, ss):
            if p:
                q = mkstring(c, p)
                want.append(c.bytes_eq(c.str(q), c.str(s)))
        both(c, m, t, CODE[cls], And(*want))


mk_odim('Origin', origin_odimh5, 3)
mk_odim('Product', product_odimh5, 2)


def fold(x):
    return If(And(x >= 97, x <= 122), x - 32, x)


@spec('C09', targets=[MT + 'MatchTask::parse(std::string const&)', MT + 'MatchTask::matchItem(arki::types::Type const&) const'])
def match_task(c):
    """task:text matches the tasks that contain it, whatever the case of the letters"""
    init(c)
    k = c.choice('len', 3)
    p = text(c, 'p', k)
    n = c.choice('n', 4)
    s = text(c, 's', n, lo=1, hi=255, bad=())
    m = parse(c, 'Task', [p])
    t = make(c, TY + 'Task::create(std::string const&)', mkstring(c, s))
    want = Or(*[And(*[Eq(fold(p[j].u), fold(s[i + j].u)) for j in range(k)]) for i in range(n - k + 1)]) if k else 1
    r = c.call('verif_match_item', m, t, ret=1)
    c.ensure('matching gives an answer', r.ok)
    c.ensure('matches exactly the tasks that contain the text', Iff(r.v.b, want))


ITEMS = [('Origin', 'GRIB1'), ('Origin', 'GRIB2'), ('Origin', 'BUFR'), ('Product', 'GRIB1'), ('Product', 'GRIB2'), ('Product', 'VM2'),
         ('Level', 'GRIB1'), ('Level', 'GRIB2S'), ('Level', 'GRIB2D'), ('Timerange', 'GRIB1'), ('Timerange', 'BUFR'),
         ('Timerange', 'GRIB2'), ('Timerange', 'Timedef'), ('Run', 'MINUTE'), ('Task', 'TASK'), ('Origin', 'ODIMH5'), ('Product', 'ODIMH5')]


def any_item(c, k):
    cls, style = k
    if k in SIMPLE:
        return simple(c, cls, style)[0]
    return {'GRIB2': lambda: timerange_grib2(c), 'Timedef': lambda: timedef(c, stat=False), 'MINUTE': lambda: run_minute(c),
            'TASK': lambda: task(c, n=3)}[style]()[0] if cls not in ('Origin', 'Product') else (
                origin_odimh5(c, n=3) if cls == 'Origin' else product_odimh5(c, n=3))[0]


@spec('C09', dom='bv', targets=[MT + 'MatchOriginGRIB1::matchItem(arki::types::Type const&) const'])
def match_other(c):
    """an expression never matches an item of another type or of another style; without values it matches all of its own style"""
    init(c)
    e = ITEMS[c.choice('expr', len(ITEMS))]
    k = ITEMS[c.choice('item', len(ITEMS))]
    m = parse(c, e[0], [(e[1] if e[0] != 'Task' else '').encode()])
    t = any_item(c, k)
    want = int(e == k or (e == ('Timerange', 'Timedef') and k[0] == 'Timerange'))
    r = c.call('verif_match_item', m, t, ret=1)
    c.ensure('matching gives an answer', r.ok)
    c.ensure('matches exactly the items of its own type and style', Iff(r.v.b, want))
    en, vec = encoder(c)
    c.call('verif_encode_inner', t, en)
    code = c.call('verif_type_code', t, ret=32).v
    n = c.pdiff(c.ldp(vec, 8), c.ldp(vec, 0)).trunc(32)
    r = c.call('verif_match_buffer', m, code, c.ldp(vec, 0), n, ret=1)
    c.ensure('matches exactly the encoded items of its own type and style', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)
    r = c.call('verif_match_clone', m, ret='p')
    c.ensure('can be copied', r.ok)
    r = c.call('verif_match_item', r.v, t, ret=1)
    c.ensure('a copy of the expression gives the same answer', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)


# ---- key=value lists: area, proddef and BUFR product expressions
def bag_item(c, which, keys):
    """an item whose list has any of the given keys, and d=7; (item, {key: (present, kind, value)})"""
    b = c.call('verif_vb_builder', ret='p').v
    have = {}
    for k in keys:
        kind = c.choice('has_' + k.decode(), 3)
        if kind == 1:
            v = c.int('v_' + k.decode(), 32)
            c.call('verif_vb_add_int', b, c.conststr(k), v)
            have[k] = (1, v.s)
        elif kind == 2:
            v = text(c, 's_' + k.decode(), 2, lo=1, hi=255, bad=())
            c.call('verif_vb_add_str', b, c.conststr(k), mkstring(c, v))
            have[k] = (2, v)
    c.call('verif_vb_add_int', b, c.conststr(b'd'), V(7, 32, c))
    vb = c.call('verif_vb_build', b, ret='p').v
    t = c.call('verif_make_bag_item', which, vb, ret='p')
    c.ensure('can be created', t.ok)
    return t.v, have


def mk_bag(which, cls, prefix, keys):
    @spec('C09', opts=dict(merge=False), name='match_%s_list' % prefix.decode().split(':')[0].split(',')[0].lower() + '_' + cls.lower() + '_' + b''.join(keys).decode(),
          targets=['arki::types::ValueBagMatcher::parse(std::string const&)', 'arki::types::ValueBagMatcher::is_subset(arki::types::ValueBag const&) const'])
    def f(c):
        """key=value pairs: the item matches exactly when it has every stated key with that very value"""
        init(c)
        parts, want = [prefix], []
        t, have = bag_item(c, which, keys)
        for k in keys:
            kind = c.choice('pat_' + k.decode(), 3)
            if not kind:
                continue
            if len(parts) > 1:
                parts.append(b', ')
            parts += [k, b'=']
            h = have.get(k)
            if kind == 1:
                d, v = num(c, 'n_' + k.decode(), 2)
                c.assume(Not(Eq(d[0].u, 48)))
                if c.choice('neg_' + k.decode(), 2):
                    parts.append(b'-')
                    v = -v
                parts.append(d)
                want.append(Eq(v, h[1]) if h and h[0] == 1 else 0)
            else:
                s = text(c, 'x_' + k.decode(), 2, lo=65, hi=122, bad=())
                parts.append(s)
                want.append(And(*[Eq(x.u, y.u) for x, y in zip(s, h[1])]) if h and h[0] == 2 else 0)
        m = parse(c, cls, parts)
        both(c, m, t, CODE[cls], And(*want))


for _k in (b'a', b'e'):
    mk_bag(0, 'Area', b'GRIB:', (_k,))
    mk_bag(1, 'Area', b'ODIMH5:', (_k,))
    mk_bag(2, 'Proddef', b'GRIB:', (_k,))
    mk_bag(3, 'Product', b'BUFR,1,,3:', (_k,))



@spec('C09', dom='bv', targets=[MT + 'MatchLevelODIMH5::matchItem(arki::types::Type const&) const', MT + 'MatchLevelODIMH5::match_buffer(arki::types::Code, unsigned char const*, unsigned int) const'], weight=6, opts=dict(fp_abstract=True))
def match_level_odimh5(c):
    """a level matches when it overlaps one of the stated values (widened by the offset), or without values the stated range"""
    init(c)
    t, (lov, hiv) = level_odimh5(c, raw=True)
    n = c.choice('n', 3)
    lt = lambda a, b: c.call('verif_fp_lt', a, b, ret=1).v.b
    num = lambda a: c.assume(c.call('verif_fp_isnum', a, ret=1).v.b)
    arr = c.alloc(8 * max(n, 1))
    vals = []
    for i in range(n):
        v = c.int('v%d' % i, 64, signed=False)
        c.sto(arr, 8 * i, 64, v)
        vals.append(v)
    off = c.int('offset', 64, signed=False) if n else 0
    rmin, rmax = c.int('range_min', 64, signed=False), c.int('range_max', 64, signed=False)
    for x in vals + ([off] if n else []) + [rmin, rmax, lov, hiv]:
        num(x)
    r = c.call('verif_level_odimh5_matcher', arr, n, off, rmin, rmax, ret='p')
    c.ensure('the matcher can be built', r.ok)
    if n:
        want = []
        for v in vals:
            a, b = c.call('verif_fp_sub', v, off, ret=64).v, c.call('verif_fp_add', v, off, ret=64).v
            num(a)
            num(b)
            # the ends of the accepted interval, in order
            inside = lambda p, q: And(Not(lt(q, lov)), Not(lt(hiv, p)))
            sw = lt(b, a)
            want.append(If(sw, inside(b, a), inside(a, b)))
        w = Or(*want)
    else:
        w = And(Not(lt(rmax, lov)), Not(lt(hiv, rmin)))
    both(c, r.v, t, CODE['Level'], w)
    k = c.call('verif_match_clone', r.v, ret='p')
    c.ensure('can be copied', k.ok)
    both(c, k.v, t, CODE['Level'], w)
