"""Metadata items: binary round trip"""
from check import spec
from contract import *
from _items import *

ENC = TY + 'Type::encodeBinary(arki::core::BinaryEncoder&) const'
DEC = TY + 'Type::decode(arki::core::BinaryDecoder&)'


def roundtrip(c, t):
    """encode, decode: (decoded item, encoded bytes)"""
    e, vec = encoder(c)
    r = c.call(ENC, t, e)
    c.ensure('the item can be encoded', r.ok)
    if r.threw:
        return None, None
    d, b = vecdec(c, vec)
    s = sret(c, 8)
    r = c.call(DEC, s, d)
    c.ensure('the encoded item can be decoded', r.ok)
    if r.threw:
        return None, b
    c.ensure('decoding consumes the whole encoding', Eq(drest(c, d).u, 0))
    t2 = c.ldp(s, 0)
    q = c.call('verif_equals', t, t2, ret=1)
    c.ensure('the decoded item equals the original', q.v.b if q.ok else 0)
    q = c.call('verif_compare', t, t2, ret=32)
    c.ensure('the decoded item compares equal to the original', Eq(q.v.s, 0) if q.ok else 0)
    a = c.call('verif_type_code', t, ret=32)
    b2 = c.call('verif_type_code', t2, ret=32)
    c.ensure('the decoded item has the same type', Eq(a.v.u, b2.v.u))
    return t2, b


def clone_same(c, t):
    k = c.call('verif_clone', t, ret='p')
    c.ensure('can be cloned', k.ok)
    q = c.call('verif_equals', t, k.v, ret=1)
    c.ensure('a clone equals the original', q.v.b if q.ok else 0)
    return k.v


def mk_simple(cls, style):
    getter = SIMPLE[cls, style][1]

    @spec('C05', name='%s_%s_roundtrip' % (cls.lower(), style.lower()), dom='bv',
          targets=[creator(cls, style), '%s%s::%s' % (TY, cls, getter), '%s%s::decode(arki::core::BinaryDecoder&, bool)' % (TY, cls), ENC, DEC])
    def f(c):
        """create, encode, decode: the same fields and an equal item, for every field value"""
        init(c)
        t, exp, getter = simple(c, cls, style)
        if t is None:
            return
        ws = [32] * len(exp)
        got = getters(c, t, cls, getter, ws)
        c.ensure('the item holds the values it was created with', And(*[Eq(g.u, v) for g, v in zip(got, exp)]) if got else 0)
        t2, b = roundtrip(c, t)
        if t2 is None:
            return
        got = getters(c, t2, cls, getter, ws)
        c.ensure('the decoded item holds the same values', And(*[Eq(g.u, v) for g, v in zip(got, exp)]) if got else 0)
        clone_same(c, t)


for _k in sorted(SIMPLE):
    mk_simple(*_k)


@spec('C05', dom='bv', targets=[TY + 'Timerange::createGRIB2(unsigned char, unsigned char, long, long)', TY + 'Timerange::get_GRIB2(unsigned int&, unsigned int&, long&, long&) const'])
def timerange_grib2_roundtrip(c):
    """type, unit, signed p1 and p2 of every 32 bit value survive"""
    init(c)
    t, exp = timerange_grib2(c)
    g = 'get_GRIB2(unsigned int&, unsigned int&, long&, long&) const'
    ws = [32, 32, 64, 64]
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        got = getters(c, x, 'Timerange', g, ws)
        c.ensure('the values are the ones given at creation', And(Eq(got[0].u, exp[0].u), Eq(got[1].u, exp[1].u), Eq(got[2].s, exp[2].s), Eq(got[3].s, exp[3].s)) if got else 0)


def mk_td(stat):
    @spec('C05', name='timerange_timedef%s_roundtrip' % ('_stat' if stat else ''), dom='bv', targets=[TD5 if stat else TD2, TY + 'Timerange::' + GETTD])
    def f(c):
        """step and statistical processing survive; a zero length is normalised to seconds, missing units drop the length"""
        init(c)
        t, exp = timedef(c, stat=stat)
        if t is None:
            return
        t2, b = roundtrip(c, t)
        for x in (t, t2):
            if x is None:
                continue
            got = get_timedef(c, x)
            c.ensure('the values are the (normalised) ones given at creation', And(*[Eq(g.u, e) for g, e in zip(got, exp)]) if got else 0)


@spec('C05', dom='bv', targets=[TY + 'Timerange::createGRIB2(unsigned char, unsigned char, long, long)'])
def timerange_grib2_refused(c):
    """amounts that do not fit the encoding are refused instead of being stored as something else"""
    init(c)
    p1 = c.int('p1', 64)
    p2 = c.int('p2', 64)
    L = 1 << 31
    c.assume(Or(p1.s < -L, p1.s >= L, p2.s < -L, p2.s >= L))
    s = sret(c, 8)
    r = c.call(TY + 'Timerange::createGRIB2(unsigned char, unsigned char, long, long)', s, c.int('type', 8), c.int('unit', 8), p1, p2)
    c.ensure('refused', r.threw)


@spec('C05', dom='bv', targets=['verif_level_odimh5', 'verif_level_odimh5_get'])
def level_odimh5_roundtrip(c):
    """both numbers survive bit by bit, NaN, infinities and signed zeros included"""
    init(c)
    t, exp = level_odimh5(c)
    if t is None:
        return
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        got = get_level_odimh5(c, x)
        c.ensure('the numbers are the ones given at creation', tup_eq(got, exp) if got else 0)


mk_td(False)
mk_td(True)


@spec('C05', dom='bv', targets=[TY + 'Run::createMinute(unsigned int, unsigned int)', TY + 'Run::get_Minute() const'])
def run_minute_roundtrip(c):
    """hour and minute survive as minutes"""
    init(c)
    t, exp = run_minute(c)
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        r = c.call(TY + 'Run::get_Minute() const', x, ret=32)
        c.ensure('the minute is the one given at creation', Eq(r.v.u, exp) if r.ok else 0)


@spec('C05', dom='bv', targets=[TY + 'Reftime::createPosition(arki::core::Time const&)', TY + 'Reftime::get_Position() const'])
def reftime_roundtrip(c):
    """every time survives field by field"""
    init(c)
    t, f = reftime_position(c)
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        s = sret(c, 24)
        r = c.call(TY + 'Reftime::get_Position() const', s, x)
        c.ensure('the time is the one given at creation', tup_eq(ldtime(c, s), f) if r.ok else 0)


def sget(c, cls, sig, t, n):
    out = [c.conststr(b'') for _ in range(n)]
    r = c.call('%s%s::%s' % (TY, cls, sig), t, *out)
    return out if r.ok else None


def same_str(c, a, b):
    return c.bytes_eq(c.str(a), c.str(b))


def mk_str(cls, style, maker, getsig, n):
    @spec('C05', name='%s_%s_roundtrip' % (cls.lower(), style.lower()), dom='int', targets=[TY + cls + '::' + getsig])
    def f(c):
        """the strings survive byte by byte, whatever they contain"""
        init(c)
        t, ss = maker(c)
        if t is None:
            return
        t2, b = roundtrip(c, t)
        for x in (t, t2):
            if x is None:
                continue
            got = sget(c, cls, getsig, x, n)
            c.ensure('the values can be read', got is not None)
            if got is None:
                continue
            for i, (p, q) in enumerate(zip(got, ss)):
                c.ensure('string %d is the one given at creation' % i, same_str(c, p, q))


mk_str('Origin', 'ODIMH5', origin_odimh5, 'get_ODIMH5(std::string&, std::string&, std::string&) const', 3)
mk_str('Product', 'ODIMH5', product_odimh5, 'get_ODIMH5(std::string&, std::string&) const', 2)


@spec('C05', dom='bv', targets=[TY + 'Task::create(std::string const&)', TY + 'Task::get[abi:cxx11]() const'])
def task_roundtrip(c):
    """the text survives byte by byte"""
    init(c)
    t, s = task(c)
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        o = sret(c, 32)
        r = c.call(TY + 'Task::get[abi:cxx11]() const', o, x)
        c.ensure('the text is the one given at creation', same_str(c, o, s) if r.ok else 0)


@spec('C05', dom='bv', targets=[TY + 'Value::create(std::string const&)'])
def value_roundtrip(c):
    """the buffer survives byte by byte"""
    init(c)
    t, s = value(c)
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        c.ensure('the buffer is the one given at creation', same_str(c, c.padd(x, 8), s))


@spec('C05', dom='bv', targets=[TY + 'Note::create(arki::core::Time const&, std::string const&)', TY + 'Note::get(arki::core::Time&, std::string&) const'])
def note_roundtrip(c):
    """time and text survive"""
    init(c)
    t, f, s = note(c)
    t2, b = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        p = c.alloc(24)
        o = c.conststr(b'')
        r = c.call(TY + 'Note::get(arki::core::Time&, std::string&) const', x, p, o)
        c.ensure('can be read', r.ok)
        if r.ok:
            c.ensure('the time is the one given at creation', tup_eq(ldtime(c, p), f))
            c.ensure('the text is the one given at creation', same_str(c, o, s))


@spec('C05', dom='bv', targets=[TY + 'AssignedDataset::create(arki::core::Time const&, std::string const&, std::string const&)',
                                TY + 'AssignedDataset::get(arki::core::Time&, std::string&, std::string&) const'])
def assigneddataset_roundtrip(c):
    """time, dataset name and id survive"""
    init(c)
    t, f, a, b = assigneddataset(c, n=12)
    t2, _ = roundtrip(c, t)
    for x in (t, t2):
        if x is None:
            continue
        p = c.alloc(24)
        o1, o2 = c.conststr(b''), c.conststr(b'')
        r = c.call(TY + 'AssignedDataset::get(arki::core::Time&, std::string&, std::string&) const', x, p, o1, o2)
        c.ensure('can be read', r.ok)
        if r.ok:
            c.ensure('the time is the one given at creation', tup_eq(ldtime(c, p), f))
            c.ensure('the name is the one given at creation', same_str(c, o1, a))
            c.ensure('the id is the one given at creation', same_str(c, o2, b))


@spec('C05', dom='int', targets=[TY + 'AssignedDataset::create(arki::core::Time const&, std::string const&, std::string const&)'])
def assigneddataset_refused(c):
    """names and ids too long for their length fields are refused instead of being stored cut"""
    init(c)
    p, f = vtime(c)
    a = c.string('name', 0, 70000)
    b = c.string('id', 0, 70000)
    c.assume(Or(c.str(a).n > 255, c.str(b).n > 65535))
    r = c.call(TY + 'AssignedDataset::create(arki::core::Time const&, %s, %s)' % (STR, STR), sret(c, 8), p, a, b)
    c.ensure('refused', r.threw)


@spec('C05', dom='bv', targets=[creator('Level', 'GRIB1')])
def level_grib1_two_values(c):
    """a layer with two values holds the values it was created with, or is refused"""
    init(c)
    ty, l1, l2 = c.int('f0', 8, signed=False), c.int('f1', 16, signed=False), c.int('f2', 8, signed=False)
    r = c.call('%sLevel::GRIB1_type_vals(unsigned char)' % TY, ty, ret=32)
    c.assume(Eq(r.v.u, 2))
    s = sret(c, 8)
    r = c.call(creator('Level', 'GRIB1'), s, ty, l1, l2)
    if r.threw:
        return
    got = getters(c, c.ldp(s, 0), 'Level', SIMPLE['Level', 'GRIB1'][1], [32] * 3)
    ok = And(Eq(got[0].u, ty.u), Eq(got[1].u, l1.u), Eq(got[2].u, l2.u)) if got else 0
    if c.split(l1.u <= 255):
        c.ensure('values that fit are held', ok)
    else:
        c.ensure('a first value over 255 is held or refused', ok)
