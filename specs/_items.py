"""Metadata items of every type and style, with symbolic fields, built through the real creators"""
from contract import *
import z3
from c_binary import encoder, decoder, vecdec, drest, what, sret

TY = 'arki::types::'
STR = 'std::string const&'
U8, U16, U32 = 'unsigned char', 'unsigned short', 'unsigned int'
W = {U8: 8, U16: 16, U32: 32, 'long': 64}
SECOND_UNITS = [0, 1, 2, 10, 11, 12, 254]
MONTH_UNITS = [3, 4, 5, 6, 7]
MULT = {0: 60, 1: 3600, 2: 86400, 10: 10800, 11: 21600, 12: 43200, 254: 1, 3: 1, 4: 12, 5: 120, 6: 360, 7: 1200, 13: 1}
UNITS = SECOND_UNITS + MONTH_UNITS


def init(c):
    c.call('verif_init_types')


def make(c, sig, *args):
    s = sret(c, 8)
    r = c.call(sig, s, *args)
    c.ensure('can be created', r.ok)
    if r.threw:
        return None
    return c.ldp(s, 0)


def refs(n, t='unsigned int'):
    return '(' + ', '.join([t + '&'] * n) + ') const'


def getters(c, t, cls, sig, ws):
    out = [c.alloc(max(w // 8, 1), zero=False) for w in ws]
    r = c.call('%s%s::%s' % (TY, cls, sig), t, *out)
    if r.threw:
        return None
    return [c.ld(p, 0, w) for p, w in zip(out, ws)]


# class, style, creator argument types, getter, getter result widths (and map to creator arguments)
SIMPLE = {
    ('Origin', 'GRIB1'): ([U8, U8, U8], 'get_GRIB1' + refs(3), 3),
    ('Origin', 'GRIB2'): ([U16, U16, U8, U8, U8], 'get_GRIB2' + refs(5), 5),
    ('Origin', 'BUFR'): ([U8, U8], 'get_BUFR' + refs(2), 2),
    ('Product', 'GRIB1'): ([U8, U8, U8], 'get_GRIB1' + refs(3), 3),
    ('Product', 'GRIB2'): ([U16, U8, U8, U8, U8, U8], 'get_GRIB2' + refs(6), 6),
    ('Product', 'VM2'): ([U32], 'get_VM2' + refs(1), 1),
    ('Level', 'GRIB2S'): ([U8, U8, U32], 'get_GRIB2S' + refs(3), 3),
    ('Level', 'GRIB2D'): ([U8, U8, U32, U8, U8, U32], 'get_GRIB2D' + refs(6), 6),
    ('Timerange', 'GRIB1'): ([U8, U8, U8, U8], 'get_GRIB1' + refs(4), 4),
    ('Timerange', 'BUFR'): ([U32, U8], 'get_BUFR' + refs(2), 2),
    ('Level', 'GRIB1'): ([U8, U16, U8], 'get_GRIB1' + refs(3), 3),
}


def creator(cls, style):
    return '%s%s::create%s(%s)' % (TY, cls, style, ', '.join(SIMPLE[cls, style][0]))


def one_of(v, xs):
    return Or(*[Eq(v.u, x) for x in xs])


def pick(c, name, xs, w):
    return V(xs[c.choice(name, len(xs))], w, c)


def select(c, name, xs, w):
    """one of the constants xs, chosen by a symbolic index"""
    i = c.int(name, w, signed=False, hi=len(xs) - 1)
    r = i.raw
    if isinstance(r, int):
        return V(xs[r], w, c)
    v = z3.BitVecVal(xs[-1], w)
    for k in range(len(xs) - 2, -1, -1):
        v = z3.If(r == k, z3.BitVecVal(xs[k], w), v)
    return V(v, w, c)


def simple(c, cls, style, tag='', symbolic=False):
    """(item, expected getter values, getter)"""
    args, getter, n = SIMPLE[cls, style]
    vs = []
    for i, a in enumerate(args):
        if cls == 'Timerange' and i == 1:
            vs.append((select if symbolic else pick)(c, tag + 'unit', UNITS, W[a]))
        else:
            vs.append(c.int('%sf%d' % (tag, i), W[a], signed=False))
    exp = [v.u for v in vs]
    if (cls, style) == ('Timerange', 'GRIB1'):
        if c.split(Eq(vs[0].u, 10)):
            c.assume(vs[2].u <= 96)
        if symbolic:
            exp[1] = If(And(Eq(exp[0], 1), Eq(exp[2], 0), Eq(exp[3], 0)), 1, exp[1])
        elif c.split(And(Eq(exp[0], 1), Eq(exp[2], 0), Eq(exp[3], 0))):
            exp[1] = 1
    if (cls, style) == ('Timerange', 'BUFR'):
        exp = [exp[1], exp[0]]
    if (cls, style) == ('Level', 'GRIB2S'):
        exp[2] = If(Eq(exp[2], 0x7fffffff), 0xffffffff, exp[2])
    if (cls, style) == ('Level', 'GRIB1'):
        r = c.call('%sLevel::GRIB1_type_vals(unsigned char)' % TY, vs[0], ret=32)
        nv = r.v.u
        # two values: both are stored in one byte
        c.assume(Implies(nv >= 2, exp[1] <= 255))
        exp[1] = If(nv >= 1, exp[1], 0)
        exp[2] = If(nv >= 2, exp[2], 0)
    return make(c, creator(cls, style), *vs), exp, getter


def timerange_grib2(c, tag=''):
    ty = c.int(tag + 'type', 8, signed=False)
    un = c.int(tag + 'unit', 8, signed=False)
    p1 = c.int(tag + 'p1', 64, lo=-(1 << 31), hi=(1 << 31) - 1)
    p2 = c.int(tag + 'p2', 64, lo=-(1 << 31), hi=(1 << 31) - 1)
    t = make(c, TY + 'Timerange::createGRIB2(unsigned char, unsigned char, long, long)', ty, un, p1, p2)
    return t, [ty, un, p1, p2]


TD2 = TY + 'Timerange::createTimedef(unsigned int, arki::types::timerange::TimedefUnit)'
TD5 = TY + 'Timerange::createTimedef(unsigned int, arki::types::timerange::TimedefUnit, unsigned char, unsigned int, arki::types::timerange::TimedefUnit)'
GETTD = 'get_Timedef(arki::types::timerange::TimedefUnit&, unsigned int&, unsigned int&, arki::types::timerange::TimedefUnit&, unsigned int&) const'
TD_SEC = [0, 1, 2, 10, 11, 12, 13]
TD_MON = [3, 4, 5, 6, 7]


def tdunit(c, name):
    return select(c, name, TD_SEC + TD_MON + [255], 32)


def timedef(c, tag='', stat=True):
    """(item, expected (step unit, step len, stat type, stat unit, stat len))"""
    sl = c.int(tag + 'step_len', 32, signed=False)
    su = tdunit(c, tag + 'step_unit')
    nsu = If(And(Eq(sl.u, 0), Not(Eq(su.u, 255))), 13, su.u)
    nsl = If(Eq(su.u, 255), 0, sl.u)
    if not stat:
        return make(c, TD2, sl, su), [nsu, nsl, 255, 255, 0]
    st = c.int(tag + 'stat_type', 8, signed=False)
    tl = c.int(tag + 'stat_len', 32, signed=False)
    tu = tdunit(c, tag + 'stat_unit')
    ntu = If(And(Eq(tl.u, 0), Not(Eq(tu.u, 255))), 13, tu.u)
    ntl = If(Eq(tu.u, 255), 0, tl.u)
    no = Eq(st.u, 255)
    return make(c, TD5, sl, su, st, tl, tu), [nsu, nsl, st.u, If(no, 255, ntu), If(no, 0, ntl)]


def get_timedef(c, t):
    g = getters(c, t, 'Timerange', GETTD, [32] * 5)
    return g


def run_minute(c, tag=''):
    h = c.int(tag + 'hour', 32, signed=False, hi=1000)
    m = c.int(tag + 'minute', 32, signed=False, hi=59)
    t = make(c, TY + 'Run::createMinute(unsigned int, unsigned int)', h, m)
    return t, h.u * 60 + m.u


def vtime(c, tag='', enc=True):
    """a time with fields the binary encoding can hold"""
    p = c.alloc(24, name='time')
    f = []
    for i, (n, lo, hi) in enumerate((('ye', 1, 16383), ('mo', 1, 12), ('da', 1, 31), ('ho', 0, 24), ('mi', 0, 59), ('se', 0, 60))):
        v = c.int(tag + n, 32, lo=lo, hi=hi)
        c.sto(p, 4 * i, 32, v)
        f.append(v.s)
    return p, f


def ldtime(c, p):
    return [c.ld(p, 4 * i, 32).s for i in range(6)]


def tup_eq(a, b):
    return And(*[Eq(x, y) for x, y in zip(a, b)])


def tup_lt(a, b):
    r = 0
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(Eq(x, y), r))
    return r


def reftime_position(c, tag=''):
    p, f = vtime(c, tag)
    t = make(c, TY + 'Reftime::createPosition(arki::core::Time const&)', p)
    return t, f


def pick_len(c, tag, n):
    return c.choice(tag + 'len', n + 1)


def mkstr(c, name, n, exact):
    return c.string(name, n) if exact else c.string(name, 0, n)


def lens(n, k):
    return n if isinstance(n, list) else [n] * k


def task(c, tag='', n=40, exact=False):
    s = mkstr(c, tag + 'task', n, exact)
    return make(c, TY + 'Task::create(%s)' % STR, s), s


def value(c, tag='', n=40, exact=False):
    s = mkstr(c, tag + 'value', n, exact)
    return make(c, TY + 'Value::create(%s)' % STR, s), s


def note(c, tag='', n=40, exact=False):
    p, f = vtime(c, tag)
    s = mkstr(c, tag + 'note', lens(n, 1)[0], exact)
    return make(c, TY + 'Note::create(arki::core::Time const&, %s)' % STR, p, s), f, s


def assigneddataset(c, tag='', n=40, exact=False):
    p, f = vtime(c, tag)
    a = mkstr(c, tag + 'name', lens(n, 2)[0], exact)
    b = mkstr(c, tag + 'id', lens(n, 2)[1], exact)
    return make(c, TY + 'AssignedDataset::create(arki::core::Time const&, %s, %s)' % (STR, STR), p, a, b), f, a, b


def origin_odimh5(c, tag='', n=20, exact=False):
    s = [mkstr(c, tag + x, k, exact) for x, k in zip(('wmo', 'rad', 'plc'), lens(n, 3))]
    return make(c, TY + 'Origin::createODIMH5(%s, %s, %s)' % (STR, STR, STR), *s), s


def product_odimh5(c, tag='', n=20, exact=False):
    s = [mkstr(c, tag + x, k, exact) for x, k in zip(('obj', 'prod'), lens(n, 2))]
    return make(c, TY + 'Product::createODIMH5(%s, %s)' % (STR, STR), *s), s


def level_odimh5(c, tag='', raw=False):
    """a level made of two floating point numbers, given as their representation: every value, NaN and infinity included"""
    a = c.int(tag + 'min', 64, signed=False)
    b = c.int(tag + 'max', 64, signed=False)
    r = c.call('verif_level_odimh5', a, b, ret='p')
    c.ensure('can be created', r.ok)
    return (r.v if r.ok else None), ([a, b] if raw else [a.u, b.u])


def get_level_odimh5(c, t):
    o = c.alloc(16, zero=False)
    r = c.call('verif_level_odimh5_get', t, o)
    return [c.ld(o, 0, 64).u, c.ld(o, 8, 64).u] if r.ok else None
