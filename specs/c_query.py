"""Queries: alternatives of one type, conjunctions of types, union, override and split of queries.  The alternatives are stubs
that give a fixed symbolic answer, so that the contracts hold whatever the expressions are."""
from check import spec
from contract import *
from _items import *

MT = 'arki::matcher::'
TYPES = [1, 2, 5]        # origin, product, reftime


def stub(c, tag, id):
    a = c.int(tag, 32, lo=0, hi=1)
    return c.call('verif_fixed', V(id, 32, c), a, ret='p').v, Eq(a.u, 1)


def mkor(c, tag, n, id0=0):
    """an expression of n alternatives, and what it answers"""
    o = c.call('verif_or_new', ret='p').v
    ws = []
    for i in range(n):
        m, w = stub(c, '%s.%d' % (tag, i), id0 + i)
        c.call('verif_or_add', o, m)
        ws.append(w)
    return o, Or(*ws) if n else 1


def items(c, present):
    """a set of items of the types of TYPES, and the items"""
    s = c.call('verif_itemset_new', ret='p').v
    ts = {}
    for k, code in enumerate(TYPES):
        if code == 5:
            t, _ = reftime_position(c, 'q')
        else:
            t, _, _ = simple(c, 'Origin' if code == 1 else 'Product', 'GRIB1', 'k%d' % code)
        ts[code] = t
        if present[k]:
            c.call('verif_itemset_set', s, t)
    return s, ts


def mkand(c, tag, shape, id0=0):
    """a query with shape[k] alternatives for type k (-1: says nothing of it); {type: answer}"""
    a = c.call('verif_and_new', ret='p').v
    ws = {}
    for k, n in enumerate(shape):
        if n < 0:
            continue
        o, w = mkor(c, '%s.%d' % (tag, TYPES[k]), n, id0 + 4 * k)
        c.call('verif_and_set', a, V(TYPES[k], 32, c), o)
        ws[TYPES[k]] = w
    return a, ws


def answers(c, m, ws, s, ts, has, what=''):
    """the matcher gives the answer stated by type"""
    r = c.call('verif_matcher_match_set', m, s, ret=1)
    c.ensure(what + 'gives an answer', r.ok)
    c.ensure(what + 'a set of items matches when it has an item of every type asked for and all match', Iff(r.v.b, And(1, *[And(int(has[k]), w) for k, w in ws.items()])))
    for k, t in ts.items():
        r = c.call('verif_matcher_match_item', m, t, ret=1)
        c.ensure(what + 'an item matches when the query says nothing of its type or it satisfies it', And(r.ok, Iff(r.v.b, ws.get(k, 1))) if r.ok else 0)
        buf = c.alloc(4)
        r = c.call('verif_matcher_match_buffer', m, V(k, 32, c), buf, V(4, 32, c), ret=1)
        c.ensure(what + 'the same for its encoded form', And(r.ok, Iff(r.v.b, ws.get(k, 1))) if r.ok else 0)


for _n in range(4):
    def _f(n):
        @spec('C10', name='query_or_%d' % n, targets=[MT + 'OR::matchItem(arki::types::Type const&) const', MT + 'OR::match_buffer(arki::types::Code, unsigned char const*, unsigned int) const', MT + 'OR::clone() const'])
        def f(c):
            """an expression matches when any of its alternatives does, or when it has none"""
            init(c)
            o, want = mkor(c, 'o', n)
            t, _, _ = simple(c, 'Origin', 'GRIB1')
            o2 = c.call('verif_match_clone', o, ret='p').v
            for m in (o, o2):
                r = c.call('verif_match_item', m, t, ret=1)
                c.ensure('any alternative', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)
                r = c.call('verif_match_buffer', m, V(1, 32, c), c.alloc(4), V(4, 32, c), ret=1)
                c.ensure('any alternative, encoded', And(r.ok, Iff(r.v.b, want)) if r.ok else 0)
            c.ensure('can be destroyed', c.call('verif_match_destroy', o).ok)
            c.ensure('the copy can be destroyed', c.call('verif_match_destroy', o2).ok)
    _f(_n)


@spec('C10', targets=[MT + 'AND::matchItemSet(arki::types::ItemSet const&) const', MT + 'AND::matchItem(arki::types::Type const&) const', MT + 'AND::match_buffer(arki::types::Code, unsigned char const*, unsigned int) const'])
def query_and(c):
    """conjunction over the types, whatever of them is asked for and present"""
    init(c)
    shape = [c.choice('asked%d' % i, 2) for i in range(3)]
    present = [c.choice('has%d' % i, 2) for i in range(3)]
    a, ws = mkand(c, 'a', [n if n else -1 for n in shape])
    s, ts = items(c, present)
    has = dict(zip(TYPES, present))
    m = c.call('verif_matcher', a, ret='p').v
    answers(c, m, ws, s, ts, has)
    m2 = c.call('verif_matcher', c.call('verif_and_clone', a, ret='p').v, ret='p').v
    answers(c, m2, ws, s, ts, has, 'copy: ')


@spec('C10', targets=['arki::Matcher::operator()(arki::types::ItemSet const&) const'])
def query_empty(c):
    """a query without expressions matches everything"""
    init(c)
    null = 0 if c.native else P(0)
    a = null if c.choice('null', 2) else c.call('verif_and_new', ret='p').v
    present = [c.choice('has%d' % i, 2) for i in range(3)]
    s, ts = items(c, present)
    answers(c, c.call('verif_matcher', a, ret='p').v, {}, s, ts, dict(zip(TYPES, present)))


def two(c):
    """two queries over three types, each with one or two alternatives or nothing about each"""
    sh = [[c.choice('%s%d' % (n, i), 2) for i in range(2)] for n in 'ab']
    nn = [[c.choice('n%s' % n, 2) + 1] for n in 'ab']
    shape = [[(2 if (i == 0 and nn[k][0] == 2) else 1) if x else -1 for i, x in enumerate(sh[k])] + [-1] for k in range(2)]
    a, wa = mkand(c, 'a', shape[0])
    b, wb = mkand(c, 'b', shape[1], 16)
    return c.call('verif_matcher', a, ret='p').v, wa, c.call('verif_matcher', b, ret='p').v, wb


@spec('C10', targets=['arki::Matcher::merge(arki::Matcher const&) const', MT + 'AND::merge(arki::matcher::AND const&)', MT + 'OR::merge(arki::matcher::OR const&) const'])
def query_merge(c):
    """the union of two queries asks only for the types both ask for, with the alternatives of both: it matches all that either does"""
    init(c)
    ma, wa, mb, wb = two(c)
    present = [c.choice('has%d' % i, 2) for i in range(2)] + [0]
    s, ts = items(c, present)
    has = dict(zip(TYPES, present))
    m = c.call('verif_matcher_merge', ma, mb, ret='p')
    c.ensure('can be merged', m.ok)
    answers(c, m.v, {k: Or(wa[k], wb[k]) for k in wa if k in wb}, s, ts, has)
    answers(c, ma, wa, s, ts, has, 'the first is unchanged: ')
    answers(c, mb, wb, s, ts, has, 'the second is unchanged: ')


@spec('C10', targets=['arki::Matcher::update(arki::Matcher const&) const', MT + 'AND::update(arki::matcher::AND const&)'])
def query_update(c):
    """the second query overrides the first for the types it asks for"""
    init(c)
    ma, wa, mb, wb = two(c)
    present = [c.choice('has%d' % i, 2) for i in range(2)] + [0]
    s, ts = items(c, present)
    has = dict(zip(TYPES, present))
    m = c.call('verif_matcher_update', ma, mb, ret='p')
    c.ensure('can be updated', m.ok)
    w = dict(wa)
    w.update(wb)
    answers(c, m.v, w, s, ts, has)
    answers(c, ma, wa, s, ts, has, 'the first is unchanged: ')


@spec('C10', targets=['arki::Matcher::merge(arki::Matcher const&) const', 'arki::Matcher::update(arki::Matcher const&) const'])
def query_merge_empty(c):
    """union with a query that matches everything matches everything; overriding with it changes nothing"""
    init(c)
    null = 0 if c.native else P(0)
    e = c.call('verif_matcher', null if c.choice('null', 2) else c.call('verif_and_new', ret='p').v, ret='p').v
    a, wa = mkand(c, 'a', [c.choice('n', 3) - 1, 1, -1])
    ma = c.call('verif_matcher', a, ret='p').v
    present = [c.choice('has%d' % i, 2) for i in range(2)] + [0]
    s, ts = items(c, present)
    has = dict(zip(TYPES, present))
    for x, y in ((ma, e), (e, ma)):
        answers(c, c.call('verif_matcher_merge', x, y, ret='p').v, {}, s, ts, has, 'union: ')
        answers(c, c.call('verif_matcher_update', x, y, ret='p').v, wa, s, ts, has, 'override: ')


@spec('C10', targets=['arki::Matcher::split(std::set<arki::types::Code, std::less<arki::types::Code>, std::allocator<arki::types::Code> > const&, arki::Matcher&, arki::Matcher&) const'])
def query_split(c):
    """the two parts of a query are about the given types and about the others, and each keeps its answers"""
    init(c)
    shape = [c.choice('asked%d' % i, 2) for i in range(3)]
    a, wa = mkand(c, 'a', [n if n else -1 for n in shape])
    m = c.call('verif_matcher', a, ret='p').v
    codes = [k for k in TYPES if c.choice('split%d' % k, 2)]
    x, y = [c.call('verif_matcher', 0 if c.native else P(0), ret='p').v for _ in range(2)]
    r = c.call('verif_matcher_split', m, V(sum(1 << k for k in codes), 32, c), x, y)
    c.ensure('can be split', r.ok)
    s, ts = items(c, [1, 1, 1])
    has = {k: 1 for k in TYPES}
    answers(c, x, {k: w for k, w in wa.items() if k in codes}, s, ts, has, 'with: ')
    answers(c, y, {k: w for k, w in wa.items() if k not in codes}, s, ts, has, 'without: ')
    answers(c, m, wa, s, ts, has, 'the original is unchanged: ')


@spec('C10', targets=[MT + 'OR::merge(arki::matcher::OR const&) const'])
def query_merge_same(c):
    """alternatives that both queries have are kept once, and the others are all kept"""
    init(c)
    ms, ws = [], []
    x = c.int('x', 32, lo=0, hi=1)
    for tag, n in (('a', 1), ('b', 2)):
        o = c.call('verif_or_new', ret='p').v
        w = [Eq(x.s, 1)]
        k = c.choice('at', 3)
        for i in range(3):
            if i == k:
                c.call('verif_or_add', o, c.call('verif_fixed', V(7, 32, c), x, ret='p').v)
            elif i < 2:
                m, u = stub(c, '%s.%d' % (tag, i), n * 8 + i)
                c.call('verif_or_add', o, m)
                w.append(u)
        a = c.call('verif_and_new', ret='p').v
        c.call('verif_and_set', a, V(1, 32, c), o)
        ms.append(c.call('verif_matcher', a, ret='p').v)
        ws.append(Or(*w))
    s, ts = items(c, [1, 0, 0])
    answers(c, c.call('verif_matcher_merge', ms[0], ms[1], ret='p').v, {1: Or(*ws)}, s, ts, {1: 1, 2: 0, 5: 0})


@spec('C10', targets=[MT + 'AND::matchMetadata(arki::Metadata const&) const', 'arki::Matcher::operator()(arki::Metadata const&) const'])
def query_metadata(c):
    """a record matches when it has an item of every type asked for and all match; notes and source do not count"""
    init(c)
    shape = [c.choice('asked%d' % i, 2) for i in range(3)]
    present = [c.choice('has%d' % i, 2) for i in range(3)]
    a, ws = mkand(c, 'a', [n if n else -1 for n in shape])
    s, ts = items(c, present)
    md = c.call('verif_md_new', ret='p').v
    for k, h in zip(TYPES, present):
        if h:
            c.call('verif_md_set', md, ts[k])
    if c.choice('source', 2):
        c.call('verif_md_source_inline', md, c.int('size', 64, signed=False))
    m = c.call('verif_matcher', a, ret='p').v
    r = c.call('verif_matcher_match_md', m, md, ret=1)
    has = dict(zip(TYPES, present))
    c.ensure('gives an answer', r.ok)
    c.ensure('matches when it has an item of every type asked for and all match', Iff(r.v.b, And(1, *[And(int(has[k]), w) for k, w in ws.items()])))
    e = c.call('verif_matcher', 0 if c.native else P(0), ret='p').v
    r = c.call('verif_matcher_match_md', e, md, ret=1)
    c.ensure('a query without expressions matches everything', And(r.ok, r.v.b))
