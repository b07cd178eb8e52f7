"""Metadata records and sets of items: what is set is what is read, in a canonical order, whatever the history.
The items are stand-ins with any type code and any value, so that the contracts hold for items of every type."""
from check import spec
from contract import *
from _items import *

MD = 'arki::Metadata::'
IX = 'arki::metadata::Index::'
NOTE, SOURCE = 6, 7
MAXCODE = 18


def code(c, tag):
    """the code of a type of item other than notes and sources"""
    k = c.int(tag, 32, signed=False, lo=1, hi=MAXCODE)
    c.assume(And(Not(Eq(k.u, NOTE)), Not(Eq(k.u, SOURCE))))
    return k


def anyid(c, tag):
    return c.int(tag, 32, signed=False, hi=0xfffffffe)


def item(c, k, v):
    return c.call('verif_any', k if isinstance(k, V) else V(k, 32, c), v, ret='p').v


class Rec:
    """a record in any state: values of n types in order, notes in order of insertion, and a source or none"""

    def __init__(self, c, tag, n, notes=0, source=0):
        self.c = c
        self.p = c.call('verif_open_md', ret='p').v
        self.vals, self.notes, self.source = [], [], []
        for i in range(n):
            k, v = code(c, '%s.code%d' % (tag, i)), anyid(c, '%s.val%d' % (tag, i))
            if self.vals:
                c.assume(self.vals[-1][0] < k.u)
            self.vals.append((k.u, v.u))
            c.call('verif_md_append', self.p, item(c, k, v))
        for i in range(notes):
            v = anyid(c, '%s.note%d' % (tag, i))
            self.notes.append(v.u)
            c.call('verif_md_append', self.p, item(c, NOTE, v))
        for i in range(source):
            v = anyid(c, tag + '.source')
            self.source.append(v.u)
            c.call('verif_md_append', self.p, item(c, SOURCE, v))

    def has(self, k):
        return Or(0, *[Eq(k, x) for x, _ in self.vals])

    def get(self, k):
        r = 0xffffffff
        for x, v in self.vals:
            r = If(Eq(k, x), v, r)
        return r


def listing(c, p):
    """the items of a record, in the order they are stored"""
    n = c.call('verif_md_size', p, ret=64).v
    n = c.concrete(n)
    res = []
    for i in range(n):
        t = c.call('verif_md_at', p, V(i, 64, c), ret='p').v
        res.append((c.call('verif_type_code', t, ret=32).v.u, c.call('verif_any_id', t, ret=32).v.u))
    return res


def same(c, what, got, want):
    c.ensure(what + ': number of items', Eq(len(got), len(want)))
    if len(got) != len(want):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        c.ensure('%s: item %d' % (what, i), And(Eq(g[0], w[0]), Eq(g[1], w[1])))


def tail(r):
    return [(NOTE, v) for v in r.notes] + [(SOURCE, v) for v in r.source]


def destroyed(c, p, what='the record'):
    c.ensure(what + ' can be destroyed', c.call('verif_md_destroy', p).ok)


def sizes(quick, full):
    return [(n, 'quick' if n <= quick else 'thorough') for n in range(full + 1)]


for _n, _t in sizes(5, 16):
    def _f(n, tier):
        @spec('C13', name='metadata_set_%d' % n, tier=tier, targets=[IX + 'set_value(std::unique_ptr<arki::types::Type, std::default_delete<arki::types::Type> >)', IX + 'values_end() const', IX + 'get(arki::types::Code) const', IX + 'has(arki::types::Code) const', IX + '~Index()'])
        def f(c):
            """setting an item adds it in order of type or replaces the one of its type; everything else stays as it was"""
            r = Rec(c, 'r', n, c.choice('notes', 2), c.choice('source', 2))
            k, v = code(c, 'code'), anyid(c, 'val')
            how = c.choice('how', 2)
            t = item(c, k, v)
            x = c.call('verif_md_take' if how else 'verif_md_set', r.p, t)
            c.ensure('can be set', x.ok)
            got = listing(c, r.p)
            had = c.split(r.has(k.u))
            want = []
            done = False
            for x, w in r.vals:
                if had:
                    want.append((x, If(Eq(x, k.u), v.u, w)))
                    continue
                if not done and c.split(k.u < x):
                    want.append((k.u, v.u))
                    done = True
                want.append((x, w))
            if not had and not done:
                want.append((k.u, v.u))
            same(c, 'the record', got, want + tail(r))
            destroyed(c, r.p)

        @spec('C13', name='metadata_unset_%d' % n, tier=tier, targets=[IX + 'unset_value(arki::types::Code)'])
        def f(c):
            """removing an item leaves everything else as it was"""
            r = Rec(c, 'r', n, c.choice('notes', 2), c.choice('source', 2))
            k = code(c, 'code')
            x = c.call('verif_md_unset', r.p, k)
            c.ensure('can be removed', x.ok)
            got = listing(c, r.p)
            same(c, 'the record', got, [(x, w) for x, w in r.vals if not c.split(Eq(x, k.u))] + tail(r))
            destroyed(c, r.p)

        @spec('C13', name='metadata_get_%d' % n, tier=tier, targets=[IX + 'get(arki::types::Code) const', IX + 'has(arki::types::Code) const'])
        def f(c):
            """reading gives the item of that type, or nothing"""
            r = Rec(c, 'r', n, c.choice('notes', 2), c.choice('source', 2))
            k = code(c, 'code')
            h = c.call('verif_md_has', r.p, k, ret=1)
            c.ensure('there is one exactly when it was set', And(h.ok, Iff(h.v.b, r.has(k.u))))
            g = c.call('verif_md_get', r.p, k, ret='p').v
            nul = c.isnull(g)
            c.ensure('nothing when there is none', Iff(int(nul), Not(r.has(k.u))))
            if not nul:
                c.ensure('the type asked for', Eq(c.call('verif_type_code', g, ret=32).v.u, k.u))
                c.ensure('the item that was set', Eq(c.call('verif_any_id', g, ret=32).v.u, r.get(k.u)))
            same(c, 'reading changes nothing', listing(c, r.p), r.vals + tail(r))

        @spec('C13', name='metadata_notes_%d' % n, tier=tier, targets=[IX + 'append_note(std::unique_ptr<arki::types::Note, std::default_delete<arki::types::Note> >)', IX + 'get_last_note() const', IX + 'notes() const', IX + 'clear_notes()'])
        def f(c):
            """a note goes after the others and before the source, and is the last one; removing the notes leaves the rest"""
            r = Rec(c, 'r', n % 4, n // 2, c.choice('source', 2))
            first = c.alloc(8)
            m = c.call('verif_md_notes', r.p, first, ret=32)
            c.ensure('the notes', And(m.ok, Eq(m.v.u, len(r.notes)), Eq(c.ld(first, 0, 64).u, len(r.vals))))
            l = c.call('verif_md_last_note', r.p, ret='p')
            if r.notes:
                c.ensure('there is a last note', l.ok)
                c.ensure('it is the last one', Eq(c.call('verif_any_id', l.v, ret=32).v.u, r.notes[-1]))
            else:
                c.ensure('without notes there is no last one', l.threw)
            v = anyid(c, 'note')
            x = c.call('verif_md_take_note', r.p, item(c, NOTE, v))
            c.ensure('can be added', x.ok)
            same(c, 'added', listing(c, r.p), r.vals + [(NOTE, w) for w in r.notes + [v.u]] + [(SOURCE, w) for w in r.source])
            l = c.call('verif_md_last_note', r.p, ret='p')
            c.ensure('there is a last note', l.ok)
            c.ensure('the last note is the one added', Eq(c.call('verif_any_id', l.v, ret=32).v.u, v.u))
            x = c.call('verif_md_clear_notes', r.p)
            c.ensure('can be removed', x.ok)
            same(c, 'removed', listing(c, r.p), r.vals + [(SOURCE, w) for w in r.source])
            destroyed(c, r.p)

        @spec('C13', name='metadata_source_%d' % n, tier=tier, targets=[IX + 'set_source(std::unique_ptr<arki::types::Source, std::default_delete<arki::types::Source> >)', IX + 'unset_source()', IX + 'get_source() const'])
        def f(c):
            """a record has at most one source, after everything else; the last one set is the one it has"""
            r = Rec(c, 'r', n % 4, n // 2, c.choice('source', 2))
            h = c.call('verif_md_has_source', r.p, ret=1)
            c.ensure('has a source', And(h.ok, Iff(h.v.b, int(bool(r.source)))))
            s = c.call('verif_md_source', r.p, ret='p')
            if r.source:
                c.ensure('the source it has', And(s.ok, Eq(c.call('verif_any_id', s.v, ret=32).v.u, r.source[0])))
            else:
                c.ensure('asking for a source it has not is an error', s.threw)
            v = anyid(c, 'new')
            x = c.call('verif_md_take_source', r.p, item(c, SOURCE, v))
            c.ensure('can be set', x.ok)
            rest = r.vals + [(NOTE, w) for w in r.notes]
            same(c, 'set', listing(c, r.p), rest + [(SOURCE, v.u)])
            for i in range(2):
                x = c.call('verif_md_unset_source', r.p)
                c.ensure('can be removed', x.ok)
                same(c, 'removed', listing(c, r.p), rest)
            destroyed(c, r.p)

        @spec('C13', name='metadata_clone_%d' % n, tier=tier, targets=[MD + 'clone() const', IX + 'clone_fill(arki::metadata::Index const&)', MD + 'operator==(arki::Metadata const&) const'])
        def f(c):
            """a copy is equal and independent of the original"""
            r = Rec(c, 'r', n, c.choice('notes', 2), c.choice('source', 2))
            h = c.call('verif_md_clone', r.p, ret='p')
            c.ensure('can be copied', h.ok)
            q = c.call('verif_md_held', h.v, ret='p').v
            e = c.call('verif_md_equal', r.p, q, ret=1)
            c.ensure('the copy is equal', And(e.ok, e.v.b))
            destroyed(c, r.p, 'the original')
            same(c, 'the copy', listing(c, q), r.vals + tail(r))
    _f(_n, _t)


for _n, _t in sizes(2, 4):
    def _f(n, tier):
        for m in range(5):
            if m > n + 1 or m + n > 7:
                continue

            @spec('C13', name='metadata_equal_%d_%d' % (n, m), tier=tier if m <= 2 else 'thorough', targets=[MD + 'operator==(arki::Metadata const&) const', MD + 'items_equal(arki::Metadata const&) const', MD + 'diff_items(arki::Metadata const&, std::function<void (arki::types::Code, arki::types::Type const*, arki::types::Type const*)>) const'])
            def f(c, m=m):
                """records are equal exactly when they have the same items; comparing the data ignores values, notes and source"""
                a = Rec(c, 'a', n, c.choice('na', 2), c.choice('sa', 2))
                b = Rec(c, 'b', m, c.choice('nb', 2), c.choice('sb', 2))
                x, y = a.vals + tail(a), b.vals + tail(b)
                r = c.call('verif_md_equal', a.p, b.p, ret=1)
                w = And(1, *[And(Eq(i[0], j[0]), Eq(i[1], j[1])) for i, j in zip(x, y)]) if len(x) == len(y) else 0
                c.ensure('same items', And(r.ok, Iff(r.v.b, w)))
                inc = lambda p, q: And(1, *[Or(Eq(k, 18), Eq(q.get(k), v)) for k, v in p.vals])
                r = c.call('verif_md_items_equal', a.p, b.p, ret=1)
                c.ensure('same data', And(r.ok, Iff(r.v.b, And(inc(a, b), inc(b, a)))))

            @spec('C13', name='metadata_diff_%d_%d' % (n, m), tier=tier if m <= 2 else 'thorough', targets=[MD + 'diff_items(arki::Metadata const&, std::function<void (arki::types::Code, arki::types::Type const*, arki::types::Type const*)>) const'])
            def f(c, m=m):
                """the differences are each item that one has and the other has not, once, in order"""
                a, b = Rec(c, 'a', n, 1, 0), Rec(c, 'b', m, 0, 1)
                out = c.alloc(12 * (n + m) + 4)
                r = c.call('verif_md_diff', a.p, b.p, out, ret=32)
                c.ensure('can be compared', r.ok)
                d = c.concrete(r.v)
                q = c.int('q', 32, signed=False, lo=0, hi=63)
                last = -1
                seen = 0
                for i in range(d):
                    k, x, y = [c.ld(out, 12 * i + 4 * j, 32).u for j in range(3)]
                    c.ensure('in order', k > last)
                    last = k
                    c.ensure('the item of the first, or none', Eq(x, a.get(k)))
                    c.ensure('the item of the second, or none', Eq(y, b.get(k)))
                    seen = Or(seen, Eq(k, q.u))
                c.ensure('exactly the types that differ', Iff(seen, And(Not(Eq(q.u, 18)), Not(Eq(a.get(q.u), b.get(q.u))))))

            @spec('C13', name='metadata_merge_%d_%d' % (n, m), tier=tier if m <= 2 else 'thorough', targets=[MD + 'merge(arki::Metadata const&)', IX + 'set_value(std::unique_ptr<arki::types::Type, std::default_delete<arki::types::Type> >)'])
            def f(c, m=m):
                """merging takes all the items of the other record, and keeps the others, its notes and its source"""
                a, b = Rec(c, 'a', n, c.choice('na', 2), c.choice('sa', 2)), Rec(c, 'b', m, 1, 1)
                r = c.call('verif_md_merge', a.p, b.p)
                c.ensure('can be merged', r.ok)
                same(c, 'the other is unchanged', listing(c, b.p), b.vals + tail(b))
                got = listing(c, a.p)
                t = len(got) - len(tail(a))
                same(c, 'notes and source', got[t:], tail(a))
                q = c.int('q', 32, signed=False, lo=0, hi=63)
                g = 0xffffffff
                for k, v in got[:t]:
                    g = If(Eq(q.u, k), v, g)
                c.ensure('the items', Eq(g, If(b.has(q.u), b.get(q.u), a.get(q.u))))
                for x, y in zip(got[:t], got[1:t]):
                    c.ensure('in order', x[0] < y[0])
    _f(_n, _t)


class Set(Rec):
    """a set of items in any state"""

    def __init__(self, c, tag, n):
        self.c = c
        self.p = c.call('verif_itemset_new', ret='p').v
        self.vals, self.notes, self.source = [], [], []
        for i in range(n):
            k, v = c.int('%s.code%d' % (tag, i), 32, signed=False, lo=1, hi=MAXCODE), anyid(c, '%s.val%d' % (tag, i))
            if self.vals:
                c.assume(self.vals[-1][0] < k.u)
            self.vals.append((k.u, v.u))
            c.call('verif_itemset_set', self.p, item(c, k, v))


def slist(c, p, n):
    out = c.alloc(8 * n + 8)
    r = c.call('verif_itemset_list', p, out, ret=64)
    return [(c.ld(out, 8 * i, 32).u, c.ld(out, 8 * i + 4, 32).u) for i in range(c.concrete(r.v))]


IS = TY + 'ItemSet::'
for _n, _t in sizes(5, 16):
    def _f(n, tier):
        @spec('C13', name='itemset_%d' % n, tier=tier, targets=[IS + 'set(std::unique_ptr<arki::types::Type, std::default_delete<arki::types::Type> >)', IS + 'unset(arki::types::Code)', IS + 'get(arki::types::Code) const', IS + 'has(arki::types::Code) const', IS + '~ItemSet()'])
        def f(c):
            """a set of items has the last item set of each type, in order of type"""
            r = Set(c, 'r', n)
            k, v = c.int('code', 32, signed=False, lo=1, hi=MAXCODE), anyid(c, 'val')
            op = c.choice('op', 3)
            if op == 0:
                c.call('verif_itemset_set', r.p, item(c, k, v))
                got = slist(c, r.p, n + 1)
                q = c.int('q', 32, signed=False, lo=0, hi=63)
                g = 0xffffffff
                for x, w in got:
                    g = If(Eq(q.u, x), w, g)
                c.ensure('the items', Eq(g, If(Eq(q.u, k.u), v.u, r.get(q.u))))
                for x, y in zip(got, got[1:]):
                    c.ensure('in order', x[0] < y[0])
            elif op == 1:
                c.call('verif_itemset_unset', r.p, k)
                same(c, 'without it', slist(c, r.p, n + 1), [(x, w) for x, w in r.vals if not c.split(Eq(x, k.u))])
            else:
                h = c.call('verif_itemset_has', r.p, k, ret=1)
                c.ensure('there is one exactly when it was set', Iff(h.v.b, r.has(k.u)))
                g = c.call('verif_itemset_get', r.p, k, ret='p').v
                nul = c.isnull(g)
                c.ensure('nothing when there is none', Iff(int(nul), Not(r.has(k.u))))
                if not nul:
                    c.ensure('the item that was set', Eq(c.call('verif_any_id', g, ret=32).v.u, r.get(k.u)))
            c.ensure('can be destroyed', c.call('verif_itemset_destroy', r.p).ok)

        @spec('C13', name='itemset_copy_%d' % n, tier=tier, targets=[IS + 'ItemSet(arki::types::ItemSet const&)', IS + 'operator=(arki::types::ItemSet const&)'])
        def f(c):
            """a copy of a set is equal and independent"""
            r = Set(c, 'r', n)
            if c.choice('how', 2):
                q = Set(c, 'q', c.choice('had', 2)).p
                c.call('verif_itemset_assign', q, r.p)
            else:
                q = c.call('verif_itemset_copy', r.p, ret='p').v
            e = c.call('verif_itemset_equal', r.p, q, ret=1)
            c.ensure('equal', e.v.b)
            c.call('verif_itemset_assign', q, q)
            c.call('verif_itemset_destroy', r.p)
            same(c, 'the copy', slist(c, q, n + 1), r.vals)
    _f(_n, _t)


for _n in range(3):
    for _m in range(3):
        def _f(n, m):
            @spec('C13', name='itemset_order_%d_%d' % (n, m), targets=[IS + 'compare(arki::types::ItemSet const&) const', IS + 'operator==(arki::types::ItemSet const&) const'])
            def f(c):
                """equality and order of sets of items agree, and the order is antisymmetric"""
                a, b = Set(c, 'a', n), Set(c, 'b', m)
                same_ = And(1, *[And(Eq(x, y), Eq(v, w)) for (x, v), (y, w) in zip(a.vals, b.vals)]) if n == m else 0
                e = c.call('verif_itemset_equal', a.p, b.p, ret=1)
                c.ensure('equal when they have the same items', Iff(e.v.b, same_))
                x = c.call('verif_itemset_compare', a.p, b.p, ret=32).v.s
                y = c.call('verif_itemset_compare', b.p, a.p, ret=32).v.s
                c.ensure('compare as equal exactly when equal', Iff(Eq(x, 0), same_))
                c.ensure('antisymmetric', And(Iff(x < 0, y > 0), Iff(x > 0, y < 0)))
        _f(_n, _m)


@spec('C13', targets=[IS + 'compare(arki::types::ItemSet const&) const'])
def itemset_transitive(c):
    """the order of sets of items is transitive"""
    s = [Set(c, t, c.choice('n' + t, 3)).p for t in 'abd']
    q = lambda i, j: c.call('verif_itemset_compare', s[i], s[j], ret=32).v.s
    c.ensure('transitive', Implies(And(q(0, 1) <= 0, q(1, 2) <= 0), q(0, 2) <= 0))


@spec('C13', targets=[MD + 'encodeBinary() const', MD + 'encodeBinary(arki::core::BinaryEncoder&) const'])
def metadata_encode(c):
    """the encoded form is a header, the length, and the items one after the other in the order they are stored"""
    r = Rec(c, 'r', c.choice('n', 4), c.choice('notes', 2), c.choice('source', 2))
    want = c.alloc(24)
    e = c.alloc(8)
    c.stp(e, 0, want)
    for i in range(len(r.vals + tail(r))):
        x = c.call('verif_encode_binary', c.call('verif_md_at', r.p, V(i, 64, c), ret='p').v, e)
        c.ensure('an item can be encoded', x.ok)
    vec = c.alloc(24)
    x = c.call('verif_md_encode', r.p, vec)
    c.ensure('can be encoded', x.ok)
    a, b = c.ldp(vec, 0), c.ldp(want, 0)
    n = c.concrete(c.pdiff(c.ldp(want, 8), b), 200)
    c.ensure('length', Eq(c.pdiff(c.ldp(vec, 8), a).u, n + 8))
    for i, x in enumerate([77, 68, 0, 0, 0, 0, 0, n]):
        c.ensure('header', Eq(c.ld(a, i, 8).u, x))
    for i in range(n):
        c.ensure('the items', Eq(c.ld(a, 8 + i, 8).u, c.ld(b, i, 8).u))


def real_items(c):
    """items of some types, whether each is there, and the code of each"""
    res = []
    if c.choice('origin', 2):
        res.append((1, simple(c, 'Origin', 'GRIB1', 'o')[0]))
    if c.choice('reftime', 2):
        res.append((5, reftime_position(c, 'r')[0]))
    if c.choice('run', 2):
        res.append((15, run_minute(c, 'm')[0]))
    return res


@spec('C13', dom='bv', targets=[MD + 'read_binary_inner(arki::core::BinaryDecoder&, unsigned int, std::filesystem::__cxx11::path const&, std::filesystem::__cxx11::path const&)', MD + 'encodeBinary(arki::core::BinaryEncoder&) const'])
def metadata_roundtrip(c):
    """a record is read back equal to what was written: the same items, notes and source"""
    init(c)
    c.static_init('_ZN4arki12format_namesB5cxx11E')
    md = c.call('verif_md_new', ret='p').v
    its = real_items(c)
    for k, t in reversed(its):
        c.call('verif_md_set', md, t)
    notes = []
    for i in range(c.choice('notes', 3)):
        t, _, _ = note(c, 'n%d' % i, [3 * i], True)
        c.call('verif_md_take_note', md, t)
    if c.choice('source', 2):
        sz = c.int('size', 64, signed=False)
        c.call('verif_md_source_inline', md, sz)
    vec = c.alloc(24)
    r = c.call('verif_md_encode', md, vec)
    c.ensure('can be encoded', r.ok)
    h = c.call('verif_md_decode', c.ldp(vec, 0), c.pdiff(c.ldp(vec, 8), c.ldp(vec, 0)).trunc(32), ret='p')
    c.ensure('can be decoded', h.ok)
    if h.threw:
        return
    c.ensure('is a record', Not(c.isnull(h.v)))
    q = c.call('verif_md_held', h.v, ret='p').v
    e = c.call('verif_md_equal', md, q, ret=1)
    c.ensure('the same record', And(e.ok, e.v.b))
    for k, t in its:
        g = c.call('verif_md_get', q, V(k, 32, c), ret='p').v
        c.ensure('has the item', Not(c.isnull(g)))
        c.ensure('the same item', c.call('verif_equals', g, t, ret=1).v.b)
    c.ensure('the original can be destroyed', c.call('verif_md_destroy', md).ok)
