"""Decoding and reading metadata items of arbitrary bytes is memory safe"""
from check import spec
from contract import *
from _items import *

CODES = [('Origin', 1), ('Product', 2), ('Level', 3), ('Timerange', 4), ('Reftime', 5), ('Note', 6), ('AssignedDataset', 8),
         ('Area', 9), ('Proddef', 10), ('BBox', 14), ('Run', 15), ('Task', 16), ('Quantity', 17), ('Value', 18)]


def mk_dec(cls, N=14, **kw):
    sig = '%s%s::decode(arki::core::BinaryDecoder&, bool)' % (TY, cls)

    @spec('C07', name='%s_decode_any' % cls.lower(), dom='bv', targets=[sig], **kw)
    def f(c):
        """any bytes: an error, or an item that consumed them all, equal to itself, that encodes back to the same bytes"""
        init(c)
        p, n = c.bytes('data', 0, N)
        d = decoder(c, p, n)
        s = sret(c, 8)
        r = c.call(sig, s, d, c.bool('reuse_buffer'))
        if r.threw:
            c.cover('rejected')
            return
        c.cover('accepted')
        c.ensure('the whole buffer is consumed', Eq(drest(c, d).u, 0))
        t = c.ldp(s, 0)
        e, vec = encoder(c)
        r = c.call('verif_encode_inner', t, e)
        c.ensure('the item can be encoded', r.ok)
        c.ensure('it encodes to the bytes it was decoded from', c.bytes_eq(c.vec(vec), c.mem(p, n)))
        k = c.call('verif_clone', t, ret='p')
        if k.ok:
            q = c.call('verif_equals', t, k.v, ret=1)
            if q.ok:
                c.cover('cloned and compared')
            c.call('verif_destroy', k.v)
        c.call('verif_destroy', t)


for _c, _n in CODES:
    # a GRIB1 time range of type 10 can overflow a signed product (see DESIGN.md): wrapping arithmetic assumed
    mk_dec(_c, **(dict(opts=dict(overflow=False)) if _c == 'Timerange' else {}))

# reading the fields of an encoded item: Class::get_X(data, size, ...)
G = [('Origin', 'get_GRIB1', 3), ('Origin', 'get_GRIB2', 5), ('Origin', 'get_BUFR', 2), ('Product', 'get_GRIB1', 3), ('Product', 'get_GRIB2', 6), ('Product', 'get_VM2', 1),
     ('Level', 'get_GRIB1', 3), ('Level', 'get_GRIB2S', 3), ('Level', 'get_GRIB2D', 6), ('Timerange', 'get_GRIB1', 4), ('Timerange', 'get_BUFR', 2)]


@spec('C07', dom='bv', targets=['%s%s::%s(unsigned char const*, unsigned int%s)' % (TY, k, g, ', unsigned int&' * n) for k, g, n in G])
def getters_any(c):
    """reading the fields of an item made of any bytes gives values or an error and stays inside the item"""
    i = c.choice('getter', len(G))
    k, g, n = G[i]
    p, sz = c.bytes('data', 1, 16)
    out = [c.alloc(4, zero=False) for _ in range(n)]
    r = c.call('%s%s::%s(unsigned char const*, unsigned int%s)' % (TY, k, g, ', unsigned int&' * n), p, sz.trunc(32), *out)
    c.ensure('an error or values', 1)
    if r.ok:
        for o in out:
            c.ensure('every value is set', c.ld(o, 0, 32).u >= 0)
    c.cover('ok' if r.ok else 'error')


def fixed(name, sig, ws):
    @spec('C07', name=name, dom='bv', targets=[sig])
    def f(c):
        """reading the fields of an item made of any bytes gives values or an error and stays inside the item"""
        p, sz = c.bytes('data', 1, 24)
        out = [c.alloc(w // 8, zero=False) for w in ws]
        r = c.call(sig, p, sz.trunc(32), *out)
        if r.ok:
            for o, w in zip(out, ws):
                c.ensure('every value is set', c.ld(o, 0, w).u >= 0)
        c.ensure('an error or values', 1)
        c.cover('ok' if r.ok else 'error')


fixed('level_odimh5_getter_any', TY + 'Level::get_ODIMH5(unsigned char const*, unsigned int, double&, double&)', [64, 64])
fixed('timerange_grib2_getter_any', TY + 'Timerange::get_GRIB2(unsigned char const*, unsigned int, unsigned int&, unsigned int&, long&, long&)', [32, 32, 64, 64])
fixed('timerange_timedef_getter_any', TY + 'Timerange::get_Timedef(unsigned char const*, unsigned int, arki::types::timerange::TimedefUnit&, unsigned int&, unsigned int&, arki::types::timerange::TimedefUnit&, unsigned int&)', [32] * 5)
fixed('run_minute_getter_any', TY + 'Run::get_Minute(unsigned char const*, unsigned int)', [])


@spec('C07', dom='bv', targets=[TY + 'MetadataType::get(arki::TypeCode)'])
def decoder_lookup(c):
    """any type code: an error or a registered decoder, the table is never read out of bounds"""
    init(c)
    if c.choice('kind', 2):
        v = c.int('code', 32)
        c.assume(Or(v.s < 0, v.s >= 1024))
        r = c.call(TY + 'MetadataType::get(arki::TypeCode)', v, ret='p')
        c.ensure('a code outside the table is an error', r.threw)
    else:
        i = c.choice('code', 40)
        r = c.call(TY + 'MetadataType::get(arki::TypeCode)', i, ret='p')
        if i in [n for _, n in CODES] + [7]:
            c.ensure('the decoders of the known types are found', r.ok)
        else:
            c.ensure('unknown types have no decoder', r.threw)
        if r.ok:
            c.ensure('the decoder is not null', Not(c.isnull(r.v)))
