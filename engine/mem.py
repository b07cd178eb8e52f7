"""Byte-accurate object memory: every object is a stack of layers over a base; reads and writes may use symbolic
offsets.  Offsets are (sym, c): an optional z3 expression plus a Python integer."""
import z3
from dom import *


class Content:
    __slots__ = ('base', 'layers', 'sym', 'cells', 'own')

    def __init__(self, base=('uninit',)):
        self.base = base
        self.layers = ()
        self.sym = None
        self.cells = {}      # c -> (n, kind, val)   kind: 'i'|'p'|'f'
        self.own = None

    def clone(self, own):
        x = Content(self.base)
        x.layers = self.layers
        x.sym = self.sym
        x.cells = dict(self.cells)
        x.own = own
        return x

    # -------------------------------------------------------- write side (self must be owned)
    def _setsym(self, s):
        if same_sym(s, self.sym):
            return
        if self.cells:
            self.layers = self.layers + (('cells', self.sym, self.cells),)
            self.cells = {}
        self.sym = s

    def write(self, s, c, n, kind, val, E, st):
        self._setsym(s)
        cells = self.cells
        x = cells.get(c)
        if x is not None and x[0] == n:
            # exact overwrite; nothing longer can start earlier and overlap, by construction
            cells[c] = (n, kind, val)
            return
        # remove/split overlapped cells
        for d in range(c - 15, c + n):
            y = cells.get(d)
            if y is not None and d + y[0] > c and d < c + n:
                if d >= c and d + y[0] <= c + n:
                    del cells[d]
                else:
                    # split into bytes
                    del cells[d]
                    for i in range(y[0]):
                        if not (c <= d + i < c + n):
                            cells[d + i] = (1, 'i', cell_byte(E, y, i))
        cells[c] = (n, kind, val)

    def fill(self, s, c, ln, byte, E):
        self._push()
        self.layers = self.layers + (('fill', s, c, ln, byte),)

    def copy(self, s, c, ln, src, ss, sc, E):
        self._push()
        self.layers = self.layers + (('copy', s, c, ln, src, ss, sc),)

    def _push(self):
        if self.cells:
            self.layers = self.layers + (('cells', self.sym, self.cells),)
            self.cells = {}
            self.sym = None

    # -------------------------------------------------------- read side
    def read(self, s, c, n, E, st):
        """-> (kind, val) for an n byte access; int values have width 8n"""
        r = self._whole(len(self.layers), s, c, n, E, st, True)
        if r is not None:
            return r
        bs = [self.byte(s, c + i, E, st) for i in range(n)]
        if all(b is UNDEF for b in bs):
            return 'i', UNDEF
        # a partly initialised word (padding, coerced small structs): the rest may hold any value
        v = E.dom.concat([E.fresh(st, 'undefbyte', 8, False) if b is UNDEF else b for b in bs])
        if isinstance(v, SI):
            v.bs = tuple(bs)
        return 'i', v

    def _iter(self, upto, top):
        if top and self.cells:
            yield upto, ('cells', self.sym, self.cells)
        for i in range(upto - 1, -1, -1):
            yield i, self.layers[i]

    def _whole(self, upto, s, c, n, E, st, top):
        """single-cell read; None when it must be assembled from bytes"""
        for i, L in self._iter(upto, top):
            k = L[0]
            if k == 'cells':
                if same_sym(L[1], s):
                    x = L[2].get(c)
                    if x is not None and x[0] == n:
                        return x[1], x[2]
                    hit = False
                    for d in range(c - 15, c + n):
                        y = L[2].get(d)
                        if y is not None and d + y[0] > c:
                            hit = True
                            break
                    if hit:
                        return None
                else:
                    r = E.cells_disjoint(st, L, s, c, n)
                    if not r:
                        return None
            elif k == 'fill':
                rel = E.range_rel(st, s, c, n, L[1], L[2], L[3])
                if isinstance(rel, str) and rel == 'in':
                    b = L[4]
                    if b is UNDEF:
                        return 'i', UNDEF
                    return 'i', E.dom.concat([b] * n)
                if not isinstance(rel, str) or rel != 'out':
                    return None
            elif k == 'copy':
                rel = E.range_rel(st, s, c, n, L[1], L[2], L[3])
                if isinstance(rel, str) and rel == 'in':
                    # offset in the source: off - dst + src
                    ns, nc = E.off_sub((s, c), (L[1], L[2]))
                    ns, nc = E.off_add((ns, nc), (L[5], L[6]))
                    return L[4].read(ns, nc, n, E, st)
                if not isinstance(rel, str) or rel != 'out':
                    return None
        if n == 1 or True:
            return self._base(s, c, n, E, st)

    def _base(self, s, c, n, E, st):
        b = self.base
        if b[0] == 'uninit':
            return 'i', UNDEF
        if b[0] == 'zero':
            return 'i', 0
        if b[0] == 'bytes':
            if s is None:
                d = b[1][max(c, 0):c + n]
                d = d + b'\0' * (n - len(d))
                return 'i', int.from_bytes(d, 'little')
            if n > 1:
                return None
            # symbolic index into a constant table
            v = 0
            tbl = b[1]
            off = E.off_expr((s, c))
            r = 0
            lo, hi = E.int_range(st, off, 0, len(tbl) - 1)
            for i in range(lo, hi + 1):
                r = E.dom.ite(E.dom.icmp('eq', 64, off, i), tbl[i], r, 8)
            return 'i', r
        if b[0] == 'arr':
            off = b[2]
            if n == 1:
                e = E.off_expr((s, c + off) if True else None)
                v = E.dom.sel(b[1], e)
                return 'i', E.arr_byte(st, v)
            return None
        if b[0] == 'lazy':
            return b[1](E, st, s, c, n)
        raise Unsupported('read of base ' + b[0])

    def byte(self, s, c, E, st, upto=None, top=True):
        """one byte, with case splits over layers that may or may not cover it"""
        if upto is None:
            upto = len(self.layers)
        for i, L in self._iter(upto, top):
            k = L[0]
            if k == 'cells':
                if same_sym(L[1], s):
                    x = L[2].get(c)
                    if x is not None:
                        return cell_byte(E, x, 0)
                    for d in range(c - 15, c):
                        y = L[2].get(d)
                        if y is not None and d + y[0] > c:
                            return cell_byte(E, y, c - d)
                else:
                    if E.cells_disjoint(st, L, s, c, 1):
                        continue
                    older = self.byte(s, c, E, st, i, False)
                    off = E.off_expr((s, c))
                    r = older
                    for d, y in L[2].items():
                        for j in range(y[0]):
                            eq = E.off_eq(st, (s, c), (L[1], d + j))
                            if isinstance(eq, int) and eq == 0:
                                continue
                            cb = cell_byte(E, y, j)
                            if isinstance(eq, int) and eq == 1:
                                return cb
                            if cb is UNDEF and r is UNDEF:
                                continue
                            if cb is UNDEF:
                                cb = E.fresh(st, 'undefbyte', 8, False)     # uninitialised: any value
                            if r is UNDEF:
                                r = E.fresh(st, 'undefbyte', 8, False)
                            r = E.dom.ite(eq, cb, r, 8)
                    return r
            elif k in ('fill', 'copy'):
                rel = E.range_rel(st, s, c, 1, L[1], L[2], L[3])
                if isinstance(rel, str) and rel == 'out':
                    continue
                if k == 'fill':
                    v = L[4]
                else:
                    ns, nc = E.off_sub((s, c), (L[1], L[2]))
                    ns, nc = E.off_add((ns, nc), (L[5], L[6]))
                    if isinstance(rel, str) and rel == 'in':
                        return L[4].byte(ns, nc, E, st)
                    v = L[4].byte(ns, nc, E, st)
                if isinstance(rel, str) and rel == 'in':
                    return v
                older = self.byte(s, c, E, st, i, False)
                if v is UNDEF and older is UNDEF:
                    return UNDEF
                if v is UNDEF:
                    v = E.fresh(st, 'undefbyte', 8, False)
                if older is UNDEF:
                    older = E.fresh(st, 'undefbyte', 8, False)      # outside a partially known range: any value
                return E.dom.ite(rel, v, older, 8)
        r = self._base(s, c, 1, E, st)
        if r is None:
            raise Unsupported('byte of base')
        return r[1]


def same_sym(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    return a.eq(b)


def cell_byte(E, cell, i):
    n, kind, v = cell
    if v is UNDEF:
        return UNDEF
    if kind == 'p':
        a = E.ptr_int(v)
        return E.dom.byte(a, 64, i)
    if kind == 'f':
        b = E.fbits(v)
        return E.dom.byte(b, 8 * n, i)
    return E.dom.byte(v, 8 * n, i)
