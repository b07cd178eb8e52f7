"""Value domains.  Concrete integers are canonical unsigned Python ints in both domains.

BV:  a symbolic iN is a z3 BitVec(N), a symbolic i1 is a z3 Bool.
INT: a symbolic iN (N>1) is SI(e, lo, hi): a z3 Int congruent to the machine value modulo 2^N, with known
     bounds lo<=e<=hi; the wrap-around is applied only where a view (signed/unsigned) is taken and the bounds do
     not already show that it is the identity."""
import z3


class Unsupported(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class P:
    """pointer: object id, symbolic offset part (or None), constant offset"""
    __slots__ = ('o', 's', 'c')

    def __init__(self, o, c=0, s=None):
        self.o = o
        self.c = c
        self.s = s

    def __repr__(self):
        return f"P({self.o},{self.c}{',' + str(self.s) if self.s is not None else ''})"

    def add(self, k):
        return P(self.o, self.c + k, self.s)

    def same(self, q):
        return self.o == q.o and self.c == q.c and (self.s is q.s or (
            self.s is not None and q.s is not None and self.s.eq(q.s)))


NULL = P(0, 0)


class F:
    """floating point value: z3 FP expression or raw bits"""
    __slots__ = ('w', 'bits', 'fp')

    def __init__(self, w, bits=None, fp=None):
        self.w = w
        self.bits = bits
        self.fp = fp


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def is_c(v):
    return isinstance(v, int)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def b_and(*xs):
    out = []
    for x in xs:
        if x is True or (isinstance(x, int) and x == 1):
            continue
        if x is False or (isinstance(x, int) and x == 0):
            return 0
        out.append(x)
    if not out:
        return 1
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, int):
            if x:
                return 1
            continue
        out.append(x)
    if not out:
        return 0
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_not(x):
    if isinstance(x, int):
        return 1 - int(x)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_z3(x):
    if isinstance(x, int):
        return TRUE if x else FALSE
    return x


def b_norm(x):
    """fold z3 true/false"""
    if isinstance(x, int):
        return int(x)
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return x


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if isinstance(a, int):
        return b if a else b_not(b)
    if isinstance(b, int):
        return a if b else b_not(a)
    return a == b


class BVDom:
    name = 'bv'

    def fresh(self, name, w):
        return z3.Bool(name) if w == 1 else z3.BitVec(name, w)

    def z(self, v, w):
        """as z3 expression of this domain"""
        if isinstance(v, int):
            return (TRUE if v else FALSE) if w == 1 else z3.BitVecVal(v, w)
        return v

    def ite(self, c, a, b, w):
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
            return a
        if w == 1:
            if isinstance(a, int):
                return b_or(c, b) if a else b_and(b_not(c), b)
            if isinstance(b, int):
                return b_or(b_not(c), a) if b else b_and(c, a)
            return z3.If(c, a, b)
        return z3.If(c, self.z(a, w), self.z(b, w))

    def bin(self, op, w, a, b):
        m = mask(w)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w)) & m
            if op == 'udiv':
                return a // b if b else 0
            if op == 'urem':
                return a % b if b else 0
            sa, sb = sgn(a, w), sgn(b, w)
            if sb == 0:
                return 0
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (sa - q * sb) & m
            raise Unsupported(op)
        if w == 1:
            if op == 'and':
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, int):
                    return b_not(b) if a else b
                if isinstance(b, int):
                    return b_not(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('and', 'mul'):
                return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if b == m and op == 'and':
                return a
            if op in ('shl', 'lshr') and b >= w:
                return 0
        elif isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                return 0
            if a == 1 and op == 'mul':
                return b
            if a == m and op == 'and':
                return b
        A = self.z(a, w)
        B = self.z(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op == 'udiv':
            r = z3.UDiv(A, B)
        elif op == 'urem':
            r = z3.URem(A, B)
        elif op == 'sdiv':
            r = A / B
        elif op == 'srem':
            r = z3.SRem(A, B)
        else:
            raise Unsupported(op)
        return self.fold(r)

    def fold(self, r):
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def foldb(self, r):
        if isinstance(r, int):
            return r
        r = z3.simplify(r)
        return b_norm(r)

    def icmp(self, pred, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if w == 1:
            if pred == 'eq':
                return b_iff(a, b)
            if pred == 'ne':
                return b_not(b_iff(a, b))
            raise Unsupported('i1 cmp ' + pred)
        r = fold_ite_cmp(self, pred, w, a, b)
        if r is not None:
            return r
        A = self.z(a, w)
        B = self.z(b, w)
        if pred == 'eq':
            r = A == B
        elif pred == 'ne':
            r = A != B
        elif pred == 'slt':
            r = A < B
        elif pred == 'sle':
            r = A <= B
        elif pred == 'sgt':
            r = A > B
        elif pred == 'sge':
            r = A >= B
        elif pred == 'ult':
            r = z3.ULT(A, B)
        elif pred == 'ule':
            r = z3.ULE(A, B)
        elif pred == 'ugt':
            r = z3.UGT(A, B)
        elif pred == 'uge':
            r = z3.UGE(A, B)
        else:
            raise Unsupported(pred)
        return self.foldb(r)

    def zext(self, a, w, w2):
        if isinstance(a, int):
            return a
        if w == 1:
            return z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        return z3.ZeroExt(w2 - w, a)

    def sext(self, a, w, w2):
        if isinstance(a, int):
            return sgn(a, w) & mask(w2)
        if w == 1:
            return z3.If(a, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
        return z3.SignExt(w2 - w, a)

    def trunc(self, a, w, w2):
        if isinstance(a, int):
            return a & mask(w2)
        if w2 == 1:
            return self.foldb(z3.Extract(0, 0, a) == 1)
        return self.fold(z3.Extract(w2 - 1, 0, a))

    def tobool(self, a, w):
        """nonzero"""
        return self.icmp('ne', w, a, 0)

    # overflow predicates: "no overflow"
    def no_ovf(self, op, w, a, b, signed):
        if isinstance(a, int) and isinstance(b, int):
            if signed:
                a, b = sgn(a, w), sgn(b, w)
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            else:
                lo, hi = 0, mask(w)
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'shl': a << min(b, 128) if b >= 0 else 0}[op]
            return int(lo <= r <= hi)
        if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
            k, x = (a, b) if isinstance(a, int) else (b, a)
            if signed:
                k = sgn(k, w)
                L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if k == 0:
                    return 1
                if k > 0:
                    lo, hi = -((-L) // k), H // k
                else:
                    lo, hi = -(H // -k), min(H, (-L) // -k)
                return self.foldb(z3.And(x >= lo, x <= hi))
            if k == 0:
                return 1
            return self.foldb(z3.ULE(x, mask(w) // k))
        A = self.z(a, w)
        B = self.z(b, w)
        ext = w if op in ('mul', 'shl') else 1
        if signed:
            X, Y = z3.SignExt(ext, A), z3.SignExt(ext, B)
        else:
            X, Y = z3.ZeroExt(ext, A), z3.ZeroExt(ext, B)
        if op == 'shl':
            Y = z3.ZeroExt(ext, B)
        R = {'add': lambda: X + Y, 'sub': lambda: X - Y, 'mul': lambda: X * Y, 'shl': lambda: X << Y}[op]()
        if signed:
            return self.foldb(R == z3.SignExt(ext, z3.Extract(w - 1, 0, R)))
        return self.foldb(R == z3.ZeroExt(ext, z3.Extract(w - 1, 0, R)))

    # spec views
    def s(self, a, w):
        """signed mathematical view: BV sign-extended is up to the caller; concrete ints become signed"""
        return sgn(a, w) if isinstance(a, int) else a

    def u(self, a, w):
        return a

    def byte(self, v, w, i):
        """i-th little-endian byte of an iw value"""
        if isinstance(v, int):
            return (v >> (8 * i)) & 0xff
        if w == 1:
            return self.zext(v, 1, 8) if i == 0 else 0
        if w == 8:
            return v
        return self.fold(z3.Extract(8 * i + 7, 8 * i, v))

    def concat(self, bs):
        """little-endian bytes -> int of width 8*len"""
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        return self.fold(z3.Concat(*[self.z(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0]

    def arr(self, name):
        return z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))

    def sel(self, arr, i):
        return z3.Select(arr, self.z(i, 64))

    def constraint(self, v, w):
        return None

    def eval(self, model, v, w):
        if isinstance(v, int):
            return v
        r = model.eval(v, model_completion=True)
        if w == 1:
            return int(z3.is_true(r))
        return r.as_long()


class SI:
    __slots__ = ('e', 'lo', 'hi', 'bs', 'src')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.src = None     # (value, width, i) when it is one byte of a wider value
        self.bs = None      # its little-endian bytes, when it was put together from them

    def eq(self, o):
        return isinstance(o, SI) and self.e.eq(o.e)

    def __repr__(self):
        return f"SI({self.e},{self.lo},{self.hi})"


class IntDom:
    name = 'int'

    def __init__(self):
        self.arrs = {}

    def fresh(self, name, w):
        if w == 1:
            return z3.Bool(name)
        return SI(z3.Int(name), -(1 << (w - 1)), (1 << w) - 1)

    def fresh_s(self, name, w):
        return SI(z3.Int(name), -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def fresh_u(self, name, w):
        return SI(z3.Int(name), 0, (1 << w) - 1)

    def constraint(self, v, w):
        if isinstance(v, SI):
            return z3.And(v.e >= v.lo, v.e <= v.hi)
        return None

    def mk(self, e, lo, hi, w):
        if lo == hi:
            return lo & mask(w)
        if isinstance(e, int):
            return e & mask(w)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long() & mask(w)
        return SI(e, lo, hi)

    def sv(self, a, w):
        """(expr, lo, hi) signed view"""
        if isinstance(a, int):
            x = sgn(a, w)
            return x, x, x
        h = 1 << (w - 1)
        if a.lo >= -h and a.hi < h:
            return a.e, a.lo, a.hi
        n = 1 << w
        if a.lo >= 0 and a.hi < n:
            return z3.If(a.e >= h, a.e - n, a.e), -h, h - 1
        if a.lo >= -n and a.hi < 0:
            return z3.If(a.e < -h, a.e + n, a.e), -h, h - 1
        if a.lo >= -h - n and a.hi < h + n:
            return z3.If(a.e >= h, a.e - n, z3.If(a.e < -h, a.e + n, a.e)), -h, h - 1
        m = (a.e + h) % n - h
        return m, -h, h - 1

    def uv(self, a, w):
        if isinstance(a, int):
            return a, a, a
        n = 1 << w
        if a.lo >= 0 and a.hi < n:
            return a.e, a.lo, a.hi
        if a.lo >= -n and a.hi < n:
            return z3.If(a.e < 0, a.e + n, a.e), 0, n - 1
        return a.e % n, 0, n - 1

    def z(self, v, w):
        if w == 1:
            return b_z3(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        return v.e

    def s(self, a, w):
        if w == 1:
            return a
        return self.sv(a, w)[0]

    def u(self, a, w):
        if w == 1:
            return a
        return self.uv(a, w)[0]

    def ite(self, c, a, b, w):
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if w == 1:
            if isinstance(a, int):
                return b_or(c, b) if a else b_and(b_not(c), b)
            if isinstance(b, int):
                return b_or(b_not(c), a) if b else b_and(c, a)
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if isinstance(a, SI) and isinstance(b, SI) and a.e.eq(b.e):
            return a
        # choose the view that agrees
        h = 1 << (w - 1)

        def rng(x):
            return (x, x) if isinstance(x, int) else (x.lo, x.hi)
        if (isinstance(a, int) or isinstance(b, int)):
            o = b if isinstance(a, int) else a
            if isinstance(o, SI) and o.lo < 0:
                fa, fb = self.sv(a, w), self.sv(b, w)
            elif isinstance(o, int) and (a >= h or b >= h):
                fa, fb = self.sv(a, w), self.sv(b, w)
            else:
                fa, fb = self.uv(a, w), self.uv(b, w)
        else:
            fa, fb = (a.e, a.lo, a.hi), (b.e, b.lo, b.hi)
        return SI(z3.If(c, fa[0], fb[0]), min(fa[1], fb[1]), max(fa[2], fb[2]))

    def bin(self, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return BV.bin(op, w, a, b)
        if w == 1:
            return BV.bin(op, w, a, b)

        def raw(x):
            if isinstance(x, int):
                y = sgn(x, w)
                return y, y, y
            return x.e, x.lo, x.hi
        if op in ('add', 'sub', 'mul'):
            (x, xl, xh), (y, yl, yh) = raw(a), raw(b)
            if op == 'add':
                e, lo, hi = x + y, xl + yl, xh + yh
            elif op == 'sub':
                e, lo, hi = x - y, xl - yh, xh - yl
            else:
                if not isinstance(a, int) and not isinstance(b, int):
                    (x, xl, xh), (y, yl, yh) = self.sv(a, w), self.sv(b, w)
                c = [xl * yl, xl * yh, xh * yl, xh * yh]
                e, lo, hi = x * y, min(c), max(c)
            return self.mk(e, lo, hi, w)
        if op in ('sdiv', 'srem'):
            (x, xl, xh), (y, yl, yh) = self.sv(a, w), self.sv(b, w)
            if isinstance(y, int) and y > 0:
                q = x / y if not isinstance(x, int) else z3.IntVal(x) / y
                if xl >= 0:
                    t = q
                    ql, qh = xl // y, xh // y
                else:
                    t = z3.If(x >= 0, q, -((-x) / y))
                    ql, qh = -((-xl) // y), (xh // y if xh >= 0 else -((-xh) // y))
                if op == 'sdiv':
                    return self.mk(t, ql, qh, w)
                if xl >= 0:
                    return self.mk(x % y, 0, min(y - 1, xh), w)
                return self.mk(z3.If(x >= 0, x % y, -((-x) % y)), max(-(y - 1), xl) if xl < 0 else 0, min(y - 1, max(xh, 0)), w)
            X = x if not isinstance(x, int) else z3.IntVal(x)
            Y = y if not isinstance(y, int) else z3.IntVal(y)
            ax = z3.If(X >= 0, X, -X)
            ay = z3.If(Y >= 0, Y, -Y)
            q = ax / ay
            q = z3.If((X >= 0) == (Y >= 0), q, -q)
            h = 1 << (w - 1)
            if op == 'sdiv':
                return self.mk(q, -h, h, w)
            return self.mk(X - q * Y, -h, h - 1, w)
        if op in ('udiv', 'urem'):
            (x, xl, xh), (y, yl, yh) = self.uv(a, w), self.uv(b, w)
            X = x if not isinstance(x, int) else z3.IntVal(x)
            if op == 'udiv':
                return self.mk(X / y, xl // yh if yh else 0, xh // max(yl, 1), w)
            return self.mk(X % y, 0, max(yh - 1, 0), w)
        if op == 'shl' and isinstance(b, int):
            (x, xl, xh) = raw(a)
            return self.mk(x * (1 << b), xl << b, xh << b, w) if b < w else 0
        if op == 'lshr' and isinstance(b, int):
            x, xl, xh = self.uv(a, w)
            return self.mk(x / (1 << b), xl >> b, xh >> b, w) if b < w else 0
        if op == 'ashr' and isinstance(b, int):
            x, xl, xh = self.sv(a, w)
            return self.mk(x / (1 << b), xl >> b, xh >> b, w)
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                x, xl, xh = self.uv(a, w)
                if (b & (b + 1)) == 0:      # low mask
                    if xh <= b:
                        return a
                    return self.mk(x % (b + 1), 0, b, w)
                # contiguous mask
                tz = (b & -b).bit_length() - 1
                bb = b >> tz
                if (bb & (bb + 1)) == 0:
                    return self.mk(((x / (1 << tz)) % (bb + 1)) * (1 << tz), 0, b, w)
        if op == 'or' and True:
            # disjoint or of shifted pieces
            (x, xl, xh), (y, yl, yh) = self.uv(a, w), self.uv(b, w)
            for (p, pl, ph), (q, ql, qh) in (((x, xl, xh), (y, yl, yh)), ((y, yl, yh), (x, xl, xh))):
                # q < 2^k and p a syntactic multiple of 2^k
                k = qh.bit_length()
                if k == 0:
                    return self.mk(p, pl, ph, w)
                if multiple_of(p, 1 << k):
                    return self.mk(p + q, pl + ql, ph + qh, w)
        if op == 'xor' and isinstance(b, int) and b == mask(w):
            (x, xl, xh) = raw(a)
            return self.mk(-1 - x, -1 - xh, -1 - xl, w)
        # fall back through bit-vectors
        A = z3.Int2BV(self.z(a, w), w)
        B = z3.Int2BV(self.z(b, w), w)
        f = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B,
             'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]()
        return SI(z3.BV2Int(f), 0, mask(w))

    def icmp(self, pred, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return BV.icmp(pred, w, a, b)
        if w == 1:
            return BV.icmp(pred, w, a, b)
        if isinstance(a, int) != isinstance(b, int):
            x, y = (a, b) if isinstance(b, int) else (b, a)
            r = fold_ite_cmp(self, pred, w, x.e, b) if isinstance(b, int) else fold_ite_cmp(self, pred, w, a, y.e if isinstance(y, SI) else b.e)
            if r is not None:
                return r
        if pred in ('eq', 'ne'):
            # same view needed
            def ok(x, lo, hi):
                return isinstance(x, int) or (x.lo >= lo and x.hi <= hi)
            h = 1 << (w - 1)
            if (isinstance(a, int) or (a.lo >= 0 and a.hi <= mask(w))) and \
                    (isinstance(b, int) or (b.lo >= 0 and b.hi <= mask(w))):
                (x, xl, xh), (y, yl, yh) = self.uv(a, w), self.uv(b, w)
            else:
                (x, xl, xh), (y, yl, yh) = self.sv(a, w), self.sv(b, w)
            if xh < yl or yh < xl:
                return int(pred == 'ne')
            r = x == y if pred == 'eq' else x != y
            return BV.foldb(r)
        v = self.sv if pred[0] == 's' else self.uv
        (x, xl, xh), (y, yl, yh) = v(a, w), v(b, w)
        p = pred[1:]
        if p == 'lt':
            if xh < yl:
                return 1
            if xl >= yh:
                return 0
            r = x < y
        elif p == 'le':
            if xh <= yl:
                return 1
            if xl > yh:
                return 0
            r = x <= y
        elif p == 'gt':
            if xl > yh:
                return 1
            if xh <= yl:
                return 0
            r = x > y
        else:
            if xl >= yh:
                return 1
            if xh < yl:
                return 0
            r = x >= y
        return BV.foldb(r)

    def foldb(self, r):
        return BV.foldb(r)

    def zext(self, a, w, w2):
        if isinstance(a, int):
            return a
        if w == 1:
            return SI(z3.If(a, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        x, lo, hi = self.uv(a, w)
        return self.mk(x, lo, hi, w2)

    def sext(self, a, w, w2):
        if isinstance(a, int):
            return sgn(a, w) & mask(w2)
        if w == 1:
            return SI(z3.If(a, z3.IntVal(-1), z3.IntVal(0)), -1, 0)
        x, lo, hi = self.sv(a, w)
        return self.mk(x, lo, hi, w2)

    def trunc(self, a, w, w2):
        if isinstance(a, int):
            return a & mask(w2)
        if w2 == 1:
            return BV.foldb(a.e % 2 == 1)
        return a     # congruence modulo 2^w implies congruence modulo 2^w2

    def tobool(self, a, w):
        return self.icmp('ne', w, a, 0)

    def no_ovf(self, op, w, a, b, signed):
        if isinstance(a, int) and isinstance(b, int):
            return BV.no_ovf(op, w, a, b, signed)
        v = self.sv if signed else self.uv
        if op == 'shl':
            if not isinstance(b, int):
                raise Unsupported('symbolic shl overflow')
            (x, xl, xh), (y, yl, yh) = v(a, w), (1 << b, 1 << b, 1 << b)
            op = 'mul'
        else:
            (x, xl, xh), (y, yl, yh) = v(a, w), v(b, w)
        if op == 'add':
            e, lo, hi = x + y, xl + yl, xh + yh
        elif op == 'sub':
            e, lo, hi = x - y, xl - yh, xh - yl
        else:
            c = [xl * yl, xl * yh, xh * yl, xh * yh]
            e, lo, hi = x * y, min(c), max(c)
        L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
        if lo >= L and hi <= H:
            return 1
        return BV.foldb(z3.And(e >= L, e <= H))

    def clamp(self, r, w, signed):
        """after a no-overflow obligation was assumed"""
        if isinstance(r, SI):
            L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
            return SI(r.e, max(r.lo, L), min(r.hi, H))
        return r

    def byte(self, v, w, i):
        if isinstance(v, int):
            return (v >> (8 * i)) & 0xff
        if w == 1:
            return self.zext(v, 1, 8) if i == 0 else 0
        if w == 8:
            return v
        if v.bs is not None and 8 * len(v.bs) == w:
            return v.bs[i]
        x, lo, hi = self.uv(v, w)
        r = self.mk((x / (1 << (8 * i))) % 256, 0, 255, 8)
        if isinstance(r, SI):
            r.src = (v, w, i)
        return r

    def concat(self, bs):
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if len(bs) == 1:
            return bs[0]
        b = bs[0]
        if isinstance(b, SI) and b.src is not None and b.src[2] == 0 and 8 * len(bs) <= b.src[1] \
                and all(isinstance(x, SI) and x.src is not None and x.src[0] is b.src[0] and x.src[2] == i for i, x in enumerate(bs)):
            return self.trunc(b.src[0], b.src[1], 8 * len(bs)) if 8 * len(bs) < b.src[1] else b.src[0]
        e = 0
        for i, b in enumerate(bs):
            e = e + self.uv(b, 8)[0] * (1 << (8 * i))
        r = self.mk(e, 0, mask(8 * len(bs)), 8 * len(bs))
        if isinstance(r, SI):
            r.bs = tuple(bs)
        return r

    def arr(self, name):
        return z3.Array(name, z3.IntSort(), z3.IntSort())

    def sel(self, arr, i):
        e = z3.Select(arr, i if isinstance(i, int) else (i.e if isinstance(i, SI) else i))
        return SI(e, 0, 255)     # the range is asserted by the caller

    def eval(self, model, v, w):
        if isinstance(v, int):
            return v
        if w == 1:
            return int(z3.is_true(model.eval(v, model_completion=True)))
        return model.eval(v.e, model_completion=True).as_long() & mask(w)


def multiple_of(e, k):
    if isinstance(e, int):
        return e % k == 0
    if z3.is_int_value(e):
        return e.as_long() % k == 0
    d = e.decl().kind()
    if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB or d == z3.Z3_OP_UMINUS:
        return all(multiple_of(c, k) for c in e.children())
    if d == z3.Z3_OP_MUL:
        g = 1
        for c in e.children():
            if z3.is_int_value(c):
                g *= c.as_long()
        if g % k == 0:
            return True
        return any(multiple_of(c, k) for c in e.children())
    if d == z3.Z3_OP_ITE:
        return multiple_of(e.arg(1), k) and multiple_of(e.arg(2), k)
    return False


def fold_ite_cmp(dom, pred, w, a, b):
    """compare a nest of ites with constant leaves to a constant: boolean combination of the conditions"""
    if isinstance(b, int) and not isinstance(a, int):
        return _fic(pred, w, a, b, False, 0)
    if isinstance(a, int) and not isinstance(b, int):
        return _fic(pred, w, b, a, True, 0)
    return None


def _fic(pred, w, e, k, swap, depth):
    if z3.is_int_value(e) or z3.is_bv_value(e):
        v = e.as_long() & mask(w)
        return BV.icmp(pred, w, k, v) if swap else BV.icmp(pred, w, v, k)
    if depth > 14 or e.decl().kind() != z3.Z3_OP_ITE:
        return None
    x = _fic(pred, w, e.arg(1), k, swap, depth + 1)
    if x is None:
        return None
    y = _fic(pred, w, e.arg(2), k, swap, depth + 1)
    if y is None:
        return None
    c = e.arg(0)
    if isinstance(x, int) and isinstance(y, int):
        if x == y:
            return x
        return c if x else b_not(c)
    return BV.ite(c, x, y, 1)


BV = BVDom()
INT = IntDom()


def is1(x):
    return isinstance(x, int) and x == 1
