"""Value domains and scalar operations of the symbolic executor.

Concrete values are Python ints (unsigned, masked) and Python floats (rounded to
the IR type after every operation).  Symbolic integers are z3 bit-vectors, i1 is a
z3 Bool.  Symbolic floats live in one of two domains:
  * z3 FPRef    bit-precise IEEE-754
  * Poly        polynomial of degree <= 2 over real input variables in [-1,1] plus a
                sound bound on the accumulated rounding error (standard model)
"""
import ctypes
import math
import struct
import z3
import numpy as np


class Unsupported(Exception):
    """The encoder does not model this construct: the run is inconclusive."""


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()

_cf = ctypes.c_float
_libm = ctypes.CDLL('libm.so.6')
RNE = z3.RNE()
SORT = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}
BVT = z3.BitVecRef
BVV = z3.BitVecVal
BITS_U = {16: 2.0**-11, 32: 2.0**-24, 64: 2.0**-53}
ETA = {16: 2.0**-25, 32: 2.0**-150, 64: 0.0}
MAXF = {16: 65504.0, 32: 3.4028234663852886e38, 64: 1.7976931348623157e308}
U64 = 2.0**-53


def f32(x):
    return _cf(x).value


def f16(x):
    if x != x or x in (math.inf, -math.inf):
        return x
    try:
        return struct.unpack('<e', struct.pack('<e', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def rnd(x, bits):
    if bits == 64:
        return x
    if bits == 32:
        return _cf(x).value
    return f16(x)


_fmt = {16: '<e', 32: '<f', 64: '<d'}
_ifmt = {16: '<H', 32: '<I', 64: '<Q'}


def fbits(x, bits):
    """concrete float -> integer bits"""
    if x != x:
        # canonical quiet NaN (x86 default NaN has the sign bit set, but payloads are not modelled)
        return {16: 0x7e00, 32: 0x7fc00000, 64: 0x7ff8000000000000}[bits]
    return struct.unpack(_ifmt[bits], struct.pack(_fmt[bits], x))[0] if abs(x) != math.inf else \
        ({16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}[bits] | ((1 << (bits - 1)) if x < 0 else 0))


def bitsf(i, bits):
    return struct.unpack(_fmt[bits], struct.pack(_ifmt[bits], i))[0]


# ------------------------------------------------------------------------------ Poly
class Poly:
    __slots__ = ('c', 'l', 'q', 'err', '_mag')

    def __init__(self, c, l, q, err):
        self.c = c          # constant
        self.l = l          # linear coefficients (ndarray) or None
        self.q = q          # quadratic coefficients (ndarray n x n) or None
        self.err = err      # |machine value - polynomial| <= err
        self._mag = None

    def mag(self):
        m = self._mag
        if m is None:
            m = abs(self.c)
            if self.l is not None:
                m += float(np.abs(self.l).sum())
            if self.q is not None:
                m += float(np.abs(self.q).sum())
            m = self._mag = m * (1 + 1e-12)
        return m

    def rng(self):
        r = self.mag() - abs(self.c) + self.err
        r += 1e-14 * self.mag()
        return self.c - r, self.c + r

    def __repr__(self):
        return 'Poly(c=%g mag=%g err=%g)' % (self.c, self.mag(), self.err)


def poly_var(i, n):
    l = np.zeros(n)
    l[i] = 1.0
    return Poly(0.0, l, None, 0.0)


def _pz(a, b, s):
    if a is None:
        return None if b is None else (b if s > 0 else -b)
    if b is None:
        return a
    return a + b if s > 0 else a - b


def poly_fin(p, e, bits):
    """Add the rounding error of one operation of the given type to an exact result."""
    m = p.mag()
    p.err = (e + BITS_U[bits] * (m + e) + 4 * U64 * m + ETA[bits]) * (1 + 1e-12)
    if not m < MAXF[bits]:
        raise Unsupported('poly overflow')
    return p


def poly_add(a, b, bits, s=1):
    if type(a) is float:
        return poly_fin(Poly(a + s * b.c, b.l if s > 0 or b.l is None else -b.l,
                             b.q if s > 0 or b.q is None else -b.q, 0.0), b.err, bits) if a != 0.0 else \
            (b if s > 0 else poly_neg(b))
    if type(b) is float:
        if b == 0.0:
            return a
        return poly_fin(Poly(a.c + s * b, a.l, a.q, 0.0), a.err, bits)
    return poly_fin(Poly(a.c + s * b.c, _pz(a.l, b.l, s), _pz(a.q, b.q, s), 0.0), a.err + b.err, bits)


def poly_neg(a):
    return Poly(-a.c, None if a.l is None else -a.l, None if a.q is None else -a.q, a.err)


def poly_scale(a, k):
    return Poly(a.c * k, None if a.l is None else a.l * k, None if a.q is None else a.q * k, 0.0)


def poly_mul(a, b, bits):
    if type(a) is float:
        a, b = b, a
    if type(b) is float:
        if b == 1.0:
            return a
        if b == -1.0:
            return poly_neg(a)
        if b == 0.0:
            return 0.0
        if not math.isfinite(b):
            raise Unsupported('poly * non-finite')
        r = poly_scale(a, b)
        m, _ = math.frexp(abs(b))
        e = abs(b) * a.err
        if m == 0.5:                      # power of two: exact (up to underflow)
            r.err = e + ETA[bits]
            return r
        return poly_fin(r, e, bits)
    if (a.q is not None and (b.l is not None or b.q is not None)) or \
       (b.q is not None and (a.l is not None or a.q is not None)):
        raise Unsupported('poly degree > 2')
    c = a.c * b.c
    l = None
    if b.c != 0.0 and a.l is not None:
        l = a.l * b.c
    if a.c != 0.0 and b.l is not None:
        l = _pz(l, b.l * a.c, 1)
    q = None
    if a.l is not None and b.l is not None:
        q = np.outer(a.l, b.l)
    if a.q is not None and b.c != 0.0:
        q = _pz(q, a.q * b.c, 1)
    if b.q is not None and a.c != 0.0:
        q = _pz(q, b.q * a.c, 1)
    e = a.err * (b.mag() + b.err) + b.err * a.mag()
    return poly_fin(Poly(c, l, q, 0.0), e, bits)


def poly_div(a, b, bits):
    if type(b) is not float:
        raise Unsupported('division by symbolic polynomial')
    if b == 0.0:
        raise Unsupported('poly / 0')
    r = poly_scale(a, 1.0 / b)
    return poly_fin(r, a.err / abs(b), bits)


class PolyCond:
    """An undecided comparison of a polynomial with zero (p <pred> 0)."""
    __slots__ = ('p', 'pred')

    def __init__(self, p, pred):
        self.p = p
        self.pred = pred

    def __repr__(self):
        return 'PolyCond(%r %s 0)' % (self.p, self.pred)


PATH = None       # polynomial domain: takes the undecided branches (see core.PolyPath)


def poly_cmp(pred, a, b, bits):
    # pred: LLVM FCmp predicate number
    if pred == 0:
        return 0
    if pred == 15:
        return 1
    if pred == 7:
        return 1
    if pred == 8:
        return 0
    if a is b:
        return 1 if pred in (1, 9, 3, 11, 5, 13) else 0
    if type(a) is float and not math.isfinite(a) or type(b) is float and not math.isfinite(b):
        lo, hi = (a.rng() if type(a) is not float else (a, a))
        lo2, hi2 = (b.rng() if type(b) is not float else (b, b))
    else:
        d = _exact_diff(a, b)
        if PATH is not None:
            PATH.compared = True
        lo, hi = d.rng()
        lo2 = hi2 = 0.0
    k = pred & 7   # 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
    if k == 2:
        if lo > hi2:
            return 1
        if hi <= lo2:
            return 0
    elif k == 3:
        if lo >= hi2:
            return 1
        if hi < lo2:
            return 0
    elif k == 4:
        if hi < lo2:
            return 1
        if lo >= hi2:
            return 0
    elif k == 5:
        if hi <= lo2:
            return 1
        if lo > hi2:
            return 0
    elif k == 1:
        if lo > hi2 or hi < lo2:
            return 0
    elif k == 6:
        if lo > hi2 or hi < lo2:
            return 1
    if PATH is not None and (type(a) is not float or math.isfinite(a)) and (type(b) is not float or math.isfinite(b)):
        return PATH.decide(k, d)
    raise Unsupported('undecided comparison of polynomials: %r %d %r' % (a, pred, b))


def _exact_diff(a, b):
    if type(a) is float:
        r = poly_neg(b)
        r.c += a
    elif type(b) is float:
        r = Poly(a.c - b, a.l, a.q, a.err)
    else:
        r = Poly(a.c - b.c, _pz(a.l, b.l, -1), _pz(a.q, b.q, -1), a.err + b.err)
    return r


# --------------------------------------------------------------------- opaque int bits
class Pack:
    """A little-endian integer made of pieces (nbytes, value); pieces hold Poly bits."""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return 'Pack%r' % (self.pieces,)


class FBits:
    """Integer holding the bits of a Poly float."""
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v
        self.n = n


def nbytes_of(v, n):
    return n


# ---------------------------------------------------------------------------- ints
def isz(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    """value -> z3 term of width w (Bool when w==1)"""
    t = type(v)
    if t is int or t is bool:
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        return BVV(v, w)
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported('bv of %r' % (v,))


def lit(e):
    """fold z3 literals back to Python ints"""
    if isinstance(e, z3.BitVecNumRef):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def simp(e):
    if isinstance(e, z3.ExprRef):
        return lit(z3.simplify(e))
    return e


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _u(*xs):
    for x in xs:
        if x is UNDEF:
            return True
    return False


def pack_pieces(v, n):
    """int-like value of n bytes -> list of (nbytes, value)"""
    if type(v) is Pack:
        return list(v.pieces)
    if type(v) is FBits:
        return [(v.n, v)]
    return [(n, v)]


def mk_pack(pieces):
    pieces = [p for p in pieces]
    if len(pieces) == 1:
        return pieces[0][1]
    # merge concrete neighbours
    if all(type(v) is int for _, v in pieces):
        r = 0
        sh = 0
        for n, v in pieces:
            r |= v << sh
            sh += 8 * n
        return r
    if all(v is UNDEF for _, v in pieces):
        return UNDEF
    if all(type(v) is int or isinstance(v, BVT) for _, v in pieces):
        return z3.Concat(*[bv(v, 8 * n) for n, v in reversed(pieces)])
    return Pack(pieces)


def pack_slice(v, total, off, n):
    """bytes [off, off+n) of an int-like value"""
    if off == 0 and n == total:
        return v
    if type(v) is int:
        return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
    if isinstance(v, BVT):
        return lit(z3.simplify(z3.Extract(8 * (off + n) - 1, 8 * off, v)))
    if v is UNDEF:
        return UNDEF
    out = []
    pos = 0
    for sz, pv in pack_pieces(v, total):
        a = max(pos, off)
        b = min(pos + sz, off + n)
        if a < b:
            if type(pv) is FBits and (a != pos or b != pos + sz):
                raise Unsupported('partial bits of a polynomial float')
            out.append((b - a, pack_slice(pv, sz, a - pos, b - a)))
        pos += sz
    return mk_pack(out)


def iadd(a, b, w):
    if _u(a, b):
        return UNDEF
    if w == 1:
        return ixor(a, b, 1)
    return bv(a, w) + bv(b, w)


def isub(a, b, w):
    if _u(a, b):
        return UNDEF
    if w == 1:
        return ixor(a, b, 1)
    return bv(a, w) - bv(b, w)


def imul(a, b, w):
    if _u(a, b):
        return UNDEF
    if w == 1:
        return iand(a, b, 1)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
    return bv(a, w) * bv(b, w)


def iand(a, b, w):
    if _u(a, b):
        return 0 if (type(a) is int and a == 0) or (type(b) is int and b == 0) else UNDEF
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
    if type(a) in (Pack, FBits) or type(b) in (Pack, FBits):
        if type(b) is int and type(a) is Pack:
            # byte-granular mask
            n = w // 8
            out = []
            pos = 0
            for sz, pv in pack_pieces(a, n):
                m = (b >> (8 * pos)) & ((1 << (8 * sz)) - 1)
                if m == 0:
                    out.append((sz, 0))
                elif m == (1 << (8 * sz)) - 1:
                    out.append((sz, pv))
                elif type(pv) is FBits:
                    out.append((sz, iand(pv, m, 8 * sz)))
                else:
                    for k in range(sz):
                        mb = (m >> (8 * k)) & 0xff
                        out.append((1, simp(iand(pack_slice(pv, sz, k, 1), mb, 8)) if mb else 0))
                pos += sz
            return mk_pack(out)
        if type(b) is int and type(a) is FBits and b == (1 << (8 * a.n - 1)) - 1:
            return FBits(fabs_(a.v, 8 * a.n), a.n)
        raise Unsupported('and on packed float')
    if w == 1:
        return z3.And(bv(a, 1), bv(b, 1))
    return bv(a, w) & bv(b, w)


def ior(a, b, w):
    if _u(a, b):
        return UNDEF
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return 1
    if type(a) in (Pack, FBits) or type(b) in (Pack, FBits):
        n = w // 8
        pa, pb = pack_pieces(a, n), pack_pieces(b, n)
        cuts = sorted({0, n} | set(_cuts(pa)) | set(_cuts(pb)))
        out = []
        for s, e in zip(cuts, cuts[1:]):
            x, y = pack_slice(a, n, s, e - s), pack_slice(b, n, s, e - s)
            if type(x) is int and x == 0:
                out.append((e - s, y))
            elif type(y) is int and y == 0:
                out.append((e - s, x))
            else:
                raise Unsupported('or on packed float')
        return mk_pack(out)
    if w == 1:
        return z3.Or(bv(a, 1), bv(b, 1))
    return bv(a, w) | bv(b, w)


def _cuts(ps):
    pos = 0
    for n, _ in ps:
        pos += n
        yield pos


def ixor(a, b, w):
    if _u(a, b):
        return UNDEF
    if w == 1:
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            return z3.Not(a) if b else a
        return z3.Xor(a, b)
    if type(a) is int:
        a, b = b, a
    if type(b) is int and b == 0:
        return a
    if type(a) is FBits and type(b) is int and b == 1 << (w - 1):
        return FBits(fneg(a.v, 8 * a.n), a.n)
    return bv(a, w) ^ bv(b, w)


def ishl(a, b, w):
    if _u(a, b):
        return UNDEF
    if type(a) in (Pack, FBits):
        if type(b) is int and b % 8 == 0:
            n = w // 8
            k = b // 8
            if k == 0:
                return a
            return mk_pack([(k, 0)] + pack_pieces(pack_slice(a, n, 0, n - k), n - k))
        raise Unsupported('shl packed float')
    if type(b) is int:
        if b >= w:
            return UNDEF
        if b == 0:
            return a
    return bv(a, w) << bv(b, w)


def ilshr(a, b, w):
    if _u(a, b):
        return UNDEF
    if type(a) in (Pack, FBits):
        if type(b) is int and b % 8 == 0:
            n = w // 8
            k = b // 8
            if k == 0:
                return a
            return mk_pack(pack_pieces(pack_slice(a, n, k, n - k), n - k) + [(k, 0)])
        raise Unsupported('lshr packed float')
    if type(b) is int:
        if b >= w:
            return UNDEF
        if b == 0:
            return a
    return z3.LShR(bv(a, w), bv(b, w))


def iashr(a, b, w):
    if _u(a, b):
        return UNDEF
    if type(b) is int:
        if b >= w:
            return UNDEF
        if b == 0:
            return a
    return bv(a, w) >> bv(b, w)


def c_add(a, b, w): return (a + b) & ((1 << w) - 1)
def c_sub(a, b, w): return (a - b) & ((1 << w) - 1)
def c_mul(a, b, w): return (a * b) & ((1 << w) - 1)
def c_and(a, b, w): return a & b
def c_or(a, b, w): return a | b
def c_xor(a, b, w): return a ^ b
def c_shl(a, b, w): return (a << b) & ((1 << w) - 1) if b < w else UNDEF
def c_lshr(a, b, w): return a >> b if b < w else UNDEF
def c_ashr(a, b, w): return (sgn(a, w) >> b) & ((1 << w) - 1) if b < w else UNDEF


class Trap(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


def c_udiv(a, b, w):
    if b == 0:
        raise Trap('div0', 'division by zero')
    return a // b


def c_urem(a, b, w):
    if b == 0:
        raise Trap('div0', 'remainder by zero')
    return a % b


def c_sdiv(a, b, w):
    if b == 0:
        raise Trap('div0', 'division by zero')
    x, y = sgn(a, w), sgn(b, w)
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    return q & ((1 << w) - 1)


def c_srem(a, b, w):
    if b == 0:
        raise Trap('div0', 'remainder by zero')
    x, y = sgn(a, w), sgn(b, w)
    r = abs(x) % abs(y)
    if x < 0:
        r = -r
    return r & ((1 << w) - 1)


def s_udiv(a, b, w):
    return UNDEF if _u(a, b) else z3.UDiv(bv(a, w), bv(b, w))


def s_urem(a, b, w):
    return UNDEF if _u(a, b) else z3.URem(bv(a, w), bv(b, w))


def s_sdiv(a, b, w):
    return UNDEF if _u(a, b) else bv(a, w) / bv(b, w)


def s_srem(a, b, w):
    return UNDEF if _u(a, b) else z3.SRem(bv(a, w), bv(b, w))


INTOPS = {
    8: (c_add, iadd), 10: (c_sub, isub), 12: (c_mul, imul), 14: (c_udiv, s_udiv), 15: (c_sdiv, s_sdiv),
    17: (c_urem, s_urem), 18: (c_srem, s_srem), 20: (c_shl, ishl), 21: (c_lshr, ilshr), 22: (c_ashr, iashr),
    23: (c_and, iand), 24: (c_or, ior), 25: (c_xor, ixor),
}


def int_binop(opc, a, b, w):
    c, s = INTOPS[opc]
    if type(a) is int and type(b) is int:
        return c(a, b, w)
    if type(a) is tuple:
        return tuple([int_binop(opc, x, y, w) for x, y in zip(a, b)])
    return s(a, b, w)


# LLVM ICmp predicates: 32 EQ 33 NE 34 UGT 35 UGE 36 ULT 37 ULE 38 SGT 39 SGE 40 SLT 41 SLE
def c_icmp(p, a, b, w):
    if p == 32:
        return 1 if a == b else 0
    if p == 33:
        return 1 if a != b else 0
    if p >= 38:
        a, b = sgn(a, w), sgn(b, w)
        p -= 4
    if p == 34:
        return 1 if a > b else 0
    if p == 35:
        return 1 if a >= b else 0
    if p == 36:
        return 1 if a < b else 0
    return 1 if a <= b else 0


def icmp(p, a, b, w):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return c_icmp(p, a, b, w)
    if ta is tuple:
        return tuple([icmp(p, x, y, w) for x, y in zip(a, b)])
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if ta in (Pack, FBits) or tb in (Pack, FBits):
        raise Unsupported('icmp on packed float bits')
    a, b = bv(a, w), bv(b, w)
    if w == 1:
        if p == 32:
            return a == b
        if p == 33:
            return z3.Xor(a, b)
        if p in (34, 40):   # a >u b  /  a <s b
            return z3.And(a, z3.Not(b))
        if p in (36, 38):
            return z3.And(z3.Not(a), b)
        if p in (35, 41):
            return z3.Or(a, z3.Not(b))
        return z3.Or(z3.Not(a), b)
    if p == 32:
        return a == b
    if p == 33:
        return a != b
    if p == 34:
        return z3.UGT(a, b)
    if p == 35:
        return z3.UGE(a, b)
    if p == 36:
        return z3.ULT(a, b)
    if p == 37:
        return z3.ULE(a, b)
    if p == 38:
        return a > b
    if p == 39:
        return a >= b
    if p == 40:
        return a < b
    return a <= b


def zext(a, w, w2):
    t = type(a)
    if t is int:
        return a
    if t is tuple:
        return tuple([zext(x, w, w2) for x in a])
    if a is UNDEF:
        return UNDEF
    if t in (Pack, FBits):
        return mk_pack(pack_pieces(a, w // 8) + [((w2 - w) // 8, 0)])
    if w == 1:
        return z3.If(a, BVV(1, w2), BVV(0, w2))
    return z3.ZeroExt(w2 - w, a)


def sext(a, w, w2):
    t = type(a)
    if t is int:
        return sgn(a, w) & ((1 << w2) - 1)
    if t is tuple:
        return tuple([sext(x, w, w2) for x in a])
    if a is UNDEF:
        return UNDEF
    if w == 1:
        return z3.If(a, BVV((1 << w2) - 1, w2), BVV(0, w2))
    return z3.SignExt(w2 - w, a)


def trunc(a, w, w2):
    t = type(a)
    if t is int:
        return a & ((1 << w2) - 1)
    if t is tuple:
        return tuple([trunc(x, w, w2) for x in a])
    if a is UNDEF:
        return UNDEF
    if t in (Pack, FBits):
        if w2 % 8:
            raise Unsupported('trunc packed')
        return pack_slice(a, w // 8, 0, w2 // 8)
    if w2 == 1:
        return z3.Extract(0, 0, a) == BVV(1, 1)
    return z3.Extract(w2 - 1, 0, a)


def select(c, a, b, ty):
    tc = type(c)
    if tc is int:
        return a if c else b
    if tc is tuple:
        et = ty[2]
        return tuple([select(x, y, z, et) for x, y, z in zip(c, a, b)])
    if c is UNDEF:
        return UNDEF
    return ite(c, a, b, ty)


def ite(c, a, b, ty):
    """merge of two values of IR type ty under z3 Bool c"""
    if a is b:
        return a
    k = ty[0]
    if k == 'vec':
        return tuple([ite(c, x, y, ty[2]) for x, y in zip(a, b)])
    if k == 'st':
        return tuple([ite(c, x, y, t) for x, y, t in zip(a, b, ty[1])])
    if k == 'arr':
        return tuple([ite(c, x, y, ty[2]) for x, y in zip(a, b)])
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if k == 'f':
        if type(a) is float and type(b) is float and (a == b and math.copysign(1, a) == math.copysign(1, b)):
            return a
        if type(a) is Poly or type(b) is Poly:
            raise Unsupported('symbolic select of polynomials')
        h = HOOKS.get(type(a)) or HOOKS.get(type(b)) or BRIDGE
        if h:
            return h.ite(c, a, b)
        return z3.If(c, fpv(a, ty[1]), fpv(b, ty[1]))
    w = 64 if k == 'ptr' else ty[1]
    if type(a) is int and type(b) is int and a == b:
        return a
    if type(a) in (Pack, FBits) or type(b) in (Pack, FBits):
        raise Unsupported('ite of packed floats')
    if w == 1:
        if type(a) is int and type(b) is int:
            return c if a else z3.Not(c)
        return z3.If(c, bv(a, 1), bv(b, 1))
    return z3.If(c, bv(a, w), bv(b, w))


# -------------------------------------------------------------------------- floats
def fpv(v, bits):
    if type(v) is float:
        if v != v:
            return z3.fpNaN(SORT[bits])
        if v == math.inf:
            return z3.fpPlusInfinity(SORT[bits])
        if v == -math.inf:
            return z3.fpMinusInfinity(SORT[bits])
        if v == 0.0:
            return z3.fpMinusZero(SORT[bits]) if math.copysign(1, v) < 0 else z3.fpPlusZero(SORT[bits])
        return z3.fpBVToFP(BVV(fbits(v, bits), bits), SORT[bits])
    return v


def c_fadd(a, b): return a + b
def c_fsub(a, b): return a - b
def c_fmul(a, b): return a * b


def c_fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0.0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


def c_frem(a, b):
    try:
        return math.fmod(a, b)
    except ValueError:
        return math.nan


def z_fadd(a, b): return z3.fpAdd(RNE, a, b)
def z_fsub(a, b): return z3.fpSub(RNE, a, b)
def z_fmul(a, b): return z3.fpMul(RNE, a, b)
def z_fdiv(a, b): return z3.fpDiv(RNE, a, b)


_FC = {9: c_fadd, 11: c_fsub, 13: c_fmul, 16: c_fdiv, 19: c_frem}
_FZ = {9: z_fadd, 11: z_fsub, 13: z_fmul, 16: z_fdiv}


def fbin(opc, a, b, bits):
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        return rnd(_FC[opc](a, b), bits)
    if ta is tuple:
        return tuple([fbin(opc, x, y, bits) for x, y in zip(a, b)])
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if ta is Poly or tb is Poly:
        if opc == 9:
            return poly_add(a, b, bits)
        if opc == 11:
            return poly_add(a, b, bits, -1)
        if opc == 13:
            return poly_mul(a, b, bits)
        if opc == 16:
            return poly_div(a, b, bits)
        raise Unsupported('frem on polynomial')
    h = HOOKS.get(ta) or HOOKS.get(tb)
    if h:
        return h.fbin(opc, a, b, bits)
    if opc not in _FZ:
        raise Unsupported('symbolic frem')
    return _FZ[opc](fpv(a, bits), fpv(b, bits))


HOOKS = {}
BRIDGE = None      # set while the real domain is active: conversions between bit vectors and reals


def fneg(a, bits):
    t = type(a)
    if t is float:
        return -a
    if t is tuple:
        return tuple([fneg(x, bits) for x in a])
    if a is UNDEF:
        return UNDEF
    if t is Poly:
        return poly_neg(a)
    h = HOOKS.get(t)
    if h:
        return h.fneg(a, bits)
    return z3.fpNeg(a)


def fabs_(a, bits):
    t = type(a)
    if t is float:
        return abs(a)
    if t is tuple:
        return tuple([fabs_(x, bits) for x in a])
    if a is UNDEF:
        return UNDEF
    if t is Poly:
        lo, hi = a.rng()
        if lo >= 0:
            return a
        if hi <= 0:
            return poly_neg(a)
        return poly_neg(a) if poly_cmp(4, a, 0.0, bits) else a
    h = HOOKS.get(t)
    if h:
        return h.fabs(a, bits)
    return z3.fpAbs(a)


def fcopysign(a, b, bits):
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    if type(a) is tuple:
        return tuple([fcopysign(x, y, bits) for x, y in zip(a, b)])
    if _u(a, b):
        return UNDEF
    if type(a) is Poly or type(b) is Poly:
        raise Unsupported('copysign of polynomial')
    h = HOOKS.get(type(a)) or HOOKS.get(type(b))
    if h:
        m = h.fabs(a, bits)
        c = h.fcmp(4, b, 0.0, bits)
        return h.ite(c, h.fneg(m, bits), m)
    a, b = fpv(a, bits), fpv(b, bits)
    return z3.If(z3.fpIsNegative(b), z3.fpNeg(z3.fpAbs(a)), z3.fpAbs(a))


_libm.fmaf.restype = ctypes.c_float
_libm.fmaf.argtypes = [ctypes.c_float] * 3
_libm.fma.restype = ctypes.c_double
_libm.fma.argtypes = [ctypes.c_double] * 3


def ffma(a, b, c, bits):
    """fused multiply-add"""
    ta = type(a)
    if ta is tuple:
        return tuple([ffma(x, y, z, bits) for x, y, z in zip(a, b, c)])
    if ta is float and type(b) is float and type(c) is float:
        if bits == 32:
            return _libm.fmaf(a, b, c)
        if bits == 64:
            return _libm.fma(a, b, c)
        return f16(_libm.fma(a, b, c))
    if _u(a, b, c):
        return UNDEF
    if ta is Poly or type(b) is Poly or type(c) is Poly:
        m = poly_mul(a, b, bits) if (type(a) is Poly or type(b) is Poly) else None
        if m is None:
            # constant product: not rounded in the fused form; bound its rounding explicitly
            pr = a * b
            if pr == 0.0:
                return c
            r = poly_add(c, pr, bits)
            r.err += (BITS_U[bits] + 2 * U64) * abs(pr)
            return r
        if type(m) is float:
            return c
        return poly_add(m, c, bits)
    for t in (ta, type(b), type(c)):
        h = HOOKS.get(t)
        if h:
            return h.ffma(a, b, c, bits)
    return z3.fpFMA(RNE, fpv(a, bits), fpv(b, bits), fpv(c, bits))


def fmuladd(a, b, c, bits, fused):
    if type(a) is tuple:
        return tuple([fmuladd(x, y, z, bits, fused) for x, y, z in zip(a, b, c)])
    if fused or type(a) is Poly or type(b) is Poly or type(c) is Poly:
        return ffma(a, b, c, bits)
    return fbin(9, fbin(13, a, b, bits), c, bits)


def fsqrt(a, bits):
    t = type(a)
    if t is float:
        if a != a or a < 0:
            return math.nan
        return rnd(math.sqrt(a), bits)
    if t is tuple:
        return tuple([fsqrt(x, bits) for x in a])
    if a is UNDEF:
        return UNDEF
    if t is Poly:
        raise Unsupported('sqrt of polynomial')
    h = HOOKS.get(t)
    if h:
        return h.fsqrt(a, bits)
    return z3.fpSqrt(RNE, a)


_RM = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'nearbyint': z3.RNE(),
       'round': z3.RNA(), 'roundeven': z3.RNE()}


def c_round(x, how):
    if x != x or abs(x) == math.inf or abs(x) >= 2.0**53:
        return x
    if how == 'floor':
        r = math.floor(x)
    elif how == 'ceil':
        r = math.ceil(x)
    elif how == 'trunc':
        r = math.trunc(x)
    elif how == 'round':
        f = math.floor(abs(x))
        r = f + 1 if abs(x) - f >= 0.5 else f
        return math.copysign(float(r), x)
    else:
        r = round(x)
    return math.copysign(float(r), x) if r == 0 else float(r)


def fround(a, bits, how):
    t = type(a)
    if t is float:
        return c_round(a, how)
    if t is tuple:
        return tuple([fround(x, bits, how) for x in a])
    if a is UNDEF:
        return UNDEF
    if t in HOOKS and hasattr(HOOKS[t], 'fround'):
        return HOOKS[t].fround(a, bits, how)
    if t is Poly or t in HOOKS:
        raise Unsupported('rounding of polynomial')
    return z3.fpRoundToIntegral(_RM[how], a)


def fcmp(p, a, b, bits):
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        un = a != a or b != b
        if p == 0:
            return 0
        if p == 15:
            return 1
        if un:
            return 1 if p & 8 else 0
        if p == 7:
            return 1
        if p == 8:
            return 0
        k = p & 7
        if k == 1:
            r = a == b
        elif k == 2:
            r = a > b
        elif k == 3:
            r = a >= b
        elif k == 4:
            r = a < b
        elif k == 5:
            r = a <= b
        else:
            r = a != b
        return 1 if r else 0
    if ta is tuple:
        return tuple([fcmp(p, x, y, bits) for x, y in zip(a, b)])
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if ta is Poly or tb is Poly:
        return poly_cmp(p, a, b, bits)
    h = HOOKS.get(ta) or HOOKS.get(tb)
    if h:
        return h.fcmp(p, a, b, bits)
    a, b = fpv(a, bits), fpv(b, bits)
    if p == 0:
        return 0
    if p == 15:
        return 1
    un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)) if a is not b else z3.fpIsNaN(a)
    if p == 8:
        return un
    if p == 7:
        return z3.Not(un)
    k = p & 7
    if k == 1:
        r = z3.fpEQ(a, b)
    elif k == 2:
        r = z3.fpGT(a, b)
    elif k == 3:
        r = z3.fpGEQ(a, b)
    elif k == 4:
        r = z3.fpLT(a, b)
    elif k == 5:
        r = z3.fpLEQ(a, b)
    else:
        r = z3.Not(z3.fpEQ(a, b))       # une
        if not p & 8:
            return z3.And(r, z3.Not(un))
        return r
    return z3.Or(r, un) if p & 8 else r


def fpext(a, b1, b2):
    t = type(a)
    if t is float:
        return a
    if t is tuple:
        return tuple([fpext(x, b1, b2) for x in a])
    if a is UNDEF or t is Poly or t in HOOKS:
        return a
    return z3.fpFPToFP(RNE, a, SORT[b2])


def fptrunc(a, b1, b2):
    t = type(a)
    if t is float:
        return rnd(a, b2)
    if t is tuple:
        return tuple([fptrunc(x, b1, b2) for x in a])
    if a is UNDEF:
        return UNDEF
    if t is Poly:
        return poly_fin(Poly(a.c, a.l, a.q, 0.0), a.err, b2)
    if t in HOOKS:
        return HOOKS[t].fptrunc(a, b1, b2)
    return z3.fpFPToFP(RNE, a, SORT[b2])


def fptoi(a, bits, w, signed):
    t = type(a)
    if t is float:
        if a != a or abs(a) == math.inf:
            return UNDEF
        r = math.trunc(a)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if r < lo or r > hi:
            return UNDEF
        return r & ((1 << w) - 1)
    if t is tuple:
        return tuple([fptoi(x, bits, w, signed) for x in a])
    if a is UNDEF:
        return UNDEF
    if t in HOOKS and hasattr(HOOKS[t], 'fptoi'):
        return HOOKS[t].fptoi(a, w, signed)
    if t is Poly or t in HOOKS:
        raise Unsupported('float-to-int of polynomial')
    if w == 1:
        raise Unsupported('fptoi i1')
    return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w))


def itofp(a, w, bits, signed):
    t = type(a)
    if t is int:
        v = sgn(a, w) if signed else a
        if bits == 64:
            return float(v)
        if abs(v) < 1 << 53:
            return rnd(float(v), bits)
        return i2f_exact(v, bits)
    if t is tuple:
        return tuple([itofp(x, w, bits, signed) for x in a])
    if a is UNDEF:
        return UNDEF
    if BRIDGE:
        return BRIDGE.itofp(a, w, bits, signed)
    if w == 1:
        a = z3.If(a, BVV(1, 8), BVV(0, 8))
        if signed:
            raise Unsupported('sitofp i1')
    return z3.fpSignedToFP(RNE, a, SORT[bits]) if signed else z3.fpUnsignedToFP(RNE, a, SORT[bits])


def i2f_exact(v, bits):
    p = {16: 11, 32: 24}[bits]
    s = -1 if v < 0 else 1
    v = abs(v)
    e = v.bit_length() - p
    if e > 0:
        q, r = divmod(v, 1 << e)
        h = 1 << (e - 1)
        if r > h or (r == h and q & 1):
            q += 1
        v = q << e
    return rnd(s * float(v), bits)


def f2i_bits(v, bits):
    """float value -> int value with the same bits"""
    t = type(v)
    if t is float:
        return fbits(v, bits)
    if v is UNDEF:
        return UNDEF
    if hasattr(v, 'bv'):
        return v.bv
    if t is Poly or t in HOOKS:
        return FBits(v, bits // 8)
    # undo a bit cast when possible
    if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)):
        return v.arg(0)
    return z3.fpToIEEEBV(v)


def i2f_bits(v, bits):
    t = type(v)
    if t is int:
        return bitsf(v, bits)
    if v is UNDEF:
        return UNDEF
    if t is FBits:
        return v.v
    if t is Pack:
        raise Unsupported('float from packed bits')
    if BRIDGE:
        return BRIDGE.i2f_bits(v, bits)
    if v.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
        return v.arg(0)
    return z3.fpBVToFP(v, SORT[bits])


# ---------------------------------------------------------------- type helpers
def ty_bits(ty):
    k = ty[0]
    if k in ('i', 'f'):
        return ty[1]
    if k == 'ptr':
        return 64
    if k == 'vec':
        return ty[1] * ty_bits(ty[2])
    raise Unsupported('bits of %r' % (ty,))


def to_int(v, ty):
    """any first-class scalar/vector value -> int-like value of ty_bits(ty) bits"""
    k = ty[0]
    if k in ('i', 'ptr'):
        return v
    if k == 'f':
        return f2i_bits(v, ty[1])
    et = ty[2]
    eb = ty_bits(et)
    if eb % 8:
        # vector of i1 (or similar): concatenate bit-wise
        if all(type(x) is int for x in v):
            r = 0
            for i, x in enumerate(v):
                r |= x << (i * eb)
            return r
        if eb == 1:
            parts = [z3.If(bv(x, 1), BVV(1, 1), BVV(0, 1)) if x is not UNDEF else BVV(0, 1) for x in v]
        else:
            parts = [bv(x, eb) for x in v]
        return z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
    ps = []
    for x in v:
        ps += [(eb // 8, to_int(x, et))]
    flat = []
    for n, x in ps:
        flat += pack_pieces(x, n) if type(x) is Pack else [(n, x)]
    return mk_pack(flat)


def from_int(v, ty):
    k = ty[0]
    if k in ('i', 'ptr'):
        return v
    if k == 'f':
        return i2f_bits(v, ty[1])
    n, et = ty[1], ty[2]
    eb = ty_bits(et)
    if v is UNDEF:
        return tuple([UNDEF] * n)
    if eb % 8:
        if type(v) is int:
            return tuple([(v >> (i * eb)) & ((1 << eb) - 1) for i in range(n)])
        if eb == 1:
            return tuple([z3.Extract(i, i, v) == BVV(1, 1) for i in range(n)]) if n > 1 or z3.is_bv(v) else (v,)
        return tuple([z3.Extract(i * eb + eb - 1, i * eb, v) for i in range(n)])
    tot = n * eb // 8
    return tuple([from_int(pack_slice(v, tot, i * eb // 8, eb // 8), et) for i in range(n)])


def bitcast(v, t1, t2):
    if t1 == t2:
        return v
    k1, k2 = t1[0], t2[0]
    if k1 == 'vec' and k2 == 'vec' and ty_bits(t1[2]) == ty_bits(t2[2]):
        return tuple([bitcast(x, t1[2], t2[2]) for x in v])
    if k1 in ('ptr', 'i') and k2 in ('ptr', 'i'):
        return v
    return from_int(to_int(v, t1), t2)
