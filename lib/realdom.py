"""Real-arithmetic domain: floating-point values as z3 reals (rounding, overflow and NaN not modelled). For code whose
result is a nonlinear function of its inputs (divisions, square roots, maxima): decided by nonlinear real arithmetic."""
import math
from fractions import Fraction

import z3

import rt
from rt import Unsupported, UNDEF


class Rl:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class RlBits(Rl):
    """a float given by its bit pattern; its real value exists only where the exponent field is fixed"""
    __slots__ = ('bv', 'n', 'val')

    def __init__(self, bv, n):
        self.bv = bv
        self.n = n
        self.val = None

    @property
    def e(self):
        if self.val is None:
            self.val = bits_real(self.bv, self.n)
        return self.val


CUR = None      # executor that receives the axioms
_sq = {}
UF = {}


def R(v):
    if type(v) in (Rl, RlBits):
        return v.e
    if type(v) in (float, int):
        if v != v or v in (math.inf, -math.inf):
            raise Unsupported('non-finite constant in the real domain')
        return z3.RealVal(Fraction(v))
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported('value outside the real domain')


def mk(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if Fraction(float(f)) == f:
            return float(f)
    return Rl(e)


def sqrt_e(x):
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        n, d = math.isqrt(max(f.numerator, 0)), math.isqrt(f.denominator)
        if f >= 0 and n * n == f.numerator and d * d == f.denominator:
            return z3.RealVal(Fraction(n, d))
    k = x.get_id()
    if k in _sq:
        return _sq[k][0]
    s = z3.Real('sqrt!%d' % len(_sq))
    if rng(x)[0] >= 0:
        BOUNDS[s.decl().name()] = (0, INF)
    _sq[k] = (s, x)
    CUR.axioms.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    return s


def uf(name, *a):
    f = UF.get((name, len(a)))
    if f is None:
        f = UF[(name, len(a))] = z3.Function('m_' + name, *([z3.RealSort()] * (len(a) + 1)))
    return f(*a)


# ------------------------------------------------------------------ ranges, from the bounds assumed of the inputs
BOUNDS = {}     # variable -> (lo, hi)
_rng = {}
INF = math.inf


def rng(e):
    """an interval around every value of e within the assumed bounds"""
    todo = [e]
    while todo:
        x = todo[-1]
        k = x.get_id()
        if k in _rng:
            todo.pop()
            continue
        kids = [c for c in x.children() if z3.is_real(c)] if z3.is_app(x) else []
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            if z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c):
                kids = kids + [y for y in c.children() if z3.is_real(y)]
        kids = [c for c in kids if c.get_id() not in _rng]
        if kids:
            todo += kids
            continue
        todo.pop()
        _rng[k] = (_range(x), x)
    return _rng[e.get_id()][0]


def _range(x):
    g = lambda y: _rng[y.get_id()][0]
    top = (-INF, INF)
    if z3.is_rational_value(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        return (f, f)
    if not z3.is_app(x):
        return top
    op = x.decl().kind()
    if op == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
        return BOUNDS.get(x.decl().name(), top)
    if op == z3.Z3_OP_ADD:
        r = [g(c) for c in x.children()]
        return (sum([a for a, b in r]), sum([b for a, b in r]))
    if op == z3.Z3_OP_MUL:
        if x.num_args() == 2 and x.arg(0).eq(x.arg(1)):
            a, b = g(x.arg(0))
            if INF not in (b, -a):
                return (0 if a <= 0 <= b else min(a * a, b * b), max(a * a, b * b))
        lo, hi = g(x.arg(0))
        for c in x.children()[1:]:
            a, b = g(c)
            if INF in (b, -a, hi, -lo):
                return top
            v = (lo * a, lo * b, hi * a, hi * b)
            lo, hi = min(v), max(v)
        return (lo, hi)
    if op == z3.Z3_OP_UMINUS:
        a, b = g(x.arg(0))
        return (-b, -a)
    if op == z3.Z3_OP_ITE:
        c, t, f = x.children()
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        (tl, th), (fl, fh) = g(t), g(f)
        if z3.is_app(c) and c.num_args() == 2 and z3.is_real(c.arg(0)) and (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)):
            p, q = c.children()
            if z3.is_ge(c) or z3.is_gt(c):
                p, q = q, p
            # p <= q where the condition holds, q <= p where not
            def within(u, p, q):
                """the interval of u, given p <= q"""
                (l, h), (pl, ph), (ql, qh) = g(u), g(p), g(q)
                if u.eq(q):
                    l = max(l, pl)
                if u.eq(p):
                    h = min(h, qh)
                if z3.is_mul(u) and u.num_args() == 2 and z3.is_rational_value(u.arg(0)) and u.arg(0).as_fraction() == -1:
                    if u.arg(1).eq(q):
                        h = min(h, -pl)
                    if u.arg(1).eq(p):
                        l = max(l, -qh)
                return l, h
            if neg:
                p, q = q, p
            (tl, th), (fl, fh) = within(t, p, q), within(f, q, p)
        return (min(tl, fl), max(th, fh))
    return top


def compare(k, x, y):
    """the comparison, decided where the ranges settle it"""
    (a, b), (c, d) = rng(x), rng(y)
    if b < c:
        return int(k in (4, 5, 6))
    if d < a:
        return int(k in (2, 3, 6))
    if b <= c and k in (2, 5):
        return int(k == 5)
    if d <= a and k in (3, 4):
        return int(k == 3)
    return {1: x == y, 2: x > y, 3: x >= y, 4: x < y, 5: x <= y, 6: x != y}[k]


class Ops:
    @staticmethod
    def fbin(opc, a, b, bits):
        x, y = R(a), R(b)
        if opc == 9:
            return mk(x + y)
        if opc == 11:
            return mk(x - y)
        if opc == 13:
            return mk(x * y)
        if opc == 16:
            return mk(x / y)
        raise Unsupported('frem on reals')

    @staticmethod
    def fneg(a, bits):
        return mk(-R(a))

    @staticmethod
    def fabs(a, bits):
        x = R(a)
        return mk(z3.If(x < 0, -x, x))

    @staticmethod
    def ffma(a, b, c, bits):
        return mk(R(a) * R(b) + R(c))

    @staticmethod
    def fsqrt(a, bits):
        return mk(sqrt_e(R(a)))

    @staticmethod
    def fptrunc(a, b1, b2):
        return a

    @staticmethod
    def fptoi(a, w, signed):
        return Bridge.to_int(a, w, signed, 'trunc')

    @staticmethod
    def fround(a, bits, how):
        return Bridge.fround(a, bits, how)

    @staticmethod
    def fcmp(p, a, b, bits):
        if type(b) is RlBits and type(a) is float and a == 0.0:
            a, b, p = b, a, {2: 4, 3: 5, 4: 2, 5: 3}.get(p & 7, p & 7) | (p & 8)
        if type(a) is RlBits and type(b) is float and b == 0.0 and p & 7 not in (0, 7):
            # sign of a float given by its bits (NaN excluded)
            n = a.bv.size()
            neg = z3.Extract(n - 1, n - 1, a.bv) == 1
            zero = z3.Extract(n - 2, 0, a.bv) == 0
            k = p & 7
            return z3.simplify({1: zero, 2: z3.And(z3.Not(neg), z3.Not(zero)), 3: z3.Or(z3.Not(neg), zero), 4: z3.And(neg, z3.Not(zero)), 5: z3.Or(neg, zero),
                                6: z3.Not(zero)}[k])
        x, y = R(a), R(b)
        if p in (0, 8):
            return 0
        if p in (15, 7):
            return 1
        return compare(p & 7, x, y)

    @staticmethod
    def ite(c, a, b):
        if isinstance(c, int):
            return a if c else b
        return mk(z3.If(c, R(a), R(b)))


rt.HOOKS[Rl] = Ops
rt.HOOKS[RlBits] = Ops


# ------------------------------------------------------------------ integers and bit patterns inside the real domain
_atoms = {}


def fresh(sort, lo=None, hi=None):
    v = (z3.Int if sort == 'i' else z3.Real)('aux!%d' % len(CUR.axioms))
    if lo is not None:
        CUR.axioms.append(v >= lo)
    if hi is not None:
        CUR.axioms.append(v <= hi)
    if lo is None and hi is None:
        CUR.axioms.append(v == v)
    return v


def is_input(v):
    return z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and not v.decl().name().startswith('cvt!')


def ureal(v):
    """real value of an unsigned bit vector"""
    if type(v) is int:
        return z3.RealVal(v)
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return z3.RealVal(v.as_long())
    k = v.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        r, sh = z3.RealVal(0), 0
        for c in reversed(v.children()):
            r = r + ureal(c) * (1 << sh)
            sh += c.size()
        return z3.simplify(r)
    if k == z3.Z3_OP_ITE:
        return z3.If(v.arg(0), ureal(v.arg(1)), ureal(v.arg(2)))
    if k == z3.Z3_OP_ZERO_EXT:
        return ureal(v.arg(0))
    w = v.size()
    key = v.get_id()
    if key in _atoms:
        return _atoms[key][0]
    top = (1 << w) - 1
    if k == z3.Z3_OP_UNINTERPRETED:
        # integrality of an input is relaxed (sound); conversions are integers
        r = fresh('r', 0, top) if is_input(v) else z3.ToReal(fresh('i', 0, top))
        _atoms[key] = (r, v)
        return r
    if k == z3.Z3_OP_EXTRACT:
        b = v.arg(0)
        hi, lo = v.params()
        n = b.size()
        base = ureal(b)
        r = z3.ToReal(fresh('i', 0, top))
        above = z3.ToReal(fresh('i', 0, (1 << (n - 1 - hi)) - 1)) if hi < n - 1 else z3.RealVal(0)
        below = fresh('r', 0, (1 << lo) - 1) if lo else z3.RealVal(0)
        CUR.axioms.append(base == above * (1 << (hi + 1)) + r * (1 << lo) + below)
        _atoms[key] = (r, v)
        return r
    r = fresh('r', 0, top)
    _atoms[key] = (r, v)
    ch = v.children()
    if k == z3.Z3_OP_BADD and len(ch) == 2:
        # exact sum modulo 2^w
        t = ureal(ch[0]) + ureal(ch[1])
        CUR.axioms.append(z3.Or(r == t, r == t - (1 << w)))
        return r
    if k == z3.Z3_OP_BMUL and len(ch) == 2 and any(z3.is_bv_value(c) for c in ch):
        m = min(c.as_long() for c in ch if z3.is_bv_value(c))
        CUR.axioms.append(r == ureal(ch[0]) * ureal(ch[1]) - z3.ToReal(fresh('i', 0, m)) * (1 << w))
        return r
    CUR.axioms.append(r == z3.Sum([z3.If(z3.Extract(i, i, v) == 1, z3.RealVal(1 << i), z3.RealVal(0)) for i in range(w)]))
    return r


def sreal(v):
    v = z3.simplify(v)
    w = v.size()
    k = v.decl().kind()
    if k == z3.Z3_OP_SIGN_EXT:
        return sreal(v.arg(0))
    if k == z3.Z3_OP_ITE:
        return z3.If(v.arg(0), sreal(v.arg(1)), sreal(v.arg(2)))
    u = ureal(v)
    return z3.simplify(z3.If(u >= (1 << (w - 1)), u - (1 << w), u))


def bits_real(v, n):
    v = z3.simplify(v)
    mb, eb = {32: (23, 8), 64: (52, 11), 16: (10, 5)}[n]
    ex = z3.simplify(z3.Extract(n - 2, mb, v))
    sg = z3.simplify(z3.Extract(n - 1, n - 1, v))
    if not z3.is_bv_value(ex) or not z3.is_bv_value(sg):
        raise Unsupported('bit pattern with a symbolic exponent used as a real')
    e = ex.as_long()
    if e == (1 << eb) - 1:
        raise Unsupported('non-finite bit pattern in the real domain')
    m = ureal(z3.Extract(mb - 1, 0, v)) / (1 << mb)
    bias = (1 << (eb - 1)) - 1
    x = (1 + m) * z3.RealVal(Fraction(2) ** (e - bias)) if e else m * z3.RealVal(Fraction(2) ** (1 - bias))
    return z3.simplify(-x if sg.as_long() else x)


class Bridge:
    ite = staticmethod(lambda c, a, b: mk(z3.If(c, R(a), R(b))))

    @staticmethod
    def itofp(a, w, bits, signed):
        if w == 1:
            return mk(z3.If(a, z3.RealVal(-1 if signed else 1), z3.RealVal(0)))
        return mk(sreal(a) if signed else ureal(a))

    @staticmethod
    def to_int(a, w, signed, how):
        """float -> integer; outside the range of the type the result is arbitrary"""
        x = R(a)
        K = z3.BitVec('cvt!%d' % len(CUR.axioms), w)
        k = sreal(K) if signed else ureal(K)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        whole = z3.is_app_of(x, z3.Z3_OP_TO_REAL)       # already rounded
        CUR.axioms.append(z3.Implies(z3.And(x > lo - 1, x < hi + 1), k == x if whole else Bridge.near(x, k, how)))
        return K

    @staticmethod
    def near(x, k, how):
        h = z3.RealVal('1/2')
        up, dn = z3.And(k <= x, x < k + 1), z3.And(k - 1 < x, x <= k)
        if how == 'trunc':
            return z3.If(x >= 0, up, dn)
        if how == 'floor':
            return up
        if how == 'ceil':
            return dn
        if how == 'round':
            return z3.If(x >= 0, z3.And(k - h <= x, x < k + h), z3.And(k - h < x, x <= k + h))
        return z3.And(k - h <= x, x <= k + h)

    @staticmethod
    def fround(a, bits, how):
        k = z3.ToReal(fresh('i'))
        CUR.axioms.append(Bridge.near(R(a), k, how))
        return mk(k)

    @staticmethod
    def i2f_bits(v, bits):
        return RlBits(v, bits)


# ------------------------------------------------------------------ logarithms and powers
_logs = {}
_pows = {}
EPS = Fraction(1, 1000000)


def const_of(x):
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return None


def log10_e(x):
    """log10 of a positive term: products, quotients and powers are taken apart, factors become atoms"""
    x = z3.simplify(x)
    c = const_of(x)
    if c is not None:
        if c <= 0:
            raise Unsupported('logarithm of a non-positive constant')
        return z3.RealVal(Fraction(math.log10(c.numerator) - math.log10(c.denominator)))
    k = x.decl().kind()
    if k == z3.Z3_OP_MUL:
        return z3.simplify(z3.Sum([log10_abs(a) for a in x.children()]))
    if k == z3.Z3_OP_DIV:
        return z3.simplify(log10_abs(x.arg(0)) - log10_abs(x.arg(1)))
    if k == z3.Z3_OP_POWER and const_of(x.arg(1)) is not None:
        return z3.simplify(log10_abs(x.arg(0)) * x.arg(1))
    if k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
        for s, t in _sq.values():
            if s.get_id() == x.get_id():
                return z3.simplify(log10_abs(t) / 2)
        for p, t in _pows.values():
            if p.get_id() == x.get_id():
                return t
    key = x.get_id()
    if key not in _logs:
        l = z3.Real('log!%d' % len(_logs))
        for l2, y in _logs.values():
            for a, b, la, lb in ((x, y, l, l2), (y, x, l2, l)):
                for eps in (EPS / 20, EPS / 5, EPS, 20 * EPS, 500 * EPS, 10000 * EPS):
                    CUR.axioms.append(z3.Implies(z3.And(a > 0, b > 0, a <= b * (1 + eps)), la <= lb + eps * Fraction(4343, 10000)))
        CUR.axioms.append(z3.Implies(x > 0, z3.And(z3.Implies(x >= 1, l >= 0), z3.Implies(x <= 1, l <= 0), z3.Implies(x >= 10, l >= 1), *[z3.Implies(x <= 10 ** k, l <= k) for k in range(1, 7)],
                                                    l <= Fraction(43430, 100000) * (x - 1))))
        _logs[key] = (l, x)
    return _logs[key][0]


def log10_abs(x):
    c = const_of(x)
    return log10_e(z3.RealVal(abs(c))) if c is not None and c != 0 else log10_e(x)


def log10_guarded(x):
    x = z3.simplify(x)
    c = const_of(x)
    if c is not None:
        return log10_e(x)
    return z3.If(x > 0, log10_e(x), fresh('r'))


def pow10_e(y):
    y = z3.simplify(y)
    for l, x in _logs.values():
        if l.get_id() == y.get_id():
            return x
    c = const_of(y)
    if c is not None:
        return z3.RealVal(Fraction(10.0 ** float(c)))
    key = y.get_id()
    if key not in _pows:
        p = z3.Real('pow!%d' % len(_pows))
        CUR.axioms.append(z3.And(p > 0, z3.Implies(y >= 0, p >= 1 + Fraction(23025, 10000) * y)))
        CUR.axioms += [z3.Implies(y <= k, p <= 10 ** k) for k in range(0, 5)]
        for l, x in _logs.values():
            CUR.axioms.append(z3.Implies(z3.And(y == l, x > 0), p == x))
            d = y - l
            CUR.axioms.append(z3.Implies(z3.And(d >= 0, d <= Fraction(1, 100), x > 0), z3.And(p >= x, p <= x * (1 + Fraction(24, 10) * d))))
            CUR.axioms.append(z3.Implies(z3.And(d <= 0, d >= -Fraction(1, 100), x > 0), z3.And(p <= x, p >= x * (1 + Fraction(24, 10) * d))))
        for p2, z in _pows.values():
            CUR.axioms.append(z3.Implies(y == z, p == p2))
            d = y - z
            CUR.axioms.append(z3.Implies(z3.And(d >= 0, d <= Fraction(1, 100)), z3.And(p >= p2, p <= p2 * (1 + Fraction(24, 10) * d))))
            CUR.axioms.append(z3.Implies(z3.And(d <= 0, d >= -Fraction(1, 100)), z3.And(p <= p2, p >= p2 * (1 + Fraction(24, 10) * d))))
        _pows[key] = (p, y)
    return _pows[key][0]


_trig = {}


def trig_e(x):
    """(cos x, sin x): unit circle, Lipschitz in the argument, double-angle formula (all true of the real functions)"""
    x = z3.simplify(x)
    c = const_of(x)
    if c is not None:
        return rc(math.cos(float(c))), rc(math.sin(float(c)))
    key = x.get_id()
    if key not in _trig:
        c, s = z3.Real('cos!%d' % len(_trig)), z3.Real('sin!%d' % len(_trig))
        CUR.axioms.append(z3.And(c <= 1, c >= -1, s <= 1, s >= -1, c * c + s * s == 1))
        le = lambda a, b, d: z3.Or(z3.And(d >= 0, a - b <= d, b - a <= d), z3.And(d <= 0, a - b <= -d, b - a <= -d))
        for c2, s2, y in _trig.values():
            CUR.axioms.append(z3.And(le(c, c2, x - y), le(s, s2, x - y)))
            CUR.axioms.append(z3.And(le(c, 1 - 2 * s2 * s2, x - 2 * y), le(c2, 1 - 2 * s * s, y - 2 * x)))
        _trig[key] = (c, s, x)
    return _trig[key][:2]


def rc(x):
    return z3.RealVal(Fraction(x))


def L(name, *a):
    a = [R(x) for x in a]
    if name == 'cos':
        return trig_e(a[0])[0]
    if name == 'sin':
        return trig_e(a[0])[1]
    if name == 'log10':
        return log10_guarded(a[0])
    if name == 'log':
        return log10_guarded(a[0]) * rc(math.log(10.0))
    if name == 'log2':
        return log10_guarded(a[0]) * rc(math.log2(10.0))
    if name == 'log1p':
        return log10_guarded(1 + a[0]) * rc(math.log(10.0))
    if name == 'exp':
        return pow10_e(a[0] * rc(math.log10(math.e)))
    if name == 'exp2':
        return pow10_e(a[0] * rc(math.log10(2.0)))
    if name == 'exp10':
        return pow10_e(a[0])
    if name == 'expm1':
        return pow10_e(a[0] * rc(math.log10(math.e))) - 1
    if name == 'pow':
        b, e = const_of(z3.simplify(a[0])), const_of(z3.simplify(a[1]))
        if e is not None and e.denominator == 1 and abs(e) <= 8:
            r = z3.RealVal(1)
            for _ in range(abs(int(e))):
                r = r * a[0]
            return r if e >= 0 else 1 / r
        if e == Fraction(1, 2):
            return sqrt_e(a[0])
        if b is not None and b > 0:
            return pow10_e(a[1] * rc(1.0 if b == 10 else math.log10(b)))
    return uf(name, *a)


def contracts():
    """libm on real arguments: uninterpreted except where a defining equation is available"""
    def un(name):
        return lambda E, bits, *a: mk(L(name, *a))
    d = {n: un(n) for n in ('sin', 'cos', 'tan', 'exp', 'exp2', 'exp10', 'expm1', 'log', 'log2', 'log10', 'log1p', 'pow', 'atan2', 'cbrt')}
    hyp = lambda E, bits, a, b: mk(sqrt_e(R(a) * R(a) + R(b) * R(b)))
    d['hypot'] = d['cabs'] = hyp
    return d


# ------------------------------------------------------------------ contexts for specifications
class Sym:
    """specification context over z3 reals"""
    concrete = False
    sqrt = staticmethod(lambda x: sqrt_e(R(x)))

    @staticmethod
    def fn(name, *a):
        return L(name, *a)

    ureal = staticmethod(lambda v: ureal(v))

    @staticmethod
    def abs(x):
        x = R(x)
        return z3.If(x < 0, -x, x)

    @staticmethod
    def max(a, b):
        c = compare(3, R(a), R(b))
        return (R(a) if c else R(b)) if isinstance(c, int) else z3.If(c, R(a), R(b))

    @staticmethod
    def min(a, b):
        return z3.If(R(a) <= R(b), R(a), R(b))

    @staticmethod
    def ite(c, a, b):
        if isinstance(c, (bool, int)):
            return a if c else b
        return z3.If(c, R(a), R(b))

    @staticmethod
    def all(*c):
        return z3.And(*c)

    @staticmethod
    def any(*c):
        return z3.Or(*c)

    @staticmethod
    def implies(a, b):
        return z3.Implies(a, b)


class Con:
    """the same over Python floats, for replays"""
    concrete = True
    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else math.nan)

    @staticmethod
    def fn(name, *a):
        return 10.0 ** a[0] if name == 'exp10' else getattr(math, name)(*a)

    ureal = staticmethod(lambda v: v)

    abs = staticmethod(abs)
    max = staticmethod(max)
    min = staticmethod(min)
    ite = staticmethod(lambda c, a, b: a if c else b)
    all = staticmethod(lambda *c: all(c))
    any = staticmethod(lambda *c: any(c))
    implies = staticmethod(lambda a, b: (not a) or b)


def reset():
    for d in (_sq, _atoms, _logs, _pows, _trig, BOUNDS, _rng):
        d.clear()
