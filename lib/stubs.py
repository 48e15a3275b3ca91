"""LLVM/x86 intrinsics and external (libc, libm, libstdc++) functions.

Every entry here is part of the trusted base: intrinsics follow the LLVM LangRef and the
Intel SDM; libm is executed concretely (real glibc) on concrete arguments only, unless a
check registers a contract for symbolic arguments.
"""
import ctypes
import math
import re
import z3
import llvmc as L
import rt
from rt import UNDEF, Unsupported, bv, BVV

_libm = ctypes.CDLL('libm.so.6')
_cache = {}


def dispatch(E, name, args, ty, atys):
    h = _cache.get(name)
    if h is None:
        h = _cache[name] = lookup(name)
    return h(E, args, ty, atys, name)


def lookup(name):
    if name in TABLE:
        return TABLE[name]
    for pat, h in PATTERNS:
        if pat.match(name):
            return h
    base = name
    if base.endswith('f') and base[:-1] in LIBM1:
        return libm1_32
    if base in LIBM1:
        return libm1_64
    if base.endswith('f') and base[:-1] in LIBM2:
        return libm2_32
    if base in LIBM2:
        return libm2_64

    def unk(E, a, ty, at, n):
        raise Unsupported('external function %s' % n)
    return unk


TABLE = {}
PATTERNS = []


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pat(p):
    def d(f):
        PATTERNS.append((re.compile(p), f))
        return f
    return d


# ------------------------------------------------------------------------ libm
LIBM1 = {'sin', 'cos', 'tan', 'exp', 'exp2', 'log', 'log2', 'log10', 'sqrt', 'sinh', 'cosh', 'tanh', 'asin', 'acos',
         'atan', 'cbrt', 'expm1', 'log1p', 'exp10', 'floor', 'ceil', 'round', 'trunc', 'fabs', 'rint', 'nearbyint'}
LIBM2 = {'pow', 'fmod', 'atan2', 'hypot', 'fmax', 'fmin', 'copysign', 'ldexp_', 'remainder'}


def _getm(name, bits, n):
    f = getattr(_libm, name)
    t = ctypes.c_float if bits == 32 else ctypes.c_double
    f.restype = t
    f.argtypes = [t] * n
    return f


def _libm_call(E, a, name, bits, n):
    if any(x is UNDEF for x in a):
        return UNDEF
    if all(type(x) is float for x in a):
        return _getm(name, bits, n)(*a)
    base = name[:-1] if bits == 32 else name
    c = E.contracts.get(base)
    if c:
        return c(E, bits, *a)
    if base == 'fabs':
        return rt.fabs_(a[0], bits)
    if base == 'sqrt':
        return rt.fsqrt(a[0], bits)
    if base in rt._RM:
        return rt.fround(a[0], bits, base)
    if base in ('fmax', 'fmin'):
        return fminmax(a[0], a[1], bits, base == 'fmax')
    if base == 'copysign':
        return rt.fcopysign(a[0], a[1], bits)
    raise Unsupported('libm %s on symbolic argument' % name)


def libm1_32(E, a, ty, at, n): return _libm_call(E, a, n, 32, 1)
def libm1_64(E, a, ty, at, n): return _libm_call(E, a, n, 64, 1)
def libm2_32(E, a, ty, at, n): return _libm_call(E, a, n, 32, 2)
def libm2_64(E, a, ty, at, n): return _libm_call(E, a, n, 64, 2)


@pat(r'llvm\.(sin|cos|exp|exp2|log|log2|log10|tan)\.f(32|64)$')
def i_libm(E, a, ty, at, n):
    p = n.split('.')
    return _libm_call(E, a, p[1] + ('f' if p[2] == 'f32' else ''), int(p[2][1:]), 1)


@pat(r'llvm\.pow\.f(32|64)$')
def i_pow(E, a, ty, at, n):
    b = int(n.split('.')[2][1:])
    return _libm_call(E, a, 'powf' if b == 32 else 'pow', b, 2)


@reg('sincosf', 'sincos')
def sincos(E, a, ty, at, n):
    b = 32 if n == 'sincosf' else 64
    sfx = 'f' if b == 32 else ''
    E.store(a[1], 32 + b // 8, _libm_call(E, a[:1], 'sin' + sfx, b, 1))
    E.store(a[2], 32 + b // 8, _libm_call(E, a[:1], 'cos' + sfx, b, 1))


@reg('lround', 'lroundf', 'llround', 'llroundf', 'lrint', 'lrintf', 'llrint', 'llrintf')
def lround(E, a, ty, at, n):
    b = 32 if n.endswith('f') else 64
    how = 'round' if 'round' in n else 'rint'
    if type(a[0]) is float or a[0] is UNDEF:
        return rt.fptoi(rt.fround(a[0], b, how), b, 64, True)
    if z3.is_fp(a[0]):
        return z3.fpToSBV(rt._RM[how], a[0], z3.BitVecSort(64))
    h = rt.HOOKS.get(type(a[0]))
    if h and rt.BRIDGE:
        return rt.BRIDGE.to_int(a[0], 64, True, how)
    raise Unsupported('%s of a symbolic real' % n)


@pat(r'llvm\.l?l(round|rint)\.i(32|64)\.f(32|64)$')
def i_lround(E, a, ty, at, n):
    p = n.split('.')
    r = lround(E, a, ty, at, p[1] + ('f' if p[3] == 'f32' else ''))
    return r if p[2] == 'i64' or r is UNDEF else rt.trunc(r, 64, 32)


@reg('ldexp', 'ldexpf', 'scalbn', 'scalbnf')
def ldexp(E, a, ty, at, n):
    if type(a[0]) is float and type(a[1]) is int:
        b = 32 if n.endswith('f') else 64
        return rt.rnd(math.ldexp(a[0], rt.sgn(a[1], 32)), b)
    raise Unsupported('symbolic ldexp')


@reg('frexp', 'frexpf')
def frexp(E, a, ty, at, n):
    if type(a[0]) is float:
        m, e = math.frexp(a[0])
        E.store(a[1], 4, e & 0xffffffff)
        return m
    raise Unsupported('symbolic frexp')


@reg('__mulsc3', '__muldc3', '__divsc3', '__divdc3')
def cmul(E, a, ty, at, n):
    raise Unsupported('%s: complex multiplication with NaN recovery' % n)


def fminmax(a, b, bits, mx):
    """IEEE maxNum/minNum"""
    if type(a) is tuple:
        return tuple([fminmax(x, y, bits, mx) for x, y in zip(a, b)])
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is float and type(b) is float:
        if a != a:
            return b
        if b != b:
            return a
        return (a if a > b else b) if mx else (a if a < b else b)
    if type(a) is rt.Poly or type(b) is rt.Poly:
        c = rt.poly_cmp(2 if mx else 4, a, b, bits)
        return a if c else b
    h = rt.HOOKS.get(type(a)) or rt.HOOKS.get(type(b))
    if h:
        return h.ite(h.fcmp(2 if mx else 4, a, b, bits), a, b)
    a, b = rt.fpv(a, bits), rt.fpv(b, bits)
    c = z3.fpGT(a, b) if mx else z3.fpLT(a, b)
    return z3.If(z3.fpIsNaN(a), b, z3.If(z3.Or(c, z3.fpIsNaN(b)), a, b))


def _fb(ty):
    return ty[2][1] if ty[0] == 'vec' else ty[1]


@pat(r'llvm\.(maxnum|minnum)\.')
def i_minmax(E, a, ty, at, n):
    return fminmax(a[0], a[1], _fb(ty), n.startswith('llvm.max'))


@pat(r'llvm\.fabs\.')
def i_fabs(E, a, ty, at, n): return rt.fabs_(a[0], _fb(ty))


@pat(r'llvm\.sqrt\.')
def i_sqrt(E, a, ty, at, n): return rt.fsqrt(a[0], _fb(ty))


@pat(r'llvm\.copysign\.')
def i_copysign(E, a, ty, at, n): return rt.fcopysign(a[0], a[1], _fb(ty))


@pat(r'llvm\.(floor|ceil|trunc|rint|nearbyint|round|roundeven)\.')
def i_round(E, a, ty, at, n): return rt.fround(a[0], _fb(ty), n.split('.')[1])


@pat(r'llvm\.fma\.')
def i_fma(E, a, ty, at, n): return rt.ffma(a[0], a[1], a[2], _fb(ty))


@pat(r'llvm\.fmuladd\.')
def i_fmuladd(E, a, ty, at, n): return rt.fmuladd(a[0], a[1], a[2], _fb(ty), E.fma)


@pat(r'llvm\.is\.fpclass\.')
def i_fpclass(E, a, ty, at, n):
    mask = a[1]
    bits = at[0][1]
    x = a[0]
    if type(x) is rt.Poly:
        if mask & 3 == mask or mask & 0x207 == mask:
            return 0     # only NaN/inf classes asked: bounded values are neither
        raise Unsupported('fpclass of polynomial')
    if type(x) is float:
        neg = math.copysign(1, x) < 0
        if x != x:
            c = 2
        elif abs(x) == math.inf:
            c = 4 if neg else 0x200
        elif x == 0:
            c = 0x20 if neg else 0x40
        else:
            sub = abs(x) < {16: 2.0**-14, 32: 2.0**-126, 64: 2.0**-1022}[bits]
            c = (0x10 if neg else 0x80) if sub else (8 if neg else 0x100)
        return 1 if mask & c else 0
    t = []
    neg = z3.fpIsNegative(x)
    pos = z3.fpIsPositive(x)
    for bit, c in ((1 | 2, z3.fpIsNaN(x)), (4, z3.And(neg, z3.fpIsInf(x))), (0x200, z3.And(pos, z3.fpIsInf(x))),
                   (8, z3.And(neg, z3.fpIsNormal(x))), (0x100, z3.And(pos, z3.fpIsNormal(x))),
                   (0x10, z3.And(neg, z3.fpIsSubnormal(x))), (0x80, z3.And(pos, z3.fpIsSubnormal(x))),
                   (0x20, z3.And(neg, z3.fpIsZero(x))), (0x40, z3.And(pos, z3.fpIsZero(x)))):
        if mask & bit:
            t.append(c)
    return z3.Or(*t) if t else 0


# ------------------------------------------------------------------------ integer intrinsics
@pat(r'llvm\.(sadd|uadd|ssub|usub|smul|umul)\.with\.overflow\.')
def i_ovf(E, a, ty, at, n):
    w = at[0][1]
    k = n.split('.')[1]
    x, y = a[0], a[1]
    if x is UNDEF or y is UNDEF:
        return (UNDEF, UNDEF)
    if type(x) is int and type(y) is int:
        if k[0] == 's':
            x, y = rt.sgn(x, w), rt.sgn(y, w)
        r = x + y if 'add' in k else (x - y if 'sub' in k else x * y)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k[0] == 's' else (0, (1 << w) - 1)
        return (r & ((1 << w) - 1), 0 if lo <= r <= hi else 1)
    x, y = bv(x, w), bv(y, w)
    ext = w + 1 if 'mul' not in k else 2 * w
    e = (lambda v: z3.SignExt(ext - w, v)) if k[0] == 's' else (lambda v: z3.ZeroExt(ext - w, v))
    f = (lambda p, q: p + q) if 'add' in k else ((lambda p, q: p - q) if 'sub' in k else (lambda p, q: p * q))
    r = f(x, y)
    wide = f(e(x), e(y))
    return (r, wide != e(r))


@pat(r'llvm\.(sadd|uadd|ssub|usub)\.sat\.')
def i_sat(E, a, ty, at, n):
    k = n.split('.')[1]
    w = _fb(ty)
    if ty[0] == 'vec':
        return tuple([_sat(k, x, y, w) for x, y in zip(a[0], a[1])])
    return _sat(k, a[0], a[1], w)


def _sat(k, x, y, w):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k[0] == 's' else (0, (1 << w) - 1)
    if type(x) is int and type(y) is int:
        if k[0] == 's':
            x, y = rt.sgn(x, w), rt.sgn(y, w)
        r = x + y if 'add' in k else x - y
        return max(lo, min(hi, r)) & ((1 << w) - 1)
    e = (lambda v: z3.SignExt(2, v)) if k[0] == 's' else (lambda v: z3.ZeroExt(2, v))
    r = e(bv(x, w)) + e(bv(y, w)) if 'add' in k else e(bv(x, w)) - e(bv(y, w))
    return clamp_bv(r, w + 2, w, lo, hi)


def clamp_bv(r, w, w2, lo, hi):
    """signed clamp of r (width w) to [lo,hi], truncated to w2"""
    r = z3.If(r < BVV(lo, w), BVV(lo, w), z3.If(r > BVV(hi, w), BVV(hi, w), r))
    return z3.Extract(w2 - 1, 0, r)


@pat(r'llvm\.(smax|smin|umax|umin)\.')
def i_imm(E, a, ty, at, n):
    k = n.split('.')[1]
    p = {'smax': 38, 'smin': 40, 'umax': 34, 'umin': 36}[k]
    w = _fb(ty)

    def one(x, y):
        c = rt.icmp(p, x, y, w)
        return rt.select(c, x, y, ('i', w))
    if ty[0] == 'vec':
        return tuple([one(x, y) for x, y in zip(a[0], a[1])])
    return one(a[0], a[1])


@pat(r'llvm\.abs\.')
def i_abs(E, a, ty, at, n):
    w = _fb(ty)

    def one(x):
        c = rt.icmp(40, x, 0, w)
        return rt.select(c, rt.int_binop(10, 0, x, w), x, ('i', w))
    if ty[0] == 'vec':
        return tuple([one(x) for x in a[0]])
    return one(a[0])


@pat(r'llvm\.ctlz\.')
def i_ctlz(E, a, ty, at, n):
    w = ty[1]
    x = a[0]
    if type(x) is int:
        return w - x.bit_length()
    if x is UNDEF:
        return UNDEF
    r = BVV(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, BVV(w - 1 - i, w), r)
    return r


@pat(r'llvm\.cttz\.')
def i_cttz(E, a, ty, at, n):
    w = ty[1]
    x = a[0]
    if type(x) is int:
        return w if x == 0 else (x & -x).bit_length() - 1
    if x is UNDEF:
        return UNDEF
    r = BVV(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == 1, BVV(i, w), r)
    return r


@pat(r'llvm\.ctpop\.')
def i_ctpop(E, a, ty, at, n):
    w = ty[1]
    x = a[0]
    if type(x) is int:
        return bin(x).count('1')
    if x is UNDEF:
        return UNDEF
    r = BVV(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return r


@pat(r'llvm\.bswap\.')
def i_bswap(E, a, ty, at, n):
    w = ty[1]
    x = a[0]
    if type(x) is int:
        return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])


@pat(r'llvm\.bitreverse\.')
def i_bitrev(E, a, ty, at, n):
    w = ty[1]
    x = a[0]
    if type(x) is int:
        return int(format(x, '0%db' % w)[::-1], 2)
    return z3.Concat(*[z3.Extract(i, i, x) for i in range(w)])


@pat(r'llvm\.fsh[lr]\.')
def i_fsh(E, a, ty, at, n):
    w = _fb(ty)
    left = n.startswith('llvm.fshl')

    def one(x, y, s):
        if type(s) is not int:
            if type(x) is int and type(y) is int and type(s) is int:
                pass
            s2 = z3.URem(bv(s, w), BVV(w, w))
            cc = z3.Concat(bv(x, w), bv(y, w))
            s2 = z3.ZeroExt(w, s2)
            return z3.Extract(2 * w - 1, w, cc << s2) if left else z3.Extract(w - 1, 0, z3.LShR(cc, s2))
        s %= w
        if type(x) is int and type(y) is int:
            cc = (x << w) | y
            return ((cc << s) >> w) & ((1 << w) - 1) if left else (cc >> s) & ((1 << w) - 1)
        cc = z3.Concat(bv(x, w), bv(y, w))
        return z3.Extract(2 * w - 1 - s, w - s, cc) if left else z3.Extract(w - 1 + s, s, cc)
    if ty[0] == 'vec':
        return tuple([one(*t) for t in zip(*a)])
    return one(*a)


@pat(r'llvm\.vector\.reduce\.')
def i_reduce(E, a, ty, at, n):
    k = n.split('.')[3]
    if k in ('fadd', 'fmul'):
        acc = a[0]
        b = ty[1]
        for x in a[1]:
            acc = rt.fbin(9 if k == 'fadd' else 13, acc, x, b)
        return acc
    v = a[0]
    w = ty[1]
    acc = v[0]
    for x in v[1:]:
        if k in ('add', 'mul', 'and', 'or', 'xor'):
            acc = rt.int_binop({'add': 8, 'mul': 12, 'and': 23, 'or': 24, 'xor': 25}[k], acc, x, w)
        elif k in ('smax', 'smin', 'umax', 'umin'):
            p = {'smax': 38, 'smin': 40, 'umax': 34, 'umin': 36}[k]
            acc = rt.select(rt.icmp(p, acc, x, w), acc, x, ('i', w))
        elif k in ('fmax', 'fmin'):
            acc = fminmax(acc, x, w, k == 'fmax')
        else:
            raise Unsupported(n)
    return acc


# ------------------------------------------------------------------------ control / misc
@pat(r'llvm\.(assume|donothing|prefetch|invariant|var\.annotation|stackrestore|experimental\.noalias)')
def i_nop(E, a, ty, at, n): return None


@pat(r'llvm\.(expect|launder|strip)\.')
def i_id(E, a, ty, at, n): return a[0]


@pat(r'llvm\.stacksave')
def i_ss(E, a, ty, at, n): return 0


@pat(r'llvm\.objectsize\.')
def i_objsize(E, a, ty, at, n): return (1 << ty[1]) - 1


@pat(r'llvm\.is\.constant\.')
def i_isconst(E, a, ty, at, n): return 0


@pat(r'llvm\.(trap|debugtrap)$')
def i_trap(E, a, ty, at, n):
    E.fail('trap', 'llvm.trap')


UBSAN = {0: 'add overflow', 1: 'builtin unreachable', 5: 'divrem overflow', 7: 'float cast overflow',
         10: 'invalid builtin', 12: 'load invalid value', 13: 'missing return', 14: 'mul overflow', 15: 'negate overflow',
         18: 'out of bounds', 19: 'pointer overflow', 20: 'shift out of bounds', 21: 'sub overflow',
         3: 'cfi', 22: 'type mismatch', 23: 'alignment', 24: 'vla bound'}


@pat(r'llvm\.ubsantrap')
def i_ubsan(E, a, ty, at, n):
    E.fail('undefined-behaviour', 'undefined behaviour: %s' % UBSAN.get(a[0], 'kind %r' % (a[0],)))


@reg('__assert_fail')
def assert_fail(E, a, ty, at, n):
    E.fail('assertion', 'assertion failed: %s' % cstr(E, a[0]))


@reg('_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt20__glibcxx_assert_failPKciS0_S0_')
def gassert(E, a, ty, at, n):
    E.fail('assertion', 'libstdc++ assertion failed: %s' % (cstr(E, a[3]) if type(a[3]) is int and a[3] else ''))


@reg('abort', 'exit', '_ZSt9terminatev', '__clang_call_terminate', '_exit')
def abort(E, a, ty, at, n):
    E.fail('abort', n)


def cstr(E, p):
    s = bytearray()
    try:
        while len(s) < 200:
            c = E.load(p + len(s), 1)
            if not c:
                break
            s.append(c)
    except Exception:
        pass
    return s.decode(errors='replace')


def cint(E, v, what):
    if type(v) is int:
        return v
    if isinstance(v, z3.ExprRef):
        return E.concretize(v, what)
    raise Unsupported('symbolic %s' % what)


@pat(r'(llvm\.mem(cpy|move)(\.inline)?\.)|(memcpy$|memmove$)')
def i_memcpy(E, a, ty, at, n):
    d, s, k = a[0], a[1], cint(E, a[2], 'memcpy size')
    if k == 0:
        return d
    d, s = cint(E, d, 'memcpy dst'), cint(E, s, 'memcpy src')
    so, do = E.obj_of(s), E.obj_of(d)
    so_off, do_off = s - so.base, d - do.base
    E._bounds(so, so_off, k, 'memcpy read')
    E._bounds(do, do_off, k, 'memcpy write')
    if do.ro:
        E.fail('write-to-constant', 'memcpy to constant')
    # snapshot of source cells
    out = []
    pos = so_off
    end = so_off + k
    cells = so.cells
    while pos < end:
        c = cells.get(pos)
        if c is not None and pos + (c[0] & 31) <= end:
            out.append((pos - so_off, c[0], c[1]))
            pos += c[0] & 31
            continue
        if c is None and not any(pos - b in cells and (cells[pos - b][0] & 31) > b for b in range(1, 16)):
            out.append((pos - so_off, 1, UNDEF))
            pos += 1
            continue
        out.append((pos - so_off, 1, E.load_int(so, pos, 1)))
        pos += 1
    base = do.base + do_off
    # cells that are overwritten completely go first: no piecewise overwriting of a float
    dc, J = do.cells, E.J
    for p in range(do_off, do_off + k):
        c = dc.get(p)
        if c is not None and p + (c[0] & 31) <= do_off + k:
            if J is not None:
                J.append((do, p, c))
            del dc[p]
    for off, kd, v in out:
        if v is UNDEF and kd == 1 and (do_off + off) not in do.cells:
            # destination byte becomes uninitialised: drop any cell covering it
            if any(do_off + off - b in do.cells and (do.cells[do_off + off - b][0] & 31) > b for b in range(1, 16)):
                E.store(base + off, 1, UNDEF)
            continue
        E.store(base + off, kd, v)
    return d


@pat(r'(llvm\.memset\.)|(memset$)')
def i_memset(E, a, ty, at, n):
    d, v, k = a[0], a[1], cint(E, a[2], 'memset size')
    if k == 0:
        return d
    d = cint(E, d, 'memset dst')
    o = E.obj_of(d)
    off = d - o.base
    E._bounds(o, off, k, 'memset')
    if type(v) is int:
        v &= 0xff
        pos = 0
        # prefer the natural cell width of existing cells / 4 bytes
        while pos < k:
            c = o.cells.get(off + pos)
            w = (c[0] & 31) if c is not None else (8 if (k - pos) % 8 == 0 and (d + pos) % 8 == 0 else
                                                   (4 if (k - pos) >= 4 and (d + pos) % 4 == 0 else 1))
            if pos + w > k:
                w = 1
            E.store(d + pos, w, int.from_bytes(bytes([v]) * w, 'little'))
            pos += w
    else:
        v = rt.trunc(v, at[1][1], 8) if at[1][1] > 8 else v
        for i in range(k):
            E.store(d + i, 1, v)
    return d


@reg('memcmp', 'bcmp')
def memcmp(E, a, ty, at, n):
    k = cint(E, a[2], 'memcmp size')
    for i in range(k):
        x, y = E.load(a[0] + i, 1), E.load(a[1] + i, 1)
        if type(x) is not int or type(y) is not int:
            raise Unsupported('symbolic memcmp')
        if x != y:
            return (x - y) & 0xffffffff
    return 0


@reg('strlen')
def strlen(E, a, ty, at, n):
    k = 0
    while E.load(a[0] + k, 1):
        k += 1
    return k


@reg('malloc', '_Znwm', '_Znam')
def malloc(E, a, ty, at, n): return E.malloc(a[0])


@reg('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def malloc_al(E, a, ty, at, n): return E.malloc(a[0], align=a[1])


@reg('calloc')
def calloc(E, a, ty, at, n):
    sz = cint(E, a[0], 'calloc') * cint(E, a[1], 'calloc')
    p = E.malloc(sz)
    i_memset(E, (p, 0, sz), ty, at, n)
    return p


@reg('aligned_alloc')
def aalloc(E, a, ty, at, n): return E.malloc(a[1], align=a[0])


@reg('posix_memalign')
def pmemalign(E, a, ty, at, n):
    E.store(a[0], 8, E.malloc(a[2], align=a[1]))
    return 0


@reg('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t',
     '_ZdaPvSt11align_val_t')
def free(E, a, ty, at, n): E.free(a[0])


# ------------------------------------------------------------------------ exceptions
@reg('__cxa_allocate_exception')
def cxa_alloc(E, a, ty, at, n): return E.malloc(max(cint(E, a[0], 'size'), 8), kind='exception')


@reg('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_abort')
def cxa_nop(E, a, ty, at, n): return None


@reg('__cxa_begin_catch', '__cxa_get_exception_ptr')
def cxa_begin(E, a, ty, at, n): return a[0]


@reg('__cxa_throw')
def cxa_throw(E, a, ty, at, n):
    raise E.Thrown(a[0], a[1])


@reg('__cxa_rethrow')
def cxa_rethrow(E, a, ty, at, n):
    raise E.exc


@reg('__cxa_guard_acquire')
def guard_acq(E, a, ty, at, n):
    if a[0] in E.guards:
        return 0
    return 1


@reg('__cxa_guard_release')
def guard_rel(E, a, ty, at, n):
    E.guards.add(a[0])
    E.store(a[0], 1, 1)


@reg('__cxa_atexit', '__cxa_thread_atexit', '__cxa_thread_atexit_impl')
def atexit_(E, a, ty, at, n): return 0


@pat(r'llvm\.threadlocal\.address')
def tls_address(E, a, ty, at, n): return a[0]


@pat(r'_ZSt\d+__throw_')
def stdthrow(E, a, ty, at, n):
    raise E.Thrown(0, 0)


@pat(r'_ZNSt\d+(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|range_error|exception)'
     r'[CD]\d')
def exc_ctor(E, a, ty, at, n): return None


@pat(r'llvm\.eh\.typeid\.for')
def typeid_for(E, a, ty, at, n): return E.typeid(a[0])


# ------------------------------------------------------------------------ masked memory
@pat(r'llvm\.masked\.load\.')
def mload(E, a, ty, at, n):
    p, al, mask, pt = a
    eb = rt.ty_bits(ty[2]) // 8
    kd = E._kind(ty[2])
    out = []
    for i, (m, d) in enumerate(zip(mask, pt)):
        if type(m) is not int:
            raise Unsupported('symbolic mask')
        out.append(E.load(E.ptradd(p, i * eb), kd) if m else d)
    return tuple(out)


@pat(r'llvm\.masked\.store\.')
def mstore(E, a, ty, at, n):
    v, p, al, mask = a
    vt = at[0]
    eb = rt.ty_bits(vt[2]) // 8
    kd = E._kind(vt[2])
    for i, (m, x) in enumerate(zip(mask, v)):
        if type(m) is not int:
            raise Unsupported('symbolic mask')
        if m:
            E.store(E.ptradd(p, i * eb), kd, x)


# ------------------------------------------------------------------------ x86 intrinsics
def lanes(f, *vs):
    return tuple([f(*t) for t in zip(*vs)])


def pack_signed(x, w, w2, uns=False):
    lo, hi = (0, (1 << w2) - 1) if uns else (-(1 << (w2 - 1)), (1 << (w2 - 1)) - 1)
    if x is UNDEF:
        return UNDEF
    if type(x) is int:
        return max(lo, min(hi, rt.sgn(x, w))) & ((1 << w2) - 1)
    return clamp_bv(x, w, w2, lo, hi)


@pat(r'llvm\.x86\.(sse2|sse41|avx2|avx512)\.(packsswb|packssdw|packuswb|packusdw)')
def x_pack(E, a, ty, at, n):
    w = at[0][2][1]
    w2 = w // 2
    uns = 'packus' in n
    per = 128 // w
    out = []
    for l in range(len(a[0]) // per):
        for v in a:
            out += [pack_signed(x, w, w2, uns) for x in v[l * per:(l + 1) * per]]
    return tuple(out)


@pat(r'llvm\.x86\.(ssse3|avx2|avx512)\.pmul\.hr\.sw')
def x_pmulhrs(E, a, ty, at, n):
    def one(x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if type(x) is int and type(y) is int:
            return (((rt.sgn(x, 16) * rt.sgn(y, 16)) >> 14) + 1 >> 1) & 0xffff
        p = z3.SignExt(16, bv(x, 16)) * z3.SignExt(16, bv(y, 16))
        r = ((p >> 14) + 1) >> 1
        return z3.Extract(15, 0, r)
    return lanes(one, a[0], a[1])


@pat(r'llvm\.x86\.(sse2|avx2|avx512)\.pmulh(u?)\.w')
def x_pmulh(E, a, ty, at, n):
    uns = 'pmulhu' in n

    def one(x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if type(x) is int and type(y) is int:
            p = x * y if uns else rt.sgn(x, 16) * rt.sgn(y, 16)
            return (p >> 16) & 0xffff
        e = z3.ZeroExt if uns else z3.SignExt
        return z3.Extract(31, 16, e(16, bv(x, 16)) * e(16, bv(y, 16)))
    return lanes(one, a[0], a[1])


@pat(r'llvm\.x86\.(sse2|avx2|avx512)\.pmadd\.wd')
def x_pmaddwd(E, a, ty, at, n):
    def prod(x, y):
        return rt.int_binop(12, rt.sext(x, 16, 32), rt.sext(y, 16, 32), 32)
    ps = [prod(x, y) for x, y in zip(a[0], a[1])]
    return tuple([rt.int_binop(8, ps[i], ps[i + 1], 32) for i in range(0, len(ps), 2)])


@pat(r'llvm\.x86\.(sse2|avx2|avx512)\.(psrli|psrai|pslli)\.(w|d|q)')
def x_shift_imm(E, a, ty, at, n):
    w = ty[2][1]
    k = cint(E, a[1], 'shift')
    if 'psrai' in n:
        k = min(k, w - 1)
        return lanes(lambda x: rt.int_binop(22, x, k, w), a[0])
    if k >= w:
        return (0,) * ty[1]
    op = 21 if 'psrli' in n else 20
    return lanes(lambda x: rt.int_binop(op, x, k, w), a[0])


@pat(r'llvm\.x86\.(sse2|avx2|avx512)\.(psrl|psra|psll)\.(w|d|q)')
def x_shift_vec(E, a, ty, at, n):
    w = ty[2][1]
    cnt = rt.to_int(a[1], at[1])
    k = cint(E, rt.pack_slice(cnt, 16, 0, 8), 'shift')
    if '.psra.' in n:
        k = min(k, w - 1)
        return lanes(lambda x: rt.int_binop(22, x, k, w), a[0])
    if k >= w:
        return (0,) * ty[1]
    op = 21 if '.psrl.' in n else 20
    return lanes(lambda x: rt.int_binop(op, x, k, w), a[0])


@pat(r'llvm\.x86\.(vcvtps2ph\.(128|256)|avx512\.mask\.vcvtps2ph\.512)')
def x_ps2ph(E, a, ty, at, n):
    rmk = cint(E, a[1], 'rounding')
    src = a[0]
    if 'mask' in n:
        if type(a[3]) is not int or a[3] != 0xffff:
            raise Unsupported('masked vcvtps2ph')
    if rmk & 4:
        rmk = 0    # MXCSR default: nearest even
    if rmk & 3:
        rm = {1: z3.RTN(), 2: z3.RTP(), 3: z3.RTZ()}[rmk & 3]
    else:
        rm = z3.RNE()
    out = []
    for x in src:
        if type(x) is float:
            if rmk & 3:
                v = z3.simplify(z3.fpToIEEEBV(z3.fpFPToFP(rm, rt.fpv(x, 32), rt.SORT[16])))
                out.append(v.as_long())
            else:
                out.append(rt.fbits(rt.f16(x), 16))
        elif x is UNDEF:
            out.append(UNDEF)
        elif type(x) is rt.Poly:
            out.append(rt.FBits(rt.fptrunc(x, 32, 16), 2))
        else:
            out.append(rt.f2i_bits(z3.fpFPToFP(rm, x, rt.SORT[16]), 16))
    while len(out) < ty[1]:
        out.append(0)
    return tuple(out)


@pat(r'llvm\.x86\.(sse3|avx)\.(hadd|hsub)\.(ps|pd)')
def x_hadd(E, a, ty, at, n):
    bits = ty[2][1]
    op = 9 if 'hadd' in n else 11
    per = 128 // bits
    out = []
    for l in range(len(a[0]) // per):
        for v in a:
            ch = v[l * per:(l + 1) * per]
            out += [rt.fbin(op, ch[i], ch[i + 1], bits) for i in range(0, per, 2)]
    return tuple(out)


@pat(r'llvm\.x86\.(sse3|avx)\.addsub\.(ps|pd)')
def x_addsub(E, a, ty, at, n):
    bits = ty[2][1]
    return tuple([rt.fbin(11 if i % 2 == 0 else 9, x, y, bits) for i, (x, y) in enumerate(zip(a[0], a[1]))])


@pat(r'llvm\.x86\.fma\.vfmaddsub\.|llvm\.x86\.avx512\.vfmaddsub\.')
def x_fmaddsub(E, a, ty, at, n):
    bits = ty[2][1]
    return tuple([rt.ffma(x, y, rt.fneg(z, bits) if i % 2 == 0 else z, bits)
                  for i, (x, y, z) in enumerate(zip(a[0], a[1], a[2]))])


@pat(r'llvm\.x86\.(sse|sse2|avx|avx512)\.(min|max)\.(ps|pd)')
def x_minmax(E, a, ty, at, n):
    bits = ty[2][1]
    p = 4 if '.min.' in n else 2
    return lanes(lambda x, y: rt.select(rt.fcmp(p, x, y, bits), x, y, ty[2]), a[0], a[1])


@pat(r'llvm\.x86\.(sse|sse2|avx)\.movmsk\.')
def x_movmsk(E, a, ty, at, n):
    bits = at[0][2][1]
    r = 0
    for i, x in enumerate(a[0]):
        b = rt.f2i_bits(x, bits)
        if type(b) is int:
            r |= (b >> (bits - 1)) << i
        else:
            raise Unsupported('symbolic movmsk')
    return r


@pat(r'llvm\.x86\.sse2\.cvt(t?)ps2dq|llvm\.x86\.avx\.cvt(t?)\.?ps2dq')
def x_cvtps2dq(E, a, ty, at, n):
    tr = 'cvttps' in n or 'cvtt.ps' in n

    def one(x):
        if x is UNDEF:
            return UNDEF
        if type(x) is float:
            if x != x or abs(x) == math.inf:
                return 0x80000000
            r = math.trunc(x) if tr else round(x)
            return r & 0xffffffff if -2**31 <= r < 2**31 else 0x80000000
        rm = z3.RTZ() if tr else z3.RNE()
        xr = z3.fpRoundToIntegral(rm, x)
        ok = z3.And(z3.fpGEQ(xr, rt.fpv(-2.0**31, 32)), z3.fpLT(xr, rt.fpv(2.0**31, 32)))
        return z3.If(ok, z3.fpToSBV(rm, x, z3.BitVecSort(32)), BVV(0x80000000, 32))
    return lanes(one, a[0])


@pat(r'llvm\.x86\.ssse3\.pshuf\.b|llvm\.x86\.avx2\.pshuf\.b')
def x_pshufb(E, a, ty, at, n):
    out = []
    for i, m in enumerate(a[1]):
        m = cint(E, m, 'pshufb mask')
        out.append(0 if m & 0x80 else a[0][(i & ~15) + (m & 15)])
    return tuple(out)


@pat(r'llvm\.x86\.ssse3\.phadd\.|llvm\.x86\.avx2\.phadd\.')
def x_phadd(E, a, ty, at, n):
    w = ty[2][1]
    per = 128 // w
    out = []
    for l in range(len(a[0]) // per):
        for v in a:
            ch = v[l * per:(l + 1) * per]
            out += [rt.int_binop(8, ch[i], ch[i + 1], w) for i in range(0, per, 2)]
    return tuple(out)


@pat(r'llvm\.x86\.avx512\.(add|sub|mul|div)\.(ps|pd)\.512')
def x_arith512(E, a, ty, at, n):
    op = {'add': 9, 'sub': 11, 'mul': 13, 'div': 16}[n.split('.')[3]]
    return lanes(lambda x, y: rt.fbin(op, x, y, ty[2][1]), a[0], a[1])


# complex libm (System V ABI: complex<float> travels as <2 x float>, complex<double> as two doubles)
@reg('cexpf', 'cexp')
def cexp_(E, a, ty, at, n):
    import cmath
    re_, im = a[0] if n == 'cexpf' else a
    if not (type(re_) is float and type(im) is float):
        raise Unsupported('cexp on symbolic argument')
    b, s = (32, 'f') if n == 'cexpf' else (64, '')
    m = _libm_call(E, (re_,), 'exp' + s, b, 1)
    return (rt.rnd(m * _libm_call(E, (im,), 'cos' + s, b, 1), b), rt.rnd(m * _libm_call(E, (im,), 'sin' + s, b, 1), b))


@reg('cabsf', 'cabs')
def cabs_(E, a, ty, at, n):
    re_, im = a[0] if n == 'cabsf' else a
    b = 32 if n == 'cabsf' else 64
    c = E.contracts.get('cabs')
    if c and not (type(re_) is float and type(im) is float):
        return c(E, b, re_, im)
    return _libm_call(E, (re_, im), 'hypotf' if b == 32 else 'hypot', b, 2)


@reg('vh_pick')
def s_pick(E, a, ty, at, n):
    """harness helper: one path per feasible value"""
    return cint(E, a[0], 'value picked by the harness')


@pat(r'llvm\.x86\.avx512\.vpermi2var\.')
def x_vpermi2(E, a, ty, at, n):
    x, idx, y = a
    k = len(x)
    out = []
    for i in idx:
        i = cint(E, i, 'permutation index') % (2 * k)
        out.append(x[i] if i < k else y[i - k])
    return tuple(out)
