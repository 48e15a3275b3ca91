"""C27: integer helpers, for every argument of their domain."""
import z3
from core import Buf
from fxp import bvof

TYPES = [('u8', 8, False), ('u16', 16, False), ('u32', 32, False), ('u64', 64, False),
         ('i8', 8, True), ('i16', 16, True), ('i32', 32, True), ('i64', 64, True)]


def digits(w, sg):
    return w - 1 if sg else w


def top(w, sg):
    return (1 << digits(w, sg)) - 1


def io(ins, outs, w):
    return bvof(ins[0][0], w), bvof(outs[1][0], w)


def ceil_of(x, w):
    r = z3.BitVecVal(0, w)
    for i in reversed(range(w)):
        r = z3.If(z3.ULE(x, z3.BitVecVal(1 << i, w)), z3.BitVecVal(1 << i, w), r)
    return r


def pre_ceil(ins, w, sg, lo):
    x = bvof(ins[0][0], w)
    return [z3.UGE(x, lo), z3.ULE(x, 1 << (w - 1))]


def spec_ceil(ins, outs, w, sg, lo):
    x, r = io(ins, outs, w)
    return [('bit_ceil', r == ceil_of(x, w))]


def pre_next(ins, w, sg, lo):
    x = bvof(ins[0][0], w)
    return [z3.UGE(x, lo), z3.ULE(x, (1 << (w - 1)) - (1 if sg else 0))]


def spec_next(ins, outs, w, sg, lo):
    x, r = io(ins, outs, w)
    return [('next_order', z3.And(z3.ULT(r, w), *[z3.Implies(r == k, z3.And(z3.ULE(x, 1 << k), z3.UGT(x, 1 << (k - 1)) if k else z3.BoolVal(True)))
                                                  for k in range(w)]))]


def spec_log2(ins, outs, w, sg):
    x, r = io(ins, outs, w)
    return [('bit_log2', z3.And(z3.ULT(r, w), *[z3.Implies(r == k, z3.And(z3.ULE(x, (2 << k) - 1), z3.UGE(x, 1 << k) if k else z3.BoolVal(True)))
                                                for k in range(w)]))]


def pre_size(ins, w, sg):
    return [z3.ULT(bvof(ins[0][0], w), digits(w, sg))]


def spec_size(ins, outs, w, sg):
    x, r = io(ins, outs, w)
    return [('size', r == z3.BitVecVal(1, w) << x)]


def pre_idiv(ins, w, sg):
    x, y = bvof(ins[0][0], w), bvof(ins[0][1], w)
    W = w + 2
    s = z3.ZeroExt(2, x) + z3.ZeroExt(2, y)
    c = [z3.ULE(x, top(w, sg)), z3.ULE(y, top(w, sg)), y != 0]
    if w == 16 and not sg:
        c.append(z3.ULE(y, 63))
    return c + [z3.ULE(s, z3.BitVecVal(top(w, sg), W))]


def spec_idiv(ins, outs, w, sg):
    x, r = io(ins, outs, w)
    y = bvof(ins[0][1], w)
    W = 2 * w
    e = lambda v: z3.ZeroExt(w, v)
    return [('quotient rounded up', z3.And(z3.UGE(e(r) * e(y), e(x)), z3.Implies(x != 0, z3.ULT(e(r - 1) * e(y), e(x))), z3.Implies(x == 0, r == 0)))]


def spec_par(ins, outs, w, sg):
    x = bvof(ins[0][0], w)
    even = z3.Extract(0, 0, x) == 0
    e, o = bvof(outs[1][0], 8), bvof(outs[1][1], 8)
    return [('is_even', e == z3.If(even, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), ('is_odd', o == z3.If(even, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))]


def root(v, e):
    r = int(round(v ** (1.0 / e)))
    while r ** e > v:
        r -= 1
    while (r + 1) ** e <= v:
        r += 1
    return r


def pre_pow(ins, w, sg, e):
    x = bvof(ins[0][0], w)
    if e <= 1:
        return []
    m = root(top(w, sg), e)
    if w == 64 and sg:
        m = min(m, 1 << 8)
    if sg:
        return [x <= m, x >= -m]
    return [z3.ULE(x, m)]


def spec_pow(ins, outs, w, sg, e):
    x, r = io(ins, outs, w)
    want = z3.BitVecVal(1, w)
    for _ in range(e):
        want = want * x
    return [('ipow', r == want)]


def pre_powb(ins, w, sg, base):
    n = 0
    while base ** (n + 1) <= top(w, sg):
        n += 1
    return [z3.ULE(bvof(ins[0][0], w), n)]


def spec_powb(ins, outs, w, sg, base):
    x, r = io(ins, outs, w)
    want = z3.BitVecVal(0, w)
    for n in range(w):
        want = z3.If(x == n, z3.BitVecVal(base ** n, w), want)
    return [('ipow<%d>' % base, r == want)]


def pre_abs(ins, w, sg):
    x = bvof(ins[0][0], w)
    return [x != z3.BitVecVal(1 << (w - 1), w)] if sg else []


def spec_abs(ins, outs, w, sg):
    x, r = io(ins, outs, w)
    return [('abs', r == (z3.If(x < 0, -x, x) if sg else x))]


def define(ck):
    io_ = lambda n, k=1, o=1: [Buf('x', n, k), Buf('r', n, o, 'undef')]
    for n, w, sg in TYPES:
        t = n if n[0] == 'i' else 'i' + n[1:]
        A = (w, sg)
        if not sg:
            ck.z3('bit_ceil ' + n, 'ints', 'v3', 'h_ceil_' + n, [], io_(t), 'c27:spec_ceil', A + (0,), pre='c27:pre_ceil', forking=True)
            ck.z3('bit_ceil without library support ' + n, 'ints_fb', 'v3', 'h_ceil_' + n, [], io_(t), 'c27:spec_ceil', A + (1,), pre='c27:pre_ceil', forking=True)
            ck.z3('bit_log2 ' + n, 'ints', 'v3', 'h_log2_' + n, [], io_(t), 'c27:spec_log2', A, forking=True, validate=True)
        ck.z3('next_order ' + n, 'ints', 'v3', 'h_next_' + n, [], io_(t), 'c27:spec_next', A + (0,), pre='c27:pre_next', forking=True)
        ck.z3('next_order without library support ' + n, 'ints_fb', 'v3', 'h_next_' + n, [], io_(t), 'c27:spec_next', A + (1,), pre='c27:pre_next', forking=True)
        ck.z3('size ' + n, 'ints', 'v3', 'h_size_' + n, [], io_(t), 'c27:spec_size', A, pre='c27:pre_size', forking=True)
        ck.z3('idiv ' + n, 'ints', 'v3', 'h_idiv_' + n, [], io_(t, 2), 'c27:spec_idiv', A, pre='c27:pre_idiv', forking=True, timeout=100000)
        ck.z3('parity ' + n, 'ints', 'v3', 'h_par_' + n, [], [Buf('x', t, 1), Buf('r', 'i8', 2, 'undef')], 'c27:spec_par', A)
        ck.z3('abs ' + n, 'ints', 'v3', 'h_abs_' + n, [], io_(t), 'c27:spec_abs', A, pre='c27:pre_abs', forking=True)
        for e in range(0, 9 if w > 16 else 5):
            ck.z3('ipow %s exponent %d' % (n, e), 'ints', 'v3', 'h_pow_' + n, [e], io_(t), 'c27:spec_pow', A + (e,), pre='c27:pre_pow', forking=True)
        for b in (2, 3, 4, 5, 7, 8, 10, 16, 32, 64):
            ck.z3('ipow<%d> %s' % (b, n), 'ints', 'v3', 'h_powb_' + n, [b], io_(t), 'c27:spec_powb', A + (b,), pre='c27:pre_powb', forking=True)
    ck.bounds.append('every argument in the domain of 8 to 64-bit signed and unsigned types; runtime-base powers for exponents 0..8 (64-bit signed bases up to 256); 16-bit unsigned division for divisors up to 63')
