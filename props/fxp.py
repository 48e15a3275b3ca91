"""Specification of fixed-point arithmetic in wide bit-vectors."""
import z3

W = 32     # holds every sum and product of 16-bit operands


def wide(x):
    return z3.SignExt(W - x.size(), x) if isinstance(x, z3.ExprRef) else z3.BitVecVal(x, W)


def bvof(x, w):
    return x if isinstance(x, z3.ExprRef) else z3.BitVecVal(x, w)


def clamp(v, w):
    lo, hi = z3.BitVecVal(-(1 << (w - 1)), W), z3.BitVecVal((1 << (w - 1)) - 1, W)
    return z3.If(v < lo, lo, z3.If(v > hi, hi, v))


def add(x, y, w):
    return clamp(wide(x) + wide(y), w)


def sub(x, y, w):
    return clamp(wide(x) - wide(y), w)


def mul(x, y, w, f):
    """exact product rounded down to the resolution, clamped"""
    return clamp((wide(x) * wide(y)) >> f, w)


def mul_up(x, y, w, f):
    """... rounded up"""
    p = wide(x) * wide(y)
    return clamp((p + ((1 << f) - 1)) >> f, w)


def one_of(got, *want):
    return z3.Or(*[wide(got) == v for v in want])
