"""Enclosures of the logarithm of a float given by its bits (for the fast logarithms)."""
import math
import struct

import z3

import realdom

PIECES = 48
TOL2 = 4e-4       # fast_log2
LG2 = math.log10(2.0)


def f_of(bits):
    return struct.unpack('<f', struct.pack('<I', int(bits) & 0xffffffff))[0]


def fields(b):
    return z3.Extract(31, 31, b), z3.Extract(30, 23, b), z3.Extract(22, 0, b)


def pre(C, ins, scale):
    b = ins[0][0]
    if C.concrete:
        f = f_of(b)
        return [f > 0, 1 <= (int(b) >> 23 & 255) <= 254]
    s, e, m = fields(b)
    er = realdom.ureal(e)
    return [s == 0, realdom.ureal(s) == 0, er >= 1, er <= 254]


def pieces(b):
    """[(condition, lower, upper)] for log2 of the positive normal float with bits b"""
    s, e, m = fields(b)
    E, t = realdom.ureal(e) - 127, realdom.ureal(m) / (1 << 23)
    out = []
    for k in range(PIECES):
        a, c = k / PIECES, (k + 1) / PIECES
        la, lc = math.log2(1 + a), math.log2(1 + c)
        mid = (a + c) / 2
        lo = realdom.rc(la) + (t - realdom.rc(a)) * realdom.rc((lc - la) / (c - a)) - realdom.rc(1e-9)
        hi = realdom.rc(math.log2(1 + mid)) + (t - realdom.rc(mid)) * realdom.rc(1 / ((1 + mid) * math.log(2))) + realdom.rc(1e-9)
        out.append((z3.And(t >= realdom.rc(a), t <= realdom.rc(c)), E + lo, E + hi))
    return out


def spec(C, ins, outs, scale):
    b, o = ins[0][0], outs[1][0]
    if C.concrete:
        return [('close to the logarithm', abs(o - math.log2(f_of(b)) * scale) <= TOL2 * scale + 2e-5)]
    sc = realdom.rc(scale)
    return [('close to the logarithm, mantissa piece %d' % k, z3.Implies(c, z3.And(o >= (lo - realdom.rc(TOL2)) * sc, o <= (hi + realdom.rc(TOL2)) * sc)))
            for k, (c, lo, hi) in enumerate(pieces(b))]


def pre_db(C, ins, n):
    b = ins[0][0]
    if C.concrete:
        return [(int(b) & 0x7fffffff) == 0 or 1 <= (int(b) >> 23 & 255) <= 254]
    s, e, m = fields(b)
    er, mr = realdom.ureal(e), realdom.ureal(m)
    zero = z3.And(e == 0, m == 0)
    link = [realdom.ureal(s) == z3.If(s == 0, z3.RealVal(0), z3.RealVal(1)), z3.Implies(e == 0, er == 0), z3.Implies(e != 0, er >= 1), z3.Implies(m == 0, mr == 0), z3.Implies(m != 0, mr >= 1)]
    return link + [z3.Or(zero, z3.And(e != 0, er <= 254))]


def spec_db(C, ins, outs, n):
    b = ins[0][0]
    obs = []
    tol = 20 * LG2 * TOL2
    for o, fl in ((outs[1][0], ins[2][0]), (outs[1][1], -144.0)):
        if C.concrete:
            g = f_of(b)
            want = max(fl, 20 * math.log10(g)) if g > 0 else fl
            obs.append(('fast decibel', abs(o - want) <= tol + 1e-3))
            continue
        s, e, m = fields(b)
        fl = realdom.R(fl)
        npos = z3.Or(s == 1, z3.And(e == 0, m == 0))
        obs.append(('zero and negative gain give the floor', z3.Implies(npos, o == fl)))
        sc, tl = realdom.rc(20 * LG2), realdom.rc(tol)
        mx = lambda a: z3.If(a >= fl, a, fl)
        for k, (c, lo, hi) in enumerate(pieces(b)):
            obs.append(('fast decibel, mantissa piece %d' % k, z3.Implies(z3.And(z3.Not(npos), c), z3.And(o >= mx(lo * sc - tl), o <= mx(hi * sc + tl)))))
    return obs
