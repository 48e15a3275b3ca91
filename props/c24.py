"""C24: fixed-point complex arithmetic."""
import z3
import fxp
from core import Buf


def parts(ins, w):
    return [fxp.bvof(v, w) for v in (*ins[0], *ins[1])]


def spec(ins, outs, w, op):
    lre, lim, rre, rim = parts(ins, w)
    z = z3.BitVecVal(0, fxp.W)
    re, im = {'add': lambda: (fxp.add(lre, rre, w), fxp.add(lim, rim, w)), 'sub': lambda: (fxp.sub(lre, rre, w), fxp.sub(lim, rim, w)),
              'set': lambda: (fxp.wide(rre), fxp.wide(lim)), 're': lambda: (fxp.wide(lim), z)}[op]()
    g = [fxp.wide(fxp.bvof(v, w)) for v in outs[2]]
    return [('real part', g[0] == re), ('imaginary part', g[1] == im)]


def product(a, b, c, d):
    """(a+ib)(c+id) scaled by 1/4: two guard bits, every partial product rounded down"""
    s = lambda x, y: (fxp.wide(x) * fxp.wide(y)) >> 17
    return s(a, c) - s(b, d), s(a, d) + s(b, c)


def same(g, want):
    # |want| <= 2^14, so the low 16 bits determine it
    return g == z3.Extract(15, 0, want)


def spec_mul(ins, outs):
    lre, lim, rre, rim = parts(ins, 16)
    g = [fxp.bvof(v, 16) for v in outs[2]]
    re, im = product(lre, lim, rre, rim)
    return [('real part of the product', same(g[0], re)), ('imaginary part of the product', same(g[1], im))]


def spec_mul_or_known(ins, outs):
    """the product is right, or exactly what the known finding describes"""
    lre, lim, rre, rim = parts(ins, 16)
    g = [fxp.bvof(v, 16) for v in outs[2]]
    re, im = product(lre, lim, rre, rim)
    kr, ki = product(lre, lim, rre, lim)
    right = z3.And(same(g[0], re), same(g[1], im))
    known = z3.And(same(g[0], kr), same(g[1], ki))
    return [('product differs from the formula other than by the known finding', z3.Or(right, known))]


def define(ck):
    for w in (8, 16):
        for op in ('add', 'sub', 'set', 're'):
            ck.z3('%s int%d' % (op, w), 'fixed', 'v3', 'h_cx_%s_%d' % (op, w), [], [Buf('l', 'i%d' % w, 2), Buf('r', 'i%d' % w, 2), Buf('o', 'i%d' % w, 2, 'undef')],
                  'c24:spec', (w, op), validate=True)
    b = [Buf('l', 'i16', 2), Buf('r', 'i16', 2), Buf('o', 'i16', 2, 'undef')]
    ck.z3('product int16', 'fixed', 'v3', 'h_cx_mul_16', [], b, 'c24:spec_mul', (), validate=True, timeout=200000)
    ck.z3('product int16, known finding aside', 'fixed', 'v3', 'h_cx_mul_16', [], b, 'c24:spec_mul_or_known', (), timeout=200000)
    key = 'c24-product-uses-left-imaginary-part'
    ck.known_rule = lambda c: key if c['harness'] == 'h_cx_mul_16' and c.get('spec') and c['spec'][0] == 'c24:spec_mul' and key in ck.known else None
    ck.bounds.append('every operand value; 7 and 15 fractional bits; the product (15 fractional bits only, the library offers no other) is the complex '
                     'product scaled by 1/4, every partial product rounded down')
