"""C32: complex arithmetic of the library type and the generic helpers."""
from core import Buf
from dsp import *

N = 5


def lin(**k):
    l = np.zeros(N)
    for n, v in k.items():
        l['abcds'.index(n)] = v
    return (0.0, l, None)


def quad(*t):
    q = np.zeros((N, N))
    for x, y, v in t:
        q['abcds'.index(x), 'abcds'.index(y)] += v
    return (0.0, None, q)


def ring():
    add = [lin(a=1, c=1), lin(b=1, d=1)]
    sub = [lin(a=1, c=-1), lin(b=1, d=-1)]
    mul = [quad(('a', 'c', 1), ('b', 'd', -1)), quad(('a', 'd', 1), ('b', 'c', 1))]
    z = [lin(a=1), lin(b=1)]
    sc = [quad(('a', 's', 1)), quad(('b', 's', 1))]
    sq = [quad(('a', 'a', 1), ('b', 'b', -1)), quad(('a', 'b', 2))]
    return {1: add + sub + mul + [lin(a=-1), lin(b=-1)] + z + [lin(a=1), lin(b=-1)] + add * 2 + sub * 2 + mul * 2 + sc * 2 +
            [lin(s=1), lin(b=1)] + [lin(a=1), lin(s=1)] + z + [lin(s=1), lin()] + [lin(), lin()] + sq + [lin(a=2), lin(b=2)] + [lin(), lin()]}


def extra():
    return {1: [lin(a=1), lin(b=1), lin(a=1), lin(b=1), lin(s=1), lin(a=1), lin(b=1), lin(a=1), lin(b=-1), lin(c=1), lin(d=1), lin(c=1), lin(d=-1)]}


def pre(C, ins, n):
    a, b, c, d, s = ins[0]
    return [c * c + d * d >= 0.01, s * s >= 0.01]


def field(C, ins, outs, n):
    a, b, c, d, s = ins[0]
    o = outs[1]
    r = []
    for k, nm in ((0, 'quotient'), (2, 'compound quotient')):
        # q*w == z
        r.append((nm + ' (real)', o[k] * c - o[k + 1] * d, a))
        r.append((nm + ' (imaginary)', o[k] * d + o[k + 1] * c, b))
    r += [('quotient by a real (real)', o[4] * s, a), ('quotient by a real (imaginary)', o[5] * s, b)]
    r += [('magnitude', C.all(o[6] >= 0, C.abs(o[6] * o[6] - (a * a + b * b)) <= 1e-4)), ('absolute value', o[7], C.abs(s))]
    return r


def polar(C, ins, outs, n):
    r, t = ins[0]
    return [('polar (real)', outs[1][0], r * C.fn('cos', t)), ('polar (imaginary)', outs[1][1], r * C.fn('sin', t))]


def pre_polar(C, ins, n):
    return [ins[0][0] >= 0]


def define(ck):
    for cfg in ('v3', 'base'):
        for n, ty in (('f', 'f32'), ('d', 'f64')):
            tol = 1e-5 if ty == 'f32' else 1e-13
            for k in ('', 's'):
                m = len(ring()[1])
                ck.poly('ring operations %s%s %s' % (k and 'std ', ty, cfg), 'cplx', cfg, 'h_ring_' + k + n, [], [Buf('x', ty, N), Buf('o', ty, m, 'undef')], 'c32:ring', (), tol=tol, validate=True)
            ck.poly('accessors %s %s' % (ty, cfg), 'cplx', cfg, 'h_extra_' + n, [], [Buf('x', ty, N), Buf('o', ty, 13, 'undef')], 'c32:extra', (), tol=tol, validate=True)
            ck.real('division and magnitude %s %s' % (ty, cfg), 'cplx', cfg, 'h_field_' + n, [], [Buf('x', ty, N), Buf('o', ty, 8, 'undef')], 'c32:field', (n,), pre='c32:pre', tol=1e-3)
            ck.real('polar %s %s' % (ty, cfg), 'cplx', cfg, 'h_polar_' + n, [], [Buf('x', ty, 2), Buf('o', ty, 2, 'undef')], 'c32:polar', (n,), pre='c32:pre_polar')
    ck.bounds.append('all components; ring operations up to [-1,1] scaled with rounding bound, division and magnitude for components up to 8 over reals')
