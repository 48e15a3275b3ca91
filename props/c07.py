"""C07: bit- and digit-reversal reordering are the specified permutations."""
from core import Buf, Span
from dsp import *


def rev(i, radix, order):
    r = 0
    for _ in range(order):
        r = r * radix + i % radix
        i //= radix
    return r


def perm(n, radix, order):
    return [rev(i, radix, order) for i in range(n)]


def spec(n, radix, order, comps, stride=1):
    """comps components per element, elements `stride` apart; gap elements untouched"""
    p = perm(n, radix, order)
    N = n * comps * stride
    M = np.eye(N)
    for i in range(n):
        for c in range(comps):
            M[i * comps * stride + c, :] = 0
            M[i * comps * stride + c, p[i] * comps * stride + c] = 1
    return {0: rows(M)}


def spec_split(n, order):
    p = perm(n, 2, order)
    M = np.zeros((2 * n, 2 * n))
    for i in range(n):
        M[i, p[i]] = 1
        M[n + i, n + p[i]] = 1
    return {0: rows(M[:n]), 1: rows(M[n:])}


def spec_big(n, radix, order):
    m = Span(2 * n, 8).matrix()
    p = perm(n, radix, order)
    return {0: rows(m[[2 * p[i] + c for i in range(n) for c in (0, 1)]])}


def define(ck):
    top = 8 if not ck.thorough() else 10
    for o in range(0, top + 1):
        n = 1 << o
        for h in ('plan', 'plan_n', 'plan_f', 'free', 'free_f'):
            ck.poly('bitrevorder %s n=%d' % (h, n), 'reorder', 'v3', 'h_bitrev_' + h, [o], [Buf('x', 'f32', 2 * n)],
                    'c07:spec', (n, 2, o, 2), tol=1e-9, weight=n, validate=(o == 4))
        ck.poly('bitrevorder strided n=%d' % n, 'reorder', 'v3', 'h_bitrev_stride', [o], [Buf('x', 'f32', 4 * n)],
                'c07:spec', (n, 2, o, 2, 2), tol=1e-9, weight=n)
        ck.poly('bitrevorder split n=%d' % n, 'reorder', 'v3', 'h_bitrev_plan_s', [o],
                [Buf('re', 'f32', n), Buf('im', 'f32', n)], 'c07:spec_split', (n, o), tol=1e-9, weight=n, validate=(o == 4))
    for radix in (2, 3, 4, 5, 8):
        o = 0
        while radix ** o <= (1 << top):
            n = radix ** o
            ck.poly('digitrevorder radix %d n=%d' % (radix, n), 'reorder', 'v3', 'h_digit%d' % radix, [n],
                    [Buf('x', 'f32', 2 * n)], 'c07:spec', (n, radix, o, 2), tol=1e-9, weight=n, validate=(o == 2))
            o += 1
    far = 14 if not ck.thorough() else 16
    for o in [*range(top + 1, far + 1), 17]:
        n = 1 << o
        for h in ('plan', 'plan_n', 'plan_f', 'free', 'free_f'):
            ck.poly('bitrevorder %s n=%d, subspace' % (h, n), 'reorder', 'v3', 'h_bitrev_' + h, [o], [Buf('x', 'f32', 2 * n, Span(2 * n, 8))],
                    'c07:spec_big', (n, 2, o), tol=1e-9, weight=n)
    for radix in (2, 3, 4, 5, 8):
        o = 0
        while radix ** o <= (1 << far - 1) or radix == 2 and o < 18 or radix == 3 and o < 12:
            n = radix ** o
            if n > 1 << top and (n <= 1 << far or n > 1 << 16):
                ck.poly('digitrevorder radix %d n=%d, subspace' % (radix, n), 'reorder', 'v3', 'h_digit%d' % radix, [n], [Buf('x', 'f32', 2 * n, Span(2 * n, 8))],
                        'c07:spec_big', (n, radix, o), tol=1e-9, weight=n)
            o += 1
    ck.bounds.append('up to %d elements with contents in an 8-dimensional subspace (element i = fixed coefficient times one of eight variables)' % (1 << far))
    ck.bounds.append('sizes radix^k up to %d, element values symbolic' % (1 << top))
    ck.assumptions += ['std::mdspan replaced by the shim in /verif/shim']
