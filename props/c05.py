"""C05: the DCT plan computes the unnormalised type-II DCT."""
from core import Buf, Span
from dsp import *


def spec(n, o, v):
    m = dct2_matrix(n)
    if v == 2:
        M = np.eye(2 * n)
        M[0::2, :] = 0
        M[0::2, 0::2] = m
        m = M
    return {0: rows(m), 1: [n, o]}


def spec_big(n, o):
    m = Span(n, 6).matrix()
    f = np.fft.fft(np.vstack([m, np.zeros_like(m)]), axis=0)[:n]
    return {0: rows((np.exp(-1j * math.pi * np.arange(n) / (2 * n))[:, None] * f).real * float(dct2_matrix(2)[0, 0])), 1: [n, o]}


def define(ck):
    top = 8 if not ck.thorough() else 10
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for o in range(0, top + 1):
            n = 1 << o
            for v in (0, 1, 2):
                ck.poly('dct2 %s n=%d %s' % (ty, n, ['contiguous', 'reused plan', 'strided'][v]), 'dct', 'v3', 'h_dct_' + F,
                        [o, v], [Buf('x', ty, n * (2 if v == 2 else 1)), Buf('info', 'i64', 2, 'undef')], 'c05:spec',
                        (n, o, v), tol=2 * fft_tol(n, ty), weight=n * n, validate=(o in (0, 4)))
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for o in range(top + 1, (11 if F == 'f' else 15) if not ck.thorough() else 16):
            n = 1 << o
            ck.poly('dct2 %s n=%d, subspace' % (ty, n), 'dct', 'v3', 'h_dct_' + F, [o, 0], [Buf('x', ty, n, Span(n, 6)), Buf('info', 'i64', 2, 'undef')],
                    'c05:spec_big', (n, o), tol=2 * fft_tol(n, ty), weight=40 * n)
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for o, v in ((1, 6), (2, 6), (3, 7), (4, 7)):
            n = 1 << o
            ck.poly('dct2 %s n=%d next to plans of other sizes, %d' % (ty, n, v), 'dct', 'v3', 'h_dct_' + F, [o, v], [Buf('x', ty, n), Buf('info', 'i64', 2, 'undef')],
                    'c05:spec', (n, o, 1), tol=2 * fft_tol(n, ty), weight=n * n)
        for o, uses in ((2, 300), (4, 40)):
            n = 1 << o
            ck.poly('dct2 %s n=%d after %d earlier uses' % (ty, n, uses), 'dct', 'v3', 'h_dct_' + F, [o, 100 + uses], [Buf('x', ty, n), Buf('info', 'i64', 2, 'undef')],
                    'c05:spec', (n, o, 1), tol=2 * fft_tol(n, ty), weight=n * uses)
    ck.bounds.append('plans used 40 and 300 times before: n = 16 and 4')
    ck.bounds.append('up to n = 2^%d with the input in a 6-dimensional subspace' % (14 if not ck.thorough() else 15))
    ck.bounds.append('n = 2^0 .. 2^%d, all samples symbolic in [-1,1]' % top)
    ck.assumptions += ['rounding modelled by a propagated error bound; accuracy 128*eps*n*(log2 n+2)',
                       'std::mdspan replaced by the shim in /verif/shim']
