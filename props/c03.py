"""C03: FFT on split (separate real/imaginary) storage."""
from core import Buf, Span
from dsp import *


def spec(n, order, b, v):
    m = dft_matrix(n, b)
    perm = [2 * i for i in range(n)] + [2 * i + 1 for i in range(n)]
    M = ident(2 * n, float(n)) if v == 2 else m[perm][:, perm]
    o = 0 if v != 1 else 2
    r = {o: rows(M[:n]), o + 1: rows(M[n:]), 4: [n, order]}
    if v == 1:  # the input is left alone
        r[0] = rows(ident(2 * n)[:n])
        r[1] = rows(ident(2 * n)[n:])
    return r


def spec_big(n, order, b):
    x, y = Span(n, 3).matrix(), Span(n, 3, 2).matrix()
    z = np.hstack([x, np.zeros_like(x)]) + 1j * np.hstack([np.zeros_like(y), y])
    f = np.fft.ifft(z, axis=0) * n if b else np.fft.fft(z, axis=0)
    return {0: rows(f.real), 1: rows(f.imag), 4: [n, order]}


def spec_s(n, order, b, v):
    m = dft_matrix(n, b)
    perm = [2 * i for i in range(n)] + [2 * i + 1 for i in range(n)]
    m = m[perm][:, perm]
    sr, si = (2, 3) if v == 4 else (2, 2)
    nin = (sr + si) * n
    src = [sr * i for i in range(n)] + [sr * n + si * i for i in range(n)]
    M = np.zeros((2 * n, nin))
    M[:, src] = m
    if v == 4:
        r0, r1 = ident(nin)[:sr * n].copy(), ident(nin)[sr * n:].copy()
        for i in range(n):
            r0[sr * i], r1[si * i] = M[i], M[n + i]
        return {0: rows(r0), 1: rows(r1), 4: [n, order]}
    out = {0: rows(ident(nin)[:sr * n]), 1: rows(ident(nin)[sr * n:]), 4: [n, order]}
    for k in (0, 1):
        o = [None] * (3 * n)
        o[::3] = rows(M[k * n:(k + 1) * n])
        out[2 + k] = o
    return out


def define(ck):
    top = 8 if not ck.thorough() else 10
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for cfg in ('v3', 'base'):
            for o in range(0, top + 1 if cfg == 'v3' else 5):
                n = 1 << o
                for b in (0, 1):
                    for v in (0, 1, 2):
                        if v == 2 and (b or o > 7):
                            continue
                        out = 'undef'
                        ck.poly('split %s n=%d dir %d variant %d (%s)' % (ty, n, b, v, cfg), 'split', cfg, 'h_split_' + F,
                                [o, b, v], [Buf('re', ty, n), Buf('im', ty, n), Buf('re2', ty, n, out),
                                            Buf('im2', ty, n, out), Buf('info', 'i64', 2, 'undef')],
                                'c03:spec', (n, o, b, v), tol=fft_tol(n, ty) * (n if v == 2 else 1), weight=n * n,
                                validate=(o in (0, 4)))
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for o in range(0, 6 if not ck.thorough() else 8):
            n = 1 << o
            for b in (0, 1):
                info = Buf('info', 'i64', 2, 'undef')
                ck.poly('split %s n=%d dir %d, used and copied plan' % (ty, n, b), 'split', 'v3', 'h_split_' + F, [o, b, 3],
                        [Buf('re', ty, n), Buf('im', ty, n), Buf('re2', ty, n, 'undef'), Buf('im2', ty, n, 'undef'), info],
                        'c03:spec', (n, o, b, 0), tol=fft_tol(n, ty), weight=n * n)
                ck.poly('split %s n=%d dir %d strided in place' % (ty, n, b), 'split', 'v3', 'h_split_' + F, [o, b, 4],
                        [Buf('re', ty, 2 * n), Buf('im', ty, 3 * n), Buf('re2', ty, 1, 'undef'), Buf('im2', ty, 1, 'undef'), info],
                        'c03:spec_s', (n, o, b, 4), tol=fft_tol(n, ty), weight=n * n)
                ck.poly('split %s n=%d dir %d strided out of place' % (ty, n, b), 'split', 'v3', 'h_split_' + F, [o, b, 5],
                        [Buf('re', ty, 2 * n), Buf('im', ty, 2 * n), Buf('re2', ty, 3 * n, 'undef'), Buf('im2', ty, 3 * n, 'undef'), info],
                        'c03:spec_s', (n, o, b, 5), tol=fft_tol(n, ty), weight=n * n)
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for o in range(top + 1, (11 if F == 'f' else 15) if not ck.thorough() else 16):
            n = 1 << o
            ck.poly('split %s n=%d, subspace' % (ty, n), 'split', 'v3', 'h_split_' + F, [o, o % 2, 0],
                    [Buf('re', ty, n, Span(n, 3)), Buf('im', ty, n, Span(n, 3, 2)), Buf('re2', ty, 1, 'undef'), Buf('im2', ty, 1, 'undef'), Buf('info', 'i64', 2, 'undef')],
                    'c03:spec_big', (n, o, o % 2), tol=fft_tol(n, ty), weight=60 * n)
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for o, v in ((1, 6), (2, 6), (3, 7), (4, 7)):
            n = 1 << o
            ck.poly('split %s n=%d next to plans of other sizes, %d' % (ty, n, v), 'split', 'v3', 'h_split_' + F, [o, o % 2, v],
                    [Buf('re', ty, n), Buf('im', ty, n), Buf('re2', ty, n, 'undef'), Buf('im2', ty, n, 'undef'), Buf('info', 'i64', 2, 'undef')],
                    'c03:spec', (n, o, o % 2, 0), tol=fft_tol(n, ty), weight=n * n)
        for o, uses in ((2, 300), (4, 40)):
            n = 1 << o
            ck.poly('split %s n=%d after %d earlier uses' % (ty, n, uses), 'split', 'v3', 'h_split_' + F, [o, int(o == 4), 100 + uses],
                    [Buf('re', ty, n), Buf('im', ty, n), Buf('re2', ty, n, 'undef'), Buf('im2', ty, n, 'undef'), Buf('info', 'i64', 2, 'undef')],
                    'c03:spec', (n, o, int(o == 4), 0), tol=fft_tol(n, ty), weight=n * uses)
    ck.bounds.append('plans used 40 and 300 times before: n = 16 and 4')
    ck.bounds.append('up to n = 2^%d with the input in a 6-dimensional subspace' % (14 if not ck.thorough() else 15))
    ck.bounds.append('n = 2^0 .. 2^%d, all samples symbolic in [-1,1]' % top)
    ck.assumptions += ['rounding modelled by a propagated error bound; accuracy 64*eps*n*(log2 n+2)',
                       'std::mdspan replaced by the shim in /verif/shim']
