"""C04: DFT of arbitrary size (naive sum and Bluestein plan)."""
from core import Buf, Span
from dsp import *


def spec(n, b, v):
    if v == 2:
        return {0: rows(ident(2 * n, float(n))), 2: [n]}
    if v == 4:
        M = np.eye(4 * n)
        idx = [4 * i + k for i in range(n) for k in (0, 1)]
        M[idx] = 0
        M[np.ix_(idx, idx)] = dft_matrix(n, b)
        return {0: rows(M), 2: [n]}
    return {(1 if v == 1 else 0): dft_rows(n, b), 2: [n]}


def spec_big(n, b, at):
    r = {at: rows(span_fft(Span(2 * n, 6), b))}
    if at == 0:
        r[2] = [n]
    return r


def spec_n(n, b):
    return {1: dft_rows(n, b)}


def define(ck):
    th = ck.thorough()
    sizes = list(range(1, 34)) + [37, 45, 48, 60, 63, 64, 65, 97, 100, 127, 128, 129]
    if th:
        sizes = list(range(1, 131)) + [192, 243, 255, 256, 257]
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for n in sizes:
            for b in (0, 1):
                if n <= 64 or th:
                    ck.poly('naive dft %s n=%d dir %d' % (ty, n, b), 'dft', 'v3', 'h_naive_c' + F, [n, b],
                            [Buf('x', ty, 2 * n), Buf('y', ty, 2 * n, 'undef')], 'c04:spec_n', (n, b),
                            tol=4 * n * fft_tol(n, ty), weight=n * n, validate=(n == 7))
                for v in (0, 1, 2, 3, 4):
                    if (v == 2 and (b or n > 64)) or (v == 1 and n > 33 and not th) or (v > 2 and n > (12 if not th else 40)):
                        continue
                    ck.poly('dft_plan %s n=%d dir %d variant %d' % (ty, n, b, v), 'dft', 'v3', 'h_blue_c' + F, [n, b, v],
                            [Buf('x', ty, 4 * n if v == 4 else 2 * n), Buf('y', ty, 2 * n, 'undef'), Buf('info', 'i64', 1, 'undef')],
                            'c04:spec', (n, b, v), tol=16 * n * fft_tol(n, ty) * (n if v == 2 else 1), weight=n * n,
                            validate=(n in (5, 16)))
    bigs = [191, 255, 256, 257, 341, 500, 511, 512, 513, 1000, 1021] + ([2047, 2049, 3000, 4099] if th else [])
    for n in bigs:
        for b in (0, 1):
            for F, ty in (('d', 'f64'),) + ((('f', 'f32'),) if n < 300 else ()):
                ck.poly('dft_plan %s n=%d dir %d, subspace' % (ty, n, b), 'dft', 'v3', 'h_blue_c' + F, [n, b, 0],
                        [Buf('x', ty, 2 * n, Span(2 * n, 6)), Buf('y', ty, 1, 'undef'), Buf('info', 'i64', 1, 'undef')], 'c04:spec_big', (n, b, 0),
                        tol=fft_tol(n, ty) * (n if F == 'd' else 4), weight=100 * n)
            if n in (191, 256):
                ck.poly('naive dft f64 n=%d dir %d, subspace' % (n, b), 'dft', 'v3', 'h_naive_cd', [n, b],
                        [Buf('x', 'f64', 2 * n, Span(2 * n, 6)), Buf('y', 'f64', 2 * n, 'undef')], 'c04:spec_big', (n, b, 1), tol=n * fft_tol(n, 'f64'), weight=n * n)
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for n, v in ((3, 6), (4, 6), (5, 7), (8, 7), (2, 6), (7, 6)):
            ck.poly('dft_plan %s n=%d next to plans of other sizes, %d' % (ty, n, v), 'dft', 'v3', 'h_blue_c' + F, [n, n % 2, v],
                    [Buf('x', ty, 2 * n), Buf('y', ty, 2 * n, 'undef'), Buf('info', 'i64', 1, 'undef')], 'c04:spec', (n, n % 2, 0), tol=16 * n * fft_tol(n, ty), weight=n * n)
        for n, uses in ((3, 300), (4, 300), (7, 40), (8, 40)):
            ck.poly('dft_plan %s n=%d after %d earlier uses' % (ty, n, uses), 'dft', 'v3', 'h_blue_c' + F, [n, n % 2, 100 + uses],
                    [Buf('x', ty, 2 * n), Buf('y', ty, 2 * n, 'undef'), Buf('info', 'i64', 1, 'undef')], 'c04:spec', (n, n % 2, 0), tol=16 * n * fft_tol(n, ty), weight=n * uses)
    ck.bounds.append('plans used 40 and 300 times before: n = 7, 8 and 3, 4')
    ck.bounds.append('sizes %s with the input in a 6-dimensional subspace' % bigs)
    ck.bounds.append('sizes %s, all samples symbolic in [-1,1]' % sizes)
    ck.assumptions += ['rounding modelled by a propagated error bound; accuracy 1024*eps*n^2*(log2 n+2)',
                       'std::mdspan replaced by the shim in /verif/shim']
