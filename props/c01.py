"""C01: every complex FFT plan computes the DFT (forward and backward, in place, out of place, strided)."""
import numpy as np
from core import Buf, Span
from dsp import span_fft, dft_rows, dft_matrix, fft_tol, rows, ident

PLANS = {'plan': 2, 'dit2_v1': 2, 'dit2_v2': 2, 'dit2_v3': 2, 'dit2_v4': 2, 'dif3': 3, 'dif4': 4, 'dif5': 5, 'dit4': 4,
         'sdif2r': 2, 'sdif2i': 2, 'sdif3': 3, 'sdif4': 4, 'sdif5': 5, 'sdif8': 8, 'sdit4': 4}
TY = {'cf': 'f32', 'cd': 'f64', 'nf': 'f32', 'nd': 'f64'}
VAR = ['in place', 'out of place', 'strided', 'forward then backward', 'reused and copied', 'out of place strided']


def spec(n, order, back, variant):
    info = {2: [n, order]}
    if variant == 3:
        return {0: rows(ident(2 * n, float(n))), **info}
    if variant == 2:
        # every second element of a 2n buffer; the others stay as they are
        m = dft_matrix(n, back)
        M = np.eye(4 * n)
        idx = [4 * i + k for i in range(n) for k in (0, 1)]
        for a, i in enumerate(idx):
            M[i, :] = 0
            M[i, idx] = m[a]
        return {0: rows(M), **info}
    if variant == 4:
        # inputs x, y, z (in this order of variables): three independent transforms
        a, o = dft_matrix(n, back), dft_matrix(n, not back)
        k = 2 * n
        M = np.zeros((3 * k, 3 * k))
        M[:k, :k], M[k:2 * k, k:2 * k], M[2 * k:, 2 * k:] = a, o, a
        return {0: rows(M[:k]), 1: rows(M[k:2 * k]), 3: rows(M[2 * k:]), **info}
    if variant == 5:
        m = dft_matrix(n, back)
        k = 4 * n
        M = np.zeros((6 * n, k + 6 * n))
        M[:, k:] = np.eye(6 * n)
        src = [4 * i + c for i in range(n) for c in (0, 1)]
        for a, i in enumerate([6 * i + c for i in range(n) for c in (0, 1)]):
            M[i, :] = 0
            M[i, src] = m[a]
        return {0: rows(np.eye(k, k + 6 * n)), 1: rows(M), **info}
    return {1 if variant == 1 else 0: dft_rows(n, back), **info}


def spec_big(n, order, back):
    return {0: rows(span_fft(Span(2 * n, 6), back)), 2: [n, order]}


def spec_user(n, gain, out):
    return {1 if out else 0: rows(ident(2 * n, gain)), **({0: rows(ident(2 * n, 1.0))} if out else {})}


def spec_xs(n, back, lanes):
    m = dft_matrix(n, back)
    M = np.zeros((2 * n * lanes, 2 * n * lanes))
    for lane in range(lanes):
        idx = [i * 2 * lanes + k * lanes + lane for i in range(n) for k in (0, 1)]
        M[np.ix_(idx, idx)] = m
    return {0: rows(M), 1: [lanes]}


def one(ck, pl, radix, order, ty, back, variant, validate=False, cfg='v3'):
    n = radix ** order
    t = TY[ty]
    bufs = [Buf('x', t, 4 * n if variant == 2 else 2 * n), Buf('y', t, 2 * n if variant == 1 else 1, 'undef'),
            Buf('info', 'i64', 2, 'undef')]
    if variant == 4:
        bufs = [bufs[0], Buf('y', t, 2 * n), bufs[2], Buf('z', t, 2 * n)]
    if variant == 5:
        bufs = [Buf('x', t, 4 * n), Buf('y', t, 6 * n), bufs[2]]
    ck.poly('%s %s order %d (n=%d) %s, %s' % (pl, ty, order, n, 'backward' if back else 'forward', VAR[variant]),
            'fft_' + ty, cfg, 'h_%s_%s' % (pl, ty), [order, back, variant, n], bufs, 'c01:spec', (n, order, back, variant),
            tol=fft_tol(n, t) * (n if variant == 3 else 1), weight=n * n, validate=validate)


def define(ck):
    th = ck.thorough()
    lim = {'cf': 256, 'cd': 64, 'nf': 256, 'nd': 64} if not th else {'cf': 1024, 'cd': 1024, 'nf': 1024, 'nd': 512}
    for ty in TY:
        for pl, radix in PLANS.items():
            order = 0
            while radix ** order <= lim[ty]:
                n = radix ** order
                for back in (0, 1):
                    one(ck, pl, radix, order, ty, back, 0, validate=(n in (16, 9, 25, 64) and back == 0))
                    if n <= (64 if not th else 256):
                        one(ck, pl, radix, order, ty, back, 1)
                        if n <= (32 if not th else 128):
                            one(ck, pl, radix, order, ty, back, 2)
                if n <= (32 if not th else 128):
                    one(ck, pl, radix, order, ty, 0, 3)
                if n <= (16 if not th else 64):
                    one(ck, pl, radix, order, ty, order % 2, 4)
                    one(ck, pl, radix, order, ty, order % 2, 5)
                order += 1
    for ty in ('cf', 'cd', 'nd'):
        top = {'plan': 65536 if ty == 'cd' else 4096}
        for pl, radix in PLANS.items():
            order = 1
            while radix ** order <= (top.get(pl, 1100) if not th else 4 * min(top.get(pl, 2048), 32768)):
                n = radix ** order
                if n > lim[ty]:
                    for back in ((order % 2,) if not th else (0, 1)):
                        ck.poly('%s %s order %d (n=%d) %s, subspace' % (pl, ty, order, n, 'backward' if back else 'forward'), 'fft_' + ty, 'v3', 'h_%s_%s' % (pl, ty),
                                [order, back, 0, n], [Buf('x', TY[ty], 2 * n, Span(2 * n, 6)), Buf('y', TY[ty], 1, 'undef'), Buf('info', 'i64', 2, 'undef')],
                                'c01:spec_big', (n, order, back), tol=fft_tol(n, TY[ty]), weight=30 * n)
                order += 1
    for ty in ('cf', 'nd'):
        for pl, radix in PLANS.items():
            order = 2 if radix < 4 else 1
            n = radix ** order
            for v in (6, 7):
                ck.poly('%s %s order %d (n=%d) next to plans of other sizes, %d' % (pl, ty, order, n, v), 'fft_' + ty, 'v3', 'h_%s_%s' % (pl, ty), [order, v % 2, v, n],
                        [Buf('x', TY[ty], 2 * n), Buf('y', TY[ty], 1, 'undef'), Buf('info', 'i64', 2, 'undef')], 'c01:spec', (n, order, v % 2, 0), tol=fft_tol(n, TY[ty]), weight=n * n)
            for uses in (40, 300):
                ck.poly('%s %s order %d (n=%d) after %d earlier uses' % (pl, ty, order, n, uses), 'fft_' + ty, 'v3', 'h_%s_%s' % (pl, ty), [order, uses // 100 % 2, 100 + uses, n],
                        [Buf('x', TY[ty], 2 * n), Buf('y', TY[ty], 1, 'undef'), Buf('info', 'i64', 2, 'undef')], 'c01:spec', (n, order, uses // 100 % 2, 0),
                        tol=fft_tol(n, TY[ty]), weight=uses * n)
    for ty in TY:
        for h in ('user', 'userin'):
            for back in (0, 1):
                for out in (0, 1):
                    n = 3
                    gain = (7.0 if back else 5.0) if out and h == 'user' else (3.0 if back else 2.0)
                    ck.poly('%s plan %s %s, %s' % (h, ty, 'backward' if back else 'forward', VAR[out]), 'fft_' + ty, 'v3', 'h_%s_%s' % (h, ty), [back, out, n],
                            [Buf('x', TY[ty], 2 * n), Buf('y', TY[ty], 2 * n, 'undef')], 'c01:spec_user', (n, gain, out), tol=1e-5)
    for F, t, lanes in (('f', 'f32', 8), ('d', 'f64', 4)):
        for v in (1, 2, 3, 4):
            for order in range(1 if v < 4 else 1, 5 if not th else 7):
                n = 1 << order
                for back in (0, 1):
                    ck.poly('dit2_v%d on xsimd batches of %s, order %d, %s' % (v, t, order, 'backward' if back else 'forward'),
                            'fft_xs', 'v3', 'h_xs_v%d_%s' % (v, F), [order, back],
                            [Buf('x', t, 2 * n * lanes), Buf('lanes', 'i64', 1, 'undef')], 'c01:spec_xs', (n, back, lanes),
                            tol=fft_tol(n, t), weight=n * n * lanes, validate=(order == 3))
    ck.bounds.append('plans used 40 and 300 times before: one size each')
    ck.bounds.append('transform sizes radix^order with n <= %s (per element type), every input sample symbolic in [-1,1]; '
                     'xsimd batches up to n=%d; out of place to n=%d, strided and round trip to n=%d' % (
                         lim, 16 if not th else 64, 64 if not th else 256, 32 if not th else 128))
    ck.assumptions += [
        'floating point is modelled as exact arithmetic plus a rigorously propagated rounding-error bound; the demanded '
        'accuracy is 64*eps*n*(log2 n + 2) for inputs in [-1,1]',
        'libm results for concrete twiddle angles are those of the installed libm',
        'std::mdspan replaced by the shim in /verif/shim (the original dependency is not in the sandbox)',
    ]
