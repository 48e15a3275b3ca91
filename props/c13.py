"""C13: direct and FFT based one-shot convolution."""
from core import Buf, Span
from dsp import *


def spec(n, l, v, fft):
    st = 2 if v == 2 else 1
    nv = (n + l) * st
    out = [None] * ((n + l - 1) * st if n and l else 0)
    for t in range(n + l - 1 if n and l else 0):
        q = np.zeros((nv, nv))
        for i in range(n):
            if 0 <= t - i < l:
                q[i * st, n * st + (t - i) * st] = 1.0
        out[t * st] = (0.0, None, q)
    r = {2: out}
    if fft:
        r[3] = [n + l - 1 if n and l else 0]
    return r


def spec_big(n, l, side, fft):
    import c08
    m = Span(n if side == 's' else l, 6).matrix()
    f = np.array(c08.taps(l if side == 's' else n, 5))
    r = {2: rows(np.stack([np.convolve(m[:, k], f) for k in range(6)], axis=1))}
    if fft:
        r[3] = [n + l - 1]
    return r


def define(ck):
    big = ck.thorough()
    m = 12 if not big else 24
    sizes = [(n, l) for n in range(1, m + 1) for l in range(1, m + 1) if n <= 7 or l <= 7 or n % 4 == 0 or l % 4 == 1 or big]
    sizes += [(1, 17), (17, 1), (16, 17), (17, 16), (20, 3), (3, 20)] + ([(40, 9), (9, 40), (33, 32)] if big else [])
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for n, l in sizes:
            k = min(n, l)
            for v in (0, 1, 2):
                if v and (n + l) % 3 != v:
                    continue
                st = 2 if v == 2 else 1
                b = [Buf('s', ty, n * st), Buf('p', ty, l * st), Buf('y', ty, (n + l - 1) * st, 'undef')]
                ck.poly('direct_convolve %s %d*%d variant %d' % (ty, n, l, v), 'convolve', 'v3', 'h_direct_' + F, [n, l, v], b, 'c13:spec',
                        (n, l, v, False), tol=8 * EPS[ty] * (k + 1) * (k + 4), weight=(n + l)**2, validate=(n == 3 and l in (2, 5)))
                if n > 1 and l > 1:
                    ck.poly('fft_convolve %s %d*%d variant %d' % (ty, n, l, v), 'convolve', 'v3', 'h_fftconv_' + F, [n, l, v, 1 + 299 * (n == 5 and l == 2)],
                            b + [Buf('info', 'i64', 1, 'undef')], 'c13:spec', (n, l, v, True), tol=32 * fft_tol(n + l, ty), weight=(n + l)**3,
                            validate=(n == 3 and l in (2, 5)))
        for n, l in ((2, 2), (3, 2), (4, 4), (5, 4), (2, 7)):
            ck.poly('fft_convolver %s %d*%d copied, next to others of other sizes' % (ty, n, l), 'convolve', 'v3', 'h_fftconv_' + F, [n, l, 3, 1],
                    [Buf('s', ty, n), Buf('p', ty, l), Buf('y', ty, n + l - 1, 'undef'), Buf('info', 'i64', 1, 'undef')], 'c13:spec', (n, l, 0, True),
                    tol=32 * fft_tol(n + l, ty), weight=(n + l)**3)
        for n, l in ((0, 0), (0, 3), (3, 0)):
            ck.poly('fft_convolve %s %d*%d empty' % (ty, n, l), 'convolve', 'v3', 'h_fftconv_' + F, [n, l, 0, 1],
                    [Buf('s', ty, n), Buf('p', ty, l), Buf('y', ty, 1, 'undef'), Buf('info', 'i64', 1, 'undef')], 'c13:spec', (n, l, 0, True), tol=1e-6)
    import c08
    far = [(100, 100), (257, 64), (64, 257), (1000, 30), (30, 1000), (513, 512), (129, 1), (70000, 2), (3, 66000), (5000, 3000), (9000, 200)] + ([(2000, 300), (3000, 1500)] if big else [])
    for n, l in far:
        for side in 'sp':
            for F, ty in (('d', 'f64'),) + ((('f', 'f32'),) if n + l < 400 else ()):
                b = [Buf('s', ty, n, Span(n, 6) if side == 's' else c08.taps(n, 5)), Buf('p', ty, l, Span(l, 6) if side == 'p' else c08.taps(l, 5)), Buf('y', ty, n + l - 1, 'undef')]
                k = min(n, l)
                if n * l < 40000 or min(n, l) < 4:
                    ck.poly('direct_convolve %s %d*%d, %s in a subspace' % (ty, n, l, side), 'convolve', 'v3', 'h_direct_' + F, [n, l, 0], b, 'c13:spec_big',
                            (n, l, side, False), tol=8 * EPS[ty] * (k + 1) * (k + 4), weight=20 * n * l)
                if l > 1 and n + l < 16384:
                    ck.poly('fft_convolve %s %d*%d, %s in a subspace' % (ty, n, l, side), 'convolve', 'v3', 'h_fftconv_' + F, [n, l, (n + l) % 2, 1],
                            b + [Buf('info', 'i64', 1, 'undef')], 'c13:spec_big', (n, l, side, True), tol=32 * fft_tol(n + l, ty), weight=100 * (n + l))
    ck.bounds.append('with one operand fixed and the other in a 6-dimensional subspace: sizes %s' % far)
    ck.bounds.append('%d size pairs, both operands up to %d elements, every element symbolic in [-1,1]' % (len(sizes), 40 if big else 20))
    ck.assumptions += ['FFT convolution needs at least two elements per operand (library precondition)',
                       'rounding modelled by a propagated error bound', 'std::mdspan replaced by the shim in /verif/shim']
