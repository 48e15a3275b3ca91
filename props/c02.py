"""C02: real FFT, inverse real FFT, separation of two packed real signals, packed in-place real FFT."""
from core import Buf, Span
from dsp import *


def sp_rfft(n, outn):
    m = rdft_matrix(n)
    r = rows(m) + [None] * (2 * outn - m.shape[0])
    return {1: r, 2: [n, n.bit_length() - 1]}


def sp_irfft(n, inn):
    m = irdft_matrix(n)
    M = np.zeros((n, 2 * inn))
    M[:, :m.shape[1]] = m
    return {1: rows(M)}


def spread(m, blk, n, rep, inblk, instep):
    """m with its rows in every rep-th slot of a buffer and its columns in every instep-th; slots are blk / inblk values wide"""
    src = [k * inblk * instep + c for k in range(m.shape[1] // inblk) for c in range(inblk)]
    M = np.zeros((m.shape[0], m.shape[1] * instep))
    M[:, src] = m
    out = [None] * (n * rep)
    for a, r in enumerate(rows(M)):
        out[(a // blk) * blk * rep + a % blk] = r
    return out


def sp_rffts(n, on):
    m = rdft_matrix(n)
    return {1: spread(m, 2, 2 * on, 3, 1, 2), 2: [n, n.bit_length() - 1]}


def sp_irffts(n, inn):
    m = irdft_matrix(n)
    M = np.zeros((n, 2 * inn))
    M[:, :m.shape[1]] = m
    return {1: spread(M, 1, n, 3, 2, 2)}


def sp_trip(n):
    return {1: rows(ident(n, float(n)))}


def sp_two(n):
    m = rdft_matrix(n)
    z = np.zeros_like(m)
    return {2: rows(np.hstack([m, z])), 3: rows(np.hstack([z, m]))}


def sp_deint(n):
    # X[k] = (Z[k] + conj Z[n-k])/2,  Y[k] = -i (Z[k] - conj Z[n-k])/2
    h = n // 2 + 1
    X = np.zeros((2 * h, 2 * n))
    Y = np.zeros((2 * h, 2 * n))
    for k in range(h):
        a, b = k % n, (n - k) % n
        X[2 * k, 2 * a] += .5
        X[2 * k, 2 * b] += .5
        X[2 * k + 1, 2 * a + 1] += .5
        X[2 * k + 1, 2 * b + 1] -= .5
        Y[2 * k, 2 * a + 1] += .5
        Y[2 * k, 2 * b + 1] += .5
        Y[2 * k + 1, 2 * a] -= .5
        Y[2 * k + 1, 2 * b] += .5
    return {1: rows(X), 2: rows(Y)}


def sp_xrfft(n, mode):
    """packed spectrum: [X0.re, X(n/2).re, X1.re, X1.im, ...]"""
    if mode == 2:
        return {0: rows(ident(n, n / 2.0))}
    m = rdft_matrix(n)
    M = np.zeros((n, n))
    M[0] = m[0]
    M[1] = m[2 * (n // 2)]
    M[2:] = m[2:n]
    return {0: rows(M if mode == 0 else np.linalg.inv(M) * (n / 2.0))}


def big_r(n, k=6):
    """half spectrum rows of a real subspace signal"""
    return interleave(np.fft.rfft(Span(n, k).matrix(), axis=0))


def bg_rfft(n):
    return {1: rows(big_r(n)), 2: [n, n.bit_length() - 1]}


def bg_irfft(n):
    h = n // 2 + 1
    m = Span(2 * h, 6).matrix()
    z = m[0::2] + 1j * m[1::2]
    z[0], z[-1] = z[0].real, z[-1].real
    return {1: rows(np.fft.irfft(z, n, axis=0) * n)}


def bg_trip(n):
    return {1: rows(Span(n, 6).matrix() * n)}


def bg_two(n):
    x, y = (interleave(np.fft.rfft(Span(n, 4, s).matrix(), axis=0)) for s in (1, 2))
    z = np.zeros_like(x)
    return {2: rows(np.hstack([x, z])), 3: rows(np.hstack([z, y]))}


def bg_c2c(n, b):
    return {0: rows(span_fft(Span(2 * n, 6), b))}


def bg_xrfft(n, mode):
    m = big_r(n)
    if mode == 2:
        return {0: rows(Span(n, 6).matrix() * (n / 2.0))}
    if mode == 0:
        return {0: rows(np.vstack([m[0:1], m[n:n + 1], m[2:n]]))}
    p = Span(n, 6).matrix()
    z = np.zeros((n // 2 + 1, 6), dtype=complex)
    z[0], z[-1] = p[0], p[1]
    z[1:-1] = p[2::2] + 1j * p[3::2]
    return {0: rows(np.fft.irfft(z, n, axis=0) * (n / 2.0))}


def sp_c2c(n, b):
    return {0: dft_rows(n, b)}


def define(ck):
    th = ck.thorough()
    top = 8 if not th else 10
    for F, ty in (('cf', 'f32'), ('cd', 'f64'), ('nf', 'f32')):
        for o in range(0, top + 1):
            n, h = 1 << o, (1 << o) // 2 + 1
            v = o in (0, 4)
            outs = {h} if o > 6 else {h, n, h + 1} if n >= h else {h}
            for on in sorted(outs):
                ck.poly('rfft %s n=%d, output extent %d' % (F, n, on), 'rfft', 'v3', 'h_rfft_' + F, [o, on, o % 2],
                        [Buf('x', ty, n), Buf('X', ty, 2 * on, 'undef'), Buf('info', 'i64', 2, 'undef')],
                        'c02:sp_rfft', (n, on), tol=fft_tol(n, ty), weight=n * n, validate=v)
            if o <= (5 if not th else 7):
                ck.poly('rfft %s n=%d, used and copied plan' % (F, n), 'rfft', 'v3', 'h_rfft_' + F, [o, h, 2],
                        [Buf('x', ty, n), Buf('X', ty, 2 * h, 'undef'), Buf('info', 'i64', 2, 'undef')],
                        'c02:sp_rfft', (n, h), tol=fft_tol(n, ty), weight=n * n)
                ck.poly('rfft %s n=%d, strided' % (F, n), 'rfft', 'v3', 'h_rfft_' + F, [o, h, 3],
                        [Buf('x', ty, 2 * n), Buf('X', ty, 6 * h, 'undef'), Buf('info', 'i64', 2, 'undef')],
                        'c02:sp_rffts', (n, h), tol=fft_tol(n, ty), weight=n * n)
                ck.poly('irfft %s n=%d, used and copied plan' % (F, n), 'rfft', 'v3', 'h_irfft_' + F, [o, h, 2],
                        [Buf('X', ty, 2 * h), Buf('x', ty, n, 'undef')], 'c02:sp_irfft', (n, h), tol=2 * fft_tol(n, ty), weight=n * n)
                ck.poly('irfft %s n=%d, strided' % (F, n), 'rfft', 'v3', 'h_irfft_' + F, [o, h, 3],
                        [Buf('X', ty, 4 * h), Buf('x', ty, 3 * n, 'undef')], 'c02:sp_irffts', (n, h), tol=2 * fft_tol(n, ty), weight=n * n)
            ins = {h} if o > 6 else {h, n} if n >= h else {h}
            for i_n in sorted(ins):
                ck.poly('irfft %s n=%d, input extent %d' % (F, n, i_n), 'rfft', 'v3', 'h_irfft_' + F, [o, i_n, o % 2],
                        [Buf('X', ty, 2 * i_n), Buf('x', ty, n, 'undef')], 'c02:sp_irfft', (n, i_n),
                        tol=2 * fft_tol(n, ty), weight=n * n, validate=v)
            if o <= 7:
                ck.poly('irfft(rfft) %s n=%d' % (F, n), 'rfft', 'v3', 'h_rtrip_' + F, [o],
                        [Buf('x', ty, n), Buf('y', ty, n, 'undef'), Buf('X', ty, 2 * h, 'undef')], 'c02:sp_trip', (n,),
                        tol=2 * n * fft_tol(n, ty), weight=n * n)
                ck.poly('two real signals in one transform %s n=%d' % (F, n), 'rfft', 'v3', 'h_two_' + F, [o],
                        [Buf('x', ty, n), Buf('y', ty, n), Buf('X', ty, 2 * h, 'undef'), Buf('Y', ty, 2 * h, 'undef')],
                        'c02:sp_two', (n,), tol=2 * fft_tol(n, ty), weight=2 * n * n, validate=v)
            if F != 'nf':
                for b in (0, 1):
                    ck.poly('experimental c2c %s n=%d dir %d' % (F, n, b), 'rfft', 'v3', 'h_xc2c_' + F, [o, b],
                            [Buf('x', ty, 2 * n)], 'c02:sp_c2c', (n, b), tol=fft_tol(n, ty), weight=n * n, validate=v)
                if o >= 1:
                    for d in (0, 1, 2):
                        ck.poly('experimental rfft %s n=%d mode %d' % (F, n, d), 'rfft', 'v3', 'h_xrfft_' + F, [o, d],
                                [Buf('x', ty, n)], 'c02:sp_xrfft', (n, d), tol=4 * n * fft_tol(n, ty), weight=n * n,
                                validate=v)
        for n in list(range(1, 18)) + [31, 32, 33]:
            h = n // 2 + 1
            ck.poly('rfft_deinterleave %s n=%d' % (F, n), 'rfft', 'v3', 'h_deint_' + F, [n],
                    [Buf('Z', ty, 2 * n), Buf('X', ty, 2 * h, 'undef'), Buf('Y', ty, 2 * h, 'undef')], 'c02:sp_deint', (n,),
                    tol=16 * EPS[ty], validate=(n == 7))
    for F, ty in (('cf', 'f32'), ('cd', 'f64'), ('nf', 'f32')):
        for o in range(top + 1, (12 if F != 'cd' else 15) if not th else 16):
            n, h = 1 << o, (1 << o) // 2 + 1
            S = lambda k, d=6, seed=1: Span(k, d, seed)
            ck.poly('rfft %s n=%d, subspace' % (F, n), 'rfft', 'v3', 'h_rfft_' + F, [o, h, 0],
                    [Buf('x', ty, n, S(n)), Buf('X', ty, 2 * h, 'undef'), Buf('info', 'i64', 2, 'undef')], 'c02:bg_rfft', (n,), tol=fft_tol(n, ty), weight=40 * n)
            ck.poly('irfft %s n=%d, subspace' % (F, n), 'rfft', 'v3', 'h_irfft_' + F, [o, h, 0],
                    [Buf('X', ty, 2 * h, S(2 * h)), Buf('x', ty, n, 'undef')], 'c02:bg_irfft', (n,), tol=2 * fft_tol(n, ty), weight=40 * n)
            if F == 'cd' and o < 12:
                ck.poly('irfft(rfft) %s n=%d, subspace' % (F, n), 'rfft', 'v3', 'h_rtrip_' + F, [o],
                        [Buf('x', ty, n, S(n)), Buf('y', ty, n, 'undef'), Buf('X', ty, 2 * h, 'undef')], 'c02:bg_trip', (n,), tol=2 * n * fft_tol(n, ty), weight=80 * n)
                ck.poly('two real signals in one transform %s n=%d, subspace' % (F, n), 'rfft', 'v3', 'h_two_' + F, [o],
                        [Buf('x', ty, n, S(n, 4)), Buf('y', ty, n, S(n, 4, 2)), Buf('X', ty, 2 * h, 'undef'), Buf('Y', ty, 2 * h, 'undef')],
                        'c02:bg_two', (n,), tol=2 * fft_tol(n, ty), weight=80 * n)
                for d in (0, 1, 2):
                    ck.poly('experimental rfft %s n=%d mode %d, subspace' % (F, n, d), 'rfft', 'v3', 'h_xrfft_' + F, [o, d],
                            [Buf('x', ty, n, S(n))], 'c02:bg_xrfft', (n, d), tol=4 * n * fft_tol(n, ty), weight=40 * n)
                    if d < 2:
                        ck.poly('experimental c2c %s n=%d dir %d, subspace' % (F, n, d), 'rfft', 'v3', 'h_xc2c_' + F, [o, d],
                                [Buf('x', ty, 2 * n, S(2 * n))], 'c02:bg_c2c', (n, d), tol=fft_tol(n, ty), weight=60 * n)
    for F, ty in (('cf', 'f32'), ('cd', 'f64'), ('nf', 'f32')):
        for o, v in ((1, 5), (2, 6), (3, 5), (3, 6)):
            n, h = 1 << o, (1 << o) // 2 + 1
            ck.poly('rfft %s n=%d next to plans of other sizes, %d' % (F, n, v), 'rfft', 'v3', 'h_rfft_' + F, [o, h, v],
                    [Buf('x', ty, n), Buf('X', ty, 2 * h, 'undef'), Buf('info', 'i64', 2, 'undef')], 'c02:sp_rfft', (n, h), tol=fft_tol(n, ty), weight=n * n)
            ck.poly('irfft %s n=%d next to plans of other sizes, %d' % (F, n, v), 'rfft', 'v3', 'h_irfft_' + F, [o, h, v],
                    [Buf('X', ty, 2 * h), Buf('x', ty, n, 'undef')], 'c02:sp_irfft', (n, h), tol=2 * fft_tol(n, ty), weight=n * n)
        for o, uses in ((2, 300), (4, 40)):
            n, h = 1 << o, (1 << o) // 2 + 1
            ck.poly('rfft %s n=%d after %d earlier uses' % (F, n, uses), 'rfft', 'v3', 'h_rfft_' + F, [o, h, 100 + uses],
                    [Buf('x', ty, n), Buf('X', ty, 2 * h, 'undef'), Buf('info', 'i64', 2, 'undef')], 'c02:sp_rfft', (n, h), tol=fft_tol(n, ty), weight=n * uses)
            ck.poly('irfft %s n=%d after %d earlier uses' % (F, n, uses), 'rfft', 'v3', 'h_irfft_' + F, [o, h, 100 + uses],
                    [Buf('X', ty, 2 * h), Buf('x', ty, n, 'undef')], 'c02:sp_irfft', (n, h), tol=2 * fft_tol(n, ty), weight=n * uses)
            if F != 'nf':
                ck.poly('experimental c2c %s n=%d after %d earlier uses' % (F, n, uses), 'rfft', 'v3', 'h_xc2c_' + F, [o, 100 + uses],
                        [Buf('x', ty, 2 * n)], 'c02:sp_c2c', (n, 0), tol=fft_tol(n, ty), weight=n * uses)
                ck.poly('experimental rfft %s n=%d after %d earlier uses' % (F, n, uses), 'rfft', 'v3', 'h_xrfft_' + F, [o, 100 + uses],
                        [Buf('x', ty, n)], 'c02:sp_xrfft', (n, 0), tol=4 * n * fft_tol(n, ty), weight=n * uses)
    ck.bounds.append('plans used 40 and 300 times before: n = 16 and 4')
    ck.bounds.append('n = 2^%d .. 2^%d with the input in a 6-dimensional subspace (element i = fixed coefficient times one of six symbolic variables)' % (
        top + 1, 14 if not th else 15))
    ck.bounds.append('n = 2^0 .. 2^%d, all samples / bins symbolic in [-1,1]; rfft_deinterleave for n = 1..17, 31..33' % top)
    ck.assumptions += ['rounding modelled by a propagated error bound; accuracy 64*eps*n*(log2 n+2) (times n for round trips)',
                       'std::mdspan replaced by the shim in /verif/shim']
