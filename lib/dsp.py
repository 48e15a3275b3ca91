"""Reference specifications (exact linear maps) and tolerances."""
import math
import numpy as np

EPS = {'f16': 2.0 ** -11, 'f32': 2.0 ** -24, 'f64': 2.0 ** -46}   # f64: the coefficients themselves are doubles


def cs(k, n):
    """cos, sin of 2*pi*k/n, argument reduced exactly"""
    k %= n
    a = 2 * math.pi * k / n
    return math.cos(a), math.sin(a)


def dft_matrix(n, back=False):
    """2n x 2n real matrix of the DFT on interleaved (re, im)"""
    m = np.zeros((2 * n, 2 * n))
    tab = [cs(k, n) for k in range(n)]
    for k in range(n):
        for j in range(n):
            c, s = tab[(k * j) % n]
            if not back:
                s = -s
            m[2 * k, 2 * j], m[2 * k, 2 * j + 1] = c, -s
            m[2 * k + 1, 2 * j], m[2 * k + 1, 2 * j + 1] = s, c
    return m


def rows(m, const=None):
    return [(0.0 if const is None else const[i], m[i], None) for i in range(m.shape[0])]


def dft_rows(n, back=False):
    return rows(dft_matrix(n, back))


def fft_tol(n, ty):
    """accuracy demanded of a transform of size n with inputs in [-1,1]"""
    return 64.0 * EPS[ty] * n * (math.log2(max(n, 2)) + 2)


def bufs_fft(n, ty):
    from core import Buf
    return Buf('x', ty, 2 * n)


def rdft_matrix(n):
    """(2*(n/2+1)) x n: half spectrum of a real signal"""
    m = dft_matrix(n)[:2 * (n // 2 + 1), 0::2]
    return m


def irdft_matrix(n):
    """n x 2*(n/2+1): real signal (times n) of a half spectrum with hermitian extension. The imaginary parts of bins
    0 and n/2 contribute nothing to the real part."""
    h = n // 2 + 1
    m = np.zeros((n, 2 * h))
    for t in range(n):
        for k in range(h):
            c, s = cs(k * t, n)
            w = 1.0 if k == 0 or (2 * k == n) else 2.0
            m[t, 2 * k] += w * c
            if not (k == 0 or 2 * k == n):
                m[t, 2 * k + 1] += -w * s
    return m


def dct2_matrix(n):
    m = np.zeros((n, n))
    for k in range(n):
        for t in range(n):
            m[k, t] = 2.0 * cs(k * (2 * t + 1), 4 * n)[0]
    return m


def ident(n, s=1.0):
    return np.eye(n) * s


def interleave(z):
    """complex vectors (columns) -> interleaved real rows"""
    out = np.zeros((2 * z.shape[0], z.shape[1]))
    out[0::2], out[1::2] = z.real, z.imag
    return out


def span_fft(span, back=False):
    """rows of the DFT of a complex signal given by a span (interleaved)"""
    m = span.matrix()
    z = m[0::2] + 1j * m[1::2]
    return interleave(np.fft.ifft(z, axis=0) * z.shape[0] if back else np.fft.fft(z, axis=0))
