"""C30: window functions."""
import math

from core import Buf
from dsp import *
import realdom

KINDS = ('rect', 'hann', 'hamming')


def value(kind, i, n):
    if kind == 'rect':
        return 1.0
    c = math.cos(2 * math.pi * i / (n - 1))
    return 0.5 - 0.5 * c if kind == 'hann' else 0.54 - 0.46 * c


def spec_fill(kind, n, st):
    m = n * st if st else n
    out = []
    for k in range(m):
        if st > 1 and k % st:
            l = np.zeros(m)
            l[k] = 1.0
            out.append((0.0, l, None))
        else:
            out.append((value(kind, k // max(st, 1), n), None, None))
    return {0: out}


def pre_at(C, ins, kind):
    n, i = ins[0]
    if C.concrete:
        return [2 <= n <= 1 << 20, 0 <= i < n]
    N, I = realdom.sreal(n), realdom.sreal(i)
    import z3
    return [n >= 2, n <= 1 << 20, i >= 0, i < n, N >= 2, N <= 1 << 20, I >= 0, I <= N - 1, N == z3.ToReal(z3.Int('n_'))]


def spec_at(C, ins, outs, kind):
    n, i = ins[0]
    N, I = (n, i) if C.concrete else (realdom.sreal(n), realdom.sreal(i))
    if kind == 'rect':
        return [('rectangular window', outs[1][0], 1.0)]
    c = C.fn('cos', (2 * math.pi) * I / (N - 1))
    return [(kind + ' window', outs[1][0], 0.5 - 0.5 * c if kind == 'hann' else 0.54 - 0.46 * c)]


def define(ck):
    sizes = list(range(2, 34)) + [47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024]
    if ck.thorough():
        sizes = list(range(2, 514)) + [1000, 1023, 1024, 1025, 2048, 4096, 4099]
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for kind in KINDS:
            for n in sizes:
                for st in (0, 1, 2) if n < 17 else (0, 1):
                    m = n * max(st, 1)
                    ck.poly('%s %s n=%d %s' % (kind, ty, n, 'stride %d' % st if st else 'generated'), 'window', 'v3', 'h_%s_%s' % (kind, F), [n, st],
                            [Buf('w', ty, m, 'var' if st else 'undef')], 'c30:spec_fill', (kind, n, st), tol=2e-6 * max(1, n / 16) if ty == 'f32' else 1e-13 * n, validate=(n == 9), weight=n)
            for n in (2500, 5000, 20000, 70001):
                for st in (0, 1):
                    if n > 20000 and (st == 0) == (ty == 'f64'):
                        continue
                    ck.poly('%s %s n=%d %s' % (kind, ty, n, 'stride %d' % st if st else 'generated'), 'window', 'v3', 'h_%s_%s' % (kind, F), [n, st],
                            [Buf('w', ty, n, 'undef')], 'c30:spec_fill', (kind, n, st), tol=1.5e-4 if ty == 'f32' else 1e-13 * n, weight=n)
            ck.real('%s %s at any index of any size' % (kind, ty), 'window', 'v3', 'h_%s1_%s' % (kind, F), [], [Buf('ni', 'i32', 2), Buf('o', ty, 1, 'undef')],
                    'c30:spec_at', (kind,), pre='c30:pre_at', optional=True, tol=1e-4)
    for n in (2, 5, 16, 33):
        ck.poly('default window n=%d' % n, 'window', 'v3', 'h_default_f', [n], [Buf('w', 'f32', n, 'undef')], 'c30:spec_fill', ('hann', n, 0), tol=2e-6 * max(1, n / 16))
    ck.bounds.append('sizes %d..%d (selected), 2500, 5000, 20000 and 70001, every index; beyond that any size up to 2^20 over real arithmetic where decided' % (sizes[0], sizes[-1]))
