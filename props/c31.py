"""C31: FFT bin frequencies and A-weighting."""
import math

from core import Buf
import realdom

CONST = [12194.217, 20.598997, 107.65265, 737.86223]


def spec_aw(C, ins, outs, n):
    f = ins[0][0]
    c = [x * x for x in CONST]
    lg = lambda x: C.fn('log10', x)
    f2 = f * f
    want = 2 + 20 * (lg(c[0]) + 2 * lg(f2) - lg(f2 + c[0]) - lg(f2 + c[1]) - 0.5 * lg(f2 + c[2]) - 0.5 * lg(f2 + c[3]))
    return [('A-weighting curve', outs[1][0], want)]


def pre_aw(C, ins, n):
    return [ins[0][0] > 1e-3]


def pre_freq(C, ins, *a):
    return [ins[0][0] > 1e-6]


def near(C, label, o, want):
    # relative to the value: 1/fs etc. are rounded
    return (label, C.all(o - want <= 1e-6 * C.abs(want) + 1e-9, want - o <= 1e-6 * C.abs(want) + 1e-9))


def spec_freqv(C, ins, outs, n, st):
    inv = ins[0][0]
    at = range(n) if n < 100 else sorted({i for k in range(18) for i in ((1 << k) - 1, 1 << k, (1 << k) + 1, (3 << k) - 1, n - 1 - k, n * k // 18) if 0 <= i < n})
    obs = [near(C, 'bin %d' % i, outs[1][i * st] * inv * n, float(i)) for i in at]
    return obs + [('gap %d untouched' % i, outs[1][i], ins[1][i]) for i in range(n * st) if i % st]


def spec_freq(C, ins, outs, n, i):
    return [near(C, 'bin frequency', outs[1][0] * ins[0][0] * n, float(i))]


def pre_freqs(C, ins):
    n, i = ins[2]
    if C.concrete:
        return [ins[0][0] > 1e-6, 1 <= n <= 1 << 20, 0 <= i <= n]
    N, I = realdom.sreal(n), realdom.sreal(i)
    return [ins[0][0] > 1e-6, N >= 1, N <= 1 << 20, I >= 0, I <= N, n >= 1, n <= 1 << 20, i >= 0, i <= n]


def spec_freqs(C, ins, outs):
    n, i = ins[2]
    N, I = (n, i) if C.concrete else (realdom.sreal(n), realdom.sreal(i))
    return [near(C, 'bin frequency', outs[1][0] * ins[0][0] * N, I)]


def define(ck):
    for n, ty in (('f', 'f32'), ('d', 'f64')):
        ck.real('a-weighting ' + ty, 'scalar', 'v3', 'h_aw_' + n, [], [Buf('f', ty, 1), Buf('o', ty, 1, 'undef')], 'c31:spec_aw', (n,), pre='c31:pre_aw', lo=0, hi=1e5, tol=1e-3)
        ck.real('bin frequency %s' % ty, 'scalar', 'v3', 'h_freqs_' + n, [], [Buf('inv', 'f64', 1), Buf('o', ty, 1, 'undef'), Buf('ni', 'i32', 2)],
                'c31:spec_freqs', (), pre='c31:pre_freqs', lo=0, hi=100, optional=True)
        for size in (1, 2, 3, 8, 64, 100, 1 << 20):
            for i in sorted({0, 1, size // 2, size // 2 + 1, size - 1}):
                ck.real('bin %d of %d %s' % (i, size, ty), 'scalar', 'v3', 'h_freq_' + n, [size, i], [Buf('inv', 'f64', 1), Buf('o', ty, 1, 'undef')], 'c31:spec_freq', (size, i), pre='c31:pre_freq', lo=0, hi=100)
        for k in (0, 1, 2, 3, 5, 8, 17, 33):
            for st in (1, 2) if k < 9 else (1,):
                ck.real('bin frequencies %s n=%d stride %d' % (ty, k, st), 'scalar', 'v3', 'h_freqv_' + n, [k, st], [Buf('inv', 'f64', 1), Buf('o', ty, max(1, k * st))],
                        'c31:spec_freqv', (k, st), pre='c31:pre_freq', lo=0, hi=100, validate=(k == 5))
        for k in (513, 1100, 5000, 40000, 70000):
            ck.real('bin frequencies %s n=%d' % (ty, k), 'scalar', 'v3', 'h_freqv_' + n, [k, 1], [Buf('inv', 'f64', 1), Buf('o', ty, k, 'undef')],
                    'c31:spec_freqv', (k, 1), pre='c31:pre_freq', lo=0, hi=100, weight=k)
    ck.bounds.append('every frequency from 1 mHz to 100 kHz; every sample rate; sizes up to 2^20; vectors of up to 33 bins, and of 513 to 70000 bins (some 90 of them looked at)')
    ck.assumptions.append('logarithms by their laws; constants within 1e-6 of the standard ones; rounding not modelled')
