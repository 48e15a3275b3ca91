"""C25: floating-point SIMD vectors."""
import z3
import rt
from core import Buf

OPS = ['add', 'subtract', 'multiply', 'load/store', 'broadcast', 'register round trip']
COPS = ['add', 'subtract', 'multiply', 'add assign', 'subtract assign', 'multiply assign']
RNE = z3.RNE()


def fp(v, bits):
    return z3.FPVal(v, rt.SORT[bits]) if isinstance(v, float) else v


def half(op, a, b):
    """16-bit lanes: exact in single precision, rounded once to half (equal to the half-precision operation)"""
    S = rt.SORT[32]
    return z3.fpFPToFP(RNE, op(RNE, z3.fpFPToFP(RNE, a, S), z3.fpFPToFP(RNE, b, S)), rt.SORT[16])


def same(g, w):
    """same value (every NaN is the same)"""
    return z3.Or(g == w, z3.And(z3.fpIsNaN(g), z3.fpIsNaN(w)))


def spec(ins, outs, bits, n, op):
    obs = []
    for i in range(n):
        a, b, g = (fp(v, bits) for v in (ins[0][i], ins[1][i], outs[2][i]))
        if op < 3:
            f = [z3.fpAdd, z3.fpSub, z3.fpMul][op]
            want = half(f, a, b) if bits == 16 else f(RNE, a, b)
        else:
            want = [a, fp(ins[0][0], bits), b][op - 3]
        obs.append(('lane %d' % i, same(g, want)))
    for k in range(3):
        for i in range(n if k == 2 else 0, len(outs[k])):
            obs.append(('buffer %d element %d untouched' % (k, i), same(fp(outs[k][i], bits), fp(ins[k][i], bits))))
    return obs


def spec_c(n, op):
    import numpy as np
    nv = 4 * n
    rows = []
    for part in range(2):
        for i in range(n):
            l = np.zeros(nv)
            q = None
            xr, xi, yr, yi = i, n + i, 2 * n + i, 3 * n + i
            if op % 3 < 2:
                l[xr if part == 0 else xi] = 1
                l[yr if part == 0 else yi] = 1 if op % 3 == 0 else -1
            else:
                q = np.zeros((nv, nv))
                if part == 0:
                    q[xr, yr], q[xi, yi] = 1, -1
                else:
                    q[xr, yi], q[xi, yr] = 1, 1
            rows.append((0.0, l, q))
    return {2: rows}


V = {'float32x4': (32, 4), 'float64x2': (64, 2), 'float32x8': (32, 8), 'float64x4': (64, 4), 'float16x8': (16, 8), 'float16x16': (16, 16),
     'float32x16': (32, 16), 'float64x8': (64, 8)}


def define(ck):
    sse, avx, h, a5 = ['float32x4', 'float64x2'], ['float32x8', 'float64x4'], ['float16x8', 'float16x16'], ['float32x16', 'float64x8']
    for cfg, names, nat in (('base', sse, (4, 2)), ('sse4', sse, (4, 2)), ('v3', sse + avx + h, (8, 4)), ('v4', sse + avx + h + a5, (16, 8))):
        for name in names + ['float32x', 'float64x']:
            bits, n = V[name] if name in V else (32, nat[0]) if name == 'float32x' else (64, nat[1])
            ty = 'f%d' % bits
            for op in range(6):
                ck.z3('%s %s %s' % (name, OPS[op], cfg), 'simd', cfg, 'h_' + name, [op], [Buf(s, ty, n + 1) for s in 'xyo'], 'c25:spec', (bits, n, op), weight=n,
                      validate=True)
                tol = {16: 2e-2, 32: 1e-5, 64: 1e-13}[bits]
                ck.poly('complex of %s %s %s' % (name, COPS[op], cfg), 'simd', cfg, 'h_c_' + name, [op],
                        [Buf('x', ty, 2 * n), Buf('y', ty, 2 * n), Buf('o', ty, 2 * n, 'undef')], 'c25:spec_c', (n, op), tol=tol, validate=True)
    ck.bounds.append('every lane value (bit-precise, NaN and infinities included) for vectors; complex numbers of vectors: lanes in [-1,1]; SSE2, SSE4.1, AVX2 and AVX-512 builds')
    ck.assumptions += ['rounding of complex products modelled by a propagated error bound']
