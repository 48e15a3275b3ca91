"""C26: compressed (quantised) storage."""
import z3
import rt
import realdom
import fxp
from core import Buf

S = rt.SORT[32]
D = rt.SORT[64]


def dbl(v):
    if isinstance(v, float):
        return z3.FPVal(v, D)
    return z3.fpFPToFP(z3.RNE(), v, D) if v.sort() != D else v


def within(g, v, eps):
    d = z3.fpSub(z3.RNE(), dbl(g), dbl(v))
    return z3.And(z3.fpLEQ(d, z3.FPVal(eps, D)), z3.fpGEQ(d, z3.FPVal(-eps, D)))


def pre(C, ins, w, s, n, k):
    one = lambda v: v if C.concrete else fxp.bvof(v, 32)
    return [C.all(v >= 0, v < s) if C.concrete else z3.ULT(one(v), s) for v in ins[1]]


def spec(C, ins, outs, w, s, n, k):
    top = (1 << (w - 1)) - 1
    obs = []
    eps = 0.51 / top
    for row in range(s):
        for j in range(2 * n):
            want = 0.0
            for i in range(k):
                want = C.ite(ins[1][i] == row if C.concrete or isinstance(ins[1][i], int) else z3.simplify(fxp.bvof(ins[1][i], 32) == row), ins[0][2 * n * i + j], want)
            g = outs[2][2 * n * row + j]
            obs.append(('slot %d value %d is the nearest level' % (row, j), C.all(g - want <= eps, want - g <= eps)))
    return obs


def spec_acc(ins, outs, w, bits):
    top = float((1 << (w - 1)) - 1)
    obs = []
    sort = rt.SORT[bits]
    for i, (q, g) in enumerate(zip(ins[0], outs[1])):
        g = z3.FPVal(g, sort) if isinstance(g, float) else g
        want = z3.fpSignedToFP(z3.RNE(), fxp.bvof(q, w), D)
        obs.append(('element %d' % i, within(z3.fpMul(z3.RNE(), dbl(g), z3.FPVal(top, D)), want, 1e-6 * top)))
    return obs


def spec_accr(C, ins, outs, w, ty):
    top = float((1 << (w - 1)) - 1)
    eps = 1e-6 if ty == 'f32' else 1e-12
    obs = []
    for i, (q, g) in enumerate(zip(ins[0], outs[1])):
        v = q if C.concrete else realdom.sreal(fxp.bvof(q, w))
        obs.append(('element %d' % i, C.all(g * top - v <= eps * top, v - g * top <= eps * top)))
    return obs


def define(ck):
    big = ck.thorough()
    for w in (8, 16):
        for s, n, k in [(1, 1, 1), (2, 2, 1), (3, 1, 2), (2, 3, 2), (3, 9, 2), (5, 2, 2), (1, 17, 1)] + ([(4, 4, 3), (3, 2, 4), (2, 65, 2)] if big else []):
            for t in ('', 's'):
                ck.real('delay line %sint%d %d segments of %d, %d insertions' % (t, w, s, n, k), 'compressed', 'v3', 'h_fdl_%s%d' % (t, w), [s, n, k],
                        [Buf('x', 'f32', 2 * n * k), Buf('slot', 'i32', k), Buf('out', 'f32', 2 * n * s, 'undef')], 'c26:spec', (w, s, n, k), pre='c26:pre', forking=True,
                        lo=-1, hi=1, weight=n * k, timeout=200000)
        # long lines and rows: fixed slots, a few values symbolic
        for s, n, slots in ((2, 600, (1,)), (2, 2500, (1,)), (1, 9000, (0,)), (300, 2, (299, 43)), (600, 1, (0, 513)), (5000, 1, (4999,))):
            k = len(slots)
            N = 2 * n * k
            x = [((i * 7 + 3) % 255 - 127) / 127.5 for i in range(N)] if n > 9 else [None] * N
            for i in {0, 1, n, 2 * n - 1, N - 1}:
                x[i] = None
            ck.real('delay line int%d %d segments of %d, insertions at %s' % (w, s, n, slots), 'compressed', 'v3', 'h_fdl_%d' % w, [s, n, k],
                    [Buf('x', 'f32', N, x), Buf('slot', 'i32', k, list(slots)), Buf('out', 'f32', 2 * n * s, 'undef')], 'c26:spec', (w, s, n, k), forking=True,
                    lo=-1, hi=1, weight=n * s, timeout=200000)
        for T, ty, m in (('f', 'f32', 1), ('d', 'f64', 1), ('cf', 'f32', 2)) + ((('cd', 'f64', 2),) if w == 16 else ()):
            for r, c in ((1, 1), (2, 3), (3, 5)):
                bufs = [Buf('q', 'i%d' % w, r * c * m), Buf('o', ty, r * c * m, 'undef')]
                if w == 8 and ty == 'f32' and r < 3:
                    ck.z3('view %s int%d %dx%d' % (T, w, r, c), 'compressed', 'v3', 'h_acc_%s%d' % (T, w), [r, c], bufs,
                          'c26:spec_acc', (w, 32 if ty == 'f32' else 64), validate=True, timeout=200000)
                ck.real('view %s int%d %dx%d over reals' % (T, w, r, c), 'compressed', 'v3', 'h_acc_%s%d' % (T, w), [r, c], bufs,
                        'c26:spec_accr', (w, ty))
    ck.bounds.append('fixed slots in lines of up to 5000 segments, rows of up to 9000 bins, some values symbolic; every value in [-1,1], every slot; up to 5 segments, 17 bins and 2 insertions (thorough: 65 bins, 4 insertions); views up to 3x5 with every stored integer')
