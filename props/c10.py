"""C10: overlap-add and overlap-save filter a stream block by block for any block and filter size."""
from core import Buf, Span
from dsp import *
import c08


def spec(B, F, N, v):
    nv = F + N
    if v == 1:
        m = np.zeros((N, nv))
        m[:, F:] = np.eye(N)
        y = rows(m)
    else:
        y = c08.conv_rows(F, N, 0, F, nv)
    return {2: y, 3: [B, F, 1, 1]}


def spec_big(B, F, N, v, side):
    m = Span(F if side == 'h' else N, 6).matrix()
    f = np.array(c08.taps(N if side == 'h' else F, 5))
    if v == 1:
        y = m if side == 'x' else None
    else:
        y = np.stack([np.convolve(m[:, k], f)[:N] for k in range(6)], axis=1)
    return {2: rows(y), 3: [B, F, 1, 1]}


def define(ck):
    big = ck.thorough()
    sizes = [(B, F) for B in range(1, 9) for F in (1, 2, 3, 4, 5, 7, 8, 9, 12)]
    if big:
        sizes = [(B, F) for B in range(1, 17) for F in range(1, 20)]
    for kind in ('ola', 'ols'):
        for T, ty in (('f', 'f32'), ('d', 'f64')):
            for B, F in sizes:
                nb = -(-(F - 1) // B) + 2
                N = nb * B
                for v in (0, 1, 2):
                    if v == 2 and (B % 2 or F > 9):
                        continue
                    ck.poly('%s %s block=%d filter=%d%s' % (kind, ty, B, F, ['', ' untouched spectrum', ' copied, next to another one'][v]), 'overlap', 'v3',
                            'h_%s_%s' % (kind, T), [B, F, nb, v],
                            [Buf('h', ty, F), Buf('x', ty, N), Buf('y', ty, N, 'undef'), Buf('info', 'i64', 4, 'undef')],
                            'c10:spec', (B, F, N, v), tol=c08.tol(F, B + F, ty), weight=(F + N)**2,
                            validate=(B in (3, 4) and F in (1, 5)))
    far = [(100, 30, 3), (64, 65, 3), (1, 50, 60), (30, 100, 6), (256, 256, 3), (129, 400, 5), (500, 20, 2), (7, 33, 12), (2, 3, 600), (1, 1, 1100), (3, 40, 300)] + ([(1000, 1000, 3), (64, 2000, 34)] if big else [])
    for kind in ('ola', 'ols'):
        for B, F, nb in far:
            N = nb * B
            for T, ty in (('d', 'f64'),) + ((('f', 'f32'),) if B * F < 4000 else ()):
                for v, side in ((0, 'x'), (0, 'h'), (1, 'x')):
                    ck.poly('%s %s block=%d filter=%d, %d blocks, %s in a subspace%s' % (kind, ty, B, F, nb, side, ', untouched spectrum' if v else ''), 'overlap', 'v3',
                            'h_%s_%s' % (kind, T), [B, F, nb, v],
                            [Buf('h', ty, F, Span(F, 6) if side == 'h' else c08.taps(F, 5)), Buf('x', ty, N, Span(N, 6) if side == 'x' else c08.taps(N, 5)),
                             Buf('y', ty, N, 'undef'), Buf('info', 'i64', 4, 'undef')],
                            'c10:spec_big', (B, F, N, v, side), tol=c08.tol(F, B + F, ty) / 10, weight=60 * nb * (B + F))
    ck.bounds.append('with one operand fixed and the other in a 6-dimensional subspace: (block, filter, blocks) = %s' % far)
    ck.bounds.append('block 1..%d, filter length up to %d, enough blocks for the whole tail plus one; taps and samples '
                     'symbolic in [-1,1]' % ((16, 19) if big else (8, 12)))
    ck.assumptions += ['rounding modelled by a propagated error bound', 'std::mdspan replaced by the shim in /verif/shim']
