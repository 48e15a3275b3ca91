"""C08: partitioned convolvers compute the convolution with the impulse response."""
from core import Buf, Span
from dsp import *

KINDS = ['upols', 'upola', 'upola2', 'split_upols', 'split_upola']


def conv_rows(L, N, hoff, xoff, nv):
    """y[t] = sum_k h[k] x[t-k], t < N"""
    out = []
    for t in range(N):
        q = np.zeros((nv, nv))
        for k in range(min(L, t + 1)):
            q[hoff + k, xoff + t - k] = 1.0
        out.append((0.0, None, q))
    return out


def spec(nch, ch, L, N):
    nv = nch * L + N
    return {2: conv_rows(L, N, ch * L, nch * L, nv)}


def tol(L, B, ty):
    return 64 * EPS[ty] * L * 2 * B * (math.log2(2 * B) + 4)


def add(ck, cfg, kind, F, nch, ch, L, B, chunks, reload=0, validate=False):
    ty = {'f': 'f32', 'd': 'f64'}[F]
    N = sum(chunks)
    nv = nch * L + N
    ck.poly('%s %s %s taps=%d block=%d chunks=%s%s%s' % (
        kind, cfg, ty, L, B, 'x'.join(map(str, chunks)), ' channel %d/%d' % (ch, nch) if nch > 1 else '', HIST.get(reload // 100000, '') + (' reloaded' if reload % 100000 else '')),
        'conv', cfg, 'h_%s_%s' % (kind, F), [nch, ch, L, B, reload] + list(chunks) + [0],
        [Buf('h', ty, nch * L), Buf('x', ty, N), Buf('y', ty, N, 'undef')], 'c08:spec', (nch, ch, L, N),
        tol=tol(L, B, ty), weight=nv * nv * B * (L / B + 2) * N / B, validate=validate)


HIST = {1: ' after twice the block size', 2: ' after half the block size', 4: ' next to another convolver', 8: ' continued by a copy', 16: ' continued by an assigned object'}


def taps(n, seed):
    import random
    rng = random.Random(31 * n + seed)
    return [(2 * rng.randrange(-128, 128) + 1) / 256 for _ in range(n)]


def spec_big(L, N, side):
    m = Span(L if side == 'h' else N, 6).matrix()
    f = np.array(taps(N if side == 'h' else L, 5))
    return {2: rows(np.stack([np.convolve(m[:, k], f)[:N] for k in range(m.shape[1])], axis=1))}


def add_big(ck, kind, F, L, B, chunks, side='x', reload=0):
    """one operand fixed, the other in a 6-dimensional subspace: sizes out of reach of the fully symbolic jobs"""
    ty = {'f': 'f32', 'd': 'f64'}[F]
    N = sum(chunks)
    ck.poly('%s %s taps=%d block=%d, %d chunks, %s in a subspace%s' % (kind, ty, L, B, len(chunks), side, ' reloaded' if reload else ''),
            'conv', 'v3', 'h_%s_%s' % (kind, F), [1, 0, L, B, reload] + list(chunks) + [0],
            [Buf('h', ty, L, Span(L, 6) if side == 'h' else taps(L, 5)), Buf('x', ty, N, Span(N, 6) if side == 'x' else taps(N, 5)), Buf('y', ty, N, 'undef')],
            'c08:spec_big', (L, N, side), tol=tol(L, B, ty) / (30 if B < 32 else 60), weight=200 * len(chunks) * (B * math.log2(2 * B) + L))


def define(ck):
    big = ck.thorough()
    for kind in KINDS:
        for F in 'fd':
            for B in (1, 2, 4, 8) + ((16,) if big else ()):
                Ls = sorted({1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B} - {0})
                if big:
                    Ls = sorted(set(Ls) | set(range(1, 2 * B)) | {4 * B - 1, 5 * B})
                for L in Ls:
                    S = -(-L // B)
                    nb = S + 3 if B < 8 else S + 2
                    add(ck, 'v3', kind, F, 1, 0, L, B, [B] * nb, validate=(B == 4 and L == 9))
            add(ck, 'v3', kind, F, 2, 1, 5, 2, [2] * 4)
            add(ck, 'v3', kind, F, 2, 0, 5, 2, [2] * 4)
            for L in (1, 4, 8, 9, 12, 17):
                add(ck, 'v3', kind, F, 1, 0, L, 4, [4] * 5, reload=20)
            add(ck, 'v3', kind, F, 1, 0, 9, 4, [4] * 5, reload=4)
            add(ck, 'v3', kind, F, 1, 0, 3, 1, [1] * 5, reload=4)
            for mode, extra in ((1, 24), (2, 12), (4, 0), (8, 0), (16, 0)):
                for L, B in ((9, 4), (2, 2), (4, 2), (5, 2), (10, 2), (12, 4)):
                    add(ck, 'v3', kind, F, 1, 0, L, B, [B] * 5, reload=mode * 100000 + extra)
    for cfg in ('base', 'v3n') + (('sse4', 'v4') if big else ()):
        for kind in KINDS:
            for F in 'fd':
                for B, L in ((4, 9), (8, 12)):
                    add(ck, cfg, kind, F, 1, 0, L, B, [B] * 4, validate=(B == 4))
    shapes = [(81, 4, 25), (150, 32, 8), (300, 128, 5), (257, 256, 4), (640, 64, 13), (700, 512, 3), (7, 2, 70)]
    if big:
        shapes += [(1500, 1024, 3), (2000, 64, 34), (3, 1, 300), (999, 16, 70)]
    for k, (L, B, nb) in enumerate(shapes):
        for kind in KINDS:
            for F in ('fd' if big or k == 1 else 'd'):
                add_big(ck, kind, F, L, B, [B] * nb)
                if big or k in (0, 3):
                    add_big(ck, kind, F, L, B, [B] * nb, 'h')
                    add_big(ck, kind, F, L, B, [B] * nb, 'x', reload=3 * B)
    long = [(7, 2, 700), (3, 1, 1100), (5, 4, 300)]
    for L, B, nb in long:
        for kind in KINDS:
            add_big(ck, kind, 'd', L, B, [B] * nb)
    for kind in KINDS if big else ('upols', 'upola2', 'split_upola'):
        add_big(ck, kind, 'd', 600, 2, [2] * 310)
        add_big(ck, kind, 'd', 270, 1, [1] * 275, 'h')
    add_big(ck, 'upols', 'd', 3, 1, [1] * 4200)
    add_big(ck, 'split_upola', 'd', 3, 1, [1] * 4200)
    shapes = shapes + long + [(3, 1, 4200)] + [(600, 2, 310), (270, 1, 275)]
    ck.bounds.append('loading a new response after another one of the same, twice and half the block size, with another convolver used in between, and continued by a copy: block 2 and 4')
    ck.bounds.append('with one operand fixed and the other in a 6-dimensional subspace: (taps, block, blocks) = %s' % shapes)
    ck.bounds.append('block 1,2,4,8%s; 1..3 partitions%s; partitions+2..3 blocks streamed; every tap and every sample '
                     'symbolic in [-1,1]' % ((', 16', ' (1..5)') if big else ('', '')))
    ck.assumptions += ['rounding modelled by a propagated error bound', 'block sizes are powers of two (library precondition)',
                       'std::mdspan replaced by the shim in /verif/shim']
