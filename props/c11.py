"""C11: sparse filters: keeping everything is the dense convolution, dropping bins equals the dense filter with zeros."""
from core import Buf, Span
from dsp import *
import c08


def spec(L, N, w):
    nv = L + N
    if w == 0:
        return {2: c08.conv_rows(L, N, 0, L, nv)}
    return {2: [(0.0, None, None)] * N}


def spec_big(L, N, w):
    if w == 0:
        return c08.spec_big(L, N, 'x')
    return {2: [(0.0, None, None)] * N}


def define(ck):
    big = ck.thorough()
    for kind in ('upols', 'upola'):
        for F, ty in (('f', 'f32'), ('d', 'f64')):
            for B in (1, 2, 4, 8) + ((16,) if big else ()):
                for L in sorted({1, B, B + 1, 2 * B + 1, 3 * B}):
                    for w in range(7 if not big else 12):
                        nb = -(-L // B) + 2
                        N = nb * B
                        ck.poly('sparse %s %s taps=%d block=%d pattern %d' % (kind, ty, L, B, w), 'sparse', 'v3', 'h_sp_%s_%s' % (kind, F),
                                [L, B, nb, w, 0], [Buf('h', ty, L), Buf('x', ty, N), Buf('y', ty, N, 'undef')], 'c11:spec', (L, N, w),
                                tol=2 * c08.tol(L, B, ty), weight=(L + N)**2 * nb * B, validate=(B == 4 and L == 9))
            for mode in (1, 2, 4, 8, 32):
                for L, B, nb in ((9, 4, 5), (2, 2, 3), (4, 2, 4), (5, 2, 5), (10, 2, 7)):
                    for w in (0, 2, 6):
                        N = nb * B
                        ck.poly('sparse %s %s taps=%d block=%d pattern %d%s' % (kind, ty, L, B, w, c08.HIST.get(mode, ' reloaded')), 'sparse', 'v3', 'h_sp_%s_%s' % (kind, F),
                                [L, B, nb, w, mode], [Buf('h', ty, L), Buf('x', ty, N), Buf('y', ty, N, 'undef')], 'c11:spec', (L, N, w),
                                tol=2 * c08.tol(L, B, ty), weight=(L + N)**2 * nb * B)
    ck.bounds.append('loading a new response after another one of the same, twice and half the block size, with another convolver used in between, and continued by a copy: block 2 and 4')
    far = [(81, 4, 25), (150, 32, 8), (300, 128, 5), (640, 64, 12), (7, 2, 600), (300, 1, 310)] + ([(700, 512, 4), (2000, 64, 34)] if big else [])
    for kind in ('upols', 'upola'):
        for L, B, nb in far:
            N = nb * B
            for w in (0, 2, 6) if not big else range(8):
                ck.poly('sparse %s f64 taps=%d block=%d pattern %d, subspace' % (kind, L, B, w), 'sparse', 'v3', 'h_sp_%s_d' % kind, [L, B, nb, w, 0],
                        [Buf('h', 'f64', L, c08.taps(L, 5)), Buf('x', 'f64', N, Span(N, 6)), Buf('y', 'f64', N, 'undef')], 'c11:spec_big', (L, N, w),
                        tol=c08.tol(L, B, 'f64'), weight=200 * nb * B * 10)
    ck.bounds.append('with the taps fixed and the signal in a 6-dimensional subspace: (taps, block, blocks) = %s' % far)
    ck.bounds.append('block 1,2,4,8%s; 1..3 partitions; %d sparsity patterns; taps and samples symbolic in [-1,1]' % (
        ', 16' if big else '', 12 if big else 7))
    ck.assumptions += ['rounding modelled by a propagated error bound', 'std::mdspan replaced by the shim in /verif/shim']
