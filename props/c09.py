"""C09: the streaming overlap-add convolver gives the same output however the signal is cut into chunks."""
from core import Buf
from dsp import *
import c08


def define(ck):
    big = ck.thorough()
    cases = []
    for B in (1, 2, 4, 8) + ((16,) if big else ()):
        Ls = sorted({1, B, B + 1, 2 * B + 1, 3 * B} - {0})
        shapes = [[B, B + 1, 2 * B, B], [B + 1] * 4, [2 * B - 1, B + 1, B], [B + B // 2, B + B // 2, B], [3 * B + 1, B],
                  [5 * B], [2 * B, B, 3 * B - 1]]
        if big:
            shapes += [[B + a, B + b, B + c] for a in range(0, B, max(1, B // 4)) for b in range(0, B, max(1, B // 4))
                       for c in range(0, B, max(1, B // 2))]
        for L in Ls:
            for s in shapes:
                if [L, B, s] not in cases:
                    cases.append([L, B, s])
    for F in 'fd':
        for L, B, s in cases:
            c08.add(ck, 'v3', 'upola2', F, 1, 0, L, B, s, validate=(B == 4 and L == 9))
            if L in (1, 2 * B + 1):
                c08.add(ck, 'v3', 'upola2', F, 1, 0, L, B, s, reload=B + B // 2)
            for mode, extra in ((1, 3 * B), (2, 2 * B + B // 2), (4, 0), (8, 0), (16, 0)):
                if L == 2 * B + 1 and s in ([B, B + 1, 2 * B, B], [B + 1] * 4) and 1 < B < 8:
                    c08.add(ck, 'v3', 'upola2', F, 1, 0, L, B, s, reload=mode * 100000 + extra)
    far = [(81, 4, [4, 5, 7, 4, 6, 11, 4, 4, 9, 30, 5, 5, 8]), (150, 32, [33, 40, 63, 32, 100, 35]), (300, 128, [200, 129, 128, 255, 130]), (640, 64, [64, 700, 65, 90]),
           (257, 256, [300, 256, 511]), (3, 1, [1, 2, 3, 1, 1, 5, 4] * 5)]
    far += [(7, 2, [2, 3, 2, 4, 5, 3] * 120), (5, 1, [1, 1, 2, 1, 3] * 220), (9, 4, [5, 4, 7] * 110)]
    for L, B, s in far:
        for F in 'df' if big or B == 32 else 'd':
            c08.add_big(ck, 'upola2', F, L, B, s)
            c08.add_big(ck, 'upola2', F, L, B, s, 'h')
            c08.add_big(ck, 'upola2', F, L, B, s, 'x', reload=3 * B + B // 2)
    ck.bounds.append('with one operand fixed and the other in a 6-dimensional subspace: (taps, block, chunks) = %s' % [(L, B, s if len(s) < 20 else '%d chunks' % len(s)) for L, B, s in far])
    ck.bounds.append('block 1,2,4,8%s; 1..3 partitions; %d chunk patterns per block size (all chunks at least one block); '
                     'every tap and sample symbolic in [-1,1]' % (', 16' if big else '', 7 if not big else 7 + 32))
    ck.assumptions += ['chunks shorter than one block are excluded by the library precondition',
                       'rounding modelled by a propagated error bound', 'std::mdspan replaced by the shim in /verif/shim']
