"""C06: STFT framing / windowing and uniform partitioning of impulse responses."""
from core import Buf, Span
from dsp import *


def window(kind, i, n):
    if kind == 0 or n == 1:
        return 1.0
    c = math.cos(2 * math.pi * i / (n - 1))
    return 0.5 * (1 - c) if kind in (1, -1) else 0.54 - 0.46 * c


def spec(ch, length, frame, tsize, overlap, win, interleaved=False):
    n = 1
    while n < tsize:
        n *= 2
    hop = frame - overlap
    frames = -(-length // hop)
    bins = n // 2 + 1
    m = rdft_matrix(n)
    M = np.zeros((ch * frames * bins * 2, ch * length))
    r = 0
    for c in range(ch):
        for f in range(frames):
            s = f * hop
            for i in range(min(frame, length - s)):
                M[r:r + 2 * bins, (s + i) * ch + c if interleaved else c * length + s + i] = m[:, i] * window(win, i, n)
            r += 2 * bins
    return {1: [ch, frames, bins], 2: rows(M)}


def spec_big(ch, length, frame, tsize, overlap, win):
    n = 1
    while n < tsize:
        n *= 2
    hop = frame - overlap
    frames = -(-length // hop)
    m = Span(ch * length, 6).matrix().reshape(ch, length, 6)
    w = np.array([window(win, i, n) for i in range(n)])[:, None]
    out = []
    for c in range(ch):
        for f in range(frames):
            x = np.zeros((n, 6))
            seg = m[c, f * hop:f * hop + frame]
            x[:len(seg)] = seg
            out.append(interleave(np.fft.rfft(x * w, axis=0)))
    return {1: [ch, frames, n // 2 + 1], 2: rows(np.vstack(out))}


def define(ck):
    th = ck.thorough()
    cases = []
    for ch in (1, 2):
        for tsize in (2, 4, 8, 16) + ((32,) if th else ()):
            for length in range(1, (2 * tsize + 3) if ch == 1 else tsize + 2):
                cases.append((ch, length, tsize, tsize, tsize // 2, -1, 0))     # stft(x, n)
                for ov in {0, 1, tsize // 2, tsize // 4, tsize - 1}:
                    if tsize > 8 and ov == tsize - 1:
                        continue
                    for win in ((0, 1, 2) if ch == 1 and length % 3 == 0 else (length % 3,)):
                        cases.append((ch, length, tsize, tsize, ov, win, length % 2))
        for frame, tsize in ((3, 4), (5, 8), (4, 8), (6, 16), (3, 3), (5, 6), (8, 32)):
            for length in range(1, 3 * frame + 2):
                for ov in (0, 1, frame // 2):
                    cases.append((ch, length, frame, tsize, ov, length % 3, length % 3))
    cases += [(1, 5, 4, 4, 2, 1, 3), (2, 4, 4, 8, 0, 0, 3), (1, 9, 8, 8, 4, 2, 3), (1, 9, 8, 8, 4, 1, 3), (2, 7, 2, 2, 0, 1, 3), (2, 7, 2, 2, 0, 0, 3)]
    cases += [(1, 5, 4, 4, 2, 1, 340), (2, 4, 4, 8, 0, 0, 341), (1, 9, 8, 8, 4, 2, 140), (1, 9, 8, 8, 4, 2, 141)]
    for k, c in enumerate(cases):
        F, ty = (('f', 'f32'), ('d', 'f64'))[k % 2]
        ch, length, frame, tsize, ov, win, reuse = c
        n = 1
        while n < tsize:
            n *= 2
        frames = -(-length // (frame - ov))
        ck.poly('stft %s channels=%d length=%d frame=%d transform=%d overlap=%d window=%d use=%d' % ((ty,) + c), 'stft', 'v3',
                'h_stft_' + F, list(c), [Buf('x', ty, ch * length), Buf('extents', 'i64', 3, 'undef'),
                                         Buf('S', ty, ch * frames * (n // 2 + 1) * 2, 'undef')],
                'c06:spec', c[:6] + (reuse == 2,), tol=2 * fft_tol(n, ty), weight=frames * n, validate=(k % 97 == 0))
    for ch in (1, 2, 3):
        for block in (1, 2, 4, 8, 16) + ((32, 64) if th else ()) + (3, 5, 6):
            n = 1
            while n < 2 * block:
                n *= 2
            for length in sorted({1, 2, block - 1, block, block + 1, 2 * block - 1, 2 * block, 2 * block + 1, 3 * block + 2} - {0}):
                F, ty = (('f', 'f32'), ('d', 'f64'))[(length + ch) % 2]
                frames = -(-length // block)
                ck.poly('uniform_partition %s channels=%d length=%d block=%d' % (ty, ch, length, block), 'stft', 'v3',
                        'h_up_' + F, [ch, length, block],
                        [Buf('x', ty, ch * length), Buf('extents', 'i64', 3, 'undef'),
                         Buf('S', ty, ch * frames * (n // 2 + 1) * 2, 'undef')],
                        'c06:spec', (ch, length, block, 2 * block, 0, 0), tol=fft_tol(n, ty), weight=frames * n,
                        validate=(length == block + 1 and ch == 2))
    bigs = [(1, 700, 256, 256, 128, 1), (2, 900, 300, 512, 100, 2), (1, 2100, 1024, 1024, 512, -1), (3, 130, 33, 64, 32, 1), (1, 2200, 4, 4, 3, 1), (20, 30, 8, 8, 4, 2), (1, 70000, 64, 64, 0, 0)]
    for c in bigs + ([(1, 5000, 2048, 2048, 1024, 1), (2, 3000, 1000, 1024, 750, 0)] if th else []):
        ch, length, frame, tsize, ov, win = c
        n = 1 << (tsize - 1).bit_length()
        frames = -(-length // (frame - ov))
        ck.poly('stft channels=%d length=%d frame=%d transform=%d overlap=%d window=%d, subspace' % c, 'stft', 'v3', 'h_stft_d', list(c) + [0],
                [Buf('x', 'f64', ch * length, Span(ch * length, 6)), Buf('extents', 'i64', 3, 'undef'), Buf('S', 'f64', ch * frames * (n // 2 + 1) * 2, 'undef')],
                'c06:spec_big', c, tol=2 * fft_tol(n, 'f64'), weight=10 * frames * n * ch)
    for ch, length, block in ((1, 1000, 64), (2, 513, 256), (1, 1300, 512), (1, 300, 32), (1, 1200, 2), (18, 10, 4), (1, 66000, 32), (1, 9000, 4096)) + (((1, 5000, 1024),) if th else ()):
        n = 1 << (2 * block - 1).bit_length()
        frames = -(-length // block)
        ck.poly('uniform_partition channels=%d length=%d block=%d, subspace' % (ch, length, block), 'stft', 'v3', 'h_up_d', [ch, length, block],
                [Buf('x', 'f64', ch * length, Span(ch * length, 6)), Buf('extents', 'i64', 3, 'undef'), Buf('S', 'f64', ch * frames * (n // 2 + 1) * 2, 'undef')],
                'c06:spec_big', (ch, length, block, 2 * block, 0, 0), tol=fft_tol(n, 'f64'), weight=10 * frames * n * ch)
    ck.bounds.append('transforms up to %d with the signal in a 6-dimensional subspace' % (1024 if not th else 2048))
    ck.bounds.append('1..3 channels; transform sizes 2..%d, frames of 1..%d samples, every overlap kind, signal lengths from 1 '
                     'to over two frames; samples symbolic in [-1,1]' % (64, 32))
    ck.assumptions += ['frame_size <= transform size and overlap < frame_size (documented preconditions)',
                       'the window function is sampled over the (power of two) transform length, as the implementation documents '
                       'by construction', 'std::mdspan replaced by the shim in /verif/shim']
