"""C16: element-wise add, multiply, scale, fill, copy over vectors and matrices in any layout."""
from core import Buf, Span
from dsp import *

OPS = ['add', 'multiply', 'copy', 'scale', 'fill']


def positions(sh):
    """[(position in row-major numbering of the inputs, position of the same element in the output)]"""
    r, c, l = sh
    if l in (0, 3):
        return [(2 * i, 2 * i) if l == 3 else (i, i) for i in range(r)]
    if l == 1:
        return [(i * c + j, i * c + j) for i in range(r) for j in range(c)]
    if l == 2:
        return [(j * r + i, j * r + i) for i in range(r) for j in range(c)]
    return [(i * c + j, j * r + i) for i in range(r) for j in range(c)]


def size(sh):
    r, c, l = sh
    return 2 * r if l == 3 else r if l == 0 else r * c


def spec(sh, op, alias, w, ny):
    """w components per element; ny: variables of the second buffer"""
    N = size(tuple(sh)) * w
    nv = N + ny
    ob = 2 if op < 3 else 0
    if op < 3 and alias:
        ob = alias - 1
    out = [None] * N
    if ob != 2:     # untouched elements of an in-place operation
        for i in range(N):
            l = np.zeros(nv)
            l[(0 if ob == 0 else N) + i] = 1
            out[i] = (0.0, l, None)
    for a, b in positions(tuple(sh)):
        for k in range(w):
            i, o = a * w + k, b * w + k
            l = np.zeros(nv)
            q = None
            if op == 0:
                l[i] = 1
                l[N + i] = 1
            elif op == 1:
                l = None
                q = np.zeros((nv, nv))
                if w == 1:
                    q[i, N + i] = 1
                elif k == 0:
                    q[i, N + i] = 1
                    q[i + 1, N + i + 1] = -1
                else:
                    q[i - 1, N + i] = 1
                    q[i, N + i - 1] = 1
            elif op == 2:
                l[i] = 1
            elif op == 3:
                l = None
                q = np.zeros((nv, nv))
                q[i, N] = 1
            else:
                l[N + k] = 1
            out[o] = (0.0, l, q)
    r = {ob: out}
    for b in (0, 1):
        if b != ob:
            n = N if b == 0 else ny
            m = np.zeros((n, nv))
            m[:, (0 if b == 0 else N):(N if b == 0 else nv)] = np.eye(n)
            r[b] = rows(m)
    return r


def spec_big(sh, op, w):
    import c08
    N = size(tuple(sh)) * w
    x = Span(N, 4).matrix()
    src, dst = [], []
    for a, b in positions(tuple(sh)):
        src += [a * w + k for k in range(w)]
        dst += [b * w + k for k in range(w)]
    if op == 0:
        m = np.hstack([x, Span(N, 4, 2).matrix()])
    elif op == 1:
        y = np.array(c08.taps(N, 5))[:, None]
        m = interleave((x[0::2] + 1j * x[1::2]) * (y[0::2] + 1j * y[1::2])) if w == 2 else x * y
    elif op == 2:
        m = x
    elif op == 3:
        m = x * 0.71875
    else:
        return {0: [(0.0, np.array([0.0] * 4 + [1.0 if j == k else 0.0 for j in range(w)]), None) for _ in range(N // w) for k in range(w)]}
    out = np.zeros_like(m)
    out[dst] = m[src]
    return {2 if op < 3 else 0: rows(out)}


def spec_cs(n, d):
    nv = 2 * n
    if d == 0:
        re, im = np.zeros((n, nv)), np.zeros((n, nv))
        for i in range(n):
            re[i, 2 * i] = 1
            im[i, 2 * i + 1] = 1
        return {1: rows(re), 2: rows(im), 0: rows(np.eye(nv))}
    z = np.zeros((nv, nv))
    for i in range(n):
        z[2 * i, i] = 1
        z[2 * i + 1, n + i] = 1
    return {0: rows(z)}


def define(ck):
    big = ck.thorough()
    vec = [(n, 0, 0) for n in (list(range(0, 10)) + [15, 16, 17, 33] + ([64, 65] if big else []))] + [(n, 0, 3) for n in (1, 4, 7)]
    mats = [(r, c, l) for l in (1, 2, 4) for r, c in ((0, 2), (1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3), (4, 5))]
    for T in ('f', 'd', 'cf', 'cd', 'nf', 'nd'):
        ty = 'f32' if T[-1] == 'f' else 'f64'
        w = len(T)
        for op in range(5):
            for sh in vec + mats:
                if op >= 3 and sh[2] == 4:
                    continue
                for alias in ((0, 1, 2) if op < 2 and sh[2] != 4 else (0,)):
                    N = size(sh) * w
                    if N > 70 and not big:
                        continue
                    ny = N if op < 3 else 1 if op == 3 else w
                    ck.poly('%s %s shape %s alias %d' % (OPS[op], T, sh, alias), 'elem', 'v3', 'h_el_' + T, list(sh) + [op, alias],
                            [Buf('x', ty, N), Buf('y', ty, ny), Buf('o', ty, N, 'undef')], 'c16:spec', (sh, op, alias, w, ny), tol=32 * EPS[ty],
                            weight=N * N, validate=(sh in ((5, 0, 0), (2, 3, 4))))
    for T in ('cf', 'cd', 'nf', 'nd'):
        ty = 'f32' if T[-1] == 'f' else 'f64'
        for n in (0, 1, 2, 3, 7, 8, 9, 16):
            for d in (0, 1):
                ck.poly('copy %s %s n=%d' % (['interleaved to split', 'split to interleaved'][d], T, n), 'elem', 'v3', 'h_cs_' + T, [n, d],
                        [Buf('z', ty, 2 * n, 'undef' if d else 'var'), Buf('re', ty, n, 'var' if d else 'undef'), Buf('im', ty, n, 'var' if d else 'undef')],
                        'c16:spec_cs', (n, d), tol=EPS[ty], validate=(n == 3))
    import c08
    far = [(1000, 0, 0), (257, 0, 0), (100, 0, 0), (37, 41, 1), (37, 41, 2), (41, 37, 4)]
    for T in ('f', 'd', 'cf', 'cd', 'nf', 'nd'):
        ty = 'f32' if T[-1] == 'f' else 'f64'
        w = len(T)
        for op in range(5):
            for sh in far:
                if op >= 3 and sh[2] == 4:
                    continue
                N = size(sh) * w
                y = [Buf('y', ty, N, Span(N, 4, 2)), Buf('y', ty, N, c08.taps(N, 5)), Buf('y', ty, N, [0.0] * N), Buf('y', ty, 1, [0.71875]), Buf('y', ty, w)][op]
                ck.poly('%s %s shape %s, subspace' % (OPS[op], T, sh), 'elem', 'v3', 'h_el_' + T, list(sh) + [op, 0],
                        [Buf('x', ty, N, Span(N, 4)), y, Buf('o', ty, N, 'undef')], 'c16:spec_big', (sh, op, w), tol=32 * EPS[ty], weight=4 * N)
    wide = [(70001, 0, 0), (3, 1100, 1), (1100, 3, 1), (3, 1100, 2), (1100, 3, 2), (1100, 3, 4), (3, 1100, 4)] + ([(2, 70001, 1), (70001, 2, 1)] if big else [])
    for sh in wide:
        for k, T in enumerate(('f', 'd', 'cf', 'cd', 'nf', 'nd')):
            if T not in ('d', 'cf'):
                continue
            ty = 'f32' if T[-1] == 'f' else 'f64'
            w = len(T)
            for op in range(5):
                if op >= 3 and sh[2] == 4:
                    continue
                N = size(sh) * w
                y = [Buf('y', ty, N, Span(N, 4, 2)), Buf('y', ty, N, c08.taps(N, 5)), Buf('y', ty, N, [0.0] * N), Buf('y', ty, 1, [0.71875]), Buf('y', ty, w)][op]
                ck.poly('%s %s shape %s, subspace' % (OPS[op], T, sh), 'elem', 'v3', 'h_el_' + T, list(sh) + [op, 0],
                        [Buf('x', ty, N, Span(N, 4)), y, Buf('o', ty, N, 'undef')], 'c16:spec_big', (sh, op, w), tol=32 * EPS[ty], weight=4 * N)
    far = far + wide
    ck.bounds.append('shapes %s with contents in a subspace (rows, columns, layout)' % far)
    ck.bounds.append('vectors up to %d elements (contiguous, strided), matrices up to 4x5 (row, column major, mixed), aliased and not; real, '
                     'std::complex and library complex; elements symbolic in [-1,1]' % (65 if big else 33))
    ck.assumptions += ['rounding modelled by a propagated error bound', 'std::mdspan replaced by the shim in /verif/shim']
