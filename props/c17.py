"""C17: mean, variance, standard deviation, (root) mean squared error."""
from core import Buf, Span
from dsp import *

SHAPES = [(n, 0, 0) for n in range(0, 9)] + [(n, 0, 3) for n in (1, 2, 5)] + [
    (r, c, l) for l in (1, 2) for r, c in ((1, 1), (1, 3), (2, 1), (2, 3), (3, 2), (3, 3))] + [(0, 3, 1), (2, 0, 1)]


def total(sh):
    r, c, l = sh
    return r if l in (0, 3) else r * c


def sel(sh):
    """positions of the elements inside the buffer"""
    n = total(sh)
    return [2 * i if sh[2] == 3 else i for i in range(n)], n * (2 if sh[2] == 3 else 1)


def spec_stat(sh, what):
    pos, N = sel(tuple(sh))
    n = len(pos)
    if n < (1, 2)[what]:
        return {2: [0]}
    if what == 0:
        l = np.zeros(N)
        l[pos] = 1.0 / n
        return {1: [(0.0, l, None)], 2: [1]}
    q = np.zeros((N, N))
    for a in pos:
        q[a, a] += 1.0 / n
        for b in pos:
            q[a, b] -= 1.0 / (n * n)
    return {1: [(0.0, None, q)], 2: [1]}


def spec_mse(sh):
    pos, N = sel(tuple(sh))
    n = len(pos)
    q = np.zeros((2 * N, 2 * N))
    for a in pos:
        q[a, a] += 1.0 / n
        q[N + a, N + a] += 1.0 / n
        q[a, N + a] -= 2.0 / n
    return {2: [(0.0, None, q)]}


def spec_std(C, ins, outs, sh):
    pos, N = sel(tuple(sh))
    n = len(pos)
    if n < 2:
        return [('no value for fewer than two elements', outs[2][0] == 0)]
    x = [ins[0][i] for i in pos]
    avg = sum(x[1:], x[0]) / n
    var = sum([(v - avg) * (v - avg) for v in x[1:]], (x[0] - avg) * (x[0] - avg)) / n
    s = outs[1][0]
    return [('has value', outs[2][0] == 1), ('standard deviation squared is the variance', s * s, var), ('standard deviation is not negative', s >= 0)]


def spec_rmse(C, ins, outs, sh):
    pos, N = sel(tuple(sh))
    n = len(pos)
    d = [ins[0][i] - ins[1][i] for i in pos]
    mse = sum([v * v for v in d[1:]], d[0] * d[0]) / n
    s = outs[2][0]
    return [('RMSE squared is the MSE', s * s, mse), ('RMSE is not negative', s >= 0)]


def spec_cmse(C, ins, outs, n, root):
    d = []
    for i in range(n):
        a = C.sqrt(ins[0][2 * i] * ins[0][2 * i] + ins[0][2 * i + 1] * ins[0][2 * i + 1])
        b = C.sqrt(ins[1][2 * i] * ins[1][2 * i] + ins[1][2 * i + 1] * ins[1][2 * i + 1])
        d.append((a - b) * (a - b))
    mse = sum(d[1:], d[0]) / n
    s = outs[2][0]
    return [('error between the magnitudes', s * s if root else s, mse), ('not negative', s >= 0)]


def spec_large(sh, k, what):
    pos, N = sel(tuple(sh))
    n = len(pos)
    M = Span(N, k).matrix()[pos]
    if what == 0:
        return {1: [(0.0, M.sum(0) / n, None)], 2: [1]}
    D = M - M.sum(0) / n
    return {1: [(0.0, None, D.T @ D / n)], 2: [1]}


def spec_mse_large(sh, k):
    pos, N = sel(tuple(sh))
    D = np.hstack([Span(N, k).matrix()[pos], -Span(N, k, 2).matrix()[pos]])
    return {2: [(0.0, None, D.T @ D / len(pos))]}


def spec_mse_mixed(n, m, lay):
    q = None
    N = n if lay == 0 else n * m
    pos = [(i, 2 * i) for i in range(n)] if lay == 0 else [(i * m + j, j * n + i) for i in range(n) for j in range(m)]
    M = N * (2 if lay == 0 else 1)
    q = np.zeros((N + M, N + M))
    for a, b in pos:
        q[a, a] += 1.0 / N
        q[N + b, N + b] += 1.0 / N
        q[a, N + b] -= 2.0 / N
    return {2: [(0.0, None, q)]}


def some(n, at, seed=1):
    """given values with symbolic elements at some positions"""
    import random
    rng = random.Random(31 * n + seed)
    v = [rng.randrange(-64, 65) / 64 for _ in range(n)]
    for i in at:
        v[i] = None
    return v


def define(ck):
    big = ck.thorough()
    for F, ty, shs in (('f', 'f32', [(40, 0, 0), (129, 0, 0), (300, 0, 0), (70, 0, 3), (17, 9, 1), (9, 17, 2)]),
                       ('d', 'f64', [(129, 0, 0), (1000, 0, 0), (4099, 0, 0), (520, 0, 3), (33, 65, 1), (65, 33, 2), (1, 300, 1), (300, 1, 1)] + [(70000, 0, 0), (2, 5000, 1), (5000, 2, 1), (2, 5000, 2), (5000, 2, 2), (300, 300, 1), (1, 70000, 1), (70000, 1, 2)])):
        for sh in shs:
            pos, N = sel(sh)
            n = len(pos)
            name = {0: 'vector', 1: 'row-major', 2: 'column-major', 3: 'strided'}[sh[2]] + ' %dx%d' % sh[:2]
            tl = 16 * EPS[ty] * (n + 8)
            for what, nm in ((0, 'mean'), (1, 'variance')):
                ck.poly('%s %s %s, subspace' % (nm, ty, name), 'stats', 'v3', 'h_stats_' + F, list(sh) + [what],
                        [Buf('x', ty, N, Span(N, 4)), Buf('r', ty, 1, 'undef'), Buf('has', 'i64', 1, 'undef')], 'c17:spec_large', (sh, 4, what), tol=tl, weight=n)
            ck.poly('mean squared error %s %s, subspace' % (ty, name), 'stats', 'v3', 'h_mse_' + F, list(sh) + [0],
                    [Buf('x', ty, N, Span(N, 3)), Buf('y', ty, N, Span(N, 3, 2)), Buf('r', ty, 1, 'undef')], 'c17:spec_mse_large', (sh, 3), tol=4 * tl, weight=n)
        for sh, at in (((40, 0, 0), (0, 39)), ((33, 0, 0), (16,)), ((9, 0, 0), (8, 3)), ((5, 7, 1), (34,)), ((7, 5, 2), (6, 20))):
            pos, N = sel(sh)
            ck.real('standard deviation %s %s, elements %s symbolic' % (ty, sh, at), 'stats', 'v3', 'h_stats_' + F, list(sh) + [2],
                    [Buf('x', ty, N, some(N, at)), Buf('r', ty, 1, 'undef'), Buf('has', 'i64', 1, 'undef')], 'c17:spec_std', (sh,))
            ck.real('root mean squared error %s %s, elements %s symbolic' % (ty, sh, at), 'stats', 'v3', 'h_mse_' + F, list(sh) + [1],
                    [Buf('x', ty, N, some(N, at)), Buf('y', ty, N, some(N, at[:1], 2)), Buf('r', ty, 1, 'undef')], 'c17:spec_rmse', (sh,))
        for n, at in ((9, (16, 17)), (20, (38,))):
            for root in (0, 1):
                ck.real('complex %smean squared error %s n=%d, components %s symbolic' % ('root ' if root else '', ty, n, at), 'stats', 'v3', 'h_mse_c' + F, [n, 0, 0, root],
                        [Buf('x', ty, 2 * n, some(2 * n, at)), Buf('y', ty, 2 * n, some(2 * n, ())), Buf('r', ty, 1, 'undef')], 'c17:spec_cmse', (n, root))
    for T, a, b in (('f', 'f32', 'f32'), ('fd', 'f32', 'f64'), ('df', 'f64', 'f32')):
        for n, m, lay in ((1, 0, 0), (4, 0, 0), (2, 3, 1), (3, 2, 1), (3, 3, 1)):
            N = n if lay == 0 else n * m
            ck.poly('mean squared error, %s and %s, %s %dx%d' % (a, b, ['vector and strided vector', 'row-major and column-major'][lay], n, m), 'stats', 'v3', 'h_mse_x' + T, [n, m, lay, 0],
                    [Buf('x', a, N), Buf('y', b, N * (2 if lay == 0 else 1)), Buf('r', 'f32' if T == 'f' else 'f64', 1, 'undef')], 'c17:spec_mse_mixed', (n, m, lay),
                    tol=64 * EPS['f32' if T == 'f' else 'f64'] * (N + 4) * 16, validate=n == 3)
    shapes = SHAPES + ([(n, 0, 0) for n in (16, 33, 64)] if big else [(16, 0, 0)])
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        tol = lambda n: 64 * EPS[ty] * (n + 4)
        for sh in shapes:
            pos, N = sel(sh)
            n = len(pos)
            name = {0: 'vector', 1: 'row-major', 2: 'column-major', 3: 'strided'}[sh[2]] + ' %dx%d' % sh[:2]
            for what, nm in ((0, 'mean'), (1, 'variance')):
                ck.poly('%s %s %s' % (nm, ty, name), 'stats', 'v3', 'h_stats_' + F, list(sh) + [what],
                        [Buf('x', ty, N), Buf('r', ty, 1, 'undef'), Buf('has', 'i64', 1, 'undef')], 'c17:spec_stat', (sh, what), tol=tol(n) * 4,
                        validate=(n == 6))
            if n <= 6:
                ck.real('standard deviation %s %s' % (ty, name), 'stats', 'v3', 'h_stats_' + F, list(sh) + [2],
                        [Buf('x', ty, N), Buf('r', ty, 1, 'undef'), Buf('has', 'i64', 1, 'undef')], 'c17:spec_std', (sh,), validate=(n == 3))
            if n:
                ck.poly('mean squared error %s %s' % (ty, name), 'stats', 'v3', 'h_mse_' + F, list(sh) + [0],
                        [Buf('x', ty, N), Buf('y', ty, N), Buf('r', ty, 1, 'undef')], 'c17:spec_mse', (sh,), tol=16 * tol(n), validate=(n == 6))
                if n <= 6:
                    ck.real('root mean squared error %s %s' % (ty, name), 'stats', 'v3', 'h_mse_' + F, list(sh) + [1],
                            [Buf('x', ty, N), Buf('y', ty, N), Buf('r', ty, 1, 'undef')], 'c17:spec_rmse', (sh,))
        for n in (1, 2):
            for root in (0, 1):
                ck.real('complex %smean squared error %s n=%d' % ('root ' if root else '', ty, n), 'stats', 'v3', 'h_mse_c' + F, [n, 0, 0, root],
                        [Buf('x', ty, 2 * n), Buf('y', ty, 2 * n), Buf('r', ty, 1, 'undef')], 'c17:spec_cmse', (n, root))
    ck.bounds.append('larger: vectors to 4099 and of 70000 elements, matrices to 33x65, 2x5000, 300x300 and 1x70000, contents in a subspace of 4 (3+3) dimensions; where a square root is involved up to 40 elements '
                     'with one or two symbolic; mean squared error of operands that differ in layout or element type, up to 3x3')
    ck.bounds.append('vectors of 0..8 and 16%s elements, matrices up to 3x3 in both layouts, strided vectors; elements symbolic in [-1,1] '
                     '([-8,8] where a square root is involved, up to 6 elements)' % (', 33, 64' if big else ''))
    ck.assumptions += ['square roots decided in real arithmetic (rounding not modelled there)', 'std::mdspan replaced by the shim in /verif/shim']
