"""C15: dense multiply-add, real, complex interleaved and split, every vector extension."""
from core import Buf, Span
from dsp import *


def idx(i, cplx, st, comp=0):
    return (i * st) * (2 if cplx else 1) + comp


def spec_i(n, v, cplx):
    st = 2 if v == 3 else 1
    w = n * st * (2 if cplx else 1)
    nv = 3 * w
    ob = {0: 3, 1: 2, 2: 0, 3: 3}[v]
    out = [None] * w
    for i in range(n):
        a = i * st * (2 if cplx else 1)
        if not cplx:
            q = np.zeros((nv, nv))
            q[a, w + a] = 1
            l = np.zeros(nv)
            l[2 * w + a] = 1
            out[a] = (0.0, l, q)
            continue
        q = np.zeros((nv, nv))
        q[a, w + a] = 1
        q[a + 1, w + a + 1] = -1
        l = np.zeros(nv)
        l[2 * w + a] = 1
        out[a] = (0.0, l, q)
        q = np.zeros((nv, nv))
        q[a, w + a + 1] = 1
        q[a + 1, w + a] = 1
        l = np.zeros(nv)
        l[2 * w + a + 1] = 1
        out[a + 1] = (0.0, l, q)
    r = {ob: out}
    # operands that are not the destination keep their values
    for b in range(3):
        if b != ob:
            m = np.zeros((w, nv))
            m[:, b * w:(b + 1) * w] = np.eye(w)
            r[b] = rows(m)
    return r


def spec_s(n, v):
    st = 2 if v == 3 else 1
    w = n * st
    nv = 6 * w
    o = {0: 6, 1: 4, 2: 0, 3: 6}[v]
    re, im = [None] * w, [None] * w
    for i in range(n):
        a = i * st
        q = np.zeros((nv, nv))
        q[a, 2 * w + a] = 1
        q[w + a, 3 * w + a] = -1
        l = np.zeros(nv)
        l[4 * w + a] = 1
        re[a] = (0.0, l, q)
        q = np.zeros((nv, nv))
        q[a, 3 * w + a] = 1
        q[w + a, 2 * w + a] = 1
        l = np.zeros(nv)
        l[5 * w + a] = 1
        im[a] = (0.0, l, q)
    r = {o: re, o + 1: im}
    for b in range(6):
        if b not in (o, o + 1):
            m = np.zeros((w, nv))
            m[:, b * w:(b + 1) * w] = np.eye(w)
            r[b] = rows(m)
    return r


def spec_big(n, v, cplx):
    import c08
    w = n * (2 if cplx else 1)
    x, z = Span(w, 4).matrix(), Span(w, 4, 2).matrix()
    y = np.array(c08.taps(w, 5))[:, None]
    if cplx:
        p = interleave((x[0::2] + 1j * x[1::2]) * (y[0::2] + 1j * y[1::2]))
    else:
        p = x * y
    full = {0: rows(np.hstack([x, 0 * z])), 2: rows(np.hstack([0 * x, z]))}
    full[{0: 3, 1: 2, 2: 0}[v]] = rows(np.hstack([p, z]))
    return full


def spec_bigs(n, v):
    import c08
    xr, xi, zr, zi = (Span(n, 2, s).matrix() for s in (1, 2, 3, 4))
    yr, yi = (np.array(c08.taps(n, s))[:, None] for s in (5, 6))
    o = np.zeros_like(xr)
    x = np.hstack([xr + 1j * o, 1j * xi, o, o])
    z = np.hstack([o, o, zr + 1j * o, 1j * zi])
    r = x * (yr + 1j * yi) + z
    d = {0: 6, 1: 4, 2: 0}[v]
    return {d: rows(r.real), d + 1: rows(r.imag)}


CFGS = ['v3', 'v3n', 'base', 'sse4', 'sse4x', 'v4', 'v4x']


def define(ck):
    big = ck.thorough()
    ns = list(range(0, 19)) + ([24, 31, 32, 33, 40] if big else [24])
    for cfg in CFGS:
        for T in ('f', 'd', 'cf', 'cd', 'nf', 'nd'):
            ty = 'f32' if T[-1] == 'f' else 'f64'
            c = len(T) == 2
            for n in ns:
                for v in (0, 1, 2, 3):
                    if v and n not in (1, 2, 3, 5, 8, 9, 17) and not big or n * (2 if v == 3 else 1) > 40:
                        continue
                    w = n * (2 if c else 1) * (2 if v == 3 else 1)
                    if w > 80 or (not big and w > 50):
                        continue
                    ck.poly('multiply_add %s %s n=%d variant %d' % (cfg, T, n, v), 'muladd', cfg, 'h_ma_' + T, [n, v],
                            [Buf('x', ty, w), Buf('y', ty, w), Buf('z', ty, w), Buf('o', ty, w, 'undef')], 'c15:spec_i', (n, v, c),
                            tol=64 * EPS[ty], weight=n * n, validate=(n in (5, 17)))
        for T, ty in (('f', 'f32'), ('d', 'f64')):
            for n in ns:
                for v in (0, 1, 2, 3):
                    if v and n not in (1, 2, 3, 5, 8, 9, 17) and not big:
                        continue
                    w = n * (2 if v == 3 else 1)
                    if w > 40:
                        continue
                    ck.poly('split multiply_add %s %s n=%d variant %d' % (cfg, T, n, v), 'muladd', cfg, 'h_mas_' + T, [n, v],
                            [Buf(nm, ty, w) for nm in ('xre', 'xim', 'yre', 'yim', 'zre', 'zim')] + [Buf('ore', ty, w, 'undef'), Buf('oim', ty, w, 'undef')],
                            'c15:spec_s', (n, v), tol=64 * EPS[ty], weight=n * n, validate=(n in (5, 17)))
    import c08
    far = (63, 64, 65, 100, 255, 256, 257, 1000) + ((4096, 5001) if big else ())
    for cfg in CFGS:
        for n in far:
            if cfg not in ('v3', 'base') and n not in (65, 257):
                continue
            for T in ('f', 'd', 'cf', 'cd', 'nf', 'nd'):
                ty = 'f32' if T[-1] == 'f' else 'f64'
                c = len(T) == 2
                w = n * (2 if c else 1)
                v = n % 3
                ck.poly('multiply_add %s %s n=%d variant %d, subspace' % (cfg, T, n, v), 'muladd', cfg, 'h_ma_' + T, [n, v],
                        [Buf('x', ty, w, Span(w, 4)), Buf('y', ty, w, c08.taps(w, 5)), Buf('z', ty, w, Span(w, 4, 2)), Buf('o', ty, w, 'undef')], 'c15:spec_big', (n, v, c),
                        tol=64 * EPS[ty], weight=4 * n)
            for T, ty in (('f', 'f32'), ('d', 'f64')):
                v = (n + 1) % 3
                ck.poly('split multiply_add %s %s n=%d variant %d, subspace' % (cfg, T, n, v), 'muladd', cfg, 'h_mas_' + T, [n, v],
                        [Buf('xre', ty, n, Span(n, 2, 1)), Buf('xim', ty, n, Span(n, 2, 2)), Buf('yre', ty, n, c08.taps(n, 5)), Buf('yim', ty, n, c08.taps(n, 6)),
                         Buf('zre', ty, n, Span(n, 2, 3)), Buf('zim', ty, n, Span(n, 2, 4)), Buf('ore', ty, n, 'undef'), Buf('oim', ty, n, 'undef')],
                        'c15:spec_bigs', (n, v), tol=64 * EPS[ty], weight=4 * n)
    for cfg, T, n, v in (('v3', 'f', 70001, 0), ('v3', 'd', 70002, 1), ('v3', 'cf', 70001, 2), ('v3', 'cd', 70001, 0), ('base', 'nf', 70001, 1), ('base', 'd', 70003, 0)):
        ty = 'f32' if T[-1] == 'f' else 'f64'
        c = len(T) == 2
        w = n * (2 if c else 1)
        ck.poly('multiply_add %s %s n=%d variant %d, subspace' % (cfg, T, n, v), 'muladd', cfg, 'h_ma_' + T, [n, v],
                [Buf('x', ty, w, Span(w, 4)), Buf('y', ty, w, c08.taps(w, 5)), Buf('z', ty, w, Span(w, 4, 2)), Buf('o', ty, w, 'undef')], 'c15:spec_big', (n, v, c),
                tol=64 * EPS[ty], weight=4 * n)
    for cfg, T, n, v in (('v3', 'f', 70001, 0), ('base', 'f', 70001, 1), ('v3', 'd', 70002, 2)):
        ty = 'f32' if T[-1] == 'f' else 'f64'
        ck.poly('split multiply_add %s %s n=%d variant %d, subspace' % (cfg, T, n, v), 'muladd', cfg, 'h_mas_' + T, [n, v],
                [Buf('xre', ty, n, Span(n, 2, 1)), Buf('xim', ty, n, Span(n, 2, 2)), Buf('yre', ty, n, c08.taps(n, 5)), Buf('yim', ty, n, c08.taps(n, 6)),
                 Buf('zre', ty, n, Span(n, 2, 3)), Buf('zim', ty, n, Span(n, 2, 4)), Buf('ore', ty, n, 'undef'), Buf('oim', ty, n, 'undef')],
                'c15:spec_bigs', (n, v), tol=64 * EPS[ty], weight=4 * n)
    far = far + (70001, 70002, 70003)
    ck.bounds.append('lengths %s with one factor fixed and the other operands in a subspace' % (far,))
    ck.bounds.append('lengths %s; out of place, in place on either operand, strided; configurations %s; operands symbolic in [-1,1]' % (ns, CFGS))
    ck.assumptions += ['rounding modelled by a propagated error bound', 'std::mdspan replaced by the shim in /verif/shim']
