"""C19: allclose, allmatch, exact equality."""
import z3
import rt
from core import Buf
from c17 import sel, total


def flag(v):
    return v != 0 if isinstance(v, z3.ExprRef) else z3.BoolVal(v != 0)


def spec_close(ins, outs, sh, user, bits):
    pos, N = sel(tuple(sh))
    S = rt.SORT[bits]
    tol = rt.fpv(ins[2][0], bits) if user else z3.FPVal(1e-5 if bits == 32 else 1e-9, S)
    c = [z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), rt.fpv(ins[0][i], bits), rt.fpv(ins[1][i], bits))), tol) for i in pos]
    return [('allclose is the conjunction over all elements', flag(outs[3][0]) == z3.And(*c) if c else flag(outs[3][0]))]


def spec_cclose(C, ins, outs, n, user, tolv):
    tol = ins[2][0] if user else tolv
    tt = tol * tol
    cs, near = [], []
    for i in range(n):
        dr, di = ins[0][2 * i] - ins[1][2 * i], ins[0][2 * i + 1] - ins[1][2 * i + 1]
        d = dr * dr + di * di
        cs.append(d <= tt)
        near.append(C.all(d * 1000 <= tt * 1001, d * 1000 >= tt * 999))     # decided by rounding
    want = C.all(*cs)
    got = outs[3][0]
    got = got != 0
    return [('allclose on complex numbers', C.any(C.any(*near), got == want))]


def pre_tol(C, ins, n, user, tolv):
    return [ins[2][0] >= 0] if user else []


def spec_match(ins, outs, sh):
    pos, N = sel(tuple(sh))
    a = z3.And(*[ins[0][i] < ins[1][i] for i in pos]) if pos else z3.BoolVal(True)
    b = z3.And(*[ins[0][i] > 7 for i in pos]) if pos else z3.BoolVal(True)
    return [('allmatch binary', flag(outs[3][0]) == a), ('allmatch unary', flag(outs[3][1]) == b)]


def spec_exact(ins, outs, n):
    c = z3.And(*[z3.fpEQ(x, y) for x, y in zip(ins[0], ins[1])])
    return [('exact equality', flag(outs[3][0]) == c)]


def define(ck):
    big = ck.thorough()
    shapes = [(n, 0, 0) for n in range(0, 5 + 4 * big)] + [(3, 0, 3)] + [(r, c, l) for l in (1, 2) for r, c in ((1, 2), (2, 1), (2, 2), (2, 3))] + [(0, 2, 1)]
    for F, ty, bits in (('f', 'f32', 32), ('d', 'f64', 64)):
        for sh in shapes:
            pos, N = sel(sh)
            if bits == 64 and not big and len(pos) > 3:
                continue
            for user in (0, 1):
                if user and not big and len(pos) > 4:
                    continue
                ck.z3('allclose %s %s %s tolerance' % (ty, sh, ['default', 'given'][user]), 'close', 'v3', 'h_close_' + F, list(sh) + [user],
                      [Buf('x', ty, N), Buf('y', ty, N), Buf('tol', ty, 1), Buf('r', 'i32', 1, 'undef')], 'c19:spec_close', (sh, user, bits),
                      weight=len(pos) * bits, validate=(len(pos) == 3))
        for n in (1, 2):
            for user in (0, 1):
                ck.real('allclose complex %s n=%d %s tolerance' % (ty, n, ['default', 'given'][user]), 'close', 'v3', 'h_close_c' + F, [n, 0, 0, user],
                        [Buf('x', ty, 2 * n), Buf('y', ty, 2 * n), Buf('tol', ty, 1), Buf('r', 'i32', 1, 'undef')], 'c19:spec_cclose',
                        (n, user, rt.rnd(1e-5, 32) if bits == 32 else 1e-9), pre='c19:pre_tol')
        for n, T in ((1, F), (2, 'c' + F)):
            ck.z3('exact equality %s' % T, 'close', 'v3', 'h_exact_' + T, [0], [Buf('x', ty, n), Buf('y', ty, n), Buf('u', ty, 1), Buf('r', 'i32', 1, 'undef')],
                  'c19:spec_exact', (n,), validate=True)
        # many elements, close ones except for a symbolic pair
        for sh in ((17, 0, 0), (33, 0, 0), (300, 0, 0), (9, 0, 3), (5, 7, 1), (7, 5, 2), (1, 40, 1), (40, 1, 1), (2, 3000, 1), (3000, 2, 2), (5000, 0, 0), (70000, 0, 0)):
            if total(sh) > 9999 and bits == 64:
                continue
            pos, N = sel(sh)
            for at in sorted({0, len(pos) // 2, len(pos) - 2, len(pos) - 1} if len(pos) < 1000 else {len(pos) - 1, len(pos) // 2 - 1}):
                x, y = [v / 8 for v in range(N)], [v / 8 for v in range(N)]
                if at != 0:
                    y[0] += 2.0 ** -20 if bits == 32 else 2.0 ** -40
                x[pos[at]] = y[pos[at]] = None
                for user in (0, 1):
                    ck.z3('allclose %s %s, pair %d symbolic, %s tolerance' % (ty, sh, at, ['default', 'given'][user]), 'close', 'v3', 'h_close_' + F, list(sh) + [user],
                          [Buf('x', ty, N, x), Buf('y', ty, N, y), Buf('tol', ty, 1, 'var' if user == 0 else [2.0 ** -10]), Buf('r', 'i32', 1, 'undef')], 'c19:spec_close', (sh, user, bits), weight=20)
    for sh in ((17, 0, 0), (64, 0, 0), (70000, 0, 0), (9, 0, 3), (1100, 0, 3), (5, 7, 1), (7, 5, 2), (2, 3000, 1), (3000, 2, 1), (2, 3000, 2), (70, 70, 1), (1, 70000, 1), (70000, 1, 2)):
        pos, N = sel(sh)
        for at in sorted({0, len(pos) // 2, len(pos) - 1}):
            x, y = [20] * N, [21] * N
            x[pos[at]] = y[pos[at]] = None
            ck.z3('allmatch %s, pair %d symbolic' % (sh, at), 'close', 'v3', 'h_match_i', list(sh), [Buf('x', 'i32', N, x), Buf('y', 'i32', N, y), Buf('u', 'i32', 1), Buf('r', 'i32', 2, 'undef')],
                  'c19:spec_match', (sh,), weight=N)
    ck.bounds.append('larger: up to 300 elements, 5000 and 70000, matrices to 40x1 and 5x7, 2x3000 and 1x70000, with one symbolic pair at the ends or in the middle')
    for sh in shapes:
        pos, N = sel(sh)
        ck.z3('allmatch %s' % (sh,), 'close', 'v3', 'h_match_i', list(sh), [Buf('x', 'i32', N), Buf('y', 'i32', N), Buf('u', 'i32', 1), Buf('r', 'i32', 2, 'undef')],
              'c19:spec_match', (sh,), validate=(len(pos) == 3))
    ck.bounds.append('vectors up to %d elements, strided, matrices up to 2x3 in both layouts; every bit pattern (infinities and NaN included); complex: real '
                     'arithmetic, up to 2 elements' % (8 if big else 4))
