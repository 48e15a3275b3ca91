"""C12: the compressed-sparse-row matrix stores what was put into it; row multiply-add uses all of it."""
import z3
from core import Buf

bv = z3.BitVecVal


def obligations(M, ins, outs, R, C):
    obs = []
    x, z = ins[4], ins[5]
    for r in range(R):
        for c in range(C):
            i = r * C + c
            obs.append(('element (%d,%d)' % (r, c), outs[3][i] == M[r][c]))
            want = x[c] * M[r][c] + z[c]
            obs.append(('multiply_add row %d column %d out of place' % (r, c), outs[6][i] == want))
            obs.append(('multiply_add row %d column %d in place' % (r, c), outs[7][i] == want))
            obs.append(('element (%d,%d) read from the row/column/value containers' % (r, c), outs[9][i] == M[r][c]))
    for k, v in [(0, R), (1, C), (2, R * C), (3, R), (4, C), (8, R), (9, C)]:
        obs.append(('extents', outs[8][k] == v))
    obs.append(('row offsets, column order and container sizes consistent', outs[8][7] == 0))
    return obs


def stored(v, n):
    return z3.BV2Int(v) == n if isinstance(v, z3.ExprRef) else n == int(v)


def pre_insert(ins, R, C, K):
    return [z3.ULT(v, R) for v in ins[0]] + [z3.ULT(v, C) for v in ins[1]]


def spec_insert(ins, outs, R, C, K):
    M = []
    for r in range(R):
        row = []
        for c in range(C):
            v = bv(0, 32)
            for k in range(K):
                v = z3.If(z3.And(ins[0][k] == r, ins[1][k] == c), ins[2][k], v)
            row.append(v)
        M.append(row)
    obs = obligations(M, ins, outs, R, C)
    # one stored entry per distinct inserted position
    n = z3.Sum([z3.IntVal(0)] + [z3.If(z3.Or([z3.And(ins[0][k] == r, ins[1][k] == c) for k in range(K)]), 1, 0) for r in range(R) for c in range(C)])
    obs.append(('number of stored values', stored(outs[8][6], n)))
    return obs


def positions(R, C, K):
    import random
    rng = random.Random(R * 1000 + C * 10 + K)
    return [rng.randrange(R) for _ in range(K)], [rng.randrange(C) for _ in range(K)]


def spec_fixed(ins, outs, R, C, K):
    rs, cs = positions(R, C, K)
    M = [[bv(0, 32)] * C for _ in range(R)]
    for k in range(K):
        M[rs[k]][cs[k]] = ins[2][k]
    return obligations(M, ins, outs, R, C) + [('number of stored values', stored(outs[8][6], len(set(zip(rs, cs)))))]


def spec_dense(ins, outs, R, C):
    M = [[z3.If(z3.UGT(ins[1][r * C + c], 5), ins[0][r * C + c], bv(0, 32)) for c in range(C)] for r in range(R)]
    obs = obligations(M, ins, outs, R, C)
    obs.append(('predicate called with the element', outs[8][5] == 0))
    n = z3.Sum([z3.If(z3.UGT(k, 5), 1, 0) for k in ins[1]])
    obs.append(('number of stored values', stored(outs[8][6], n)))
    return obs


def keeps(R, C):
    import random
    rng = random.Random(R * 1000 + C)
    return [9 if rng.random() < 0.8 else 1 for _ in range(R * C)]


def spec_dfix(ins, outs, R, C):
    k = keeps(R, C)
    M = [[ins[0][r * C + c] if k[r * C + c] == 9 else bv(0, 32) for c in range(C)] for r in range(R)]
    return obligations(M, ins, outs, R, C) + [('predicate called with the element', outs[8][5] == 0), ('number of stored values', stored(outs[8][6], k.count(9)))]


def bufs(R, C, K):
    u = 'undef'
    return [Buf('rows', 'i32', K), Buf('cols', 'i32', K), Buf('vals', 'i32', K), Buf('out', 'i32', R * C, u), Buf('x', 'i32', C),
            Buf('z', 'i32', C), Buf('o1', 'i32', R * C, u), Buf('o2', 'i32', R * C, u), Buf('info', 'i64', 10, u), Buf('out2', 'i32', R * C, u)]


def define(ck):
    big = ck.thorough()
    shapes = [(1, 1, 2), (1, 3, 3), (2, 2, 3), (2, 3, 2), (3, 2, 3), (3, 1, 3)] + ([(2, 3, 3), (3, 3, 3), (1, 4, 4), (2, 2, 4)] if big else [(2, 3, 3)])
    for R, C, K in shapes:
        for h in ('h_csr_insert', 'h_csr_insert32'):
            ck.z3('%s %dx%d, %d insertions at any position' % (h[2:], R, C, K), 'csr', 'v3', h, [R, C, K], bufs(R, C, K), 'c12:spec_insert',
                  (R, C, K), weight=(R * C)**K, pre='c12:pre_insert', forking=True, max_paths=100000, validate=False)
    for R, C in [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (2, 4)] if big else []):
        b = bufs(R, C, R * C)
        b[2] = Buf('unused', 'i32', 1)
        ck.z3('csr from dense %dx%d' % (R, C), 'csr', 'v3', 'h_csr_dense', [R, C], b, 'c12:spec_dense', (R, C), weight=4**(R * C),
              forking=True, max_paths=100000, validate=True)
    seqs = [(5, 7, 40), (8, 3, 60), (1, 40, 70), (30, 4, 50), (12, 20, 150), (3, 300, 320), (300, 2, 400)] + ([(40, 40, 600)] if big else [])
    for R, C, K in seqs:
        rs, cs = positions(R, C, K)
        for h in ('h_csr_insert', 'h_csr_insert32'):
            b = bufs(R, C, K)
            b[0], b[1] = Buf('rows', 'i32', K, rs), Buf('cols', 'i32', K, cs)
            ck.z3('%s %dx%d, %d insertions in a fixed order' % (h[2:], R, C, K), 'csr', 'v3', h, [R, C, K], b, 'c12:spec_fixed', (R, C, K), weight=R * C * K, validate=False)
    for R, C in ((3, 300), (300, 3), (20, 20)) + (((2, 70000),) if big else ()):
        b = bufs(R, C, R * C)
        b[1] = Buf('keep', 'i32', R * C, keeps(R, C))
        b[2] = Buf('unused', 'i32', 1)
        ck.z3('csr from dense %dx%d, fixed choice' % (R, C), 'csr', 'v3', 'h_csr_dense', [R, C], b, 'c12:spec_dfix', (R, C), weight=R * C * 100, validate=False)
    ck.bounds.append('dense construction with a fixed pseudo-random choice of stored elements and symbolic values: 3x300, 300x3, 20x20')
    ck.bounds.append('insertion sequences at fixed pseudo-random positions with symbolic values: (rows, columns, insertions) = %s' % seqs)
    ck.bounds.append('shapes %s with that many insertions at symbolic positions; dense construction up to %s with every subset kept; all '
                     'values symbolic 32-bit' % (shapes, '3x3' if big else '2x3'))
