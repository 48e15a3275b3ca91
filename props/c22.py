"""C22: fixed-point array operations."""
import z3
import fxp
from core import Buf

OPS = ['add', 'subtract', 'multiply']


def spec(ins, outs, w, f, n, alias, op):
    x = ins[0]
    y = ins[0] if alias == 3 else ins[1]
    o = outs[0 if alias == 1 else 1 if alias == 2 else 2]
    obs = []
    top = 1 << (w - 1)
    for i in range(n):
        if op < 2 and isinstance(x[i], int) and isinstance(y[i], int) and isinstance(o[i], int):
            sg = lambda v: (v + top) % (2 * top) - top
            v = sg(x[i]) + sg(y[i]) if op == 0 else sg(x[i]) - sg(y[i])
            if sg(o[i]) == min(max(v, -top), top - 1):
                continue
        a, b, g = fxp.bvof(x[i], w), fxp.bvof(y[i], w), fxp.bvof(o[i], w)
        if op == 0:
            c = fxp.wide(g) == fxp.add(a, b, w)
        elif op == 1:
            c = fxp.wide(g) == fxp.sub(a, b, w)
        else:
            c = fxp.one_of(g, fxp.mul(a, b, w, f), fxp.mul_up(a, b, w, f))
        obs.append(('element %d' % i, c))
    # nothing else is touched
    for k in (0, 1, 2):
        written = k == (0 if alias == 1 else 1 if alias == 2 else 2)
        for i in range(n if written else 0, len(outs[k])):
            if isinstance(outs[k][i], int) and isinstance(ins[k][i], int) and (outs[k][i] - ins[k][i]) % (1 << w) == 0:
                continue
            obs.append(('buffer %d element %d untouched' % (k, i), fxp.bvof(outs[k][i], w) == fxp.bvof(ins[k][i], w)))
    return obs


def pre32(ins, *a):
    return [z3.And(x >= -(1 << 14), x < (1 << 14)) for b in ins[:2] for x in b if not isinstance(x, int)]


def filled(n, w, k):
    """given values, a few symbolic"""
    v = [(i * 37 * k + 11 * k + i // 13) % (1 << (w - 1)) - (1 << (w - 2)) for i in range(n + 1)]
    for i in {0, 1, n // 2, n - 2, n - 1}:
        v[i] = None
    return v


def define(ck):
    # long spans: a few elements symbolic, the others given
    for cfg, w, f, n in (('v3', 8, 7, 600), ('v3', 8, 7, 5000), ('v3', 16, 15, 600), ('v3', 16, 15, 5000), ('base', 16, 15, 1100), ('base', 8, 7, 1100), ('v4', 16, 15, 1100), ('sse4', 8, 7, 1100),
                         ('v3', 8, 5, 1100), ('v3', 16, 12, 1100), ('v3', 32, 15, 1100), ('v3', 32, 15, 5000), ('v3', 16, 15, 66000), ('v3', 8, 7, 66000), ('v3', 32, 15, 66000)):
        for op in range(3):
            for alias in (0, 1) if n < 1000 else (0,):
                if n > 9999 and op != {8: 0, 16: 2, 32: 1}[w]:
                    continue
                ck.z3('%s %s int%d/%d n=%d alias %d, some elements symbolic' % (OPS[op], cfg, w, f, n, alias), 'fixed', cfg, 'h_span_%d_%d' % (w, f), [n, alias, op],
                      [Buf('x', 'i%d' % w, n + 1, filled(n, w, 1) if w < 32 else filled(n, 15, 1)), Buf('y', 'i%d' % w, n + 1, filled(n, w, 3) if w < 32 else filled(n, 15, 3)),
                       Buf('o', 'i%d' % w, n + 1, [7] * (n + 1))],
                      'c22:spec', (w, f, n, alias, op), weight=n, timeout=200000, **({'pre': 'c22:pre32'} if w == 32 else {}))
    ck.bounds.append('lengths 600 to 66000 with five symbolic elements, the others given')
    # storage types without a vector kernel take the plain loop
    for n in (0, 1, 2, 5, 9):
        for op in range(3):
            for alias in (range(4) if n == 5 else (0,)):
                ck.z3('%s int32/15 n=%d alias %d' % (OPS[op], n, alias), 'fixed', 'v3', 'h_span_32_15', [n, alias, op], [Buf(s, 'i32', n + 1) for s in 'xyo'],
                      'c22:spec', (32, 15, n, alias, op), pre='c22:pre32', timeout=200000)
    big = ck.thorough()
    for cfg in ('base', 'sse4', 'v3', 'v4'):
        for w, fs in ((8, (7, 6, 5, 3) if cfg != 'v3' else range(8)), (16, (15, 14, 13, 8) if cfg != 'v3' else (0, 1, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15))):
            v = 128 // w
            for f in fs:
                main = (w, f) in ((8, 7), (16, 15)) and cfg in ('sse4', 'v3', 'base') or big
                ns = [0, 1, 2, v - 1, v, v + 1, 2 * v + 3, 4 * v, 4 * v + 1] if main else [1, v + 1, 2 * v]
                for op in range(3):
                    for n in ns:
                        for alias in (range(4) if n == v + 1 else (0,)):
                            bufs = [Buf(s, 'i%d' % w, n + 1) for s in 'xyo']
                            ck.z3('%s %s int%d/%d n=%d alias %d' % (OPS[op], cfg, w, f, n, alias), 'fixed', cfg, 'h_span_%d_%d' % (w, f), [n, alias, op], bufs,
                                  'c22:spec', (w, f, n, alias, op), weight=n * (1 + 4 * (op == 2)), validate=(n == v + 1), timeout=200000)
        for w, f in ((8, 7), (16, 15)):
            for op in range(3):
                ck.z3('%s %s int%d/%d fixed extent' % (OPS[op], cfg, w, f), 'fixed', cfg, 'h_sspan_%d_%d' % (w, f), [19, 0, op], [Buf(s, 'i%d' % w, 19) for s in 'xyo'],
                      'c22:spec', (w, f, 19, 0, op), timeout=200000)
    ck.bounds.append('every element value; lengths 0..2 and around 1, 2 and 4 vectors; output aliasing either operand; SSE2, SSE4.1, AVX2 and AVX-512 builds; '
                     '32-bit storage (no vector kernel) for operands below 2^14, lengths 0..9')
