"""C23: fixed-point SIMD vectors."""
import z3
import fxp
from core import Buf

OPS = ['add', 'subtract', 'multiply', 'load/store', 'broadcast', 'register round trip']


def spec(ins, outs, w, f, n, op):
    obs = []
    for i in range(n):
        a, b, g = fxp.bvof(ins[0][i], w), fxp.bvof(ins[1][i], w), fxp.bvof(outs[2][i], w)
        c = [lambda: fxp.wide(g) == fxp.add(a, b, w), lambda: fxp.wide(g) == fxp.sub(a, b, w),
             lambda: fxp.one_of(g, fxp.mul(a, b, w, f), fxp.mul_up(a, b, w, f)), lambda: g == a, lambda: g == fxp.bvof(ins[0][0], w), lambda: g == b][op]()
        obs.append(('lane %d' % i, c))
    for k in range(3):
        for i in range(n if k == 2 else 0, len(outs[k])):
            obs.append(('buffer %d element %d untouched' % (k, i), fxp.bvof(outs[k][i], w) == fxp.bvof(ins[k][i], w)))
    return obs


def define(ck):
    for cfg, ty in (('base', [('q7x16', 8, 7), ('q15x8', 16, 15)]), ('sse4', [('q7x16', 8, 7), ('q15x8', 16, 15)]),
                    ('v3', [('q7x16', 8, 7), ('q15x8', 16, 15), ('q7x32', 8, 7), ('q15x16', 16, 15)]),
                    ('v4', [('q7x16', 8, 7), ('q15x8', 16, 15), ('q7x32', 8, 7), ('q15x16', 16, 15), ('q7x64', 8, 7), ('q15x32', 16, 15)])):
        for name, w, f in ty:
            n = int(name.split('x')[1])
            for op in range(6):
                if op == 2 and (cfg == 'base' or name in ('q7x32', 'q7x64')):
                    continue    # no multiplication offered
                ck.z3('%s %s %s' % (name, OPS[op], cfg), 'fixed', cfg, 'h_' + name, [op], [Buf(s, 'i%d' % w, n + 1) for s in 'xyo'], 'c23:spec', (w, f, n, op),
                      weight=n, validate=True, timeout=200000)
    ck.bounds.append('every lane value; all vector types, SSE2, SSE4.1, AVX2 and AVX-512 builds')
