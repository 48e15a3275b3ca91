"""C20: fixed-point scalar arithmetic and comparisons."""
import z3
import fxp
from core import Buf

FRACS = {8: list(range(8)), 16: [0, 1, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15]}


def spec(ins, outs, w, f):
    x, y = fxp.bvof(ins[0][0], w), fxp.bvof(ins[1][0], w)
    r, c = [fxp.wide(fxp.bvof(v, w)) for v in outs[2]], outs[3]
    fl = lambda v: v != 0 if isinstance(v, z3.ExprRef) else z3.BoolVal(v != 0)
    return [('x + y', r[0] == fxp.add(x, y, w)), ('x - y', r[1] == fxp.sub(x, y, w)), ('x * y', r[2] == fxp.mul(x, y, w, f)),
            ('-x', r[3] == fxp.clamp(-fxp.wide(x), w)), ('+x', r[4] == fxp.wide(x)), ('stored value', r[5] == fxp.wide(x)),
            ('x == y', fl(c[0]) == (x == y)), ('x != y', fl(c[1]) == (x != y)), ('x < y', fl(c[2]) == (x < y)),
            ('x <= y', fl(c[3]) == (x <= y)), ('x > y', fl(c[4]) == (x > y)), ('x >= y', fl(c[5]) == (x >= y))]


def define(ck):
    for cfg in ('v3', 'base'):
        for w in (8, 16):
            for f in FRACS[w]:
                ck.z3('int%d, %d fractional bits, %s' % (w, f, cfg), 'fixed', cfg, 'h_fx_%d_%d' % (w, f), [],
                      [Buf('x', 'i%d' % w, 1), Buf('y', 'i%d' % w, 1), Buf('r', 'i%d' % w, 6, 'undef'), Buf('c', 'i32', 6, 'undef')],
                      'c20:spec', (w, f), validate=True, timeout=200000)
    ck.bounds.append('every pair of stored values; 8 bits with 0..7 and 16 bits with %s fractional bits' % FRACS[16])
