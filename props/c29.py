"""C29: fast logarithms for every positive normal float."""
from core import Buf
import flog


def define(ck):
    for h, sc in (('h_flog2', 1.0), ('h_flog10', flog.LG2)):
        for cfg in ('v3', 'base'):
            ck.real('%s %s' % (h[2:], cfg), 'scalar', cfg, h, [], [Buf('fbits', 'i32', 1), Buf('o', 'f32', 1, 'undef')], 'flog:spec', (sc,), pre='flog:pre', tol=1e-3, timeout=120000)
    ck.bounds.append('every positive normal float (exponent and mantissa fields as bounded reals); error at most %g (base 2)' % flog.TOL2)
    ck.assumptions.append('rounding of the single-precision operations (at most 1e-4 in total) is not modelled')
