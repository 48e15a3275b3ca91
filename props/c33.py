"""C33: plans and block processors report the sizes they were made for and refuse what they do not support."""
import z3
from core import Buf

RADIX = {'plan': 2, 'dit2_v1': 2, 'dif3': 3, 'dif5': 5, 'dif4': 4, 'dit4': 4, 'sdif2r': 2, 'sdif2i': 2, 'sdif3': 3, 'sdif4': 4, 'sdif5': 5,
         'sdif8': 8, 'sdit4': 4}


def I(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def power(x, radix, hi):
    r = I(0)
    for k in range(hi + 1):
        r = z3.If(x == k, I(radix**k), r)
    return r


def pre_order(ins, radix, lo, hi):
    return [z3.UGE(ins[0][0], lo), z3.ULE(ins[0][0], hi)]


def spec_made(ins, outs, radix, lo, hi):
    x, o = I(ins[0][0]), [I(v) for v in outs[1]]
    p = power(x, radix, hi)
    return [('supported order refused', o[0] == 0), ('size', o[1] == p), ('order', o[2] == x), ('size of a copy', o[3] == p), ('order of a copy', o[4] == x),
            ('size after assignment', o[5] == p), ('order after assignment', o[6] == x)]


def pre_ref(ins, lo, hi):
    return [z3.UGE(ins[0][0], lo), z3.ULE(ins[0][0], I(hi))]


def spec_ref(ins, outs, lo, hi):
    return [('an order above the maximum is refused', I(outs[1][0]) == 1)]


def spec_lim(ins, outs, radix):
    o = [I(v) for v in outs[1]]
    return [('maximum order in range', z3.And(o[0] >= 1, o[0] < 63)), ('maximum size', o[1] == power(o[0], radix, 62 if radix == 2 else 25 if radix < 5 else 20))]


def pre_pair(ins, lo, hi):
    return [z3.And(z3.UGE(v, lo), z3.ULE(v, hi)) for v in ins[0]]


def spec_overlap(ins, outs, lo, hi):
    x, y = I(ins[0][0]), I(ins[0][1])
    n = x + y - 1
    t = I(1)
    for k in range(12):
        t = z3.If(z3.UGT(n, 1 << k), I(2 << k), t)
    o = [I(v) for v in outs[1]]
    obs = []
    for k, w in ((0, ''), (3, ' of a copy')):
        obs += [('block size' + w, o[k] == x), ('filter size' + w, o[k + 1] == y), ('transform size' + w, o[k + 2] == t)]
    return obs


def spec_fftconv(ins, outs, lo, hi):
    x, y = I(ins[0][0]), I(ins[0][1])
    o = [I(v) for v in outs[1]]
    return [('signal size', o[0] == x), ('patch size', o[1] == y), ('output size', o[2] == x + y - 1)]


def pre_one(ins, lo, hi):
    return [z3.UGE(ins[0][0], lo), z3.ULE(ins[0][0], hi)]


def spec_dft(ins, outs, lo, hi):
    return [('size', I(outs[1][0]) == I(ins[0][0])), ('size of a copy', I(outs[1][1]) == I(ins[0][0]))]


def define(ck):
    big = ck.thorough()
    u = 'undef'
    hi = {2: 8 if big else 6, 3: 5 if big else 4, 4: 4 if big else 3, 5: 3, 8: 3 if big else 2}
    kw = dict(forking=True, max_paths=20000, validate=False)
    for T in ('cf', 'cd', 'nf'):
        for name, r in RADIX.items():
            ck.z3('%s %s: every order up to %d' % (name, T, hi[r]), 'sizes', 'v3', 'h_made_%s_%s' % (name, T), [], [Buf('order', 'i64', 1), Buf('out', 'i64', 7, u)],
                  'c33:spec_made', (r, 0, hi[r]), pre='c33:pre_order', weight=r**hi[r], **kw)
            ck.z3('%s %s: limits' % (name, T), 'sizes', 'v3', 'h_lim_%s_%s' % (name, T), [], [Buf('order', 'i64', 1), Buf('out', 'i64', 2, u)],
                  'c33:spec_lim', (r,), weight=1, validate=False)
        ck.z3('rfft %s: every order up to %d' % (T, hi[2]), 'sizes', 'v3', 'h_made_rfft_' + T, [], [Buf('order', 'i64', 1), Buf('out', 'i64', 7, u)],
              'c33:spec_made', (2, 0, hi[2]), pre='c33:pre_order', weight=100, **kw)
        for name in ('plan', 'dit2_v1', 'rfft'):
            ck.z3('%s %s: every order above the maximum' % (name, T), 'sizes', 'v3', 'h_ref_%s_%s' % (name, T), [], [Buf('order', 'i64', 1), Buf('out', 'i64', 1, u)],
                  'c33:spec_ref', (28, (1 << 64) - 1 if big or (T, name) == ('cf', 'plan') else 99), pre='c33:pre_ref', weight=100, alloc_ends=True, **kw)
        if T == 'nf':
            continue
        m = 24 if big else 12
        ck.z3('dft plan %s: every length up to %d' % (T, m), 'sizes', 'v3', 'h_dftsize_' + T, [], [Buf('size', 'i64', 1), Buf('out', 'i64', 2, u)], 'c33:spec_dft', (1, m),
              pre='c33:pre_one', weight=100, **kw)
        m = 9 if big else 6
        for h in ('oladd', 'olsave'):
            ck.z3('%s %s: block and filter sizes up to %d' % (h, T, m), 'sizes', 'v3', 'h_%s_%s' % (h, T), [], [Buf('sizes', 'i64', 2), Buf('out', 'i64', 6, u)],
                  'c33:spec_overlap', (1, m), pre='c33:pre_pair', weight=1000, **kw)
    for T in 'fd':
        for name in ('split', 'dct2', 'xrfft', 'xdit2'):
            lo = 1 if name == 'xrfft' else 0
            ck.z3('%s %s: every order up to %d' % (name, T, hi[2]), 'sizes', 'v3', 'h_made_%s_%s' % (name, T), [], [Buf('order', 'i64', 1), Buf('out', 'i64', 7, u)],
                  'c33:spec_made', (2, lo, hi[2]), pre='c33:pre_order', weight=100, **kw)
        ck.z3('fft convolver %s: signal and patch sizes up to 6' % T, 'sizes', 'v3', 'h_fftconv_' + T, [], [Buf('sizes', 'i64', 2), Buf('out', 'i64', 3, u)],
              'c33:spec_fftconv', (2, 6), pre='c33:pre_pair', weight=1000, **kw)
    ck.bounds.append('orders symbolic up to 6 (radix 2), 4 (radix 3), 3 (radix 4 and 5), 2 (radix 8); refused orders: every 64-bit order above the advertised maximum of 27 (default plan), up to 99 (other plans)')
