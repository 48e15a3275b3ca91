"""C28: decibel and mel conversions."""
from core import Buf
import flog

FMAX = 1e5


def spec_db(C, ins, outs, n):
    g, fl = ins[0]
    obs = []
    for o, f in ((outs[1][0], fl), (outs[1][1], -144.0)):
        pos = (g > 0) if C.concrete else (g > 0)
        if C.concrete:
            want = max(f, 20 * C.fn('log10', g)) if g > 0 else f
        else:
            want = C.ite(g > 0, C.max(f, 20 * C.fn('log10', g)), f)
        obs.append(('20*log10 of the gain, not below the floor', o, want))
    return obs


def pre_db(C, ins, n):
    return []


def pre_mel(C, ins, n):
    return [ins[0][0] >= 0]


def spec_mel(C, ins, outs, n):
    hz = ins[0][0]
    return [('hertz to mel', outs[1][0], 2595.0 * C.fn('log10', 1 + hz / 700.0))]


def spec_back(C, ins, outs, n):
    return [('the conversions invert each other', outs[1][1], ins[0][0])]


def spec_hz(C, ins, outs, n):
    m = ins[0][0]
    return [('mel to hertz', outs[1][0], 700.0 * (C.fn('exp10', m / 2595.0) - 1))]


def pre_melf(C, ins, n, st):
    return [ins[0][0] >= 0, ins[0][1] >= ins[0][0]]


def spec_melf(C, ins, outs, n, st):
    lo, hi = ins[0]
    mel = lambda x: 2595.0 * C.fn('log10', 1 + x / 700.0)
    obs = []
    for i in range(n):
        if n == 1:
            want = lo
        else:
            a, b = mel(lo), mel(hi)
            want = 700.0 * (C.fn('exp10', (a + (b - a) * i / (n - 1)) / 2595.0) - 1)
        obs.append(('band %d evenly spaced in mel' % i, outs[1][i * st], want))
    for i in range(n * st):
        if i % st:
            obs.append(('gap %d untouched' % i, outs[1][i], ins[1][i]))
    return obs


def spec_log2(C, ins, outs, n):
    return [('binary logarithm', outs[1][0], C.fn('log2', ins[0][0]))]


def pre_pos(C, ins, n):
    return [ins[0][0] > 0]


def define(ck):
    for n, ty in (('f', 'f32'), ('d', 'f64')):
        ck.real('decibel ' + ty, 'scalar', 'v3', 'h_db_' + n, [], [Buf('g', ty, 2), Buf('o', ty, 2, 'undef')], 'c28:spec_db', (n,), pre='c28:pre_db', lo=-1e6, hi=1e6, validate=True)
        ck.real('decibel estimate ' + ty, 'scalar', 'v3', 'h_dbe_' + n, [], [Buf('fbits', 'i32', 1), Buf('o', ty, 2, 'undef'), Buf('floor', ty, 1)], 'flog:spec_db', (n,), pre='flog:pre_db',
                lo=-1000, hi=1000, tol=1e-2, timeout=120000, forking=True)
        ck.real('hertz to mel ' + ty, 'scalar', 'v3', 'h_mel_' + n, [], [Buf('hz', ty, 1), Buf('o', ty, 2, 'undef')], 'c28:spec_mel', (n,), pre='c28:pre_mel', lo=0, hi=FMAX)
        ck.real('mel to hertz ' + ty, 'scalar', 'v3', 'h_hz_' + n, [], [Buf('mel', ty, 1), Buf('o', ty, 2, 'undef')], 'c28:spec_hz', (n,), pre='c28:pre_mel', lo=0, hi=6000)
        for h, hi in (('mel', FMAX), ('hz', 6000)):
            ck.real('%s round trip %s' % (h, ty), 'scalar', 'v3', 'h_%s_%s' % (h, n), [], [Buf('hz', ty, 1), Buf('o', ty, 2, 'undef')], 'c28:spec_back', (n,), pre='c28:pre_mel', lo=0, hi=hi, optional=True)
        for k in range(0, 8 if not ck.thorough() else 20):
            for st in (1, 2) if k < 5 else (1,):
                ck.real('mel bands %s n=%d stride %d' % (ty, k, st), 'scalar', 'v3', 'h_melf_' + n, [k, st], [Buf('f', ty, 2), Buf('o', ty, max(1, k * st))], 'c28:spec_melf', (k, st),
                        pre='c28:pre_melf', lo=-10, hi=FMAX)
        ck.real('log2 ' + ty, 'scalar', 'v3', 'h_log2_' + n, [], [Buf('x', ty, 1), Buf('o', ty, 1, 'undef')], 'c28:spec_log2', (n,), pre='c28:pre_pos', lo=0, hi=1e6)
    ck.bounds.append('all gains with magnitude up to 1e6, floors up to 1e6, frequencies up to 100 kHz, 0..%d mel bands; logarithms and powers of ten by their laws, rounding not modelled' % (7 if not ck.thorough() else 19))
