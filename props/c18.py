"""C18: peak, energy and impulse normalisation."""
import z3
from core import Buf
from dsp import *
from c17 import sel, some

KIND = ['peak', 'energy', 'impulse']


def total(v):
    return sum(v[1:], v[0])


def channels(x, sh):
    r, c, l = sh
    if l in (0, 3):
        return [[x[i] for i in sel(tuple(sh))[0]]]
    return [[x[i * c + j] if l == 1 else x[j * r + i] for j in range(c)] for i in range(r)]


def spec(C, ins, outs, sh, what):
    pos, N = sel(tuple(sh))
    obs = []
    for i in range(N):
        if i not in pos:
            obs.append(('elements between the strides untouched', outs[0][i], ins[0][i]))
    if not pos:
        return obs + ([('empty input has factor one', outs[1][0], 1.0)] if what < 2 else [])
    x = [ins[0][i] for i in pos]
    y = [outs[0][i] for i in pos]
    zero = C.all(*[v == 0 for v in x])
    if what == 0:
        m = C.abs(x[0])
        for v in x[1:]:
            m = C.max(m, C.abs(v))
    elif what == 1 or sh[2] in (0, 3):
        m = C.sqrt(total([v * v for v in x]))
    else:
        m = None
        for ch in channels(ins[0], sh):
            e = C.sqrt(total([v * v for v in ch]))
            m = e if m is None else C.max(m, e)
    for i, (a, b) in enumerate(zip(x, y)):
        # y = x / m, written without the division
        obs.append(('element %d times the reference level is the input' % i, C.ite(zero, b, b * m), a))
    if what < 2:
        obs.append(('factor is the reciprocal of the reference level', C.ite(zero, outs[1][0], outs[1][0] * m), 1.0))
    return obs


def few(n, at, cols=0):
    """mostly silence, given values here and there (cols: in every row of that many columns), symbolic elements at some positions"""
    v = [0.0] * n
    for k, i in enumerate(sorted({0, 1, n // 4, n // 2, n // 2 + 1, 3 * n // 4, n - 2} | set(range(0, n, cols) if cols else ()))):
        v[i] = ((k * 5 + 3) % 13 - 6.5) / 4
    for i in at:
        v[i] = None
    return v


def silent(v):
    return v == 0.0 if isinstance(v, (int, float)) else z3.is_rational_value(v) and v.numerator_as_long() == 0


def spec_few(C, ins, outs, sh, what, at):
    pos, N = sel(tuple(sh))
    keep = [i for i in pos if not silent(ins[0][i])]
    obs = []
    for i in range(N):
        if silent(ins[0][i]) and not silent(outs[0][i]):
            obs.append(('silence at %d stays' % i, outs[0][i], 0.0))
    x = [ins[0][i] for i in keep]
    if what == 0:
        m = C.abs(x[0])
        for v in x[1:]:
            m = C.max(m, C.abs(v))
    elif what == 1 or sh[2] in (0, 3):
        m = C.sqrt(total([v * v for v in x]))
    else:
        m = None
        for ch in channels(ins[0], sh):
            ch = [v for v in ch if not silent(v)]
            if ch:
                e = C.sqrt(total([v * v for v in ch]))
                m = e if m is None else C.max(m, e)
    for i in keep if len(keep) < 40 else keep[:3] + keep[-3:] + [sel(tuple(sh))[0][k] for k in at]:
        obs.append(('element %d times the reference level is the input' % i, outs[0][i] * m, ins[0][i]))
    if what < 2:
        obs.append(('factor is the reciprocal of the reference level', outs[1][0] * m, 1.0))
    return obs


def define(ck):
    big = ck.thorough()
    vec = [(n, 0, 0) for n in range(0, 5 if not big else 7)] + [(2, 0, 3), (3, 0, 3)]
    mats = [(r, c, l) for l in (1, 2) for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)) + (((2, 3), (3, 2)) if big else ())]
    for F, ty in (('f', 'f32'), ('d', 'f64')):
        for what in (0, 1, 2):
            for sh in vec + mats + [(0, 2, 1)]:
                pos, N = sel(sh)
                ck.real('normalize_%s %s %s' % (KIND[what], ty, {0: 'vector', 1: 'row-major', 2: 'column-major', 3: 'strided'}[sh[2]] + ' %dx%d' % sh[:2]),
                        'stats', 'v3', 'h_norm_' + F, list(sh) + [what], [Buf('x', ty, N), Buf('f', ty, 1, 'undef')], 'c18:spec', (sh, what),
                        weight=len(pos)**3, validate=(len(pos) == 2))
        for what in (0, 1, 2):
            for sh, at in (((40, 0, 0), (39,)), ((33, 0, 0), (0,)), ((17, 0, 0), (8, 15)), ((9, 0, 3), (0, 8)), ((5, 7, 1), (34,)), ((4, 6, 2), (0, 23)), ((2, 17, 1), (16,)), ((7, 3, 1), (20,))):
                pos, N = sel(sh)
                ck.real('normalize_%s %s %s, elements %s symbolic' % (KIND[what], ty, sh, at), 'stats', 'v3', 'h_norm_' + F, list(sh) + [what],
                        [Buf('x', ty, N, some(N, [pos[i] for i in at])), Buf('f', ty, 1, 'undef')], 'c18:spec', (sh, what), weight=50)
        for what in (0, 1, 2):
            for sh, at in (((1100, 0, 0), (1099,)), ((5000, 0, 0), (4999,)), ((70000, 0, 0), (69999,)), ((10, 3, 1), (29,)), ((300, 2, 1), (599,)), ((2, 1100, 1), (2199,)), ((2, 1100, 2), (2199,)),
                           ((1100, 2, 2), (2198,)), ((2, 5000, 1), (9999,)), ((5000, 2, 1), (9999,)), ((2, 70000, 1), (139999,)), ((600, 0, 3), (599,))):
                pos, N = sel(sh)
                if len(pos) > 19999 and (ty == 'f32' and what > 0 or sh[1] and what < 2):
                    continue
                if what == 2 and sh[0] > 2000 and sh[2] == 1:
                    continue
                ck.real('normalize_%s %s %s, element %s symbolic, some others given' % (KIND[what], ty, sh, at), 'stats', 'v3', 'h_norm_' + F, list(sh) + [what],
                        [Buf('x', ty, N, few(N, [pos[i] for i in at], sh[1] if sh[2] == 1 and sh[0] < 301 else 0)), Buf('f', ty, 1, 'undef')], 'c18:spec_few', (sh, what, tuple(at)), weight=500, optional=len(pos) > 1000, timeout=10000)
    ck.bounds.append('up to 40 elements, matrices to 5x7, with one or two of the elements symbolic; up to 70000 elements, 300 channels, mostly silent with some given and one symbolic')
    ck.bounds.append('vectors of 0..%d elements, matrices up to %s, both layouts, strided vectors; elements symbolic in [-8,8]' % (
        (6, '2x3') if big else (4, '2x2')))
    ck.assumptions += ['decided in real arithmetic: rounding, overflow and denormal peaks are not modelled']
