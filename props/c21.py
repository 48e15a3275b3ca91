"""C21: conversion between floating point and fixed point."""
import z3
import fxp
import rt
from core import Buf
from c20 import FRACS

D = z3.Float64()


def spec(ins, outs, w, f):
    obs = []
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    for k, (name, v) in enumerate((('float', ins[0][0]), ('double', ins[1][0]))):
        if isinstance(v, float):
            v = z3.FPVal(v, rt.SORT[32 if k == 0 else 64])
        x = z3.fpMul(z3.RNE(), z3.fpFPToFP(z3.RNE(), v, D) if k == 0 else v, z3.FPVal(2.0**f, D))
        r = fxp.bvof(outs[3][k], w)
        rd = z3.fpSignedToFP(z3.RNE(), r, D)
        one = z3.FPVal(1.0, D)
        near = z3.And(z3.fpLT(x, z3.fpAdd(z3.RNE(), rd, one)), z3.fpGT(x, z3.fpSub(z3.RNE(), rd, one)))
        ok = z3.If(z3.fpGEQ(x, z3.FPVal(float(hi), D)), r == hi, z3.If(z3.fpLEQ(x, z3.FPVal(float(lo), D)), r == lo, near))
        obs.append(('from %s: within one step, clamped' % name, z3.Or(z3.fpIsNaN(v), ok)))
    q = fxp.bvof(ins[2][0], w)
    for k, (b, sort) in enumerate(((4, rt.SORT[32]), (5, rt.SORT[64]))):
        want = z3.fpMul(z3.RNE(), z3.fpSignedToFP(z3.RNE(), q, sort), z3.FPVal(2.0**-f, sort))
        for j in range(2):
            g = outs[b][j]
            if isinstance(g, float):
                g = z3.FPVal(g, sort)
            obs.append(('to %s' % ('float', 'double')[k], z3.fpEQ(g, want)))
    return obs


def pre(ins, w, f):
    # not-a-number has no fixed-point value
    return [z3.Not(z3.fpIsNaN(ins[0][0])), z3.Not(z3.fpIsNaN(ins[1][0]))]


def define(ck):
    for w in (8, 16):
        for f in FRACS[w]:
            ck.z3('int%d, %d fractional bits' % (w, f), 'fixed', 'v3', 'h_conv_%d_%d' % (w, f), [],
                  [Buf('f', 'f32', 1), Buf('d', 'f64', 1), Buf('q', 'i%d' % w, 1), Buf('r', 'i%d' % w, 2, 'undef'), Buf('tf', 'f32', 2, 'undef'),
                   Buf('td', 'f64', 2, 'undef')], 'c21:spec', (w, f), pre='c21:pre', validate=True, timeout=200000)
    ck.bounds.append('every float and double except NaN; every stored value; 8 bits with 0..7 and 16 bits with %s fractional bits' % FRACS[16])
