"""C14: the delay-line schedule multiplies partition k with the block received k steps ago."""
import z3
from core import Buf


def pre(ins, M, T):
    return [ins[0][0] >= 1, ins[0][0] <= M] + [z3.Or(r == 0, r == 1) for r in ins[1]]


def pre_big(ins, lo, hi, T, rs, L=0):
    return [ins[0][0] >= lo, ins[0][0] <= hi, z3.Or([ins[1][0] == r for r in rs])]


def spec_big(ins, outs, lo, hi, T, rs, L=0):
    return [('every step pairs every partition once with the block of its age', outs[2][0] == 0)]


def spec(ins, outs, M, T):
    n = ins[0][0]
    obs = []
    V = lambda v: z3.BitVecVal(v, 64)
    last = V(0)
    for t in range(T):
        last = z3.If(ins[1][t] != 0, V(t), last)   # step of the most recent reset (or the start)
        obs.append(('step %d: one insertion, then one product per partition' % t, outs[3][t] == 100 + n))
        for f in range(M):
            # only the partitions whose block has arrived since the reset are specified; earlier slots hold silence
            want = z3.If(V(t - f) >= last, V(t - f), V(-1))
            obs.append(('step %d partition %d uses the block %d steps ago' % (t, f, f), z3.Implies(z3.And(f < n), outs[2][t * M + f] == want)))
    return obs


def define(ck):
    big = ck.thorough()
    for h in ('sz', 'i32', 'u8'):
        for M, T, R in ([(6, 14, 0), (4, 6, 3)] if not big else [(12, 40, 0), (5, 8, 5)]):
            ck.z3('fdl_index<%s> up to %d segments, %d steps, %s' % (h, M, T, 'any reset in the first %d steps' % R if R else 'no reset'), 'fdl', 'v3',
                  'h_fdl_' + h, [M, T],
                  [Buf('n', 'i64', 1), Buf('reset', 'i64', T) if False else Buf('reset', 'i64', T, 'var' if R else [0] * T), Buf('out', 'i64', M * T, 'undef'),
                   Buf('cnt', 'i64', T, 'undef')], 'c14:spec', (M, T), pre='c14:pre', forking=True, max_paths=100000, weight=M * T * (1 + R * 20))
    jobs = [('u8', 253, 255, 6, [0, 3]), ('u8', 199, 200, 62, [1, 70]), ('u8', 129, 129, 133, [2, 140]), ('u16', 256, 258, 4, [1, 9]),
            ('sz', 62, 65, 70, [0, 64])]
    if big:
        jobs += [('u8', 255, 255, 260, [0, 256]), ('u8', 126, 131, 140, [0, 64]), ('u16', 300, 300, 305, [0, 302]), ('i32', 300, 300, 305, [0, 302])]
    jobs = [j + (0,) for j in jobs]
    # the last field: steps that only insert, before the ones that are looked at
    jobs += [(h, 3, 5, 1100, [1, 2000], 0) for h in ('u8', 'u16', 'i32', 'sz')] + [('sz', 3, 3, 6000, [7000], 0), ('u8', 7, 7, 4200, [4099], 2000)]
    jobs += [('sz', 5, 5, 65550, [70000], 65530), ('i32', 4, 4, 65550, [70000], 65530), ('sz', 3, 3, 33000, [40000], 32700)]
    jobs += [(h, n, n, n + 3, [n + 9], n) for h in ('sz', 'u16') for n in (600, 1100, 2100, 4100, 9000)] + [('i32', n, n, n + 3, [n + 9], n) for n in (600, 1100)] + [('sz', 1100, 1100, 1030, [2000], 1020), ('u16', 33000, 33000, 33002, [40000], 33000),
             ('sz', 66000, 66000, 66002, [70000], 66000)]
    for h, lo, hi, T, rs, L in jobs:
        ck.z3('fdl_index<%s> %d..%d segments, steps %d..%d, reset before step %s' % (h, lo, hi, L, T, ' or '.join(map(str, rs))), 'fdl', 'v3', 'h_fdlbig_' + h, [T, L],
              [Buf('n', 'i64', 1), Buf('reset', 'i64', 1), Buf('wrong', 'i64', 1, 'undef')],
              'c14:spec_big', (lo, hi, T, tuple(rs), L), pre='c14:pre_big', forking=True, max_paths=100, weight=hi * (T - L), optional=lo > 2100)
    ck.bounds.append('3..7 segments for up to 6000 steps and around step 65536; 600..66000 segments, the steps in which the line wraps around; 62..258 segments with 8- and 16-bit indices, up to 133 steps; 1..%d segments (symbolic), %d steps; resets before any of 6 (8 thorough) steps' % ((6, 14) if not big else (12, 40)))
