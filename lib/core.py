"""Check framework: jobs, solver obligations, native replay, evidence."""
import hashlib
import json
import math
import multiprocessing as mp
import os
import re
import struct
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

import build
import engine
import ir
import rt
import realdom
import intsolve
from rt import UNDEF, Unsupported, Poly

VERIF = build.VERIF
KIND = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f16': 34, 'f32': 36, 'f64': 40}
NB = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f16': 2, 'f32': 4, 'f64': 8}
FMT = {'i8': '<b', 'i16': '<h', 'i32': '<i', 'i64': '<q', 'f16': '<e', 'f32': '<f', 'f64': '<d'}
MODULES = {}


class Buf:
    """A caller-supplied buffer: ty element type, n elements, init in
    'var' (arbitrary), 'undef', or a list of concrete values."""

    def __init__(self, name, ty, n, init='var', align=None):
        self.name = name
        self.ty = ty
        self.n = n
        self.init = init
        self.align = align if align is not None else NB[ty]


class Span:
    """contents in a subspace: element i is coef[i] * (variable number var[i]), variables in [-1,1]"""

    def __init__(self, n, k, seed=1, zero=None):
        import random
        rng = random.Random(7 * n + k + 1000003 * seed)
        self.k = k
        # odd multiples of 1/256: exact in every float type, never small
        self.coef = [(2 * rng.randrange(40, 128) + 1) / 256 * rng.choice((-1, 1)) for _ in range(n)]
        for i in zero or ():
            self.coef[i] = 0.0
        self.var = [rng.randrange(k) for _ in range(n)]

    def matrix(self):
        m = np.zeros((len(self.coef), self.k))
        m[np.arange(len(self.coef)), self.var] = self.coef
        return m

    def values(self, x):
        return [c * float(x[v]) for c, v in zip(self.coef, self.var)]


def mixed(b):
    """given contents with some symbolic elements (None)"""
    return isinstance(b.init, (list, tuple)) and None in b.init


def fixed_at(b, i):
    return None if b.init == 'var' else b.init[i]


def nvars(b):
    return b.n if b.init == 'var' else b.init.k if isinstance(b.init, Span) else 0


class Violation(Exception):
    def __init__(self, info):
        self.info = info


class JobResult:
    def __init__(self, label):
        self.label = label
        self.stats = engine.Stats()
        self.obligations = 0
        self.trivial = 0
        self.violations = []     # candidate dicts, to be replayed
        self.problem = None
        self.fallback = []       # concrete cases to try on the real code when the solver could not decide
        self.validate = None     # concrete case for translator validation
        self.wall = 0.0
        self.bounds = {}
        self.optional = False
        self.truncated = False    # the code branches on the data, and not every path was explored
        self.head = 0.0           # largest rounding-error bound relative to the tolerance


def enc(ty, v):
    """Python value -> bytes"""
    n = NB[ty]
    if ty[0] == 'f':
        return rt.fbits(float(v), 8 * n).to_bytes(n, 'little')
    return (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')


def dec(ty, b):
    return struct.unpack(FMT[ty], b)[0]


def encbuf(ty, vals):
    return b''.join(enc(ty, v) for v in vals)


def decbuf(ty, b):
    n = NB[ty]
    return [dec(ty, b[i:i + n]) for i in range(0, len(b), n)]


# ------------------------------------------------------------------- native runs
class Native:
    """native builds of a harness TU, made on demand"""

    def __init__(self):
        self.exe = {}

    @staticmethod
    def runnable(cfg):
        if not cfg.startswith('v4'):
            return True
        with open('/proc/cpuinfo') as f:
            return all(x in f.read() for x in ('avx512f',))

    def get(self, tu, cfg, san=False):
        k = (tu, cfg, san)
        if k not in self.exe:
            out = os.path.join(build.work(), 'nat_%s_%s_%d' % (tu, cfg, san))
            build.run_all([build.cmd_native(tu, cfg, out, san)])
            self.exe[k] = out
        return self.exe[k]

    def run(self, tu, cfg, cases, san=False, timeout=120):
        """cases: list of (harness, params, [(bytes, align)]) -> list of list of bytes, or None + message on crash"""
        exe = self.get(tu, cfg, san)
        path = os.path.join(build.work(), 'case_%d_%d.txt' % (os.getpid(), int(time.time() * 1e6) % 10**9))
        with open(path, 'w') as f:
            for h, params, bufs in cases:
                f.write('case %s\n' % h)
                for p in params:
                    f.write('p %d\n' % p)
                for b, al in bufs:
                    f.write('b %d %d %s\n' % (len(b), al, b.hex()))
                f.write('run\n')
        env = dict(os.environ, UBSAN_OPTIONS='print_stacktrace=0', ASAN_OPTIONS='detect_leaks=0')
        try:
            r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            os.unlink(path)
            return [], 'timeout'
        os.unlink(path)
        out = []
        for line in r.stdout.decode().split('\n'):
            if line.startswith('done'):
                out.append([])
            elif line.startswith('b '):
                x = line[2:].strip()
                out[-1].append(b'' if x == '-' else bytes.fromhex(x))
        err = None
        if r.returncode:
            err = 'exit status %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[:600])
        return out, err


# ------------------------------------------------------------------- solving
_qcache = {}
_renum = re.compile(r'\b(b\d+_\d+|v\d+_\d+)\b')


def has_fp(e):
    return 'fp.' in e or 'to_fp' in e


def decide(neg, stats, timeout=60000, cache=True):
    """check satisfiability of the negated obligation. returns ('unsat'|'sat'|'unknown', model)"""
    orig = neg
    neg = z3.simplify(neg)
    if z3.is_false(neg):
        stats.unsat += 1
        return 'trivial', None
    key = None
    txt = neg.sexpr()
    if cache:
        ren = {}

        def sub(m):
            return ren.setdefault(m.group(1), '@%d' % len(ren))
        key = hashlib.sha1(_renum.sub(sub, txt).encode()).hexdigest()
        if key in _qcache:
            stats.cached += 1
            return 'unsat', None
    s = z3.SolverFor('QF_FPBV') if has_fp(txt) else z3.Solver()
    s.add(neg)
    t = time.time()
    if not has_fp(txt) and intsolve.wants([orig]):
        s.set('timeout', 2000)
        r = s.check()
        if r == z3.unknown:
            d = intsolve.both([orig], stats)
            if d is not None:
                if d[0] == 'unsat' and key:
                    _qcache[key] = True
                return d
    else:
        r = z3.unknown
    if r == z3.unknown:
        s.set('timeout', min(int(timeout), 3000))
        r = s.check()
        if r == z3.unknown and timeout > 3000:
            m = intsolve.guess(neg, stats)
            if m is not None:
                return 'sat', m
            s.set('timeout', int(timeout))
            r = s.check()
    dt = time.time() - t
    stats.solver_time += dt
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
        if key:
            _qcache[key] = True
        return 'unsat', None
    if r == z3.sat:
        stats.sat += 1
        return 'sat', s.model()
    r2, model = decide_cvc5(neg, timeout, stats)
    return r2, model


def decide_cvc5(neg, timeout, stats):
    """second solver for queries z3 leaves open (verdict only; a model is searched by z3 with the cvc5 values)"""
    s = z3.Solver()
    s.add(neg)
    txt = s.to_smt2()
    if 'set-logic' not in txt:
        txt = '(set-logic ALL)\n' + txt
    path = os.path.join(build.work(), 'q_%d_%d.smt2' % (os.getpid(), int(time.time() * 1e6) % 10**9))
    names = sorted({d for d in re.findall(r'\(declare-fun (\S+) \(\)', txt)})
    with open(path, 'w') as f:
        f.write('(set-option :produce-models true)\n' + txt + '\n(get-value (%s))\n' % ' '.join(names))
    t = time.time()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--fp-exp', path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout / 1000 + 20)
        o = r.stdout.decode()
    except subprocess.TimeoutExpired:
        o = 'timeout'
    os.unlink(path)
    stats.solver_time += time.time() - t
    stats.queries += 1
    first = o.strip().split('\n')[0] if o.strip() else ''
    if first == 'unsat' and '(error' not in o.split('unsat', 1)[0]:
        stats.unsat += 1
        return 'unsat', None
    if first == 'sat':
        vals = re.findall(r'\((\S+) #b([01]+)\)', o)
        s.set('timeout', 20000)
        for n, b in vals:
            s.add(z3.BitVec(n, len(b)) == z3.BitVecVal(int(b, 2), len(b)))
        if s.check() == z3.sat:
            stats.sat += 1
            return 'sat', s.model()
    return 'unknown', None


# ------------------------------------------------------------------- job helpers
def module(tu, cfg):
    return MODULES[(tu, cfg)]


def new_exec(tu, cfg, stats):
    return engine.Executor(module(tu, cfg), stats, fma=build.CONFIGS[cfg][1])


SCALE = 1.0       # polynomial domain: the inputs range over [-SCALE, SCALE]


def setup_bufs(E, bufs, mode, nvars_all=None):
    """allocate and initialise the harness arguments. mode 'poly' | 'z3' | 'concrete'"""
    objs = []
    var = {}
    k = 0
    for bi, b in enumerate(bufs):
        o = E.buffer(b.n * NB[b.ty], b.align, b.name)
        vals = None
        if isinstance(b.init, Span):
            if mode == 'poly':
                vals = []
                for c, v in zip(b.init.coef, b.init.var):
                    l = np.zeros(nvars_all)
                    l[k + v] = c * SCALE
                    vals.append(rt.Poly(0.0, l, None, 0.0) if c else 0.0)
                k += b.init.k
            else:
                vals = [rt.rnd(v, 8 * NB[b.ty]) for v in b.init.values([0.25] * b.init.k)]
        elif b.init == 'var' or mixed(b):
            vals = []
            w = 8 * NB[b.ty]
            for i in range(b.n):
                f = fixed_at(b, i)
                if f is not None:
                    vals.append(rt.rnd(float(f), w) if b.ty[0] == 'f' else int(f) & ((1 << w) - 1))
                elif mode == 'real' and b.ty[0] == 'f':
                    x = z3.Real('b%d_%d' % (bi, i))
                    var[(bi, i)] = x
                    vals.append(realdom.Rl(x))
                elif mode == 'poly':
                    v = rt.poly_var(k, nvars_all)
                    if SCALE != 1.0:
                        v = Poly(0.0, v.l * SCALE, None, 0.0)
                    vals.append(v)
                    var[(bi, i)] = k
                    k += 1
                else:
                    x = z3.BitVec('b%d_%d' % (bi, i), w)
                    if mode == 'real' and b.name == 'fbits':     # bits of a float: sign, exponent, mantissa apart
                        x = z3.Concat(*[z3.BitVec('b%d_%d%s' % (bi, i, k), n) for k, n in (('s', 1), ('e', 8), ('m', 23))])
                    var[(bi, i)] = x
                    vals.append(z3.fpBVToFP(x, rt.SORT[w]) if b.ty[0] == 'f' else x)
        elif b.init == 'undef':
            pass
        else:
            vals = []
            for v in b.init:
                if b.ty[0] == 'f':
                    vals.append(rt.rnd(float(v), 8 * NB[b.ty]))
                else:
                    vals.append(int(v) & ((1 << (8 * NB[b.ty])) - 1))
        if vals is not None:
            E.fill(o, KIND[b.ty], vals)
        objs.append(o)
    return objs, var


def call_args(E, params, objs):
    po = E.buffer(8 * max(len(params), 1), 0, 'params')
    E.fill(po, 8, [int(p) & rt_M64 for p in params])
    bo = E.buffer(8 * max(len(objs), 1), 0, 'buffers')
    E.fill(bo, 8, [o.base for o in objs])
    return (po.base, bo.base)


rt_M64 = (1 << 64) - 1


def concrete_inputs(bufs, rng):
    """random concrete contents for translator validation"""
    out = []
    for b in bufs:
        if isinstance(b.init, (list, tuple)):
            out.append([rt.rnd(rng.uniform(-1, 1), 8 * NB[b.ty]) if v is None and b.ty[0] == 'f' else rng.randrange(-100, 100) if v is None else v for v in b.init])
        elif isinstance(b.init, Span):
            out.append([rt.rnd(v, 8 * NB[b.ty]) for v in b.init.values([rng.uniform(-1, 1) for _ in range(b.init.k)])])
        elif b.init == 'undef':
            out.append([0] * b.n)
        elif b.ty[0] == 'f':
            out.append([rt.rnd(rng.uniform(-1, 1), 8 * NB[b.ty]) for _ in range(b.n)])
        else:
            w = 8 * NB[b.ty]
            out.append([rng.randrange(-(1 << (w - 1)), 1 << (w - 1)) for _ in range(b.n)])
    return out


def run_concrete(tu, cfg, harness, params, bufs, values):
    """the executor on concrete inputs: returns list of byte strings (None for undefined) or raises"""
    E = new_exec(tu, cfg, engine.Stats())
    cb = [Buf(b.name, b.ty, b.n, list(v), b.align) for b, v in zip(bufs, values)]
    objs, _ = setup_bufs(E, cb, 'concrete')
    ok = E.run(harness, call_args(E, params, objs))
    if not ok:
        return None, E.errors
    return [E.read(o, KIND[b.ty], b.n) for o, b in zip(objs, cb)], None


def model_values(model, bufs, var):
    out = []
    for bi, b in enumerate(bufs):
        if b.init == 'var' or mixed(b):
            vals = []
            for i in range(b.n):
                if fixed_at(b, i) is not None:
                    vals.append(fixed_at(b, i))
                    continue
                v = model.eval(var[(bi, i)], model_completion=True).as_long() if model is not None else 0
                w = 8 * NB[b.ty]
                if b.ty[0] == 'f':
                    vals.append(('bits', v))
                else:
                    vals.append(rt.sgn(v, w))
            out.append(vals)
        elif b.init == 'undef':
            out.append([0] * b.n)
        else:
            out.append(list(b.init))
    return out


def values_bytes(bufs, values):
    r = []
    for b, vals in zip(bufs, values):
        n = NB[b.ty]
        r.append(b''.join(v[1].to_bytes(n, 'little') if isinstance(v, tuple) else enc(b.ty, v) for v in vals))
    return r


def cand(tu, cfg, harness, params, bufs, values, kind, what, spec=None, expected=None):
    return dict(tu=tu, cfg=cfg, harness=harness, params=[int(p) for p in params],
                bufs=[(b.name, b.ty, b.n, b.align) for b in bufs],
                input=[x.hex() for x in values_bytes(bufs, values)], kind=kind, what=what, spec=spec, expected=expected)


def error_cands(E, res, tu, cfg, harness, params, bufs, var, mode):
    for e in E.errors:
        if mode == 'z3':
            vals = model_values(e.model, bufs, var)
        else:
            vals = default_values(bufs)
        res.violations.append(cand(tu, cfg, harness, params, bufs, vals, 'runtime', '%s: %s' % (e.kind, e.msg)))


def default_values(bufs):
    return [[0.25] * b.n if b.init == 'var' else b.init.values([0.25] * b.init.k) if isinstance(b.init, Span) else ([0] * b.n if b.init == 'undef' else [0 if v is None else v for v in b.init]) for b in bufs]


# ---- job: polynomial domain ------------------------------------------------------
class PolyPath:
    """Branches on comparisons of polynomials: which way each one goes, and the facts over the inputs that follow. A computed value
    differs from its polynomial by at most its error bound, so the facts are relaxed by that bound (exact where it is zero)."""

    def __init__(self, prefix=(), window=(0, 0), stats=None):
        self.prefix = list(prefix)
        self.window = window
        self.taken = []
        self.others = []       # prefixes of the paths not taken
        self.facts = []
        self.memo = {}
        self.fixed = {}
        self.used = set()
        self.bounds = {}
        self.stats = stats
        self.compared = False  # some branch depended on the data, whether or not both ways were possible

    def expr(self, d):
        R = lambda v: z3.RealVal(Fraction(float(v)))
        t = [R(d.c)]
        if d.l is not None:
            t += [R(d.l[j]) * self.x(j) for j in np.nonzero(d.l)[0]]
        if d.q is not None:
            t += [R(d.q[a, b]) * self.x(a) * self.x(b) for a, b in zip(*np.nonzero(d.q))]
        return z3.Sum(t)

    def x(self, j):
        v = self.fixed.get(int(j))
        self.used.add(int(j))
        return z3.Real('x%d' % j) if v is None else z3.RealVal(v)

    def fact(self, k, d, e, yes):
        if not yes:
            k = {1: 6, 6: 1, 2: 5, 5: 2, 3: 4, 4: 3}[k]
        if d.err == 0.0:
            return {1: e == 0, 6: e != 0, 2: e > 0, 5: e <= 0, 3: e >= 0, 4: e < 0}[k]
        r = z3.RealVal(Fraction(d.err))
        return {1: z3.And(e <= r, e >= -r), 6: z3.BoolVal(True), 2: e >= -r, 3: e >= -r, 4: e <= r, 5: e <= r}[k]

    def ask(self, extra, timeout=4000):
        fs = [*self.facts, *extra]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*fs)
        s.add(*[c for j in self.used for c in (z3.Real('x%d' % j) <= 1, z3.Real('x%d' % j) >= -1)])
        t = time.time()
        r = s.check()
        if self.stats:
            self.stats.solver_time += time.time() - t
            self.stats.queries += 1
        return r, s.model() if r == z3.sat else None

    def decide(self, k, d):
        key = (k, d.c, d.err, None if d.l is None else d.l.tobytes(), None if d.q is None else d.q.tobytes())
        if key in self.memo:
            return self.memo[key]
        e = self.expr(d)
        yes, no = self.fact(k, d, e, True), self.fact(k, d, e, False)
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            a, b = self.ask([yes])[0] != z3.unsat, self.ask([no])[0] != z3.unsat
            if a and b:
                usual = 0 if k == 1 else 1       # equality is the exception
                v = usual ^ (1 if self.window[0] <= i < self.window[1] else 0)
                self.others.append([*self.taken, 1 - v])
            else:
                v = 1 if a else 0
        self.taken.append(v)
        f = yes if v else no
        if not z3.is_true(f):
            self.facts.append(f)
        if k == (1 if v else 6) and d.err == 0.0 and d.q is None and d.l is not None:
            nz = [int(j) for j in np.nonzero(d.l)[0] if int(j) not in self.fixed]
            if len(nz) == 1:
                # an input with a known value on this path
                rest = sum((Fraction(float(d.l[j])) * self.fixed[j] for j in map(int, np.nonzero(d.l)[0]) if j in self.fixed), Fraction(float(d.c)))
                self.fixed[nz[0]] = -rest / Fraction(float(d.l[nz[0]]))
        self.memo[key] = v
        return v

    def bound(self, j):
        """a bound of |input j| on this path"""
        if j not in self.bounds:
            x = self.x(j)
            self.bounds[j] = 1.0
            for b in (1e-12, 1e-9, 1e-6, 1e-4):
                r = z3.RealVal(Fraction(b))
                if self.ask([z3.Or(x > r, x < -r)], 1000)[0] == z3.unsat:
                    self.bounds[j] = b
                    break
                if b == 1e-12 and self.ask([z3.Or(x > 0.01, x < -0.01)], 1000)[0] != z3.unsat:
                    break
        return self.bounds[j]

    def point(self, nv, extra=(), timeout=20000):
        r, m = self.ask(list(extra), timeout)
        if r != z3.sat:
            return r, None
        out = []
        for j in range(nv):
            v = m.eval(self.x(j))
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            out.append(float(Fraction(v.numerator_as_long(), v.denominator_as_long())) if z3.is_rational_value(v) else 0.0)
        return r, out


LARGE = 2.0 ** 20     # where the code compares samples, it is run again with inputs of this magnitude
START = time.time()
PATH_BUDGET = 8.0     # seconds per job for the branches beyond the first path


def path_budget():
    b = PATH_BUDGET if SCALE == 1.0 else PATH_BUDGET / 2
    if os.environ.get('VERIF_DEPTH') == 'thorough':
        return 8 * b
    return b if time.time() - START < 240 else b / 8      # a check with very many branching jobs has to end, too


def job_poly(label, tu, cfg, harness, params, bufs, spec, spec_args=(), tol=None, fixed=False):
    """spec(*spec_args) -> {buf index: [(const, {var: coef} or ndarray, quad or None), ...]} over the variable order
    of the 'var' buffers; tol: function(buf index, elem, row L1 magnitude) -> float or float.
    Where the code branches on the data, paths are explored one by one: all of them, or within the time budget first those that
    leave the usual way in one contiguous group of decisions."""
    global SCALE
    res = JobResult(label)
    t0 = time.time()
    compared = False
    try:
        exp = resolve(spec)(*spec_args)
        for SCALE in (1.0, LARGE):
            if SCALE != 1.0 and (not compared or res.violations or res.problem):
                break
            seen, queued = set(), set()
            work = [((), (0, 0))]
            late = []
            end = None
            while work or late:
                if end is not None and time.time() > end:
                    res.truncated = True
                    break
                prefix, window = work.pop(0) if work else late.pop(0)
                if prefix and tuple(prefix) in seen:
                    continue
                pp = PolyPath(prefix, window, res.stats)
                rt.PATH = pp
                try:
                    poly_path(res, pp, exp, label, tu, cfg, harness, params, bufs, tol)
                finally:
                    rt.PATH = None
                compared = compared or pp.compared
                if res.problem and SCALE != 1.0:
                    res.problem, res.truncated = None, True
                    break
                if res.violations or res.problem:
                    break
                first = end is None
                if first:
                    end = time.time() + path_budget()
                seen.update(tuple(pp.taken[:n]) for n in range(len(pp.taken) + 1))
                for o in pp.others:
                    if tuple(o) not in seen and tuple(o) not in queued:
                        queued.add(tuple(o))
                        late.append((o, (0, 0)))
                if first and len(pp.others) > 4:
                    # groups of consecutive exceptions, short and long, early and late
                    m = len(pp.others)
                    ln = 2
                    while ln <= 2 * m:
                        work += [((), (a, a + ln)) for a in sorted({0, m // 4, m // 2, 3 * m // 4})]
                        ln *= 2
    except Unsupported as e:
        if SCALE == 1.0:
            res.problem = 'unsupported: %s' % e
        else:
            res.truncated = True
    except Exception:
        res.problem = traceback.format_exc()[-1500:]
    finally:
        SCALE = 1.0
        res.wall = time.time() - t0
    if res.problem and not fixed and not any(isinstance(b.init, Span) for b in bufs):
        try:
            poly_fallback(res, label, tu, cfg, harness, params, bufs, spec, spec_args, tol)
        except Exception:
            res.problem += ' / fallback: ' + traceback.format_exc()[-600:]
        res.wall = time.time() - t0
    return res


def poly_values(bufs, x):
    """buffer contents for a point of the input space"""
    vals, k = [], 0
    for b in bufs:
        if b.init == 'var':
            vals.append([SCALE * rt.rnd(float(x[k + j]), 8 * NB[b.ty]) for j in range(b.n)])
            k += b.n
        elif isinstance(b.init, Span):
            vals.append([SCALE * v for v in b.init.values(x[k:k + b.init.k])])
            k += b.init.k
        else:
            vals.append([0] * b.n if b.init == 'undef' else list(b.init))
    return vals


def poly_path(res, pp, exp, label, tu, cfg, harness, params, bufs, tol):
    """one path of a polynomial job"""
    E = new_exec(tu, cfg, res.stats)
    nv = sum(nvars(b) for b in bufs)
    objs, var = setup_bufs(E, bufs, 'poly', max(nv, 1))
    ok = E.run(harness, call_args(E, params, objs))
    usual = lambda: default_values(bufs) if not pp.facts else poly_values(bufs, pp.point(nv)[1] or [0.25] * nv)
    if E.errors:
        vals = usual()
        for e in E.errors:
            res.violations.append(cand(tu, cfg, harness, params, bufs, vals, 'runtime', '%s: %s' % (e.kind, e.msg)))
        return
    if not ok:
        res.problem = 'path did not complete'
        return
    names = [None] * nv
    for (bi, i), k in var.items():
        names[k] = (bi, i)
    pend = []
    for bi, rows in exp.items():
        b = bufs[bi]
        got = E.read(objs[bi], KIND[b.ty], len(rows))
        for i, row in enumerate(rows):
            if row is None:
                continue
            res.obligations += 1
            g = got[i]
            if g is UNDEF:
                vals = usual()
                res.violations.append(cand(tu, cfg, harness, params, bufs, vals, 'unwritten',
                                           '%s[%d] is never written' % (b.name, i), expected=(bi, i)))
                return
            if b.ty[0] == 'i':
                if type(g) is not int:
                    raise Unsupported('integer output is not concrete')
                if rt.sgn(g, 8 * NB[b.ty]) == row:
                    res.trivial += 1
                    continue
                vals = usual()
                res.violations.append(cand(tu, cfg, harness, params, bufs, vals, 'value',
                                           '%s[%d] is %d, specified %d' % (b.name, i, rt.sgn(g, 8 * NB[b.ty]), row),
                                           expected=(bi, i, row, 0)))
                return
            if type(g) is float:
                g = Poly(g, None, None, 0.0)
            c, l, q = row
            if len(rows) > 2048 and g.err == 0.0 and q is None and g.q is None and g.c == c and g.l is not None and l is not None and np.array_equal(g.l, l):
                res.trivial += 1
                continue
            m = abs(c) + (0.0 if l is None else float(np.abs(l).sum())) + (0.0 if q is None else float(np.abs(q).sum()))
            tl = tol(bi, i, m, b.ty) if callable(tol) else tol
            if SCALE != 1.0:
                tl *= SCALE if q is None else SCALE * SCALE
                l = None if l is None else l * SCALE
                q = None if q is None else q * (SCALE * SCALE)
            else:
                res.head = max(res.head, g.err / tl)
            pend.append((bi, i, g, c, l, q, tl))
    for k in range(0, len(pend), 512):
        r, hit = poly_query(pend[k:k + 512], nv, res.stats)
        if r == 'unsat':
            continue
        if r != 'sat':
            res.problem = 'solver inconclusive (%s)' % r
            return
        if pp.facts:
            for item in pend[k:k + 512]:
                if poly_query([item], nv, res.stats)[0] == 'unsat':
                    continue
                x = path_query(pp, item, nv)
                if isinstance(x, str):
                    res.truncated = True
                    return
                if x is None:
                    continue
                bi, i, g, c, l, q, tl = item
                vals = poly_values(bufs, x)
                xs = np.array(sum([v if b.init == 'var' else [] for b, v in zip(bufs, vals)], []) if not any(isinstance(b.init, Span) for b in bufs) else [SCALE * float(v) for v in x], dtype=float) / SCALE
                e = c + (0 if l is None else float(np.dot(l, xs))) + (0 if q is None else float(xs @ q @ xs))
                res.violations.append(cand(tu, cfg, harness, params, bufs, vals, 'value',
                                           '%s[%d] differs from its specification' % (bufs[bi].name, i), expected=(bi, i, e, tl)))
                return
            continue
        (bi, i, g, c, l, q, tl), x = hit
        vals = []
        k = 0
        for qb in bufs:
            if qb.init == 'var':
                vals.append([SCALE * rt.rnd(float(x[k + j]), 8 * NB[qb.ty]) for j in range(qb.n)])
                k += qb.n
            elif isinstance(qb.init, Span):
                # powers of two: the elements stay exact
                z = [math.copysign(2.0 ** round(math.log2(abs(v))), v) if abs(v) > 2.0 ** -12 else 0.0 for v in map(float, x[k:k + qb.init.k])]
                x = [*x[:k], *z, *x[k + qb.init.k:]]
                vals.append([SCALE * v for v in qb.init.values(z)])
                k += qb.init.k
            else:
                vals.append([0] * qb.n if qb.init == 'undef' else list(qb.init))
        xs, k = [], 0
        for qb, vv in zip(bufs, vals):
            xs += [v / SCALE for v in vv] if qb.init == 'var' else list(x[k:k + nvars(qb)])
            k += nvars(qb)
        xs = np.array([float(v) for v in xs], dtype=float)
        e = c + (0 if l is None else float(np.dot(l, xs))) + (0 if q is None else float(xs @ q @ xs))
        res.violations.append(cand(
            tu, cfg, harness, params, bufs, vals, 'value',
            '%s[%d] differs from its specification' % (bufs[bi].name, i), expected=(bi, i, e, tl)))
        return


def path_query(pp, item, nv):
    """an input on this path for which the output exceeds its tolerance: None, a point, or the reason there is no answer"""
    bi, i, g, c, l, q, tol = item
    sub = lambda a, b: None if a is None and b is None else (0.0 if a is None else a) - (0.0 if b is None else b)
    d = Poly(g.c - c, sub(g.l, l), sub(g.q, q), 0.0)
    if d.q is not None:
        d.q = np.triu(d.q) + np.triu(d.q.T, 1)
    n = 1 + (0 if d.l is None else d.l.size) + (0 if d.q is None else d.q.size)
    err = g.err
    for a in (d.l, d.q):
        if a is not None:
            small = np.abs(a) < tol / (8.0 * n)
            err += float(np.abs(a[small]).sum())
            a[small] = 0.0
    if d.q is not None and d.q.any():
        # products with an input that is nearly zero on this path
        m = np.array([pp.bound(j) if d.q[j].any() or d.q[:, j].any() else 1.0 for j in range(nv)])
        small = np.abs(d.q) * np.outer(m, m) < tol / (8.0 * n)
        err += float((np.abs(d.q) * np.outer(m, m))[small].sum())
        d.q[small] = 0.0
    if err >= tol:
        return 'rounding bound exceeds the tolerance'
    e = pp.expr(d)
    big = z3.RealVal(Fraction(50 * tol))
    r, x = pp.point(nv, [z3.Or(e > big, e < -big)], 3000)
    if r == z3.sat:
        return x
    t = z3.RealVal(Fraction(tol) - Fraction(err))
    r, x = pp.point(nv, [z3.Or(e > t, e < -t)], 6000)
    return None if r == z3.unsat else x if r == z3.sat else 'solver inconclusive on a data-dependent path'


def fixed_values(b, k):
    """deterministic generic contents for a buffer that is taken as concrete"""
    import random
    rng = random.Random(7919 * k + b.n)
    return [rt.rnd(rng.uniform(-1, 1) * (1 if k != 2 else 0.125), 8 * NB[b.ty]) for _ in range(b.n)]


def poly_fallback(res, label, tu, cfg, harness, params, bufs, spec, spec_args, tol):
    """The run left the polynomial domain (a change made an output more than quadratic, say). Look for a counterexample
    with all but one buffer fixed (solver), then with all of them fixed; the caller replays it on the real code."""
    exp = resolve(spec)(*spec_args)
    vb = [i for i, b in enumerate(bufs) if b.init == 'var']
    for keep in (vb if len(vb) > 1 else []):
        nb = [Buf(b.name, b.ty, b.n, fixed_values(b, i) if i in vb and i != keep else b.init, b.align)
              for i, b in enumerate(bufs)]
        red = reduce_spec(exp, bufs, nb)
        r = job_poly(label, tu, cfg, harness, params, nb, lambda: red, (), tol, fixed=True)
        res.stats.add(r.stats)
        if r.violations:
            res.violations = r.violations
            return
    for k in range(4):
        vals = [fixed_values(b, 11 * k + i) if b.init == 'var' else [0] * b.n if b.init == 'undef' else list(b.init)
                for i, b in enumerate(bufs)]
        nb = [Buf(b.name, b.ty, b.n, v if b.init == 'var' else b.init, b.align) for b, v in zip(bufs, vals)]
        red = reduce_spec(exp, bufs, nb)
        want = []
        for bi, rws in red.items():
            for i, row in enumerate(rws):
                if row is None:
                    continue
                if isinstance(row, int):
                    want.append((bi, i, row, 0))
                else:
                    tl = tol(bi, i, abs(row[0]), bufs[bi].ty) if callable(tol) else tol
                    want.append((bi, i, row[0], tl))
        res.fallback.append(cand(tu, cfg, harness, params, bufs, vals, 'values', 'outputs differ from their specification',
                                 expected=want))


def reduce_spec(exp, bufs, nb):
    """substitute the buffers that nb fixes into specification rows over bufs"""
    keep, fix, x = [], [], []
    k = 0
    for b, c in zip(bufs, nb):
        if b.init != 'var':
            continue
        for i in range(b.n):
            if c.init == 'var':
                keep.append(k)
            else:
                fix.append(k)
                x.append(c.init[i])
            k += 1
    keep, fix, x = np.array(keep, dtype=int), np.array(fix, dtype=int), np.array(x, dtype=float)
    out = {}
    for bi, rws in exp.items():
        o = []
        for row in rws:
            if row is None or isinstance(row, int):
                o.append(row)
                continue
            c, l, q = row
            nl = np.zeros(len(keep))
            nq = None
            if l is not None:
                c = c + float(np.dot(l[fix], x))
                nl = nl + l[keep]
            if q is not None:
                c = c + float(x @ q[np.ix_(fix, fix)] @ x)
                nl = nl + q[np.ix_(keep, fix)] @ x + x @ q[np.ix_(fix, keep)]
                if len(keep):
                    nq = q[np.ix_(keep, keep)]
            o.append((c, nl if len(keep) else None, nq))
        out[bi] = o
    return out


def poly_query(items, nv, stats):
    """One LRA query for a batch of outputs: exist inputs in [-1,1] and rounding errors within their bounds such that
    some |machine - specification| exceeds its tolerance? Quadratic monomials are relaxed to independent variables in
    [-1,1], which only weakens the hypothesis. Coefficient differences far below the tolerance are added to the
    rounding-error symbol of that output."""
    R = lambda v: z3.RealVal(Fraction(v))
    parts, easy, hard = [], [], []
    for k, (bi, i, g, c, l, q, tol) in enumerate(items):
        dc = g.c - c
        dl = None
        if g.l is not None or l is not None:
            dl = (g.l if g.l is not None else 0.0) - (l if l is not None else 0.0)
        dq = None
        if g.q is not None or q is not None:
            dq = (g.q if g.q is not None else 0.0) - (q if q is not None else 0.0)
            dq = np.triu(dq) + np.triu(dq.T, 1)
        n = 1 + (0 if dl is None else dl.size) + (0 if dq is None else dq.size)
        thr = tol / (8.0 * n)
        err = g.err
        lin, quad = {}, {}
        if dl is not None:
            small = np.abs(dl) < thr
            err += float(np.abs(dl[small]).sum())
            lin = {int(j): float(dl[j]) for j in np.nonzero(~small)[0]}
        if dq is not None:
            small = np.abs(dq) < thr
            err += float(np.abs(dq[small]).sum())
            quad = {(int(a), int(b)): float(dq[a, b]) for a, b in zip(*np.nonzero(~small))}
        parts.append((dc, lin, quad, err, tol))
        (hard if lin or quad else easy).append(k)
    hit = None
    for group in ([easy] if easy else []) + [[k] for k in hard]:
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 120000)
        conds = []
        for k in group:
            dc, lin, quad, err, tol = parts[k]
            xs = {}
            for name in ['x%d' % j for j in lin] + ['m%d_%d' % ab for ab in quad]:
                xs[name] = z3.Real(name)
                s.add(xs[name] <= 1, xs[name] >= -1)
            e = z3.Real('e%d' % k)
            s.add(e <= R(err), e >= R(-err))
            d = z3.Sum([R(dc), e] + [R(v) * xs['x%d' % j] for j, v in lin.items()] +
                       [R(v) * xs['m%d_%d' % ab] for ab, v in quad.items()])
            conds.append((k, z3.Or(d > R(tol), d < R(-tol))))
        s.add(z3.Or(*[c for _, c in conds]))
        t = time.time()
        r = s.check()
        stats.solver_time += time.time() - t
        stats.queries += 1
        if r == z3.unsat:
            stats.unsat += 1
            continue
        if r != z3.sat:
            return 'unknown', None
        stats.sat += 1
        model = s.model()
        for k, cnd in conds:
            if z3.is_true(model.eval(cnd, model_completion=True)):
                hit = k
                break
        break
    if hit is None:
        return 'unsat', None
    k = hit
    dc, lin, quad, _, _ = parts[k]
    # concrete witness: a vertex of the box maximising |difference| (monomials made consistent)
    rng = np.random.default_rng(1)
    m = max(nv, 1)
    tries = []
    v0 = np.zeros(m)
    for i, v in lin.items():
        v0[i] = 1.0 if v > 0 else -1.0
    for (i, j), v in sorted(quad.items(), key=lambda kv: -abs(kv[1]))[:3]:
        v1 = np.zeros(m)
        v1[i] = v1[j] = 1.0
        tries.append(v1)
    tries += [v0, -v0] + [rng.choice([-1.0, 1.0], size=m) for _ in range(20)]
    best = None
    for xx in tries:
        dv = dc + sum(v * xx[i] for i, v in lin.items()) + sum(v * xx[i] * xx[j] for (i, j), v in quad.items())
        if best is None or abs(dv) > best[0]:
            best = (abs(dv), xx)
    return 'sat', (items[k], best[1])


# ---- job: bit-precise z3 domain ----------------------------------------------------
def job_z3(label, tu, cfg, harness, params, bufs, spec, spec_args=(), pre=None, timeout=60000, forking=False,
           contracts=None, replay_spec=True, max_paths=400, alloc_ends=False):
    """spec(E, objs_values, in_values, *spec_args) -> list of (label, z3 Bool): obligations over outputs and inputs.
    The same spec is evaluated on concrete values when a counterexample is replayed."""
    res = JobResult(label)
    t0 = time.time()
    try:
        E = new_exec(tu, cfg, res.stats)
        E.query_timeout = timeout
        E.forking = forking
        E.alloc_ends = alloc_ends
        if contracts:
            E.contracts = resolve(contracts)()
        work = [[]]
        npaths = 0
        fin = 0
        while work:
            E.decisions = work.pop()
            E.reset()
            E.worklist = []
            E.errors = []
            E.axioms = []
            objs, var = setup_bufs(E, bufs, 'z3')
            ins = [E.read(o, KIND[b.ty], b.n) if b.init != 'undef' else None for o, b in zip(objs, bufs)]
            prec = []
            if pre:
                prec = [p for p in resolve(pre)(ins, *spec_args)]
                for p in prec:
                    E.assume(p)
            ok = E.run(harness, call_args(E, params, objs))
            work += E.worklist
            npaths += 1
            if npaths > max_paths:
                res.problem = 'too many paths'
                return res
            if E.errors:
                error_cands(E, res, tu, cfg, harness, params, bufs, var, 'z3')
                return res
            if not ok:
                continue
            fin += 1
            outs = [E.read(o, KIND[b.ty], b.n) for o, b in zip(objs, bufs)]
            obs = resolve(spec)(ins, outs, *spec_args)
            pcsub = pc_equalities(E.pc)
            for lab, ob in obs:
                res.obligations += 1
                if isinstance(ob, (bool, int)):
                    if ob:
                        res.trivial += 1
                        continue
                    ob = z3.BoolVal(False)
                neg = z3.And(*E.axioms, *E.pc, z3.substitute(z3.Not(ob), *pcsub) if pcsub else z3.Not(ob))
                r, model = decide(neg, res.stats, timeout)
                if r == 'trivial':
                    res.trivial += 1
                elif r == 'sat':
                    vals = model_values(model, bufs, var)
                    res.violations.append(cand(tu, cfg, harness, params, bufs, vals, 'spec', lab,
                                               spec=(spec, list(spec_args))))
                    return res
                elif r != 'unsat':
                    res.problem = 'solver inconclusive on %s' % lab
                    return res
        if fin == 0:
            res.problem = 'vacuous: no path reached the end of the harness'
    except Unsupported as e:
        res.problem = 'unsupported: %s' % e
    except Exception:
        res.problem = traceback.format_exc()[-1500:]
    finally:
        res.wall = time.time() - t0
    if res.problem:
        try:
            for vals in sample_inputs(bufs, 400):
                if pre:
                    ins = cvals([(b.name, b.ty, b.n, b.align) for b in bufs], values_bytes(bufs, vals))
                    if not all(z3.is_true(z3.simplify(p)) if isinstance(p, z3.ExprRef) else p
                               for p in resolve(pre)(ins, *spec_args)):
                        continue
                res.fallback.append(cand(tu, cfg, harness, params, bufs, vals, 'spec', 'specification violated',
                                         spec=(spec, list(spec_args))))
        except Exception:
            res.problem += ' / fallback: ' + traceback.format_exc()[-600:]
    return res


def pc_equalities(pc):
    """input = constant facts of the path condition (forked values)"""
    out = []
    for c in pc:
        if not isinstance(c, z3.ExprRef):
            continue
        c = z3.simplify(c)
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b) and a.num_args() == 0 and not z3.is_bv_value(a):
                out.append((a, b))
    return out


def sample_inputs(bufs, n):
    """concrete inputs tried on the real code when the solver could not decide"""
    import random
    rng = random.Random(5)
    F = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-30, 2.0, 3.75, 100.0, 1e10, -1e10, math.inf, -math.inf, math.nan]
    for k in range(n):
        out = []
        for b in bufs:
            w = 8 * NB[b.ty]
            if b.init == 'undef':
                out.append([0] * b.n)
            elif b.init != 'var' and not mixed(b):
                out.append(list(b.init))
            elif b.ty[0] == 'f':
                out.append([fixed_at(b, i) if fixed_at(b, i) is not None else rt.rnd(rng.choice(F) if (k % 4 == 0 or rng.random() < 0.1) else rng.uniform(-1, 1) * (1 if k % 2 else 10), w)
                            for i in range(b.n)])
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                out.append([fixed_at(b, i) if fixed_at(b, i) is not None else rng.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1]) if rng.random() < (0.5 if k % 3 == 0 else 0.1)
                            else rng.randint(-130, 130) if k % 3 == 1 else rng.randint(lo, hi) for i in range(b.n)])
        yield out


# ---- job: real-arithmetic domain -----------------------------------------------------
def real_val(model, x, w):
    v = model.eval(x, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return rt.rnd(float(Fraction(v.numerator_as_long(), v.denominator_as_long())), w)


def int_val(model, x):
    """integer input: the bit vector, or where the real domain used its (relaxed) value, that value rounded"""
    if x.decl().kind() == z3.Z3_OP_CONCAT:
        r = 0
        for c in x.children():
            r = r << c.size() | int_val(model, c)
        return r
    a = realdom._atoms.get(x.get_id())
    if a is not None and realdom.is_input(x):
        v = model.eval(a[0], model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return min(max(int(Fraction(v.numerator_as_long(), v.denominator_as_long())), 0), (1 << x.size()) - 1)
    return model.eval(x, model_completion=True).as_long()


def _job_real(label, tu, cfg, harness, params, bufs, spec, spec_args=(), pre=None, lo=-8, hi=8, timeout=60000, forking=False,
              max_paths=400, tol=1e-4):
    """spec(C, ins, outs, *spec_args) -> [(label, a, b)] (a equals b) or [(label, condition)]; lo..hi bounds the inputs"""
    res = JobResult(label)
    t0 = time.time()
    C = realdom.Sym
    try:
        E = new_exec(tu, cfg, res.stats)
        E.query_timeout = timeout
        E.forking = forking
        E.contracts = realdom.contracts()
        realdom.CUR = E
        work = [[]]
        npaths = fin = 0
        while work:
            E.decisions = work.pop()
            E.reset()
            realdom.reset()
            rt.BRIDGE = realdom.Bridge
            E.worklist, E.errors, E.axioms = [], [], []
            objs, var = setup_bufs(E, bufs, 'real')
            ins = [[realdom.R(v) if b.ty[0] == 'f' else v for v in E.read(o, KIND[b.ty], b.n)] if b.init != 'undef' else None
                   for o, b in zip(objs, bufs)]
            for x in var.values():
                if z3.is_real(x):
                    E.assume(z3.And(x >= lo, x <= hi))
                    realdom.BOUNDS[x.decl().name()] = (Fraction(lo), Fraction(hi))
            for p in (resolve(pre)(C, ins, *spec_args) if pre else []):
                E.assume(p)
            ok = E.run(harness, call_args(E, params, objs))
            work += E.worklist
            npaths += 1
            if npaths > max_paths:
                raise Unsupported('too many paths')

            def vals_of(model):
                out = []
                for bi, b in enumerate(bufs):
                    if b.init != 'var' and not mixed(b):
                        out.append([0] * b.n if b.init == 'undef' else list(b.init))
                    else:
                        out.append([fixed_at(b, i) if fixed_at(b, i) is not None else real_val(model, var[(bi, i)], 8 * NB[b.ty]) if b.ty[0] == 'f' else
                                    rt.sgn(int_val(model, var[(bi, i)]), 8 * NB[b.ty])
                                    for i in range(b.n)])
                return out
            if E.errors:
                e = E.errors[0]
                vals = vals_of(e.model) if e.model is not None else default_values(bufs)
                res.violations.append(cand(tu, cfg, harness, params, bufs, vals, 'runtime', '%s: %s' % (e.kind, e.msg)))
                return res
            if not ok:
                continue
            fin += 1
            outs = []
            for o, b in zip(objs, bufs):
                v = E.read(o, KIND[b.ty], b.n)
                outs.append([UNDEF if x is UNDEF else realdom.R(x) if b.ty[0] == 'f' else
                             rt.sgn(x, 8 * NB[b.ty]) if type(x) is int else x for x in v])
            for ob in resolve(spec)(C, ins, outs, *spec_args):
                res.obligations += 1
                if any(x is UNDEF for x in ob):
                    raise Unsupported('output never written: %s' % ob[0])
                goals = [ob[1]] if len(ob) == 2 else [realdom.R(ob[1]) == realdom.R(ob[2]), C.abs(realdom.R(ob[1]) - realdom.R(ob[2])) <= realdom.R(tol) * C.max(1.0, C.abs(ob[2]))]
                verdict = model = None
                for g in goals:
                    if isinstance(g, bool):
                        g = z3.BoolVal(g)
                    verdict, model = decide_real([*E.axioms, *E.pc, z3.Not(g)], res.stats, timeout)
                    if verdict == 'unsat':
                        break
                if verdict == 'unsat':
                    continue
                if verdict == 'sat':
                    c = cand(tu, cfg, harness, params, bufs, vals_of(model), 'real', ob[0], spec=(spec, list(spec_args)))
                    c['tol'] = max(tol, 1e-4)
                    # rounding is not modelled: keep samples as further witnesses in case this one is not reproduced
                    res.violations.append(c)
                    return res
                raise Unsupported('solver inconclusive on %s' % ob[0])
        if fin == 0:
            res.problem = 'vacuous: no path reached the end of the harness'
    except Unsupported as e:
        res.problem = 'unsupported: %s' % e
    except Exception:
        res.problem = traceback.format_exc()[-1500:]
    finally:
        rt.BRIDGE = None
        res.wall = time.time() - t0
    return res


def job_real(label, tu, cfg, harness, params, bufs, spec, spec_args=(), pre=None, lo=-8, hi=8, tol=1e-4, **kw):
    res = _job_real(label, tu, cfg, harness, params, bufs, spec, spec_args, pre=pre, lo=lo, hi=hi, tol=tol, **kw)
    if res.problem or res.violations:
        # inputs for the real code where the solver's counterexample rests on an abstraction (libm) or it has none
        import random
        rng = random.Random(3)

        def value(b):
            if b.ty[0] != 'f':
                return rng.choice([rng.randint(-3, 5), rng.getrandbits(8 * NB[b.ty])])
            m = max(abs(lo), abs(hi))
            v = rng.choice([rng.uniform(max(lo, -8), min(hi, 8)), rng.uniform(0.01, 1), float(rng.randint(-2, 3)), rng.uniform(lo, hi),
                            m * 2.0 ** -rng.uniform(0, 30)])
            return rt.rnd(min(max(v, lo), hi), 8 * NB[b.ty])
        for k in range(200):
            vals = [[value(b) if fixed_at(b, i) is None else fixed_at(b, i) for i in range(b.n)] if b.init == 'var' or mixed(b) else [0] * b.n if b.init == 'undef' else list(b.init) for b in bufs]
            if any(not (lo <= v <= hi) for b, vv in zip(bufs, vals) if (b.init == 'var' or mixed(b)) and b.ty[0] == 'f' for v in vv):
                continue
            if pre and not all(bool(p) for p in resolve(pre)(realdom.Con, vals, *spec_args)):
                continue
            c = cand(tu, cfg, harness, params, bufs, vals, 'real', 'specification violated', spec=(spec, list(spec_args)))
            c['tol'] = max(tol, 1e-4)
            res.fallback.append(c)
            if len(res.fallback) >= 60:
                break
    return res


def z3_vars(e, memo={}):
    k = e.get_id()
    r = memo.get(k)
    if r is None or not r[0].eq(e):
        seen, out, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
                elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo += x.children()
        if len(memo) > 5000:
            memo.clear()
        r = memo[k] = (e, out)
    return r[1]


def cone(conds):
    """the conditions connected to the last one by shared variables (the others have a model of their own)"""
    vs = set(z3_vars(conds[-1]))
    rest = [(c, z3_vars(c)) for c in conds[:-1]]
    keep = []
    while True:
        nxt = [(c, v) for c, v in rest if v & vs or not v]
        if not nxt:
            break
        rest = [(c, v) for c, v in rest if not (v & vs or not v)]
        for c, v in nxt:
            keep.append(c)
            vs |= v
    return keep + [conds[-1]]


def decide_real(conds, stats, timeout):
    small = cone(conds)
    if len(small) < len(conds):
        v, m = decide_real_(small, stats, timeout)
        if v == 'unsat':
            return v, m
    return decide_real_(conds, stats, timeout)


def decide_real_(conds, stats, timeout):
    for mk in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_NRA')):
        s = mk()
        s.set('timeout', int(timeout) // 2)
        s.add(*conds)
        t = time.time()
        r = s.check()
        stats.solver_time += time.time() - t
        stats.queries += 1
        if r == z3.unsat:
            stats.unsat += 1
            return 'unsat', None
        if r == z3.sat:
            stats.sat += 1
            return 'sat', s.model()
    return 'unknown', None


def resolve(f):
    """specs are named 'module:function' so that jobs and replays can be pickled / re-run"""
    if callable(f):
        return f
    mod, fn = f.split(':')
    import importlib
    return getattr(importlib.import_module(mod), fn)


# ------------------------------------------------------------------- replay
def cvals(bufs, raw):
    """bytes -> values usable by specs: z3 literals for bit-precise specs"""
    out = []
    for (name, ty, n, al), b in zip(bufs, raw):
        w = 8 * NB[ty]
        vals = []
        for i in range(n):
            x = int.from_bytes(b[i * NB[ty]:(i + 1) * NB[ty]], 'little')
            vals.append(z3.fpBVToFP(z3.BitVecVal(x, w), rt.SORT[w]) if ty[0] == 'f' else z3.BitVecVal(x, w))
        out.append(vals)
    return out


def replay(nat, c):
    """run the counterexample on the real code. returns (reproduced, text, record)"""
    raw = [bytes.fromhex(x) for x in c['input']]
    bufs = [tuple(b) for b in c['bufs']]
    case = (c['harness'], c['params'], [(r, b[3]) for r, b in zip(raw, bufs)])
    if not Native.runnable(c['cfg']):
        return False, 'this processor cannot run the %s build' % c['cfg'], None
    if c['kind'] == 'runtime' and c['what'].startswith('nontermination'):
        # the encoder's budget corresponds to well under a second of native run time
        out, err = nat.run(c['tu'], c['cfg'], [case], timeout=20)
        return bool(err or not out), 'real code: %s' % (err or 'terminates'), None
    if c['kind'] == 'runtime':
        out, err = nat.run(c['tu'], c['cfg'], [case], san=True)
        if err or not out:
            return True, 'real code, sanitizer build: %s' % err, None
        # asserts in the plain build
        out, err = nat.run(c['tu'], c['cfg'], [case])
        if err or not out:
            return True, 'real code: %s' % err, None
        return False, 'not reproduced', None
    out, err = nat.run(c['tu'], c['cfg'], [case])
    if err or not out:
        return True, 'real code crashed: %s' % err, None
    out = out[0]
    if c['kind'] == 'unwritten':
        # the element keeps whatever the caller's memory held: run again with other contents
        bi, i = c['expected']
        n = NB[bufs[bi][1]]
        raw2 = list(raw)
        raw2[bi] = bytes(x ^ 0x35 for x in raw[bi])
        case2 = (c['harness'], c['params'], [(r, b[3]) for r, b in zip(raw2, bufs)])
        out2, err2 = nat.run(c['tu'], c['cfg'], [case2])
        if err2 or not out2:
            return True, 'real code crashed: %s' % err2, None
        s = slice(i * n, i * n + n)
        bad = out[bi][s] == raw[bi][s] and out2[0][bi][s] == raw2[bi][s]
        return bad, 'real code leaves %s[%d] as the caller had it' % (bufs[bi][0], i), None
    if c['kind'] == 'value':
        bi, i, e, tl = c['expected']
        ty = bufs[bi][1]
        got = dec(ty, out[bi][i * NB[ty]:(i + 1) * NB[ty]])
        bad = not (abs(got - e) <= tl)
        return bad, 'expected %s[%d] = %.9g +- %.3g, real code returns %.9g' % (bufs[bi][0], i, e, tl, got), got
    if c['kind'] == 'real':
        ins = [decbuf(b[1], x) for b, x in zip(bufs, raw)]
        outs = [decbuf(b[1], x) for b, x in zip(bufs, out)]
        name, args = c['spec']
        for ob in resolve(name)(realdom.Con, ins, outs, *args):
            if len(ob) == 2:
                bad, txt = not ob[1], ''
            else:
                a, b = float(ob[1]), float(ob[2])
                bad = not (abs(a - b) <= c['tol'] * max(1.0, abs(b)))
                txt = ' (%.9g, specified %.9g)' % (a, b)
            if bad:
                return True, 'real code violates: %s%s' % (ob[0], txt), ob[0]
        return False, 'specification holds on the real code for this input', None
    if c['kind'] == 'values':
        for bi, i, e, tl in c['expected']:
            ty = bufs[bi][1]
            got = dec(ty, out[bi][i * NB[ty]:(i + 1) * NB[ty]])
            if not (abs(got - e) <= tl):
                return True, 'expected %s[%d] = %.9g +- %.3g, real code returns %.9g' % (bufs[bi][0], i, e, tl, got), got
        return False, 'specification holds on the real code for this input', None
    if c['kind'] == 'spec':
        ins = cvals(bufs, raw)
        outs = cvals(bufs, out)
        name, args = c['spec']
        for lab, ob in resolve(name)(ins, outs, *args):
            v = ob if isinstance(ob, (bool, int)) else z3.simplify(ob)
            if isinstance(v, z3.ExprRef) and not z3.is_true(v) and not z3.is_false(v):
                s = z3.Solver()
                s.add(z3.Not(v))
                v = s.check() == z3.unsat
            if z3.is_false(v) if isinstance(v, z3.ExprRef) else not v:
                return True, 'real code violates: %s' % lab, lab
        return False, 'specification holds on the real code for this input', None
    return False, 'unknown kind', None


# ------------------------------------------------------------------- check runner
class Job:
    def __init__(self, fn, label, tu, cfg, *args, weight=1, **kw):
        self.fn = fn
        self.label = label
        self.tu = tu
        self.cfg = cfg
        self.args = args
        self.optional = kw.pop('optional', False)     # explores beyond the stated bounds: an open verdict is noted, not fatal
        self.kw = kw
        self.weight = weight


def _run_job(j):
    j = _JOBS[j]
    try:
        r = j.fn(j.label, j.tu, j.cfg, *j.args, **j.kw)
    except MemoryError:
        r = JobResult(j.label)
        r.problem = 'out of memory'
    r.optional = j.optional
    return r


_JOBS = []


def _child(q_in, conn):
    pass


class Check:
    """One property's check."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.jobs = []
        self.assumptions = []
        self.bounds = []
        self.known = load_known(pid)
        self.validated = 0
        self.level = 'model_checking'
        self.samples = []
        self.validations = []
        self.nat = Native()

    def thorough(self):
        return self.tier == 'thorough'

    def poly(self, label, tu, cfg, harness, params, bufs, spec, spec_args=(), tol=1e-4, weight=1, validate=False):
        self.jobs.append(Job(job_poly, label, tu, cfg, harness, params, bufs, spec, tuple(spec_args), tol, weight=weight))
        if validate:
            self.validations.append((tu, cfg, harness, params, bufs))

    def z3(self, label, tu, cfg, harness, params, bufs, spec, spec_args=(), weight=1, validate=False, **kw):
        self.jobs.append(Job(job_z3, label, tu, cfg, harness, params, bufs, spec, tuple(spec_args), weight=weight, **kw))
        if validate:
            self.validations.append((tu, cfg, harness, params, bufs))

    def real(self, label, tu, cfg, harness, params, bufs, spec, spec_args=(), weight=1, validate=False, **kw):
        self.jobs.append(Job(job_real, label, tu, cfg, harness, params, bufs, spec, tuple(spec_args), weight=weight, **kw))
        if validate:
            self.validations.append((tu, cfg, harness, params, bufs))

    def add(self, fn, label, tu, cfg, *args, weight=1, **kw):
        self.jobs.append(Job(fn, label, tu, cfg, *args, weight=weight, **kw))

    # --------------------------------------------------------------
    def execute(self):
        global _JOBS
        t0 = time.time()
        need = sorted({(j.tu, j.cfg) for j in self.jobs if j.tu})
        cmds = []
        paths = {}
        for tu, cfg in need:
            p = os.path.join(build.work(), '%s_%s.bc' % (tu, cfg))
            paths[(tu, cfg)] = p
            cmds.append(build.cmd_bc(tu, cfg, p))
        self.validations = [v for v in self.validations if Native.runnable(v[1])]
        natneed = sorted({(v[0], v[1]) for v in self.validations})
        for tu, cfg in natneed:
            out = os.path.join(build.work(), 'nat_%s_%s_0' % (tu, cfg))
            cmds.append(build.cmd_native(tu, cfg, out))
            self.nat.exe[(tu, cfg, False)] = out
        build.run_all(cmds)
        self.t_build = time.time() - t0
        for k, p in paths.items():
            MODULES[k] = ir.Module(p)
        _JOBS = self.jobs
        order = sorted(range(len(self.jobs)), key=lambda i: -self.jobs[i].weight)
        results = [None] * len(self.jobs)
        n = min(os.cpu_count() or 4, 8, max(1, len(order)))
        verbose = os.environ.get('VERIF_VERBOSE')
        stop_on_violation = True
        found = []
        if n <= 1:
            it = ((i, _run_job(i)) for i in order)
            for i, r in it:
                results[i] = r
        else:
            ctx = mp.get_context('fork')
            with ctx.Pool(n, maxtasksperchild=None) as pool:
                for r_i, r in pool.imap_unordered(_run_job_i, order, chunksize=1):
                    results[r_i] = r
                    if verbose:
                        print('  %-60s %6.1fs ob=%d q=%d %s%s' % (r.label, r.wall, r.obligations, r.stats.queries, ('HEAD=%.2f ' % r.head) if r.head > .33 else '',
                                                                 r.problem or (r.violations and r.violations[0]['what']) or ''), flush=True)
                    if r.violations and not self.is_known(r.violations[0]) and not os.environ.get('VERIF_SURVEY'):
                        # one reproduced violation decides the check: stop early
                        found.append(r)
                        c = r.violations[0]
                        ok, text, _ = replay(self.nat, c)
                        if ok:
                            c['replay_text'] = text
                            c['confirmed'] = True
                            pool.terminate()
                            break
        self.results = [r for r in results if r is not None]
        if not found:
            self.validate_translation()
        self.wall = time.time() - t0

    known_rule = None

    def is_known(self, c):
        return self.known_rule(c) if self.known_rule else None

    def validate_translation(self):
        """push concrete inputs through the encoder and the native build of the same harness and compare"""
        import random
        rng = random.Random(self.seed)
        by = {}
        for v in self.validations:
            by.setdefault((v[0], v[1]), []).append(v)
        self.val_fail = []
        for (tu, cfg), vs in by.items():
            cases, want = [], []
            for _, _, h, params, bufs in vs:
                vals = concrete_inputs(bufs, rng)
                try:
                    got, errs = run_concrete(tu, cfg, h, params, bufs, vals)
                except Unsupported as e:
                    got, errs = None, e
                if got is None:
                    self.val_fail.append('%s: encoder stopped: %s' % (h, errs))
                    continue
                cases.append((h, params, [(x, b.align) for x, b in zip(values_bytes(bufs, vals), bufs)]))
                want.append((bufs, got))
            out, err = self.nat.run(tu, cfg, cases)
            if err:
                self.val_fail.append('%s/%s: native run failed: %s' % (tu, cfg, err))
                continue
            for (bufs, got), o, cs in zip(want, out, cases):
                bad = None
                for b, g, raw in zip(bufs, got, o):
                    vals = decbuf(b.ty, raw)
                    sc = max([abs(x) for x in vals if x == x and abs(x) != math.inf] + [1e-30]) if b.ty[0] == 'f' else 0
                    for i, (x, y) in enumerate(zip(g, vals)):
                        if x is UNDEF:
                            continue
                        if b.ty[0] == 'f':
                            if isinstance(x, z3.ExprRef):
                                continue
                            tolv = {'f16': 2e-3, 'f32': 1e-5, 'f64': 1e-13}[b.ty] * sc
                            same = (x != x and y != y) or x == y or abs(x - y) <= tolv
                        else:
                            same = (x & ((1 << 8 * NB[b.ty]) - 1)) == (y & ((1 << 8 * NB[b.ty]) - 1))
                        if not same and bad is None:
                            bad = '%s %s: %s[%d] encoder %r native %r' % (cs[0], cs[1], b.name, i, x, y)
                if bad:
                    self.val_fail.append(bad)
                else:
                    self.validated += 1

    def finish(self):
        """replay candidates, print the verdict, write evidence, return the exit status"""
        status = 0
        nviol = 0
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for r in self.results:
            if r.problem and r.fallback and not r.violations and not any(c.get('confirmed') for q in self.results for c in q.violations):
                for c in r.fallback:
                    ok, text, _ = replay(self.nat, c)
                    if ok and not self.is_known(c):
                        c['confirmed'], c['replay_text'] = True, text
                        r.violations = [c]
                        r.problem = None
                        break
        problems = [(r.label, r.problem) for r in self.results if r.problem and not r.optional]
        extra_open = [(r.label, r.problem) for r in self.results if r.problem and r.optional]
        knownhit = {}
        done = False
        for r in self.results:
            for c in r.violations:
                if done:
                    break
                k = self.is_known(c)
                if k:
                    knownhit[k] = c
                    continue
                if c.get('confirmed'):
                    ok, text = True, c['replay_text']
                else:
                    ok, text, _ = replay(self.nat, c)
                for c2 in (r.fallback if not ok and c['kind'] == 'real' else []):
                    ok, text, _ = replay(self.nat, c2)
                    if ok:
                        c = c2
                        break
                if not ok:
                    (extra_open if r.optional else problems).append((r.label, 'counterexample not reproduced on the real code: %s (%s)' % (c['what'], text)))
                    continue
                path = os.path.join(VERIF, 'replays', '%s.json' % self.pid)
                c['replay_text'] = text
                c['label'] = r.label
                with open(path, 'w') as f:
                    json.dump(c, f, indent=1)
                print('%s: %s -- %s' % (r.label, c['what'], text))
                print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
                nviol += 1
                status = 1
                done = True
        for k, what in self.known.items():
            if what.get('status') == 'open' and (k in knownhit or what.get('always')):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, what['what']))
        if not nviol:
            for v in getattr(self, 'val_fail', []):
                problems.append(('translator validation', v))
        if problems:
            for l, p in problems[:12]:
                print('INCONCLUSIVE %s: %s' % (l, p), file=sys.stderr)
            if status == 0:
                status = 2
        for l, p in extra_open[:12]:
            print('note: beyond the stated bounds, undecided: %s: %s' % (l, p), file=sys.stderr)
        self.extra_open = extra_open
        self.evidence(nviol, problems)
        return status

    def evidence(self, nviol, problems):
        st = engine.Stats()
        for r in self.results:
            st.add(r.stats)
        fns = sorted(st.functions)
        samples = []
        for r in self.results[:: max(1, len(self.results) // 8)][:8]:
            samples.append('%s: %d obligations, %d solver queries, %d IR instructions, %.2fs' % (
                r.label, r.obligations, r.stats.queries, r.stats.insts, r.wall))
        cov = {
            'states': st.paths + 2 * st.merges,
            'transitions': st.insts,
            'traces_validated_against_impl': self.validated,
            'samples': samples,
            'harness_runs': len(self.results),
            'obligations': sum(r.obligations for r in self.results),
            'obligations_closed_by_simplification': sum(r.trivial for r in self.results),
            'queries_discharged_unsat': st.unsat,
            'solver_queries': st.queries,
            'queries_answered_from_cache_up_to_renaming': st.cached,
            'solver_time_s': round(st.solver_time, 3),
            'functions_encoded': len(fns),
            'functions': demangle(fns)[:200],
            'bounds': self.bounds,
            'inconclusive': len(problems),
            'undecided_beyond_the_stated_bounds': [l for l, _ in self.extra_open],
            'data_dependent_branches_not_all_explored': [r.label for r in self.results if r.truncated],
            'explanation': 'states = symbolic paths plus merged branch arms; transitions = LLVM IR instructions executed '
                           'symbolically; traces_validated = concrete runs on which the encoder and the native build agree',
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(self.wall, 2), 'violations': nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def _run_job_i(i):
    return i, _run_job(i)


def demangle(names):
    try:
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return [x[:160] for x in r.stdout.decode().strip().split('\n')]
    except Exception:
        return names


def load_known(pid):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {k['key']: k for k in d.get('findings', []) if k['property'] == pid}
