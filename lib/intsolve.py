"""cvc5's translation of bit-vector arithmetic to integers: decides products and quotients that bit-blasting cannot."""
import os
import random
import subprocess
import time

import z3

import build

NONLIN = {z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BSDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV_I,
          z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM_I}


def wants(conds):
    """products or quotients of wide symbolic integers, and nothing but bit vectors"""
    seen = set()
    todo = list(conds)
    hit = False
    n = 0
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        if n > 3000:
            return False
        if z3.is_fp(e) or z3.is_arith(e) or z3.is_array(e):
            return False
        if z3.is_app(e):
            if e.decl().kind() in NONLIN and e.size() >= 16:
                if sum(not z3.is_bv_value(c) for c in e.children()) > 1 or e.decl().kind() != z3.Z3_OP_BMUL:
                    hit = True
            todo += e.children()
    return hit


def unsat(conds, stats, timeout=4000):
    s = z3.Solver()
    s.add(*conds)
    txt = s.to_smt2()
    if 'set-logic' not in txt:
        txt = '(set-logic ALL)\n' + txt
    path = os.path.join(build.work(), 'i_%d_%d.smt2' % (os.getpid(), int(time.time() * 1e6) % 10**9))
    with open(path, 'w') as f:
        f.write(txt)
    t = time.time()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--solve-bv-as-int=sum', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout / 1000 + 10)
        o = r.stdout.decode().strip()
    except subprocess.TimeoutExpired:
        o = ''
    os.unlink(path)
    stats.solver_time += time.time() - t
    stats.queries += 1
    if o == 'unsat':
        stats.unsat += 1
        return True
    return False


class No(Exception):
    pass


class Trans:
    """bit vectors as integers: a term becomes an integer term with a known range; wrap-around and division are expressed with
    fresh quotients and remainders, so that products stay polynomials"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}
        self.divs = {}
        self.n = 0

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('!i%d' % self.n)
        self.side += [v >= lo, v <= hi]
        return v

    def wrap(self, e, lo, hi, w):
        """e with lo <= e <= hi, reduced to 0..2^w-1"""
        m = 1 << w
        if lo >= 0 and hi < m:
            return e, lo, hi
        k = self.fresh(lo // m, hi // m)
        r = self.fresh(0, m - 1)
        self.side.append(e == m * k + r)
        return r, 0, m - 1

    def divmod(self, a, b, w):
        key = (a[0].get_id(), b[0].get_id(), w)
        if key not in self.divs:
            q = self.fresh(0, (1 << w) - 1)
            r = self.fresh(0, (1 << w) - 1)
            self.side.append(z3.If(b[0] == 0, z3.And(q == (1 << w) - 1, r == a[0]), z3.And(a[0] == q * b[0] + r, r < b[0], q <= a[0], r <= a[0])))
            self.divs[key] = (q, r, a[0], b[0])
        return self.divs[key]

    def signed(self, t, w):
        e, lo, hi = t
        if hi < 1 << (w - 1):
            return t
        return z3.If(e >= 1 << (w - 1), e - (1 << w), e), -(1 << (w - 1)), (1 << (w - 1)) - 1

    def bv(self, t):
        i = t.get_id()
        if i not in self.memo:
            self.memo[i] = (self._bv(t), t)
        return self.memo[i][0]

    def _bv(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return z3.IntVal(v), v, v
        if not z3.is_app(t):
            raise No('term')
        k = t.decl().kind()
        c = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if c:
                raise No('function')
            v = z3.Int('!v_' + t.decl().name())
            self.side += [v >= 0, v < 1 << w]
            self.vars[t.decl().name()] = (t, v)
            return v, 0, (1 << w) - 1
        if k == z3.Z3_OP_ITE:
            a, b = self.bv(c[1]), self.bv(c[2])
            return z3.If(self.boolean(c[0]), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if k == z3.Z3_OP_BADD:
            e = [self.bv(x) for x in c]
            return self.wrap(z3.Sum([x[0] for x in e]), sum(x[1] for x in e), sum(x[2] for x in e), w)
        if k == z3.Z3_OP_BSUB:
            a, b = self.bv(c[0]), self.bv(c[1])
            return self.wrap(a[0] - b[0], a[1] - b[2], a[2] - b[1], w)
        if k == z3.Z3_OP_BNEG:
            a = self.bv(c[0])
            return self.wrap(-a[0], -a[2], -a[1], w)
        if k == z3.Z3_OP_BMUL:
            e = self.bv(c[0])
            for x in c[1:]:
                y = self.bv(x)
                e = self.wrap(e[0] * y[0], e[1] * y[1], e[2] * y[2], w)
            return e
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            a, b = self.bv(c[0]), self.bv(c[1])
            q, r = self.divmod(a, b, w)[:2]
            return (q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r), 0, (1 << w) - 1
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            a, b = self.signed(self.bv(c[0]), w), self.signed(self.bv(c[1]), w)
            ab = lambda t: (z3.If(t[0] < 0, -t[0], t[0]), 0, 1 << (w - 1)) if t[1] < 0 else t
            aa, bb = ab(a), ab(b)
            q, r = self.divmod(aa, bb, w)[:2]
            sa = z3.BoolVal(False) if a[1] >= 0 else a[0] < 0
            sb = z3.BoolVal(False) if b[1] >= 0 else b[0] < 0
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                e = z3.If(b[0] == 0, z3.If(sa, 1, (1 << w) - 1), z3.If(z3.Xor(sa, sb), -q, q))
            else:
                e = z3.If(b[0] == 0, a[0], z3.If(sa, -r, r))
            return self.wrap(z3.simplify(e), -(1 << w), (1 << w) - 1, w)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bv(c[0])
        if k == z3.Z3_OP_SIGN_EXT:
            a = self.signed(self.bv(c[0]), c[0].size())
            return self.wrap(a[0], a[1], a[2], w)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            a = self.bv(c[0])
            if lo:
                q = self.divmod(a, (z3.IntVal(1 << lo), 1 << lo, 1 << lo), c[0].size())[0]
                a = (q, a[1] >> lo, a[2] >> lo)
            return self.wrap(a[0], a[1], a[2], hi - lo + 1)
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = self.bv(c[0])
            for x in c[1:]:
                a = self.bv(x)
                m = 1 << x.size()
                e, lo, hi = e * m + a[0], lo * m + a[1], hi * m + a[2]
            return e, lo, hi
        if k == z3.Z3_OP_BNOT:
            a = self.bv(c[0])
            m = (1 << w) - 1
            return m - a[0], m - a[2], m - a[1]
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(c[1]):
            s = c[1].as_long()
            if s < w:
                if k == z3.Z3_OP_BSHL:
                    a = self.bv(c[0])
                    return self.wrap(a[0] * (1 << s), a[1] << s, a[2] << s, w)
                if k == z3.Z3_OP_BLSHR:
                    a = self.bv(c[0])
                    return self.divmod(a, (z3.IntVal(1 << s), 1 << s, 1 << s), w)[0], a[1] >> s, a[2] >> s
                a = self.signed(self.bv(c[0]), w)
                q = self.fresh(a[1] >> s, a[2] >> s)
                r = self.fresh(0, (1 << s) - 1)
                self.side.append(a[0] == q * (1 << s) + r)
                return self.wrap(q, a[1] >> s, a[2] >> s, w)
        if k == z3.Z3_OP_BAND and len(c) == 2:
            for x, y in ((c[0], c[1]), (c[1], c[0])):
                if z3.is_bv_value(y) and (y.as_long() & (y.as_long() + 1)) == 0:
                    a = self.bv(x)
                    m = y.as_long() + 1
                    return self.wrap(a[0], a[1], a[2], m.bit_length() - 1) if m > 1 else (z3.IntVal(0), 0, 0)
        raise No('operation %s' % t.decl().name())

    def boolean(self, b):
        i = b.get_id()
        if i not in self.memo:
            self.memo[i] = (self._boolean(b), b)
        return self.memo[i][0]

    def _boolean(self, b):
        if z3.is_true(b) or z3.is_false(b):
            return b
        if not z3.is_app(b):
            raise No('formula')
        k = b.decl().kind()
        c = b.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            x = [self.boolean(a) for a in c]
            return {z3.Z3_OP_AND: lambda: z3.And(x), z3.Z3_OP_OR: lambda: z3.Or(x), z3.Z3_OP_NOT: lambda: z3.Not(x[0]),
                    z3.Z3_OP_IMPLIES: lambda: z3.Implies(x[0], x[1]), z3.Z3_OP_XOR: lambda: z3.Xor(x[0], x[1])}[k]()
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boolean(c[0]), self.boolean(c[1]), self.boolean(c[2]))
        if k == z3.Z3_OP_UNINTERPRETED and not c:
            return b
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(c) == 2:
            if z3.is_bool(c[0]):
                e = self.boolean(c[0]) == self.boolean(c[1])
            elif z3.is_bv(c[0]):
                e = self.bv(c[0])[0] == self.bv(c[1])[0]
            else:
                raise No('sort')
            return e if k == z3.Z3_OP_EQ else z3.Not(e)
        cmp = {z3.Z3_OP_ULT: (0, '<'), z3.Z3_OP_ULEQ: (0, '<='), z3.Z3_OP_UGT: (0, '>'), z3.Z3_OP_UGEQ: (0, '>='),
               z3.Z3_OP_SLT: (1, '<'), z3.Z3_OP_SLEQ: (1, '<='), z3.Z3_OP_SGT: (1, '>'), z3.Z3_OP_SGEQ: (1, '>=')}.get(k)
        if cmp:
            a, d = self.bv(c[0]), self.bv(c[1])
            if cmp[0]:
                a, d = self.signed(a, c[0].size()), self.signed(d, c[0].size())
            a, d = a[0], d[0]
            return {'<': a < d, '<=': a <= d, '>': a > d, '>=': a >= d}[cmp[1]]
        raise No('predicate %s' % b.decl().name())


def as_integers(conds, stats, timeout=4000):
    """'unsat', ('sat', values of the variables) checked against the bit-vector formula, or None"""
    tr = Trans()
    try:
        f = [tr.boolean(c) for c in conds]
    except No:
        return None
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*tr.side)
    s.add(*f)
    t = time.time()
    r = s.check()
    stats.solver_time += time.time() - t
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        fix = [x == z3.BitVecVal(m.eval(v, model_completion=True).as_long(), x.size()) for x, v in tr.vars.values()]
        g = z3.Solver()
        g.set('timeout', timeout)
        g.add(*conds)
        g.add(*fix)
        if g.check() == z3.sat:
            return 'sat', g.model()
    return None


DIVS = NONLIN - {z3.Z3_OP_BMUL}


def divides(conds):
    seen = set()
    todo = list(conds)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() in DIVS:
                return True
            todo += e.children()
    return False


def both(conds, stats):
    """the integer readings of a bit-vector query: ours first where it divides, cvc5's first otherwise"""
    if divides(conds):
        d = as_integers(conds, stats)
        if d is None and unsat(conds, stats):
            d = 'unsat', None
        return d
    if unsat(conds, stats):
        return 'unsat', None
    return as_integers(conds, stats)


def guess(f, stats, tries=300, budget=6.0):
    """candidate models with boundary values, each confirmed by evaluating the formula: a quick way to a counterexample on queries
    that are hard for the solver; finding none decides nothing"""
    vs = {}
    seen = set()
    todo = [f]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if len(seen) > 4000:
            return None
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.num_args() or not (z3.is_bv(e) or z3.is_bool(e)):
                    return None
                vs[e.decl().name()] = e
            todo += e.children()
        else:
            return None
    rnd = random.Random(1)
    xs = sorted(vs.values(), key=lambda v: v.decl().name())
    end = time.time() + budget
    for k in range(tries):
        sub = []
        for x in xs:
            if z3.is_bool(x):
                sub.append((x, z3.BoolVal(rnd.random() < .5)))
                continue
            w = x.size()
            c = rnd.randrange(6)
            e = rnd.randrange(w + 1)
            v = {0: rnd.getrandbits(w), 1: (1 << e) - 1, 2: (1 << e) + rnd.randrange(-3, 4), 3: rnd.randrange(0, 12), 4: -rnd.randrange(1, 12),
                 5: rnd.getrandbits(max(e, 1))}[c]
            sub.append((x, z3.BitVecVal(v % (1 << w), w)))
        if z3.is_true(z3.simplify(z3.substitute(f, *sub))):
            s = z3.Solver()
            s.add(f, *[x == v for x, v in sub])
            stats.queries += 1
            if s.check() == z3.sat:
                stats.sat += 1
                return s.model()
        if time.time() > end:
            break
    return None
