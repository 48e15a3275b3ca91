"""Symbolic executor over the decoded IR (memory model, calls, path merging/forking)."""
import ctypes
import math
import os
import sys
import time
import z3
import llvmc as L
import ir
import rt
import intsolve
from rt import UNDEF, Unsupported, Trap, Poly, Pack, FBits

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
_libm = ctypes.CDLL('libm.so.6')


class Thrown(Exception):
    def __init__(self, obj, tinfo):
        self.obj = obj
        self.tinfo = tinfo


class EndPath(Exception):
    """the harness asked to stop at the first large allocation"""


class Dead(Exception):
    """the current path ended (trap reported, infeasible, assumption false)"""


class Fork(Exception):
    """restart requested: branch must be explored by forking"""


class Obj:
    __slots__ = ('base', 'size', 'cells', 'live', 'kind', 'name', 'ro', 'id')

    def __init__(self, oid, base, size, kind, name=''):
        self.id = oid
        self.base = base
        self.size = size
        self.cells = {}
        self.live = True
        self.kind = kind
        self.name = name
        self.ro = False


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.solver_time = 0.0
        self.insts = 0
        self.paths = 0
        self.functions = set()
        self.merges = 0
        self.cached = 0

    def add(self, o):
        for k in ('queries', 'unsat', 'sat', 'solver_time', 'insts', 'paths', 'merges', 'cached'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.functions |= o.functions


class Error:
    """A reachable run-time error (out-of-bounds, trap, assert...) with a model."""

    def __init__(self, kind, msg, model, cond):
        self.kind = kind
        self.msg = msg
        self.model = model
        self.cond = cond

    def __repr__(self):
        return '%s: %s' % (self.kind, self.msg)


class Executor:
    Thrown = Thrown

    def __init__(self, module, stats=None, fma=True, query_timeout=60000):
        self.m = module
        self.fma = fma
        self.stats = stats or Stats()
        self.ninst = 0
        self.contracts = {}
        self.errors = []
        self.query_timeout = query_timeout
        # a run that takes longer than any of the harnesses is a candidate for non-termination, which the replay confirms or not
        self.max_insts = 500_000_000 if os.environ.get('VERIF_DEPTH') == 'thorough' else 120_000_000
        self.max_wall = 1500 if os.environ.get('VERIF_DEPTH') == 'thorough' else 300
        self.axioms = []
        self.syms = {}
        self.fresh_n = 0
        self.forking = False
        self.worklist = []
        self.decisions = []
        self.reset()

    # ------------------------------------------------------------- lifecycle
    def reset(self):
        self.objs = {}
        self.next_id = 0x100000
        self.pc = []
        self.J = None
        self.depth = 0
        self.exc = None
        self.retval = None
        self.typeids = {}
        self.dpos = 0
        self.stack_objs = None
        self.guards = set()
        self.region = 0

    def buffer(self, size, align=8, name='', kind='user'):
        oid = self.next_id
        self.next_id += 1
        base = (oid << 24) + 4096 + align
        o = Obj(oid, base, size, kind, name)
        self.objs[oid] = o
        return o

    def fill(self, o, kind, vals, off=0):
        n = kind & 31
        for v in vals:
            o.cells[off] = (kind, v)
            off += n

    def read(self, o, kind, count, off=0):
        n = kind & 31
        return [self.load(o.base + off + i * n, kind) for i in range(count)]

    def run(self, name, args):
        """Run one path to completion. Returns True when the path completed normally."""
        ref = self.m.names[name]
        self.stats.paths += 1
        n0 = self.ninst
        self.inst_end, self.wall_end = n0 + self.max_insts, time.time() + self.max_wall
        try:
            self.call(ref, tuple(args))
            return True
        except EndPath:
            return True
        except Dead:
            return False
        except Trap as t:
            self.report(t.kind, t.msg)
            return False
        except Thrown as t:
            self.report('exception', 'uncaught exception')
            return False
        finally:
            self.stats.insts += self.ninst - n0

    # ------------------------------------------------------------- solver
    def check(self, *extra, timeout=None, local=False):
        s = z3.Solver()
        s.set('timeout', int(timeout or self.query_timeout))
        facts = self.cone(extra) if local else [*self.axioms, *self.pc]
        q = [*facts, *extra]
        s.add(*q)
        t = time.time()
        r = z3.unknown
        if not self.axioms and intsolve.wants(q):
            s.set('timeout', 1500)
            r = s.check()
            if r == z3.unknown:
                d = intsolve.both(q, self.stats)
                if d is not None and d[0] == 'sat':
                    self.model = d[1]
                    return z3.sat
                if d is not None:
                    return z3.unsat
            s.set('timeout', int(timeout or self.query_timeout))
        if r == z3.unknown:
            r = s.check()
        self.stats.solver_time += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            self.model = s.model()
        elif r == z3.unsat:
            self.stats.unsat += 1
        return r

    def names(self, e):
        """the free symbols of a term"""
        i = e.get_id()
        got = self.syms.get(i)
        if got is None:
            out, seen, todo = set(), set(), [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    todo += x.children()
                else:
                    out.add('?')
            got = self.syms[i] = (e, frozenset(out))
        return got[1]

    def cone(self, terms):
        """the facts of this path that share symbols with the terms, directly or through one another. Leaving the others out can
        only add behaviours (paths, addresses); a failure on one of those is still reported against all facts"""
        facts = [(c, self.names(c)) for c in [*self.axioms, *self.pc]]
        want = set().union(*[self.names(t) for t in terms])
        out = []
        while True:
            more = [f for f in facts if f[1] & want or not f[1]]
            if not more:
                return out
            facts = [f for f in facts if not (f[1] & want or not f[1])]
            for c, n in more:
                out.append(c)
                want |= n

    def report(self, kind, msg):
        model = None
        if self.pc:
            r = self.check()
            if r == z3.unsat:
                return
            if r != z3.sat:
                raise Unsupported('inconclusive feasibility of error path: %s %s' % (kind, msg))
            model = self.model
        self.errors.append(Error(kind, msg, model, list(self.pc)))

    def fail(self, kind, msg):
        raise Trap(kind, msg)

    alloc_ends = False      # a path ends at the first allocation of more than a megabyte

    def assume(self, c):
        c = rt.simp(c)
        if type(c) is int:
            if not c:
                raise Dead()
            return
        self.pc.append(c)

    def fresh(self, name, w):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    # ------------------------------------------------------------- memory
    def obj_of(self, addr):
        oid = addr >> 24
        o = self.objs.get(oid)
        if o is None:
            gv = self.m.gv_at.get(oid)
            if gv is not None:
                return self.materialise(oid, gv)
            if addr < 65536:
                self.fail('null-dereference', 'access through null pointer (address %d)' % addr)
            self.fail('out-of-bounds', 'access to unmapped address %#x' % addr)
        return o

    def materialise(self, oid, gv):
        tref = L.GlobalValueType(gv)
        o = Obj(oid, (oid << 24) + 4096, self.m.size(tref), 'global', L.name(gv))
        self.objs[oid] = o
        init = None if L.IsDeclaration(gv) else L.GetInitializer(gv)
        if init:
            J, self.J = self.J, None
            self.store_ty(o.base, self.m.ty(tref), self.m.const(init))
            self.J = J
        o.ro = bool(L.IsGlobalConstant(gv))
        return o

    def _bounds(self, o, off, n, what):
        if not o.live:
            self.fail('use-after-free', '%s of %d bytes in freed %s %s' % (what, n, o.kind, o.name))
        if off < 0 or off + n > o.size:
            self.fail('out-of-bounds', '%s of %d bytes at offset %d of %s %s (size %d)' % (
                what, n, off, o.kind, o.name, o.size))

    def load(self, addr, kind):
        if type(addr) is not int:
            return self.load_sym(addr, kind)
        o = self.objs.get(addr >> 24)
        if o is None:
            o = self.obj_of(addr)
        off = addr - o.base
        c = o.cells.get(off)
        if c is not None and c[0] == kind:
            return c[1]
        return self.load_slow(o, off, kind)

    def load_slow(self, o, off, kind):
        n = kind & 31
        self._bounds(o, off, n, 'load')
        cells = o.cells
        c = cells.get(off)
        if c is not None and (c[0] & 31) == n:
            if kind & 32:
                return rt.i2f_bits(c[1], n * 8)
            return rt.f2i_bits(c[1], n * 8)
        v = self.load_int(o, off, n)
        if kind & 32:
            return rt.i2f_bits(v, n * 8)
        return v

    def load_int(self, o, off, n):
        cells = o.cells
        pieces = []
        pos = off
        end = off + n
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                cn = c[0] & 31
                v = c[1]
                if c[0] & 32:
                    v = rt.f2i_bits(v, cn * 8)
                if pos + cn <= end:
                    pieces.append((cn, v))
                    pos += cn
                else:
                    pieces.append((end - pos, rt.pack_slice(v, cn, 0, end - pos)))
                    pos = end
                continue
            # inside a wider cell?
            for back in range(1, 16):
                c = cells.get(pos - back)
                if c is not None:
                    cn = c[0] & 31
                    if cn > back:
                        v = c[1]
                        if c[0] & 32:
                            v = rt.f2i_bits(v, cn * 8)
                        k = min(cn - back, end - pos)
                        pieces.append((k, rt.pack_slice(v, cn, back, k)))
                        pos += k
                    else:
                        c = None
                    break
            if c is None:
                pieces.append((1, UNDEF))
                pos += 1
        flat = []
        for k, v in pieces:
            if type(v) is Pack:
                flat += v.pieces
            elif flat and v is UNDEF and flat[-1][1] is UNDEF:
                flat[-1] = (flat[-1][0] + k, UNDEF)
            else:
                flat.append((k, v))
        r = rt.mk_pack(flat)
        if isinstance(r, z3.BitVecRef):
            r = rt.simp(r)
        return r

    def store(self, addr, kind, v):
        if type(addr) is not int:
            return self.store_sym(addr, kind, v)
        o = self.objs.get(addr >> 24)
        if o is None:
            o = self.obj_of(addr)
        off = addr - o.base
        cells = o.cells
        c = cells.get(off)
        if c is not None and (c[0] & 31) == (kind & 31) and not o.ro and type(v) is not Pack:
            if self.J is not None:
                self.J.append((o, off, c))
            if type(v) is FBits:
                cells[off] = (kind | 32, v.v)
            else:
                cells[off] = (kind, v)
            return
        self.store_slow(o, off, kind, v)

    def store_slow(self, o, off, kind, v):
        n = kind & 31
        self._bounds(o, off, n, 'store')
        if o.ro:
            self.fail('write-to-constant', 'store to constant %s' % o.name)
        if type(v) is Pack:
            pos = off
            for k, pv in v.pieces:
                if type(pv) is FBits:
                    self.store_slow(o, pos, 32 + k, pv.v)
                elif k in (1, 2, 4, 8, 16) or k < 16:
                    self.store_slow(o, pos, k, pv)
                else:
                    raise Unsupported('store of packed piece')
                pos += k
            return
        if type(v) is FBits:
            kind, v = kind | 32, v.v
        cells = o.cells
        J = self.J
        for p in range(off - 15, off + n):
            c = cells.get(p)
            if c is None:
                continue
            cn = c[0] & 31
            if p + cn <= off:
                continue
            if J is not None:
                J.append((o, p, c))
            del cells[p]
            if p < off or p + cn > off + n:
                # keep the parts outside the store
                cv = rt.f2i_bits(c[1], cn * 8) if c[0] & 32 else c[1]
                if p < off:
                    for q in range(p, off):
                        if J is not None:
                            J.append((o, q, cells.get(q)))
                        cells[q] = (1, rt.pack_slice(cv, cn, q - p, 1))
                if p + cn > off + n:
                    for q in range(off + n, p + cn):
                        if J is not None:
                            J.append((o, q, cells.get(q)))
                        cells[q] = (1, rt.pack_slice(cv, cn, q - p, 1))
        if J is not None:
            J.append((o, off, cells.get(off)))
        cells[off] = (kind, v)

    def _kind(self, ty):
        k = ty[0]
        if k == 'i':
            return (ty[1] + 7) // 8
        if k == 'ptr':
            return 8
        return 32 + ty[1] // 8

    def load_ty(self, addr, ty):
        k = ty[0]
        if k == 'vec':
            eb = rt.ty_bits(ty[2])
            if eb % 8:
                v = self.load(addr, (ty[1] * eb + 7) // 8)
                return rt.from_int(v, ty)
            kd = self._kind(ty[2])
            n = eb // 8
            return tuple([self.load(self.ptradd(addr, i * n) if i else addr, kd) for i in range(ty[1])])
        if k == 'st':
            return tuple([self.load_ty(self.ptradd(addr, o), t) for t, o in zip(ty[1], ty[2])])
        if k == 'arr':
            return tuple([self.load_ty(self.ptradd(addr, i * ty[3]), ty[2]) for i in range(ty[1])])
        if k == 'i' and ty[1] % 8:
            v = self.load(addr, (ty[1] + 7) // 8)
            return rt.trunc(v, 8 * ((ty[1] + 7) // 8), ty[1])
        return self.load(addr, self._kind(ty))

    def store_ty(self, addr, ty, v):
        k = ty[0]
        if k == 'vec':
            eb = rt.ty_bits(ty[2])
            if eb % 8:
                self.store(addr, (ty[1] * eb + 7) // 8, rt.to_int(v, ty))
                return
            kd = self._kind(ty[2])
            n = eb // 8
            for i, x in enumerate(v):
                self.store(self.ptradd(addr, i * n) if i else addr, kd, x)
        elif k == 'st':
            for x, t, o in zip(v, ty[1], ty[2]):
                self.store_ty(self.ptradd(addr, o), t, x)
        elif k == 'arr':
            for i, x in enumerate(v):
                self.store_ty(self.ptradd(addr, i * ty[3]), ty[2], x)
        elif k == 'i' and ty[1] % 8:
            nb = (ty[1] + 7) // 8
            self.store(addr, nb, rt.zext(v, ty[1], nb * 8) if v is not UNDEF else UNDEF)
        elif k == 'void':
            pass
        else:
            self.store(addr, self._kind(ty), v)

    def ptradd(self, p, k):
        if type(p) is int:
            return (p + k) & M64
        if p is UNDEF:
            return UNDEF
        return rt.simp(p + k)

    def gep(self, p, coff, parts):
        if p is UNDEF:
            return UNDEF
        r = p
        for x, w, sz in parts:
            if x is UNDEF:
                return UNDEF
            x = rt.sext(x, w, 64) if w < 64 else x
            if type(x) is int and type(r) is int:
                r = (r + x * sz) & M64
            else:
                r = rt.bv(r, 64) + rt.bv(x, 64) * sz
        return self.ptradd(r, coff)

    def addresses(self, addr):
        """all feasible concrete values of a symbolic address"""
        addr = rt.simp(addr)
        if type(addr) is int:
            return [addr]
        out = []
        s = z3.Solver()
        s.set('timeout', self.query_timeout)
        s.add(*self.cone([addr]))
        while True:
            t = time.time()
            r = s.check()
            self.stats.solver_time += time.time() - t
            self.stats.queries += 1
            if r == z3.unsat:
                return out
            if r != z3.sat:
                raise Unsupported('symbolic address enumeration inconclusive')
            a = s.model().eval(addr, model_completion=True).as_long()
            out.append(a)
            if len(out) > 600:
                raise Unsupported('symbolic address with too many values')
            s.add(addr != a)

    def concretize(self, v, what):
        """the concrete value of v; in forking mode one path per feasible value"""
        a = sorted(self.addresses(v))
        if len(a) == 1:
            if self.forking and z3.is_bv(v):
                self.pc.append(v == a[0])
            return a[0]
        if self.forking:
            for x in a:
                if self.decide(v == x):
                    return x
        raise Unsupported('symbolic ' + what)

    def _sym_access(self, addr, n, what):
        ok = []
        for a in self.addresses(addr):
            try:
                o = self.obj_of(a)
                self._bounds(o, a - o.base, n, what)
                ok.append(a)
            except Trap as t:
                self.pc.append(addr == a)
                self.report(t.kind, t.msg)
                self.pc.pop()
        if not ok:
            raise Dead()
        return ok

    def load_sym(self, addr, kind):
        if addr is UNDEF:
            self.fail('undefined-pointer', 'load through uninitialised pointer')
        n = kind & 31
        ok = self._sym_access(addr, n, 'load')
        ty = ('f', 8 * n) if kind & 32 else ('i', 8 * n)
        v = self.load(ok[-1], kind)
        for a in reversed(ok[:-1]):
            v = rt.ite(addr == a, self.load(a, kind), v, ty)
        return v

    def store_sym(self, addr, kind, v):
        if addr is UNDEF:
            self.fail('undefined-pointer', 'store through uninitialised pointer')
        n = kind & 31
        ok = self._sym_access(addr, n, 'store')
        if len(ok) == 1:
            return self.store(ok[0], kind, v)
        ty = ('f', 8 * n) if kind & 32 else ('i', 8 * n)
        for a in ok:
            self.store(a, kind, rt.ite(addr == a, v, self.load(a, kind), ty))

    def misaligned(self, p, al):
        self.fail('misaligned', 'access at address %% %d == %d requires alignment %d' % (al, p % al, al))

    def alloca(self, size, align):
        oid = self.next_id
        self.next_id += 1
        base = (oid << 24) + 4096
        o = Obj(oid, base, size, 'stack')
        self.objs[oid] = o
        if self.stack_objs is not None:
            self.stack_objs.append(oid)
        return base

    def malloc(self, size, kind='heap', align=16):
        if self.alloc_ends:
            if type(size) is int and size > (1 << 20):
                raise EndPath()
            if type(size) is not int and self.decide(z3.UGT(size, 1 << 20)):
                raise EndPath()
        if type(size) is not int:
            size = self.concretize(size, 'allocation size')
        if size > (1 << 44):
            self.fail('allocation', 'request for %d bytes' % size)
        if size > (1 << 23):
            raise Unsupported('huge allocation %d' % size)
        oid = self.next_id
        self.next_id += 1
        # only the guaranteed alignment: 16 mod 32
        base = (oid << 24) + 4096 + (16 if align <= 16 else 0)
        self.objs[oid] = Obj(oid, base, size, kind)
        return base

    def free(self, p):
        if type(p) is not int:
            raise Unsupported('free of symbolic pointer')
        if p == 0:
            return
        o = self.obj_of(p)
        if o.base != p or o.kind != 'heap':
            self.fail('bad-free', 'free of non-heap or interior pointer')
        if not o.live:
            self.fail('double-free', 'double free')
        if self.J is not None:
            for k, c in o.cells.items():
                self.J.append((o, k, c))
            self.J.append((o, None, True))
        o.live = False
        o.cells = {} if self.J is None else o.cells
        if self.J is not None:
            o.cells.clear()

    # ------------------------------------------------------------- calls
    def call(self, ref, args):
        f = self.m.fns.get(ref)
        if f is None:
            ov = self.overrides.get(ref) if self.overrides else None
            f = self.m.fn(ref)
        self.stats.functions.add(f.name)
        self.depth += 1
        if self.depth > 400:
            raise Unsupported('call depth')
        saved = self.stack_objs
        self.stack_objs = []
        R = [None] * f.nslots
        for s, a in zip(f.args, args):
            R[s] = a
        try:
            self.exec_from(f, R, 0, ir.RET)
            return self.retval
        finally:
            self.depth -= 1
            for oid in self.stack_objs:
                o = self.objs[oid]
                if self.J is None:
                    o.live = False
                    o.cells = {}
            self.stack_objs = saved

    overrides = None

    def exec_from(self, f, R, b, stop):
        """Execute from block b until block `stop` (or function exit). Returns the block reached."""
        blocks = f.blocks
        while b != stop and b >= 0:
            b = blocks[b](R, self)
            if self.ninst > self.inst_end or time.time() > self.wall_end:
                self.fail('nontermination', 'still running after %d instructions' % (self.ninst - self.inst_end + self.max_insts))
        return b

    def call_indirect(self, p, args):
        if type(p) is not int or p not in self.m.fn_at:
            self.fail('bad-call', 'call through invalid function pointer')
        ref = self.m.fn_at[p]
        if L.IsDeclaration(ref):
            raise Unsupported('indirect call to external %s' % L.name(ref))
        return self.call(ref, args)

    def inline_asm(self, t):
        if 'memory' in t or '""' in t:
            return None
        raise Unsupported('inline asm %s' % t)

    # ------------------------------------------------------- symbolic control flow
    def feasible(self, c):
        r = self.check(c, timeout=min(self.query_timeout, 20000), local=True)
        return r != z3.unsat

    def symbr(self, f, R, bb, c, t, e):
        if c is UNDEF:
            self.fail('undefined-branch', 'branch on uninitialised value')
        c = rt.simp(c)
        if type(c) is int:
            return self.take(f, R, bb, t if c else e)
        nc = z3.Not(c)
        if self.forking:
            return self.take(f, R, bb, t if self.decide(c) else e)
        ft = self.feasible(c)
        if not ft:
            return self.take(f, R, bb, e)
        fe = self.feasible(nc)
        if not fe:
            return self.take(f, R, bb, t)
        return self.merge(f, R, bb, [(c, t), (nc, e)])

    def take(self, f, R, bb, s):
        ed = f.edges[(bb, s)]
        if ed:
            ed(R)
        return s

    def decide(self, c):
        """forking mode: pick a branch, remember the alternative"""
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            ft, fe = self.feasible(c), self.feasible(z3.Not(c))
            if not ft and not fe:
                raise Dead()
            d = ft
            if ft and fe:
                self.worklist.append(self.decisions[:self.dpos] + [False])
            self.decisions = self.decisions[:self.dpos] + [d]
        self.dpos += 1
        self.pc.append(c if d else z3.Not(c))
        return d

    def symswitch(self, f, R, bb, c, w, cases, dflt):
        if c is UNDEF:
            self.fail('undefined-branch', 'switch on uninitialised value')
        c = rt.simp(c)
        if type(c) is int:
            for v, b in cases:
                if v == c:
                    return self.take(f, R, bb, b)
            return self.take(f, R, bb, dflt)
        c = rt.bv(c, w)
        by = {}
        for v, b in cases:
            by.setdefault(b, []).append(c == rt.bv(v, w))
        arms = [(z3.Or(*cs) if len(cs) > 1 else cs[0], b) for b, cs in by.items()]
        none = z3.Not(z3.Or(*[x for x, _ in arms])) if arms else z3.BoolVal(True)
        arms.append((none, dflt))
        if self.forking:
            for cnd, b in arms[:-1]:
                if self.decide(cnd):
                    return self.take(f, R, bb, b)
            return self.take(f, R, bb, dflt)
        arms = [(x, b) for x, b in arms if self.feasible(x)]
        if not arms:
            raise Dead()
        if len(arms) == 1:
            return self.take(f, R, bb, arms[0][1])
        return self.merge(f, R, bb, arms)

    def merge(self, f, R, bb, arms):
        """run every arm up to the immediate postdominator and merge the states"""
        self.stats.merges += 1
        if f.ipdom is None:
            f.ipdom = ir.compute_ipdom(f)
        P = f.ipdom[bb]
        outer = self.J
        self.region += 1
        if self.region > 200:
            raise Unsupported('branch nesting too deep')
        results = []
        for c, s in arms:
            RA = list(R)
            npc = len(self.pc)
            self.pc.append(c)
            self.J = []
            ok = True
            ret = None
            try:
                self.take(f, RA, bb, s)
                b = self.exec_from(f, RA, s, P)
                ret = self.retval if b == ir.RET else None
                if b != P:
                    # returned although the merge point is inside the function
                    raise Unsupported('path left the merge region')
            except Dead:
                ok = False
            except Trap as t:
                self.report(t.kind, t.msg)
                ok = False
            except Thrown as t:
                raise Unsupported('exception under a symbolic condition')
            W = {}
            for o, off, old in self.J:
                if off is None:
                    raise Unsupported('free under a symbolic condition')
                W[(o, off)] = o.cells.get(off)
            for o, off, old in reversed(self.J):
                if old is None:
                    o.cells.pop(off, None)
                else:
                    o.cells[off] = old
            extra = self.pc[npc + 1:]
            del self.pc[npc:]
            if ok:
                results.append((c, RA, W, ret, extra))
        self.J = outer
        self.region -= 1
        if not results:
            raise Dead()
        dead = len(results) < len(arms)
        if dead:
            self.pc.append(results[0][0] if len(results) == 1 else z3.Or(*[r[0] for r in results]))
        for c, _, _, _, extra in results:
            for x in extra:
                self.pc.append(z3.Implies(c, x) if len(results) > 1 else x)
        # merge from last to first
        c, RA, W, ret, _ = results[-1]
        RM, WM = list(RA), dict(W)
        st = f.slot_ty
        for c, RA, W, ret2, _ in reversed(results[:-1]):
            for i in range(len(RM)):
                a, b = RA[i], RM[i]
                if a is not b:
                    if a is None:
                        continue
                    if b is None:
                        RM[i] = a
                        continue
                    if type(a) is int and type(b) is int and a == b:
                        continue
                    try:
                        RM[i] = rt.ite(c, a, b, st[i])
                    except Unsupported as ex:
                        RM[i] = _Bad(str(ex))
            keys = set(W) | set(WM)
            for k in keys:
                o, off = k
                cur = o.cells.get(off)
                a = W.get(k, cur) if k in W else cur
                b = WM.get(k, cur) if k in WM else cur
                if (a is None) != (b is None):
                    if cur is not None or self._overlaps(o, off, a or b, W, WM):
                        raise Unsupported('memory layout differs between merged paths')
                WM[k] = self.merge_cell(c, a, b)
            if P == ir.RET:
                if ret2 is not None or ret is not None:
                    ret = self.merge_ret(c, ret2, ret, f)
        for (o, off), v in WM.items():
            if self.J is not None:
                self.J.append((o, off, o.cells.get(off)))
            if v is None:
                o.cells.pop(off, None)
            else:
                o.cells[off] = v
        R[:] = RM
        if P == ir.RET:
            self.retval = ret
        return P

    def _overlaps(self, o, off, cell, W, WM):
        n = cell[0] & 31
        for p in range(off - 15, off + n):
            if p == off:
                continue
            for d in (W.get((o, p)), WM.get((o, p)), o.cells.get(p)):
                if d is not None and p + (d[0] & 31) > off:
                    return True
        return False

    def merge_cell(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            # cell layout differs between the arms
            x = a or b
            if x is None:
                return None
            if a is None:
                return b
            return a
        if a[0] != b[0]:
            if (a[0] & 31) != (b[0] & 31):
                raise Unsupported('merge of differently sized cells')
            n = a[0] & 31
            av = rt.f2i_bits(a[1], 8 * n) if a[0] & 32 else a[1]
            bv = rt.f2i_bits(b[1], 8 * n) if b[0] & 32 else b[1]
            return (n, rt.ite(c, av, bv, ('i', 8 * n)))
        n = a[0] & 31
        return (a[0], rt.ite(c, a[1], b[1], ('f', 8 * n) if a[0] & 32 else ('i', 8 * n)))

    def merge_ret(self, c, a, b, f):
        if a is b:
            return a
        ty = f.retty
        if ty is None:
            ft = L.GlobalValueType(f.ref)
            ty = f.retty = self.m.ty(L.ReturnType(ft))
        return rt.ite(c, a, b, ty)

    def select(self, c, a, b, ty):
        if self.forking and c is not UNDEF and not isinstance(c, tuple):
            c = rt.simp(c)
            if type(c) is int:
                return a if c else b
            try:
                return rt.ite(c, a, b, ty)
            except Unsupported:
                return a if self.decide(c) else b
        return rt.select(c, a, b, ty)

    def check_div(self, b, w):
        if b is UNDEF:
            self.fail('undefined', 'division by uninitialised value')
        if type(b) is tuple:
            return
        z = b == rt.bv(0, w)
        if self.check(z, local=True) != z3.unsat:
            self.pc.append(z)
            self.report('div0', 'division by zero')
            self.pc.pop()
            self.assume(z3.Not(z))

    # ------------------------------------------------------------- misc instructions
    def extractelement(self, v, i, ty):
        if type(i) is int:
            return v[i]
        r = v[-1]
        for k in range(len(v) - 2, -1, -1):
            r = rt.ite(i == k, v[k], r, ty[2])
        return r

    def insertelement(self, v, x, i, ty):
        if type(i) is int:
            return v[:i] + (x,) + v[i + 1:]
        return tuple([rt.ite(i == k, x, v[k], ty[2]) for k in range(len(v))])

    def insertvalue(self, agg, v, idx):
        i = idx[0]
        if len(idx) == 1:
            return agg[:i] + (v,) + agg[i + 1:]
        return agg[:i] + (self.insertvalue(agg[i], v, idx[1:]),) + agg[i + 1:]

    def freeze(self, v, ty):
        if v is UNDEF:
            return 0.0 if ty[0] == 'f' else 0
        if type(v) is tuple:
            et = ty[2] if ty[0] in ('vec', 'arr') else None
            return tuple([self.freeze(x, et or t) for x, t in zip(v, ty[1] if ty[0] == 'st' else v)])
        return v

    def atomicrmw(self, op, p, v, ty):
        old = self.load_ty(p, ty)
        w = ty[1] if ty[0] == 'i' else 64
        if op == 0:
            n = v
        elif op == 1:
            n = rt.int_binop(8, old, v, w)
        elif op == 2:
            n = rt.int_binop(10, old, v, w)
        else:
            raise Unsupported('atomicrmw %d' % op)
        self.store_ty(p, ty, n)
        return old

    def cmpxchg(self, p, e, n, ty):
        old = self.load_ty(p, ty)
        c = rt.icmp(32, old, e, ty[1] if ty[0] == 'i' else 64)
        if type(c) is not int:
            raise Unsupported('symbolic cmpxchg')
        if c:
            self.store_ty(p, ty, n)
        return (old, c)

    def typeid(self, a):
        if a not in self.typeids:
            self.typeids[a] = len(self.typeids) + 1
        return self.typeids[a]

    def landingpad(self, clauses, cleanup):
        ex = self.exc
        sel = 0
        for c in clauses:
            if c == 0:
                sel = self.typeid(0)
                break
            if c != 'filter' and self.catches(c, ex.tinfo):
                sel = self.typeid(c)
                break
        else:
            if not cleanup:
                raise ex
        return (ex.obj, sel)

    def catches(self, clause, tinfo):
        if clause == tinfo:
            return True
        gv = self.m.gv_at.get(clause >> 24)
        n = L.name(gv) if gv else ''
        return n in ('_ZTISt9exception',)

    def resume(self, v):
        raise self.exc

    def extern(self, name, args, ty, atys):
        import stubs
        return stubs.dispatch(self, name, args, ty, atys)


class _Bad:
    """a register that could not be merged; using it is unsupported"""

    def __init__(self, why):
        self.why = why
