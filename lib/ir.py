"""Decode LLVM bitcode functions and compile them to Python block functions.

Every function of the module that a harness reaches is decoded from the bitcode that
clang just produced from /repo.  A basic block becomes one Python function
`b(R, E) -> next block` working on the register file R and the executor E.
"""
import ctypes
import math
import re
import llvmc as L
import rt
from rt import UNDEF, Unsupported

RET = -1
MASK64 = (1 << 64) - 1


class Fn:
    __slots__ = ('name', 'ref', 'nslots', 'slot_ty', 'args', 'blocks', 'edges', 'preds', 'succs', 'ipdom', 'ninst',
                 'retty', 'bbnames', 'isret', 'module', 'phis', 'allocas')


class Module:
    def __init__(self, path):
        self.path = path
        self.ref = L.load(path)
        self.dl = L.GetModuleDataLayout(self.ref)
        self._ty = {}
        self.fns = {}
        self.addr_of = {}        # value ptr -> address
        self.fn_at = {}          # address -> function value ptr
        self.gv_at = {}          # object id -> global value ptr
        self.next_gid = 0x1000
        self._const = {}
        self.names = {}
        f = L.FirstFunction(self.ref)
        while f:
            self.names[L.name(f)] = f
            f = L.NextFunction(f)

    # ---------------------------------------------------------------- types
    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            r = self._ty[t] = self._mkty(t)
        return r

    def _mkty(self, t):
        k = L.TypeKind(t)
        if k == 0:
            return ('void',)
        if k == 1:
            return ('f', 16)
        if k == 2:
            return ('f', 32)
        if k == 3:
            return ('f', 64)
        if k == 8:
            return ('i', L.IntWidth(t))
        if k == 10:
            n = L.CountStruct(t)
            el = tuple(self.ty(L.StructType(t, i)) for i in range(n))
            offs = tuple(L.OffsetOf(self.dl, t, i) for i in range(n))
            return ('st', el, offs, L.ABISize(self.dl, t))
        if k == 11:
            e = L.ElementType(t)
            return ('arr', L.ArrayLength(t), self.ty(e), L.ABISize(self.dl, e))
        if k == 12:
            return ('ptr',)
        if k == 13:
            return ('vec', L.VectorSize(t), self.ty(L.ElementType(t)))
        if k == 9:
            return ('fn',)
        if k == 4:
            return ('f', 80)
        return ('other', k)

    def size(self, t):
        return L.ABISize(self.dl, t)

    # ------------------------------------------------------------- constants
    def global_addr(self, v):
        a = self.addr_of.get(v)
        if a is None:
            gid = self.next_gid
            self.next_gid += 1
            k = L.ValueKind(v)
            if k == 5:      # function
                a = gid << 24
                self.fn_at[a] = v
            elif k == 8:
                al = max(L.GetAlignment(v), 1)
                a = (gid << 24) + 4096 + (al % 4096 if al < 4096 else 0)
                a = (gid << 24) + 4096
                self.gv_at[gid] = v
            elif k == 6:    # alias
                a = self.const(L.AliasGetAliasee(v))
            else:
                raise Unsupported('global kind %d' % k)
            self.addr_of[v] = a
        return a

    def const(self, v):
        """Python value of an LLVM constant"""
        r = self._const.get(v)
        if r is None:
            r = self._const[v] = self._mkconst(v)
        return r

    def zero(self, ty):
        k = ty[0]
        if k in ('i', 'ptr'):
            return 0
        if k == 'f':
            return 0.0
        if k == 'vec' or k == 'arr':
            return (self.zero(ty[2]),) * ty[1]
        if k == 'st':
            return tuple(self.zero(t) for t in ty[1])
        raise Unsupported('zero of %r' % (ty,))

    def undef(self, ty):
        k = ty[0]
        if k == 'vec' or k == 'arr':
            return (self.undef(ty[2]),) * ty[1]
        if k == 'st':
            return tuple(self.undef(t) for t in ty[1])
        return UNDEF

    def _mkconst(self, v):
        k = L.ValueKind(v)
        if k in (5, 6, 8):
            return self.global_addr(v)
        ty = self.ty(L.TypeOf(v))
        if k == 18:
            w = ty[1]
            if w <= 64:
                return L.ConstZExt(v) & ((1 << w) - 1)
            m = re.match(r'i\d+ (-?\d+)', L.text(v))
            return int(m.group(1)) & ((1 << w) - 1)
        if k == 19:
            li = ctypes.c_int()
            if ty[1] == 80:
                raise Unsupported('x86_fp80 constant')
            return L.ConstDouble(v, ctypes.byref(li))
        if k == 20 or k == 15:
            return self.zero(ty)
        if k == 14 or k == 25:
            return self.undef(ty)
        if k in (11, 12, 13, 16, 17):
            n = len(ty[1]) if ty[0] == 'st' else ty[1]
            return tuple(self.const(L.AggElt(v, i)) for i in range(n))
        if k == 10:
            op = L.ConstOpcode(v)
            ops = [L.Operand(v, i) for i in range(L.NumOperands(v))]
            if op == 29:
                base = self.const(ops[0])
                return (base + self.gep_const(self.ty(L.GEPSrcType(v)), L.GEPSrcType(v),
                                              [self.const(o) for o in ops[1:]],
                                              [self.ty(L.TypeOf(o)) for o in ops[1:]])) & MASK64
            if op in (39, 40, 41, 60):
                return self.const(ops[0])
            if op in rt.INTOPS:
                return rt.int_binop(op, self.const(ops[0]), self.const(ops[1]), ty[1])
            if op == 30:
                return rt.trunc(self.const(ops[0]), self.ty(L.TypeOf(ops[0]))[1], ty[1])
            raise Unsupported('constant expression opcode %d' % op)
        raise Unsupported('constant kind %d: %s' % (k, L.text(v)[:80]))

    def gep_const(self, ty, tref, idx, ity):
        off = rt.sgn(idx[0], ity[0][1]) * self.size(tref)
        for i, it in zip(idx[1:], ity[1:]):
            if ty[0] == 'st':
                off += ty[2][i]
                ty = ty[1][i]
            elif ty[0] == 'arr':
                off += rt.sgn(i, it[1]) * ty[3]
                ty = ty[2]
            elif ty[0] == 'vec':
                off += rt.sgn(i, it[1]) * (rt.ty_bits(ty[2]) // 8)
                ty = ty[2]
            else:
                raise Unsupported('gep')
        return off

    # -------------------------------------------------------------- functions
    def fn(self, ref):
        f = self.fns.get(ref)
        if f is None:
            f = self.fns[ref] = FnCompiler(self, ref).compile()
        return f


def _lit(x):
    if type(x) is int:
        return str(x)
    if type(x) is float:
        if x == x and abs(x) != math.inf:
            return repr(x)
    return None


class FnCompiler:
    def __init__(self, m, ref):
        self.m = m
        self.ref = ref

    def compile(self):
        m = self.m
        f = Fn()
        self.f = f
        f.module = m
        f.ref = self.ref
        f.name = L.name(self.ref)
        self.slot = {}
        f.slot_ty = []
        f.args = []
        for i in range(L.CountParams(self.ref)):
            p = L.GetParam(self.ref, i)
            f.args.append(self._new(p))
        self.bbs = []
        self.bbidx = {}
        b = L.FirstBB(self.ref)
        insts = []
        while b:
            self.bbidx[b] = len(self.bbs)
            self.bbs.append(b)
            il = []
            i = L.FirstInst(b)
            while i:
                il.append(i)
                i = L.NextInst(i)
            insts.append(il)
            b = L.NextBB(b)
        self.home = {}
        for bi, il in enumerate(insts):
            for i in il:
                ty = m.ty(L.TypeOf(i))
                if ty[0] not in ('void', 'other'):
                    self._new(i)
                    self.home[i] = bi
        # which values are used outside their block (or by phis)?
        self.escape = set()
        for bi, il in enumerate(insts):
            for i in il:
                op = L.Opcode(i)
                if op == 44:
                    for j in range(L.CountIncoming(i)):
                        self.escape.add(L.IncomingValue(i, j))
                    continue
                for j in range(L.NumOperands(i)):
                    o = L.Operand(i, j)
                    if self.home.get(o, bi) != bi:
                        self.escape.add(o)
        f.ninst = sum(len(il) for il in insts)
        n = len(insts)
        f.succs = []
        f.isret = [L.Opcode(il[-1]) == 1 for il in insts]
        for il in insts:
            t = il[-1]
            f.succs.append([self.bbidx[L.Successor(t, k)] for k in range(L.NumSuccessors(t))])
        # phi copies per edge
        f.phis = [[i for i in il if L.Opcode(i) == 44] for il in insts]
        self.edge_src = {}
        self.ns = {'rt': rt, 'UNDEF': UNDEF, 'inf': math.inf, 'nan': math.nan, 'Poly': rt.Poly,
                   'f32': rt.f32, 'm': m, 'fn': f, 'Trap': rt.Trap}
        self.kn = 0
        src = []
        f.edges = {}
        f.blocks = [None] * n
        for bi in range(n):
            for s in sorted(set(f.succs[bi])):
                if f.phis[s]:
                    lines = self._edge(bi, s)
                    src.append('def e%d_%d(R):\n' % (bi, s) + ''.join('    ' + x + '\n' for x in lines))
        for bi, il in enumerate(insts):
            src.append(self._block(bi, il))
        text = '\n'.join(src)
        self.ns['_edgefns'] = None
        code = compile(text, '<ir:%s>' % f.name[:80], 'exec')
        exec(code, self.ns)
        for bi in range(n):
            f.blocks[bi] = self.ns['b%d' % bi]
            for s in set(f.succs[bi]):
                f.edges[(bi, s)] = self.ns.get('e%d_%d' % (bi, s))
        f.nslots = len(f.slot_ty)
        f.ipdom = None
        f.phis = [[self.slot[i] for i in p] for p in f.phis]
        f.bbnames = None
        f.retty = None
        return f

    def _new(self, v):
        s = len(self.f.slot_ty)
        self.slot[v] = s
        self.f.slot_ty.append(self.m.ty(L.TypeOf(v)))
        return s

    # ------------------------------------------------------------ operands
    def _op(self, v):
        """Python expression for operand v in the current block"""
        if v in self.loc:
            return self.loc[v]
        s = self.slot.get(v)
        if s is not None:
            n = 'v%d' % s
            self.out.append('%s = R[%d]' % (n, s))
            self.loc[v] = n
            return n
        return self._k(v)

    def _k(self, v):
        try:
            c = self.m.const(v)
        except Unsupported as e:
            n = 'k%d' % self.kn
            self.kn += 1
            self.ns[n] = None
            self.out.append('raise rt.Unsupported(%r)' % str(e))
            return n
        l = _lit(c)
        if l is not None:
            return l if not l.startswith('-') else '(%s)' % l
        if c is UNDEF:
            return 'UNDEF'
        if type(c) is float:
            return {True: 'nan'}.get(c != c, 'inf' if c > 0 else '(-inf)')
        n = 'k%d' % self.kn
        self.kn += 1
        self.ns[n] = c
        return n

    def _edge(self, bi, s):
        """parallel copy of phi values for the edge bi->s (register based)"""
        self.out = lines = []
        self.loc = {}
        dst, srcs = [], []
        for phi in self.f.phis[s]:
            for j in range(L.CountIncoming(phi)):
                if self.bbidx[L.IncomingBlock(phi, j)] == bi:
                    v = L.IncomingValue(phi, j)
                    sl = self.slot.get(v)
                    srcs.append('R[%d]' % sl if sl is not None else self._k(v))
                    dst.append('R[%d]' % self.slot[phi])
                    break
        lines.append('%s = %s' % (', '.join(dst), ', '.join(srcs)))
        return lines

    def _goto(self, bi, s, ind=''):
        if self.f.phis[s]:
            dst, srcs = [], []
            pre = []
            for phi in self.f.phis[s]:
                for j in range(L.CountIncoming(phi)):
                    if self.bbidx[L.IncomingBlock(phi, j)] == bi:
                        v = L.IncomingValue(phi, j)
                        if v in self.loc:
                            srcs.append(self.loc[v])
                        else:
                            sl = self.slot.get(v)
                            srcs.append('R[%d]' % sl if sl is not None else self._k(v))
                        dst.append('R[%d]' % self.slot[phi])
                        break
            self.out.append(ind + '%s = %s' % (', '.join(dst), ', '.join(srcs)))
        self.out.append(ind + 'return %d' % s)

    # ------------------------------------------------------------ blocks
    def _block(self, bi, il):
        self.bi = bi
        self.out = out = []
        self.loc = {}
        nreal = 0
        for i in il:
            if L.Opcode(i) == 44:
                continue
            nreal += 1
            self._inst(i)
        # phis' own slots are read through R on demand
        head = 'def b%d(R, E):\n    E.ninst += %d\n' % (bi, nreal)
        return head + ''.join('    ' + x + '\n' for x in out)

    def _set(self, i, expr):
        s = self.slot[i]
        n = 'v%d' % s
        self.out.append('%s = %s' % (n, expr))
        self.loc[i] = n
        if i in self.escape:
            self.out.append('R[%d] = %s' % (s, n))

    def _after(self, i):
        """register value already assigned to local name"""
        s = self.slot[i]
        n = 'v%d' % s
        self.loc[i] = n
        if i in self.escape:
            self.out.append('R[%d] = %s' % (s, n))
        return n

    def _tyk(self, ty):
        n = 't%d' % self.kn
        self.kn += 1
        self.ns[n] = ty
        return n

    def _inst(self, i):
        op = L.Opcode(i)
        m = self.m
        out = self.out
        ty = m.ty(L.TypeOf(i))
        o = lambda k: L.Operand(i, k)
        if op in rt.INTOPS:
            a, b = self._op(o(0)), self._op(o(1))
            if ty[0] == 'vec':
                self._set(i, 'rt.int_binop(%d, %s, %s, %d)' % (op, a, b, ty[2][1]))
                return
            w = ty[1]
            M = (1 << w) - 1
            s = 'v%d' % self.slot[i]
            fast = {8: '(%s + %s) & %d', 10: '(%s - %s) & %d', 12: '(%s * %s) & %d'}.get(op)
            if fast:
                fast = fast % (a, b, M)
            elif op == 23:
                fast = '%s & %s' % (a, b)
            elif op == 24:
                fast = '%s | %s' % (a, b)
            elif op == 25:
                fast = '%s ^ %s' % (a, b)
            if fast:
                conds = ['type(%s) is int' % x for x in (a, b) if not x.lstrip('(-').rstrip(')').isdigit()]
                slow = 'rt.%s(%s, %s, %d)' % (rt.INTOPS[op][1].__name__, a, b, w)
                if conds:
                    self._set(i, '%s if %s else %s' % (fast, ' and '.join(conds), slow))
                else:
                    self._set(i, fast)
            else:
                if op in (14, 15, 17, 18):
                    out.append('if type(%s) is not int: E.check_div(%s, %d)' % (b, b, w))
                self._set(i, 'rt.int_binop(%d, %s, %s, %d)' % (op, a, b, w))
            return
        if op in (9, 11, 13, 16, 19):
            a, b = self._op(o(0)), self._op(o(1))
            if ty[0] == 'vec':
                self._set(i, 'rt.fbin(%d, %s, %s, %d)' % (op, a, b, ty[2][1]))
                return
            bits = ty[1]
            sym = {9: '+', 11: '-', 13: '*'}.get(op)
            if sym and bits in (32, 64):
                e = '%s %s %s' % (a, sym, b)
                if bits == 32:
                    e = 'f32(%s)' % e
                self._set(i, '%s if type(%s) is float and type(%s) is float else rt.fbin(%d, %s, %s, %d)'
                          % (e, a, b, op, a, b, bits))
            else:
                self._set(i, 'rt.fbin(%d, %s, %s, %d)' % (op, a, b, bits))
            return
        if op == 66:
            bits = ty[2][1] if ty[0] == 'vec' else ty[1]
            self._set(i, 'rt.fneg(%s, %d)' % (self._op(o(0)), bits))
            return
        if op == 26:    # alloca
            at = L.AllocatedType(i)
            n = self._op(o(0))
            self._set(i, 'E.alloca(%d * %s, %d)' % (m.size(at), n, max(L.GetAlignment(i), 1)))
            return
        if op == 27:
            self._load(i, ty, self._op(o(0)))
            return
        if op == 28:
            v = o(0)
            vt = m.ty(L.TypeOf(v))
            ve, pe = self._op(v), self._op(o(1))
            al = L.GetAlignment(i)
            if vt[0] in ('i', 'f', 'ptr') and vt != ('i', 1) and not (vt[0] == 'i' and vt[1] % 8):
                kind = self._kind(vt)
                if al > (kind & 31):
                    out.append('if type(%s) is int and %s %% %d: E.misaligned(%s, %d)' % (pe, pe, al, pe, al))
                out.append('E.store(%s, %d, %s)' % (pe, kind, ve))
            else:
                if vt[0] == 'vec' and al > 1:
                    out.append('if type(%s) is int and %s %% %d: E.misaligned(%s, %d)' % (pe, pe, al, pe, al))
                out.append('E.store_ty(%s, %s, %s)' % (pe, self._tyk(vt), ve))
            return
        if op == 29:
            self._gep(i, o)
            return
        if op in (30, 31, 32):
            st = m.ty(L.TypeOf(o(0)))
            a = self._op(o(0))
            w1 = st[2][1] if st[0] == 'vec' else st[1]
            w2 = ty[2][1] if ty[0] == 'vec' else ty[1]
            if op == 30:
                self._set(i, '%s & %d if type(%s) is int else rt.trunc(%s, %d, %d)' % (a, (1 << w2) - 1, a, a, w1, w2))
            elif op == 31:
                self._set(i, '%s if type(%s) is int else rt.zext(%s, %d, %d)' % (a, a, a, w1, w2))
            else:
                self._set(i, 'rt.sext(%s, %d, %d)' % (a, w1, w2))
            return
        if op in (33, 34, 35, 36, 37, 38):
            st = m.ty(L.TypeOf(o(0)))
            a = self._op(o(0))
            s1 = st[2][1] if st[0] == 'vec' else st[1]
            s2 = ty[2][1] if ty[0] == 'vec' else ty[1]
            if op in (33, 34):
                self._set(i, 'rt.fptoi(%s, %d, %d, %r)' % (a, s1, s2, op == 34))
            elif op in (35, 36):
                self._set(i, 'rt.itofp(%s, %d, %d, %r)' % (a, s1, s2, op == 36))
            elif op == 37:
                self._set(i, 'rt.fptrunc(%s, %d, %d)' % (a, s1, s2))
            else:
                self._set(i, 'rt.fpext(%s, %d, %d)' % (a, s1, s2))
            return
        if op in (39, 40):
            a = self._op(o(0))
            st = m.ty(L.TypeOf(o(0)))
            if op == 39 and ty[1] < 64:
                self._set(i, 'rt.trunc(%s, 64, %d)' % (a, ty[1]))
            else:
                self._set(i, a)
            return
        if op == 41:
            st = m.ty(L.TypeOf(o(0)))
            self._set(i, 'rt.bitcast(%s, %s, %s)' % (self._op(o(0)), self._tyk(st), self._tyk(ty)))
            return
        if op == 42:
            st = m.ty(L.TypeOf(o(0)))
            a, b = self._op(o(0)), self._op(o(1))
            p = L.ICmpPred(i)
            w = 64 if st[0] == 'ptr' else (st[1] if st[0] == 'i' else (64 if st[2][0] == 'ptr' else st[2][1]))
            if st[0] != 'vec' and p <= 37:
                py = {32: '==', 33: '!=', 34: '>', 35: '>=', 36: '<', 37: '<='}[p]
                self._set(i, '(1 if %s %s %s else 0) if type(%s) is int and type(%s) is int else rt.icmp(%d, %s, %s, %d)'
                          % (a, py, b, a, b, p, a, b, w))
            else:
                self._set(i, 'rt.icmp(%d, %s, %s, %d)' % (p, a, b, w))
            return
        if op == 43:
            st = m.ty(L.TypeOf(o(0)))
            a, b = self._op(o(0)), self._op(o(1))
            bits = st[2][1] if st[0] == 'vec' else st[1]
            self._set(i, 'rt.fcmp(%d, %s, %s, %d)' % (L.FCmpPred(i), a, b, bits))
            return
        if op == 46:
            c, a, b = self._op(o(0)), self._op(o(1)), self._op(o(2))
            self._set(i, '(%s if %s else %s) if type(%s) is int else E.select(%s, %s, %s, %s)'
                      % (a, c, b, c, c, a, b, self._tyk(ty)))
            return
        if op == 50:
            st = m.ty(L.TypeOf(o(0)))
            self._set(i, 'E.extractelement(%s, %s, %s)' % (self._op(o(0)), self._op(o(1)), self._tyk(st)))
            return
        if op == 51:
            self._set(i, 'E.insertelement(%s, %s, %s, %s)' % (self._op(o(0)), self._op(o(1)), self._op(o(2)),
                                                             self._tyk(ty)))
            return
        if op == 52:
            mask = [L.MaskValue(i, k) for k in range(L.NumMask(i))]
            n = m.ty(L.TypeOf(o(0)))[1]
            a, b = self._op(o(0)), self._op(o(1))
            es = []
            for x in mask:
                if x < 0:
                    es.append('UNDEF')
                elif x < n:
                    es.append('%s[%d]' % (a, x))
                else:
                    es.append('%s[%d]' % (b, x - n))
            self._set(i, '(%s,)' % ', '.join(es))
            return
        if op == 53:
            idx = [L.GetIndices(i)[k] for k in range(L.NumIndices(i))]
            self._set(i, self._op(o(0)) + ''.join('[%d]' % x for x in idx))
            return
        if op == 54:
            idx = tuple(L.GetIndices(i)[k] for k in range(L.NumIndices(i)))
            self._set(i, 'E.insertvalue(%s, %s, %r)' % (self._op(o(0)), self._op(o(1)), idx))
            return
        if op == 68:
            self._set(i, 'E.freeze(%s, %s)' % (self._op(o(0)), self._tyk(ty)))
            return
        if op == 1:
            if L.NumOperands(i):
                out.append('E.retval = %s' % self._op(o(0)))
            else:
                out.append('E.retval = None')
            out.append('return -1')
            return
        if op == 2:
            if L.IsConditional(i):
                c = self._op(o(0))
                t, e = self.bbidx[L.Successor(i, 0)], self.bbidx[L.Successor(i, 1)]
                out.append('if type(%s) is int:' % c)
                out.append('    if %s:' % c)
                self._goto(self.bi, t, '        ')
                self._goto(self.bi, e, '    ')
                out.append('return E.symbr(fn, R, %d, %s, %d, %d)' % (self.bi, c, t, e))
            else:
                self._goto(self.bi, self.bbidx[L.Successor(i, 0)])
            return
        if op == 3:
            c = self._op(o(0))
            ct = m.ty(L.TypeOf(o(0)))
            n = L.NumOperands(i)
            dflt = self.bbidx[L.ValueAsBB(o(1))]
            cases = []
            for k in range(2, n, 2):
                cases.append((m.const(o(k)), self.bbidx[L.ValueAsBB(o(k + 1))]))
            out.append('if type(%s) is int:' % c)
            for v, b in cases:
                out.append('    if %s == %d:' % (c, v))
                self._goto(self.bi, b, '        ')
            self._goto(self.bi, dflt, '    ')
            out.append('return E.symswitch(fn, R, %d, %s, %d, %r, %d)' % (self.bi, c, ct[1], cases, dflt))
            return
        if op == 7:
            out.append("raise Trap('unreachable', 'reached unreachable code')")
            return
        if op in (45, 5):
            self._call(i, op, ty)
            return
        if op == 59:
            cl = []
            for k in range(L.NumClauses(i)):
                c = L.GetClause(i, k)
                ct = m.ty(L.TypeOf(c))
                cl.append(m.const(c) if ct[0] == 'ptr' else 'filter')
            self._set(i, 'E.landingpad(%r, %d)' % (cl, L.IsCleanup(i)))
            return
        if op == 58:
            out.append('E.resume(%s)' % self._op(o(0)))
            out.append('return -1')
            return
        if op == 55:
            return
        if op == 57:
            p, v = self._op(o(0)), self._op(o(1))
            self._set(i, 'E.atomicrmw(%d, %s, %s, %s)' % (L.RMWOp(i), p, v, self._tyk(ty)))
            return
        if op == 56:
            self._set(i, 'E.cmpxchg(%s, %s, %s, %s)' % (self._op(o(0)), self._op(o(1)), self._op(o(2)),
                                                        self._tyk(m.ty(L.TypeOf(o(1))))))
            return
        out.append('raise rt.Unsupported(%r)' % ('instruction opcode %d: %s' % (op, L.text(i)[:100])))
        if i in self.slot:
            self.loc[i] = 'UNDEF'

    def _kind(self, ty):
        if ty[0] == 'i':
            return (ty[1] + 7) // 8
        if ty[0] == 'ptr':
            return 8
        return 32 + ty[1] // 8

    def _load(self, i, ty, pe):
        al = L.GetAlignment(i)
        if ty[0] in ('i', 'f', 'ptr') and ty != ('i', 1) and not (ty[0] == 'i' and ty[1] % 8) and ty != ('f', 80):
            kind = self._kind(ty)
            if al > (kind & 31):
                self.out.append('if type(%s) is int and %s %% %d: E.misaligned(%s, %d)' % (pe, pe, al, pe, al))
            self._set(i, 'E.load(%s, %d)' % (pe, kind))
        else:
            if ty[0] == 'vec' and al > 1:
                self.out.append('if type(%s) is int and %s %% %d: E.misaligned(%s, %d)' % (pe, pe, al, pe, al))
            self._set(i, 'E.load_ty(%s, %s)' % (pe, self._tyk(ty)))

    def _gep(self, i, o):
        m = self.m
        if m.ty(L.TypeOf(i))[0] == 'vec':
            raise Unsupported('vector gep')
        sref = L.GEPSrcType(i)
        ty = m.ty(sref)
        n = L.NumOperands(i)
        coff = 0
        parts = []
        for k in range(1, n):
            v = o(k)
            it = m.ty(L.TypeOf(v))
            if k == 1:
                sz = m.size(sref)
            elif ty[0] == 'st':
                j = m.const(v)
                coff += ty[2][j]
                ty = ty[1][j]
                continue
            elif ty[0] == 'arr':
                sz = ty[3]
                ty = ty[2]
            elif ty[0] == 'vec':
                sz = rt.ty_bits(ty[2]) // 8
                ty = ty[2]
            if L.ValueKind(v) == 18:
                coff += rt.sgn(m.const(v), it[1]) * sz
            else:
                parts.append((self._op(v), it[1], sz))
        p = self._op(o(0))
        if not parts:
            if coff == 0:
                self._set(i, p)
            else:
                self._set(i, '(%s + %d) & %d if type(%s) is int else E.ptradd(%s, %d)' % (p, coff, MASK64, p, p, coff))
            return
        if all(w == 64 for _, w, _ in parts):
            conds = ' and '.join('type(%s) is int' % x for x in [p] + [q[0] for q in parts])
            e = p + ''.join(' + %s * %d' % (x, sz) for x, _, sz in parts) + (' + %d' % coff if coff else '')
            self._set(i, '(%s) & %d if %s else E.gep(%s, %d, (%s,))' % (
                e, MASK64, conds, p, coff, ', '.join('(%s, %d, %d)' % q for q in parts)))
        else:
            self._set(i, 'E.gep(%s, %d, (%s,))' % (p, coff, ', '.join('(%s, %d, %d)' % q for q in parts)))

    def _call(self, i, op, ty):
        m = self.m
        callee = L.CalledValue(i)
        n = L.NumArgOperands(i)
        args = []
        atys = []
        for k in range(n):
            v = L.Operand(i, k)
            at = m.ty(L.TypeOf(v))
            atys.append(at)
            if at[0] == 'other' or at[0] == 'fn':
                args.append('None')
            else:
                args.append(self._op(v))
        kind = L.ValueKind(callee)
        if kind == 6:
            callee = L.AliasGetAliasee(callee)
            kind = L.ValueKind(callee)
        if kind == 5:
            nm = L.name(callee)
            if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.experimental.noalias'):
                return
            if L.IsDeclaration(callee):
                expr = 'E.extern(%r, (%s), %s, %s)' % (nm, ''.join(a + ', ' for a in args), self._tyk(ty),
                                                       self._tyk(tuple(atys)))
            else:
                expr = 'E.call(%d, (%s))' % (callee, ''.join(a + ', ' for a in args))
        elif kind == 23:
            expr = "E.inline_asm(%r)" % L.text(callee)[:60]
        else:
            expr = 'E.call_indirect(%s, (%s))' % (self._op(callee), ''.join(a + ', ' for a in args))
        hasval = i in self.slot
        if op == 45:
            if hasval:
                self._set(i, expr)
            else:
                self.out.append(expr)
            return
        # invoke
        nd, ud = self.bbidx[L.NormalDest(i)], self.bbidx[L.UnwindDest(i)]
        self.out.append('try:')
        if hasval:
            s = self.slot[i]
            self.out.append('    v%d = %s' % (s, expr))
            self.out.append('    R[%d] = v%d' % (s, s))
        else:
            self.out.append('    ' + expr)
        self.out.append('except E.Thrown as ex:')
        self.out.append('    E.exc = ex')
        self._goto(self.bi, ud, '    ')
        if hasval:
            self.loc[i] = 'v%d' % self.slot[i]
        self._goto(self.bi, nd)


def compute_ipdom(f):
    """immediate postdominators (virtual exit = RET)"""
    n = len(f.blocks)
    EXIT = n
    # blocks that end in unreachable/resume never reach the exit: they do not take part
    succs = [list(dict.fromkeys(s)) or ([EXIT] if r else []) for s, r in zip(f.succs, f.isret)] + [[]]
    preds = [[] for _ in range(n + 1)]
    for b, ss in enumerate(succs):
        for s in ss:
            preds[s].append(b)
    order = []
    seen = {EXIT}
    stack = [(EXIT, iter(preds[EXIT]))]
    while stack:
        b, it = stack[-1]
        for p in it:
            if p not in seen:
                seen.add(p)
                stack.append((p, iter(preds[p])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = list(reversed(order))
    num = {b: k for k, b in enumerate(rpo)}
    idom = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for s in succs[b]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        x, y = s, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return [RET if idom.get(b, EXIT) == EXIT else idom[b] for b in range(n)]
