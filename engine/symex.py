"""Path-forking symbolic executor for LLVM IR.

Integers are Python ints (always reduced modulo 2^width) while concrete and z3
bit-vectors (BoolRef for i1) once symbolic.  Pointers are 64-bit integers
obj_id << 40 | offset, or SymPtr when the offset is symbolic.  Forking restarts
the current instruction in a cloned state, so an instruction must not change
the state before its last decide()."""
import sys, time, re, os, math
import z3
from . import llvm as ll

OBJ_SHIFT = 40
OFF_MASK = (1 << OBJ_SHIFT) - 1
M64 = (1 << 64) - 1

class Violation(Exception):
    def __init__(self, kind, msg, model=None):
        Exception.__init__(self, kind + ": " + msg)
        self.kind, self.msg, self.model = kind, msg, model
class PathEnd(Exception):
    pass
class Inconclusive(Exception):
    pass
class Unsupported(Inconclusive):
    pass
class CppThrow(Exception):
    def __init__(self, ptr, ti):
        self.ptr, self.ti = ptr, ti

BoolRef, BVRef, ArithRef = z3.BoolRef, z3.BitVecRef, z3.ArithRef
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

class SymPtr:
    __slots__ = ("oid", "off", "stride")
    def __init__(self, oid, off, stride):
        self.oid, self.off, self.stride = oid, off, stride
    def bv(self):
        return self.off + z3.BitVecVal(self.oid << OBJ_SHIFT, 64)

def is_sym(v):
    return not isinstance(v, (int, float))

def tobv(v, w):
    """Value of an iN as a z3 bit-vector."""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, SymPtr):
        return v.bv()
    if isinstance(v, BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v

def tobool(v):
    """Value of an i1 as a z3 Bool."""
    if isinstance(v, int):
        return TRUE if v else FALSE
    if isinstance(v, BoolRef):
        return v
    if isinstance(v, BVRef):
        return v == 1
    raise Unsupported("tobool %r" % (v,))

def norm(e):
    """Collapse constant z3 terms to Python ints."""
    if isinstance(e, (int, SymPtr, float, tuple)):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e

def simp(e):
    if isinstance(e, (int, SymPtr)):
        return e
    return norm(z3.simplify(e))

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def term_size(e, cap):
    seen, st, n = set(), [e], 0
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        if n > cap:
            return n
        st.extend(x.children())
    return n

def is_ite(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE

def lift_cmp(e, f, depth=0):
    """Apply predicate f (z3 leaf -> Bool) through nested ITEs whose leaves are constants."""
    if depth < 12 and is_ite(e):
        c, a, b = e.children()
        if (z3.is_bv_value(a) or is_ite(a)) or (z3.is_bv_value(b) or is_ite(b)):
            x, y = lift_cmp(a, f, depth + 1), lift_cmp(b, f, depth + 1)
            if z3.is_true(x) and z3.is_true(y): return TRUE
            if z3.is_false(x) and z3.is_false(y): return FALSE
            if z3.is_true(x) and z3.is_false(y): return c
            if z3.is_false(x) and z3.is_true(y): return z3.Not(c)
            if z3.is_true(x): return z3.Or(c, y)
            if z3.is_false(x): return z3.And(z3.Not(c), y)
            if z3.is_true(y): return z3.Or(z3.Not(c), x)
            if z3.is_false(y): return z3.And(c, x)
            return z3.If(c, x, y)
    return z3.simplify(f(e))

# ---------------------------------------------------------------- memory
class Obj:
    __slots__ = ("oid", "size", "cells", "kind", "alive", "name", "zero", "owner", "mpzv", "ro", "maxcell")
    def __init__(self, oid, size, kind, name, zero, owner):
        self.oid, self.size, self.kind, self.name, self.zero, self.owner = oid, size, kind, name, zero, owner
        self.cells, self.alive, self.mpzv, self.ro, self.maxcell = {}, True, None, False, 1
    def copy(self, owner):
        o = Obj(self.oid, self.size, self.kind, self.name, self.zero, owner)
        o.cells, o.alive, o.mpzv, o.ro, o.maxcell = dict(self.cells), self.alive, self.mpzv, self.ro, self.maxcell
        return o

def byte_of(v, size, i):
    if isinstance(v, int):
        return (v >> (8 * i)) & 255
    if isinstance(v, float):
        import struct
        return struct.pack("<d" if size == 8 else "<f", v)[i]
    if isinstance(v, z3.FPRef):
        v = z3.fpToIEEEBV(v)
    b = tobv(v, size * 8)
    if b.size() < size * 8:
        b = z3.ZeroExt(size * 8 - b.size(), b)
    if b.size() == 8:
        return b
    return norm(z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)))

def cells_explode(o, at):
    sz, v = o.cells.pop(at)
    for i in range(sz):
        o.cells[at + i] = (1, byte_of(v, sz, i))

def cells_clear(o, off, size):
    """Drop all cell contents in [off, off+size)."""
    cells = o.cells
    if not cells:
        return
    mx = o.maxcell
    if mx > 1:
        for d in range(1, mx):
            c = cells.get(off - d)
            if c is not None and c[0] > d:
                cells_explode(o, off - d)
        end = off + size
        for d in range(1, mx):
            c = cells.get(end - d)
            if c is not None and c[0] > d and end - d >= off:
                cells_explode(o, end - d)
    if size <= len(cells):
        for i in range(off, off + size):
            if i in cells:
                del cells[i]
    else:
        for k in [k for k in cells if off <= k < off + size]:
            del cells[k]

def cells_store(o, off, size, v):
    cells = o.cells
    c = cells.get(off)
    if c is not None and c[0] == size:
        cells[off] = (size, v)
        return
    cells_clear(o, off, size)
    cells[off] = (size, v)
    if size > o.maxcell:
        o.maxcell = size

class Frame:
    __slots__ = ("fn", "regs", "code", "ip", "bb", "retslot", "normal", "unwind", "allocas", "callw")
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.code, f.ip, f.bb = self.fn, self.code, self.ip, self.bb
        f.regs = self.regs[:]
        f.retslot, f.normal, f.unwind = self.retslot, self.normal, self.unwind
        f.allocas = self.allocas[:]
        f.callw = self.callw
        return f

class State:
    __slots__ = ("mem", "frames", "pc", "model", "owner", "next_id", "fresh", "inputs", "exc", "caught",
                 "steps", "user", "forks", "trace", "freed", "uses")
    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.frames = [f.clone() for f in self.frames]
        s.pc = self.pc[:]
        s.model = None
        self.owner = object()
        s.owner = object()
        s.next_id, s.fresh = self.next_id, self.fresh
        s.inputs = self.inputs[:]
        s.exc, s.caught = self.exc, self.caught[:]
        s.steps, s.forks = self.steps, self.forks
        s.user = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.user.items()}
        s.trace = self.trace[:]
        s.freed = self.freed
        s.uses = self.uses
        return s

# ---------------------------------------------------------------- translation
class Fn:
    __slots__ = ("ref", "name", "dem", "nparams", "template", "blocks", "entry", "nslots", "addr", "vararg")

class Module:
    """Loads bitcode; translates functions on first call."""
    def __init__(self, path, demangled):
        self.m = ll.load(path)
        self.dl = ll.DL(self.m)
        self.dem = demangled
        self.types = {}
        self.fnaddr, self.addrfn = {}, {}
        self.gaddr, self.addrg = {}, {}
        self.next_static = 16
        self.fns = {}
        self.fnrefs = {}
        for f in ll.functions(self.m):
            n = ll.name(f)
            self.fnrefs[n] = f
            a = self.next_static << OBJ_SHIFT
            self.next_static += 1
            self.fnaddr[f] = a
            self.addrfn[a] = n
        self.grefs = {}
        for g in ll.globals_(self.m):
            n = ll.name(g)
            self.grefs[n] = g
            a = self.next_static << OBJ_SHIFT
            self.next_static += 1
            self.gaddr[g] = a
            self.addrg[a >> OBJ_SHIFT] = g
        self.aliases = {ll.name(a): ll.AliasGetAliasee(a) for a in ll.aliases(self.m)}
        self.gcache = {}

    # types
    def ty(self, t):
        r = self.types.get(t)
        if r is None:
            k = ll.TypeKind(t)
            if k == 8: r = ("i", ll.IntWidth(t))
            elif k == 12: r = ("p",)
            elif k == 3: r = ("f", 64)
            elif k == 2: r = ("f", 32)
            elif k == 4: r = ("f", 80)
            elif k == 10: r = ("s",)
            elif k == 11: r = ("a",)
            elif k == 13: r = ("v", ll.VecSize(t))
            elif k == 0: r = ("void",)
            else: r = ("?", k)
            self.types[t] = r
        return r
    def size(self, t):
        return ll.ABISize(self.dl, t)
    def ssize(self, t):
        return ll.StoreSize(self.dl, t)

    # constants
    def const(self, v):
        vk = ll.ValueKind(v)
        t = ll.TypeOf(v)
        ty = self.ty(t)
        if vk == 18:
            if ty[1] <= 64:
                return ll.ZExtVal(v) & ((1 << ty[1]) - 1)
            s = ll.pstr(v).split()[-1]
            return int(s) & ((1 << ty[1]) - 1)
        if vk == 20: return 0
        if vk == 19:
            if ty[1] == 80:
                raise Unsupported("x86_fp80 constant")
            lossy = ll.B()
            return ll.FPVal(v, ll.C.byref(lossy))
        if vk == 5: return self.fnaddr[v]
        if vk == 8: return self.gaddr[v]
        if vk == 6: return self.const(ll.AliasGetAliasee(v))
        if vk in (14, 25): return self.undef(t)
        if vk == 15: return self.zero(t)
        if vk in (11, 12, 13, 16, 17):
            n = self.nelem(t)
            return tuple(self.const(ll.AggElt(v, i)) for i in range(n))
        if vk == 10:
            op = ll.ConstOpcode(v)
            if op == 29:
                base = self.const(ll.Op(v, 0))
                idx = [self.const(ll.Op(v, i)) for i in range(1, ll.NumOps(v))]
                off = self.gep_const(ll.GEPSrcTy(v), idx, [self.ty(ll.TypeOf(ll.Op(v, i)))[1] for i in range(1, ll.NumOps(v))])
                return (base + off) & M64
            if op in (39, 40, 41):
                return self.const(ll.Op(v, 0))
            if op == 30:
                return self.const(ll.Op(v, 0)) & ((1 << ty[1]) - 1)
            a = self.const(ll.Op(v, 0)); b = self.const(ll.Op(v, 1))
            w = (1 << ty[1]) - 1
            if op == 8: return (a + b) & w
            if op == 10: return (a - b) & w
            if op == 12: return (a * b) & w
            if op == 25: return a ^ b
            raise Unsupported("constexpr op %d %s" % (op, ll.pstr(v)))
        if vk == 9:
            raise Unsupported("blockaddress")
        raise Unsupported("const kind %d: %s" % (vk, ll.pstr(v)[:200]))
    def nelem(self, t):
        k = self.ty(t)[0]
        return {"s": lambda: ll.StructCount(t), "a": lambda: ll.ArrayLen(t), "v": lambda: ll.VecSize(t)}[k]()
    def elemty(self, t, i):
        return ll.StructElt(t, i) if self.ty(t)[0] == "s" else ll.ElementType(t)
    def undef(self, t):
        k = self.ty(t)[0]
        if k in "sav":
            return tuple(self.undef(self.elemty(t, i)) for i in range(self.nelem(t)))
        return 0.0 if k == "f" else 0
    zero = undef
    def gep_const(self, t, idx, widths):
        off = sgn(idx[0], widths[0]) * self.size(t)
        for i, w in zip(idx[1:], widths[1:]):
            k = self.ty(t)[0]
            if k == "s":
                off += ll.OffsetOf(self.dl, t, i)
                t = ll.StructElt(t, i)
            else:
                t = ll.ElementType(t)
                off += sgn(i, w) * self.size(t)
        return off

    # global objects
    def flat(self, o, v, t, off):
        k = self.ty(t)
        vk = ll.ValueKind(v)
        if vk in (15, 20) or vk in (14, 25):
            return
        if vk == 16 or vk == 17 or vk in (11, 12, 13):
            n = self.nelem(t)
            et = None
            for i in range(n):
                if k[0] == "s":
                    et = ll.StructElt(t, i)
                    eo = off + ll.OffsetOf(self.dl, t, i)
                else:
                    if et is None:
                        et = ll.ElementType(t); es = self.size(et)
                        scalar = self.ty(et)[0] == "i" and vk == 16
                    eo = off + i * es
                    if scalar:
                        x = ll.ZExtVal(ll.AggElt(v, i))
                        if x:
                            o.cells[eo] = (es, x)
                        continue
                self.flat(o, ll.AggElt(v, i), et, eo)
            if not k[0] == "s" and n and es > o.maxcell and es <= 16: o.maxcell = es
            return
        x = self.const(v)
        sz = self.ssize(t)
        if isinstance(x, tuple):
            raise Unsupported("flat")
        o.cells[off] = (sz, x)
        if sz > o.maxcell: o.maxcell = sz
    def gobj(self, oid):
        o = self.gcache.get(oid)
        if o is None:
            g = self.addrg.get(oid)
            if g is None:
                return None
            t = ll.GlobalValueType(g)
            o = Obj(oid, self.size(t) if not ll.IsDeclaration(g) else 1 << 20, "global", ll.name(g), True, None)
            if ll.IsDeclaration(g):
                o.kind = "extern"
            else:
                self.flat(o, ll.GetInitializer(g), t, 0)
                o.ro = bool(ll.IsGlobalConstant(g))
            self.gcache[oid] = o
        return o

    def get(self, name):
        f = self.fns.get(name)
        if f is None:
            f = Translator(self, self.fnrefs[name]).fn
            self.fns[name] = f
        return f

PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}

def icmp(p, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if p == 32: return int(a == b)
        if p == 33: return int(a != b)
        if p == 34: return int(a > b)
        if p == 35: return int(a >= b)
        if p == 36: return int(a < b)
        if p == 37: return int(a <= b)
        a, b = sgn(a, w), sgn(b, w)
        if p == 38: return int(a > b)
        if p == 39: return int(a >= b)
        if p == 40: return int(a < b)
        return int(a <= b)
    if w == 1:
        a, b = tobool(a), tobool(b)
        if p == 32: return simp(a == b)
        if p == 33: return simp(z3.Xor(a, b))
        a, b = tobv(a, 1), tobv(b, 1)
    if isinstance(a, SymPtr) or isinstance(b, SymPtr):
        if isinstance(a, SymPtr) and isinstance(b, SymPtr) and a.oid == b.oid:
            a, b = a.off, b.off
        elif isinstance(a, SymPtr) and isinstance(b, int) and (b >> OBJ_SHIFT) == a.oid:
            a, b = a.off, b & OFF_MASK
        elif isinstance(b, SymPtr) and isinstance(a, int) and (a >> OBJ_SHIFT) == b.oid:
            a, b = a & OFF_MASK, b.off
    a0, b0 = a, b
    a, b = tobv(a, w), tobv(b, w)
    if LINCMP[0] and 16 <= w <= 128:
        c = lincmp(p, a, b, w)
        if c is not None: return c
    def f(x, y):
        if p == 32: return x == y
        if p == 33: return x != y
        if p == 34: return z3.UGT(x, y)
        if p == 35: return z3.UGE(x, y)
        if p == 36: return z3.ULT(x, y)
        if p == 37: return z3.ULE(x, y)
        if p == 38: return x > y
        if p == 39: return x >= y
        if p == 40: return x < y
        return x <= y
    if isinstance(b0, int) and is_ite(a):
        return norm(lift_cmp(a, lambda x: f(x, b)))
    if isinstance(a0, int) and is_ite(b):
        return norm(lift_cmp(b, lambda x: f(a, x)))
    return simp(f(a, b))

SIZEVAL = {}
def zcmp_lt0(v): raise NotImplementedError

def binop(op, a, b, w, st=None):
    m = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
        if op == 8: return (a + b) & m
        if op == 10: return (a - b) & m
        if op == 12: return (a * b) & m
        if op == 26 or op == 27 or op == 28:
            pass
        if op == 26: pass
        if op == 26: pass
        if op == 20: return (a << b) & m if b < w else 0
        if op == 21: return a >> b if b < w else 0
        if op == 22: return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 23: return a & b
        if op == 24: return a | b
        if op == 25: return a ^ b
        if op == 14: return a // b
        if op == 17: return a % b
        if op == 15:
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if op == 18:
            x, y = sgn(a, w), sgn(b, w)
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & m
    if w == 1:
        x, y = tobool(a), tobool(b)
        if op == 23: return simp(z3.And(x, y))
        if op == 24: return simp(z3.Or(x, y))
        if op in (25, 8, 10): return simp(z3.Xor(x, y))
        if op == 12: return simp(z3.And(x, y))
        raise Unsupported("i1 op %d" % op)
    if w == 32 and b.__class__ is int and b == 31 and op in (21, 22):
        e = SIZEVAL.get(a.get_id())
        if e is not None and e[0].eq(a):            # sign of an mpz size field
            c = tobool(zcmp_lt0(e[1]))
            return simp(z3.If(c, z3.BitVecVal(1 if op == 21 else m, 32), z3.BitVecVal(0, 32)))
    # cheap identities
    if isinstance(b, int):
        if b == 0 and op in (8, 10, 20, 21, 22, 24, 25): return a
        if op == 23:
            if b == 0: return 0
            if b == m: return a
        if op == 12:
            if b == 1: return a
            if b == 0: return 0
        if op == 14 and b & (b - 1) == 0:
            op, b = 21, b.bit_length() - 1
            if b == 0: return a
        if op == 17 and b & (b - 1) == 0:
            op, b = 23, b - 1
            if b == 0: return 0
    elif isinstance(a, int):
        if a == 0 and op in (8, 24, 25): return b
        if a == 0 and op in (12, 23, 20, 21, 22): return 0
        if a == m and op == 23: return b
        if a == 1 and op == 12: return b
    x, y = tobv(a, w), tobv(b, w)
    if op == 8: r = x + y
    elif op == 10: r = x - y
    elif op == 12: r = x * y
    elif op == 20: r = x << y
    elif op == 21: r = z3.LShR(x, y)
    elif op == 22: r = x >> y
    elif op == 23: r = x & y
    elif op == 24: r = x | y
    elif op == 25: r = x ^ y
    elif op == 14: r = z3.UDiv(x, y)
    elif op == 15: r = x / y
    elif op == 17: r = z3.URem(x, y)
    elif op == 18: r = z3.SRem(x, y)
    else: raise Unsupported("binop %d" % op)
    if op in (20, 21, 22, 23, 24, 14, 17, 10, 25):
        return simp(r)
    return norm(r)

def ubound(t, memo):
    """An upper bound of an unsigned bit-vector term."""
    i = t.get_id()
    if i in memo: return memo[i]
    w = t.size(); top = (1 << w) - 1; k = t.decl().kind(); r = top
    if z3.is_bv_value(t): r = t.as_long()
    elif k == z3.Z3_OP_CONCAT:
        r = 0
        for c in t.children(): r = r << c.size() | ubound(c, memo)
    elif k == z3.Z3_OP_ZERO_EXT: r = ubound(t.arg(0), memo)
    elif k == z3.Z3_OP_BADD: r = sum(ubound(c, memo) for c in t.children())
    elif k == z3.Z3_OP_BMUL:
        r = 1
        for c in t.children(): r *= ubound(c, memo)
    elif k == z3.Z3_OP_ITE: r = max(ubound(t.arg(1), memo), ubound(t.arg(2), memo))
    elif k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params(); u = ubound(t.arg(0), memo)
        if u < 1 << (hi + 1): r = u >> lo
    elif k == z3.Z3_OP_BUREM and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long(): r = min(ubound(t.arg(0), memo), t.arg(1).as_long() - 1)
    elif k == z3.Z3_OP_BUDIV and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long(): r = ubound(t.arg(0), memo) // t.arg(1).as_long()
    if r > top: r = top
    memo[i] = r
    return r

DIVQ, LSUB, LBOUND, LCON = {}, {}, {}, {}
def lin(t, memo):
    """t as a linear combination of atoms modulo 2^w: (constant, {atom id: (atom, signed coefficient)}, definitions used)."""
    i = t.get_id()
    if i in memo: return memo[i]
    w = t.size(); M = 1 << w; H = M >> 1; k = t.decl().kind(); used = set()
    def fix(c, d): 
        c %= M
        return (c - M if c >= H else c), {a: (x, (v + H) % M - H) for a, (x, v) in d.items() if v % M}
    def acc(c, d, l, f):
        for a, (x, v) in l[1].items():
            d[a] = (x, d[a][1] + v * f) if a in d else (x, v * f)
        used.update(l[2])
        return c + l[0] * f
    c, d = 0, {}
    if z3.is_bv_value(t): c = t.as_long()
    elif i in LSUB:                                     # an identity of integers: not reduced modulo 2^w
        l, con, _ = LSUB[i]
        l = lin_adj(l, memo, used)
        memo[i] = (l[0], {a: e for a, e in l[1].items() if e[1]}, frozenset(used | l[2] | {con}), t)
        return memo[i]
    elif k == z3.Z3_OP_BADD:
        for x in t.children(): c = acc(c, d, lin(x, memo), 1)
    elif k == z3.Z3_OP_BSUB: c = acc(acc(0, d, lin(t.arg(0), memo), 1), d, lin(t.arg(1), memo), -1)
    elif k == z3.Z3_OP_BNEG: c = acc(c, d, lin(t.arg(0), memo), -1)
    elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
        v = 0 if z3.is_bv_value(t.arg(0)) else 1
        c = acc(c, d, lin(t.arg(1 - v), memo), t.arg(v).as_long())
    elif k == z3.Z3_OP_CONCAT and t.num_args() >= 2 and z3.is_bv_value(t.arg(t.num_args() - 1)) and t.arg(t.num_args() - 1).as_long() == 0:
        z = t.arg(t.num_args() - 1).size(); ch = t.children()[:-1]
        inner = ch[0] if len(ch) == 1 else z3.Concat(*ch)
        inner = z3.simplify(z3.ZeroExt(w - inner.size(), inner))
        c = acc(c, d, lin(inner, memo), 1 << z)
    elif k == z3.Z3_OP_ZERO_EXT or (k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0):
        x = t.arg(0) if k == z3.Z3_OP_ZERO_EXT else t.arg(1)
        l = lin(x, memo); lo, hi = lrange(l)
        if (x.get_id() in LSUB or 0 <= lo and hi < 1 << x.size()) and not (len(l[1]) == 1 and x.get_id() in l[1]): c = acc(c, d, l, 1)
        else: d[x.get_id()] = (x, 1)
    else: d[i] = (t, 1)
    c, d = fix(c, d)
    memo[i] = (c, d, frozenset(used), t)
    return memo[i]
def lin_adj(l, memo, used):
    c, d = l[0], {}
    for a, (x, v) in l[1].items():
        m = lin(x, memo) if x.get_id() in LSUB else None
        if m is None: d[a] = (x, d[a][1] + v) if a in d else (x, v)
        else:
            c += m[0] * v; used.update(m[2])
            for b, (y, u) in m[1].items(): d[b] = (y, d[b][1] + u * v) if b in d else (y, u * v)
    return c, d, frozenset(used)
def aub(x): return LBOUND.get(x.get_id()) or ubound(x, dict(LBOUND) if LBOUND else {})
def lrange(l):
    lo = hi = l[0]
    for x, v in l[1].values():
        b = aub(x) * v
        if b < 0: lo += b
        else: hi += b
    return lo, hi
def lterm(l, w):
    t = z3.BitVecVal(l[0], w)
    for x, v in l[1].values():
        y = z3.ZeroExt(w - x.size(), x) if x.size() < w else z3.Extract(w - 1, 0, x) if x.size() > w else x
        t = t + z3.BitVecVal(v, w) * y
    return simp(t)

LINCMP = [0]
def lincmp(p, a, b, w):
    """Comparison of two terms whose linear forms are exact (no wrap) and differ in at most one atom."""
    top = 1 << (w if p < 38 else w - 1)
    la, lb = lin(a, {}), lin(b, {})
    for l in (la, lb):
        lo, hi = lrange(l)
        if lo < 0 or hi >= top: return None
    k, d = la[0] - lb[0], {i: (x, v) for i, (x, v) in la[1].items()}
    for i, (x, v) in lb[1].items():
        d[i] = (x, d[i][1] - v) if i in d else (x, -v)
    d = {i: e for i, e in d.items() if e[1]}
    lo, hi = lrange((k, d))
    # relation of D = k + sum to 0
    if p in (34, 38): rel = "gt"
    elif p in (35, 39): rel = "ge"
    elif p in (36, 40): rel = "lt"
    elif p in (37, 41): rel = "le"
    else: rel = "eq" if p == 32 else "ne"
    neg = rel in ("gt", "ge", "ne")
    if rel in ("gt", "le"):          # le: D <= 0
        r = True if hi <= 0 else False if lo > 0 else None
    elif rel in ("ge", "lt"):        # lt: D <= -1
        r = True if hi < 0 else False if lo >= 0 else None
    else: r = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
    if r is None:
        if len(d) != 1: return None
        (x, v), = d.values(); n = x.size(); V = lambda c: z3.BitVecVal(c, n)
        if rel in ("eq", "ne"):
            q, m = divmod(-k, v)
            r = (x == V(q)) if m == 0 and 0 <= q < 1 << n else False
        else:
            lim = 0 if rel in ("gt", "le") else -1     # k + v*x <= lim
            if v > 0:
                q = (lim - k) // v
                r = False if q < 0 else True if q >= (1 << n) - 1 else z3.ULE(x, V(q))
            else:
                q = -((lim - k) // -v)                 # x >= ceil((k - lim) / -v)
                r = True if q <= 0 else False if q >= 1 << n else z3.UGE(x, V(q))
    if isinstance(r, bool): return int(r != neg)
    return simp(z3.Not(r)) if neg else simp(r)

def divq(ex, st, x, c, w):
    """x / c and x % c for a constant c: multiples of c in the linear form of x split off, the rest through rest = q*c + r."""
    x = tobv(x, w)
    key = (x.get_id(), c, id(ex))
    e = DIVQ.get(key)
    if e is None:
        l = lin(x, {})
        lo, hi = lrange(l)
        if lo < 0 or hi >= 1 << w: l = (0, {x.get_id(): (x, 1)}, frozenset())
        # x = c*Q + rest with rest >= 0
        Qd, Rd = {}, {}
        for a, (t, v) in l[1].items():
            if v // c: Qd[a] = (t, v // c)
            if v % c: Rd[a] = (t, v % c)
        Q, R = (l[0] // c, Qd, ()), (l[0] % c, Rd, ())
        hi = lrange(R)[1]
        cons = [LCON[k] for k in l[2]]
        if hi < c: e = (x, lterm(Q, w), lterm(R, w), cons)
        else:
            ql = hi // c
            qn, rn = max(ql.bit_length(), 1), max((c - 1).bit_length(), 1)
            i = len(DIVQ)
            q, r = z3.BitVec("divq!%d" % i, qn), z3.BitVec("divr!%d" % i, rn)
            LBOUND[q.get_id()], LBOUND[r.get_id()] = ql, c - 1
            Z = lambda t, m: z3.ZeroExt(m - t.size(), t) if m > t.size() else t
            m = max((ql * c + c - 1).bit_length(), hi.bit_length(), rn)
            con = z3.And(lterm(R, m) == Z(q, m) * z3.BitVecVal(c, m) + Z(r, m), z3.ULT(Z(r, m), z3.BitVecVal(c, m)), z3.ULE(q, z3.BitVecVal(ql, qn)))
            LCON[con.get_id()] = con
            cons.append(con)
            Q[1][q.get_id()] = (q, 1)
            e = (x, lterm(Q, w), simp(Z(r, w)), cons)
            for a, (t, v) in Rd.items():              # t = c*q + r - others
                if v == 1 and a not in LSUB:
                    d = {b: (u, -k) for b, (u, k) in Rd.items() if b != a}
                    d[q.get_id()], d[r.get_id()] = (q, c), (r, 1)
                    LSUB[a] = ((-R[0], d, ()), con.get_id(), t)
                    break
        DIVQ[key] = e
    for con in e[3]:
        if not any(t is con for t in st.pc):
            st.pc.append(con); st.model = None
    return e[1], e[2]

def divq1(ex, st, x, c, w):
    """x / c and x % c for a constant c through x = q*c + r, at the width the bound of x allows."""
    x = tobv(x, w)
    key = (x.get_id(), c, id(ex))
    e = DIVQ.get(key)
    if e is None:
        ub = ubound(x, {})
        n = max(ub.bit_length(), 1)
        if ub < c: return 0, simp(x)
        ql = ub // c
        qn, rn = ql.bit_length(), max((c - 1).bit_length(), 1)
        i = len(DIVQ)
        q, r = z3.BitVec("divq!%d" % i, qn), z3.BitVec("divr!%d" % i, rn)
        Z = lambda t, m: z3.ZeroExt(m - t.size(), t) if m > t.size() else t
        m = max((ql * c + c - 1).bit_length(), n, rn)
        xn = z3.Extract(n - 1, 0, x) if n < w else x
        con = z3.And(Z(xn, m) == Z(q, m) * z3.BitVecVal(c, m) + Z(r, m), z3.ULT(Z(r, m), z3.BitVecVal(c, m)), z3.ULE(q, z3.BitVecVal(ql, qn)))
        e = DIVQ[key] = (x, simp(Z(q, w)), simp(Z(r, w)), con)
    if not any(t is e[3] for t in st.pc):
        st.pc.append(e[3]); st.model = None
    return e[1], e[2]

def zext(v, w1, w2):
    if isinstance(v, int): return v
    if isinstance(v, BoolRef): return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
    if isinstance(v, SymPtr): v = v.bv()
    return z3.ZeroExt(w2 - w1, v)
def sext(v, w1, w2):
    if isinstance(v, int): return sgn(v, w1) & ((1 << w2) - 1)
    if isinstance(v, BoolRef): return z3.If(v, z3.BitVecVal((1 << w2) - 1, w2), z3.BitVecVal(0, w2))
    return z3.SignExt(w2 - w1, v)
def trunc(v, w1, w2):
    if isinstance(v, int): return v & ((1 << w2) - 1)
    if isinstance(v, SymPtr): v = v.bv()
    if isinstance(v, BoolRef): return v
    r = simp(z3.Extract(w2 - 1, 0, v))
    if w2 == 1 and not isinstance(r, int):
        return simp(r == 1)
    return r

FPS = {64: z3.Float64(), 32: z3.Float32()}
def tofp(v, w):
    return z3.FPVal(v, FPS[w]) if isinstance(v, (int, float)) else v

def f32(x):
    import struct
    return struct.unpack("<f", struct.pack("<f", x))[0]

class Translator:
    def __init__(self, mod, ref):
        self.mod = mod
        fn = self.fn = Fn()
        fn.ref, fn.name = ref, ll.name(ref)
        fn.dem = mod.dem.get(fn.name, fn.name)
        fn.nparams = ll.CountParams(ref)
        self.slots = {}
        self.template = []
        self.constslot = {}
        for i in range(fn.nparams):
            self.slot_def(ll.GetParam(ref, i))
        self.bbs = []
        self.bbidx = {}
        bb = ll.FirstBB(ref)
        while bb:
            self.bbidx[bb] = len(self.bbs)
            self.bbs.append(bb)
            bb = ll.NextBB(bb)
        insts = []
        for bb in self.bbs:
            l = []
            i = ll.FirstInst(bb)
            while i:
                l.append(i)
                self.slot_def(i)
                i = ll.NextInst(i)
            insts.append(l)
        self.phis = []
        for l in insts:
            self.phis.append([i for i in l if ll.Opcode(i) == 44])
        fn.blocks = []
        for bi, l in enumerate(insts):
            self.cur = bi
            code = []
            for i in l:
                if ll.Opcode(i) == 44:
                    continue
                c = self.instr(i)
                if c is not None:
                    code.append(c)
            fn.blocks.append(code)
        fn.template = self.template

    def slot_def(self, v):
        s = len(self.template)
        self.template.append(None)
        self.slots[v] = s
        return s
    def slot(self, v):
        s = self.slots.get(v)
        if s is not None:
            return s
        s = self.constslot.get(v)
        if s is None:
            vk = ll.ValueKind(v)
            if vk in (22, 23):
                val = None
            else:
                try:
                    val = self.mod.const(v)
                except Unsupported as e:
                    val = e
            s = len(self.template)
            self.template.append(val)
            self.constslot[v] = s
        return s

    def moves(self, target):
        """PHI moves for the edge cur -> target (src slot, dst slot)."""
        out = []
        curbb = self.bbs[self.cur]
        for phi in self.phis[target]:
            for k in range(ll.PhiCount(phi)):
                if ll.PhiBB(phi, k) == curbb:
                    out.append((self.slot(ll.PhiVal(phi, k)), self.slots[phi]))
                    break
        return out
    def jump(self, bbref):
        """Returns closure go(fr) that transfers to the block."""
        t = self.bbidx[bbref]
        mv = self.moves(t)
        fn = self.fn
        if not mv:
            def go(fr):
                fr.code = fn.blocks[t]; fr.ip = 0; fr.bb = t
        elif len(mv) == 1:
            s, d = mv[0]
            def go(fr):
                fr.regs[d] = fr.regs[s]
                fr.code = fn.blocks[t]; fr.ip = 0; fr.bb = t
        else:
            ss = [m[0] for m in mv]; ds = [m[1] for m in mv]
            def go(fr):
                r = fr.regs
                vals = [r[s] for s in ss]
                for d, v in zip(ds, vals):
                    r[d] = v
                fr.code = fn.blocks[t]; fr.ip = 0; fr.bb = t
        return go

    def instr(self, i):
        op = ll.Opcode(i)
        mod = self.mod
        d = self.slots[i]
        ty = mod.ty(ll.TypeOf(i))
        O = lambda k: self.slot(ll.Op(i, k))
        if 8 <= op <= 25 and op not in (9, 11, 13, 16, 19):
            a, b = O(0), O(1)
            if ty[0] == "v":
                ew = mod.ty(ll.ElementType(ll.TypeOf(i)))[1]
                def f(ex, st, fr):
                    r = fr.regs
                    r[d] = tuple(binop(op, x, y, ew) for x, y in zip(r[a], r[b]))
                return f
            w = ty[1]
            m = (1 << w) - 1
            if op in (14, 15, 17, 18):
                def f(ex, st, fr):
                    r = fr.regs
                    y = r[b]
                    if isinstance(y, int):
                        if y == 0:
                            ex.violation(st, "div0", "division by zero")
                    else:
                        ex.require(st, y != 0, "div0", "division by zero")
                    if op in (15, 18):
                        x = r[a]
                        if not (isinstance(y, int) and y != m):
                            c = simp(z3.And(tobv(x, w) == (1 << (w - 1)), tobv(y, w) == m))
                            if c.__class__ is not int or c:
                                ex.require(st, z3.Not(tobool(c)), "div0", "signed division overflow")
                    x = r[a]
                    if y.__class__ is not int and ex.opts.get("divq"):
                        c = ex.few_values(st, y, 4)
                        if c is not None: y = c
                    if op in (14, 17) and y.__class__ is int and x.__class__ is not int and y & (y - 1) and ex.opts.get("divq"):
                        r[d] = (divq if ex.opts["divq"] == 2 else divq1)(ex, st, x, y, w)[op == 17]
                        return
                    v = binop(op, r[a], y, w)
                    if v.__class__ is not int and op in (14, 15):
                        lim = ex.opts.get("div_fork")
                        if lim:
                            c = ex.few_values(st, v, lim)
                            if c is not None: v = c
                    r[d] = v
                return f
            if op == 8:
                def f(ex, st, fr):
                    r = fr.regs
                    x = r[a]; y = r[b]
                    r[d] = (x + y) & m if x.__class__ is int and y.__class__ is int else binop(8, x, y, w)
                return f
            def f(ex, st, fr):
                r = fr.regs
                r[d] = binop(op, r[a], r[b], w)
            return f
        if op == 42:
            a, b = O(0), O(1)
            p = ll.ICmpPred(i)
            t0 = mod.ty(ll.TypeOf(ll.Op(i, 0)))
            if t0[0] == "v":
                et = mod.ty(ll.ElementType(ll.TypeOf(ll.Op(i, 0))))
                ew = 64 if et[0] == "p" else et[1]
                def f(ex, st, fr):
                    r = fr.regs
                    r[d] = tuple(icmp(p, x, y, ew) for x, y in zip(r[a], r[b]))
                return f
            w = 64 if t0[0] == "p" else t0[1]
            def f(ex, st, fr):
                r = fr.regs
                r[d] = icmp(p, r[a], r[b], w)
            return f
        if op == 27:
            a = O(0)
            t = ll.TypeOf(i)
            return self.load_instr(d, a, t)
        if op == 28:
            v, a = O(0), O(1)
            t = ll.TypeOf(ll.Op(i, 0))
            ty = mod.ty(t)
            if ty[0] in "sav":
                parts = self.flat_type(t, 0)
                def f(ex, st, fr):
                    r = fr.regs
                    p = r[a]
                    for path, off, sz, tt in parts:
                        x = r[v]
                        for k in path: x = x[k]
                        ex.store(st, ex.padd(p, off), sz, x)
                return f
            sz = mod.ssize(t)
            def f(ex, st, fr):
                r = fr.regs
                ex.store(st, r[a], sz, r[v])
            return f
        if op == 29:
            return self.gep(i, d)
        if op == 26:
            t = ll.AllocatedType(i)
            esz = mod.size(t)
            n = O(0)
            nm = ll.name(i)
            def f(ex, st, fr):
                c = fr.regs[n]
                if not isinstance(c, int):
                    c = ex.concretize(st, c, 64)
                o = ex.alloc(st, esz * c, "stack", nm)
                fr.allocas.append(o)
                fr.regs[d] = o << OBJ_SHIFT
            return f
        if op == 2:
            if ll.IsConditional(i):
                c = self.slot(ll.Condition(i))
                g1, g2 = self.jump(ll.Succ(i, 0)), self.jump(ll.Succ(i, 1))
                def f(ex, st, fr):
                    v = fr.regs[c]
                    if v.__class__ is not int:
                        v = ex.decide(st, v)
                    if v: g1(fr)
                    else: g2(fr)
                    return True
                return f
            g = self.jump(ll.Succ(i, 0))
            def f(ex, st, fr):
                g(fr)
                return True
            return f
        if op == 3:
            c = O(0)
            w = mod.ty(ll.TypeOf(ll.Op(i, 0)))[1]
            dflt = self.jump(ll.Succ(i, 0))
            cases = {}
            order = []
            for k in range(1, ll.NumSucc(i)):
                cv = mod.const(ll.Op(i, 2 * k))
                cases[cv] = self.jump(ll.Succ(i, k))
                order.append(cv)
            def f(ex, st, fr):
                v = fr.regs[c]
                if not isinstance(v, int):
                    got = None
                    for cv in order:
                        if ex.decide(st, icmp(32, v, cv, w)):
                            got = cv
                            break
                    (dflt if got is None else cases[got])(fr)
                    return True
                (cases.get(v) or dflt)(fr)
                return True
            return f
        if op == 1:
            if ll.NumOps(i):
                a = O(0)
                def f(ex, st, fr):
                    ex.ret(st, fr.regs[a])
                    return True
            else:
                def f(ex, st, fr):
                    ex.ret(st, None)
                    return True
            return f
        if op == 45 or op == 5:
            return self.call(i, d, op == 5)
        if op == 46:
            c, a, b = O(0), O(1), O(2)
            t = ty
            if t[0] == "i":
                w = t[1]
                def f(ex, st, fr):
                    r = fr.regs
                    v = r[c]
                    if v.__class__ is int:
                        r[d] = r[a] if v else r[b]
                        return
                    if isinstance(v, tuple):
                        raise Unsupported("vector select")
                    x, y = r[a], r[b]
                    v = tobool(v)
                    if w == 1:
                        r[d] = simp(z3.If(v, tobool(x), tobool(y)))
                    elif isinstance(x, SymPtr) or isinstance(y, SymPtr):
                        r[d] = x if ex.decide(st, v) else y
                    elif isinstance(x, int) and isinstance(y, int) and x == y:
                        r[d] = x
                    else:
                        r[d] = z3.If(v, tobv(x, w), tobv(y, w))
                return f
            if t[0] == "v":
                ew = mod.ty(ll.ElementType(ll.TypeOf(i)))[1]
                def f(ex, st, fr):
                    r = fr.regs
                    v = r[c]; x = r[a]; y = r[b]
                    if not isinstance(v, tuple):
                        if not isinstance(v, int): v = ex.decide(st, v)
                        r[d] = x if v else y
                        return
                    out = []
                    for vv, xx, yy in zip(v, x, y):
                        if isinstance(vv, int): out.append(xx if vv else yy)
                        else: out.append(z3.If(tobool(vv), tobv(xx, ew), tobv(yy, ew)))
                    r[d] = tuple(out)
                return f
            def f(ex, st, fr):
                r = fr.regs
                v = r[c]
                if v.__class__ is not int:
                    if r[a] is r[b] or (isinstance(r[a], int) and isinstance(r[b], int) and r[a] == r[b]):
                        r[d] = r[a]
                        return
                    if t[0] == "f":
                        r[d] = z3.If(tobool(v), tofp(r[a], t[1]), tofp(r[b], t[1]))
                        return
                    v = ex.decide(st, v)
                r[d] = r[a] if v else r[b]
            return f
        if op in (30, 31, 32):
            a = O(0)
            t0 = mod.ty(ll.TypeOf(ll.Op(i, 0)))
            g = {30: trunc, 31: zext, 32: sext}[op]
            if ty[0] == "v":
                w1 = mod.ty(ll.ElementType(ll.TypeOf(ll.Op(i, 0))))[1]
                w2 = mod.ty(ll.ElementType(ll.TypeOf(i)))[1]
                def f(ex, st, fr):
                    fr.regs[d] = tuple(g(x, w1, w2) for x in fr.regs[a])
                return f
            w1, w2 = t0[1], ty[1]
            def f(ex, st, fr):
                r = fr.regs
                r[d] = g(r[a], w1, w2)
            return f
        if op in (39, 40, 41, 60, 68):
            a = O(0)
            t0 = mod.ty(ll.TypeOf(ll.Op(i, 0)))
            if op == 41 and t0 != ty:
                if t0[0] == "f" and ty[0] == "i":
                    import struct
                    w = t0[1]
                    def f(ex, st, fr):
                        v = fr.regs[a]
                        if isinstance(v, (float, int)):
                            fr.regs[d] = int.from_bytes(struct.pack("<d" if w == 64 else "<f", v), "little")
                        else:
                            fr.regs[d] = z3.fpToIEEEBV(v)
                    return f
                if t0[0] == "i" and ty[0] == "f":
                    import struct
                    w = ty[1]
                    def f(ex, st, fr):
                        v = fr.regs[a]
                        if isinstance(v, int):
                            fr.regs[d] = struct.unpack("<d" if w == 64 else "<f", v.to_bytes(w // 8, "little"))[0]
                        else:
                            fr.regs[d] = z3.fpBVToFP(v, FPS[w])
                    return f
                def f(ex, st, fr):
                    raise Unsupported("bitcast")
                return f
            if op == 40:
                def f(ex, st, fr):
                    v = fr.regs[a]
                    if isinstance(v, BVRef):
                        v = ex.concretize(st, v, 64)
                    fr.regs[d] = v
                return f
            if op == 39:
                w2 = ty[1]
                def f(ex, st, fr):
                    v = fr.regs[a]
                    if isinstance(v, SymPtr):
                        v = v.bv()
                    fr.regs[d] = trunc(v, 64, w2) if w2 < 64 else v
                return f
            def f(ex, st, fr):
                fr.regs[d] = fr.regs[a]
            return f
        if op == 7:
            def f(ex, st, fr):
                ex.violation(st, "unreachable", "unreachable code reached in " + self.fn.dem)
            return f
        if op == 59:
            clauses = []
            for k in range(ll.NumClauses(i)):
                c = ll.Clause(i, k)
                t = ll.TypeOf(c)
                if mod.ty(t)[0] == "a":
                    clauses.append(("filter", None))
                else:
                    clauses.append(("catch", mod.const(c)))
            def f(ex, st, fr):
                ptr, ti = st.exc
                sel = 0
                for kind, ct in clauses:
                    if kind == "filter":
                        continue
                    if ct == 0 or ex.ti_match(ti, ct):
                        sel = ex.typeid(ct)
                        break
                fr.regs[d] = (ptr, sel)
            return f
        if op == 58:
            def f(ex, st, fr):
                ex.unwind(st)
                return True
            return f
        if op == 53:
            a = O(0)
            n = ll.NumIndices(i)
            idx = [ll.Indices(i)[k] for k in range(n)]
            def f(ex, st, fr):
                v = fr.regs[a]
                for k in idx: v = v[k]
                fr.regs[d] = v
            return f
        if op == 54:
            a, b = O(0), O(1)
            n = ll.NumIndices(i)
            idx = [ll.Indices(i)[k] for k in range(n)]
            def ins(agg, idx, v):
                l = list(agg)
                l[idx[0]] = v if len(idx) == 1 else ins(l[idx[0]], idx[1:], v)
                return tuple(l)
            def f(ex, st, fr):
                fr.regs[d] = ins(fr.regs[a], idx, fr.regs[b])
            return f
        if op == 50:
            a, b = O(0), O(1)
            def f(ex, st, fr):
                k = fr.regs[b]
                if not isinstance(k, int): k = ex.concretize(st, k, 64)
                fr.regs[d] = fr.regs[a][k]
            return f
        if op == 51:
            a, b, c = O(0), O(1), O(2)
            def f(ex, st, fr):
                k = fr.regs[c]
                if not isinstance(k, int): k = ex.concretize(st, k, 64)
                l = list(fr.regs[a]); l[k] = fr.regs[b]
                fr.regs[d] = tuple(l)
            return f
        if op == 52:
            a, b = O(0), O(1)
            mask = [ll.MaskVal(i, k) for k in range(ll.NumMask(i))]
            def f(ex, st, fr):
                l = fr.regs[a] + fr.regs[b]
                fr.regs[d] = tuple(l[k] if k >= 0 else 0 for k in mask)
            return f
        if op == 55:
            return None
        if op == 56:
            a, b, c = O(0), O(1), O(2)
            t = ll.TypeOf(ll.Op(i, 1))
            sz = mod.ssize(t); w = sz * 8
            def f(ex, st, fr):
                r = fr.regs
                old = ex.load(st, r[a], sz)
                eq = icmp(32, old, r[b], w)
                if not isinstance(eq, int): eq = int(ex.decide(st, eq))
                if eq: ex.store(st, r[a], sz, r[c])
                r[d] = (old, eq)
            return f
        if op == 57:
            a, b = O(0), O(1)
            t = ll.TypeOf(ll.Op(i, 1))
            sz = mod.ssize(t); w = sz * 8
            rop = ll.RMWOp(i)
            def f(ex, st, fr):
                r = fr.regs
                old = ex.load(st, r[a], sz)
                x = r[b]
                if rop == 0: nv = x
                elif rop == 1: nv = binop(8, old, x, w)
                elif rop == 2: nv = binop(10, old, x, w)
                elif rop == 3: nv = binop(23, old, x, w)
                elif rop == 5: nv = binop(24, old, x, w)
                elif rop == 6: nv = binop(25, old, x, w)
                else: raise Unsupported("atomicrmw %d" % rop)
                ex.store(st, r[a], sz, nv)
                r[d] = old
            return f
        if op in (9, 11, 13, 16, 19, 66, 36, 35, 33, 34, 37, 38, 43) or op in (66,):
            return self.fpop(i, op, d, ty)
        txt = ll.pstr(i)
        def f(ex, st, fr):
            raise Unsupported("opcode %d: %s" % (op, txt[:200]))
        return f

    def fpop(self, i, op, d, ty):
        mod = self.mod
        a = self.slot(ll.Op(i, 0))
        t0 = mod.ty(ll.TypeOf(ll.Op(i, 0)))
        txt = ll.pstr(i)
        b = self.slot(ll.Op(i, 1)) if ll.NumOps(i) > 1 else None
        RM, RZ = z3.RNE(), z3.RTZ()
        if ty[0] == "v" or t0[0] == "v" or 80 in (ty[-1], t0[-1]):
            def f(ex, st, fr):
                raise Unsupported("fp op " + txt[:160])
            return f
        if op in (9, 11, 13, 16):
            w = ty[1]
            def f(ex, st, fr):
                r = fr.regs
                x, y = r[a], r[b]
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    if op == 9: v = x + y
                    elif op == 11: v = x - y
                    elif op == 13: v = x * y
                    else:
                        if y == 0:
                            v = float("nan") if x == 0 or x != x else math.copysign(float("inf"), x) * math.copysign(1, y)
                        else: v = x / y
                    r[d] = f32(v) if w == 32 else v
                    return
                x, y = tofp(x, w), tofp(y, w)
                r[d] = {9: z3.fpAdd, 11: z3.fpSub, 13: z3.fpMul, 16: z3.fpDiv}[op](RM, x, y)
            return f
        if op == 66:
            def f(ex, st, fr):
                v = fr.regs[a]
                fr.regs[d] = -v if isinstance(v, (int, float)) else z3.fpNeg(v)
            return f
        if op in (35, 36):
            w, fw = t0[1], ty[1]
            def f(ex, st, fr):
                v = fr.regs[a]
                if isinstance(v, int):
                    v = float(sgn(v, w) if op == 36 else v)
                    fr.regs[d] = f32(v) if fw == 32 else v
                else:
                    v = tobv(v, w)
                    fr.regs[d] = z3.fpSignedToFP(RM, v, FPS[fw]) if op == 36 else z3.fpUnsignedToFP(RM, v, FPS[fw])
            return f
        if op in (33, 34):
            w, fw = ty[1], t0[1]
            def f(ex, st, fr):
                v = fr.regs[a]
                if isinstance(v, (int, float)):
                    if v != v or abs(v) >= 2.0 ** w:
                        raise Unsupported("fptoint out of range")
                    fr.regs[d] = int(v) & ((1 << w) - 1)
                else:
                    fr.regs[d] = z3.fpToSBV(RZ, v, z3.BitVecSort(w)) if op == 34 else z3.fpToUBV(RZ, v, z3.BitVecSort(w))
            return f
        if op in (37, 38):
            fw = ty[1]
            def f(ex, st, fr):
                v = fr.regs[a]
                if isinstance(v, (int, float)):
                    fr.regs[d] = f32(v) if fw == 32 else v
                else:
                    fr.regs[d] = z3.fpFPToFP(RM, v, FPS[fw])
            return f
        if op == 43:
            p = ll.FCmpPred(i)
            w = t0[1]
            def f(ex, st, fr):
                x, y = fr.regs[a], fr.regs[b]
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    un = x != x or y != y
                    res = (p & 8 and un) or (not un and ((p & 1 and x == y) or (p & 2 and x > y) or (p & 4 and x < y)))
                    fr.regs[d] = 1 if res else 0
                    return
                x, y = tofp(x, w), tofp(y, w)
                un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
                cs = []
                if p & 8: cs.append(un)
                if p & 1: cs.append(z3.fpEQ(x, y))
                if p & 2: cs.append(z3.fpGT(x, y))
                if p & 4: cs.append(z3.fpLT(x, y))
                fr.regs[d] = simp(z3.Or(*cs)) if cs else 0
            return f
        def f(ex, st, fr):
            raise Unsupported("fp op " + txt[:160])
        return f

    def flat_type(self, t, off, path=()):
        k = self.mod.ty(t)
        if k[0] in "sav":
            out = []
            for i in range(self.mod.nelem(t)):
                et = self.mod.elemty(t, i)
                eo = ll.OffsetOf(self.mod.dl, t, i) if k[0] == "s" else i * self.mod.size(et)
                out += self.flat_type(et, off + eo, path + (i,))
            return out
        return [(path, off, self.mod.ssize(t), t)]

    def conv_load(self, t):
        ty = self.mod.ty(t)
        if ty[0] == "i":
            w = ty[1]
            if w == 1:
                return lambda ex, st, v: (v & 1) if isinstance(v, int) else (v if isinstance(v, BoolRef) else simp(tobv(v, 8) != 0) if not isinstance(v, BoolRef) else v)
            if w % 8:
                return lambda ex, st, v: trunc(v, ((w + 7) // 8) * 8, w)
            def g(ex, st, v):
                if v.__class__ is int: return v
                if isinstance(v, SymPtr): return v.bv()
                if isinstance(v, BoolRef): return tobv(v, w)
                if isinstance(v, float):
                    import struct
                    return int.from_bytes(struct.pack("<d" if w == 64 else "<f", v), "little")
                if isinstance(v, z3.FPRef): return z3.fpToIEEEBV(v)
                return v
            return g
        if ty[0] == "p":
            def g(ex, st, v):
                if v.__class__ is int or isinstance(v, SymPtr): return v
                return ex.concretize(st, v, 256)
            return g
        if ty[0] == "f":
            import struct
            w = ty[1]
            def g(ex, st, v):
                if isinstance(v, float): return v
                if isinstance(v, int):
                    return struct.unpack("<d" if w == 64 else "<f", v.to_bytes(w // 8, "little"))[0]
                if isinstance(v, z3.FPRef): return v
                return z3.fpBVToFP(v, FPS[w])
            return g
        raise Unsupported("load type %s" % ll.tstr(t))

    def load_instr(self, d, a, t):
        mod = self.mod
        ty = mod.ty(t)
        if ty[0] in "sav":
            parts = self.flat_type(t, 0)
            convs = [self.conv_load(p[3]) for p in parts]
            def build(t, vals):
                if mod.ty(t)[0] in "sav":
                    return tuple(build(mod.elemty(t, i), vals) for i in range(mod.nelem(t)))
                return vals.pop(0)
            def f(ex, st, fr):
                p = fr.regs[a]
                vals = [c(ex, st, ex.load(st, ex.padd(p, off), sz)) for (path, off, sz, tt), c in zip(parts, convs)]
                fr.regs[d] = build(t, vals)
            return f
        sz = mod.ssize(t)
        if ty[0] == "i" and ty[1] % 8 == 0:
            g = self.conv_load(t)
            def f(ex, st, fr):
                v = ex.load(st, fr.regs[a], sz)
                fr.regs[d] = v if v.__class__ is int else g(ex, st, v)
            return f
        g = self.conv_load(t)
        def f(ex, st, fr):
            fr.regs[d] = g(ex, st, ex.load(st, fr.regs[a], sz))
        return f

    def gep(self, i, d):
        mod = self.mod
        a = self.slot(ll.Op(i, 0))
        n = ll.NumOps(i)
        t = ll.GEPSrcTy(i)
        if mod.ty(ll.TypeOf(i))[0] == "v":
            def f(ex, st, fr):
                raise Unsupported("vector gep")
            return f
        const = 0
        var = []   # (slot, scale, width)
        for k in range(1, n):
            o = ll.Op(i, k)
            w = mod.ty(ll.TypeOf(o))[1]
            isc = ll.ValueKind(o) == 18
            if k > 1:
                if mod.ty(t)[0] == "s":
                    ci = mod.const(o)
                    const += ll.OffsetOf(mod.dl, t, ci)
                    t = ll.StructElt(t, ci)
                    continue
                t = ll.ElementType(t)
            sz = mod.size(t)
            if isc:
                const += sgn(mod.const(o), w) * sz
            else:
                var.append((self.slot(o), sz, w))
        if not var:
            def f(ex, st, fr):
                p = fr.regs[a]
                fr.regs[d] = (p + const) & M64 if p.__class__ is int else ex.padd(p, const)
            return f
        if len(var) == 1:
            s, sz, w = var[0]
            h = 1 << (w - 1)
            full = 1 << w
            def f(ex, st, fr):
                r = fr.regs
                p, x = r[a], r[s]
                if p.__class__ is int and x.__class__ is int:
                    r[d] = (p + const + (x - full if x >= h else x) * sz) & M64
                else:
                    r[d] = ex.padd_sym(st, ex.padd(p, const), x, sz, w)
            return f
        def f(ex, st, fr):
            r = fr.regs
            p = ex.padd(r[a], const)
            for s, sz, w in var:
                p = ex.padd_sym(st, p, r[s], sz, w)
            r[d] = p
        return f

    def call(self, i, d, invoke):
        mod = self.mod
        callee = ll.CalledValue(i)
        na = ll.NumArgs(i)
        args = [self.slot(ll.Op(i, k)) for k in range(na)]
        vk = ll.ValueKind(callee)
        if vk == 6:
            callee = ll.AliasGetAliasee(callee)
            vk = ll.ValueKind(callee)
        rt = ll.TypeOf(i)
        rty = mod.ty(rt)
        gn = self.jump(ll.NormalDest(i)) if invoke else None
        # unwind edge: phi moves are evaluated at throw time
        gu = self.jump(ll.UnwindDest(i)) if invoke else None
        txt = None
        if vk == 23:
            txt = ll.pstr(i)
            def f(ex, st, fr):
                v = ex.inline_asm(st, txt, [fr.regs[s] for s in args])
                fr.regs[d] = v
                if gn: gn(fr); return True
            return f
        if vk == 5:
            nm = ll.name(callee)
            if nm.startswith("llvm.dbg") or nm.startswith("llvm.lifetime") or nm in ("llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.donothing") or nm.startswith("llvm.invariant") :
                return None
            target = nm
        else:
            target = None
            cslot = self.slot(callee)
        argt = [mod.ty(ll.TypeOf(ll.Op(i, k))) for k in range(na)]
        site = [None]
        def f(ex, st, fr):
            r = fr.regs
            av = [r[s] for s in args]
            if target is None:
                p = r[cslot]
                if not isinstance(p, int):
                    p = ex.concretize(st, p, 16)
                nm = mod.addrfn.get(p)
                if nm is None:
                    h = ex.fnptr.get(p)
                    if h is None:
                        ex.violation(st, "badcall", "call through invalid function pointer %#x" % p)
                    nm = h
            else:
                nm = target
            return ex.call(st, fr, nm, av, d, gn, gu, rty, argt)
        return f
