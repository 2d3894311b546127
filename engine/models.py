"""Models of what lies outside the encoded code: libc, C++ runtime, LLVM
intrinsics, GMP and the harness API (vp_*)."""
import math
import os, re, math, struct
import z3
from .symex import *
from . import symex as sx
from . import llvm as ll

MODELS, PATTERNS = {}, []
def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d
def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d

ZC = z3.BitVecVal
def If(c, a, b): return z3.If(c, a, b)

# ============================================================ harness API
def _name(ex, st, p):
    s = ex.cstr(st, p)
    return s.decode()

def _input(ex, st, name, w):
    n = len(st.inputs)
    v = z3.BitVec("in_%s_%d" % (name, n), w)
    st.inputs.append((name, v, w))
    return v
@model("vp_u64")
def _(ex, st, a): return _input(ex, st, _name(ex, st, a[0]), 64)
@model("vp_u32")
def _(ex, st, a): return _input(ex, st, _name(ex, st, a[0]), 32)
@model("vp_u16")
def _(ex, st, a): return _input(ex, st, _name(ex, st, a[0]), 16)
@model("vp_u8")
def _(ex, st, a): return _input(ex, st, _name(ex, st, a[0]), 8)
@model("vp_bits")
def _(ex, st, a):
    k = a[1]
    v = _input(ex, st, _name(ex, st, a[0]), k)
    return z3.ZeroExt(64 - k, v) if k < 64 else v
@model("__cxa_thread_atexit", "__cxa_atexit", "atexit")
def _(ex, st, a): return 0
@model("vp_bytes")
def _(ex, st, a):
    p, n, nm = a[0], a[1], _name(ex, st, a[2])
    if n == 0: return
    v = _input(ex, st, nm, 8 * n)
    for i in range(n):
        ex.store(st, p + i, 1, z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)))
@model("vp_mpz")
def _(ex, st, a):
    """signed symbolic integer with |v| < 2^bits (bits = 0: unbounded, int mode only)"""
    nm = _name(ex, st, a[1])
    bits = a[2]
    if ex.mode == "int":
        n = len(st.inputs)
        v = z3.Int("in_%s_%d" % (nm, n))
        st.inputs.append((nm, v, 0))
        if bits:
            ex.define(st, z3.And(v < (1 << bits), v > -(1 << bits)))
        zset(ex, st, a[0], v)
    else:
        v = _input(ex, st, nm, bits + 1)
        st.inputs[-1] = (nm, v, -(bits + 1))
        ex.define(st, v != ZC(1 << bits, bits + 1))
        zset(ex, st, a[0], v)
@model("vp_mpz_u")
def _(ex, st, a):
    """symbolic integer 0 <= v < 2^bits"""
    nm = _name(ex, st, a[1])
    bits = a[2]
    if ex.mode == "int":
        n = len(st.inputs)
        v = z3.Int("in_%s_%d" % (nm, n))
        st.inputs.append((nm, v, 0))
        ex.define(st, z3.And(v < (1 << bits), v >= 0) if bits else v >= 0)
        zset(ex, st, a[0], v)
    else:
        v = _input(ex, st, nm, bits)
        zset(ex, st, a[0], z3.ZeroExt(1, v))
@model("vp_param")
def _(ex, st, a): return ex.params[a[0]] & M64
@model("vp_assume")
def _(ex, st, a): ex.assume(st, sx.simp(tobv(a[0], 32) != 0) if not isinstance(a[0], (int, BoolRef)) else a[0])
def _cond(v):
    if isinstance(v, (int, BoolRef)): return v
    if is_ite(v): return norm(lift_cmp(v, lambda x: x != 0))
    return norm(z3.simplify(v != 0))
@model("vp_check")
def _(ex, st, a):
    m = _name(ex, st, a[1])
    ex.res.checks += 1
    ex.res.check_msgs[m] = ex.res.check_msgs.get(m, 0) + 1
    ex.require(st, _cond(a[0]), "check", m)
    c = _cond(a[0])
@model("vp_check_mpz_eq")
def _(ex, st, a):
    m = _name(ex, st, a[2])
    ex.res.checks += 1
    ex.res.check_msgs[m] = ex.res.check_msgs.get(m, 0) + 1
    x, y = zget(ex, st, a[0]), zget(ex, st, a[1])
    c = zcmp_rel(x, y, "eq")
    if not isinstance(c, int) and (isinstance(x, ArithRef) or isinstance(y, ArithRef)):
        d = z3.simplify(zint(x) - zint(y), som=True)
        if z3.is_int_value(d) and d.as_long() == 0:
            c = 1
            ex.res.polyid = getattr(ex.res, "polyid", 0) + 1
    ex.require(st, c, "check", m)
@model("vp_reach")
def _(ex, st, a):
    m = _name(ex, st, a[0])
    if m in ex.res.reached:
        ex.res.reached[m] += 1
        return
    if st.model is None:
        if ex.query(st) != z3.sat:
            return
        st.model = ex.last_model
    ex.res.reached[m] = 1
@model("vp_stop")
def _(ex, st, a): 
    raise PathEnd()
@model("vp_is_sym")
def _(ex, st, a): return 1
@model("vp_and")
def _(ex, st, a): return simp(z3.And(tobool(_cond(a[0])), tobool(_cond(a[1]))))
@model("vp_or")
def _(ex, st, a): return simp(z3.Or(tobool(_cond(a[0])), tobool(_cond(a[1]))))
@model("vp_implies")
def _(ex, st, a): return simp(z3.Implies(tobool(_cond(a[0])), tobool(_cond(a[1]))))
@model("vp_pick")
def _(ex, st, a): return ex.concretize(st, a[0], a[1] if len(a) > 1 and isinstance(a[1], int) else 300)
@model("vp_uf")
def _(ex, st, a):
    """uninterpreted function name(x, y) -> u64 (same arguments, same result)"""
    nm = _name(ex, st, a[0])
    f = z3.Function("uf_" + nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(tobv(a[1], 64), tobv(a[2], 64))
@model("vp_alloc_size")
def _(ex, st, a):
    return ex.obj(st, a[0] >> OBJ_SHIFT).size - (a[0] & OFF_MASK)
@model("vp_readable")
def _(ex, st, a):
    p, n = a[0], a[1]
    if not isinstance(p, int): return 0
    o = st.mem.get(p >> OBJ_SHIFT) or ex.mod.gobj(p >> OBJ_SHIFT)
    return int(o is not None and (p & OFF_MASK) + n <= o.size)
@model("vp_same_object")
def _(ex, st, a):
    def oid(p): return p.oid if isinstance(p, SymPtr) else p >> OBJ_SHIFT
    return int(oid(a[0]) == oid(a[1]))
@model("vp_offset")
def _(ex, st, a):
    p, q = a
    def off(p): return p.off if isinstance(p, SymPtr) else p & OFF_MASK
    r = off(p) - off(q)
    return r & M64 if isinstance(r, int) else r
@model("vp_opaque")
def _(ex, st, a):
    """a huge object that is never materialised"""
    return ex.alloc(st, a[0], "heap", "opaque", True) << OBJ_SHIFT
@model("vp_log")
def _(ex, st, a):
    print("LOG", _name(ex, st, a[0]), a[1] if isinstance(a[1], int) else z3.simplify(a[1]))
@model("vp_log_mpz")
def _(ex, st, a):
    print("LOG", _name(ex, st, a[0]), zget(ex, st, a[1]))

# ============================================================ llvm intrinsics
@pattern(r"^llvm\.(memcpy|memmove)\.")
def _(ex, st, a): ex.memcpy(st, a[0], a[1], a[2])
@model("memcpy", "memmove", "__memcpy_chk")
def _(ex, st, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]
@pattern(r"^llvm\.memset\.")
def _(ex, st, a): ex.memset(st, a[0], a[1], a[2])
@model("memset", "__memset_chk")
def _(ex, st, a):
    ex.memset(st, a[0], a[1], a[2])
    return a[0]
def clz(v, w):
    if isinstance(v, int): return w - v.bit_length()
    r = ZC(w, w)
    for i in range(w):
        r = If(z3.Extract(i, i, v) == 1, ZC(w - 1 - i, w), r)
    return r
def ctz(v, w):
    if isinstance(v, int): return (v & -v).bit_length() - 1 if v else w
    r = ZC(w, w)
    for i in reversed(range(w)):
        r = If(z3.Extract(i, i, v) == 1, ZC(i, w), r)
    return r
def _w(ex, nm): return int(nm.rsplit(".i", 1)[1])
def _named(prefix, f):
    # closures need the width: matched per name
    pass
for _wd in (8, 16, 32, 64, 128):
    def mk(w):
        msk = (1 << w) - 1
        def lz(ex, st, a):
            if w == 64 and not isinstance(a[0], int):
                r = limb_clz(ex, st, a[0])
                if r is not None: return r
            return clz(a[0], w)
        MODELS["llvm.ctlz.i%d" % w] = lz
        MODELS["llvm.cttz.i%d" % w] = lambda ex, st, a: ctz(a[0], w)
        def pop(ex, st, a):
            v = a[0]
            if isinstance(v, int): return bin(v).count("1")
            r = ZC(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
            return r
        MODELS["llvm.ctpop.i%d" % w] = pop
        def bswap(ex, st, a):
            v = a[0]
            if isinstance(v, int): return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
        MODELS["llvm.bswap.i%d" % w] = bswap
        def brev(ex, st, a):
            v = a[0]
            if isinstance(v, int): return int(bin(v)[2:].zfill(w)[::-1], 2)
            return z3.Concat(*[z3.Extract(i, i, v) for i in range(w)])
        MODELS["llvm.bitreverse.i%d" % w] = brev
        def mm(p):
            def f(ex, st, a):
                c = icmp(p, a[0], a[1], w)
                if isinstance(c, int): return a[0] if c else a[1]
                return If(c, tobv(a[0], w), tobv(a[1], w))
            return f
        MODELS["llvm.umax.i%d" % w] = mm(34)
        MODELS["llvm.umin.i%d" % w] = mm(36)
        MODELS["llvm.smax.i%d" % w] = mm(38)
        MODELS["llvm.smin.i%d" % w] = mm(40)
        def ab(ex, st, a):
            v = a[0]
            if isinstance(v, int): return (-v) & msk if v >> (w - 1) else v
            return If(v < 0, -v, v)
        MODELS["llvm.abs.i%d" % w] = ab
        def fsh(left):
            def f(ex, st, a):
                x, y, s = a
                if isinstance(s, int):
                    s %= w
                    if isinstance(x, int) and isinstance(y, int):
                        c = (x << w) | y
                        return ((c << s) >> w) & msk if left else (c >> s) & msk
                    x, y = tobv(x, w), tobv(y, w)
                    if x is y or x.eq(y):
                        return z3.RotateLeft(x, s) if left else z3.RotateRight(x, s)
                    if s == 0: return x if left else y
                    if left: return simp(z3.Concat(z3.Extract(w - 1 - s, 0, x), z3.Extract(w - 1, w - s, y)))
                    return simp(z3.Concat(z3.Extract(s - 1, 0, x), z3.Extract(w - 1, s, y)))
                c = z3.Concat(tobv(x, w), tobv(y, w))
                sh = z3.ZeroExt(w, z3.URem(tobv(s, w), ZC(w, w)))
                return z3.Extract(2 * w - 1, w, c << sh) if left else z3.Extract(w - 1, 0, z3.LShR(c, sh))
            return f
        MODELS["llvm.fshl.i%d" % w] = fsh(True)
        MODELS["llvm.fshr.i%d" % w] = fsh(False)
        def ovf(kind, signed):
            def f(ex, st, a):
                x, y = a
                if isinstance(x, int) and isinstance(y, int):
                    if signed: x, y = sgn(x, w), sgn(y, w)
                    r = {"add": x + y, "sub": x - y, "mul": x * y}[kind]
                    o = not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if signed else not (0 <= r <= msk)
                    return (r & msk, int(o))
                x, y = tobv(x, w), tobv(y, w)
                e = z3.SignExt if signed else z3.ZeroExt
                k = w if kind == "mul" else 2
                xx, yy = e(k, x), e(k, y)
                if kind == "add": r, rr = x + y, xx + yy
                elif kind == "sub": r, rr = x - y, xx - yy
                else: r, rr = x * y, xx * yy
                return (r, simp(rr != e(k, r)))
            return f
        for kind in ("add", "sub", "mul"):
            MODELS["llvm.u%s.with.overflow.i%d" % (kind, w)] = ovf(kind, False)
            MODELS["llvm.s%s.with.overflow.i%d" % (kind, w)] = ovf(kind, True)
        def usubsat(ex, st, a):
            c = icmp(34, a[0], a[1], w)
            if isinstance(c, int): return binop(10, a[0], a[1], w) if c else 0
            return If(c, tobv(a[0], w) - tobv(a[1], w), ZC(0, w))
        MODELS["llvm.usub.sat.i%d" % w] = usubsat
        def uaddsat(ex, st, a):
            s = binop(8, a[0], a[1], w)
            c = icmp(36, s, a[0], w)
            if isinstance(c, int): return msk if c else s
            return If(c, ZC(msk, w), tobv(s, w))
        MODELS["llvm.uadd.sat.i%d" % w] = uaddsat
        MODELS["llvm.expect.i%d" % w] = lambda ex, st, a: a[0]
        MODELS["llvm.is.constant.i%d" % w] = lambda ex, st, a: 0
    mk(_wd)
MODELS["llvm.expect.i1"] = lambda ex, st, a: a[0]
@model("llvm.trap", "llvm.debugtrap")
def _(ex, st, a): ex.violation(st, "trap", "llvm.trap")
@pattern(r"^llvm\.eh\.typeid\.for")
def _(ex, st, a): return ex.typeid(a[0])
@pattern(r"^llvm\.stacksave")
def _(ex, st, a): return 0
@pattern(r"^llvm\.(stackrestore|prefetch|va_start|va_end|var\.annotation|pseudoprobe|experimental)")
def _(ex, st, a): return None
@pattern(r"^llvm\.objectsize")
def _(ex, st, a): return M64 if not a[1] else 0
@pattern(r"^llvm\.(launder|strip)\.invariant|^llvm\.ptr\.annotation|^llvm\.threadlocal\.address")
def _(ex, st, a): return a[0]
def _fp1(names, py, z):
    def f(ex, st, a):
        v = a[0]
        if isinstance(v, (int, float)): return float(py(v))
        return z(v)
    for n in names: MODELS[n] = f
_fp1(["llvm.fabs.f64", "fabs"], abs, z3.fpAbs)
_fp1(["llvm.floor.f64", "floor"], math.floor, lambda v: z3.fpRoundToIntegral(z3.RTN(), v))
_fp1(["llvm.ceil.f64", "ceil"], math.ceil, lambda v: z3.fpRoundToIntegral(z3.RTP(), v))
def _round(x):
    return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
_fp1(["llvm.round.f64", "round"], _round, lambda v: z3.fpRoundToIntegral(z3.RNA(), v))
_fp1(["llvm.trunc.f64", "trunc"], math.trunc, lambda v: z3.fpRoundToIntegral(z3.RTZ(), v))
_fp1(["llvm.sqrt.f64", "sqrt"], math.sqrt, lambda v: z3.fpSqrt(z3.RNE(), v))
@model("llvm.fmuladd.f64")
def _(ex, st, a):
    if all(isinstance(x, (int, float)) for x in a): return a[0] * a[1] + a[2]
    x = [tofp(v, 64) for v in a]
    return z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), x[0], x[1]), x[2])
def _conc_fp(names, f):
    def g(ex, st, a):
        if not all(isinstance(x, (int, float)) for x in a): raise Unsupported(names[0] + " on symbolic double")
        return float(f(*a))
    for n in names: MODELS[n] = g
_conc_fp(["log", "llvm.log.f64"], math.log)
_conc_fp(["log2", "llvm.log2.f64"], math.log2)
_conc_fp(["log10"], math.log10)
_conc_fp(["exp", "llvm.exp.f64"], math.exp)
_conc_fp(["exp2", "llvm.exp2.f64"], lambda x: 2.0 ** x)
_conc_fp(["pow", "llvm.pow.f64"], lambda x, y: x ** y)

# ============================================================ libc / libc++
def _alloc(kind, sizearg=0, zero=False):
    def f(ex, st, a):
        n = a[sizearg]
        if not isinstance(n, int):
            n = ex.concretize(st, n, 300)
        if n > (1 << 39):
            if kind == "malloc": return 0
            ex.throw_std(st, "_ZTISt9bad_alloc")
        return ex.alloc(st, n, kind, kind, zero) << OBJ_SHIFT
    return f
MODELS["malloc"] = _alloc("malloc")
MODELS["_Znwm"] = _alloc("new")
MODELS["_Znam"] = _alloc("new[]")
MODELS["_ZnwmRKSt9nothrow_t"] = _alloc("new")
MODELS["_ZnamRKSt9nothrow_t"] = _alloc("new[]")
MODELS["_ZnwmSt11align_val_t"] = _alloc("new")
MODELS["_ZnamSt11align_val_t"] = _alloc("new[]")
@model("calloc")
def _(ex, st, a): return ex.alloc(st, ex.concretize(st, a[0]) * ex.concretize(st, a[1]), "malloc", "calloc", True) << OBJ_SHIFT
@model("aligned_alloc", "memalign", "_mm_malloc")
def _(ex, st, a): return ex.alloc(st, ex.concretize(st, a[1]), "malloc", "aligned_alloc") << OBJ_SHIFT
@model("posix_memalign")
def _(ex, st, a):
    p = ex.alloc(st, ex.concretize(st, a[2]), "malloc", "posix_memalign") << OBJ_SHIFT
    ex.store(st, a[0], 8, p)
    return 0
def _free(names, kinds):
    def f(ex, st, a):
        p = a[0]
        if not isinstance(p, int): p = ex.concretize(st, p)
        if p == 0: return
        oid = p >> OBJ_SHIFT
        o = st.mem.get(oid)
        if o is None or (p & OFF_MASK):
            ex.violation(st, "memory", "free of invalid pointer %#x" % p)
        if o.kind not in kinds:
            ex.violation(st, "memory", "%s of an object from %s" % (names[0], o.kind))
        del st.mem[oid]
        st.freed += 1
    for n in names: MODELS[n] = f
_free(["free"], ("malloc",))
_free(["_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"], ("new",))
_free(["_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"], ("new[]",))
@model("realloc")
def _(ex, st, a):
    n = ex.concretize(st, a[1])
    p = a[0]
    q = ex.alloc(st, n, "malloc", "realloc") << OBJ_SHIFT
    if p:
        o = ex.obj(st, p >> OBJ_SHIFT)
        ex.memcpy(st, q, p, min(n, o.size))
        MODELS["free"](ex, st, [p])
    return q
@model("strlen")
def _(ex, st, a):
    p = ex.concretize(st, a[0]) if not isinstance(a[0], int) else a[0]
    n = 0
    while True:
        b = ex.load(st, p + n, 1)
        if not isinstance(b, int):
            if ex.decide(st, b == 0): return n
        elif b == 0: return n
        n += 1
        if n > 100000: raise Inconclusive("strlen")
def _memcmp(ex, st, p, q, n):
    """lexicographic sign as ITE"""
    xs, ys = ex.read_bytes(st, p, n), ex.read_bytes(st, q, n)
    r = ZC(0, 32)
    for x, y in reversed(list(zip(xs, ys))):
        if isinstance(x, int) and isinstance(y, int):
            if x == y: continue
            r = ZC(M64 & 0xffffffff if x < y else 1, 32)
            continue
        x, y = tobv(x, 8), tobv(y, 8)
        r = If(x == y, r, If(z3.ULT(x, y), ZC(0xffffffff, 32), ZC(1, 32)))
    return norm(z3.simplify(r)) if not isinstance(r, int) else r
@model("memcmp", "bcmp")
def _(ex, st, a):
    n = ex.concretize(st, a[2])
    if n == 0: return 0
    xs, ys = ex.read_bytes(st, a[0], n), ex.read_bytes(st, a[1], n)
    return _memcmp(ex, st, a[0], a[1], n)
@model("strcmp")
def _(ex, st, a):
    i = 0
    while True:
        x, y = ex.load(st, a[0] + i, 1), ex.load(st, a[1] + i, 1)
        eq = icmp(32, x, y, 8)
        if not ex.decide(st, eq) if not isinstance(eq, int) else not eq:
            lt = icmp(36, x, y, 8)
            if isinstance(lt, int): return 0xffffffff if lt else 1
            return If(lt, ZC(0xffffffff, 32), ZC(1, 32))
        z = icmp(32, x, 0, 8)
        if (ex.decide(st, z) if not isinstance(z, int) else z): return 0
        i += 1
@model("strncmp")
def _(ex, st, a):
    n = ex.concretize(st, a[2])
    for i in range(n):
        x, y = ex.load(st, a[0] + i, 1), ex.load(st, a[1] + i, 1)
        eq = icmp(32, x, y, 8)
        if not (ex.decide(st, eq) if not isinstance(eq, int) else eq):
            lt = icmp(36, x, y, 8)
            if isinstance(lt, int): return 0xffffffff if lt else 1
            return If(lt, ZC(0xffffffff, 32), ZC(1, 32))
        z = icmp(32, x, 0, 8)
        if (ex.decide(st, z) if not isinstance(z, int) else z): return 0
    return 0
@model("memchr")
def _(ex, st, a):
    n = ex.concretize(st, a[2])
    for i in range(n):
        b = ex.load(st, a[0] + i, 1)
        c = icmp(32, b, trunc(a[1], 32, 8), 8)
        if (ex.decide(st, c) if not isinstance(c, int) else c): return a[0] + i
    return 0
@model("strchr")
def _(ex, st, a):
    i = 0
    while True:
        b = ex.load(st, a[0] + i, 1)
        c = icmp(32, b, trunc(a[1], 32, 8), 8)
        if (ex.decide(st, c) if not isinstance(c, int) else c): return a[0] + i
        z = icmp(32, b, 0, 8)
        if (ex.decide(st, z) if not isinstance(z, int) else z): return 0
        i += 1
@model("abort", "_ZSt9terminatev", "__clang_call_terminate", "exit", "_exit", "__assert_fail", "raise", "__cxa_pure_virtual", "__cxa_call_unexpected", "_ZSt21__glibcxx_assert_failPKciS0_S0_")
def _(ex, st, a): ex.violation(st, "abort", "program terminated (abort/exit/terminate)")
@model("printf", "puts", "putchar", "fprintf", "fflush", "perror", "vfprintf", "fputs", "fputc", "fwrite", "dprintf", "setvbuf", "__printf_chk", "__fprintf_chk",
       "mp_set_memory_functions", "__gmp_set_memory_functions", "__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy",
       "usleep", "sleep", "sched_yield", "fesetround", "nanosleep", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_free_exception", "atexit", "signal", "srand", "pthread_cond_destroy",
       "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev")
def _(ex, st, a): return 0
@model("__cxa_guard_acquire")
def _(ex, st, a):
    b = ex.load(st, a[0], 1)
    if b: return 0
    ex.store(st, a[0], 1, 1)
    return 1
@model("getenv")
def _(ex, st, a): return 0
@model("__errno_location")
def _(ex, st, a):
    k = st.user.get("errno")
    if k is None:
        k = ex.alloc(st, 4, "global", "errno", True) << OBJ_SHIFT
        st.user["errno"] = k
    return k
@pattern(r"^std::(basic_)?(ostream|ios|basic_ostream<|basic_ios<|ios_base|__ostream_insert|endl|flush|basic_istream<char.*>::~|locale)|operator<<.*\(std::(basic_)?ostream|std::basic_ostream<char, std::char_traits<char> >::|std::operator<< ?<|std::ostream::|std::ios_base::|std::basic_ios<")
def _(ex, st, a): return a[0] if a else 0
@pattern(r"^std::chrono::_V2::(steady|system|high_resolution)_clock::now")
def _(ex, st, a):
    ex.res.notes.append("clock")
    return ex.fresh(st, "clock", 64)
@pattern(r"^std::this_thread::(sleep|yield)|^std::thread::hardware_concurrency")
def _(ex, st, a): return 4
# exceptions
@model("__cxa_allocate_exception")
def _(ex, st, a): return ex.alloc(st, max(64, a[0]), "exc", "exception", True) << OBJ_SHIFT
@model("__cxa_throw")
def _(ex, st, a): raise CppThrow(a[0], a[1])
@model("__cxa_begin_catch")
def _(ex, st, a):
    st.caught.append(st.exc)
    return a[0]
@model("__cxa_get_exception_ptr")
def _(ex, st, a): return a[0]
@model("__cxa_end_catch")
def _(ex, st, a):
    if st.caught: st.caught.pop()
@model("__cxa_rethrow")
def _(ex, st, a):
    p, t = st.caught[-1]
    raise CppThrow(p, t)
def std_vtable(ex, st):
    """vtable for library exception objects: destructors and what()"""
    k = st.user.get("excvt")
    if k is None:
        fp = {0x7001 << OBJ_SHIFT: "vp_nop", 0x7002 << OBJ_SHIFT: "vp_what"}
        ex.fnptr.update(fp)
        k = ex.alloc(st, 24, "global", "exc_vtable", True) << OBJ_SHIFT
        for i, p in enumerate((0x7001, 0x7001, 0x7002)):
            ex.store(st, k + 8 * i, 8, p << OBJ_SHIFT)
        st.user["excvt"] = k
    return k
@pattern(r"^std::(runtime_error|logic_error|out_of_range|length_error|invalid_argument|overflow_error|domain_error|range_error|underflow_error|exception|bad_alloc)::(~?\w+)\(")
def _(ex, st, a):
    p = a[0]
    if isinstance(p, int):
        o = st.mem.get(p >> OBJ_SHIFT)
        if o is not None and o.kind == "exc" and (p & OFF_MASK) == 0:
            ex.store(st, p, 8, std_vtable(ex, st))
    return 0
@model("vp_nop")
def _(ex, st, a): return 0
MODELS["vp_what"] = lambda ex, st, a: what_(ex, st, a)
@pattern(r"^std::(runtime_error|logic_error|exception)::what")
def what_(ex, st, a):
    k = st.user.get("what")
    if k is None:
        k = ex.alloc(st, 5, "global", "what", True) << OBJ_SHIFT
        for i, c in enumerate(b"what"): ex.store(st, k + i, 1, c)
        st.user["what"] = k
    return k
for _n, _c in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"), ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
               ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"), ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
               ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"), ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"),
               ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"), ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"),
               ("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"), ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"),
               ("_ZSt20__throw_system_errori", "_ZTISt12system_error")):
    MODELS[_n] = (lambda c: lambda ex, st, a: ex.throw_std(st, c))(_c)

# ============================================================ GMP
NLIMB_OBJ = 1 << 20
def zw(v):
    """bits of a signed representation of v"""
    return v.bit_length() + 1 if isinstance(v, int) else v.size()
def zext_to(v, w):
    if isinstance(v, int): return ZC(v, w)
    return z3.SignExt(w - v.size(), v) if v.size() < w else v
def zint(v):
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, ArithRef): return v
    return z3.BV2Int(v, is_signed=True)
def has_int(*vs): return any(isinstance(v, ArithRef) for v in vs)
def znorm(v):
    if isinstance(v, int): return v
    if isinstance(v, ArithRef):
        if z3.is_int_value(v): return v.as_long()
        return pput(pget(v)) if POLY[0] else v
    if z3.is_bv_value(v):
        return v.as_signed_long()
    return v
def zs(v):
    return v if isinstance(v, int) else znorm(z3.simplify(v))
# ---- polynomial normal form of unbounded integers (option "poly")
# {monomial (sorted tuple of atom ids): coefficient}
PATOM, PCACHE = {}, {}
POLY = [False]
def pget(v):
    if isinstance(v, int): return {(): v} if v else {}
    k = v.get_id()
    c = PCACHE.get(k)
    if c is not None and c[0].eq(v): return c[1]
    p = None
    if z3.is_int_value(v):
        n = v.as_long(); p = {(): n} if n else {}
    elif z3.is_app(v):
        kd, ch = v.decl().kind(), v.children()
        if kd == z3.Z3_OP_ADD:
            p = {}
            for x in ch: p = padd(p, pget(x))
        elif kd == z3.Z3_OP_SUB:
            p = pget(ch[0])
            for x in ch[1:]: p = padd(p, pget(x), -1)
        elif kd == z3.Z3_OP_UMINUS: p = padd({}, pget(ch[0]), -1)
        elif kd == z3.Z3_OP_MUL:
            p = {(): 1}
            for x in ch: p = pmul(p, pget(x))
    if p is None:
        PATOM[k] = v
        p = {(k,): 1}
    PCACHE[k] = (v, p)
    return p
def padd(p, q, s=1):
    r = dict(p)
    for k, c in q.items():
        n = r.get(k, 0) + s * c
        if n: r[k] = n
        else: r.pop(k, None)
    return r
def pmul(p, q):
    r = {}
    for k, c in p.items():
        for l, d in q.items():
            m = tuple(sorted(k + l))
            n = r.get(m, 0) + c * d
            if n: r[m] = n
            else: r.pop(m, None)
    return r
def pput(p):
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    ts = []
    for k in sorted(p, key=lambda k: (-len(k), k)):
        c = p[k]
        if not k: ts.append(z3.IntVal(c)); continue
        x = PATOM[k[0]]
        for a in k[1:]: x = x * PATOM[a]
        ts.append(x if c == 1 else z3.IntVal(c) * x)
    v = ts[0] if len(ts) == 1 else z3.Sum(ts)
    PCACHE[v.get_id()] = (v, p)
    return v
def pdiv(n, d):
    """(q, r) with n = q*d + r, deg r < deg d, for polynomials in one atom; None if not integral"""
    at = {a for k in (*n, *d) for a in k}
    if len(at) != 1: return None
    (t,) = at
    N = {len(k): c for k, c in n.items()}; D = {len(k): c for k, c in d.items()}
    dd = max(D)
    Q = {}
    while N and max(N) >= dd:
        e = max(N)
        if N[e] % D[dd]: return None
        c = N[e] // D[dd]; Q[e - dd] = c
        for k, x in D.items():
            y = N.get(k + e - dd, 0) - c * x
            if y: N[k + e - dd] = y
            else: N.pop(k + e - dd, None)
    f = lambda P: {(t,) * k: c for k, c in P.items()}
    return f(Q), f(N)

def ueval(c, x):
    r = 0
    for k in reversed(c): r = r * x + k
    return r
def usign(c):
    """Sign of the integer polynomial sum c[i] x^i at every integer: [(first x or None, sign)] in order."""
    while c and c[-1] == 0: c = c[:-1]
    if len(c) <= 1:
        v = c[0] if c else 0
        return [(None, (v > 0) - (v < 0))]
    # p is monotone over the integers wherever its forward difference keeps its sign
    sh = [0] * len(c)
    for i, k in enumerate(c):
        for j in range(i + 1): sh[j] += k * math.comb(i, j)
    dif = [a - b for a, b in zip(sh, c)][:-1]
    seg = usign(dif)
    sg = lambda v: (v > 0) - (v < 0)
    out = []
    def emit(x, s):
        if not out or out[-1][1] != s: out.append((x, s))
    B = 1 + max(abs(k) for k in c)                        # beyond the Cauchy bound the sign is the leading one
    for i, (lo, d) in enumerate(seg):
        hi = seg[i + 1][0] if i + 1 < len(seg) else None  # p(x+1)-p(x) has sign d for lo <= x < hi
        a, b = (-B if lo is None else lo), (B if hi is None else hi)
        if b < a: a = b = (lo if lo is not None else hi)
        emit(lo, sg(ueval(c, a)))
        x, s = a, sg(ueval(c, a))
        while s != sg(ueval(c, b)):                       # next x with another sign
            l, h = x, b
            while h - l > 1:
                k = (l + h) // 2
                if sg(ueval(c, k)) == s: l = k
                else: h = k
            s = sg(ueval(c, h)); x = h
            emit(h, s)
    return out
USIGN = {}
def ulinear(p, c, rel):
    """p + c REL 0 for a polynomial of degree > 1 in one atom, as linear bounds on the atom; None otherwise"""
    at = {a for k in p for a in k}
    if len(at) != 1 or max(map(len, p)) < 2 or max(map(len, p)) > 8: return None
    (t,) = at
    co = [0] * (max(map(len, p)) + 1)
    for k, v in p.items(): co[len(k)] = v
    co[0] = c
    key = tuple(co)
    sg = USIGN.get(key)
    if sg is None: sg = USIGN[key] = usign(co)
    ok = {"eq": (0,), "lt": (-1,), "le": (-1, 0), "gt": (1,), "ge": (0, 1)}[rel]
    T, r = PATOM[t], []
    for i, (lo, s) in enumerate(sg):
        if s not in ok: continue
        hi = sg[i + 1][0] if i + 1 < len(sg) else None
        b = ([T >= lo] if lo is not None else []) + ([T < hi] if hi is not None else [])
        r.append(z3.And(*b) if b else z3.BoolVal(True))
    return norm(z3.simplify(z3.Or(*r))) if r else 0

def zadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    if has_int(a, b): return znorm(zint(a) + zint(b))
    w = max(zw(a), zw(b)) + 1
    return zs(zext_to(a, w) + zext_to(b, w))
def zneg(a):
    if isinstance(a, int): return -a
    if has_int(a): return znorm(-a)
    return zs(-z3.SignExt(1, a))
def zsub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    if has_int(a, b): return znorm(zint(a) - zint(b))
    w = max(zw(a), zw(b)) + 1
    return zs(zext_to(a, w) - zext_to(b, w))
def zmul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0: return 0
            if x == 1: return y
            if x == -1: return zneg(y)
            if not has_int(y) and x > 0 and x & (x - 1) == 0: return zshl(y, x.bit_length() - 1)
    if has_int(a, b): return znorm(zint(a) * zint(b))
    w = zw(a) + zw(b)
    return zs(zext_to(a, w) * zext_to(b, w))
def zshl(a, k):
    if isinstance(a, int): return a << k
    if k == 0: return a
    if has_int(a): return znorm(a * (1 << k))
    return zs(z3.Concat(a, ZC(0, k)))
def zabs(a):
    if isinstance(a, int): return abs(a)
    if has_int(a): return z3.If(a < 0, -a, a)
    neg = zsignbit(a)
    if isinstance(neg, int) and not neg: return a
    b = z3.SignExt(1, a)
    return zs(z3.If(neg, -b, b) if not isinstance(neg, int) else -b)
def zsignbit(a):
    """sign of a BV as a simplified Bool or 0/1"""
    return norm(z3.simplify(z3.Extract(a.size() - 1, a.size() - 1, a) == 1))
def zfdiv2(a, k):
    if isinstance(a, int): return a >> k
    if k == 0: return a
    if has_int(a):
        if POLY[0]:
            P = pget(a)
            if all(c % (1 << k) == 0 for m, c in P.items() if m): return pput({m: c >> k for m, c in P.items() if c >> k})
        return znorm(a / (1 << k))
    if k >= a.size(): return zs(z3.SignExt(0, z3.Extract(a.size() - 1, a.size() - 1, a)))
    return zs(z3.Extract(a.size() - 1, k, a))
def zfmod2(a, k):
    if isinstance(a, int): return a & ((1 << k) - 1)
    if k == 0: return 0
    if has_int(a):
        if POLY[0]:
            P = pget(a)
            if all(c % (1 << k) == 0 for m, c in P.items() if m): return P.get((), 0) % (1 << k)
        return znorm(a % (1 << k))
    if k >= a.size(): a = z3.SignExt(k - a.size() + 1, a)
    return zs(z3.ZeroExt(1, z3.Extract(k - 1, 0, a)))
def zcmp_rel(a, b, rel):
    """Bool/int for a rel b"""
    if isinstance(a, int) and isinstance(b, int):
        return int({"eq": a == b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[rel])
    if has_int(a, b):
        if POLY[0]:
            p = padd(pget(zint(a)), pget(zint(b)), -1)
            c = p.pop((), 0)
            if not p: return zcmp_rel(c, 0, rel)
            u = ulinear(p, c, rel)
            if u is not None: return u
            g = 0
            for x in p.values(): g = math.gcd(g, x)
            if rel == "eq":
                if c % g: return 0
                c //= g
            elif rel in ("le", "gt"): c = -(-c // g)             # p*g + c <= 0  <=>  p <= floor(-c/g)
            else: c = c // g                                     # p*g + c >= 0  <=>  p >= ceil(-c/g)
            x, y = zint(pput({k: v // g for k, v in p.items()})), z3.IntVal(-c)
        else: x, y = zint(a), zint(b)
    else:
        w = max(zw(a), zw(b))
        x, y = zext_to(a, w), zext_to(b, w)
    r = {"eq": lambda: x == y, "lt": lambda: x < y, "gt": lambda: x > y, "le": lambda: x <= y, "ge": lambda: x >= y}[rel]()
    return norm(z3.simplify(r))
def zsign(lt, eq):
    """int32 -1/0/1 from Bools"""
    if isinstance(eq, int) and eq: return 0
    if isinstance(lt, int):
        if lt: return 0xffffffff
        if isinstance(eq, int): return 1
        return z3.If(eq, ZC(0, 32), ZC(1, 32))
    if isinstance(eq, int):
        return z3.If(lt, ZC(0xffffffff, 32), ZC(1, 32))
    return z3.If(lt, ZC(0xffffffff, 32), z3.If(eq, ZC(0, 32), ZC(1, 32)))
def zite(c, a, b):
    if isinstance(c, int): return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    if has_int(a, b): return z3.If(c, zint(a), zint(b))
    w = max(zw(a), zw(b))
    return zs(z3.If(c, zext_to(a, w), zext_to(b, w)))

def sizeexpr(ex, st, v):
    """value of the _mp_size field for integer v"""
    if isinstance(v, int):
        n = (v.bit_length() + 63) // 64
        return (-n if v < 0 else n) & 0xffffffff
    if isinstance(v, ArithRef):
        n = ex.fresh(st, "nlimb", 32)
        k = ex.opts.get("int_limbs")
        if k:                                            # tie the number of limbs to the value
            m, r = z3.If(v < 0, -v, v), ZC(k + 1, 32)
            for i in range(k, 0, -1): r = z3.If(m < (1 << (64 * i)), ZC(i, 32), r)
            n = r
            e = z3.If(v < 0, -n, z3.If(v > 0, n, ZC(0, 32)))
            sx.SIZEVAL[e.get_id()] = (e, v)
            return e
        ex.define(st, z3.And(n != 0, z3.ULT(n, 1 << 20)))
        e = z3.If(v < 0, -n, z3.If(v > 0, n, ZC(0, 32)))
    else:
        w = v.size()
        neg = zsignbit(v)
        m = z3.If(neg, -v, v) if not isinstance(neg, int) else (-v if neg else v)
        n = ZC(0, 32)
        k = 0
        while 64 * k < w:
            hi = z3.Extract(w - 1, 64 * k, m)
            n = z3.If(hi != 0, ZC(k + 1, 32), n) if k == 0 else z3.If(hi != 0, ZC(k + 1, 32), n)
            k += 1
        e = z3.If(neg, -n, n) if not isinstance(neg, int) else (-n if neg else n)
        e = z3.simplify(e)
        if z3.is_bv_value(e): return e.as_long()
    sx.SIZEVAL[e.get_id()] = (e, v)
    return e

sx.zcmp_lt0 = lambda v: zcmp_rel(v, 0, "lt")
_old_icmp = sx.icmp
def icmp2(p, a, b, w):
    if w == 32:
        if isinstance(b, int) and b == 0 and isinstance(a, BVRef):
            r = sx.SIZEVAL.get(a.get_id())
            if r is not None and r[0].eq(a):
                v = r[1]
                if p == 32: return zcmp_rel(v, 0, "eq")
                if p == 33: return simp(z3.Not(tobool(zcmp_rel(v, 0, "eq"))))
                if p == 40: return zcmp_rel(v, 0, "lt")
                if p == 41: return zcmp_rel(v, 0, "le")
                if p == 38: return zcmp_rel(v, 0, "gt")
                if p == 39: return zcmp_rel(v, 0, "ge")
        elif isinstance(b, int) and isinstance(a, BVRef) and a.get_id() in sx.SIZEVAL:
            r = sx.SIZEVAL[a.get_id()]
            if r[0].eq(a):
                v = r[1]
                if p == 38 and b == 0xffffffff: return zcmp_rel(v, 0, "ge")   # > -1
                if p == 40 and b == 1: return zcmp_rel(v, 0, "le")            # < 1
    return _old_icmp(p, a, b, w)
sx.icmp = icmp2
icmp = icmp2

def zptr(ex, st, p):
    if not isinstance(p, int):
        p = ex.concretize(st, p, 300)
    return p
def zget(ex, st, p):
    p = zptr(ex, st, p)
    sz = ex.load(st, p + 4, 4)
    d = ex.load(st, p + 8, 8)
    if not isinstance(d, int):
        d = ex.concretize(st, d, 64)
    if isinstance(sz, int) and sz == 0:
        return 0
    o = st.mem.get(d >> OBJ_SHIFT)
    if o is None:
        o = ex.obj(st, d >> OBJ_SHIFT, "read of mpz limbs", d)
    if o.mpzv is not None and d & OFF_MASK == 0:
        v, s0 = o.mpzv
        if sz is s0 or (isinstance(sz, int) and isinstance(s0, int) and sz == s0) or (not isinstance(sz, int) and not isinstance(s0, int) and sz.eq(s0)):
            return v
        if isinstance(sz, int) and isinstance(s0, int):
            n, n0 = sgn(sz, 32), sgn(s0, 32)
            m = abs(v) if isinstance(v, int) else zabs(v)
            if abs(n) != abs(n0):
                if abs(n) > abs(n0): raise Unsupported("mpz size field enlarged")
                m = zfmod2(m, 64 * abs(n))
            return zneg(m) if n < 0 else m
        # negated symbolic size?
        if not isinstance(sz, int) and not isinstance(s0, int):
            if isinstance(simp(sz + s0), int):
                return zneg(v)
            m = zabs(v)
            if ex.query(st, z3.And(sz != s0, sz != -s0)) == z3.unsat:
                return zite(norm(z3.simplify(sz < 0)), zneg(m), m)
        raise Unsupported("mpz with inconsistent size field")
    # raw limbs
    if not isinstance(sz, int):
        sz = ex.concretize(st, sz, 80)
    n = sgn(sz, 32)
    limbs = []
    for i in range(abs(n)):
        limbs.append(ex.load(st, d + 8 * i, 8))
    if all(isinstance(l, int) for l in limbs):
        m = sum(l << (64 * i) for i, l in enumerate(limbs))
    else:
        m = zs(z3.ZeroExt(1, z3.Concat(*[tobv(l, 64) for l in reversed(limbs)]) if len(limbs) > 1 else tobv(limbs[0], 64)))
    return zneg(m) if n < 0 else m
def zset(ex, st, p, v):
    p = zptr(ex, st, p)
    v = znorm(v)
    d = ex.load(st, p + 8, 8)
    if not isinstance(d, int):
        d = ex.concretize(st, d, 64)
    o = ex.wobj(st, d >> OBJ_SHIFT, d)
    if o.kind != "limbs":
        if o.mpzv is None and o.kind in ("stack", "heap", "new", "new[]", "malloc", "global"):
            return zset_raw(ex, st, p, d, v)
        raise Unsupported("mpz write to limbs in " + o.kind)
    e = sizeexpr(ex, st, v)
    o.mpzv = (v, e)
    o.cells = {}
    ex.store(st, p + 4, 4, e)
def zset_raw(ex, st, p, d, v):
    raise Unsupported("mpz write to a caller-provided limb array")
def zinit(ex, st, p, v=0):
    p = zptr(ex, st, p)
    oid = ex.alloc(st, NLIMB_OBJ, "limbs", "limbs")
    o = st.mem[oid]
    e = sizeexpr(ex, st, v)
    o.mpzv = (v, e)
    ex.store(st, p, 4, 1)
    ex.store(st, p + 4, 4, e)
    ex.store(st, p + 8, 8, oid << OBJ_SHIFT)
def zclear(ex, st, p):
    p = zptr(ex, st, p)
    d = ex.load(st, p + 8, 8)
    oid = d >> OBJ_SHIFT
    o = st.mem.get(oid)
    if o is None or o.kind != "limbs":
        ex.violation(st, "memory", "mpz_clear of an uninitialised or already cleared integer")
    del st.mem[oid]

LIMBVAL = {}
def limb_clz(ex, st, x):
    """leading zeros of a limb of an unbounded integer, forking on the bit length"""
    e = LIMBVAL.get(x.get_id())
    if e is None or not e[0].eq(x): return None
    n = zbits(ex, st, e[1])
    return 64 * (e[2] + 1) - n if isinstance(n, int) and 64 * e[2] < n <= 64 * e[2] + 64 else None
def limb_load(ex, st, o, off, size):
    v, s = o.mpzv
    if size != 8 or off % 8:
        raise Unsupported("partial limb load")
    i = off // 8
    if isinstance(v, int):
        return (abs(v) >> (64 * i)) & M64
    if isinstance(v, ArithRef):
        m = z3.If(v < 0, -v, v)
        if i: m = m / (1 << (64 * i))
        r = z3.Int2BV(m, 64)
        LIMBVAL[r.get_id()] = (r, v, i)
        return r
    m = zabs(v)
    if isinstance(m, int): return (m >> (64 * i)) & M64
    w = m.size()
    if 64 * i >= w: return 0
    hi = min(w, 64 * i + 64)
    e = z3.Extract(hi - 1, 64 * i, m)
    if e.size() < 64: e = z3.ZeroExt(64 - e.size(), e)
    return simp(e)
def limb_store(ex, st, o, off, size, x):
    v, s = o.mpzv
    m = zabs(v)
    n = (zw(m) + 63) // 64
    vals = [limb_load(ex, st, o, 8 * i, 8) for i in range(n)]
    o.mpzv = None
    o.cells = {8 * i: (8, l) for i, l in enumerate(vals)}
    o.maxcell = 8
    cells_store(o, off, size, x)

def ui(ex, x):
    """unsigned long argument as integer value"""
    if isinstance(x, int): return x
    if isinstance(x, SymPtr): x = x.bv()
    if isinstance(x, BoolRef): x = tobv(x, 64)
    if ex.mode == "int": return z3.BV2Int(x)
    return zs(z3.ZeroExt(1, x))
def si(ex, x):
    if isinstance(x, int): return sgn(x, 64)
    if ex.mode == "int": return z3.BV2Int(x, is_signed=True)
    return x
def cnt(ex, st, x, limit=300):
    return x if isinstance(x, int) else ex.concretize(st, x, limit)
def tomachine(ex, v, w):
    """low w bits of v"""
    if isinstance(v, int): return v & ((1 << w) - 1)
    if isinstance(v, ArithRef): return z3.Int2BV(v, w)
    if v.size() < w: return simp(z3.SignExt(w - v.size(), v))
    return simp(z3.Extract(w - 1, 0, v))

def div_guess(ex, st, n, d, how, limit):
    """Division by a symbolic divisor whose quotient takes few values on this path: split on it."""
    neg = ex.decide(st, zcmp_rel(d, 0, "lt"))
    N, D = (zint(zneg(n)), zint(zneg(d))) if neg else (n, d)
    fl = how == "floor" or how == "exact" or not ex.decide(st, zcmp_rel(N, 0, "lt"))
    if not fl: N = zint(zneg(N))                                    # truncate the magnitude
    key = ("dg", n.get_id(), d.get_id(), how)
    n0, d0, tried = st.user.get(key, (n, d, ()))
    while len(tried) <= limit:
        if not tried or tried[-1][1]:                    # last guess is already refuted on this path
            if st.model is None:
                if ex.query(st) != z3.sat: return None
                st.model = ex.last_model
            nv, dv = (st.model.eval(x, model_completion=True).as_long() for x in (N, D))
            tried += ((nv // dv, False),)
            st.user[key] = (n, d, tried)
        q = tried[-1][0]
        if POLY[0]:
            x = zsub(N, zmul(q, D))
            c = tobool(zcmp_rel(x, 0, "eq")) if how == "exact" else z3.And(tobool(zcmp_rel(x, 0, "ge")), tobool(zcmp_rel(x, D, "lt")))
        else: c = N == q * D if how == "exact" else z3.And(q * D <= N, N < (q + 1) * D)
        if ex.decide(st, c):
            r = znorm(N - q * D)
            return (q, zneg(r) if neg else r) if fl else (-q, r if neg else zneg(r))
        tried = tried[:-1] + ((q, True),)
        st.user[key] = (n, d, tried)
    return None

def zdivmod(ex, st, n, d, how):
    """(q, r) with rounding floor / trunc / ceil / exact; d != 0 already required"""
    if isinstance(n, int) and isinstance(d, int):
        q, r = divmod(n, d)      # floor
        if how == "trunc" and r and q < 0: q, r = q + 1, r - d
        if how == "ceil" and r: q, r = q + 1, r - d
        return q, r
    if isinstance(d, int) and d > 0 and d & (d - 1) == 0 and how == "floor":
        k = d.bit_length() - 1
        return zfdiv2(n, k), zfmod2(n, k)
    if has_int(n, d):
        n, d = zint(n), zint(d)
        lim = ex.opts.get("div_fold")
        if POLY[0]:
            P, Q = pget(n), pget(d)
            if Q and not any(Q):                          # constant divisor: split off the divisible part
                c = Q[()]
                if all(x % c == 0 for k, x in P.items() if k):
                    hi = {k: x // c for k, x in P.items() if k}
                    q, r = divmod(P.get((), 0), c)
                    if r == 0 or how == "floor": return zadd(pput(hi), q), r
                    if how == "trunc":
                        # n = c*(hi+q) + r, 0 < |r|, r of c's sign: truncation rounds up when the quotient is negative
                        q1 = zadd(pput(hi), q)
                        if ex.decide(st, tobool(zcmp_rel(q1, 0, "lt"))): return zadd(q1, 1), r - c
                        return q1, r
            elif Q:
                qr = pdiv(P, Q)
                if qr is not None:
                    q0, r0 = pput(qr[0]), pput(qr[1])
                    if isinstance(r0, int) and r0 == 0: return q0, 0
                    if how == "floor" and not (isinstance(q0, int) and q0 == 0):
                        q1, r1 = zdivmod(ex, st, r0, d, "floor")
                        return zadd(q0, q1), r1
        if lim and z3.is_int_value(d) and d.as_long() > 0 and how in ("floor", "trunc"):
            neg = how == "trunc" and ex.decide(st, n < 0)
            v = ex.few_values(st, z3.simplify((-n if neg else n) % d), lim)
            if v is not None:
                q = znorm(z3.simplify((-n if neg else n) / d))
                return (zneg(q) if neg else q), (-v if neg else v)
        if z3.is_int_value(d) and d.as_long() > 0 and how in ("floor", "exact"):
            return znorm(n / d), znorm(n % d)
        g = ex.opts.get("div_guess")
        if g and not z3.is_int_value(d):
            r = div_guess(ex, st, n, d, how, g)
            if r is not None: return r
        if os.environ.get("VP_DIV"): print("GENDIV", n, "/", d, how, ex.where(st), flush=True)
        key = ("div", n.get_id(), d.get_id(), how)
        c = st.user.get(key)
        if c is not None and c[2].eq(n) and c[3].eq(d):
            return c[0], c[1]
        q, r = ex.fresh(st, "q", "int"), ex.fresh(st, "r", "int")
        cs = [n == q * d + r]
        if how == "exact": cs = [n == q * d]; r = z3.IntVal(0)
        elif how == "floor": cs += [z3.If(d > 0, z3.And(r >= 0, r < d), z3.And(r <= 0, r > d))]
        elif how == "trunc":
            cs += [z3.If(n >= 0, r >= 0, r <= 0), r < z3.If(d > 0, d, -d), -r < z3.If(d > 0, d, -d)]
        else: cs += [z3.If(d > 0, z3.And(r <= 0, -r < d), z3.And(r >= 0, r < -d))]
        for x in cs: ex.define(st, x)
        st.user[key] = (q, znorm(r), n, d)
        return q, znorm(r)
    w = max(zw(n), zw(d)) + 1
    nn, dd = zext_to(n, w), zext_to(d, w)
    nonneg = zcmp_rel(n, 0, "ge"), zcmp_rel(d, 0, "gt")
    rw = zw(d)
    if isinstance(n, BVRef) and is_nonneg(n) and is_nonneg(d) or (isinstance(n, int) and n >= 0 and is_nonneg(d)):
        q, r = z3.UDiv(nn, dd), z3.URem(nn, dd)
        if how == "ceil":
            q, r = z3.If(r != 0, q + 1, q), z3.If(r != 0, r - dd, r)
    else:
        q, r = nn / dd, z3.SRem(nn, dd)
        if how == "floor":
            adj = z3.And(r != 0, (r < 0) != (dd < 0))
            q, r = z3.If(adj, q - 1, q), z3.If(adj, r + dd, r)
        elif how == "ceil":
            adj = z3.And(r != 0, (r < 0) == (dd < 0))
            q, r = z3.If(adj, q + 1, q), z3.If(adj, r - dd, r)
    qw = min(w, zw(n) + 1)
    q = z3.Extract(qw - 1, 0, q) if qw < w else q
    r = z3.Extract(rw - 1, 0, r) if rw < w else r
    q, r = zs(q), zs(r)
    lim = ex.opts.get("div_fold")
    if lim and not isinstance(q, int):
        # fork on a quotient that takes at most `lim` values on this path (folding it when unique)
        v = ex.few_values(st, q, lim)
        if v is not None:
            q = v - (1 << q.size()) if v >> (q.size() - 1) else v
            r = zsub(n, zmul(q, d)) if q else n
            if isinstance(r, BVRef) and zw(r) > zw(d): r = zs(z3.Extract(zw(d) - 1, 0, r))
    return q, r
def is_nonneg(v):
    if isinstance(v, int): return v >= 0
    if isinstance(v, ArithRef): return False
    # syntactic: leading concat of 0
    t = v
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT:
        c = t.children()[0]
        return z3.is_bv_value(c) and c.as_long() >> (c.size() - 1) == 0
    s = z3.simplify(z3.Extract(v.size() - 1, v.size() - 1, v))
    return z3.is_bv_value(s) and s.as_long() == 0
def nz(ex, st, d):
    c = zcmp_rel(d, 0, "eq")
    if isinstance(c, int):
        if c: ex.violation(st, "div0", "GMP division by zero")
    else:
        ex.require(st, z3.Not(c), "div0", "GMP division by zero" + ex.where(st))

def gmp(*names):
    return model(*["__gmpz_" + n for n in names])
@gmp("init")
def _(ex, st, a): zinit(ex, st, a[0])
@gmp("init2")
def _(ex, st, a): zinit(ex, st, a[0])
@gmp("realloc2")
def _(ex, st, a): pass
@gmp("realloc")
def _(ex, st, a): return ex.load(st, a[0] + 8, 8)
@gmp("init_set")
def _(ex, st, a): zinit(ex, st, a[0], zget(ex, st, a[1]))
@gmp("init_set_ui")
def _(ex, st, a): zinit(ex, st, a[0], ui(ex, a[1]))
@gmp("init_set_si")
def _(ex, st, a): zinit(ex, st, a[0], si(ex, a[1]))
@gmp("clear")
def _(ex, st, a): zclear(ex, st, a[0])
@gmp("inits")
def _(ex, st, a):
    for p in a:
        if p == 0: break
        zinit(ex, st, p)
@gmp("clears")
def _(ex, st, a):
    for p in a:
        if p == 0: break
        zclear(ex, st, p)
@gmp("set")
def _(ex, st, a): zset(ex, st, a[0], zget(ex, st, a[1]))
@gmp("set_ui")
def _(ex, st, a): zset(ex, st, a[0], ui(ex, a[1]))
@gmp("set_si")
def _(ex, st, a): zset(ex, st, a[0], si(ex, a[1]))
@gmp("swap")
def _(ex, st, a):
    p, q = zptr(ex, st, a[0]), zptr(ex, st, a[1])
    if p == q: return
    x = [ex.load(st, p + o, s) for o, s in ((0, 4), (4, 4), (8, 8))]
    y = [ex.load(st, q + o, s) for o, s in ((0, 4), (4, 4), (8, 8))]
    for (o, s), v, w in zip(((0, 4), (4, 4), (8, 8)), x, y):
        ex.store(st, q + o, s, v)
        ex.store(st, p + o, s, w)
def bin_(name, f):
    def g(ex, st, a): zset(ex, st, a[0], f(zget(ex, st, a[1]), zget(ex, st, a[2])))
    MODELS["__gmpz_" + name] = g
bin_("add", zadd); bin_("sub", zsub); bin_("mul", zmul)
def un_(name, f):
    def g(ex, st, a): zset(ex, st, a[0], f(zget(ex, st, a[1])))
    MODELS["__gmpz_" + name] = g
un_("neg", zneg); un_("abs", zabs)
un_("com", lambda v: zsub(zneg(v), 1))
@gmp("add_ui")
def _(ex, st, a): zset(ex, st, a[0], zadd(zget(ex, st, a[1]), ui(ex, a[2])))
@gmp("sub_ui")
def _(ex, st, a): zset(ex, st, a[0], zsub(zget(ex, st, a[1]), ui(ex, a[2])))
@gmp("ui_sub")
def _(ex, st, a): zset(ex, st, a[0], zsub(ui(ex, a[1]), zget(ex, st, a[2])))
@gmp("mul_ui")
def _(ex, st, a): zset(ex, st, a[0], zmul(zget(ex, st, a[1]), ui(ex, a[2])))
@gmp("mul_si")
def _(ex, st, a): zset(ex, st, a[0], zmul(zget(ex, st, a[1]), si(ex, a[2])))
@gmp("mul_2exp")
def _(ex, st, a): zset(ex, st, a[0], zshl(zget(ex, st, a[1]), cnt(ex, st, a[2])))
@gmp("addmul")
def _(ex, st, a): zset(ex, st, a[0], zadd(zget(ex, st, a[0]), zmul(zget(ex, st, a[1]), zget(ex, st, a[2]))))
@gmp("submul")
def _(ex, st, a): zset(ex, st, a[0], zsub(zget(ex, st, a[0]), zmul(zget(ex, st, a[1]), zget(ex, st, a[2]))))
@gmp("addmul_ui")
def _(ex, st, a): zset(ex, st, a[0], zadd(zget(ex, st, a[0]), zmul(zget(ex, st, a[1]), ui(ex, a[2]))))
@gmp("submul_ui")
def _(ex, st, a): zset(ex, st, a[0], zsub(zget(ex, st, a[0]), zmul(zget(ex, st, a[1]), ui(ex, a[2]))))
def cmp_(ex, x, y): return zsign(zcmp_rel(x, y, "lt"), zcmp_rel(x, y, "eq"))
@gmp("cmp")
def _(ex, st, a): return cmp_(ex, zget(ex, st, a[0]), zget(ex, st, a[1]))
@gmp("cmp_ui")
def _(ex, st, a): return cmp_(ex, zget(ex, st, a[0]), ui(ex, a[1]))
@gmp("cmp_si")
def _(ex, st, a): return cmp_(ex, zget(ex, st, a[0]), si(ex, a[1]))
@gmp("cmpabs")
def _(ex, st, a): return cmp_(ex, zabs(zget(ex, st, a[0])), zabs(zget(ex, st, a[1])))
@gmp("cmpabs_ui")
def _(ex, st, a): return cmp_(ex, zabs(zget(ex, st, a[0])), ui(ex, a[1]))
for _pre, _how in (("f", "floor"), ("t", "trunc"), ("c", "ceil")):
    def mk(how, pre):
        @gmp(pre + "div_q")
        def _(ex, st, a):
            n, d = zget(ex, st, a[1]), zget(ex, st, a[2]); nz(ex, st, d)
            zset(ex, st, a[0], zdivmod(ex, st, n, d, how)[0])
        @gmp(pre + "div_r")
        def _(ex, st, a):
            n, d = zget(ex, st, a[1]), zget(ex, st, a[2]); nz(ex, st, d)
            zset(ex, st, a[0], zdivmod(ex, st, n, d, how)[1])
        @gmp(pre + "div_qr")
        def _(ex, st, a):
            n, d = zget(ex, st, a[2]), zget(ex, st, a[3]); nz(ex, st, d)
            q, r = zdivmod(ex, st, n, d, how)
            zset(ex, st, a[0], q); zset(ex, st, a[1], r)
        def absui(ex, r):
            return tomachine(ex, zabs(r), 64)
        @gmp(pre + "div_q_ui")
        def _(ex, st, a):
            n, d = zget(ex, st, a[1]), ui(ex, a[2]); nz(ex, st, d)
            q, r = zdivmod(ex, st, n, d, how)
            zset(ex, st, a[0], q)
            return absui(ex, r)
        @gmp(pre + "div_r_ui")
        def _(ex, st, a):
            n, d = zget(ex, st, a[1]), ui(ex, a[2]); nz(ex, st, d)
            q, r = zdivmod(ex, st, n, d, how)
            zset(ex, st, a[0], r)
            return absui(ex, r)
        @gmp(pre + "div_qr_ui")
        def _(ex, st, a):
            n, d = zget(ex, st, a[2]), ui(ex, a[3]); nz(ex, st, d)
            q, r = zdivmod(ex, st, n, d, how)
            zset(ex, st, a[0], q); zset(ex, st, a[1], r)
            return absui(ex, r)
        @gmp(pre + "div_ui")
        def _(ex, st, a):
            n, d = zget(ex, st, a[0]), ui(ex, a[1]); nz(ex, st, d)
            return absui(ex, zdivmod(ex, st, n, d, how)[1])
        @gmp(pre + "div_q_2exp")
        def _(ex, st, a):
            n, k = zget(ex, st, a[1]), cnt(ex, st, a[2])
            if how == "floor": q = zfdiv2(n, k)
            elif how == "trunc": q = zite(zcmp_rel(n, 0, "lt"), zneg(zfdiv2(zabs(n), k)), zfdiv2(n, k)) if not is_nonneg(n) else zfdiv2(n, k)
            else: q = zneg(zfdiv2(zneg(n), k))
            zset(ex, st, a[0], q)
        @gmp(pre + "div_r_2exp")
        def _(ex, st, a):
            n, k = zget(ex, st, a[1]), cnt(ex, st, a[2])
            if how == "floor" or is_nonneg(n): r = zfmod2(n, k)
            elif how == "trunc": r = zite(zcmp_rel(n, 0, "lt"), zneg(zfmod2(zabs(n), k)), zfmod2(n, k))
            else: r = zneg(zfmod2(zneg(n), k))
            zset(ex, st, a[0], r)
    mk(_how, _pre)
@gmp("mod")
def _(ex, st, a):
    n, d = zget(ex, st, a[1]), zabs(zget(ex, st, a[2])); nz(ex, st, d)
    zset(ex, st, a[0], zdivmod(ex, st, n, d, "floor")[1])
@gmp("divexact")
def _(ex, st, a):
    n, d = zget(ex, st, a[1]), zget(ex, st, a[2]); nz(ex, st, d)
    if isinstance(n, int) and isinstance(d, int):
        if n % d: ex.violation(st, "divexact", "mpz_divexact on non-divisible operands")
        zset(ex, st, a[0], n // d); return
    if has_int(n, d):
        if POLY[0]:
            q, r = zdivmod(ex, st, n, d, "floor")
            ex.require(st, zcmp_rel(r, 0, "eq"), "divexact", "mpz_divexact on non-divisible operands" + ex.where(st))
            zset(ex, st, a[0], q); return
        zset(ex, st, a[0], zdivmod(ex, st, n, d, "exact")[0]); return
    q, r = zdivmod(ex, st, n, d, "trunc")
    if ex.opts.get("check_divexact", True):
        ex.require(st, zcmp_rel(r, 0, "eq"), "divexact", "mpz_divexact on non-divisible operands" + ex.where(st))
    zset(ex, st, a[0], q)
@gmp("divexact_ui")
def _(ex, st, a):
    n, d = zget(ex, st, a[1]), ui(ex, a[2]); nz(ex, st, d)
    q, r = zdivmod(ex, st, n, d, "trunc")
    if not has_int(n, d): ex.require(st, zcmp_rel(r, 0, "eq"), "divexact", "mpz_divexact_ui on non-divisible operands" + ex.where(st))
    zset(ex, st, a[0], q)
@gmp("divisible_p")
def _(ex, st, a):
    n, d = zget(ex, st, a[0]), zget(ex, st, a[1])
    z = zcmp_rel(d, 0, "eq")
    if not isinstance(z, int): z = int(ex.decide(st, z))
    if z: return zext(zcmp_rel(n, 0, "eq"), 1, 32)
    return zext(zcmp_rel(zdivmod(ex, st, n, d, "floor")[1], 0, "eq"), 1, 32)
@gmp("divisible_ui_p")
def _(ex, st, a):
    n, d = zget(ex, st, a[0]), ui(ex, a[1])
    nz(ex, st, d)
    return zext(zcmp_rel(zdivmod(ex, st, n, d, "floor")[1], 0, "eq"), 1, 32)
@gmp("divisible_2exp_p")
def _(ex, st, a):
    return zext(zcmp_rel(zfmod2(zget(ex, st, a[0]), cnt(ex, st, a[1])), 0, "eq"), 1, 32)
@gmp("congruent_ui_p")
def _(ex, st, a):
    n, c, d = zget(ex, st, a[0]), ui(ex, a[1]), ui(ex, a[2])
    return zext(zcmp_rel(zdivmod(ex, st, zsub(n, c), d, "floor")[1], 0, "eq"), 1, 32)

def gcdext_c(x, y):
    """reference Euclid with GMP's documented normalisation"""
    if x == 0 and y == 0: return 0, 0, 0
    if x == 0: return abs(y), 0, (1 if y > 0 else -1)
    if y == 0: return abs(x), (1 if x > 0 else -1), 0
    import sympy
    from math import gcd
    g = gcd(x, y)
    if abs(x) == abs(y): return g, 0, (1 if y > 0 else -1)
    a1, b1 = x // g, y // g
    m = abs(b1)
    s = pow(a1 % m, -1, m) if m > 1 else 0
    # minimal |s|
    if 2 * s > m: s -= m
    if abs(b1) == 1: s = 0
    t = (1 - s * a1) // b1
    return g, s, t
def memo(st, key, args, f):
    """f() once per path for the same argument terms"""
    k = (key,) + tuple(a if isinstance(a, (int, str)) else ("t", a.get_id()) for a in args)
    c = st.user.get(k)
    if c is None:
        c = (f(), args)                      # args are kept alive so that ids stay unique
        st.user[k] = c
    return c[0]
def zgcdext(ex, st, x, y):
    return memo(st, "gcdext", (x, y), lambda: zgcdext0(ex, st, x, y))
def zgcdext0(ex, st, x, y):
    if os.environ.get("VP_GCD"): print("GCD", str(x)[:300], "|", str(y)[:300], [f.fn.dem[:50] for f in st.frames])
    if isinstance(x, int) and isinstance(y, int):
        return gcdext_c(x, y)
    g0 = ex.opts.get("gcd_is_one")
    if has_int(x, y):
        x, y = zint(x), zint(y)
        g, s, t, x1, y1 = [ex.fresh(st, n, "int") for n in ("g", "s", "t", "x1", "y1")]
        cs = [g >= 0, x == g * x1, y == g * y1, s * x1 + t * y1 == 1, s * x + t * y == g, z3.Implies(z3.Or(x != 0, y != 0), g > 0)]
        for c in cs: ex.define(st, c)
        return g, s, t
    w = max(zw(x), zw(y)) + 1
    g, s, t, x1, y1 = [ex.fresh(st, n, w) for n in ("g", "s", "t", "x1", "y1")]
    W = 2 * w + 2
    E = lambda v: zext_to(v, W)
    X, Y = zext_to(x, W), zext_to(y, W)
    ax, ay = zext_to(zabs(x), W), zext_to(zabs(y), W)
    as_, at_ = zext_to(zabs(s), W), zext_to(zabs(t), W)
    cs = [g >= 0, X == E(g) * E(x1), Y == E(g) * E(y1), z3.Or(z3.And(X == 0, Y == 0, g == 0, s == 0, t == 0), z3.And(g > 0, E(s) * E(x1) + E(t) * E(y1) == 1))]
    # GMP: |s| < |y|/(2g), |t| < |x|/(2g) except in the documented special cases
    cs.append(z3.If(ax == ay, z3.And(s == 0, at_ == z3.If(Y == 0, ZC(0, W), ZC(1, W))),
              z3.If(z3.Or(Y == 0, ay == E(g)), z3.And(z3.Implies(Y == 0, t == 0)),
                    z3.And(z3.Implies(ay != E(g), 2 * as_ * E(g) <= ay)))))
    cs.append(z3.Implies(z3.And(X != 0, Y != 0, ax != ay, ay == E(g)), z3.And(s == 0)))
    cs.append(z3.Implies(z3.And(Y == 0, X != 0), as_ == 1))
    cs.append(z3.Implies(z3.And(X != 0, Y != 0, ax != ay, ax != E(g)), 2 * at_ * E(g) <= ax))
    cs.append(z3.Implies(z3.And(X == 0, Y != 0), z3.And(s == 0, at_ == 1)))
    for c in cs: ex.define(st, c)
    return g, s, t
@gmp("gcdext")
def _(ex, st, a):
    g, s, t = zgcdext(ex, st, zget(ex, st, a[3]), zget(ex, st, a[4]))
    zset(ex, st, a[0], g)
    if a[1]: zset(ex, st, a[1], s)
    if a[2]: zset(ex, st, a[2], t)
@gmp("gcd")
def _(ex, st, a):
    x, y = zget(ex, st, a[1]), zget(ex, st, a[2])
    zset(ex, st, a[0], zgcdext(ex, st, x, y)[0])
@gmp("invert")
def _(ex, st, a):
    x, m = zget(ex, st, a[1]), zget(ex, st, a[2])
    if not (isinstance(x, int) and isinstance(m, int)): raise Unsupported("mpz_invert")
    if m == 0 or math.gcd(x, m) != 1: return 0
    zset(ex, st, a[0], pow(x, -1, abs(m)) if abs(m) != 1 else 0)
    return 1

def zbits(ex, st, v):
    """number of bits of |v| (0 for 0) as int or BV64"""
    if isinstance(v, int): return v.bit_length()
    if isinstance(v, ArithRef):
        # fork on the bit length, bounded by the option
        hi = ex.opts.get("max_bits")
        if not hi: raise Unsupported("bit length of an unbounded integer")
        m = z3.If(v < 0, -v, v)
        m = z3.simplify(m)
        mod = st.model
        lo = 0                               # least k in [lo, hi] with m < 2^k
        if mod is not None:                  # start from the model's value
            k0 = mod.eval(m, model_completion=True).as_long().bit_length()
            if k0 > hi: raise Inconclusive("integer exceeds max_bits")
            if ex.decide(st, m < (1 << k0)):
                if k0 == 0 or ex.decide(st, m >= (1 << (k0 - 1))): return k0
                hi = k0 - 1
            else: lo = k0 + 1
        if not ex.decide(st, m < (1 << hi)): raise Inconclusive("integer exceeds max_bits")
        while lo < hi:
            k = (lo + hi) // 2
            if ex.decide(st, m < (1 << k)): hi = k
            else: lo = k + 1
        return lo
    m = zabs(v)
    n = m.size()
    W = 1
    while W < n: W *= 2
    cur = z3.ZeroExt(W - n, m) if W > n else m
    bits = []
    k = W // 2
    while k >= 1:
        hi, lo = z3.Extract(2 * k - 1, k, cur), z3.Extract(k - 1, 0, cur)
        c = z3.simplify(hi != 0)
        bits.append(c)
        cur = z3.simplify(z3.If(c, hi, lo))
        k //= 2
    nz = z3.If(m != 0, ZC(1, 64), ZC(0, 64))
    if not bits: return simp(nz)
    one, zero = ZC(1, 1), ZC(0, 1)
    idx = z3.Concat(*[z3.If(c, one, zero) for c in bits]) if len(bits) > 1 else z3.If(bits[0], one, zero)
    return simp(z3.ZeroExt(64 - len(bits), idx) + nz)
@gmp("sizeinbase")
def _(ex, st, a):
    v = zget(ex, st, a[0])
    if a[1] == 2:
        b = zbits(ex, st, v)
        if isinstance(b, int): return max(1, b)
        r = simp(z3.If(b == 0, ZC(1, 64), b))
        if ex.opts.get("size_fold") and not isinstance(r, int):
            k = ex.few_values(st, r, ex.opts["size_fold"])
            if k is not None: return k
        return r
    if isinstance(v, int):
        n, m = 0, abs(v)
        while m: n += 1; m //= a[1]
        return max(1, n)
    raise Unsupported("sizeinbase base %r" % a[1])
@gmp("tstbit")
def _(ex, st, a):
    v, k = zget(ex, st, a[0]), a[1]
    if isinstance(v, int) and isinstance(k, int): return (v >> k) & 1
    if not isinstance(k, int):
        if isinstance(v, ArithRef): k = cnt(ex, st, k)
        else:
            w = max(zw(v), 65)
            x = zext_to(v, w)
            return simp(z3.ZeroExt(31, z3.Extract(0, 0, x >> z3.If(z3.UGE(k, w), ZC(w - 1, w), z3.ZeroExt(w - 64, k) if w > 64 else k))))
    if isinstance(v, ArithRef): return z3.If((v / (1 << k)) % 2 == 1, ZC(1, 32), ZC(0, 32))
    k = min(k, v.size() - 1)
    return simp(z3.ZeroExt(31, z3.Extract(k, k, v)))
def bitop(name, f):
    @gmp(name)
    def _(ex, st, a):
        v, k = zget(ex, st, a[0]), cnt(ex, st, a[1])
        if isinstance(v, int): r = f(v, 1 << k)
        elif isinstance(v, ArithRef):
            bit = (v / (1 << k)) % 2 == 1
            r = {"setbit": z3.If(bit, v, v + (1 << k)), "clrbit": z3.If(bit, v - (1 << k), v), "combit": z3.If(bit, v - (1 << k), v + (1 << k))}[name]
        else:
            w = max(v.size(), k + 2)
            x, b = zext_to(v, w), ZC(1 << k, w)
            r = zs({"setbit": x | b, "clrbit": x & ~b, "combit": x ^ b}[name])
        zset(ex, st, a[0], r)
bitop("setbit", lambda v, b: v | b); bitop("clrbit", lambda v, b: v & ~b); bitop("combit", lambda v, b: v ^ b)
def logop(name, f):
    @gmp(name)
    def _(ex, st, a):
        x, y = zget(ex, st, a[1]), zget(ex, st, a[2])
        if isinstance(x, int) and isinstance(y, int): zset(ex, st, a[0], f(x, y)); return
        if has_int(x, y): raise Unsupported("bitwise op in int mode")
        w = max(zw(x), zw(y))
        zset(ex, st, a[0], zs(f(zext_to(x, w), zext_to(y, w))))
logop("and", lambda x, y: x & y); logop("ior", lambda x, y: x | y); logop("xor", lambda x, y: x ^ y)
@gmp("scan1")
def _(ex, st, a):
    v, k = zget(ex, st, a[0]), cnt(ex, st, a[1])
    if isinstance(v, int):
        v >>= k
        return k + ((v & -v).bit_length() - 1) if v else M64
    if isinstance(v, ArithRef): raise Unsupported("scan1 in int mode")
    w = v.size()
    r = z3.If(v < 0, ZC(w, 64), ZC(M64, 64))
    for i in reversed(range(k, w)):
        r = z3.If(z3.Extract(i, i, v) == 1, ZC(i, 64), r)
    return simp(r)
@gmp("get_ui")
def _(ex, st, a): return tomachine(ex, zabs(zget(ex, st, a[0])), 64)
@gmp("get_si")
def _(ex, st, a):
    v = zget(ex, st, a[0])
    if isinstance(v, int):
        r = abs(v) & ((1 << 63) - 1) if v >= 0 else abs(v) & M64
        if v >= 0: return abs(v) & ((1 << 63) - 1)
        return (-(1 + ((abs(v) - 1) & ((1 << 63) - 1)))) & M64
    return tomachine(ex, v, 64)
@gmp("fits_ulong_p", "fits_uint_p", "fits_slong_p", "fits_sint_p", "fits_sshort_p", "fits_ushort_p")
def _(ex, st, a): raise Unsupported("mpz_fits")
def _fits(name, lo, hi):
    @gmp(name)
    def _(ex, st, a):
        v = zget(ex, st, a[0])
        c = simp(z3.And(tobool(zcmp_rel(v, lo, "ge")), tobool(zcmp_rel(v, hi, "le"))))
        return zext(c, 1, 32)
_fits("fits_ulong_p", 0, M64); _fits("fits_uint_p", 0, (1 << 32) - 1)
_fits("fits_slong_p", -(1 << 63), (1 << 63) - 1); _fits("fits_sint_p", -(1 << 31), (1 << 31) - 1)
@gmp("size")
def _(ex, st, a):
    v = zget(ex, st, a[0])
    s = sizeexpr(ex, st, zabs(v))
    return zext(s, 32, 64)
@gmp("getlimbn")
def _(ex, st, a):
    v = zget(ex, st, a[0])
    i = a[1]
    if not isinstance(i, int): i = ex.concretize(st, i, 100)
    i = sgn(i, 64)
    if i < 0: return 0
    o = Obj(0, 0, "", "", False, None)
    o.mpzv = (v, 0)
    return limb_load(ex, st, o, 8 * i, 8)
@gmp("limbs_read")
def _(ex, st, a): return ex.load(st, a[0] + 8, 8)
@gmp("limbs_write", "limbs_modify")
def _(ex, st, a): return ex.load(st, a[0] + 8, 8)
@gmp("limbs_finish")
def _(ex, st, a):
    s = a[1]
    if not isinstance(s, int): s = ex.concretize(st, s, 100)
    n = sgn(s, 64)
    p = zptr(ex, st, a[0])
    d = ex.load(st, p + 8, 8)
    limbs = [ex.load(st, d + 8 * i, 8) for i in range(abs(n))]
    if all(isinstance(l, int) for l in limbs): m = sum(l << (64 * i) for i, l in enumerate(limbs))
    else: m = zs(z3.ZeroExt(1, z3.Concat(*[tobv(l, 64) for l in reversed(limbs)]) if len(limbs) > 1 else tobv(limbs[0], 64)))
    o = ex.wobj(st, d >> OBJ_SHIFT)
    o.mpzv = (0, 0)
    zset(ex, st, p, zneg(m) if n < 0 else m)
@gmp("odd_p")
def _(ex, st, a): raise Unsupported("odd_p")
@gmp("import")
def _(ex, st, a):
    rop, count, order, size, endian, nails, op = a
    count, size = cnt(ex, st, count), cnt(ex, st, size)
    if nails: raise Unsupported("import nails")
    bs = ex.read_bytes(st, op, count * size) if count * size else []
    words = [bs[i * size:(i + 1) * size] for i in range(count)]
    if sgn(endian, 32) == 1: words = [w[::-1] for w in words]
    if sgn(order, 32) == 1: words = words[::-1]
    le = [b for w in words for b in w]
    if all(isinstance(b, int) for b in le):
        v = int.from_bytes(bytes(le), "little")
    else:
        e = z3.simplify(z3.ZeroExt(1, z3.Concat(*[tobv(b, 8) for b in reversed(le)]) if len(le) > 1 else tobv(le[0], 8)))
        v = znorm(e)
        if ex.mode == "int" and not isinstance(v, int): v = z3.BV2Int(e)
    zset(ex, st, rop, v)
@gmp("export")
def _(ex, st, a):
    rop, countp, order, size, endian, nails, op = a
    size = cnt(ex, st, size)
    if nails: raise Unsupported("export nails")
    v = zabs(zget(ex, st, op))
    nb = zbits(ex, st, v)
    if isinstance(nb, int):
        n = (nb + 8 * size - 1) // (8 * size)
    else:
        maxn = (zw(v) + 8 * size - 1) // (8 * size)
        k = (8 * size).bit_length() - 1
        nn = simp(z3.LShR(nb + (8 * size - 1), k)) if 8 * size == 1 << k else simp(z3.UDiv(nb + (8 * size - 1), ZC(8 * size, 64)))
        if size == 1 and sgn(order, 32) == -1 and isinstance(rop, (int, SymPtr)) and rop and not isinstance(nn, int):
            # conditional stores instead of one path per length
            oid = rop >> OBJ_SHIFT if isinstance(rop, int) else rop.oid
            off = ZC(rop & OFF_MASK, 64) if isinstance(rop, int) else rop.off
            o = ex.obj(st, oid, "write")
            r = ex.cond_region(st, o, off, nn, "mpz_export") if o.mpzv is None else None
            if r is not None:
                lo, hi, off, n64 = r
                maxn = min(maxn, o.size)
                x = zext_to(v, max(v.size(), 8 * maxn + 1))
                by = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, x)) for i in range(maxn)]
                o0 = z3.simplify(off)
                for i in range(lo, hi):
                    old = tobv(ex.load(st, (oid << OBJ_SHIFT) + i, 1), 8)
                    if z3.is_bv_value(o0):
                        j = i - o0.as_long()
                        if j < 0 or j >= maxn: continue
                        nv = z3.If(z3.simplify(z3.Extract(x.size() - 1, 8 * j, x) != 0), by[j], old)
                    else:
                        nv = old
                        for j in range(maxn):
                            nv = z3.If(z3.And(off + j == i, z3.UGT(n64, j)), by[j], nv)
                    ex.store(st, (oid << OBJ_SHIFT) + i, 1, simp(nv))
                if countp: ex.store(st, countp, 8, nn)
                return rop
        n = ex.concretize(st, nn, maxn + 2) if not isinstance(nn, int) else nn
    if not rop:
        raise Unsupported("mpz_export to NULL")
    if n:
        if isinstance(v, int): le = list(v.to_bytes(n * size, "little"))
        elif isinstance(v, ArithRef):
            x = z3.Int2BV(v, 8 * n * size)
            le = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, x)) for i in range(n * size)]
        else:
            x = zext_to(v, max(v.size(), 8 * n * size + 1))
            le = [norm(z3.simplify(z3.Extract(8 * i + 7, 8 * i, x))) for i in range(n * size)]
        words = [le[i * size:(i + 1) * size] for i in range(n)]
        if sgn(endian, 32) == 1: words = [w[::-1] for w in words]
        if sgn(order, 32) == 1: words = words[::-1]
        ex.write_bytes(st, rop, [b for w in words for b in w])
    if countp: ex.store(st, countp, 8, n)
    return rop
@gmp("set_str", "init_set_str")
def _(ex, st, a): raise Unsupported("set_str placeholder")
def _set_str(init):
    def f(ex, st, a):
        s = ex.cstr(st, a[1])
        if s is None:
            raise Unsupported("mpz_set_str of a symbolic string")
        t = s.decode("latin1").replace(" ", "").replace("\n", "").replace("\t", "")
        base = sgn(a[2], 32)
        if init: zinit(ex, st, a[0])
        try:
            if "_" in t or t[:1] == "+" or t == "": raise ValueError
            if base == 0: v = int(t, 0) if not re.match(r"^-?0[0-7]+$", t) else int(t, 8)
            else:
                if re.search(r"0[xXbBoO]", t): raise ValueError
                v = int(t, base)
        except ValueError:
            return 0xffffffff
        zset(ex, st, a[0], v)
        return 0
    return f
MODELS["__gmpz_set_str"] = _set_str(False)
MODELS["__gmpz_init_set_str"] = _set_str(True)
@gmp("get_str")
def _(ex, st, a):
    v = zget(ex, st, a[2])
    if not isinstance(v, int):
        raise Unsupported("mpz_get_str of a symbolic integer")
    base = sgn(a[1], 32)
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"
    m, s = abs(v), ""
    b = abs(base)
    while m: s = digs[m % b] + s; m //= b
    s = ("-" if v < 0 else "") + (s or "0")
    p = a[0]
    if p == 0:
        p = ex.alloc(st, len(s) + 1, "malloc", "get_str") << OBJ_SHIFT
    ex.write_bytes(st, p, list(s.encode()) + [0])
    return p
@gmp("root")
def _(ex, st, a):
    v, n = zget(ex, st, a[1]), a[2]
    if isinstance(v, int):
        if v < 0 and n % 2 == 0: ex.violation(st, "gmp", "even root of a negative number")
        import sympy
        r = int(sympy.integer_nthroot(abs(v), n)[0])
        r = -r if v < 0 else r
        zset(ex, st, a[0], r)
        return int(r ** n == v)
    ex.require(st, zcmp_rel(v, 0, "ge"), "gmp", "even root of a negative number" + ex.where(st))
    r, exact = zroot(ex, st, v, n)
    zset(ex, st, a[0], r)
    return zext(exact, 1, 32)
def zroot(ex, st, v, n):
    return memo(st, "root", (v, n), lambda: zroot0(ex, st, v, n))
def zroot0(ex, st, v, n):
    if isinstance(v, ArithRef):
        r = ex.fresh(st, "root", "int")
        p = r; q = r + 1; p0 = r; q0 = q
        for _ in range(n - 1): p = p * p0; q = q * q0
        ex.define(st, r >= 0); ex.define(st, p <= v); ex.define(st, v < q)
        return r, simp(p == v)
    w = zw(v)
    rw = (w + n - 1) // n + 2
    r = ex.fresh(st, "root", rw)
    W = n * (rw + 1)
    R = z3.ZeroExt(W - rw, r); Q = R + 1
    p, q = R, Q
    for _ in range(n - 1): p = p * R; q = q * Q
    V = zext_to(v, W) if W >= w else None
    ex.define(st, z3.Extract(rw - 1, rw - 1, r) == 0)
    ex.define(st, z3.And(z3.ULE(p, V), z3.ULT(V, q)))
    return r, simp(p == V)
@gmp("sqrt")
def _(ex, st, a):
    v = zget(ex, st, a[1])
    if isinstance(v, int):
        if v < 0: ex.violation(st, "gmp", "square root of a negative number")
        zset(ex, st, a[0], math.isqrt(v)); return
    ex.require(st, zcmp_rel(v, 0, "ge"), "gmp", "square root of a negative number" + ex.where(st))
    zset(ex, st, a[0], zroot(ex, st, v, 2)[0])
@gmp("perfect_square_p")
def _(ex, st, a):
    v = zget(ex, st, a[0])
    if isinstance(v, int): return int(v >= 0 and math.isqrt(v) ** 2 == v)
    neg = zcmp_rel(v, 0, "lt")
    if not isinstance(neg, int): neg = int(ex.decide(st, neg))
    if neg: return 0
    return zext(zroot(ex, st, v, 2)[1], 1, 32)
@gmp("ui_pow_ui")
def _(ex, st, a): zset(ex, st, a[0], cnt(ex, st, a[1]) ** cnt(ex, st, a[2]))
@gmp("pow_ui")
def _(ex, st, a):
    v, n = zget(ex, st, a[1]), cnt(ex, st, a[2])
    r = 1
    for _ in range(n): r = zmul(r, v)
    zset(ex, st, a[0], r)
def zpowm(ex, st, b, e, m):
    if isinstance(e, int):
        if isinstance(b, int) and isinstance(m, int): return pow(b, e, abs(m))
        r, base = None, zdivmod(ex, st, b, zabs(m), "floor")[1]
        if e == 0: return zdivmod(ex, st, 1, zabs(m), "floor")[1]
        for bit in bin(e)[2:]:
            if r is not None: r = zdivmod(ex, st, zmul(r, r), zabs(m), "floor")[1]
            if bit == "1": r = base if r is None else zdivmod(ex, st, zmul(r, base), zabs(m), "floor")[1]
        return r
    if isinstance(e, BVRef):
        # square and multiply over the bits of the (non-negative) exponent
        m = zabs(m)
        r = zdivmod(ex, st, 1, m, "floor")[1]
        base = zdivmod(ex, st, b, m, "floor")[1]
        for i in reversed(range(e.size() - 1)):
            r = zdivmod(ex, st, zmul(r, r), m, "floor")[1]
            t = zdivmod(ex, st, zmul(r, base), m, "floor")[1]
            r = zite(simp(z3.Extract(i, i, e) == 1), t, r)
        return r
    raise Unsupported("powm with an unbounded exponent")
@gmp("powm")
def _(ex, st, a):
    b, e, m = zget(ex, st, a[1]), zget(ex, st, a[2]), zget(ex, st, a[3]); nz(ex, st, m)
    zset(ex, st, a[0], zpowm(ex, st, b, e, m))
@gmp("powm_ui")
def _(ex, st, a):
    b, e, m = zget(ex, st, a[1]), ui(ex, a[2]), zget(ex, st, a[3]); nz(ex, st, m)
    zset(ex, st, a[0], zpowm(ex, st, b, e, m))
@gmp("nextprime")
def _(ex, st, a):
    v = zget(ex, st, a[1])
    if not isinstance(v, int): raise Unsupported("nextprime symbolic")
    import sympy
    zset(ex, st, a[0], int(sympy.nextprime(v)))
@gmp("probab_prime_p")
def _(ex, st, a):
    v = zget(ex, st, a[0])
    if not isinstance(v, int): raise Unsupported("probab_prime_p symbolic")
    import sympy
    return int(sympy.isprime(abs(v)))
def jac(a, n):
    import sympy
    return int(sympy.jacobi_symbol(a % n, n))
@gmp("jacobi")
def _(ex, st, a):
    x, y = zget(ex, st, a[0]), zget(ex, st, a[1])
    if isinstance(x, int) and isinstance(y, int): return jac(x, y) & 0xffffffff
    raise Unsupported("jacobi symbolic")
