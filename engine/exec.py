"""The executor: states, forking, memory, calls, exceptions, queries."""
import os
import sys, time, re, os, subprocess, tempfile
import z3
from . import llvm as ll
from .symex import *
from . import symex as sx

class Result:
    def __init__(self):
        self.paths = self.infeasible = self.steps = self.queries = self.checks = self.trivial = 0
        self.forks = 0
        self.solver_s = 0.0
        self.reached, self.functions, self.models_used, self.check_msgs = {}, {}, {}, {}
        self.violation = None
        self.inconclusive = None
        self.notes = []

SLOW = float(os.environ.get('VP_SLOW', '0'))
def abstract_mul(cs):
    """Every product of two symbolic words by a fresh word bounded like it (an over-approximation: unsat carries over)."""
    seen, subs, extra, todo, full = set(), [], [], list(cs), {}
    def base(t):
        while True:
            if t.decl().kind() == z3.Z3_OP_ZERO_EXT: t = t.arg(0)
            elif t.decl().kind() == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: t = t.arg(1)
            else: return t
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and not any(z3.is_bv_value(c) for c in t.children()):
                x, y = sorted((base(t.arg(0)), base(t.arg(1))), key=lambda c: c.get_id())
                k, n, w = (x.get_id(), y.get_id()), x.size() + y.size(), t.size()
                if k not in full:
                    full[k] = (z3.BitVec("mul!%d" % len(full), n), x, y)
                    u = sx.ubound(x, {}) * sx.ubound(y, {})
                    extra.append(z3.ULE(full[k][0], z3.BitVecVal(u, n)))
                v = full[k][0]
                subs.append((t, v if w == n else z3.Extract(w - 1, 0, v) if w < n else z3.ZeroExt(w - n, v)))
                continue
            todo.extend(t.children())
    return [z3.substitute(c, *subs) for c in cs] + extra

class Executor:
    def __init__(self, mod, mode="bv", params=(), max_steps=20_000_000, max_paths=200_000, deadline=None,
                 query_timeout_ms=120_000, branch_timeout_ms=20_000, seed=1):
        from . import models
        self.mod, self.mode, self.params = mod, mode, list(params)
        self.models, self.patterns = models.MODELS, models.PATTERNS
        self.pat_cache = {}
        self.max_steps, self.max_paths, self.deadline = max_steps, max_paths, deadline
        self.query_timeout_ms, self.branch_timeout_ms = query_timeout_ms, branch_timeout_ms
        self.res = Result()
        self.seed = seed
        self._solver = None
        self.sstack = []
        self.work = []
        self.fnptr = {}
        self.mustsat = False
        self.ti_cache = {}
        self.typeids = {}
        self.uninit = 0
        self.opts = {}
        self.samples = []

    # ------------------------------------------------------------ run
    def initial(self):
        st = State.__new__(State)
        st.mem, st.frames, st.pc, st.model, st.owner = {}, [], [], None, object()
        st.next_id = self.mod.next_static + 1000
        st.fresh, st.inputs, st.exc, st.caught = 0, [], None, []
        st.steps, st.user, st.forks, st.trace = 0, {}, 0, []
        st.freed = 0
        st.uses = None
        s0 = z3.Solver()
        s0.check()
        st.model = s0.model()
        return st

    def run(self, entry, ctors=True):
        st = self.initial()
        try:
            self.push(st, self.mod.get(entry), [], None, None, None)
            if ctors:
                for c in reversed(self.ctors()):
                    self.push(st, self.mod.get(c), [], None, None, None)
            self.work.append(st)
            while self.work:
                st = self.work.pop()
                self.run_state(st)
                if self.res.paths + self.res.infeasible > self.max_paths:
                    raise Inconclusive("path limit %d reached" % self.max_paths)
        except Violation as v:
            self.res.violation = v
        except Inconclusive as e:
            self.res.inconclusive = str(e) + self.where(st)
        return self.res

    def where(self, st):
        return " [in " + " < ".join(f.fn.dem[:80] for f in reversed(st.frames[-5:])) + "]"

    def ctors(self):
        g = self.mod.grefs.get("llvm.global_ctors")
        if not g:
            return []
        init = ll.GetInitializer(g)
        out = []
        for i in range(self.mod.nelem(ll.TypeOf(init))):
            e = ll.AggElt(init, i)
            f = ll.AggElt(e, 1)
            out.append(ll.name(f))
        return out

    def run_state(self, st):
        steps0 = st.steps
        n = 0
        try:
            while st.frames:
                fr = st.frames[-1]
                while True:
                    code = fr.code
                    ip = fr.ip
                    fr.ip = ip + 1
                    n += 1
                    if code[ip](self, st, fr):
                        break
                if n & 0x3ff < 8 or n > self.max_steps:
                    if st.steps + n > self.max_steps:
                        raise Inconclusive("step limit %d reached (unwinding bound)" % self.max_steps)
                    if self.deadline and time.time() > self.deadline:
                        raise Inconclusive("time limit reached")
            self.res.paths += 1
            self.take_sample(st)
        except PathEnd:
            self.res.infeasible += 1
        except Violation as v:
            v.state = st
            raise
        except Inconclusive:
            raise
        except (z3.Z3Exception, TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError) as e:
            if os.environ.get("VP_DEBUG"):
                raise
            fr = st.frames[-1] if st.frames else None
            raise Inconclusive("engine error %s: %s" % (type(e).__name__, e))
        finally:
            st.steps += n
            self.res.steps += n

    def take_sample(self, st):
        """Model of a completed path, for native validation (first, and one later path)."""
        n = self.res.paths
        if not (n == 1 or (n & (n - 1)) == 0):
            return
        if st.model is None or st.pc:
            if st.model is None:
                if self.query(st) != z3.sat:
                    return
                st.model = self.last_model
        else:
            pass
        from .check import input_lines
        m = st.model
        s = input_lines(self.params, st.inputs, m)
        if len(self.samples) < 2: self.samples.append(s)
        else: self.samples[1] = s

    # ------------------------------------------------------------ solver
    def sync(self, st):
        s, stack, pc = self.solver, self.sstack, st.pc
        n = 0
        m = min(len(stack), len(pc))
        while n < m and stack[n] is pc[n]:
            n += 1
        if len(stack) > n:
            s.pop(len(stack) - n)
            del stack[n:]
        for c in pc[n:]:
            s.push()
            s.add(c)
            stack.append(c)

    @property
    def solver(self):
        if self._solver is None:
            lg = self.opts.get("logic")
            s = self._solver = z3.SolverFor(lg) if lg else z3.Solver()
            s.set("timeout", self.branch_timeout_ms)
            s.set("random_seed", self.seed)
        return self._solver

    def query(self, st, extra=None):
        """sat/unsat/unknown of pc & extra; leaves the model in self.last_model."""
        self.res.queries += 1
        t = time.time()
        if self.opts.get("fresh_branch"):
            r = self.fresh_check(st.pc + ([extra] if extra is not None else []), self.branch_timeout_ms)
        else:
            self.sync(st)
            s = self.solver
            if extra is not None:
                s.push()
                s.add(extra)
            r = s.check()
            self.last_model = s.model() if r == z3.sat else None
            if extra is not None:
                s.pop()
        self.res.solver_s += time.time() - t
        if SLOW and time.time() - t > SLOW:
            print("slow query %.2fs %s pc=%d" % (time.time() - t, r, len(st.pc)), self.where(st)[:150], flush=True)
            self.nslow = getattr(self, "nslow", 0) + 1
            s2 = z3.Solver(); s2.add(*st.pc)
            if extra is not None: s2.add(extra)
            open("/tmp/slow%d.smt2" % self.nslow, "w").write(s2.to_smt2())
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time limit reached")
        return r

    def fresh_check(self, cs, timeout):
        tac = self.opts.get("tactic")
        if tac:
            s = z3.Tactic(tac).solver()
        else:
            s = z3.Solver()
        s.set("timeout", timeout)
        try:
            s.set("random_seed", self.seed)
        except z3.Z3Exception:
            pass
        s.add(*cs)
        r = s.check()
        self.last_model = s.model() if r == z3.sat else None
        return r

    def decide(self, st, cond):
        """Python bool for a symbolic condition; forks when both ways are feasible."""
        if cond.__class__ is int:
            return bool(cond)
        cond = tobool(cond)
        c = norm(z3.simplify(cond))
        if isinstance(c, int):
            return bool(c)
        cond = c
        ncond = z3.simplify(z3.Not(cond))
        st.forks += 1
        if st.forks > self.opts.get("max_forks", 100000):
            raise Inconclusive("fork depth limit")
        can_t = can_f = None
        mt = mf = None
        if st.model is not None:
            v = st.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                can_t, mt = True, st.model
            elif z3.is_false(v):
                can_f, mf = True, st.model
        if can_t is None:
            r = self.query(st, cond)
            can_t = r != z3.unsat
            if r == z3.sat: mt = self.last_model
        if can_f is None:
            if not can_t:
                can_f = True
            else:
                r = self.query(st, ncond)
                can_f = r != z3.unsat
                if r == z3.sat: mf = self.last_model
        if not can_t:
            if mf is not None: st.model = mf
            return False
        if not can_f:
            if mt is not None: st.model = mt
            return True
        self.res.forks += 1
        st2 = st.clone()
        st2.frames[-1].ip -= 1
        st2.pc.append(ncond)
        st2.model = mf
        self.work.append(st2)
        st.pc.append(cond)
        st.model = mt
        return True

    def assume(self, st, cond):
        if isinstance(cond, int):
            if not cond:
                raise PathEnd()
            return
        cond = norm(z3.simplify(tobool(cond)))
        if isinstance(cond, int):
            if not cond:
                raise PathEnd()
            return
        if st.model is not None and z3.is_true(st.model.eval(cond, model_completion=True)):
            st.pc.append(cond)
            return
        if self.opts.get("lazy_assume"):
            st.pc.append(cond)
            st.model = None
            return
        r = self.query(st, cond)
        if r == z3.unsat:
            raise PathEnd()
        st.model = self.last_model if r == z3.sat else None
        st.pc.append(cond)

    def define(self, st, cond):
        """Add a definitional (always satisfiable) constraint."""
        st.pc.append(cond)
        if st.model is not None and not z3.is_true(st.model.eval(cond, model_completion=True)):
            st.model = None

    def concretize(self, st, e, limit=256):
        if isinstance(e, int):
            return e
        if isinstance(e, SymPtr):
            return (e.oid << OBJ_SHIFT) + self.concretize(st, e.off, limit)
        if isinstance(e, BoolRef):
            return int(self.decide(st, e))
        e = simp(e)
        if isinstance(e, int):
            return e
        if st.model is None:
            r = self.query(st)
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Inconclusive("solver gave up while concretising")
            st.model = self.last_model
        v = st.model.eval(e, model_completion=True)
        k = ("conc", e.get_id())
        c = st.user.get(k, (0,))[0] + 1
        if c > limit:
            raise Inconclusive("more than %d values for a concretised term" % limit)
        st.user[k] = (c, e)                 # e kept alive: its id is the key
        if self.decide(st, e == v):
            st.user.pop(k, None)
            return v.as_long()
        raise Inconclusive("concretize")

    def few_values(self, st, e, lim):
        """Concrete value of e on this path, forking, when it has at most lim values; else None."""
        k = ("few", e.get_id())
        r = st.user.get(k)
        if r is None:
            vals, ex_ = [], []
            if st.model is not None:
                vals.append(st.model.eval(e, model_completion=True).as_long())
            while len(vals) <= lim:
                if vals: ex_ = [e != v for v in vals]
                c = z3.And(*ex_) if len(ex_) > 1 else (ex_[0] if ex_ else None)
                q = self.query(st, c)
                if q == z3.unknown: return None
                if q == z3.unsat: break
                vals.append(self.last_model.eval(e, model_completion=True).as_long())
                if st.model is None: st.model = self.last_model
            else:
                vals = None
            r = (e, vals)
            st.user[k] = r
        vals = r[1]
        if vals is None: return None
        if not vals: raise PathEnd()
        for v in sorted(vals)[:-1]:
            if self.decide(st, e == v): return v
        v = max(vals)
        if len(vals) > 1: self.assume(st, e == v)
        return v

    def require(self, st, cond, kind, msg):
        """Prove cond on this path or raise a Violation with a model."""
        if isinstance(cond, int):
            if not cond:
                self.violation(st, kind, msg)
            self.res.trivial += 1
            return
        cond = norm(z3.simplify(tobool(cond)))
        if isinstance(cond, int):
            if not cond:
                self.violation(st, kind, msg)
            self.res.trivial += 1
            return
        neg = z3.Not(cond)
        if st.model is not None and z3.is_true(st.model.eval(neg, model_completion=True)):
            st.pc.append(neg)
            raise Violation(kind, msg, st.model)
        self.res.queries += 1
        t = time.time()
        r = None
        if kind != "check":
            self.sync(st)
            self.solver.push()
            self.solver.add(neg)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        if (r is None or r == z3.unknown) and self.opts.get("mulabs"):
            if self.fresh_check(abstract_mul(st.pc + [neg]), self.query_timeout_ms) == z3.unsat: r = z3.unsat
        if r is None or r == z3.unknown:
            r = self.decide_final(st.pc + [neg])
            m = self.last_model
        self.res.solver_s += time.time() - t
        if r == z3.sat:
            st.pc.append(neg)
            raise Violation(kind, msg, m)
        if r == z3.unknown:
            raise Inconclusive("solver could not decide: %s" % msg)

    def decide_final(self, cs):
        r = self.fresh_check(cs, self.query_timeout_ms)
        if r != z3.unknown:
            return r
        if not self.opts.get("cvc5", True):
            return r
        s = z3.Solver()
        s.add(*cs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
            f.write(txt)
            f.flush()
            try:
                p = subprocess.run(["cvc5", "--tlimit=%d" % self.query_timeout_ms, f.name], capture_output=True, text=True,
                                   timeout=self.query_timeout_ms / 1000 + 30)
                if p.stdout.strip().startswith("unsat"):
                    return z3.unsat
            except subprocess.TimeoutExpired:
                pass
        return z3.unknown

    def violation(self, st, kind, msg):
        """Unconditional violation on this path; the path itself must be feasible."""
        if st.model is None:
            r = self.query(st)
            if r == z3.unknown:
                r = self.decide_final(st.pc)
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Inconclusive("cannot confirm the path of: %s" % msg)
            st.model = self.last_model
        raise Violation(kind, msg + self.where(st), st.model)

    def fresh(self, st, name, sort):
        st.fresh += 1
        nm = "%s!%d" % (name, st.fresh)
        if sort == "int":
            return z3.Int(nm)
        if sort == "bool":
            return z3.Bool(nm)
        return z3.BitVec(nm, sort)

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name, zero=False):
        oid = st.next_id
        st.next_id += 1
        st.mem[oid] = Obj(oid, size, kind, name, zero, st.owner)
        return oid

    def obj(self, st, oid, what="access", addr=None):
        o = st.mem.get(oid)
        if o is None:
            o = self.mod.gobj(oid)
            if o is None:
                if oid == 0:
                    self.violation(st, "memory", "null pointer %s (address %#x)" % (what, addr or 0))
                self.violation(st, "memory", "%s through invalid or dangling pointer %#x" % (what, addr or oid << OBJ_SHIFT))
        return o

    def wobj(self, st, oid, addr=None):
        o = st.mem.get(oid)
        if o is None:
            o = self.obj(st, oid, "write", addr)
            if o.ro:
                self.violation(st, "memory", "write to constant " + o.name)
        if o.owner is not st.owner:
            o = o.copy(st.owner)
            st.mem[oid] = o
        return o

    def padd(self, p, c):
        if p.__class__ is int:
            return (p + c) & M64
        if isinstance(p, SymPtr):
            return SymPtr(p.oid, simp(p.off + (c & M64)), p.stride) if c else p
        raise Unsupported("pointer arithmetic on symbolic pointer")

    def padd_sym(self, st, p, x, scale, w):
        if isinstance(x, int):
            return self.padd(p, sgn(x, w) * scale)
        if isinstance(p, BVRef):
            raise Unsupported("gep on symbolic address")
        if w < 64:
            x = z3.SignExt(64 - w, tobv(x, w))
        off = x * scale if scale != 1 else x
        if isinstance(p, int):
            oid, base = p >> OBJ_SHIFT, p & OFF_MASK
            off = simp(off + base)
            if isinstance(off, int):
                return (oid << OBJ_SHIFT) + off
            return SymPtr(oid, off, scale)
        off = simp(p.off + off)
        import math
        st_ = math.gcd(p.stride, scale)
        if isinstance(off, int):
            return ((p.oid << OBJ_SHIFT) + off) & M64
        return SymPtr(p.oid, off, st_)

    def check_bounds_sym(self, st, o, off, size, what):
        if o.size < size:
            self.violation(st, "memory", "%s of %d bytes in %d-byte %s" % (what, size, o.size, o.name))
        self.require(st, z3.ULE(off, o.size - size), "memory", "%s of %d bytes out of bounds of %d-byte object '%s'%s" % (what, size, o.size, o.name, self.where(st)))

    def candidates(self, st, o, p, size, limit):
        """Feasible concrete offsets of a symbolic pointer (stride-aligned)."""
        off = p.off
        stride = max(1, p.stride)
        # residue modulo the stride
        r = simp(z3.URem(off, stride)) if stride > 1 else 0
        if not isinstance(r, int):
            if st.model is None:
                if self.query(st) != z3.sat: return None
                st.model = self.last_model
            rv = st.model.eval(off, model_completion=True).as_long() % stride
            # off = const + stride*k mod 2^64: residue is fixed when stride is a power of two; otherwise verify
            q = self.query(st, z3.URem(off, stride) != rv)
            if q != z3.unsat:
                stride, rv = 1, 0
            r = rv
        n = (o.size - size - r) // stride + 1
        if n > 16 * limit:
            return None
        outs = list(range(r, o.size - size + 1, stride))
        if len(outs) > 16:
            # shrink by asking the solver for the feasible range
            lo, hi = self.offset_range(st, off, outs[0], outs[-1])
            outs = [x for x in outs if lo <= x <= hi]
        return outs if len(outs) <= limit else None

    def offset_range(self, st, off, lo, hi):
        a, b = lo, hi
        # minimum
        l, h = lo, hi
        while l < h:
            m = (l + h) // 2
            if self.query(st, z3.ULE(off, m)) != z3.unsat: h = m
            else: l = m + 1
        a = l
        l, h = a, hi
        while l < h:
            m = (l + h + 1) // 2
            if self.query(st, z3.UGE(off, m)) != z3.unsat: l = m
            else: h = m - 1
        return a, l

    def load(self, st, p, size):
        if p.__class__ is not int:
            if isinstance(p, BVRef):
                p = self.concretize(st, p, 64)
            else:
                return self.load_sym(st, p, size)
        oid = p >> OBJ_SHIFT
        o = st.mem.get(oid)
        if o is None:
            o = self.obj(st, oid, "read", p)
        off = p & OFF_MASK
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self.load_slow(st, o, off, size)

    def load_slow(self, st, o, off, size):
        if off + size > o.size:
            self.violation(st, "memory", "read of %d bytes at offset %d of %d-byte object '%s'" % (size, off, o.size, o.name))
        if o.mpzv is not None:
            from . import models
            return models.limb_load(self, st, o, off, size)
        if o.kind == "extern":
            v = models_extern(self, o, off, size)
            if v is not None: return v
            raise Unsupported("read of external global " + o.name)
        cells = o.cells
        mx = o.maxcell
        # whole-cell containment
        bs = []
        allint = True
        for b in range(off, off + size):
            c = cells.get(b)
            if c is not None:
                v = c[1] if c[0] == 1 else byte_of(c[1], c[0], 0)
            else:
                v = None
                for d in range(1, mx):
                    c = cells.get(b - d)
                    if c is not None:
                        if c[0] > d:
                            v = byte_of(c[1], c[0], d)
                        break
                if v is None:
                    if o.zero:
                        v = 0
                    else:
                        v = self.uninit_byte(st, o, b)
            if v.__class__ is not int:
                allint = False
            bs.append(v)
        if allint:
            r = 0
            for i, v in enumerate(bs):
                r |= v << (8 * i)
            return r
        if size == 1:
            return bs[0]
        return simp(z3.Concat(*[tobv(v, 8) for v in reversed(bs)]))

    def uninit_byte(self, st, o, b):
        self.uninit += 1
        v = z3.BitVec("uninit_%d_%s_%d" % (o.oid, o.name, b), 8)
        o = self.wobj(st, o.oid)
        o.cells[b] = (1, v)
        return v

    def load_sym(self, st, p, size):
        o = self.obj(st, p.oid, "read")
        self.check_bounds_sym(st, o, p.off, size, "read")
        if o.mpzv is not None:
            off = self.concretize(st, p.off, 64)
            return self.load(st, (p.oid << OBJ_SHIFT) + off, size)
        cands = self.candidates(st, o, p, size, self.opts.get("ite_limit", 1100))
        if cands is None:
            off = self.concretize(st, p.off, self.opts.get("conc_limit", 300))
            return self.load(st, (p.oid << OBJ_SHIFT) + off, size)
        vals = []
        for c in cands:
            v = self.load(st, (p.oid << OBJ_SHIFT) + c, size)
            vals.append((c, v))
        if len(vals) == 1:
            return vals[0][1]
        if any(isinstance(v, SymPtr) for c, v in vals) or (size == 8 and any(isinstance(v, int) and v >> OBJ_SHIFT for c, v in vals)):
            # pointer table: fork
            off = self.concretize(st, p.off, self.opts.get("conc_limit", 300))
            return self.load(st, (p.oid << OBJ_SHIFT) + off, size)
        if all(isinstance(v, int) for c, v in vals) and len(set(v for c, v in vals)) == 1:
            return vals[0][1]
        w = size * 8
        r = tobv(vals[-1][1], w)
        for c, v in reversed(vals[:-1]):
            r = z3.If(p.off == c, tobv(v, w), r)
        return r

    def store(self, st, p, size, v):
        if p.__class__ is not int:
            if isinstance(p, BVRef):
                p = self.concretize(st, p, 64)
            else:
                return self.store_sym(st, p, size, v)
        oid = p >> OBJ_SHIFT
        off = p & OFF_MASK
        o = st.mem.get(oid)
        if o is None or o.owner is not st.owner:
            o = self.wobj(st, oid, p)
        if off + size > o.size:
            self.violation(st, "memory", "write of %d bytes at offset %d of %d-byte object '%s'" % (size, off, o.size, o.name))
        if o.ro:
            self.violation(st, "memory", "write to constant " + o.name)
        if o.mpzv is not None:
            from . import models
            return models.limb_store(self, st, o, off, size, v)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        if size > 16:
            raise Unsupported("wide store")
        cells_clear(o, off, size)
        cells[off] = (size, v)
        if size > o.maxcell:
            o.maxcell = size

    def store_sym(self, st, p, size, v):
        o = self.obj(st, p.oid, "write")
        self.check_bounds_sym(st, o, p.off, size, "write")
        cands = None
        if not isinstance(v, SymPtr) and o.mpzv is None:
            cands = self.candidates(st, o, p, size, self.opts.get("store_ite_limit", 64))
        if cands is None:
            off = self.concretize(st, p.off, self.opts.get("conc_limit", 300))
            return self.store(st, (p.oid << OBJ_SHIFT) + off, size, v)
        w = size * 8
        olds = [(c, self.load(st, (p.oid << OBJ_SHIFT) + c, size)) for c in cands]
        for c, old in olds:
            if isinstance(old, SymPtr):
                off = self.concretize(st, p.off, 300)
                return self.store(st, (p.oid << OBJ_SHIFT) + off, size, v)
        for c, old in olds:
            self.store(st, (p.oid << OBJ_SHIFT) + c, size, z3.If(p.off == c, tobv(v, w), tobv(old, w)))

    def region(self, st, p, n, what):
        """(obj id, offset) of a concrete region, bounds-checked."""
        if not isinstance(p, int):
            p = self.concretize(st, p, 300)
        oid, off = p >> OBJ_SHIFT, p & OFF_MASK
        if n == 0:
            return oid, off
        o = self.obj(st, oid, what, p)
        if off + n > o.size:
            self.violation(st, "memory", "%s of %d bytes at offset %d of %d-byte object '%s'" % (what, n, off, o.size, o.name))
        return oid, off

    def read_bytes(self, st, p, n):
        oid, off = self.region(st, p, n, "read")
        base = oid << OBJ_SHIFT
        return [self.load(st, base + off + i, 1) for i in range(n)]

    def write_bytes(self, st, p, bs):
        oid, off = self.region(st, p, len(bs), "write")
        base = oid << OBJ_SHIFT
        for i, b in enumerate(bs):
            self.store(st, base + off + i, 1, b)

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            # bound the symbolic length by the objects first, then enumerate it
            for p, what in ((s, "read"), (d, "write")):
                if isinstance(p, int):
                    o = self.obj(st, p >> OBJ_SHIFT, what, p) if p >> OBJ_SHIFT else None
                    room = o.size - (p & OFF_MASK) if o is not None else 0
                    self.require(st, z3.ULE(tobv(n, 64), room), "memory", "%s of symbolic length out of bounds of '%s'%s" % (what, o.name if o else "null", self.where(st)))
            n = self.concretize(st, n, self.opts.get("len_limit", 600))
        if n == 0:
            return
        d = self.concretize(st, d, 300) if not isinstance(d, int) else d
        s = self.concretize(st, s, 300) if not isinstance(s, int) else s
        so, soff = self.region(st, s, n, "read")
        do, doff = self.region(st, d, n, "write")
        src = self.obj(st, so)
        if src.mpzv is not None:
            raise Unsupported("memcpy of limb data")
        cells = src.cells
        items = []
        if n <= 4 * len(cells) + 64:
            b = soff
            end = soff + n
            while b < end:
                c = cells.get(b)
                if c is not None and b + c[0] <= end:
                    items.append((b - soff, c[0], c[1]))
                    b += c[0]
                else:
                    v = self.load_slow(st, src, b, 1) if c is None or c[0] != 1 else c[1]
                    src = self.obj(st, so)
                    cells = src.cells
                    items.append((b - soff, 1, v))
                    b += 1
            dst = self.wobj(st, do, d)
            if dst.mpzv is not None:
                raise Unsupported("memcpy into limb data")
            if dst.ro:
                self.violation(st, "memory", "write to constant " + dst.name)
            cells_clear(dst, doff, n)
            for o, sz, v in items:
                dst.cells[doff + o] = (sz, v)
                if sz > dst.maxcell: dst.maxcell = sz
            return
        # sparse large copy
        items = [(k, c) for k, c in cells.items() if soff <= k and k + c[0] <= soff + n]
        dst = self.wobj(st, do, d)
        cells_clear(dst, doff, n)
        if src.zero and not dst.zero:
            for i in range(n):
                dst.cells[doff + i] = (1, 0)
        for k, c in items:
            cells_store(dst, doff + k - soff, c[0], c[1])

    def cond_region(self, st, o, off, n, what, limit=300):
        """[lo, hi) offsets a symbolic write may touch, after proving it in bounds"""
        n64 = tobv(n, 64)
        self.require(st, z3.And(z3.ULE(n64, o.size), z3.ULE(off, o.size - n64)), "memory", "%s of symbolic length out of bounds of %d-byte object '%s'%s" % (what, o.size, o.name, self.where(st)))
        if o.size <= limit: return 0, o.size, off, n64
        lo, _ = self.offset_range(st, off, 0, o.size)
        _, hi = self.offset_range(st, simp(off + n64) if not isinstance(simp(off + n64), int) else off + n64, 0, o.size)
        if hi - lo > limit: return None
        return lo, hi, off, n64

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            p = d
            if isinstance(p, int):
                o = self.obj(st, p >> OBJ_SHIFT, "write", p)
                self.require(st, z3.ULE(tobv(n, 64), o.size - (p & OFF_MASK)), "memory", "memset of symbolic length out of bounds of '%s'%s" % (o.name, self.where(st)))
                r = self.cond_region(st, o, z3.BitVecVal(p & OFF_MASK, 64), n, "memset")
            elif isinstance(p, SymPtr):
                o = self.obj(st, p.oid, "write")
                r = self.cond_region(st, o, p.off, n, "memset")
            else: r = None
            if r is not None and o.mpzv is None and not o.ro:
                vv = tobv(v, 32) if isinstance(v, int) else v
                vv = z3.Extract(7, 0, vv) if vv.size() > 8 else vv
                base = o.oid << OBJ_SHIFT
                lo, hi, off, n64 = r
                for i in range(lo, hi):
                    c = norm(z3.simplify(z3.And(z3.ULE(off, i), z3.ULT(i - off, n64))))
                    if isinstance(c, int):
                        if c: self.store(st, base + i, 1, norm(z3.simplify(vv)))
                        continue
                    old = tobv(self.load(st, base + i, 1), 8)
                    self.store(st, base + i, 1, simp(z3.If(c, vv, old)))
                return
            n = self.concretize(st, n, self.opts.get("len_limit", 600))
        if n == 0:
            return
        do, doff = self.region(st, d, n, "write")
        dst = self.wobj(st, do, d if isinstance(d, int) else None)
        if dst.ro:
            self.violation(st, "memory", "write to constant " + dst.name)
        if dst.mpzv is not None:
            raise Unsupported("memset of limb data")
        cells_clear(dst, doff, n)
        if isinstance(v, int): v &= 255
        else: v = simp(z3.Extract(7, 0, tobv(v, 32))) if tobv(v, 32).size() > 8 else v
        if v == 0 if isinstance(v, int) else False:
            if dst.zero:
                return
            i = 0
            if n > 1 << 22:
                if doff == 0 and n == dst.size:
                    dst.zero = True
                    dst.cells = {}
                    return
                raise Unsupported("huge memset")
            while i < n and (doff + i) % 8:
                dst.cells[doff + i] = (1, 0); i += 1
            while i + 8 <= n:
                dst.cells[doff + i] = (8, 0); i += 8
            if dst.maxcell < 8: dst.maxcell = 8
            while i < n:
                dst.cells[doff + i] = (1, 0); i += 1
            return
        for i in range(n):
            dst.cells[doff + i] = (1, v)

    def cstr(self, st, p, limit=4096):
        """Concrete C string (bytes) or None if a symbolic byte is met."""
        out = []
        p = p if isinstance(p, int) else self.concretize(st, p)
        for i in range(limit):
            b = self.load(st, p + i, 1)
            if not isinstance(b, int):
                b = simp(b)
                if not isinstance(b, int):
                    return None
            if b == 0:
                return bytes(out)
            out.append(b)
        return bytes(out)

    # ------------------------------------------------------------ calls
    def push(self, st, fn, args, retslot, gn, gu):
        fr = Frame.__new__(Frame)
        fr.fn = fn
        r = fn.template[:]
        r[:len(args)] = args[:fn.nparams] if len(args) > fn.nparams else args
        fr.regs = r
        fr.code, fr.ip, fr.bb = fn.blocks[0], 0, 0
        fr.retslot, fr.normal, fr.unwind = retslot, gn, gu
        fr.allocas = []
        fr.callw = None
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Inconclusive("recursion depth limit")
        self.res.functions[fn.name] = self.res.functions.get(fn.name, 0) + 1

    def ret(self, st, v):
        fr = st.frames.pop()
        mem = st.mem
        for a in fr.allocas:
            mem.pop(a, None)
        if not st.frames:
            return
        c = st.frames[-1]
        if fr.retslot is not None:
            c.regs[fr.retslot] = v
        if fr.normal:
            fr.normal(c)

    def model_for(self, nm):
        h = self.models.get(nm)
        if h is not None:
            return h
        h = self.pat_cache.get(nm)
        if h is None:
            h = False
            dem = self.mod.dem.get(nm, nm)
            for rx, hh in self.patterns:
                if rx.search(dem):
                    h = hh
                    break
            self.pat_cache[nm] = h
        return h

    def call(self, st, fr, nm, av, d, gn, gu, rty, argt):
        h = self.model_for(nm)
        if h:
            try:
                v = h(self, st, av)
            except CppThrow as e:
                st.exc = (e.ptr, e.ti)
                self.throw_from(st, gu)
                return True
            self.res.models_used[nm] = self.res.models_used.get(nm, 0) + 1
            if v is None and rty[0] != "void":
                v = 0 if rty[0] != "f" else 0.0
            fr.regs[d] = v
            if gn:
                gn(fr)
                return True
            return st.frames and st.frames[-1] is not fr
        if nm in self.mod.aliases:
            tgt = self.mod.aliases[nm]
            nm = ll.name(tgt)
        ref = self.mod.fnrefs.get(nm)
        if ref is None or ll.IsDeclaration(ref):
            raise Unsupported("call to external %s (%s)" % (nm, self.mod.dem.get(nm, nm)))
        f = self.mod.get(nm)
        self.push(st, f, av, d, gn, gu)
        return True

    def call_fn(self, st, nm, args):
        """From a model: run a defined function next (its result is discarded)."""
        self.push(st, self.mod.get(nm), args, None, None, None)

    # ------------------------------------------------------------ exceptions
    def throw_from(self, st, gu):
        if gu:
            gu(st.frames[-1])
            return
        self.unwind(st)

    def unwind(self, st):
        while st.frames:
            fr = st.frames.pop()
            for a in fr.allocas:
                st.mem.pop(a, None)
            if fr.unwind:
                if not st.frames:
                    break
                fr.unwind(st.frames[-1])
                return
        ptr, ti = st.exc
        self.violation(st, "uncaught", "uncaught C++ exception %s" % self.tiname(ti))

    def tiname(self, a):
        g = self.mod.addrg.get(a >> OBJ_SHIFT) if isinstance(a, int) else None
        if g:
            return ll.name(g)
        return a if isinstance(a, str) else "?%r" % (a,)

    BUILTIN_BASES = {
        "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
        "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt12length_error": ["_ZTISt11logic_error"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
        "_ZTISt14overflow_error": ["_ZTISt13runtime_error"], "_ZTISt11range_error": ["_ZTISt13runtime_error"],
        "_ZTISt15underflow_error": ["_ZTISt13runtime_error"],
        "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
        "_ZTISt8bad_cast": ["_ZTISt9exception"], "_ZTISt17bad_function_call": ["_ZTISt9exception"],
        "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt12future_error": ["_ZTISt11logic_error"],
    }
    def bases(self, nm):
        if nm in self.BUILTIN_BASES:
            return self.BUILTIN_BASES[nm]
        g = self.mod.grefs.get(nm)
        if g and not ll.IsDeclaration(g):
            o = self.mod.gobj(self.mod.gaddr[g] >> OBJ_SHIFT)
            out = []
            for off, (sz, v) in sorted(o.cells.items()):
                if isinstance(v, int):
                    b = self.mod.addrg.get(v >> OBJ_SHIFT)
                    if b and ll.name(b).startswith("_ZTI"):
                        out.append(ll.name(b))
            return out
        return []
    def ti_match(self, ti, catch):
        a, b = self.tiname(ti), self.tiname(catch)
        key = (a, b)
        r = self.ti_cache.get(key)
        if r is None:
            todo, r = [a], False
            while todo:
                x = todo.pop()
                if x == b:
                    r = True
                    break
                todo += self.bases(x)
            self.ti_cache[key] = r
        return r
    def typeid(self, ct):
        nm = self.tiname(ct) if ct else "..."
        if nm not in self.typeids:
            self.typeids[nm] = len(self.typeids) + 1
        return self.typeids[nm]

    def throw_std(self, st, cls):
        """Throw a std exception object (no payload)."""
        p = self.alloc(st, 64, "exc", cls, True) << OBJ_SHIFT
        from . import models
        self.store(st, p, 8, models.std_vtable(self, st))
        g = self.mod.grefs.get(cls)
        raise CppThrow(p, self.mod.gaddr[g] if g else cls)

    def inline_asm(self, st, txt, args):
        if '"pause"' in txt or 'asm sideeffect ""' in txt or '"mfence"' in txt or "asm sideeffect \"\"" in txt:
            return 0
        raise Unsupported("inline asm " + txt[:120])

def models_extern(ex, o, off, size):
    if o.name in ("stdout", "stderr", "stdin"):
        return 0x7fff << OBJ_SHIFT
    if o.name.startswith("_ZTV"):
        return 0
    return 0 if o.name in ("__dso_handle", "environ", "__libc_single_threaded") else None
