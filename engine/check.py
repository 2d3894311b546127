"""Runs one property's jobs, replays counterexamples, writes evidence."""
import os, sys, json, time, shutil, tempfile, traceback, argparse, subprocess, signal
import multiprocessing as mp
from . import build
VERIF = build.VERIF

class Job:
    def __init__(self, harness, name="", params=(), mode="bv", extra=(), reach=(), opts=None, tier="quick", timeout=600, entry="vp_main",
                 olevel="O1", max_steps=20_000_000, max_paths=200_000, query_ms=240_000, branch_ms=30_000, bounds="", cost=1, validate=True, confirm=True):
        self.harness = os.path.join(build.HARNESS, harness)
        self.name = name or harness.rsplit(".", 1)[0]
        self.params, self.mode, self.extra, self.reach = list(params), mode, tuple(extra), list(reach)
        self.opts, self.tier, self.timeout, self.entry, self.olevel = opts or {}, tier, timeout, entry, olevel
        self.max_steps, self.max_paths, self.query_ms, self.branch_ms, self.bounds, self.cost = max_steps, max_paths, query_ms, branch_ms, bounds, cost
        self.validate, self.confirm = validate, confirm
    def key(self):
        return (self.harness, self.extra, self.olevel, self.entry)

def input_lines(params, inputs, model):
    import z3
    out = ["param %d" % p for p in params]
    for d in model.decls():
        if d.arity() == 2 and d.name().startswith("uf_"):
            fi = model[d]
            for i in range(fi.num_entries()):
                e = fi.entry(i)
                out.append("uf %s %s %s %s" % (d.name()[3:], e.arg_value(0), e.arg_value(1), e.value()))
            ev = fi.else_value()
            try: out.append("ufelse %s %d" % (d.name()[3:], ev.as_long()))
            except Exception: pass
    for name, v, w in inputs:
        x = model.eval(v, model_completion=True)
        val = x.as_signed_long() if w < 0 else x.as_long()
        out.append((name, val, w))
    return out

def run_job(job, bc, seed, q):
    """Executed in a child process."""
    t0 = time.time()
    r = {"name": job.name}
    if os.environ.get("VP_TRACE"):
        import faulthandler; faulthandler.dump_traceback_later(int(os.environ["VP_TRACE"]), exit=True)
    try:
        import z3
        from . import exec as E
        mod = build.load_module(bc)
        ex = E.Executor(mod, mode=job.mode, params=job.params, max_steps=job.max_steps, max_paths=job.max_paths,
                        deadline=t0 + job.timeout, query_timeout_ms=job.query_ms, branch_timeout_ms=job.branch_ms, seed=seed)
        ex.opts.update(job.opts)
        from . import models
        models.POLY[0] = bool(job.opts.get("poly"))
        from . import symex
        symex.LINCMP[0] = bool(job.opts.get("lincmp"))
        ex.sample = None
        res = ex.run(job.entry)
        r.update(paths=res.paths, infeasible=res.infeasible, steps=res.steps, queries=res.queries, checks=res.checks, trivial=res.trivial,
                 forks=res.forks, solver_s=round(res.solver_s, 3), reached=res.reached, check_msgs=res.check_msgs,
                 functions={mod.dem.get(k, k)[:120]: v for k, v in res.functions.items()}, models=sorted(mod.dem.get(k, k)[:80] for k in res.models_used),
                 uninit=ex.uninit, polyid=getattr(res, "polyid", 0))
        if ex.samples:
            r["samples"] = [[l if isinstance(l, str) else list(l) for l in s] for s in ex.samples]
        if res.violation is not None:
            v = res.violation
            r["violation"] = {"kind": v.kind, "msg": v.msg}
            r["inputs"] = [l if isinstance(l, str) else list(l) for l in input_lines(job.params, v.state.inputs, v.model)]
            r["trace"] = [f.fn.dem[:100] for f in v.state.frames]
        if res.inconclusive:
            r["inconclusive"] = res.inconclusive
    except BaseException as e:
        r["inconclusive"] = "engine: " + " | ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-7:]) + " " + repr(e)[:300]
    r["wall"] = round(time.time() - t0, 2)
    q.put(r)

def write_replay(path, lines, signed=()):
    with open(path, "w") as f:
        for l in lines:
            if isinstance(l, str):
                f.write(l + "\n")
            else:
                n, v, w = l
                f.write("in %s %d\n" % (n, v))

def run_jobs(jobs, bcs, seed, parallel, deadline):
    pend = sorted(jobs, key=lambda j: -j.cost)
    running, results = [], {}
    ctx = mp.get_context("fork")
    while pend or running:
        while pend and len(running) < parallel:
            j = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_job, args=(j, bcs[j.key()], seed, q))
            p.start()
            running.append((j, p, q, time.time()))
        time.sleep(0.02)
        for it in running[:]:
            j, p, q, t0 = it
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try: got = q.get(timeout=1)
                    except Exception: got = {"name": j.name, "inconclusive": "worker died (exit %s)" % p.exitcode, "wall": time.time() - t0}
                elif time.time() - t0 > j.timeout + 60 or time.time() > deadline:
                    got = {"name": j.name, "inconclusive": "killed after %ds" % (time.time() - t0), "wall": time.time() - t0}
            if got is not None:
                if p.is_alive():
                    p.join(0.5)
                    if p.is_alive(): p.kill()
                running.remove(it)
                results[j.name] = got
                if "violation" in got and not os.environ.get("VP_ALL"):
                    pend = []
    return results

def known_findings(pid):
    """lines: finding property=<id> job=<regex> msg=<regex> :: description"""
    import re
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) job=(\S+) inputs=(\S+) msg=/(.*)/ :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out

def main(pid, jobs, info):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--timeout", type=int)
    a = ap.parse_args(sys.argv[2:])
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (860 if tier == "quick" else 6 * 3600)
    jobs = [j for j in jobs if tier == "thorough" or j.tier == "quick"]
    if a.only:
        jobs = [j for j in jobs if a.only in j.name]
    if a.timeout:
        for j in jobs: j.timeout = a.timeout
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    rc = 0
    msgs = []
    try:
        bcs, natives, stubs, berr = {}, {}, {}, None
        keys = list({j.key(): None for j in jobs})
        from concurrent.futures import ThreadPoolExecutor
        def b(ik):
            i, k = ik
            return k, build_one(k, os.path.join(work, "b%d" % i))
        try:
            with ThreadPoolExecutor(8) as tp:
                for k, (bc, used) in tp.map(b, enumerate(keys)):
                    bcs[k] = bc
                    stubs[k] = used
        except build.BuildError as e:
            print("ERROR property=%s cannot build harness:\n%s" % (pid, e))
            sys.exit(2)
        for k, u in stubs.items():
            for rx, sym, hit in u:
                if not hit and a.v:
                    print("note: stub pattern %s matched nothing in %s" % (rx, os.path.basename(k[0])))
        tb = time.time() - t0
        # native builds in the background, used for replays and encoding validation
        nat = {}
        ntp = ThreadPoolExecutor(2)
        vkeys = list({j.key(): None for j in jobs if j.validate})
        def nb(ik):
            i, k = ik
            try:
                return build.build_native(k[0], os.path.join(work, "n%d" % i), k[1])
            except build.BuildError as e:
                return e
        futs = {k: ntp.submit(nb, (i, k)) for i, k in enumerate(vkeys)} if info.get("validate", True) else {}
        par = int(os.environ.get("VP_PAR", "8"))
        results = run_jobs(jobs, bcs, seed, par, deadline)
        viols, inconc, notes, knowns = [], [], [], []
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        def native(j):
            k = j.key()
            if k in futs: return futs[k].result()
            e = nb((900 + keys.index(k), k))
            class F:
                def result(self): return e
            futs[k] = F()
            return e
        kf = known_findings(pid)
        import re
        for j in jobs:
            r = results.get(j.name)
            if r is None:
                continue
            if a.v:
                print("job %-40s %6.1fs paths=%s steps=%s queries=%s checks=%s solver=%s %s%s" % (j.name, r["wall"], r.get("paths"), r.get("steps"), r.get("queries"),
                      r.get("checks"), r.get("solver_s"), ("VIOL " + r["violation"]["msg"]) if "violation" in r else "", ("INCONCLUSIVE " + r["inconclusive"]) if "inconclusive" in r else ""))
            if "violation" in r:
                rp = os.path.join(rdir, "%s-%s.txt" % (pid, re.sub(r"\W+", "_", j.name)))
                write_replay(rp, r["inputs"])
                conf, detail = "unreplayed", ""
                e = native(j)
                if isinstance(e, Exception):
                    detail = "native build failed: " + str(e)[-800:]
                else:
                    c, err = build.replay(e, rp)
                    detail = err
                    if c in (77, 78, 79, "timeout", 0):
                        conf = "not reproduced (%s)" % (c,)
                        if c == "timeout" and r["violation"]["kind"] in ("abort",): conf = "confirmed"
                    else:
                        conf = "confirmed"
                with open(rp, "a") as f:
                    f.write("# property %s job %s harness %s extra %s\n# %s: %s\n# native replay: %s\n" % (pid, j.name, j.harness, " ".join(j.extra), r["violation"]["kind"], r["violation"]["msg"], conf))
                    for l in detail.splitlines()[:40]:
                        f.write("# " + l + "\n")
                ins = ",".join("%s=%s" % (l[0], l[1]) for l in r["inputs"] if not isinstance(l, str))
                known = None
                for g in kf:
                    if re.fullmatch(g[1], j.name) and re.search(g[3], r["violation"]["msg"]) and (g[2] == "*" or re.search(g[2], ins)):
                        known = g[4]
                if known:
                    knowns.append(known)
                elif conf == "confirmed" or not j.confirm:
                    viols.append((j, r, rp))
                else:
                    inconc.append("%s: %s: counterexample %s: %s (%s)" % (j.name, r["violation"]["kind"], conf, r["violation"]["msg"], rp))
            if "inconclusive" in r:
                inconc.append("%s: %s" % (j.name, r["inconclusive"]))
            elif "violation" not in r:
                for m in j.reach:
                    if not r["reached"].get(m):
                        inconc.append("%s: vacuous: '%s' never reached" % (j.name, m))
                if not r.get("checks") and not info.get("nocheck"):
                    inconc.append("%s: no assertion was evaluated" % j.name)
        # encoding validation: replay models of passing paths natively
        validated = tried = 0
        vbad = []
        if info.get("validate", True) and not viols:
            for j in jobs:
                r = results.get(j.name)
                if not r or not j.validate: continue
                for si, s in enumerate(r.get("samples", [])[:2]):
                    e = native(j)
                    if isinstance(e, Exception):
                        vbad.append("%s: native build failed: %s" % (j.name, str(e)[-600:]))
                        break
                    rp = os.path.join(work, "s.txt")
                    write_replay(rp, s)
                    c, err = build.replay(e, rp)
                    tried += 1
                    if c == 0: validated += 1
                    else: vbad.append("%s sample %d: native rc=%s %s" % (j.name, si, c, err[-300:]))
        for k in set(knowns):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for m in vbad:
            print("VALIDATION-MISMATCH %s" % m)
        ok = [r for r in results.values()]
        S = lambda k: sum(r.get(k) or 0 for r in ok)
        fns = {}
        for r in ok:
            for k, v in r.get("functions", {}).items(): fns[k] = fns.get(k, 0) + v
        import subprocess
        samples = []
        for j in jobs:
            r = results.get(j.name, {})
            for s in r.get("samples", [])[:1]:
                samples.append({"job": j.name, "inputs": [str(x)[:120] for x in s][:12]})
        repo_fns = sorted(k for k in fns if not k.startswith(("std::", "vp_", "__gnu_cxx", "void std::", "bool std::", "operator new")))[:150]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": S("paths") + S("infeasible"), "transitions": S("steps"), "traces_validated_against_impl": validated,
                           "samples": samples[:8] or ["(no path completed)"], "jobs": len(ok), "paths_completed": S("paths"), "paths_cut_by_assumptions": S("infeasible"),
                           "forks": S("forks"), "queries_discharged": S("queries"), "assertions_checked": S("checks"), "discharged_by_rewriting": S("trivial"),
                           "solver_seconds": round(S("solver_s"), 2), "functions_encoded": repo_fns, "functions_encoded_total": len(fns),
                           "models_used": sorted({m for r in ok for m in r.get("models", [])}), "assertions": sorted({m for r in ok for m in r.get("check_msgs", {})}),
                           "reached": sorted({m for r in ok for m in r.get("reached", {})}), "bounds": info.get("bounds", "") , "job_bounds": sorted({j.bounds for j in jobs if j.bounds}),
                           "per_job": [{"job": j.name, "paths": results[j.name].get("paths"), "wall_s": results[j.name].get("wall"), "queries": results[j.name].get("queries")} for j in jobs if j.name in results][:60],
                           "inconclusive": inconc, "validation_failures": vbad, "known_findings": sorted(set(knowns)),
                           "solver": "z3 %s (cvc5 as second opinion on unknown)" % __import__("z3").get_version_string(), "build_s": round(tb, 1)},
              "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for j, r, rp in viols:
            print("%s: %s: %s" % (j.name, r["violation"]["kind"], r["violation"]["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        if not viols:
            if inconc:
                for m in inconc: print("INCONCLUSIVE property=%s %s" % (pid, m))
                rc = 2
            elif vbad:
                rc = 2
        print("%s: %s; %d jobs, %d paths, %d instructions, %d queries, %d assertions, %.1fs solver, %d/%d native validations, %.1fs" % (
            pid, {0: "holds within bounds", 1: "VIOLATED", 2: "no verdict"}[rc], len(ok), S("paths"), S("steps"), S("queries"), S("checks"), S("solver_s"), validated, tried, time.time() - t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def build_one(k, d):
    harness, extra, olevel, entry = k
    return build.build_symbolic(harness, d, extra, entry, olevel)
