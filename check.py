#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property on /repo's current tree:
 1. every proof task of the property symbolically executes the real functions (instrumented from the current source) against
    their contracts; every obligation of the property goes to the SMT back ends (z3, cvc5);
 2. the runtime contract checks run the real code on generated inputs (bounded; also the search for failing inputs).
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 3: no answer.
"""
import os, sys
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0"}
if os.environ.get("VERIF_CHECK_CHILD") != "1":
    os.environ.update(ENV)
    os.environ["VERIF_CHECK_CHILD"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

import argparse, json, pickle, shutil, signal, subprocess, tempfile, time, warnings
sys.path.insert(0, HERE)
NCPU = os.cpu_count() or 4

TECHNIQUE = "contract-based deductive verification of the instrumented real Python functions (symbolic execution, VCs to z3/cvc5)"

TRUSTED = [
    "floating-point arithmetic is treated as arithmetic on the extended reals (finite reals, +inf, -inf, NaN); rounding is covered by the runtime contract checks only",
    "contracts of numpy, scipy and the Python built-ins as implemented in pyvc (npshim.py, arrays.py, seqs.py, runtime.py)",
    "exp, log, sin, cos, sqrt and powers are uninterpreted functions with range/monotonicity axioms and bounds on e; a sum of d terms each >= m is >= d*m",
    "scipy.spatial.cKDTree, scipy.spatial.Delaunay (every vertex has a neighbour; adjacency itself only in the runtime checks), scipy.sparse.csgraph: assumed contracts",
    "the instrumentation (pyvc/instrument.py) preserves the semantics of the instrumented functions",
    "the objective function is an arbitrary terminating function that does not modify the optimizer",
    "termination: the mirroring loop is proved to end after two rounds, the repair loop of the random topology to join every unreachable pair in its first round; for loops over finite ranges end",
]


def run_property_tasks(pid, tier, budget):
    """all proof tasks of the property, in parallel; list of plain result dicts"""
    import importlib, multiprocessing, threading
    from specs import base
    for m in ("operators", "options", "topologies", "optimizers", "swarm", "functions", "evaluate", "lifecycle", "searches", "plotting", "neighbours", "forwarding"):
        if os.path.exists(os.path.join(HERE, "specs", m + ".py")):
            importlib.import_module("specs." + m)
    base.TIER = tier
    tasks = [t for t in base.TASKS.values() if pid in t.props]
    if not tasks:
        return []
    t0 = time.time()
    try:
        base.mod()
    except Exception as e:
        return [{"task": t.name, "funcs": t.funcs, "error": "cannot load the package: %s: %s" % (type(e).__name__, e), "obs": [], "paths": 0, "feasible": 0,
                 "skipped": 0, "wall": 0, "called": [], "notes": []} for t in tasks]
    sem = multiprocessing.Semaphore(NCPU)
    want = lambda o: pid in o.tags or not o.tags
    to, dl = (6000, 30) if tier == "quick" else (20000, 90)
    procs = []
    for t in tasks:
        rd, wr = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(rd)
                r = base.run_task(t, timeout=to, deadline=dl, budget=max(5, budget - (time.time() - t0)), want=want, procs=NCPU, sem=sem)
                out = {"task": t.name, "funcs": t.funcs, "error": r.error, "paths": r.paths, "feasible": r.feasible, "skipped": r.skipped,
                       "wall": r.wall, "called": sorted(r.called), "notes": sorted(r.notes),
                       "obs": [dict(label=o.label, kind=o.kind, tags=list(o.tags), status=o.status, reason=o.reason, backend=o.backend,
                                    time=o.time, model=o.modeltext, path=str(getattr(o.ctx, "choices", ""))) for o in r.obs]}
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(out, f)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((t, p, rd))
    results = []

    def reader(t, p, rd):
        try:
            with os.fdopen(rd, "rb") as f:
                results.append(pickle.load(f))
        except Exception as e:
            results.append({"task": t.name, "funcs": t.funcs, "error": "engine: worker ended (%s)" % type(e).__name__, "obs": [], "paths": 0, "feasible": 0,
                            "skipped": 0, "wall": 0, "called": [], "notes": []})
        os.waitpid(p, 0)
    ths = [threading.Thread(target=reader, args=x) for x in procs]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
    results.sort(key=lambda r: r["task"])
    return results


def start_rac(pid, tier, seed, scale, limit, out, scratch, tag):
    d = os.path.join(scratch, "rac-%s" % tag)
    os.makedirs(d)
    return subprocess.Popen([sys.executable, os.path.join(HERE, "rac", "run.py"), pid, "--tier", tier, "--seed", str(seed), "--scale", str(scale),
                             "--limit", str(limit), "--out", out], cwd=d, stdout=open(os.path.join(d, "log"), "wb"), stderr=subprocess.STDOUT)


def end_rac(p, out, limit, scratch, tag):
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    try:
        return json.load(open(out))
    except Exception:
        log = ""
        try:
            log = open(os.path.join(scratch, "rac-%s" % tag, "log"), errors="replace").read()[-1500:]
        except OSError:
            pass
        return {"violations": [], "errors": [{"check": "runner", "error": "the runtime checks did not finish: " + log}], "checks": [], "evaluations": 0}


def rac_search(pid, tier, seed, scale, limit, scratch, tag, n):
    ps = []
    for i in range(n):
        out = os.path.join(scratch, "%s-%d.json" % (tag, i))
        t = "%s-%d" % (tag, i)
        ps.append((start_rac(pid, tier, seed + 1000003 * i, scale, limit, out, scratch, t), out, t))
    rs = [end_rac(p, out, limit * 2 + 60, scratch, t) for p, out, t in ps]
    m = {"violations": [], "errors": [], "checks": [], "evaluations": 0, "known": {}}
    for r in rs:
        m["known"].update(r.get("known", {}))
        m["violations"] += r["violations"]
        m["errors"] += r["errors"]
        m["evaluations"] += r["evaluations"]
        for c in r["checks"]:
            e = [x for x in m["checks"] if x["name"] == c["name"]]
            if e:
                e[0]["cases"] += c["cases"]
            else:
                m["checks"].append({"name": c["name"], "cases": c["cases"], "sample": c.get("sample")})
    return m


TRANSC = ("exp", "log", "sin", "cos", "sqrt", "pow", "tanh", "arctan")


def main():
    a = argparse.ArgumentParser()
    a.add_argument("pid")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--replay")
    a.add_argument("--no-proof", action="store_true")
    a.add_argument("-v", action="store_true")
    a = a.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.pid
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.environ["TMPDIR"] = scratch
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    os.chdir(scratch)
    try:
        if a.replay:
            rep = json.load(open(a.replay if os.path.isabs(a.replay) else os.path.join(HERE, a.replay)))
            if "case" in rep:
                f = os.path.join(scratch, "case.json")
                json.dump(rep["case"], open(f, "w"))
                code = subprocess.call([sys.executable, os.path.join(HERE, "rac", "run.py"), pid, "--replay", f], cwd=scratch)
            else:
                print(json.dumps(rep, indent=1))
                code = 0
        else:
            code = decide(a, pid, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def decide(a, pid, scratch):
    t0 = time.time()
    quick = a.tier == "quick"
    budget = 330 if quick else 600
    par = 2 if quick else 4
    lim = 40 if quick else 240
    rac_out = {}
    # proofs and runtime checks at the same time
    import threading
    th = threading.Thread(target=lambda: rac_out.update(rac_search(pid, a.tier, a.seed, 1, lim, scratch, "main", par)))
    th.start()
    results = [] if a.no_proof else run_property_tasks(pid, a.tier, budget)
    th.join()
    rac = rac_out
    obs = [dict(o, task=r["task"]) for r in results for o in r["obs"]]
    mine = [o for o in obs if pid in o["tags"]]
    bad = [o for o in obs if o["status"] != "discharged"]
    errors = [(r["task"], r["error"]) for r in results if r["error"]]
    empty = ["(all tasks)"] if results and not mine else []
    empty += [r["task"] for r in results if not r["error"] and not r["obs"] and not r["skipped"]]
    infeasible = [r["task"] for r in results if not r["error"] and not r["feasible"]]
    # an obligation is refuted only by a saturated counter-model without uninterpreted special functions
    refuted = [o for o in mine if o["status"] == "refuted"]
    undecided = [o for o in bad if o not in refuted]
    complete = bool(results) and not bad and not errors and not empty and not infeasible
    if not rac["violations"] and bad and not rac.get("extended"):
        # a failed obligation: look for an input that shows it on the real code
        left = (420 if quick else 800) - (time.time() - t0)
        if left > 20:
            more = rac_search(pid, a.tier, a.seed + 77, 6, min(left, 90 if refuted else 45), scratch, "search", NCPU)
            rac["violations"] += more["violations"]
            rac["errors"] += more["errors"]
            rac["evaluations"] += more["evaluations"]
            for c in more["checks"]:
                for e in rac["checks"]:
                    if e["name"] == c["name"]:
                        e["cases"] += c["cases"]
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    verdict, line = 0, None
    if rac["violations"]:
        v = rac["violations"][0]
        path = os.path.join("evidence", "replay", "%s-input.json" % pid)
        json.dump({"property": pid, "case": v["case"], "what": v["what"], "replay_cmd": "python3 check.py %s --replay %s" % (pid, path),
                   "failed_obligations": sorted({o["task"] + ": " + o["label"] for o in bad if pid in o["tags"]})[:20]},
                  open(os.path.join(HERE, path), "w"), indent=1, default=str)
        print("%s: %s" % (v["case"].get("check"), v["what"]))
        verdict, line = 1, "VIOLATION property=%s replay=%s" % (pid, path)
    elif refuted:
        path = os.path.join("evidence", "replay", "%s-obligation.json" % pid)
        o = refuted[0]
        json.dump({"property": pid, "task": o["task"], "failed_obligation": o["label"], "kind": o["kind"], "path": o["path"], "verifier_output": o["model"],
                   "all_failed": sorted({x["task"] + ": " + x["label"] + " [" + x["status"] + "]" for x in bad})[:40],
                   "note": "the obligation is discharged on the unchanged tree; the verifier now has a counter-model, but the runtime checks found no failing input"},
                  open(os.path.join(HERE, path), "w"), indent=1)
        print("failed obligation: %s: %s" % (o["task"], o["label"]))
        verdict, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)
    elif not complete and not rac["evaluations"]:
        verdict = 3
    elif rac["evaluations"] and rac["errors"] and len(rac["errors"]) >= rac["evaluations"] and not complete:
        verdict = 3
    # report
    backends, stime = {}, 0.0
    for o in obs:
        if o["status"] == "discharged":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        stime += o["time"]
    disc = sum(o["status"] == "discharged" for o in obs)
    level = "proof" if results else "exploration"
    cov = {
        "evaluations": rac["evaluations"],
        "distinct_nontrivial": rac["evaluations"],
        "rule": "runtime contract checks: seeded random cases of the generators in /verif/rac, every case distinct by its seed and satisfying the preconditions",
        "samples": [c["sample"] for c in rac["checks"] if c.get("sample")][:4],
        "runtime_checks": [{"name": c["name"], "cases": c["cases"]} for c in rac["checks"]],
        "runtime_errors": [str(e.get("error"))[-300:] for e in rac["errors"][:3]],
    }
    if results:
        cov.update({
            "obligations": len(obs), "discharged": disc,
            "checker_cmd": "python3 check.py %s --tier %s" % (pid, a.tier),
            "trusted_base": TRUSTED,
            "property_obligations": len(mine),
            "property_obligations_discharged": sum(o["status"] == "discharged" for o in mine),
            "backends": backends, "solver_time_s": round(stime, 1),
            "tasks": [{"task": r["task"], "functions": r["funcs"], "paths": r["paths"], "feasible_paths": r["feasible"],
                       "obligations": len(r["obs"]), "discharged": sum(o["status"] == "discharged" for o in r["obs"]),
                       "obligations_of_other_properties": r["skipped"], "error": r["error"], "wall_s": round(r["wall"], 1)} for r in results],
            "contracts_applied_at_calls": sorted({c for r in results for c in r["called"]}),
            "undecided": [{"task": o["task"], "obligation": o["label"], "status": o["status"], "reason": o["reason"]} for o in bad][:30] +
                         [{"task": t, "obligation": "(whole task)", "status": "undecided", "reason": e} for t, e in errors],
            "decided_by": "proof" if complete else "bounded runtime contract checks (proof incomplete)",
        })
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": TRUSTED if results else [], "violations": 1 if line else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for r in results:
        n = len(r["obs"])
        k = sum(o["status"] == "discharged" for o in r["obs"])
        print("%-44s paths %3d  obligations %4d  discharged %4d  %6.1fs %s" % (r["task"], r["paths"], n, k, r["wall"], r["error"] or ""))
    for o in bad[:10] if not a.v else bad:
        print("  %s: %s: %s (%s)" % (o["status"], o["task"], o["label"], o["reason"]))
    for t in empty:
        print("  no obligation of this property in task %s" % t)
    for t in infeasible:
        print("  no feasible path in task %s" % t)
    for e in rac["errors"][:2]:
        print("  runtime check error: %s" % str(e.get("error"))[-400:])
    print("%s: %s; %d runtime cases; %.1f s" % (pid, "all obligations discharged" if complete else "proof incomplete" if results else "no proof task", rac["evaluations"], time.time() - t0))
    for k, what in sorted(rac.get("known", {}).items()):
        print("KNOWN-FINDING: property=%s id=%s %s" % (pid, k, what))
    if line:
        print(line)
    return verdict


if __name__ == "__main__":
    main()
