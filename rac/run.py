"""python -m rac.run <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rac import core
from rac.core import *
sys.path.insert(0, core.REPO)


def load():
    from rac import trace, units  # noqa: F401


def main():
    a = argparse.ArgumentParser()
    a.add_argument("pid")
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--limit", type=float, default=120)
    a.add_argument("--scale", type=float, default=1)
    a.add_argument("--replay")
    a.add_argument("--out")
    a.add_argument("--only")
    a = a.parse_args()
    load()
    import pyswarms
    assert os.path.realpath(pyswarms.__file__).startswith(os.path.realpath(core.REPO) + "/"), pyswarms.__file__
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        e = [e for e in REG[a.pid] if e.name == case["check"]][0]
        m = run_case(e, case)
        print("property %s, check %s" % (a.pid, e.name))
        print("case: %s" % json.dumps(case))
        print("contract broken: %s" % m if m else "contract holds")
        sys.exit(1 if m else 0)
    r = {"violations": [], "errors": [], "checks": [], "evaluations": 0}
    t0 = time.time()
    ents = [e for e in REG.get(a.pid, []) if not a.only or e.name.startswith(a.only)]
    for j, e in enumerate(ents):
        t1 = time.time()
        done, slot = 0, (a.limit - (t1 - t0)) / (len(ents) - j)
        n = max(1, int((e.quick if a.tier == "quick" else e.thorough) * a.scale))
        sample = None
        for case in cases(e, a.seed, n):
            try:
                m = run_case(e, case)
            except Exception as x:
                import traceback
                r["errors"].append({"check": e.name, "case": case, "error": traceback.format_exc()[-1500:]})
                m = None
                if len(r["errors"]) > 5:
                    break
            done += 1
            sample = sample or case
            if m:
                r["violations"].append({"case": case, "what": m})
                break
            if time.time() - t1 > slot:
                break
        r["checks"].append({"name": e.name, "cases": done, "planned": n, "wall_s": round(time.time() - t1, 2), "sample": sample})
        r["evaluations"] += done
    r["known"] = core.KNOWN_HITS
    if a.out:
        json.dump(r, open(a.out, "w"))
    else:
        for v in r["violations"]:
            print("VIOLATED", v["what"], json.dumps(v["case"]))
        for v in r["errors"][:2]:
            print("ERROR", v["error"], json.dumps(v["case"]))
        print([(c["name"], c["cases"], c["wall_s"]) for c in r["checks"]])
    sys.exit(0)


if __name__ == "__main__":
    main()
