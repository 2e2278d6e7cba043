"""writes /verif/MANIFEST.json from properties.jsonl and the notes below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
PROOF = "Every obligation generated from the instrumented real functions of the current tree is discharged by z3/cvc5 for all swarm sizes, dimensions, iterations and costs, on extended reals (rounding not modelled) with assumed numpy/scipy contracts; the same contracts are also checked at run time on the real code over seeded inputs (bounded), which supplies the failing input of a violation. Where a changed function leaves the verifier's subset, the bounded run-time contracts alone decide and the evidence says so."
BOUNDED = "Bounded: run-time contract checks of the real code on seeded inputs; no proof claimed."
NOTE = {}
LEVEL = {}
exec(open(os.path.join(H, "tools", "levels.py")).read())
checks = []
for p in props:
    i = p["id"]
    lv = LEVEL.get(i, "proof")
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "contract-based deductive verification: symbolic execution of the instrumented real functions against contracts and loop invariants, VCs discharged by z3/cvc5; counterexample search by run-time contract checking"
                   if lv == "proof" else "run-time contract checking of the real functions (bounded)",
                   "level": lv, "level_note": (NOTE.get(i, "") + " " + (PROOF if lv == "proof" else BOUNDED)).strip()})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: /repo is verified as it is; the verifier instruments the source in memory at import time", "source_commits": []},
     "notes": "See DESIGN.md. check.py <id> --replay <file> replays a reported violation."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
