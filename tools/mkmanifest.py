"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
if os.path.exists(V + "/tools/not_applicable.json"): NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    h = V + "/harness/%s.cpp" % i
    if not os.path.exists(h): na.append({"property": i, "reason": "no check built yet"}); continue
    b = [l[3:].strip() for l in open(h) if l.startswith("// BOUNDS:")]
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
      "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the compiled code (LLVM IR) with SMT (z3, cvc5) deciding every branch and assertion",
      "level": "model_checking",
      "level_note": "All feasible paths of the real code within the stated bounds, each assertion discharged by the solver over all input values; exact real arithmetic instead of floating point; counterexamples are replayed natively. " + " ".join(b)})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
 "notes": "No hooks are needed in /repo: the encoding is made from the compiler's IR. Genuine defects were repaired with fix: commits, see known_findings.txt and DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
