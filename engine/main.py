"""Driver: check <property> [entry ...]"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1"); sys.dont_write_bytecode = True
from concurrent.futures import ProcessPoolExecutor, as_completed
from sx import build, explore

VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
STRICT = bool(os.environ.get("VERIF_STRICT"))      # development: anything undecided fails
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
# seconds per entry / per query
BUDGET = 420 if TIER == "quick" else 3000
TOTAL = 660 if TIER == "quick" else 6 * 3600   # for all entries of a check together
CHECK_S = 25 if TIER == "quick" else 120

def one(a):
    se, ne, entry, work, kn, end = a
    try:
        x = explore.Explorer(se, ne, entry, seed=SEED, budget=max(10, min(BUDGET, end - time.time())), check_s=CHECK_S, workdir=work, known=kn)
        t = time.time()
        try: x.run(); err = None
        except Exception: err = traceback.format_exc()
        d = x.summary(); d["wall"] = round(time.time() - t, 2)
        if err: d["undecided"].append({"label": "engine", "result": err[-1500:]}); d["nundecided"] += 1
        return d
    except Exception:
        return dict(entry=entry, fatal=traceback.format_exc())

def demangle(ms):
    if not ms: return []
    r = subprocess.run(["c++filt"], input="\n".join(ms), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")[:len(ms)]

def headers(path):
    """// BOUNDS: / // ASSUMES: / // REPLACED: comments of a harness"""
    out = {"BOUNDS": [], "ASSUMES": [], "REPLACED": []}
    for l in open(path):
        m = re.match(r"//\s*(BOUNDS|ASSUMES|REPLACED):\s*(.*)", l)
        if m: out[m.group(1)].append(m.group(2).strip())
    return out

def known(prop):
    """entries of the known-findings file for this property: list of (label, what)"""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) check=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    if sys.argv[1:2] == ["--setup"]:
        build.ensure("C01"); print("setup: tool chain ok"); return 0
    if sys.argv[1:2] == ["--replay"]:
        lines = open(sys.argv[2]).read().split("\n"); prop, entry = re.match(r"# (\S+) (\S+)", lines[0]).groups()
        se, ne, n, w = build.ensure(prop)
        d = tempfile.mkdtemp(); m = os.path.join(d, "m.txt"); open(m, "w").write("\n".join(l for l in lines if not l.startswith("#")))
        rc = subprocess.run([ne, entry, m]).returncode; shutil.rmtree(d); print("exit", rc); return 0 if rc == 0 else 1
    prop = sys.argv[1]; only = sys.argv[2:]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try: se, ne, names, warn = build.ensure(prop)
    except build.BuildError as e:
        print("ERROR: %s" % e); return 2
    build.prune()
    tb = time.time() - t0
    ents = subprocess.run([se], stdout=subprocess.PIPE, text=True).stdout.split()
    ents = [e for e in ents if (TIER == "thorough" or not e.startswith("deep_"))]
    if only: ents = [e for e in ents if e in only]
    work = tempfile.mkdtemp(prefix="sx_%s_" % prop); res = []
    try:
        with ProcessPoolExecutor(max_workers=min(8, len(ents))) as ex:
            fs = [ex.submit(one, (se, ne, e, work, [k[0] for k in known(prop)], t0 + TOTAL)) for e in ents]
            for f in as_completed(fs): res.append(f.result())
        return finish(prop, res, names, warn, t0, tb, work, bool(only))
    finally: shutil.rmtree(work, ignore_errors=True)

def finish(prop, res, names, warn, t0, tb, work, partial):
    res.sort(key=lambda d: d["entry"])
    hdr = headers(os.path.join(VERIF, "harness", prop + ".cpp"))
    fatal = [d for d in res if "fatal" in d]; res = [d for d in res if "fatal" not in d]
    kn = known(prop); viols = []; knownhit = {}; undec = []
    for d in res:
        for v in d["viol"]:
            lab = d["entry"] + "/" + v["label"]
            k = next((k for k in kn if k[0] == lab), None)
            if k: knownhit[k] = v
            else: viols.append((lab, d["entry"], v))
        for u in d["undecided"]:
            if any(k[0] == d["entry"] + "/" + u["label"] for k in kn): continue
            undec.append((d["entry"], u))
        if not d["viol"]:
            for l in d["unconfirmed"]: undec.append((d["entry"], {"label": l, "result": "no witness reaches this check: vacuous"}))
            if not d["checks"] and not any(u[0] == d["entry"] for u in undec): undec.append((d["entry"], {"label": "-", "result": "no check was reached"}))
    funcs = sorted(set(demangle([names[f] for f in sorted({f for d in res for f in d["functions"]}) if f in names])))
    S = lambda k: sum(d[k] for d in res)
    by = {}
    for d in res:
        for k, v in d["by"].items(): by[k] = by.get(k, 0) + v
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
      "coverage": {
        "states": S("paths"), "transitions": S("branches"), "traces_validated_against_impl": S("validated"),
        "samples": [s for d in res for s in d["samples"]][:8],
        "entries": len(res), "paths_pruned_infeasible": S("pruned"), "path_forks": S("forks"),
        "property_assertions_on_paths": S("checks"), "assertions_discharged": S("discharged"), "of_which_identities_after_normalisation": S("simplified"),
        "solver_queries": S("queries"), "solver_unsat": S("unsat"), "solver_sat": S("sat"), "solver_unknown": S("unknown"), "solver_seconds": round(S("solver_s"), 2),
        "queries_by_solver": by, "native_replays": S("replays"), "paths_not_proved_feasible": S("unsure"), "symbolic_inputs": S("inputs"),
        "functions_encoded": funcs, "bounds": hdr["BOUNDS"], "replaced_by_symbolic_stubs": hdr["REPLACED"],
        "per_entry": [{k: d[k] for k in ("entry", "paths", "pruned", "branches", "checks", "discharged", "queries", "solver_s", "wall", "validated")} | {"labels": {l: v["confirmed"] for l, v in d["labels"].items()}, "notes": d["notes"]} for d in res],
        "undecided": [{"entry": e, **{k: u[k] for k in u if k != "msg"}} for e, u in undec][:40],
        "untranslated_constructs": sorted(set(warn))[:20],
        "sample_queries": [q for d in res for q in d["qsample"]][:2],
        "build_seconds": round(tb, 1)},
      "assumptions": hdr["ASSUMES"] + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    out = os.path.join(VERIF, "evidence", prop + ".json")
    if not partial: json.dump(ev, open(out, "w"), indent=1)
    for d in res:
        print("%-4s %-28s paths=%d checks=%d/%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (prop, d["entry"], d["paths"], d["discharged"], d["checks"], d["queries"], d["solver_s"], d["validated"], d["wall"]))
    for k, v in knownhit.items(): print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    rc = 0
    for i, (lab, entry, v) in enumerate(viols[:5]):
        f = os.path.join(VERIF, "evidence", "%s_violation_%d.txt" % (prop, i))
        with open(f, "w") as h:
            h.write("# %s %s\n# check %s: %s on the real code with these inputs (verify with: /verif/replay %s)\n" % (prop, entry, lab, v["what"], f))
            for n, x in v["inputs"].items(): h.write("%s %s\n" % (n, float(x).hex()))
            for n, x in v["inputs"].items(): h.write("# %s = %r\n" % (n, x))
        print("  %s: %s (%s)" % (entry, v["label"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, f)); rc = 1
    for d in fatal: print("ERROR %s: %s" % (d["entry"], d["fatal"])); rc = rc or 2
    for e, u in undec[:10]:
        print("UNDECIDED %s/%s: %s" % (e, u["label"], str(u["result"])[:600]))
    # an assertion the solver could not settle is reported as such and claims nothing; without a counterexample it is no violation
    if undec and (STRICT or not S("discharged")): rc = rc or 2
    print("%s: %s in %.1f s" % (prop, {0: "holds on everything explored" + (" (%d assertions or explorations left undecided)" % len(undec) if undec else ""), 1: "violated", 2: "not decided"}[rc], time.time() - t0))
    return rc

COMMON_ASSUMPTIONS = [
 "double arithmetic is modelled as exact real arithmetic: floating-point rounding is outside the claim (checks of equality have a tolerance of 1e-7 unless stated); NaN and infinity are modelled on the paths where a division by zero or a domain error creates them",
 "floating-point constants in the code stand for the short decimal or simple fraction they were written as",
 "clang 18 -O0 IR of the sources is taken as their meaning; memory, virtual calls, containers and exceptions run concretely as compiled, on every path",
 "z3 and cvc5 are sound; the rational-function normaliser in engine/sx/poly.py is sound (every path's verdict is cross-checked by running a witness through the natively compiled code)",
 "a counterexample is reported only if the natively compiled code reproduces it"]
if __name__ == "__main__": sys.exit(main())
