"""python3 -m analysis.check <property>: decides one property on /repo's current source."""
import importlib
import json
import os
import pkgutil
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

from analysis.extract import extract, VERIF, ExtractError  # noqa: E402
from analysis.prog import Prog  # noqa: E402
from analysis.rules import Ctx, RULES  # noqa: E402
import analysis.r  # noqa: E402

TITLES = {}
KNOWN = os.path.join(VERIF, "known-findings.json")


def load_rules():
    for m in pkgutil.iter_modules(analysis.r.__path__):
        importlib.import_module("analysis.r." + m.name)


def report(prop, findings, path):
    from analysis.terms import show, T
    from analysis.absint import Path
    with open(path, "w") as f:
        f.write("property %s is not established on the current source of uflow\n\n" % prop)
        for x in findings:
            f.write("* rule %s\n  %s\n  at %s\n" % (x.rid, x.msg, x.loc or "?"))
            for y in x.path or ():
                if isinstance(y, T):
                    f.write("    value: %s\n" % show(y)[:1500])
                elif isinstance(y, Path):
                    f.write("    on the path where:\n")
                    for i in y.facts.items:
                        f.write("      %s\n" % show(i)[:300])
            f.write("\n")


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    load_rules()
    try:
        mir = extract()
    except ExtractError as e:
        print("cannot analyse the crate: %s" % e)
        return 2
    p = Prog(mir)
    c = Ctx(p)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    c.run(prop, *((None, 150, 480) if tier == "quick" else (None, 500, 780)))
    known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop] if os.path.exists(KNOWN) else []
    fresh = []
    for f in c.findings:
        k = [x for x in known if x["rule"] == f.rid and x["message"] == f.msg]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
        else:
            fresh.append(f)
    ev = os.environ.get("UFLOW_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, prop + ".report.txt")
    if fresh:
        report(prop, fresh, rp)
    elif os.path.exists(rp):
        os.unlink(rp)
    rules = [{"rule": r, "text": t, "obligations": c.stats[r][0], "failed": sum(1 for f in c.findings if f.rid == r)}
             for r, ps, t, _ in RULES if r in c.stats]
    fns = sorted(set(k for k in c.fns))
    cov = {
        "explanation": "Static analysis of the crate's MIR (extracted from the working tree by this run): each function below was abstractly "
                       "interpreted over all its paths with symbolic inputs, with the calls named as boundaries summarised and everything else inlined; "
                       "every obligation of every rule was decided on every path, call site or table entry it applies to. Nothing was executed.",
        "functions_in_program": len(mir["fns"]),
        "functions_with_body": sum(1 for f in mir["fns"] if "blocks" in f),
        "functions_analysed_as_roots": fns,
        "functions_inlined": len(c.inlined()),
        "paths": c.npaths,
        "obligations": c.obl,
        "obligations_failed": len(c.findings),
        "rules": rules,
        "rules_undecided": [{"rule": r, "reason": x} for r, x in c.undecided],
        "samples": c.samples[:12],
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
                   "assumptions": ["rustc's MIR of the dev profile is what is compiled", "the models of std functions in analysis/stdmodel.py",
                                   "32 and 64 bit counters that the code never wraps on purpose (byte totals, milliseconds) do not overflow"],
                   "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}, f, indent=1)
    for r, x in c.undecided:
        print("UNDECIDED property=%s rule=%s %s" % (prop, r, x))
    if fresh:
        for f in fresh[:20]:
            print("%s: [%s] %s" % (f.loc or "?", f.rid, f.msg))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if c.undecided and len(c.undecided) == len(rules):
        print("%s: no rule of the property could be decided on this code" % prop)
        return 2
    print("%s: %d obligations of %d rules hold on %d paths (%.1f s)" % (prop, c.obl, len(rules), c.npaths, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
