"""writes MANIFEST.json from the table below"""
import json, os, sys
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else []
NOTE = open(os.path.join(os.path.dirname(__file__), "notes.json"))
NOTES = json.load(NOTE)
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
COMMON = "Sound for the analysed code under the stated std models: every obligation is decided on every path of the named functions; obligations are necessary conditions of the property (component contracts), their composition into the end-to-end statement is argued in DESIGN.md, not mechanised. Trusted: rustc MIR extraction, analysis/stdmodel.py, the prover in analysis/terms.py. "
checks, na = [], []
for p in props:
    if p in CLAIMED:
        checks.append({"property": p, "quick_cmd": "python3 -m analysis.check %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 -m analysis.check %s" % p,
                       "technique": "static analysis: abstract interpretation of the crate's MIR, path-sensitive obligations",
                       "level": "other", "level_note": COMMON + "Decides: " + NOTES["decides"][p]})
    else:
        na.append({"property": p, "reason": NOTES.get("na", {}).get(p, "rules for this property are not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c 'from analysis.extract import build_driver; build_driver()'", "checks": checks, "not_applicable": na},
          open("/verif/MANIFEST.json", "w"), indent=1)
