"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks = json.load(open(H + "/checks.json"))
NA = checks.get("_not_applicable", {})
TECH = "contract-based deductive verification: VCs generated from clang's AST of the real code, discharged by z3/cvc5"
NOTE = ("Every obligation of the contracts of the functions involved (and of all they call) is discharged on the current sources for all inputs, "
        "unbounded loops by invariants; trusted: the VC generator, clang's AST, the stated models of the C++ standard library, sizes <= INT_MAX. "
        "A concrete stage (ASan/UBSan, independent oracle) replays failed obligations and adds bounded execution; it is not counted as proof. ")
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py %s --thorough" % i, "technique": c.get("technique", TECH),
                              "level": c["level"], "level_note": c.get("level_note", NOTE) + c.get("note", "")})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: the contracts of this part are still being written")})
out["notes"] = "No hooks are needed in /repo: the verifier reads the sources as they are. known-findings.txt lists findings and fixed defects."
json.dump(out, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
