"""Writes MANIFEST.json from the registered contracts."""
import json, sys
sys.path.insert(0, "/verif"); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vp import run as R, main as MN
reg = R.load_contracts()
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
claimed = sorted({c.prop for c in reg})
NA = {}
checks = []
for p in ids:
    if p not in claimed:
        continue
    cs = [c for c in reg if c.prop == p]
    lev = MN.LEVELS.get(p, "other")
    sizes = {}
    for c in cs:
        if "F" in c.modes:
            for k, v in c.dims.items():
                sizes.setdefault(k, set()).update(v)
    allp = [c.name for c in cs if "P" in c.modes]
    conly = [c.name for c in cs if c.modes == "C"]
    note = ("Contracts on the real functions; verification conditions generated from /repo's source on every run by symbolic execution of the "
            "(mechanically transformed) source, discharged by normalisation, z3 and cvc5 for all real inputs. ")
    if allp:
        note += "Proved for every array size: " + ", ".join(allp) + ". "
    note += "Other contracts: all values, array sizes bounded to " + ", ".join(f"{k} in {sorted(v)}" for k, v in sorted(sizes.items())) + ". "
    if conly:
        note += "Bounded stand-ins (executed on the real code only, never counted as proved): " + ", ".join(conly) + ". "
    note += "Refutations are replayed on the real code before they are reported. Floats are treated as reals; assumed external contracts are listed in DESIGN.md."
    checks.append({"property": p, "quick_cmd": f"/opt/venv/bin/python check.py {p} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": "contract-based deductive verification (VC generation from the real Python source, z3/cvc5)",
                   "level": lev, "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "contracts for this property are not built yet")} for p in ids if p not in claimed]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
