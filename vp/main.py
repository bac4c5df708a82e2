"""Command line of a check."""
from __future__ import annotations
import argparse
import json
import os
import sys
import time
from . import run as R

HERE = R.HERE


def known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"known": [], "fixed": []}


def match_known(k, prop, f):
    return (k["property"] == prop and k["contract"] == f["contract"] and k["obligation"] == f["obligation"]
            and k.get("case", "") in f["case"])


def baseline():
    p = os.path.join(HERE, "baseline.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {}


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--mode", default="PFC")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--record-baseline", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    reg = [c for c in R.load_contracts() if c.prop == a.prop]
    if a.only:
        reg = [c for c in reg if a.only in c.name]
    if a.replay:
        return do_replay(reg, a)
    if not reg:
        print("no contract for", a.prop)
        return 2
    # import both worlds before forking
    from . import loader
    loader.real_mods()
    budget = 330 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "820"))
    deadline = t0 + budget
    jobs = []
    for c in reg:
        for mode in ("P", "F"):
            if mode not in c.modes or mode not in a.mode:
                continue
            cases = list(c.fcases(tier)) if mode == "F" else [({}, cfg) for cfg in (c.pcfgs or c.cfgs)]
            for dims, cfg in cases:
                if mode == "F" and c.skip and tier == "quick" and c.skip(dims, cfg):
                    continue
                lim = c.time_limit * (3 if tier == "thorough" else 1)
                lab = f"{mode}:{c.name}[{R.casekey(dims, cfg)}]"
                jobs.append((lab, lim + 40, R.job_deductive, (c, mode, dims, cfg, tier, seed)))
    cjobs = []
    for c in reg:
        if "C" in c.modes and "C" in a.mode:
            b = c.cbudget * (6 if tier == "thorough" else 1)
            cjobs.append((f"C:{c.name}", b + 60, R.job_concrete, (c, tier, seed, b)))
    res = R.pool(cjobs + jobs, deadline, a.v)
    return report(a, tier, seed, t0, reg, res)


def report(a, tier, seed, t0, reg, res):
    prop = a.prop
    base = baseline().get(prop, {})
    violations, knownhits, undecided, notes, errors = [], [], [], [], []
    obligations = discharged = 0
    per_fn = {}
    backends = {}
    solver_s = 0.0
    ev = dict(runs=0, distinct=0, checked=0, samples=[])
    assumed = set()
    proved_cases = []
    newbase = {}
    vac = []
    bycon = {c.name: c for c in reg}
    kn = known()
    summ = {}

    def add_violation(f, unreplayed=False):
        for k in kn.get("known", []):
            if match_known(k, prop, f):
                if k["what"] not in knownhits:
                    knownhits.append(k["what"])
                return
        f = dict(f, unreplayed=unreplayed)
        key = (f["contract"], f["obligation"])
        for v in violations:
            if (v["contract"], v["obligation"]) == key:
                v.setdefault("also", []).append(f["case"])
                if v["unreplayed"] and not unreplayed:
                    v.update(f)
                return
        violations.append(f)

    for lab, r in res:
        if r["kind"] in ("X", "T"):
            undecided.append({"case": lab, "why": r["error"][-300:]})
            if r["kind"] == "X":
                errors.append((lab, r["error"]))
            continue
        c = bycon[r["contract"]]
        sc = summ.setdefault(c.name, {"functions": c.funcs, "mode": {}, "assumes": c.assumes})
        if r["kind"] == "C":
            ev["runs"] += r["runs"]
            ev["distinct"] += r["distinct"]
            ev["checked"] += r["checked"]
            if r["sample"]:
                ev["samples"].append(r["sample"])
            sc["concrete"] = {"runs": r["runs"], "rejected_by_precondition": r["rejects"], "cases": r["cases"]}
            for f in r["failures"]:
                add_violation(f)
            for e in r["errors"]:
                errors.append((lab, e["error"]))
            if r["runs"] == 0:
                vac.append(lab + ": no concrete run satisfied the precondition")
            continue
        solver_s += r["solver_s"]
        assumed.update(r["assumed_defined"])
        m = sc["mode"].setdefault(r["kind"], {"cases": 0, "obligations": 0, "discharged": 0, "undecided_cases": []})
        m["cases"] += 1
        n = sum(o["discharged"] + o["refuted"] + o["undecided"] for o in r["obl"].values())
        d = sum(o["discharged"] for o in r["obl"].values())
        obligations += n
        discharged += d
        m["obligations"] += n
        m["discharged"] += d
        for o in r["obl"].values():
            for b, k in o["backends"].items():
                backends[b] = backends.get(b, 0) + k
        if r["note"]:
            undecided.append({"case": lab, "why": r["note"]})
            m["undecided_cases"].append(r["case"])
        for u in r["undecided"]:
            undecided.append({"case": lab, "why": "solver gave no answer: " + u["obligation"]})
        if n == 0 and not r["note"] and not r.get("inapplicable"):
            vac.append(lab + ": zero obligations")
        if n and not r["covered"]:
            vac.append(lab + ": assumptions of every path unsatisfiable or not shown satisfiable")
        ok_names = [nm for nm, o in r["obl"].items() if o["refuted"] == 0 and o["undecided"] == 0] if not r["note"] else []
        newbase[lab] = ok_names
        if ok_names and len(ok_names) == len(r["obl"]):
            proved_cases.append(lab)
        for f in r["refuted"]:
            g = {"contract": c.name, "case": r["case"], "dims": f["dims"], "cfg": r["cfg"], "obligation": f["obligation"],
                 "mode": r["kind"], "goal": f["goal"], "model": f["vals"], "detail": f["detail"]}
            if f["replayed"]:
                g.update(detail=f["replayed"]["detail"], vals=f["replayed"]["vals"], obligation=f["replayed"]["obligation"],
                         seed=f["replayed"]["seed"])
                add_violation(g)
            elif r["kind"] == "F" and f["obligation"] in base.get(lab, []) and f["goal"] and f["goal"] != "path must be infeasible":
                add_violation(g, unreplayed=True)
            else:
                undecided.append({"case": lab, "why": f"refuted but not reproduced on the real code: {f['obligation']}"})

    if a.record_baseline:
        p = os.path.join(HERE, "baseline.json")
        b = baseline()
        b[prop] = {k: v for k, v in newbase.items() if v}
        json.dump(b, open(p, "w"), indent=0, sort_keys=True)
    # ---- output
    rc = 0
    for w in knownhits:
        print(f"KNOWN-FINDING: property={prop} {w}")
    os.makedirs(R.REPLAYS, exist_ok=True)
    for i, v in enumerate(violations):
        p = os.path.join(R.REPLAYS, f"{prop}-{i}.json")
        json.dump(dict(v, property=prop), open(p, "w"), indent=1, default=str)
        print(f"  failed obligation: {v['contract']} [{v['case']}] :: {v['obligation']} -- {str(v['detail'])[:300]}")
        print(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if v["unreplayed"] else ""))
        rc = 1
    wall = time.time() - t0
    level = LEVELS.get(prop, "other")
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"/verif/check.py {prop} --tier {tier}",
        "trusted_base": TRUSTED, "backends": backends, "solver_seconds": round(solver_s, 2),
        "cases_fully_discharged": len(proved_cases),
        "proved_for_all_array_sizes": sorted(x for x in proved_cases if x.startswith("P:")),
        "undecided": undecided[:60], "undecided_count": len(undecided),
        "assumed_defined": sorted(assumed),
        "contracts": summ,
        "evaluations": ev["runs"], "distinct_nontrivial": ev["distinct"],
        "rule": "bounded cross-check: each contract also executed on the real code in CPython with seeded inputs satisfying its precondition; "
                "an evaluation counts as non-trivial when at least one postcondition was evaluated, distinct by its input values",
        "samples": ev["samples"][:6],
        "vacuity": vac,
        "explanation": "F cases: all real-valued inputs, array sizes fixed as listed (bounded in size). P cases: all sizes.",
    }
    evd = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 2),
           "violations": len(violations), "violation_list": [{k: v.get(k) for k in ("contract", "case", "obligation", "detail", "unreplayed")} for v in violations],
           "assumptions": ASSUMPTIONS + sorted({x for c in reg for x in c.assumes})}
    if not a.only and a.mode == "PFC":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(evd, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print(f"{prop}: {len(reg)} contracts, {obligations} obligations, {discharged} discharged {backends}, "
          f"{len(undecided)} undecided, {ev['runs']} concrete cross-checks, {wall:.1f}s")
    for lab, e in errors[:5]:
        print("  check error in", lab, ":", e[-600:])
    for v in vac[:8]:
        print("  vacuity:", v)
    if rc == 0 and obligations + ev["checked"] == 0:
        print("no obligation was generated: not an answer")
        return 2
    return rc


def do_replay(reg, a):
    f = json.load(open(a.replay))
    con = next(c for c in reg if c.name == f["contract"])
    if f.get("unreplayed"):
        print("no failing input known; failed obligation:", f["obligation"], "\ngoal:", f.get("goal"), "\nmodel:", f.get("model"))
        return 1
    for vals in (f.get("vals"), None):
        st, info = R.run_concrete(con, f["dims"], f["cfg"], f.get("seed"), vals)
        if st == "fail":
            print("reproduced:", info[0], "--", info[1])
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
    print("not reproduced:", st, info if st == "error" else "")
    return 0


LEVELS = {}
TRUSTED = ["z3 5.3.2", "cvc5 1.1.2", "CPython 3.12 semantics of the instrumented source", "vp/term.py normaliser",
           "vp/npx.py numpy/pandas stand-ins (cross-checked against real numpy by mode C)", "vp/loader.py extraction"]
ASSUMPTIONS = [
    "floating point is treated as exact real arithmetic in the deductive modes",
    "divisors are non-zero, radicands non-negative and log arguments positive on every deductive path (recorded as assumed_defined)",
]
