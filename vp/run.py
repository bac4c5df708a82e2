"""Runs the contracts of one property, replays refutations on the real code, writes the evidence."""
from __future__ import annotations
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def load_contracts():
    from . import spec
    d = os.path.join(HERE, "vp", "contracts")
    for f in sorted(glob.glob(os.path.join(d, "*.py"))):
        n = os.path.basename(f)[:-3]
        if n != "__init__":
            importlib.import_module(f"vp.contracts.{n}")
    from . import frame
    return frame.derived(spec.REGISTRY)


def casekey(dims, cfg):
    return ",".join([f"{k}={v}" for k, v in dims.items()] + [f"{k}={v}" for k, v in cfg.items()])


# --------------------------------------------------------------------------- concrete mode
def run_concrete(con, dims, cfg, seed=None, vals=None, keep=None):
    """One concrete run on the real code.  Returns ('ok'|'reject'|'fail'|'error', info)."""
    import numpy as np
    from . import spec, loader, concrete
    rng = np.random.default_rng(seed if seed is not None else 0)
    S = con.concrete(rng, dims, vals)
    M = loader.real_mods()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with concrete.patched(S):
                try:
                    con.fn(S, M, **cfg)
                finally:
                    while S.spies:
                        setattr(*S.spies.pop())
        return ("ok" if S.checked else "reject"), S
    except spec.Reject:
        return "reject", S
    except spec.Failure as e:
        return "fail", (e.name, e.detail, S)
    except Exception as e:
        if con.frame:
            return ("ok" if S.checked else "reject"), S
        tb = traceback.extract_tb(e.__traceback__)
        inpkg = [f for f in tb if "/pyvallocation/" in f.filename]
        if inpkg:
            return "fail", ("returns normally", f"raised {type(e).__name__}: {str(e)[:200]}", S)
        return "error", traceback.format_exc()[-1500:]


def job_concrete(con, tier, base_seed, budget):
    out = {"kind": "C", "contract": con.name, "runs": 0, "rejects": 0, "checked": 0, "failures": [], "errors": [],
           "cases": 0, "distinct": set(), "sample": None}
    t0 = time.time()
    cases = list(con.fcases("thorough" if tier == "thorough" else "quick"))
    if con.cdims:
        import itertools
        cd = {**con.dims, **con.cdims}
        ks = list(cd)
        cases = cases + [(dict(zip(ks, v)), cfg) for v in itertools.product(*[cd[k] for k in ks]) for cfg in con.cfgs]
    n = con.samples * (4 if tier == "thorough" else 1)
    out["cases"] = len(cases)
    failed = set()
    hc = zlib.crc32(con.name.encode())
    i = 0
    total = max(n, len(cases) * 3)
    while i < total and time.time() - t0 < budget:
        dims, cfg = cases[i % len(cases)]
        seed = [base_seed, hc, i]
        i += 1
        st, info = run_concrete(con, dims, cfg, seed)
        if st == "ok":
            out["runs"] += 1
            out["checked"] += info.checked
            out["distinct"].add(hashlib.md5(repr((casekey(dims, cfg), sorted(info.used.items()))).encode()).hexdigest()[:12])
            if out["sample"] is None:
                out["sample"] = {"contract": con.name, "case": casekey(dims, cfg),
                                 "inputs": {k: float(v) for k, v in list(info.used.items())[:12]}}
        elif st == "reject":
            out["rejects"] += 1
        elif st == "fail":
            out["runs"] += 1
            k = (info[0], casekey(dims, cfg))
            if k not in failed and len(failed) < 12:
                failed.add(k)
                out["failures"].append({"contract": con.name, "case": casekey(dims, cfg), "dims": dims, "cfg": cfg,
                                        "obligation": info[0], "detail": str(info[1])[:600], "seed": seed,
                                        "vals": {a: float(b) for a, b in info[2].used.items()}})
        else:
            if len(out["errors"]) < 3:
                out["errors"].append({"case": casekey(dims, cfg), "error": info})
    out["distinct"] = len(out["distinct"])
    out["s"] = time.time() - t0
    return out


# --------------------------------------------------------------------------- deductive modes
def _model_vals(S, model):
    from . import engine, term as tm
    from .term import T
    import numpy as np
    vals = {}
    for name, v in S.inputs.items():
        if isinstance(v, T):
            if v.is_const():
                vals[name] = v.cval()
                continue
            ids = list(tm.deps(v))
            if len(v.d) == 1:
                at = tm._BYID[next(iter(v.d))[0][0]]
                r = engine.model_value(model, at)
                if r is not None:
                    vals[name] = r
    return vals


def job_deductive(con, mode, dims, cfg, tier, base_seed):
    from . import spec, loader, engine, npx, term as tm, externals
    out = {"kind": mode, "contract": con.name, "case": casekey(dims, cfg) if mode == "F" else casekey({}, cfg) + "|all sizes",
           "dims": dims, "cfg": cfg, "obl": {}, "refuted": [], "undecided": [], "paths": 0, "note": None, "covered": False}
    t0 = time.time()
    M = loader.symbolic_mods()
    rt = loader._RT
    stats = engine.new_stats()
    limit = con.time_limit * (3 if tier == "thorough" else 1)
    ex = engine.Explorer(stats, max_paths=con.max_paths * (4 if tier == "thorough" else 1), time_limit=limit)

    def body(path):
        npx.HOOKS.clear()
        del npx.RECORD[:]
        externals.COUNTER[0] = 0
        externals.SOLVERS.options = {}
        S = con.symbolic(path, mode, dims, cfg)
        rt.loop_specs = S.loop_specs = []
        err = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                con.fn(S, M, **cfg)
        except spec.Reject:
            out["inapplicable"] = True             # the contract declares no case for these sizes / this configuration
        except (engine.PathEnd, engine.PathLimit, tm.Unsupported) as e:
            err = e
            if os.environ.get("VP_TB") and isinstance(e, tm.Unsupported):
                traceback.print_exc(limit=-9)
        except RecursionError as e:
            err = tm.Unsupported("recursion limit")
        except Exception as e:
            if not con.frame:                      # (a frame contract ends where its host contract can not go on)
                err = tm.Unsupported(f"{type(e).__name__}: {e} @ {traceback.extract_tb(e.__traceback__)[-1]}")
        S.unstub()
        out["paths"] += 1
        if S.obls and not out["covered"]:
            # reachability: the assumptions of a path that carries obligations are satisfiable
            r = path.solver.check()
            out["covered"] = str(r) if str(r) != "unsat" else False
        for ob in S.obls:
            e = out["obl"].setdefault(ob.name, {"discharged": 0, "refuted": 0, "undecided": 0, "backends": {}, "ms": 0.0})
            e[ob.status] += 1
            e["ms"] += ob.ms
            if ob.status == "discharged":
                e["backends"][ob.backend] = e["backends"].get(ob.backend, 0) + 1
            elif ob.status == "refuted":
                if len(out["refuted"]) < 8:
                    r = {"obligation": ob.name, "goal": ob.goal, "detail": ob.detail, "vals": {}, "dims": dims}
                    try:
                        r["vals"] = _model_vals(S, ob.model)
                        if S.P:                     # the sizes of the counter-model
                            r["sizes"] = {k: int(r["vals"].get(k, 2)) for k in S.dimnames}
                    except Exception as e2:
                        r["valerr"] = repr(e2)
                    out["refuted"].append(r)
            else:
                if len(out["undecided"]) < 8:
                    out["undecided"].append({"obligation": ob.name, "detail": str(ob.detail)[:300], "goal": ob.goal[:300]})
        if err is not None:
            raise err
    try:
        ex.run(body)
    except engine.PathLimit as e:
        out["note"] = f"incomplete: {e}"
    except tm.Unsupported as e:
        out["note"] = f"outside the engine's fragment: {e}"[:400]
    out["solver_s"] = stats["solver_s"]
    out["assumed_defined"] = sorted(stats["defined_assumed"])
    # replay
    if out["refuted"]:
        for r in out["refuted"]:
            r["replayed"] = None
        if mode == "F":
            replay(con, dims, cfg, out["refuted"], base_seed, t0 + limit + 25)
        elif mode == "P":
            replay_sizes(con, cfg, out["refuted"], base_seed, t0 + limit + 25)
    for r in out["refuted"]:
        r["vals"] = {k: str(v) for k, v in r["vals"].items()}
    out["s"] = time.time() - t0
    return out


def replay(con, dims, cfg, refuted, base_seed, tend):
    import numpy as np
    for r in refuted:
        tried = []
        v = {k: float(x) for k, x in r["vals"].items()}
        tried.append(v)
        for vv in tried:
            st, info = run_concrete(con, dims, cfg, [base_seed, 7], vv)
            if st == "fail":
                r["replayed"] = {"vals": vv, "obligation": info[0], "detail": str(info[1])[:600], "seed": [base_seed, 7]}
                break
        if r["replayed"] is None:
            # neighbours of the counter-model, then fresh samples
            rng = np.random.default_rng([base_seed, 11])
            for t in range(160):
                if time.time() > tend:
                    break
                seed = [base_seed, 11, t]
                vv = None
                if t < 60 and v:
                    vv = {k: (x if (k.startswith("pick:") or rng.random() < 0.6) else float(x + rng.normal() * (0.1 + abs(x)) * 0.5))
                          for k, x in v.items()}
                st, info = run_concrete(con, dims, cfg, seed, vv)
                if st == "fail":
                    r["replayed"] = {"vals": {a: float(b) for a, b in info[2].used.items()}, "obligation": info[0],
                                     "detail": str(info[1])[:600], "seed": seed}
                    break


def replay_sizes(con, cfg, refuted, base_seed, tend):
    """Refuted for symbolic sizes: the real code at the sizes of the counter-model, and at a ladder of other sizes."""
    hc = zlib.crc32(con.name.encode())
    for r in refuted:
        names = list(r.get("sizes", {}))
        if not names:
            continue
        ladder = [{k: min(max(v, 1), 200) for k, v in r["sizes"].items()}]
        ladder += [{k: v for k in names} for v in (3, 2, 5, 1, 8, 12, 17, 30, 60, 130)]
        ladder += [{k: (40 if q == 0 else 3) for q, k in enumerate(names)}, {k: (3 if q == 0 else 12) for q, k in enumerate(names)}]
        for t in range(6 * len(ladder)):
            if time.time() > tend:
                break
            dims = ladder[t % len(ladder)]
            st, info = run_concrete(con, dims, cfg, [base_seed, hc, 900 + t])
            if st == "fail":
                r["dims"] = dims
                r["replayed"] = {"vals": {a: float(b) for a, b in info[2].used.items()}, "obligation": info[0],
                                 "detail": str(info[1])[:600], "seed": [base_seed, hc, 900 + t]}
                break


# --------------------------------------------------------------------------- pool
def _child(conn, fn, args):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        sys.setrecursionlimit(6000)
        try:
            r = fn(*args)
        except BaseException:
            r = {"kind": "X", "error": traceback.format_exc()[-2000:]}
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def pool(jobs, deadline, verbose=False):
    """jobs: list of (label, hard_limit_s, fn, args).  Yields (label, result)."""
    ctx = mp.get_context("fork")
    pending = list(jobs)
    live = []
    res = []
    while pending or live:
        while pending and len(live) < JOBS:
            lab, lim, fn, args = pending.pop(0)
            if time.time() > deadline:
                res.append((lab, {"kind": "T", "error": "check deadline reached before this case ran"}))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args), daemon=True)
            p.start()
            b.close()
            live.append((lab, p, a, time.time() + lim))
        nxt = []
        mp.connection.wait([a for _, _, a, _ in live], timeout=0.2)
        for lab, p, a, tl in live:
            if a.poll():
                try:
                    r = a.recv()
                except (EOFError, OSError) as e:
                    r = {"kind": "X", "error": "worker died: " + repr(e)}
                p.join()
                res.append((lab, r))
                if verbose:
                    show(lab, r)
            elif not p.is_alive() and not a.poll():      # (the answer may arrive between the two looks)
                res.append((lab, {"kind": "X", "error": f"worker ended with code {p.exitcode}"}))
            elif time.time() > tl or time.time() > deadline + 30:
                p.kill()
                p.join()
                res.append((lab, {"kind": "T", "error": "hard time limit"}))
                if verbose:
                    show(lab, res[-1][1])
            else:
                nxt.append((lab, p, a, tl))
        live = nxt
    return res


def show(lab, r):
    if r["kind"] in ("F", "P"):
        d = sum(o["discharged"] for o in r["obl"].values())
        bad = {n: (o["refuted"], o["undecided"]) for n, o in r["obl"].items() if o["refuted"] or o["undecided"]}
        print(f"  {lab}: {d} discharged, paths {r['paths']}, {r['s']:.1f}s (solver {r['solver_s']:.1f}s)"
              + (f" COVER={r['covered']}" if not r["covered"] and not r.get("inapplicable") else "")
              + (f" BAD {bad}" if bad else "") + (f" NOTE {r['note']}" if r["note"] else ""), flush=True)
        for x in r["refuted"][:3]:
            rp = x.get("replayed")
            print(f"      refuted {x['obligation']}: {str(x['detail'])[:300]}\n        goal {x['goal'][:200]}\n        model {dict(list(x['vals'].items())[:14])}\n        replay: {rp and rp['detail']}", flush=True)
        for x in r["undecided"][:3]:
            print(f"      undecided {x}", flush=True)
    elif r["kind"] == "C":
        print(f"  {lab}: {r['runs']} runs, {r['rejects']} rejects, {r['checked']} checks, {len(r['failures'])} failures, {r['s']:.1f}s", flush=True)
        for f in r["failures"][:6]:
            print(f"      FAIL {f['case']} {f['obligation']}: {f['detail'][:300]}", flush=True)
        for e in r["errors"][:2]:
            print(f"      ERROR {e['case']}: {e['error'][-700:]}", flush=True)
    else:
        print(f"  {lab}: {r}", flush=True)
