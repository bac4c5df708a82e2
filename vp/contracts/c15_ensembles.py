"""C15 ensembles: averaged and stacked exposures are label-aligned convex combinations of the portfolios supplied."""
import numpy as np
from ..spec import contract, Reject
from .c18_distribution import quiet_eig
from ._opt import qp_obj, same_feasible_set, same_objective, reference, Sys, dot
from .c04_mean_variance import same_programme

NAMES = ["B", "A", "C", "D", "E"]
EN, WU = "ensembles.", "utils.weights."


def small(r):
    return float(r.choice([r.random(), r.normal(), 0., 1.], p=[.6, .2, .1, .1]))


def wgen(r):
    return float(r.choice([r.random(), 3 * r.random(), 0., 1., -.2], p=[.5, .2, .12, .12, .06]))


def lin(w, r):
    return sum((a * b for a, b in zip(w, r)), 0 * w[0] * r[0])


def val(x):
    return x.to_numpy() if hasattr(x, "to_numpy") else x


def panel(S, X, form):
    """the same columns as a plain array, list, frame or series"""
    n, m = X.shape
    if form == "frame":
        return S.pd.DataFrame(X.copy(), index=NAMES[:n], columns=[f"p{j}" for j in range(m)]), NAMES[:n]
    if form == "list":
        return [list(r) for r in X], None
    if form in ("series", "vector"):
        if m != 1:
            raise Reject
        return (S.pd.Series(X[:, 0].copy(), index=NAMES[:n], name="p0"), NAMES[:n]) if form == "series" else (X[:, 0].copy(), None)
    return X.copy(), None


def labelled(S, out, names, what="asset labels kept in order"):
    if names is not None:
        S.true(what, hasattr(out, "index") and list(out.index) == names)


def weight_arg(S, q, kind, cols):
    m = len(q)
    if kind == "list":
        return list(q)
    if kind == "array":
        return S.arr(list(q))
    if kind == "column":
        return S.arr(list(q)).reshape(-1, 1)
    o = list(range(m))[::-1] if m < 3 else [1, 2, 0] + list(range(3, m))
    if kind == "series":
        return S.pd.Series(S.arr([q[i] for i in o]), index=[cols[i] for i in o])
    return None


@contract("C15", funcs=[EN + "average_exposures", WU + "normalize_weights", WU + "ensure_samples_matrix", WU + "wrap_exposure_vector"],
          dims={"n": [1, 2, 3], "m": [1, 2, 3]}, cdims={"n": [5], "m": [1, 4]}, samples=80,
          cfgs=[{"form": f, "wk": k} for f in ("array", "list", "frame", "series", "vector") for k in ("none", "list", "array", "column", "series")])
def averaging(S, M, form, wk):
    n, m = S.dim("n"), S.dim("m")
    X = S.mat("X", n, m, gen=small)
    arg, names = panel(S, X, form)
    q = [S.lit(1)] * m if wk == "none" else list(S.vec("q", m, gen=wgen))
    if wk == "series" and form not in ("frame", "series"):
        o = S.call(M.ensembles.average_exposures, arg, S.pd.Series(S.arr(q), index=[f"k{j}" for j in range(m)]))     # nothing to align on
    else:
        o = S.call(M.ensembles.average_exposures, arg, weight_arg(S, q, wk, [f"p{j}" for j in range(m)]))
    tot = S.total(S.arr(q))
    if S.cond(S.any([v < 0 for v in q] + [tot <= 0])):
        S.raises(o, ValueError, "negative weights and weights without a positive sum are refused")
        return
    out = S.ok(o)
    labelled(S, out, names)
    x = val(out)
    S.eq_shape("one exposure per asset", x, (n,))
    for i in range(n):
        S.eq("the weighted average of that asset's exposures", x[i], lin(q, X[i]) / tot, tol=1e-9)
        S.true("between the smallest and largest exposure", S.all([S.implies(S.all([c <= X[i, j] for j in range(m)]), c <= x[i] + (0 if S.symbolic else 1e-9)) for c in X[i]]
                                                                   + [S.implies(S.all([c >= X[i, j] for j in range(m)]), c >= x[i] - (0 if S.symbolic else 1e-9)) for c in X[i]])) if n * m <= 4 else None
    S.eq("total exposure is the same average of the portfolios' totals", S.total(x), lin(q, [S.total(X[:, j]) for j in range(m)]) / tot, tol=1e-9)
    S.eq("panel left alone", S.arr([list(r) for r in arg]) if form == "list" else val(arg).reshape(n, m), X)


@contract("C15", funcs=[EN + "average_exposures", EN + "exposure_stacking", EN + "average_frontiers", EN + "exposure_stack_frontiers", WU + "normalize_weights"],
          cfgs=[{"case": c, "f": f} for f in ("array", "frame", "frontiers") for c in ("negative", "negative2", "zero", "nan", "inf", "short", "long", "missing", "nanlabel", "L1", "L0", "Lbig", "flat0", "cube")], samples=1)
def refused(S, M, case, f):
    E = M.ensembles
    X = S.mat("X", 2, 2, gen=small)
    fr = [frontier(S, M, X[:, [j]], NAMES[:2]) for j in range(2)] if f == "frontiers" else None
    arg = X if f == "array" else S.pd.DataFrame(X, index=NAMES[:2], columns=["p", "q"])
    avg = lambda w: S.call(E.average_frontiers, fr, ensemble_weights=w) if fr else S.call(E.average_exposures, arg, w)
    W = {"negative": [-1., 2.], "negative2": [3., -.5], "zero": [0., 0.], "nan": [float("nan"), 1.], "inf": [float("inf"), 1.], "short": [1.], "long": [1., 1., 1.]}
    if case in W:
        S.raises(avg(W[case]), ValueError, "combination weights refused")
    elif case in ("missing", "nanlabel"):
        if f != "frame":
            raise Reject
        S.raises(avg(S.pd.Series([1., 1.], index=["p", "z"]) if case == "missing" else S.pd.Series([1., float("nan")], index=["p", "q"])), ValueError, "every portfolio needs a weight")
    elif case[0] == "L":
        L = {"L1": 1, "L0": 0, "Lbig": 3}[case]
        S.raises(S.call(E.exposure_stack_frontiers, fr, L) if fr else S.call(E.exposure_stacking, arg, L), ValueError, "fold count refused")
    else:
        if f != "array":
            raise Reject
        bad = np.zeros((2, 0)) if case == "flat0" else np.zeros((2, 2, 2))
        S.raises(S.call(E.average_exposures, bad), ValueError, "panel refused")


# ------------------------------------------------------------------------------------------------ stacking
def folds(m, L):
    k = m // L
    return [list(range(i * k, (i + 1) * k)) for i in range(L - 1)] + [list(range((L - 1) * k, m))]


def stated(X, m, L):
    """sum over folds of || rest of the portfolios, weighted, minus the fold's mean portfolio ||^2"""
    n = X.shape[0]

    def f(w):
        t = 0 * w[0]
        for s in folds(m, L):
            for i in range(n):
                d = sum((X[i, j] * w[j] for j in range(m) if j not in s), 0 * w[0] * X[i, 0]) - sum((X[i, j] for j in s), 0 * X[i, 0]) / len(s)
                t = t + d * d
        return t
    return f


def simplex(S, m):
    one, zero = S.lit(1), S.lit(0)
    I = S.arr([[-one if i == j else zero for j in range(m)] for i in range(m)])
    return Sys(I, S.arr([zero] * m), S.arr([[one] * m]), S.arr([one]))


def is_stack(S, out, X, L, name="stacked"):
    """`out` (values) solves the stacking programme over the columns of X"""
    n, m = X.shape
    rec = S.record()
    S.true(name + ": one programme is solved", len(rec) == 1)
    p = rec[0]
    us = simplex(S, m)
    obj = stated(X, m, L)
    w = p["x"].reshape(-1)
    S.eq_shape(name + ": one weight per portfolio", w, (m,))
    if S.symbolic:
        S.true(name + ": a quadratic programme", p["kind"] == "qp")
        same_feasible_set(S, name, p, us, S.vec("pt_w", m))
        same_objective(S, name + ": the sum of fold-wise squared deviations is minimised", lambda v: qp_obj(p, v), obj, m)
        S.assume(us.holds(S, w))               # the solver's certified solution is feasible
    else:
        ref = reference(S, "qp", p["P"], p["q"], np.asarray(us.G, float), np.asarray(us.h, float), np.asarray(us.A, float), np.asarray(us.b, float)) if p["kind"] == "qp" else None
        S.true(name + ": weights form a convex combination", us.holds(S, w, 1e-5))
        # independent optimum of the stated objective
        B = np.zeros((0, m))
        d = np.zeros(0)
        for s in folds(m, L):
            r = X.astype(float).copy()
            r[:, s] = 0
            B, d = np.vstack([B, r]), np.append(d, X[:, s].astype(float).mean(axis=1))
        best = reference(S, "qp", 2 * B.T @ B, -2 * B.T @ d, -np.eye(m), np.zeros(m), np.ones((1, m)), np.ones(1))
        if best is None:
            raise Reject
        best = np.clip(best, 0, None) / np.clip(best, 0, None).sum()
        S.true(name + ": no convex combination has a lower fold-wise objective", obj(w) <= obj(best) + 1e-5 * (1 + abs(obj(best))), f"{obj(w)} {obj(best)}")
    for i in range(n):
        S.eq(name + ": that combination of the asset's exposures", out[i], lin(w, X[i]), tol=1e-9)


@contract("C15", funcs=[EN + "exposure_stacking", EN + "_temporary_solver_options", WU + "ensure_samples_matrix", WU + "wrap_exposure_vector"],
          dims={"n": [1, 2], "m": [2, 3, 4, 5]}, cdims={"n": [4], "m": [2, 3, 5, 7]}, samples=60, quick_dims={"n": [2], "m": [2, 3, 5]},
          cfgs=[{"L": L, "form": f} for L in (2, 3, 4, 5) for f in ("array", "frame")])
def stacking(S, M, L, form):
    n, m = S.dim("n"), S.dim("m")
    if L > m:
        raise Reject
    X = S.mat("X", n, m, gen=small)
    arg, names = panel(S, X, form)
    out = S.ok(S.call(M.ensembles.exposure_stacking, arg, L))
    labelled(S, out, names)
    x = val(out)
    S.eq_shape("one exposure per asset", x, (n,))
    is_stack(S, x, X, L)
    w = S.record()[0]["x"].reshape(-1)
    if S.symbolic:
        B = S.real("B")
        S.assume(S.all([S.total(X[:, j]) == B for j in range(m)]))
        S.eq("portfolios that share a budget combine to that budget", S.total(x), B)
        c = S.real("c")
        S.assume(S.all([X[0, j] <= c for j in range(m)]))
        S.true("an exposure no portfolio exceeds is not exceeded by the combination", x[0] <= c)
    S.eq("panel left alone", val(arg), X)


@contract("C15", funcs=[EN + "exposure_stacking", EN + "average_exposures", EN + "average_frontiers", EN + "exposure_stack_frontiers", EN + "stack_portfolios"],
          dims={"n": [1, 2, 3], "m": [1, 2, 3]}, cdims={"n": [4], "m": [1, 2, 5]}, samples=30,
          cfgs=[{"f": f, "form": g} for f in ("average", "weighted", "stack", "frontier_average", "frontier_stack", "mixed") for g in ("array", "frame")])
def identical(S, M, f, form):
    n, m = S.dim("n"), S.dim("m")
    E = M.ensembles
    x = S.vec("x", n, gen=small)
    X = S.arr([[x[i]] * m for i in range(n)])
    arg, names = panel(S, X, form)
    lab = NAMES[:n] if form == "frame" else None
    if m == 1 and f in ("stack", "frontier_stack", "mixed"):
        raise Reject                    # stacking needs two portfolios
    fr = lambda j: frontier(S, M, X[:, [j]], lab)
    if f == "average":
        out = S.call(E.average_exposures, arg)
    elif f == "weighted":
        q = S.vec("q", m, lo=0, gen=lambda r: abs(wgen(r)))
        S.assume(S.total(q) > 0)
        out = S.call(E.average_exposures, arg, list(q))
    elif f == "stack":
        out = S.call(E.exposure_stacking, arg, 2)
    elif f == "frontier_average":
        out = S.call(E.average_frontiers, [fr(j) for j in range(m)])
    elif f == "frontier_stack":
        out = S.call(E.exposure_stack_frontiers, [fr(j) for j in range(m)], 2)
    else:
        e = [fr(0) if j == 0 else S.pd.Series(X[:, j], index=lab) if lab and j == 1 else X[:, j].copy() for j in range(m)]
        out = S.call(E.stack_portfolios, e, L=2)
    out = S.ok(out)
    if S.symbolic and S.record():
        S.assume(S.total(S.record()[0]["x"]) == 1)
    S.eq("identical portfolios come back unchanged", val(out), x, tol=1e-6)
    labelled(S, out, lab)


@contract("C15", funcs=[EN + "exposure_stacking", EN + "_temporary_solver_options"], cfgs=[{"st": s, "opt": o} for s in ("optimal", "unknown", "primal infeasible", "boom") for o in (0, 1)], samples=2)
def solver_status(S, M, st, opt):
    X = S.mat("X", 2, 2, gen=small)
    sv = M.ensembles.solvers
    before = dict(sv.options)
    seen = []

    def status(kind, i):
        seen.append(dict(sv.options))
        if st == "boom":
            raise ArithmeticError("boom")
        return st
    S.hook("solver_status", status)
    o = {"maxiters": 77, "feastol": 1e-8} if opt else None
    keep = dict(o or {})
    out = S.call(M.ensembles.exposure_stacking, X, 2, solver_options=o)
    if st == "optimal":
        S.ok(out)
    else:
        S.raises(out, RuntimeError if st != "boom" else Exception, "an uncertified solution is not returned")
    S.true("caller's options reach the solver", all(seen[0].get(k) == v for k, v in keep.items()))
    S.true("solver options restored afterwards", dict(sv.options) == before)
    S.true("caller's options left alone", (o or {}) == keep)


# ------------------------------------------------------------------------------------------------ frontiers
def frontier(S, M, W, names, risks=None, alt=None, rets=None):
    m = W.shape[1]
    one = S.lit(1)
    return S.ok(S.call(M.portfolioapi.PortfolioFrontier, weights=W.copy(), returns=S.arr([one * 0] * m) if rets is None else rets.copy(),
                       risks=S.arr([one * j for j in range(m)]) if risks is None else risks.copy(), risk_measure="Vol", asset_names=names, alternate_risks=dict(alt or {})))


def riskgen(r):
    return float(abs(r.normal()))


def distinct(S, K):
    m = len(K)
    S.assume(S.all([S.any([K[i] < K[j], K[j] < K[i]]) for i in range(m) for j in range(i)]))


def lowest(S, K):
    for j in range(len(K)):
        if S.cond(S.all([K[j] <= k for k in K])):
            return j
    raise Reject


def family(S, M, n, sizes, lab, perm=None):
    """frontiers of the given column counts with free weights and distinct free risks"""
    fs, Ws, Ks = [], [], []
    for f, m in enumerate(sizes):
        W, K = S.mat(f"W{f}", n, m, gen=small), S.vec(f"K{f}", m, gen=riskgen)
        distinct(S, K)
        names = None if lab == "0" else NAMES[:n]
        if perm and f == 1:
            names = names[1:] + names[:1]
        fs.append(frontier(S, M, W, names, K))
        Ws.append(W)
        Ks.append(K)
    return fs, Ws, Ks


SIZES = [(1, 2), (3, 1), (2, 2, 1)]


@contract("C15", funcs=[EN + "average_frontiers", EN + "_collect_samples", EN + "_stack_frontiers", EN + "_merge_asset_names", EN + "_series_from_vector"], dims={"n": [1, 2]}, cdims={"n": [3]}, samples=30,
          cfgs=[{"k": k, "sel": s, "wk": w, "lab": l} for k in range(3) for s in ("none", "last", "mixed") for w in ("none", "list", "array") for l in ("0", "1")])
def frontier_average(S, M, k, sel, wk, lab):
    n, sizes = S.dim("n"), SIZES[k]
    fs, Ws, Ks = family(S, M, n, sizes, lab)
    selections, cols = choose(S, sel, sizes, Ks)
    q = [S.lit(1)] * len(sizes) if wk == "none" else list(S.vec("q", len(sizes), lo=0, gen=lambda r: abs(wgen(r))))
    tot = S.total(S.arr(q))
    S.assume(tot > 0)
    out = S.ok(S.call(M.ensembles.average_frontiers, fs, selections, ensemble_weights=weight_arg(S, q, wk, None)))
    labelled(S, out, NAMES[:n] if lab == "1" else None)
    for i in range(n):
        S.eq("weighted average of one portfolio per frontier", val(out)[i], lin(q, [W[i, c] for W, c in zip(Ws, cols)]) / tot, tol=1e-9)
    for f, W, K in zip(fs, Ws, Ks):
        S.eq("frontier left alone", f.weights, W)
        S.eq("frontier risks left alone", f.risks, K)


def choose(S, sel, sizes, Ks):
    if sel == "none":
        return None, [lowest(S, K) for K in Ks]
    if sel == "last":
        return [[m - 1] for m in sizes], [m - 1 for m in sizes]
    return [None] + [(m - 1,) for m in sizes[1:]], [lowest(S, Ks[0])] + [m - 1 for m in sizes[1:]]


@contract("C15", funcs=[EN + "exposure_stack_frontiers", EN + "stack_portfolios", EN + "_collect_samples", EN + "_merge_asset_names"], dims={"n": [1, 2]}, cdims={"n": [3]}, samples=20,
          cfgs=[{"k": k, "sel": s, "f": f, "lab": l} for k in range(3) for s in ("none", "last", "mixed") for f in ("frontiers", "portfolios", "mixture") for l in ("0", "1")])
def frontier_stack(S, M, k, sel, f, lab):
    n, sizes = S.dim("n"), SIZES[k]
    fs, Ws, Ks = family(S, M, n, sizes, lab)
    selections, cols = choose(S, sel, sizes, Ks)
    X = S.np.column_stack([W[:, c] for W, c in zip(Ws, cols)])
    E, L = M.ensembles, 2 if k != 2 else 3
    if f == "mixture":                  # plain vectors and series next to a frontier
        v = [X[:, j].copy() if j % 2 else S.pd.Series(X[:, j].copy(), index=NAMES[:n]) for j in range(1, len(sizes))]
        out = S.call(E.stack_portfolios, [fs[0]] + v, selections=None if selections is None else selections[:1] + [None] * len(v), L=L)
        lab = "1" if lab == "1" or k == 2 else lab
    elif f == "portfolios":
        out = S.call(E.stack_portfolios, fs, selections=selections, L=L)
    else:
        out = S.call(E.exposure_stack_frontiers, fs, L, selections)
    out = S.ok(out)
    labelled(S, out, NAMES[:n] if lab == "1" else None)
    is_stack(S, val(out), X, L)


@contract("C15", funcs=[EN + "average_frontiers", EN + "exposure_stack_frontiers", EN + "stack_portfolios", EN + "_merge_asset_names", EN + "_collect_samples"],
          cfgs=[{"case": c, "f": f} for f in ("average", "stack", "portfolios") for c in ("order", "other", "fewer", "order_series", "order_late", "plain_size", "two", "none_col", "sel_len", "empty", "out_of_range")], samples=3)
def misaligned(S, M, case, f):
    """differently ordered labels are aligned or refused, never added position by position"""
    E = M.ensembles
    X = S.mat("X", 3, 3, gen=lambda r: r.normal())
    lab = NAMES[:3]
    A = frontier(S, M, X[:, [0]], lab)
    o = [1, 2, 0]
    sels = None
    if case == "order":
        es = [A, frontier(S, M, X[o][:, [1]], [lab[i] for i in o])]
    elif case == "order_late":
        es = [frontier(S, M, X[:, [2]], None), A, frontier(S, M, X[o][:, [1]], [lab[i] for i in o])]
    elif case == "order_series":
        if f != "portfolios":
            raise Reject
        es = [A, S.pd.Series(X[o, 1], index=[lab[i] for i in o])]
    elif case == "other":
        es = [A, frontier(S, M, X[:, [1]], lab[:2] + ["Z"])]
    elif case == "fewer":
        es = [A, frontier(S, M, X[:2, [1]], lab[:2])]
    elif case == "plain_size":
        es = [A, frontier(S, M, X[:2, [1]], None)]
    elif case == "empty":
        es = []
    else:
        es = [A, frontier(S, M, X[:, 1:], lab)]
        sels = {"two": [None, [0, 1]], "none_col": [None, []], "sel_len": [[0]], "out_of_range": [[0], [2]]}[case]
    out = S.call(E.average_frontiers, es, sels) if f == "average" else S.call(E.exposure_stack_frontiers, es, 2, sels) if f == "stack" else S.call(E.stack_portfolios, es, selections=sels, L=2)
    if case[:5] != "order" or out.exc is not None:
        S.raises(out, (ValueError, IndexError), "refused: " + case)
        return
    Y = X[:, :2] if case != "order_late" else X[:, [2, 0, 1]]
    for i, l in enumerate(lab):
        if f == "average":
            S.eq("aligned on asset names", out.value[l], S.total(Y[i]) / Y.shape[1], tol=1e-9)
        else:
            S.eq("aligned on asset names", out.value[l], dot(list(S.record()[0]["x"].reshape(-1)), list(Y[i])), tol=1e-9)


@contract("C15", funcs=[EN + "risk_percentile_selections"], dims={"n": [1]}, cdims={"n": [2]}, samples=30, cfgs=[{"lab": l, "pct": p} for l in (None, "Vol", "CVaR") for p in (0, .25, .5, 75, 100)])
def percentile_selections(S, M, lab, pct):
    n = S.dim("n")
    fs = []
    for f, m in enumerate((1, 2, 3)):
        W, K, K2 = S.mat(f"W{f}", n, m, gen=small), S.vec(f"K{f}", m, gen=riskgen), S.vec(f"J{f}", m, gen=riskgen)
        fs.append(frontier(S, M, W, None, K, {"CVaR": K2}))
    want = [[S.ok(S.call(f.index_at_risk_percentile, pct, risk_label=lab))] for f in fs]
    got = S.ok(S.call(M.ensembles.risk_percentile_selections, fs, pct, risk_label=lab))
    S.true("one selection per frontier: its own column at that percentile", [list(g) for g in got] == want)


# ------------------------------------------------------------------------------------------------ orchestration
def spec_list(S, M, n, how, names=("s0", "s1", "s2"), calls=None):
    """three specs; the selectors return their portfolio as labelled series (some in another order), tuple or plain vector"""
    E = M.ensembles
    lab = NAMES[:n]
    X = S.mat("X", n, 3, gen=small)
    W, K = S.mat("W", n, 6, gen=small), S.vec("K", 6, gen=riskgen)
    o = list(range(n))[::-1]
    specs, fr = [], []
    for j in range(3):
        distinct(S, K[2 * j:2 * j + 2])

        def pick(f, j=j):
            if calls is not None:
                calls.append(j)
            if how == "series" or (how == "mixed" and j == 0):
                return S.pd.Series(X[o if j == 1 else slice(None), j], index=[lab[i] for i in o] if j == 1 else lab)
            if how == "tuple":
                return S.pd.Series(X[:, j], index=lab), 0.1, 0.2
            return X[:, j].copy()
        f = frontier(S, M, W[:, 2 * j:2 * j + 2], lab, K[2 * j:2 * j + 2])
        fr.append(f)
        specs.append(E.EnsembleSpec(name=names[j], frontier_factory=lambda f=f: f, selector=pick, frontier_selection=None if j != 2 else [1]))
    return specs, X, W, K, lab, fr


@contract("C15", funcs=[EN + "assemble_portfolio_ensemble", EN + "_coerce_weights_series", EN + "_normalise_ensemble_argument", EN + "_determine_stack_folds", EN + "_frontier_selection_size"],
          dims={"n": [1, 2]}, cdims={"n": [4]}, samples=15, quick_dims={"n": [2]},
          cfgs=[{"how": h, "combine": c, "wk": w, "ens": e, "dup": d} for h in ("series", "mixed", "tuple") for c in ("selected", "Frontier") for w, e, d in
                (("none", "average", 0), ("none", " Stack ", 0), ("list", ("Average", "stack"), 0), ("series", "average", 0), ("array", ["stack", "average"], 0), ("none", ("average", "stack"), 1), ("list", "average", 1), ("none", None, 0), ("none", "none", 0))])
def assemble(S, M, how, combine, wk, ens, dup):
    n = S.dim("n")
    names = ("s0", "s1", "s0") if dup else ("s0", "s1", "s2")
    specs, X, W, K, lab, fr = spec_list(S, M, n, how, names)
    q = [S.lit(1)] * 3 if wk == "none" else list(S.vec("q", 3, lo=0, gen=lambda r: abs(wgen(r))))
    tot = S.total(S.arr(q))
    S.assume(tot > 0)
    E = M.ensembles
    wa = weight_arg(S, q, wk, names)
    res = S.ok(S.call(E.assemble_portfolio_ensemble, specs, ensemble=ens, combine=combine, ensemble_weights=wa, stack_folds=None if not dup else 2))
    Y = X if combine == "selected" else S.np.column_stack([W[:, 2 * j + (lowest(S, K[2 * j:2 * j + 2]) if j < 2 else 1)] for j in range(3)])
    sel = res.selections
    S.true("one column per specification", list(sel.columns) == list(names))
    for i, l in enumerate(lab):
        S.eq("selections hold each specification's own portfolio", list(sel.loc[l]), list(X[i]), tol=0)
    want = [] if ens in (None, "none") else [e.strip().lower() for e in ([ens] if isinstance(ens, str) else ens)]
    S.true("exactly the requested ensembles", sorted(res.ensembles) == sorted(want))
    if "average" in want:
        for i, l in enumerate(lab):
            S.eq("averaged on asset names", res.average[l], lin(q, Y[i]) / tot, tol=1e-9)
        S.true("average carries every asset", sorted(res.average.index) == sorted(lab))
    if "stack" in want:
        S.true("stack carries every asset", sorted(res.stacked.index) == sorted(lab))
        is_stack(S, S.arr([res.stacked[l] for l in lab]), Y, 3 if not dup else 2)
    for nm, f in zip(names, fr):
        if not dup:
            S.true("each specification's own frontier is reported", res.frontiers[nm] is f)
    # a second evaluation of the same specifications
    S.record()[:] = []
    again = S.ok(S.call(E.assemble_portfolio_ensemble, specs, ensemble=ens, combine=combine, ensemble_weights=wa, stack_folds=None if not dup else 2))
    S.eq("second evaluation: same selections", again.selections.to_numpy(), sel.to_numpy(), tol=0)
    if "average" in want:
        S.eq("second evaluation: same average", again.average.to_numpy(), res.average.to_numpy(), tol=0)
    if "stack" in want and not S.symbolic:
        S.eq("second evaluation: same stack", again.stacked.to_numpy(), res.stacked.to_numpy(), tol=0)
    elif "stack" in want:
        is_stack(S, S.arr([again.stacked[l] for l in lab]), Y, 3 if not dup else 2, "second evaluation")


@contract("C15", funcs=[EN + "assemble_portfolio_ensemble", EN + "_determine_stack_folds"],
          cfgs=[{"case": c} for c in ("empty", "combine", "ensemble", "universe", "universe_stack", "negative", "negative_frontier", "missing_weight", "missing_weight_frontier", "twocols", "stackstatus")], samples=3)
def assemble_refused(S, M, case):
    E = M.ensembles
    specs, X, W, K, lab, fr = spec_list(S, M, 2, "series")
    kw = {"ensemble": "average"}
    if case == "empty":
        specs = []
    elif case == "combine":
        kw["combine"] = "both"
    elif case == "ensemble":
        kw["ensemble"] = "median"
    elif case.startswith("universe"):
        specs = specs[:2] + [E.EnsembleSpec(name="s2", frontier_factory=lambda: fr[0], selector=lambda f: S.pd.Series(X[:, 2], index=[lab[0], "Z"]))]
        kw["ensemble"] = "stack" if case == "universe_stack" else "average"
    elif case.startswith("negative"):
        kw["ensemble_weights"] = [2., -.5, 1.]
        kw["combine"] = "frontier" if case != "negative" else "selected"
    elif case.startswith("missing"):
        kw["ensemble_weights"] = S.pd.Series([1., 1., 1.], index=["s0", "s1", "s9"])
        kw["combine"] = "frontier" if case != "missing_weight" else "selected"
    elif case == "twocols":
        specs = specs[:2] + [E.EnsembleSpec(name="s2", frontier_factory=lambda: fr[0], selector=lambda f: X[:, 2], frontier_selection=[0, 1])]
        kw["combine"] = "frontier"
    else:
        kw["ensemble"] = "stack"
        S.hook("solver_status", lambda kind, i: "unknown")
    S.raises(S.call(E.assemble_portfolio_ensemble, specs, **kw), (ValueError, RuntimeError), "refused: " + case)


@contract("C15", funcs=[EN + "assemble_portfolio_ensemble", EN + "_determine_stack_folds"], cfgs=[{"k": k, "f": f} for k in (2, 3) for f in (None, 2, 3, 9)], samples=3)
def fold_count(S, M, k, f):
    specs, X, W, K, lab, fr = spec_list(S, M, 2, "series")
    out = S.ok(S.call(M.ensembles.assemble_portfolio_ensemble, specs[:k], ensemble="stack", stack_folds=f))
    is_stack(S, S.arr([out.stacked[l] for l in lab]), X[:, :k], min(3 if f is None else f, k))


SELECT = {"tangency": ("tangency", {"risk_free_rate": .01}, lambda f: f.tangency(risk_free_rate=.01)), "sharpe0": ("sharpe", {}, lambda f: f.tangency(risk_free_rate=0.)),
          "min": ("min_risk", {}, lambda f: f.min_risk()), "min_label": ("minimum_risk", {"risk_label": "CVaR"}, lambda f: f.min_risk(risk_label="CVaR")),
          "max": ("max_return", {}, lambda f: f.max_return()), "target": ("risk_target", {"max_risk": .5}, lambda f: f.at_risk(max_risk=.5)),
          "target_label": ("risk_target", {"max_risk": .5, "risk_label": "CVaR"}, lambda f: f.at_risk(max_risk=.5, risk_label="CVaR")),
          "match": ("risk_match", {"target_risk": .4}, lambda f: f.closest_risk(.4)), "match_label": ("risk_nearest", {"target_risk": .4, "risk_label": "CVaR"}, lambda f: f.closest_risk(.4, risk_label="CVaR")),
          "pct": ("risk_percentile", {"percentile": .5}, lambda f: f.at_percentile(.5)), "pct_label": ("percentile", {"percentile": 25, "risk_label": "CVaR"}, lambda f: f.at_percentile(25, risk_label="CVaR")),
          "column": ("column", {"index": 1}, None), "custom": ("custom", {"j": 2}, None)}


@contract("C15", funcs=[EN + "make_portfolio_spec", EN + "_build_selector"], dims={"n": [1, 2]}, quick_dims={"n": [1]}, cdims={"n": [3]}, samples=25, cfgs=[{"sel": s, "lab": l} for s in SELECT for l in (0, 1)], max_paths=3000)
def selectors(S, M, sel, lab):
    """each named selector is the frontier query it names (C07), however often the specification is used"""
    n = S.dim("n")
    key, kw, q = SELECT[sel]
    W, K, J, R = S.mat("W", n, 3, gen=small), S.vec("K", 3, gen=riskgen, lo_strict=0), S.vec("J", 3, gen=riskgen), S.vec("R", 3, gen=small)
    names = NAMES[:n] if lab else None
    mk = lambda: frontier(S, M, W, names, K, {"CVaR": J}, R)
    given = dict(kw)
    used = (lambda fr, j: (fr.weights[:, j],)) if sel == "custom" else key
    spec = S.ok(S.call(M.ensembles.make_portfolio_spec, "mine", returns=None, selector=used, selector_kwargs=given, frontier_selection=[1]))
    S.true("selector options left alone", given == kw)
    S.true("column selection kept", list(spec.frontier_selection) == [1])
    f = mk()
    if sel == "column":
        want = W[:, 1]
    elif sel == "custom":
        want = W[:, 2]
    else:
        ref = S.call(q, f)
        got = S.call(spec.selector, f)
        if ref.exc is not None:
            S.raises(got, type(ref.exc), "a query with no answer raises")
            S.raises(S.call(spec.selector, f), type(ref.exc), "and raises again")
            return
        want = val(ref.value[0])
    for k in range(3):
        got = S.ok(S.call(spec.selector, f if k < 2 else mk()))
        S.eq(f"use {k + 1}: the portfolio the query names", val(got[0]) if isinstance(got, tuple) else val(got), want, tol=0)
        if lab and sel != "custom":
            S.true("labelled", list(got.index) == names)


@contract("C15", funcs=[EN + "make_portfolio_spec", EN + "_build_selector", EN + "_resolve_optimiser"], cfgs=[{"case": c} for c in ("selector", "risk_target", "risk_match", "percentile", "column", "optimiser", "nothing")], samples=1)
def spec_refused(S, M, case):
    E = M.ensembles
    kw = {"selector": {"selector": "best"}, "optimiser": {"optimiser": "magic", "distribution": 1}, "nothing": {}}.get(case, {"selector": case})
    o = S.call(E.make_portfolio_spec, "x", **kw)
    if case in ("optimiser", "nothing") and o.exc is None:
        if case == "optimiser":
            o = S.call(E._resolve_optimiser, "magic")
        else:
            o = S.call(o.value.frontier_factory)
    S.raises(o, ValueError, "refused: " + case)


# ------------------------------------------------------------------------------------------------ specification → distribution → frontier
PROJ = {"k": {"annualization_factor": 12}, "log": {"log_to_simple": True}, "simple": {"to_simple": True}, "off": {"log_to_simple": False, "annualization_factor": 3},
        "both": {"to_simple": 1, "annualization_factor": 2}, "none": {}, "map": {"transform": 1}, "all": {"transform": 1, "log_to_simple": True, "annualization_factor": 2}}


@contract("C15", funcs=[EN + "_apply_projection"], dims={"n": [1, 2]}, cdims={"n": [3]}, samples=20, cfgs=[{"p": p} for p in PROJ])
def projection_options(S, M, p):
    """horizon scaling, then the log-to-simple map, then the user's transform (the first two are C13's functions)"""
    n = S.dim("n")
    mu, cov = S.vec("mu", n, gen=lambda r: .1 * r.normal()), S.spd("c", n)
    k = S.real("k", gen=lambda r: float(r.choice([12., 1., 252., .5])), lo=0)
    lab = NAMES[:n]
    a, b = S.pd.Series(mu.copy(), index=lab), S.pd.DataFrame(cov.copy(), index=lab, columns=lab)
    opt = dict(PROJ[p])
    if "annualization_factor" in opt:
        opt["annualization_factor"] = k
    if "transform" in opt:
        opt["transform"] = lambda u, v: (u * 3, v * 9)
    given = dict(opt)
    got = [S.ok(S.call(M.ensembles._apply_projection, a, b, given)) for _ in (0, 1)]
    S.true("options left alone", given == opt)
    P = M.utils__projection
    x, y = S.pd.Series(mu.copy(), index=lab), S.pd.DataFrame(cov.copy(), index=lab, columns=lab)
    if "annualization_factor" in opt:
        x, y = P.project_mean_covariance(x, y, annualization_factor=k)
    if opt.get("log_to_simple") or opt.get("to_simple"):
        x, y = P.log2simple(x, y)
    if "transform" in opt:
        x, y = x * 3, y * 9
    for g in got:
        S.eq("mean", val(g[0]), val(x), tol=1e-12)
        S.eq("covariance", val(g[1]), val(y), tol=1e-12)
        S.true("labels", list(g[0].index) == lab and list(g[1].index) == lab)
    S.eq("input mean left alone", val(a), mu)
    S.eq("input covariance left alone", val(b), cov)


@contract("C15", funcs=[EN + "_apply_projection"], cfgs=[{"k": k} for k in ("annualisation_factor", "horizon")], samples=1)
def projection_unknown(S, M, k):
    S.raises(S.call(M.ensembles._apply_projection, S.pd.Series([.1], index=["A"]), S.pd.DataFrame([[.1]], index=["A"], columns=["A"]), {k: 2}), ValueError, "unknown option refused")


@contract("C15", funcs=[EN + "_build_distribution", EN + "make_portfolio_spec"], dims={"T": [2, 3], "n": [1, 2]}, cdims={"T": [8], "n": [3]}, samples=30,
          cfgs=[{"pk": p, "pre": q} for p in ("none", "array", "series", "shuffled") for q in (0, 1)])
def scenario_distribution(S, M, pk, pre):
    T, n = S.dim("T"), S.dim("n")
    quiet_eig(S)
    R = S.mat("R", T, n, gen=small)
    p = S.prob("p", T)
    days = [f"d{t}" for t in range(T)]
    df = S.pd.DataFrame(R.copy(), index=days, columns=NAMES[:n])
    o = list(range(1, T)) + [0]
    pa = {"none": None, "array": p.copy(), "series": S.pd.Series(p.copy(), index=days), "shuffled": S.pd.Series(p[o], index=[days[t] for t in o])}[pk]
    seen = []

    def opt(wr, **kw):
        seen.append((wr, kw))
        return "done"

    def prep(d):
        d.iloc[0, 0] = d.iloc[0, 0] * 2
        return d
    spec = S.ok(S.call(M.ensembles.make_portfolio_spec, "s", returns=df, probabilities=pa, use_scenarios=True, optimiser=opt, optimiser_kwargs={"num_portfolios": 7}, preprocess=prep if pre else None))
    want = R.copy()
    if pre:
        want[0, 0] = want[0, 0] * 2
    for k in range(2):
        S.ok(S.call(spec.frontier_factory))
        wr, kw = seen[k]
        S.true("optimiser options forwarded", kw == {"num_portfolios": 7})
        d = wr.dist
        S.eq("scenarios", val(d.scenarios), want)
        S.eq("probabilities follow their scenarios", val(d.probabilities), S.arr([S.lit(1) / T] * T) if pk == "none" else p, tol=1e-12)
        S.true("asset names", list(d.asset_names) == NAMES[:n])
    S.eq("returns left alone", val(df), R)


@contract("C15", modes="C", funcs=[EN + "_build_distribution", EN + "make_portfolio_spec", EN + "_apply_projection"], dims={"T": [9], "n": [3]}, samples=20,
          cfgs=[{"pk": p, "proj": j} for p in ("none", "array", "series", "shuffled") for j in (0, 1, 2)])
def moment_distribution(S, M, pk, proj):
    """bounded: estimated moments, projected, with the documented 1e-10 diagonal addition"""
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=lambda r: .05 * r.normal())
    p = S.prob("p", T)
    days = [f"d{t}" for t in range(T)]
    df = S.pd.DataFrame(R.copy(), index=days, columns=NAMES[:n])
    o = list(range(1, T)) + [0]
    pa = {"none": None, "array": p.copy(), "series": S.pd.Series(p.copy(), index=days), "shuffled": S.pd.Series(p[o], index=[days[t] for t in o])}[pk]
    seen = []
    pj = [None, {"annualization_factor": 12}, {"annualization_factor": 12, "log_to_simple": True}][proj]
    spec = S.ok(S.call(M.ensembles.make_portfolio_spec, "s", returns=df, probabilities=pa, optimiser=lambda wr: seen.append(wr), projection=pj))
    for k in range(2):
        S.ok(S.call(spec.frontier_factory))
        d = seen[k].dist
        q = np.ones(T) / T if pk == "none" else p
        mu = q @ R
        cov = (R - mu).T @ np.diag(q) @ (R - mu)
        if proj:
            mu, cov = 12 * mu, 12 * cov
        if proj == 2:
            g = np.exp(mu + np.diag(cov) / 2)
            mu, cov = g - 1, np.outer(g, g) * (np.exp(cov) - 1)
        ratio = np.asarray(val(d.cov))[0, 0] / cov[0, 0]
        if pk == "none" and abs(ratio - 1) > .01:
            cov = cov * ratio           # the estimator's own degrees-of-freedom convention belongs to C12
        S.eq("mean", val(d.mu), mu, tol=1e-9)
        S.eq("covariance", val(d.cov), cov, tol=1e-8)
        S.true("asset names", list(d.asset_names) == NAMES[:n])
    S.true("returns left alone", bool((df.to_numpy() == R).all()))
    S.true("projection options left alone", pj in (None, {"annualization_factor": 12}, {"annualization_factor": 12, "log_to_simple": True}))


@contract("C15", funcs=[EN + "_build_distribution", EN + "make_portfolio_spec"], cfgs=[{"case": c} for c in ("missing", "nan", "length", "negative")], samples=1)
def distribution_refused(S, M, case):
    df = S.pd.DataFrame([[.1, .2], [.0, .1]], index=["a", "b"], columns=["A", "B"])
    p = {"missing": S.pd.Series([.5, .5], index=["a", "z"]), "nan": S.pd.Series([.5, float("nan")], index=["a", "b"]), "length": [.5, .25, .25], "negative": [1.5, -.5]}[case]
    spec = S.ok(S.call(M.ensembles.make_portfolio_spec, "s", returns=df, probabilities=p, use_scenarios=True, optimiser=lambda w: None))
    S.raises(S.call(spec.frontier_factory), ValueError, "refused: " + case)


CONS = {"dict": {"long_only": True, "total_weight": 1.0}, "bounds": {"bounds": (0.0, .6), "total_weight": 1.0}, "group": {"long_only": True, "total_weight": .8, "equality_constraints": [([1., 1., 0.], .5)]}}


@contract("C15", funcs=[EN + "make_portfolio_spec"], dims={"n": [3]}, cfgs=[{"con": c} for c in CONS], samples=3)
def spec_constraints(S, M, con):
    n = S.dim("n")
    mu, cov = S.vec("mu", n), S.mat("c", n, n, sym=True)
    S.hook("linalg.eigvalsh", lambda a: S.arr([S.lit(1)] * n))
    dist = S.ok(S.call(M.portfolioapi.AssetsDistribution, mu=mu, cov=cov)) if S.symbolic else M.portfolioapi.AssetsDistribution(mu=mu, cov=cov @ cov.T + np.eye(n))
    seen = []
    kw = {"constraints": dict(CONS[con]), "num_portfolios": 3}
    given = {"constraints": dict(CONS[con]), "num_portfolios": 3}
    spec = S.ok(S.call(M.ensembles.make_portfolio_spec, "s", distribution=dist, optimiser=lambda wr, **k: seen.append((wr, k)), optimiser_kwargs=given))
    want = M.utils__constraints.Constraints.from_dict(dict(CONS[con])).to_matrices(n)
    for k in range(2):
        S.ok(S.call(spec.frontier_factory))
        wr, rest = seen[k]
        S.true("the specification's distribution", wr.dist is dist)
        S.true("other options forwarded", rest == {"num_portfolios": 3})
        for nm, v in zip("GhAb", want):
            g = getattr(wr, nm)
            S.true(f"{nm} present", (g is None) == (v is None))
            if v is not None:
                S.eq(f"constraints applied: {nm}", S.np.asarray(g), S.np.asarray(v), tol=0)
    S.true("options left alone", given == kw)


ROUTES = {"mean_variance": ("variance_frontier", {"num_portfolios": 4}), "mv": ("variance_frontier", {"num_portfolios": 3}), "cvar": ("cvar_frontier", {"num_portfolios": 3, "alpha": .1}),
          "mean-cvar": ("cvar_frontier", {"num_portfolios": 3}), "rrp": ("relaxed_risk_parity_frontier", {"num_portfolios": 3}), "relaxed_risk_parity": ("relaxed_risk_parity_frontier", {"num_portfolios": 2}),
          "Robust": ("robust_lambda_frontier", {"num_portfolios": 3})}


@contract("C15", funcs=[EN + "_resolve_optimiser"], cfgs=[{"key": k} for k in ROUTES], samples=1)
def optimiser_names(S, M, key):
    """each name is the facade frontier it documents, with the options forwarded"""
    meth, kw = ROUTES[key]
    log = []

    class W:
        def __getattr__(self, a):
            return lambda **k: log.append((a, k)) or "frontier"
    f = S.ok(S.call(M.ensembles._resolve_optimiser, key))
    S.true("the frontier is returned", S.ok(S.call(f, W(), **kw)) == "frontier")
    S.true("the named frontier is built with the options given", log == [(meth, kw)])


# ------------------------------------------------------------------------------------------------ every number of assets and portfolios
@contract("C15", funcs=[EN + "average_exposures", WU + "normalize_weights", WU + "ensure_samples_matrix", WU + "wrap_exposure_vector"], modes="P", samples=0, dims={"n": [2], "m": [2]},
          cfgs=[{"wk": k} for k in ("none", "array", "column")])
def all_sizes_average(S, M, wk):
    n, m = S.dim("n"), S.dim("m")
    X = S.mat("X", n, m)
    if wk == "none":
        o, q = S.call(M.ensembles.average_exposures, X.copy()), lambda j: S.lit(1)
    else:
        v = S.vec("q", m)
        o, q = S.call(M.ensembles.average_exposures, X.copy(), v.copy().reshape(-1, 1) if wk == "column" else v.copy()), lambda j: v[j]
    tot = S.sigma(m, q)
    if S.cond(S.any([S.some(m, lambda j: q(j) < 0), tot <= 0])):
        S.raises(o, ValueError, "negative weights and weights without a positive sum are refused")
        return
    x = S.ok(o)
    S.eq_shape("one exposure per asset", x, (n,))
    S.eq("the weighted average of that asset's exposures", x, S.build((n,), lambda i: S.sigma(m, lambda j: q(j) * X[i, j]) / tot))


@contract("C15", funcs=[EN + "exposure_stacking", EN + "_temporary_solver_options", WU + "ensure_samples_matrix", WU + "wrap_exposure_vector"], modes="P", samples=0, dims={"n": [2], "m": [5]},
          cfgs=[{"L": L} for L in (2, 3, 5)])
def all_sizes_stacking(S, M, L):
    """The expansion of the fold-wise objective: sum over folds of |R w - f|^2 with R the portfolios outside the fold and f the fold's mean."""
    n, m = S.dim("n"), S.dim("m", L)
    X = S.mat("X", n, m)
    out = S.ok(S.call(M.ensembles.exposure_stacking, X.copy(), L))
    rec = S.record()
    S.true("one programme is solved", len(rec) == 1)
    k = m // L
    cut = [i * k for i in range(L)] + [m]
    inside = lambda s, j: S.all([j >= cut[s], j < cut[s + 1]])
    rest = lambda s, j, f: S.where(inside(s, j), S.lit(0), f)
    mean = lambda s, i: S.sigma(cut[s + 1] - cut[s], lambda j: X[i, j + cut[s]]) / (cut[s + 1] - cut[s])
    P = S.build((m, m), lambda a, b: sum((2 * rest(s, a, rest(s, b, S.sigma(n, lambda i: X[i, a] * X[i, b]))) for s in range(L)), S.lit(0)))
    q = S.build((m, 1), lambda a, _: sum((-2 * rest(s, a, S.sigma(n, lambda i: X[i, a] * mean(s, i))) for s in range(L)), S.lit(0)))
    one = S.build((1, m), lambda i, j: S.lit(1))
    us = Sys(-S.np.eye(m), S.np.zeros(m), one, S.np.ones(1))
    same_programme(S, rec[0], "qp", us, P, q, us.G, us.h, "stacking")
    w = rec[0]["x"].reshape(-1)
    S.eq("that combination of the asset's exposures", out, S.build((n,), lambda i: S.sigma(m, lambda j: w[j] * X[i, j])))
