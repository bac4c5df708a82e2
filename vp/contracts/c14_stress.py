"""C14 scenario P&L, performance reports and stress tests evaluate the portfolio they are given."""
import numpy as np
from ..spec import contract, Reject

NAMES = ["B", "A", "C", "D", "E"]
PF, ST = "utils.performance.", "stress."
CONFS = [.95, .9, .99, .5, .975]


def small(r):
    return float(r.normal() * r.choice([1., .02]))


def lin(w, r):
    return sum((a * b for a, b in zip(w, r)), 0 * w[0])


FORMS = ("list", "array", "column", "matrix", "series", "shuffled", "frame", "shuffledframe", "mapping")


def weights(S, n, form, names, m=2, tag="w", labels=None):
    """(argument, canonical weight vectors, portfolio labels or None): labelled forms may come in any order"""
    k = m if form in ("matrix", "frame", "shuffledframe") else 1
    cols = [S.vec(f"{tag}{j}", n, gen=small) for j in range(k)]
    o = list(range(n))
    if form in ("shuffled", "shuffledframe", "mapping") and names is not None:
        o = o[1:] + o[:1]
    lab = [(labels or NAMES)[i] for i in o]
    if form == "list":
        return list(cols[0]), cols, None
    if form == "array":
        return cols[0].copy(), cols, None
    if form == "column":
        return cols[0].copy().reshape(-1, 1), cols, None
    if form == "matrix":
        return S.np.column_stack(cols), cols, None
    if form in ("series", "shuffled"):
        return S.pd.Series(cols[0][o], index=lab, name="mine"), cols, ["mine"]
    if form == "mapping":
        return {l: cols[0][i] for l, i in zip(lab, o)}, cols, None
    return S.pd.DataFrame(S.np.column_stack(cols)[o], index=lab, columns=["p", "q", "r"][:k]), cols, ["p", "q", "r"][:k]


def unchanged(S, arg, copy_, form):
    v = lambda x: list(x.values()) if isinstance(x, dict) else x.to_numpy() if hasattr(x, "to_numpy") else x
    S.eq("weights left alone", v(arg), v(copy_))


@contract("C14", funcs=[PF + "scenario_pnl", PF + "_match_assets"], dims={"T": [1, 2, 3], "n": [1, 2, 3]}, cdims={"T": [12], "n": [4]}, samples=40,
          cfgs=[{"form": f, "df": d} for f in FORMS for d in (0, 1)])
def pnl(S, M, form, df):
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=small)
    arg, cols, names = weights(S, n, form, NAMES if df else None)
    r = S.pd.DataFrame(R.copy(), index=[f"d{t}" for t in range(T)], columns=NAMES[:n]) if df else R.copy()
    keep = arg.copy() if form != "list" else list(arg)
    o = S.ok(S.call(M.utils__performance.scenario_pnl, arg, r))
    want = [[lin(w, R[t]) for w in cols] for t in range(T)]
    if names is not None and df:
        S.true("scenario labels kept", list(o.index) == [f"d{t}" for t in range(T)])
        S.true("portfolio labels kept", o.name == "mine" if len(cols) == 1 and names == ["mine"] else list(o.columns) == names)
    x = o.to_numpy() if hasattr(o, "to_numpy") else S.np.asarray(o)
    multi = form in ("matrix", "frame", "shuffledframe")
    S.eq_shape("one row per scenario", x, (T, len(cols)) if multi else (T,))
    S.eq("sum over assets of weight times return", x, S.arr(want if multi else [v[0] for v in want]), tol=1e-12)
    unchanged(S, arg, keep, form)
    S.eq("scenarios left alone", r.to_numpy() if df else r, R)


def bad_weights(S, n, case, names):
    """weights that do not name the scenario's assets"""
    v = S.vec("w", n + 2, gen=small)
    lab = list(names)
    if case == "missing":
        lab = lab[:-1]
    elif case == "extra":
        lab = lab + ["Z"]
    elif case == "other":
        lab = lab[:-1] + ["Z"]
    elif case == "duplicate":
        lab = lab + lab[:1]
    elif case == "twice":
        lab = [lab[0], lab[0]] + lab[1:]
        lab = lab[:n] if n > 1 else lab
    return v[:len(lab)], lab


@contract("C14", funcs=[PF + "scenario_pnl", PF + "performance_report", PF + "drawdown_quantile", PF + "_match_assets", ST + "stress_test", ST + "_align_weights"], dims={"n": [2, 3]}, samples=10,
          cfgs=[{"f": f, "case": c, "form": k} for f in ("pnl", "report", "stress", "drawdown") for c in ("missing", "extra", "other", "duplicate", "twice", "length", "flat") for k in ("series", "frame")])
def labels_refused(S, M, f, case, form):
    n = S.dim("n")
    R = S.mat("R", 3, n, gen=small)
    r = S.pd.DataFrame(R, columns=NAMES[:n])
    if case in ("length", "flat"):
        if form == "frame":
            raise Reject
        w = S.vec("w", n + (1 if case == "length" else 0))
        if case == "flat":
            r = R[:, 0]
    else:
        v, lab = bad_weights(S, n, case, NAMES[:n])
        w = S.pd.Series(v, index=lab) if form == "series" else S.pd.DataFrame(v.reshape(-1, 1), index=lab, columns=["p"])
    P = M.utils__performance
    if f == "drawdown":
        if case in ("length", "flat", "twice"):
            raise Reject            # plain arrays / repeated labels: not this function's labels
        o = S.call(P.drawdown_quantile, w, r, 2, n_paths=2, seed=1)
    else:
        o = S.call({"pnl": P.scenario_pnl, "report": P.performance_report, "stress": M.stress.stress_test}[f], w, r)
    S.raises(o, ValueError, f"weights refused: {case}")


def tail(S, x, p, conf):
    """VaR and CVaR of one P&L column (C03): symbolically opaque functions of that column, its probabilities and the confidence"""
    if S.symbolic:
        a = [conf] + list(x) + list(p)
        return S.uf("VaR", *a), S.uf("CVaR", *a)
    al, T = 1 - conf, len(x)
    o = sorted(range(T), key=lambda t: x[t])
    c, v = 0., None
    for t in o:
        c += p[t]
        if abs(c - al) < 1e-9:
            raise Reject
        if c > al:
            v = x[t]
            break
    lt = sum(p[t] for t in range(T) if x[t] < v)
    return -v, -(sum(p[t] * x[t] for t in range(T) if x[t] < v) + v * (al - lt)) / al


def opaque(S, M):
    """portfolio_var / portfolio_cvar by their contract: a function of each portfolio's P&L, the probabilities and the confidence"""
    if not S.symbolic:
        return

    def risk(which):
        def f(w, R, p=None, confidence=None, demean=None):
            W, X = val(w), val(R)
            W = W.reshape(-1, 1) if len(W.shape) == 1 else W
            T = X.shape[0]
            q = [S.lit(1) / T] * T if p is None else list(S.np.asarray(p).reshape(-1))
            c = .95 if confidence is None else confidence
            r = []
            for k in range(W.shape[1]):
                x = [lin(list(W[:, k]), list(X[t])) for t in range(T)]
                if demean:
                    m = lin(q, x)
                    x = [v - m for v in x]
                r.append(S.uf(which, *([c] + x + q)))
            return r[0] if len(r) == 1 else S.arr(r)
        return f

    F = M.utils__functions
    S.stub(M, F.portfolio_var, risk("VaR"))
    S.stub(M, F.portfolio_cvar, risk("CVaR"))


def val(x):
    return x.to_numpy() if hasattr(x, "to_numpy") else np.asarray(x)


def statistics(S, x, p, conf, demean):
    """mean, stdev, VaR, CVaR, ENS of one P&L column under the probabilities"""
    T = len(x)
    m = lin(p, x)
    v = lin(p, [(a - m) * (a - m) for a in x])
    y = [a - m for a in x] if demean else x
    va, cv = tail(S, y, p, conf)
    if S.symbolic:
        ens = S.exp(-lin(p, [S.log(q) for q in p]))
    else:
        ens = float(np.exp(-sum(q * np.log(q) for q in p if q > 0)))
    return m, S.sqrt(v), va, cv, ens


def cmp_stats(S, name, got, want):
    for k, g, w in zip(("mean", "volatility", "VaR", "CVaR", "effective number of scenarios"), got, want):
        S.eq(f"{name}{k} of that P&L", g, w, tol=2e-7 if k == "volatility" else 1e-9)


def keys(conf, suffix=""):
    c = int(round(conf * 100))
    return ["mean" if not suffix else "return", "stdev", f"VaR{c}", f"CVaR{c}", "ENS"]


def probs(S, T, pk, tag="p"):
    if pk == "none":
        return None, [S.lit(1) / T] * T
    p = S.prob(tag, T)
    if S.symbolic:
        S.assume(S.all([x >= S.const("1e-12") for x in p]))
    k = 4 if pk == "scaled" else 1
    return (S.pd.Series(k * p, index=[f"d{t}" for t in range(T)]) if pk == "series" else k * p), list(p)


@contract("C14", funcs=[PF + "performance_report", PF + "_match_assets"], dims={"T": [1, 2, 3], "n": [1, 2, 3]}, quick_dims={"T": [1, 2], "n": [1, 2, 3]}, cdims={"T": [12], "n": [4]}, samples=30,
          cfgs=[{"form": f, "df": d, "pk": p, "dm": m} for f in ("list", "column", "series", "shuffled", "shuffledframe") for d in (0, 1) for p in ("none", "array", "scaled", "series") for m in (0, 1)])
def report(S, M, form, df, pk, dm):
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=small)
    arg, cols, names = weights(S, n, form, NAMES if df else None, m=1)
    p, q = probs(S, T, pk)
    conf = CONFS[S.pick("conf", len(CONFS))]
    opaque(S, M)
    r = S.pd.DataFrame(R.copy(), columns=NAMES[:n]) if df else R.copy()
    o = S.ok(S.call(M.utils__performance.performance_report, arg, r, probabilities=p, confidence=conf, demean=bool(dm)))
    S.true("statistics are named", list(o.index) == keys(conf))
    want = statistics(S, [lin(cols[0], R[t]) for t in range(T)], q, conf, dm)
    cmp_stats(S, "", [o.iloc[i] for i in range(5)], want)
    S.eq("scenarios left alone", r.to_numpy() if df else r, R)


@contract("C14", funcs=[PF + "performance_report", ST + "stress_test"], dims={"T": [3]}, samples=10,
          cfgs=[{"f": f, "case": c} for f in ("report", "stress") for c in ("conf0", "conf1", "conf95", "negative", "short", "nan", "many")])
def report_refuses(S, M, f, case):
    T = S.dim("T")
    R, w, p = S.mat("R", T, 2, gen=small), S.vec("w", 2), S.prob("p", T)
    kw = dict(confidence=.9)
    fn = M.utils__performance.performance_report if f == "report" else M.stress.stress_test
    k = S.pick("at", T)
    q = [x for x in p]
    if case.startswith("conf"):
        kw["confidence"] = {"conf0": 0., "conf1": 1., "conf95": 95.}[case]
    elif case == "negative":
        q[k] = -q[k]
    elif case == "short":
        q = q[:-1]
    elif case == "nan":
        q[k] = float("nan")
    elif f == "report":
        w = S.mat("W", 2, 2)
    else:
        raise Reject
    S.raises(S.call(fn, w, R, probabilities=S.np.array(q), **kw), ValueError, "refused: " + case)
    if f == "stress" and not case.startswith("conf"):
        S.raises(S.call(fn, w, R, stressed_probabilities=S.np.array(q), **kw), ValueError, "stressed probabilities refused: " + case)


def kl(S, q, p):
    return sum((q[t] * S.log(q[t] / p[t]) if S.symbolic or q[t] > 0 else 0. for t in range(len(p))), 0 * q[0])


def table(S, o, arg_names, cols, R0, p0, R1, p1, conf, dm, with_kl):
    """every column of the report against the same weights under the nominal / stressed law"""
    T = len(p0)
    lab = arg_names or (["portfolio_0"] if len(cols) == 1 else [f"portfolio_{k}" for k in range(len(cols))])
    S.true("one row per portfolio, labelled", list(o.index) == lab, f"{list(o.index)}")
    want_cols = [k + "_nom" for k in keys(conf, "s")]
    if R1 is not None:
        want_cols += [k + "_stress" for k in keys(conf, "s")] + (["KL_q_p"] if with_kl else [])
    S.true("nominal, stressed and divergence columns as requested", list(o.columns) == want_cols, f"{list(o.columns)}")
    for k, w in enumerate(cols):
        for X, p, suf in ((R0, p0, "_nom"), (R1, p1, "_stress")):
            if X is not None:
                want = statistics(S, [lin(w, X[t]) for t in range(T)], p, conf, dm)
                cmp_stats(S, "nominal " if suf == "_nom" else "stressed ", [o[c + suf].iloc[k] for c in keys(conf, "s")], want)
        if with_kl:
            S.eq("divergence is the relative entropy of the stressed to the nominal law", o["KL_q_p"].iloc[k], kl(S, p1, p0), tol=1e-9)


@contract("C14", funcs=[ST + "stress_test", ST + "_align_weights", ST + "_kl_divergence", ST + "stress_test._metrics"],
          dims={"T": [2, 3], "n": [1, 2]}, quick_dims={"T": [2], "n": [1, 2]}, cdims={"T": [12], "n": [3]}, samples=24,
          cfgs=[{"form": f, "df": d, "pk": p, "st": s, "dm": 0} for f in FORMS for d in (0, 1) for p in ("none", "scaled") for s in ("none", "probs", "shock", "both")]
          + [{"form": "shuffledframe", "df": 1, "pk": p, "st": s, "dm": 1} for p in ("none", "series") for s in ("none", "probs", "shock", "both")])
def stress(S, M, form, df, pk, st, dm):
    T, n = S.dim("T"), S.dim("n")
    if form == "shuffledframe" and not df:
        raise Reject
    R = S.mat("R", T, n, gen=small)
    arg, cols, names = weights(S, n, form, NAMES if df else None)
    p, q = probs(S, T, pk)
    conf = CONFS[S.pick("conf", 2)]
    ps, qs = (probs(S, T, "scaled", "s") if st in ("probs", "both") else (None, q))
    k, sh = (S.real("k"), S.vec("shift", n, gen=small)) if st in ("shock", "both") else (None, None)
    opaque(S, M)
    r = S.pd.DataFrame(R.copy(), columns=NAMES[:n]) if df else R.copy()
    shock = (lambda X: X * k + sh) if k is not None else None
    keep = arg.copy() if form != "list" else list(arg)
    kp = None if p is None else p.copy()
    kps = None if ps is None else ps.copy()
    o = S.ok(S.call(M.stress.stress_test, arg, r, probabilities=p, stressed_probabilities=ps, transform=shock, confidence=conf, demean=bool(dm)))
    R1 = None if st == "none" else R if k is None else [[R[t, i] * k + sh[i] for i in range(n)] for t in range(T)]
    table(S, o, names, cols, R, q, R1, qs, conf, dm, ps is not None)
    unchanged(S, arg, keep, form)
    S.eq("scenarios left alone", r.to_numpy() if df else r, R)
    for a, b in ((p, kp), (ps, kps)):
        if a is not None:
            S.eq("probabilities left alone", val(a), val(b))


@contract("C14", funcs=[ST + "stress_test"], dims={"T": [2]}, samples=10, cfgs=[{"case": c} for c in ("shape", "nan")])
def shock_refused(S, M, case):
    R, w = S.mat("R", 2, 2, gen=small), S.vec("w", 2)
    f = (lambda X: X[:, :1]) if case == "shape" else (lambda X: S.np.where(np.eye(2) > 0, float("nan"), X))
    S.raises(S.call(M.stress.stress_test, w, R, transform=f), ValueError, "shock refused: " + case)


@contract("C14", funcs=[ST + "exp_decay_stress", ST + "kernel_focus_stress", ST + "entropy_pooling_stress"], dims={"T": [2], "n": [1, 2]}, cdims={"T": [9], "n": [3]}, samples=30,
          cfgs=[{"kind": k, "df": d, "pk": p, "dm": m} for k in ("decay", "decay60", "kernel", "kernelhere", "kernelh", "posterior") for d in (0, 1) for p in ("none", "scaled") for m in (0, 1)],
          skip=lambda d, c: c["kind"].startswith("kernel") and (c["pk"] == "scaled" or c["dm"] and c["df"]))
def stressed_laws(S, M, kind, df, pk, dm):
    """each helper stresses with the law it names (decay and kernel laws: contract of probabilities.py)"""
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=small)
    arg, cols, names = weights(S, n, "shuffled" if df else "array", NAMES if df else None)
    p, q = probs(S, T, pk)
    conf = CONFS[S.pick("conf", 2)]
    r = S.pd.DataFrame(R.copy(), columns=NAMES[:n]) if df else R.copy()
    PR, kw = M.probabilities, dict(probabilities=p, confidence=conf, demean=bool(dm))
    flat = lambda x: list(val(x).reshape(-1))
    if kind in ("decay", "decay60"):
        hl = 60 if kind == "decay60" else 3
        f = M.stress.exp_decay_stress
        ps = flat(S.ok(S.call(PR.generate_exp_decay_probabilities, T, hl)))
        if kind == "decay":
            kw["half_life"] = hl
    elif kind == "posterior":
        f = M.stress.entropy_pooling_stress
        kw["posterior_probabilities"], ps = probs(S, T, "array", "s")
        if S.pick("column vector", 2):
            kw["posterior_probabilities"] = kw["posterior_probabilities"].reshape(-1, 1)
    else:
        f = M.stress.kernel_focus_stress
        x = S.vec("x", T, gen=small)
        S.assume(x[0] - x[1] > (0 if S.symbolic else .01))
        h = S.real("h", lo_strict=0, gen=lambda r: .2 + abs(r.normal())) if kind == "kernelh" else None
        at = S.real("x_T", gen=small) if kind != "kernelhere" else None
        kw["focus_series"] = S.pd.Series(x.copy()) if df else x.copy()
        kw.update(bandwidth=h, target=at)
        g = S.call(PR.generate_gaussian_kernel_probabilities, x.copy(), h=h, x_T=at)
        if not g.ok:
            raise Reject
        ps = flat(g.value)
        S.raises(S.call(f, arg, r, focus_series=x[:-1].copy(), bandwidth=S.lit(1)), ValueError, "focus series of another length refused")
    if not S.symbolic and min(ps) < 1e-13:
        raise Reject
    opaque(S, M)
    if S.symbolic:
        S.assume(S.all([v >= S.const("1e-12") for v in ps]))
    o = S.ok(S.call(f, arg, r, **kw))
    table(S, o, names, cols, R, q, R, ps, conf, dm, True)


@contract("C14", funcs=[ST + "linear_map", ST + "linear_map._transform"], dims={"T": [1, 2], "n": [1, 2, 3]}, cdims={"T": [6]}, samples=60, cfgs=[{"b": b, "k": k, "m": m} for b in (0, 1, 2) for k in (0, 1) for m in (0, 1)])
def shock_map(S, M, b, k, m):
    """R B' * scale + shift; B may change the number of columns (b = 2)"""
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=small)
    w = n + 1 if b == 2 else n
    B = S.mat("B", w, n) if b else None
    s = S.real("k") if k else None
    sh = S.vec("shift", w) if m else None
    keep = [None if x is None else x.copy() for x in (R, B, sh)]
    f = S.ok(S.call(M.stress.linear_map, mean_shift=sh if sh is None or S.pick("list", 2) else list(sh), scale=s, matrix=B))
    for rep in range(2):
        o = S.ok(S.call(f, R))
        S.eq_shape("shape", o, (T, w))
        for t in range(T):
            for i in range(w):
                v = lin(B[i], R[t]) if b else R[t, i]
                S.eq("R B' scale + shift", o[t, i], v * (s if k else 1) + (sh[i] if m else 0), tol=1e-10)
    for x, y in zip((R, B, sh), keep):
        if x is not None:
            S.eq("inputs left alone", x, y)
    S.raises(S.call(S.ok(S.call(M.stress.linear_map, mean_shift=S.vec("long", w + 1), matrix=B)), R), ValueError, "shift of another length refused")
    S.raises(S.call(S.ok(S.call(M.stress.linear_map, mean_shift=S.mat("two", 1, w), matrix=B)), R), ValueError, "two-dimensional shift refused")


class Projection:
    """project_scenarios by its contract (C13): some table of simulated changes, repriced; arguments and result recorded"""

    def __init__(self, S, M, sims):
        self.S, self.calls, self.sims = S, [], sims
        S.spy(M, M.utils__projection.project_scenarios, self.run)

    def run(self, real, R, investment_horizon=2, p=None, n_simulations=1000, reprice=None, seed=None):
        S = self.S
        if real is not None:
            out = real(R, investment_horizon=investment_horizon, p=p, n_simulations=n_simulations, reprice=reprice, seed=seed)
        else:
            K = R.shape[1]
            x = S.mat(f"sim{len(self.calls)}", n_simulations, K)
            out = reprice(x) if reprice is not None else x
            if hasattr(R, "columns"):
                out = S.pd.DataFrame(out, columns=list(R.columns))
        self.calls.append(dict(R=R, h=investment_horizon, p=p, n=n_simulations, reprice=reprice, seed=seed, out=val(out)))
        return out


@contract("C14", funcs=[PF + "horizon_report"], dims={"n": [1, 2]}, cdims={"n": [3]}, samples=12,
          cfgs=[{"df": d, "form": f, "rep": r, "pk": p} for d in (0, 1) for f in ("array", "series", "shuffled") for r in (0, 1) for p in ("none", "array") if d or f != "shuffled"])
def horizons(S, M, df, form, rep, pk):
    n = S.dim("n")
    T, sims = 3, 2 if S.symbolic else 37
    R = S.mat("R", T, n, gen=lambda r: .1 * small(r))
    arg, cols, names = weights(S, n, form, NAMES if df else None)
    p, q = probs(S, T, pk)
    conf = CONFS[S.pick("conf", 2)]
    r = S.pd.DataFrame(R.copy(), columns=NAMES[:n]) if df else R.copy()
    opaque(S, M)
    pr = Projection(S, M, sims)
    hs = [1, 4, 13]
    f = (lambda x: 2 * x) if rep else None
    o = S.ok(S.call(M.utils__performance.horizon_report, arg, r, horizons=hs, n_simulations=sims, p=p, reprice=f, confidence=conf, seed=5))
    S.true("one row per horizon", o.shape == (3, 5) and list(o.columns) == keys(conf))
    if len(pr.calls) != 3:
        if S.symbolic:
            S.true("one projection per horizon", False)
        raise Reject
    seeds = []
    for i, (h, c) in enumerate(zip(hs, pr.calls)):
        S.true("projected over the stated horizon", c["h"] == h and c["n"] == sims)
        S.eq("from the given invariants", val(c["R"]), R)
        if p is None:
            S.true("uniform without probabilities", c["p"] is None)
        else:
            S.eq("under the given probabilities", val(c["p"]), val(p))
        x = S.ok(S.call(c["reprice"], R)) if c["reprice"] is not None else R
        x = val(x)
        for t in range(T):
            for j in range(n):
                S.eq("repriced by the given (default: exponential) function", x[t, j], 2 * R[t, j] if rep else S.exp(R[t, j]) - 1)
        seeds.append(c["seed"])
        want = statistics(S, [lin(cols[0], c["out"][s]) for s in range(sims)], [S.lit(1) / sims] * sims, conf, 0)
        cmp_stats(S, "horizon ", [o.iloc[i, j] for j in range(5)], want)
    S.true("horizons are drawn independently", len(set(seeds)) == 3)


@contract("C14", funcs=[PF + "drawdown_quantile", PF + "_match_assets"], dims={"n": [1, 2], "h": [1, 2]}, cdims={"n": [3], "h": [8]}, samples=16, max_paths=1500, quick_dims={"n": [1, 2], "h": [1, 2]},
          cfgs=[{"df": d, "form": f, "rep": r, "pk": p} for d in (0, 1) for f in ("array", "series", "shuffled", "shuffledframe") for r in (0, 1) for p in ("none", "array") if d or f in ("array", "series")])
def drawdowns(S, M, df, form, rep, pk):
    n, h = S.dim("n"), S.dim("h")
    T, paths = 3, 1 if S.symbolic else 21
    R = S.mat("R", T, n, gen=lambda r: .2 * small(r))
    arg, cols, names = weights(S, n, form, NAMES if df else None, m=1)
    p, q = probs(S, T, pk)
    r = S.pd.DataFrame(R.copy(), columns=NAMES[:n]) if df else R.copy()
    conf = CONFS[S.pick("conf", 2)]
    seen = []

    def run(real, inv, horizon=2, n_paths=1000, p=None, reprice=None, seed=None):
        if real is not None:
            out = real(inv, horizon=horizon, n_paths=n_paths, p=p, reprice=reprice, seed=seed)
        else:
            out = S.mat("path", h, n).reshape(1, h, n)
        seen.append(dict(R=inv, h=horizon, n=n_paths, p=p, reprice=reprice, out=val(out)))
        return out

    S.spy(M, M.utils__projection.simulate_paths, run)
    f = (lambda x: 2 * x) if rep else None
    o = S.ok(S.call(M.utils__performance.drawdown_quantile, arg, r, h, confidence=conf, n_paths=paths, p=p, reprice=f, seed=7))
    S.true("statistics are named", list(o.index) == ["max_dd_mean", "max_dd_median", f"max_dd_{int(round(conf * 100))}", "max_dd_worst"])
    if len(seen) != 1:
        if S.symbolic:
            S.true("one path simulation", False)
        raise Reject
    c = seen[0]
    S.true("paths of the stated length and number", c["h"] == h and c["n"] == paths)
    S.eq("from the given invariants", val(c["R"]), R)
    if p is None:
        S.true("uniform without probabilities", c["p"] is None)
    else:
        S.eq("under the given probabilities", val(c["p"]), val(p))
    x = val(S.ok(S.call(c["reprice"], R)))
    for t in range(T):
        for j in range(n):
            S.eq("repriced by the given (default: exponential) function", x[t, j], 2 * R[t, j] if rep else S.exp(R[t, j]) - 1)
    dd = []
    for s in range(paths):
        peak, worst = S.lit(1), S.lit(0)
        for t in range(h):
            v = 1 + lin(cols[0], c["out"][s, t])
            peak = S.where(v > peak, v, peak)
            d = (peak - v) / peak
            worst = S.where(d > worst, d, worst)
        dd.append(worst)
    if S.symbolic:
        for k in range(4):
            S.eq("largest peak-to-trough loss of the wealth path from its start", o.iloc[k], dd[0])
    else:
        dd = np.array(dd)
        S.eq("mean, median, quantile and worst of the path drawdowns", [o.iloc[k] for k in range(4)], [dd.mean(), np.median(dd), np.quantile(dd, conf), dd.max()], tol=1e-9)


@contract("C14", funcs=[ST + "stress_invariants", ST + "stress_invariants._metrics", ST + "_align_weights"], dims={"k": [2]}, samples=20, cbudget=20,
          cfgs=[{"rep": r, "form": f, "view": v, "dm": m} for r in ("dict", "call", "none", "array") for f in ("array", "series", "shuffled", "mapping") for v in (0, 1) for m in (0, 1)])
def invariants(S, M, rep, form, view, dm):
    """stress at the level of the risk drivers: same weights (matched to instruments by name), nominal and view-tilted draws"""
    K = S.dim("k")
    T, sims = 3, 2 if S.symbolic else 59
    if rep == "array" and (form in ("shuffled", "series", "mapping") or view):
        raise Reject
    if not S.symbolic:
        T = 12
    R = S.mat("R", T, K, gen=lambda r: .1 * float(r.normal()))
    inst = ["Equity", "Bond"] if rep == "dict" else NAMES[:K]
    arg, cols, names = weights(S, 2, form, inst, labels=inst)
    r = S.pd.DataFrame(R.copy(), columns=NAMES[:K]) if rep != "array" else R.copy()
    spec = {"dict": {"Equity": ("A", lambda x: 3 * x), "Bond": (["B", "A"], lambda x: x[:, 0] - 7 * x[:, 1])}, "call": lambda x: x / 2, "none": None, "array": lambda x: x / 2}[rep]
    conf = CONFS[S.pick("conf", 2)]
    opaque(S, M)
    pr = Projection(S, M, sims)
    views = {"B": (">=", .01)} if view else None
    want_p = None
    if view:
        if S.symbolic:
            want_p = S.prob("post", T)
            made = []

            class Processor:
                def __init__(self, *a, **k):
                    made.append((a, k))

                def get_posterior_probabilities(self):
                    return want_p.reshape(-1, 1)

            S.stub(M, M.views.FlexibleViewsProcessor, Processor)
        else:
            if (R[:, 0] > .011).sum() < 1 or R[:, 0].max() < .02:
                raise Reject
            g = S.call(lambda: M.views.FlexibleViewsProcessor(prior_risk_drivers=r, mean_views=views).get_posterior_probabilities())
            if not g.ok:
                raise Reject
            want_p = np.asarray(g.value, float).reshape(-1)
    o = S.ok(S.call(M.stress.stress_invariants, r, arg, spec, stress_views=views, horizon=3, n_simulations=sims, seed=11, confidence=conf, demean=bool(dm)))
    if len(pr.calls) != (2 if view else 1):
        if S.symbolic:
            S.true("one projection per law", False)
        raise Reject
    if view and S.symbolic:
        S.true("the views are imposed on the given invariants", len(made) == 1 and made[0][1].get("mean_views", made[0][0][2] if len(made[0][0]) > 2 else None) is views)
        S.eq("the views are imposed on the given invariants", val(made[0][1].get("prior_risk_drivers", made[0][0][0] if made[0][0] else None)), R)
    for i, c in enumerate(pr.calls):
        S.true("projected over the stated horizon", c["h"] == 3 and c["n"] == sims)
        S.eq("from the given invariants", val(c["R"]), R)
        if i == 0:
            if c["p"] is not None:
                S.eq("nominal draws are uniform", val(c["p"]).reshape(-1), S.arr([S.lit(1) / T] * T))
        else:
            S.eq("stressed draws follow the view-tilted law", val(c["p"]).reshape(-1), want_p, tol=1e-6)
        x = val(S.ok(S.call(c["reprice"], val(r))))
        for t in range(T):
            b, a = R[t, 0], R[t, 1]
            w = {"dict": [3 * a, b - 7 * a], "call": [b / 2, a / 2], "array": [b / 2, a / 2], "none": [S.exp(b) - 1, S.exp(a) - 1]}[rep]
            S.eq("priced by the given functions", x[t], S.arr(w))
        want = statistics(S, [lin(cols[0], c["out"][s]) for s in range(sims)], [S.lit(1) / sims] * sims, conf, dm)
        suf = "_nom" if i == 0 else "_stressed"
        got = [o[k + suf].iloc[0] for k in keys(conf, "s")]
        cmp_stats(S, "nominal " if i == 0 else "stressed ", got, want)
    S.true("stressed columns only with stress views", any(str(c).endswith("_stressed") for c in o.columns) == bool(view))
    S.eq("invariants left alone", val(r), R)


# ------------------------------------------------------------------ every number of scenarios and assets
def tails_P(S, M, T):
    """portfolio_var / portfolio_cvar by their contract (C03): functions of the P&L column, the probabilities and the confidence"""
    at, known = S.index("probe", T), {}

    def of(which, x, p, conf):
        k = (which, S.lit(0) + conf, S.lit(0) + x(at), S.lit(0) + p(at))
        k = (which,) + tuple(v.key() for v in k[1:])
        if k not in known:
            known[k] = S.real(f"{which}{len(known)}")
        return known[k]

    def risk(which):
        def f(w, R, p=None, confidence=.95, demean=False):
            W, X = S.np.asarray(w), S.np.asarray(R)
            n, m = W.shape if len(W.shape) == 2 else (W.shape[0], 1)
            g = (lambda i, k: W[i, k]) if len(W.shape) == 2 else (lambda i, k: W[i])
            q = (lambda t: S.lit(1) / T) if p is None else (lambda t: S.np.asarray(p).reshape(-1)[t])
            r = []
            for k in range(m):
                x = lambda t, k=k: S.sigma(n, lambda i: X[t, i] * g(i, k))
                mean = S.sigma(T, lambda t: q(t) * x(t)) if demean else 0
                r.append(of(which, lambda t: x(t) - mean, q, confidence))
            return r[0] if m == 1 else S.arr(r)
        return f

    F = M.utils__functions
    S.stub(M, F.portfolio_var, risk("VaR"))
    S.stub(M, F.portfolio_cvar, risk("CVaR"))
    return of


def law_P(S, T, pk, tag):
    """(argument, probability of scenario t)"""
    if pk == "none":
        S.assume(S.lit(1) / T >= S.const("1e-12"))
        return None, lambda t: S.lit(1) / T
    p = S.prob(tag, T)
    S.assume(S.every(T, lambda t: p[t] >= S.const("1e-12")))
    return p.copy(), lambda t: p[t]


def stats_P(S, of, T, n, w, X, p, conf, dm):
    x = lambda t: S.sigma(n, lambda i: X(t, i) * w(i))
    m = S.sigma(T, lambda t: p(t) * x(t))
    y = (lambda t: x(t) - m) if dm else x
    return m, S.sqrt(S.sigma(T, lambda t: p(t) * (x(t) - m) * (x(t) - m))), of("VaR", y, p, conf), of("CVaR", y, p, conf), S.exp(-S.sigma(T, lambda t: p(t) * S.log(p(t))))


def book_P(S, n, form):
    """(argument, weight functions)"""
    if form == "matrix":
        W = S.mat("W", n, 2)
        return W.copy(), [lambda i, k=k: W[i, k] for k in range(2)]
    w = S.vec("w", n)
    return (w.copy().reshape(-1, 1) if form == "column" else w.copy()), [lambda i: w[i]]


@contract("C14", funcs=[PF + "scenario_pnl"], modes="P", samples=0, dims={"T": [2], "n": [2]}, cfgs=[{"form": f} for f in ("array", "column", "matrix")])
def all_sizes_pnl(S, M, form):
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n)
    arg, cols = book_P(S, n, form)
    o = S.ok(S.call(M.utils__performance.scenario_pnl, arg, R.copy()))
    S.eq("sum over assets of weight times return", o, S.build((T, 2) if form == "matrix" else (T,), lambda t, k=0: S.sigma(n, lambda i: R[t, i] * (S.where(k == 0, cols[0](i), cols[-1](i)) if form == "matrix" else cols[0](i)))))


@contract("C14", funcs=[PF + "performance_report"], modes="P", samples=0, dims={"T": [2], "n": [2]}, cfgs=[{"form": f, "pk": p, "dm": m} for f in ("array", "column") for p in ("none", "array") for m in (0, 1)])
def all_sizes_report(S, M, form, pk, dm):
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n)
    arg, cols = book_P(S, n, form)
    p, q = law_P(S, T, pk, "p")
    conf = CONFS[S.pick("conf", 2)]
    of = tails_P(S, M, T)
    o = S.ok(S.call(M.utils__performance.performance_report, arg, R.copy(), probabilities=p, confidence=conf, demean=bool(dm)))
    S.true("statistics are named", list(o.index) == keys(conf))
    cmp_stats(S, "", [o.iloc[i] for i in range(5)], stats_P(S, of, T, n, cols[0], lambda t, i: R[t, i], q, conf, dm))


@contract("C14", funcs=[ST + "stress_test", ST + "stress_test._metrics", ST + "_kl_divergence"], modes="P", samples=0, dims={"T": [2], "n": [2]},
          cfgs=[{"form": f, "pk": p, "st": s, "dm": m} for f in ("array", "matrix") for p in ("none", "array") for s in ("none", "probs", "shock", "both") for m in (0, 1) if f == "matrix" or m == 0])
def all_sizes_stress(S, M, form, pk, st, dm):
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n)
    arg, cols = book_P(S, n, form)
    p, q = law_P(S, T, pk, "p")
    ps, qs = law_P(S, T, "array", "s") if st in ("probs", "both") else (None, q)
    k, sh = (S.real("k"), S.vec("shift", n)) if st in ("shock", "both") else (None, None)
    conf = CONFS[S.pick("conf", 2)]
    of = tails_P(S, M, T)
    o = S.ok(S.call(M.stress.stress_test, arg, R.copy(), probabilities=p, stressed_probabilities=ps, transform=(lambda X: X * k + sh) if k is not None else None, confidence=conf, demean=bool(dm)))
    laws = [("_nom", lambda t, i: R[t, i], q)]
    if st != "none":
        laws.append(("_stress", lambda t, i: R[t, i] * k + sh[i] if k is not None else R[t, i], qs))
    want = [c + s for s, _, _ in laws for c in keys(conf, "s")] + (["KL_q_p"] if ps is not None else [])
    S.true("nominal, stressed and divergence columns as requested", list(o.columns) == want, f"{list(o.columns)}")
    S.true("one row per portfolio, labelled", list(o.index) == [f"portfolio_{j}" for j in range(len(cols))])
    for j, w in enumerate(cols):
        for suf, X, law in laws:
            cmp_stats(S, "nominal " if suf == "_nom" else "stressed ", [o[c + suf].iloc[j] for c in keys(conf, "s")], stats_P(S, of, T, n, w, X, law, conf, dm))
        if ps is not None:
            S.eq("divergence is the relative entropy of the stressed to the nominal law", o["KL_q_p"].iloc[j], S.sigma(T, lambda t: qs(t) * S.log(qs(t) / q(t))))


@contract("C14", funcs=[ST + "linear_map", ST + "linear_map._transform"], modes="P", samples=0, dims={"T": [2], "n": [2]}, cfgs=[{"b": b, "k": k, "m": m} for b in (0, 1, 2) for k in (0, 1) for m in (0, 1)])
def all_sizes_shock_map(S, M, b, k, m):
    T, n = S.dim("T"), S.dim("n")
    w = S.dim("w") if b == 2 else n
    R, B = S.mat("R", T, n), S.mat("B", w, n)
    s, sh = S.real("k"), S.vec("shift", w)
    f = S.ok(S.call(M.stress.linear_map, mean_shift=sh.copy() if m else None, scale=s if k else None, matrix=B.copy() if b else None))
    for rep in range(2):
        o = S.ok(S.call(f, R))
        S.eq("R B' scale + shift", o, S.build((T, w), lambda t, i: (S.sigma(n, lambda j: R[t, j] * B[i, j]) if b else R[t, i]) * (s if k else 1) + (sh[i] if m else 0)))
    S.eq("scenarios left alone", R, S.mat("R", T, n))


@contract("C14", funcs=[ST + "exp_decay_stress", ST + "kernel_focus_stress", ST + "entropy_pooling_stress"], modes="P", samples=0, dims={"T": [2], "n": [2]},
          assumes=["stress_test by its contract (all_sizes_stress)"], cfgs=[{"kind": k, "pk": p} for k in ("decay", "decay60", "kernel", "kernelhere", "posterior") for p in ("none", "array")])
def all_sizes_laws(S, M, kind, pk):
    """each helper asks for the stress test of the given portfolio and scenarios under the law it names"""
    T, n = S.dim("T"), S.dim("n")
    R, W = S.mat("R", T, n), S.mat("W", n, 2)
    p = S.prob("p", T) if pk == "array" else None
    conf, x, h, at = S.real("conf", lo_strict=0, hi_strict=1), S.vec("x", T), S.real("h", lo_strict=0), S.real("x_T")
    calls, answer = [], object()

    def stress_test(weights, scenarios, *, probabilities=None, stressed_probabilities=None, transform=None, confidence=.95, demean=False):
        calls.append((weights, scenarios, probabilities, stressed_probabilities, transform, confidence, demean))
        return answer

    S.stub(M, M.stress.stress_test, stress_test)
    kw = dict(probabilities=None if p is None else p.copy(), confidence=conf, demean=True)
    t = S.index("t", T)
    if kind.startswith("decay"):
        f, hl = M.stress.exp_decay_stress, 60
        if kind == "decay":
            kw["half_life"] = hl = 3
        want = M.probabilities.generate_exp_decay_probabilities(T, hl)
    elif kind == "posterior":
        f, want = M.stress.entropy_pooling_stress, S.prob("s", T)
        kw["posterior_probabilities"] = want.copy()
    else:
        f = M.stress.kernel_focus_stress
        kw.update(focus_series=x.copy(), bandwidth=h, target=at if kind == "kernel" else None)
        want = M.probabilities.generate_gaussian_kernel_probabilities(x.copy(), h=h, x_T=at if kind == "kernel" else x[T - 1])
    o = S.ok(S.call(f, W.copy(), R.copy(), **kw))
    S.true("one stress test", len(calls) == 1 and o is answer)
    w, r, q, st, tr, c, d = calls[0]
    S.eq("of the given portfolios", w, W)
    S.eq("on the given scenarios", r, R)
    S.true("at the given settings", tr is None and d is True)
    S.eq("at the given confidence", c, conf)
    if p is None:
        S.true("against the uniform law", q is None)
    else:
        S.eq("against the given law", q, p)
    S.eq("stressed by the law it names", st, want)


@contract("C14", funcs=[PF + "horizon_report"], modes="P", samples=0, dims={"T": [2], "n": [2]}, assumes=["project_scenarios by its contract (C13)"],
          cfgs=[{"rep": r, "pk": p} for r in (0, 1) for p in ("none", "array")])
def all_sizes_horizons(S, M, rep, pk):
    T, n, sims = S.dim("T"), S.dim("n"), S.dim("sims")
    R = S.mat("R", T, n)
    arg, cols = book_P(S, n, "array")
    p = S.prob("p", T) if pk == "array" else None
    conf = CONFS[S.pick("conf", 2)]
    of = tails_P(S, M, sims)
    calls = []

    def project(inv, investment_horizon=2, p=None, n_simulations=1000, reprice=None, seed=None):
        x = S.mat(f"sim{len(calls)}", n_simulations, n)
        calls.append((inv, investment_horizon, p, n_simulations, reprice, seed, x))
        return x.copy()

    S.stub(M, M.utils__projection.project_scenarios, project)
    hs = [1, 4, 13]
    o = S.ok(S.call(M.utils__performance.horizon_report, arg, R.copy(), horizons=hs, n_simulations=sims, p=None if p is None else p.copy(), reprice=(lambda x: 2 * x) if rep else None, confidence=conf, seed=5))
    S.true("one row per horizon", o.shape == (3, 5) and list(o.columns) == keys(conf) and len(calls) == 3)
    for i, (h, (inv, ih, q, k, f, seed, x)) in enumerate(zip(hs, calls)):
        S.true("projected over the stated horizon", ih == h)
        S.eq("with the stated number of draws", k, sims)
        S.eq("from the given invariants", inv, R)
        if p is None:
            S.true("uniform without probabilities", q is None)
        else:
            S.eq("under the given probabilities", q, p)
        S.eq("repriced by the given (default: exponential) function", f(R.copy()), S.build((T, n), lambda t, j: 2 * R[t, j] if rep else S.exp(R[t, j]) - 1))
        cmp_stats(S, "horizon ", [o.iloc[i, j] for j in range(5)], stats_P(S, of, sims, n, cols[0], lambda t, a: x[t, a], lambda t: S.lit(1) / sims, conf, 0))
    S.true("horizons are drawn independently", len({c[5] for c in calls}) == 3)
