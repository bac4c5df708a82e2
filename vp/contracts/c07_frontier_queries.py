"""C07 frontier queries."""
import numpy as np
from ..spec import contract, Reject

FR = "portfolioapi.PortfolioFrontier."
LAB = [{"lab": l, "names": nm} for l, nm in ((None, 1), ("Vol", 0), ("CVaR", 1), ("ES2", 0))]


def vals(r):
    """Values with frequent ties and sign changes."""
    return float(r.choice([.01, .02, .05, .1, .1, 0.0, -.03])) if r.random() < .5 else .1 * r.normal()


def sizes(S):
    """(assets, columns): proved for every number of columns, for two assets."""
    return (2 if S.P else S.dim("n")), S.dim("m")


def frontier(S, M, n, m, names, pos=False):
    W = S.mat("W", n, m)
    R = S.vec("R", m, gen=vals)
    K = S.vec("K", m, gen=lambda r: abs(vals(r)) + (.001 if pos else 0), **({"lo_strict": 0} if pos else {}))
    K2, K3 = S.vec("K2", m, gen=vals), S.vec("K3", m, gen=vals)
    nm = ["A%d" % i for i in range(n)] if names else None
    f = S.ok(S.call(M.portfolioapi.PortfolioFrontier, weights=W, returns=R, risks=K, risk_measure="Vol", asset_names=nm,
                    alternate_risks={"CVaR": K2, "ES2": K3}))
    snap = [a.copy() for a in (W, R, K, K2, K3)]
    risk = {None: K, "Vol": K, "CVaR": K2, "ES2": K3}

    def unchanged():
        for a, b in zip((f.weights, f.returns, f.risks, f.alternate_risks["CVaR"], f.alternate_risks["ES2"]), snap):
            S.eq("the query leaves the frontier unchanged", a, b, tol=0)
    return f, W, R, K, risk, nm, unchanged


def member(S, res, W, R, K, nm, good, what):
    """(w, ret, risk) is one and the same column j, and good(j) holds for it."""
    w, r, k = res
    n, m = (len(nm), W.shape[1]) if S.P and nm is not None else W.shape
    if nm is not None:
        S.true("weights carry the asset labels in order", list(w.index) == nm)
    v = S.np.asarray(w)
    S.eq_shape("one weight per asset", v, (n,))
    same = lambda j: S.all([S.close(v[i], W[i, j], 0) for i in range(n)] + [S.close(r, R[j], 0), S.close(k, K[j], 0)])
    S.true("weights, return and risk are one column's", S.some(m, same))
    S.true(what, S.some(m, lambda j: S.all([same(j), good(j)])))


@contract("C07", modes="PFC", funcs=[FR + "min_risk", FR + "max_return", FR + "_risk_vector", FR + "_to_pandas"], dims={"n": [1, 2], "m": [1, 2, 3, 4]}, quick_dims={"n": [2], "m": [1, 3]},
          cdims={"n": [3], "m": [1, 2, 5]}, cfgs=LAB)
def extremes(S, M, lab, names):
    n, m = sizes(S)
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, names)
    k = risk[lab]
    member(S, S.ok(S.call(f.min_risk, risk_label=lab)), W, R, k, nm, lambda j: S.every(m, lambda i: k[j] <= k[i]), "no column has lower risk in the named measure")
    unchanged()
    member(S, S.ok(S.call(f.max_return)), W, R, K, nm, lambda j: S.every(m, lambda i: R[j] >= R[i]), "no column has a higher return")
    unchanged()


@contract("C07", modes="PFC", funcs=[FR + "tangency"], dims={"n": [1, 2], "m": [1, 2, 3, 4]}, quick_dims={"n": [1], "m": [1, 3]}, cdims={"n": [3], "m": [1, 2, 5]}, cfgs=[{"names": 0}, {"names": 1}])
def tangency(S, M, names):
    n, m = sizes(S)
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, names, pos=S.symbolic)
    rf = S.real("rf", gen=lambda r: float(r.choice([0.0, .01, .05])))
    if S.symbolic:
        S.assume(S.some(m, lambda j: K[j] > S.const("0.0001")))
    out = S.call(f.tangency, rf)
    if S.symbolic:
        good = lambda j: S.every(m, lambda i: (R[j] - rf) * K[i] >= (R[i] - rf) * K[j])
    else:
        if np.all(np.abs(K) < 1e-7):
            S.raises(out, Exception, "no Sharpe ratio exists")
            return
        if not np.all(np.abs(K) > 1e-7):
            ok = np.abs(K) > 1e-7
        else:
            ok = np.ones(m, bool)
        good = lambda j: ok[j] and all((R[j] - rf) / K[j] >= (R[i] - rf) / K[i] - 1e-12 for i in range(m) if ok[i])
    member(S, S.ok(out), W, R, K, nm, good, "no column has a higher Sharpe ratio")
    unchanged()


@contract("C07", modes="PFC", funcs=[FR + "at_risk"], dims={"n": [1, 2], "m": [1, 2, 3, 4]}, quick_dims={"n": [1], "m": [1, 3]},
          cdims={"n": [3], "m": [1, 2, 5]}, cfgs=LAB, samples=120)
def at_risk(S, M, lab, names):
    n, m = sizes(S)
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, names)
    k = risk[lab]
    x = S.real("x", gen=vals)
    meets = S.some(m, lambda j: k[j] <= x)
    out = S.call(f.at_risk, x, risk_label=lab)
    if S.cond(meets):
        member(S, S.ok(out, "an attainable risk limit is answered"), W, R, k, nm,
               lambda j: S.all([k[j] <= x, S.every(m, lambda i: S.implies(k[i] <= x, R[j] >= R[i]))]), "highest return among the columns within the risk limit")
    else:
        S.raises(out, Exception, "a risk limit no column meets raises")
    unchanged()


@contract("C07", modes="PFC", funcs=[FR + "at_return"], dims={"n": [1, 2], "m": [1, 2, 3, 4]}, quick_dims={"n": [1], "m": [1, 3]},
          cdims={"n": [3], "m": [1, 2, 5]}, cfgs=LAB, samples=120)
def at_return(S, M, lab, names):
    n, m = sizes(S)
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, names)
    k = risk[lab]
    x = S.real("x", gen=vals)
    out = S.call(f.at_return, x, risk_label=lab)
    if S.cond(S.some(m, lambda j: R[j] >= x)):
        member(S, S.ok(out, "an attainable return floor is answered"), W, R, k, nm,
               lambda j: S.all([R[j] >= x, S.every(m, lambda i: S.implies(R[i] >= x, k[j] <= k[i]))]), "lowest risk among the columns reaching the floor")
    else:
        S.raises(out, Exception, "a return floor no column meets raises")
    unchanged()


@contract("C07", modes="PFC", funcs=[FR + "closest_risk"], dims={"n": [1, 2], "m": [1, 2, 3, 4]}, quick_dims={"n": [1], "m": [1, 3]},
          cdims={"n": [3], "m": [1, 2, 5]}, cfgs=LAB, samples=120)
def closest_risk(S, M, lab, names):
    n, m = sizes(S)
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, names)
    k = risk[lab]
    x = S.real("x", gen=vals)
    member(S, S.ok(S.call(f.closest_risk, x, risk_label=lab)), W, R, k, nm,
           lambda j: S.every(m, lambda i: S.absval(k[j] - x) <= S.absval(k[i] - x) + (0 if S.symbolic else 1e-12)), "no column is nearer to the requested risk")
    unchanged()


@contract("C07", modes="PFC", funcs=[FR + "risk_percentiles", FR + "_normalize_percentile", FR + "index_at_risk_percentile", FR + "at_percentile"],
          dims={"n": [1], "m": [1, 2, 3, 4]}, quick_dims={"n": [1], "m": [1, 3]}, cdims={"n": [3], "m": [1, 2, 5, 8]}, cfgs=LAB, samples=160)
def percentiles(S, M, lab, names):
    n, m = sizes(S)
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, names)
    k = risk[lab]
    p = S.ok(S.call(f.risk_percentiles, risk_label=lab))
    if m == 1:
        S.eq("a single column has percentile 0", p, [S.const(0)])
        if S.P:
            p = S.build((m,), lambda i: S.lit(0))
    elif S.P:
        S.true("percentiles follow the order of the named risk", S.every(m, lambda j: S.every(m, lambda i: S.implies(k[i] < k[j], p[i] < p[j]))))
        S.true("percentiles are the evenly spaced ranks", S.every(m, lambda j: S.some(m, lambda t: p[j] * (m - 1) == t)))
        S.true("percentiles are distinct ranks", S.every(m, lambda j: S.every(m, lambda i: S.implies(i < j, S.neg(p[i] == p[j])))))
    if not S.P:
        for j in range(m):
            S.true("percentiles follow the order of the named risk", S.all([S.implies(k[i] < k[j], p[i] < p[j]) for i in range(m)]))
            if m > 1:
                S.true("percentiles are the evenly spaced ranks", S.any([S.close(p[j], S.const(t) / (m - 1)) for t in range(m)]))
        if m > 1:
            S.true("percentiles are distinct ranks", S.all([S.neg(S.close(p[i], p[j])) for i in range(m) for j in range(i)]))
    q = S.real("q", gen=lambda r: float(r.choice([0, 1, .5, 50, 100, 30, 1.5, .25])) if r.random() < .5 else 100 * r.random())
    out = S.call(f.at_percentile, q, risk_label=lab)
    idx = S.call(f.index_at_risk_percentile, q, risk_label=lab)
    if S.cond(S.any([q < 0, q > 100])):
        S.raises(out, ValueError, "a percentile outside [0, 100] is refused")
        S.raises(idx, ValueError, "a percentile outside [0, 100] is refused")
        return
    pct = q / 100 if S.cond(q > 1) else q
    j = S.ok(idx)
    S.true("index is a column", S.all([j >= 0, j < m]))
    nearest = lambda j: S.every(m, lambda i: S.absval(p[j] - pct) <= S.absval(p[i] - pct) + (0 if S.symbolic else 1e-12))
    S.true("index is the column nearest to the percentile", nearest(j if S.P else int(j)))
    member(S, S.ok(out), W, R, k, nm, nearest, "no column is nearer to the requested percentile")
    unchanged()


@contract("C07", funcs=[FR + "__post_init__", FR + "_risk_vector", FR + "available_risk_measures"], dims={"n": [1, 2], "m": [2, 3]}, quick_dims={"n": [2], "m": [2]}, samples=20)
def refusals(S, M):
    n, m = S.dim("n"), S.dim("m")
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, 1)
    PF = M.portfolioapi.PortfolioFrontier
    for q in (lambda: f.min_risk(risk_label="nope"), lambda: f.at_risk(0.1, risk_label="nope"), lambda: f.at_return(-1e9, risk_label="nope"),
              lambda: f.closest_risk(.1, risk_label="nope"), lambda: f.at_percentile(.5, risk_label="nope")):
        S.raises(S.call(q), Exception, "an unknown risk label is refused")
    S.raises(S.call(PF, weights=W[:, 1:], returns=R, risks=K, risk_measure="Vol"), ValueError, "mismatched weights refused")
    S.raises(S.call(PF, weights=W, returns=R, risks=K[1:], risk_measure="Vol"), ValueError, "mismatched risks refused")
    S.raises(S.call(PF, weights=W, returns=R, risks=K, risk_measure="Vol", asset_names=["x"] * (n + 1)), ValueError, "mismatched names refused")
    S.raises(S.call(PF, weights=W, returns=R, risks=K, risk_measure="Vol", alternate_risks={"a": K[1:]}), ValueError, "mismatched alternate risk refused")
    S.true("labels listed", list(f.available_risk_measures()) == ["Vol", "CVaR", "ES2"])


@contract("C07", funcs=[FR + "to_frame", FR + "to_samples", FR + "_select_weights"], dims={"n": [1, 2], "m": [1, 3]}, quick_dims={"n": [2], "m": [3]}, cdims={"n": [3], "m": [1, 4]},
          cfgs=[{"names": 1}, {"names": 0}], samples=40)
def frames(S, M, names):
    n, m = S.dim("n"), S.dim("m")
    f, W, R, K, risk, nm, unchanged = frontier(S, M, n, m, names)
    lab = nm if names else list(range(n))

    def check(df, cols, labels, what):
        S.true(what + ": rows are the assets in order", list(df.index) == lab)
        S.true(what + ": columns are labelled as requested", list(df.columns) == labels)
        V = df.to_numpy()
        S.eq_shape(what + ": one column per selected portfolio", V, (n, len(cols)))
        for t, j in enumerate(cols):
            S.eq(what + ": each column holds its own portfolio", V[:, t], W[:, j], tol=0)
    check(S.ok(S.call(f.to_frame)), list(range(m)), list(range(m)), "full frame")
    check(S.ok(S.call(f.to_samples)), list(range(m)), list(range(m)), "full samples")
    sel = [m - 1, 0] if m > 1 else [0]
    check(S.ok(S.call(f.to_frame, sel)), sel, sel, "selection")
    check(S.ok(S.call(f.to_frame, iter(sel))), sel, sel, "iterator selection")
    check(S.ok(S.call(f.to_frame, columns=sel, column_labels=["p%d" % i for i in sel])), sel, ["p%d" % i for i in sel], "labelled selection")
    S.raises(S.call(f.to_frame, sel, column_labels=["x"] * (len(sel) + 1)), ValueError, "label count mismatch refused")
    X, got = S.ok(S.call(f.to_samples, sel, as_frame=False))
    S.true("raw samples carry the names", got == nm)
    for t, j in enumerate(sel):
        S.eq("raw samples: each column holds its own portfolio", X[:, t], W[:, j], tol=0)
    X[0, 0] = X[0, 0] + 1
    df = S.ok(S.call(f.to_frame))
    unchanged()


@contract("C07", funcs=[FR + "as_discrete_allocation"], modes="C", dims={"n": [3], "m": [3]}, cdims={"n": [3], "m": [3]}, cfgs=[{"names": 1}, {"names": 0}], samples=60)
def discrete(S, M, names):
    n, m = 3, 3
    nm = ["b", "a", "c"] if names else ["Asset_%d" % i for i in range(n)]
    W = np.column_stack([S.prob("w%d" % j, n) for j in range(m)])
    pr = S.pd.Series(S.vec("pr", n, gen=lambda r: 1 + 90 * r.random()), index=sorted(nm))
    f = M.portfolioapi.PortfolioFrontier(weights=W, returns=np.arange(3.), risks=np.arange(3.), risk_measure="Vol", asset_names=nm if names else None)
    v = S.real("v", gen=lambda r: 500 + 9000 * r.random())
    for j in range(m):
        a = S.ok(S.call(f.as_discrete_allocation, j, pr, v))
        b = M.portfolioapi.discretize_weights(weights=S.pd.Series(W[:, j], index=nm), latest_prices=pr, total_value=v)
        S.true("the allocation is that of the selected column's labelled weights", a.shares == b.shares and a.leftover_cash == b.leftover_cash, f"{a} vs {b}")
    for bad in (-1, m, m + 3):
        S.raises(S.call(f.as_discrete_allocation, bad, pr, v), IndexError, "a column outside the frontier is refused")
