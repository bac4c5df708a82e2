"""C03 variance, VaR and CVaR equal their definitions."""
import numpy as np
from ..spec import contract


def quad(x, A):
    n = len(x)
    return sum((x[i] * A[i, j] * x[j] for i in range(n) for j in range(n)), 0 * x[0])


def weights(S, n, form, m=2):
    """(argument passed, list of weight vectors)"""
    cols = [S.vec(f"w{k}", n) for k in range(1 if form in ("vec", "series") else m)]
    A = S.labels(n)
    if form == "vec":
        return cols[0], cols
    if form == "series":
        return S.pd.Series(cols[0], index=A), cols
    W = S.np.column_stack(cols)
    if form == "mat":
        return W, cols
    if form == "mat1":
        return W[:, :1], cols[:1]
    return S.pd.DataFrame(W, index=A, columns=[f"c{k}" for k in range(m)]), cols


@contract("C03", funcs=["utils.functions.portfolio_variance", "utils.functions.portfolio_volatility", "utils.functions._ensure_weights_matrix"],
          dims={"n": [1, 2, 3, 4]}, cfgs=[{"form": f, "dfcov": d} for f in ("vec", "series", "mat", "mat1", "frame") for d in (0, 1)], samples=80)
def variance(S, M, form, dfcov):
    n = S.dim("n")
    arg, cols = weights(S, n, form)
    cov = S.mat("cov", n, n)          # any square matrix: the quadratic form needs no symmetry
    for c in cols:
        S.assume(quad(c, cov) >= 0)
    C = S.pd.DataFrame(cov, index=S.labels(n), columns=S.labels(n)) if dfcov else cov
    v = S.ok(S.call(M.utils__functions.portfolio_variance, arg, C))
    s = S.ok(S.call(M.utils__functions.portfolio_volatility, arg, C))
    want = [quad(c, cov) for c in cols]
    if len(cols) == 1:
        S.true("a single portfolio gives a scalar", S.np.ndim(v) == 0 and S.np.ndim(s) == 0)
        S.eq("variance is w'Cov w", v, want[0])
        S.eq("volatility is its square root", s, S.sqrt(want[0]), tol=1e-6)
    else:
        S.eq("variance is w'Cov w, column by column", v, want)
        S.eq("volatility is its square root", s, [S.sqrt(x) for x in want], tol=1e-6)


def var_level(S, pnl, p, alpha):
    """Arbitrary-but-fixed candidate v with the defining property of minus VaR, as a list of (value, is_it)."""
    T = len(pnl)
    le = lambda v: sum((S.where(pnl[t] <= v, p[t], 0) for t in range(T)), 0 * p[0])
    lt = lambda v: sum((S.where(pnl[t] < v, p[t], 0) for t in range(T)), 0 * p[0])
    return le, lt


DIMS = dict(dims={"T": [1, 2, 3, 4]}, quick_dims={"T": [1, 2, 3]})


def scen(S, T, n, unif):
    if S.symbolic or S.rng.random() < .6:
        R = S.mat("R", T, n)
    else:
        R = S.mat("R", T, n, gen=lambda r: float(r.integers(-2, 3)))
    p = None if unif else S.prob("p", T, strict=False)
    conf = S.real("conf", lo_strict=0, hi_strict=1, gen=lambda r: r.choice([.5, .9, .95, .99, .3, .05, .7]) if r.random() < .4 else .02 + .96 * r.random())
    return R, p, conf


def defined(S, name, var, cvar, pnl, p, alpha):
    """VaR / CVaR of one P&L column against their definitions."""
    T = len(pnl)
    v = -var
    if not S.symbolic:
        # decide ties of cumulative mass and tail mass with a tolerance (concrete arithmetic rounds)
        for x in pnl:
            for q in (sum(p[t] for t in range(T) if pnl[t] <= x), sum(p[t] for t in range(T) if pnl[t] < x)):
                if abs(q - alpha) < 1e-9:
                    from ..spec import Reject
                    raise Reject
        i = min(range(T), key=lambda t: abs(pnl[t] - v))
        S.eq(name + ": VaR is minus one of the P&L values", v, pnl[i])
        v = pnl[i]
    else:
        S.true(name + ": VaR is minus one of the P&L values", S.any([pnl[t] == v for t in range(T)]))
    le, lt = var_level(S, pnl, p, alpha)
    S.true(name + ": cumulative probability reaches the tail mass at minus VaR", le(v) >= alpha)
    S.true(name + ": and at no lower P&L", lt(v) < alpha)
    if cvar is not None:
        tail = sum((S.where(pnl[t] < v, p[t] * pnl[t], 0) for t in range(T)), 0 * p[0]) + v * (alpha - lt(v))
        S.eq(name + ": CVaR is minus the mean of the worst tail mass, boundary split", -cvar * alpha, tail)
        S.le(name + ": CVaR is never below VaR", var, cvar)


@contract("C03", funcs=["utils.functions.portfolio_cvar", "utils.functions.portfolio_var"], cfgs=[{"unif": u, "demean": d} for u in (0, 1) for d in (0, 1)],
          max_paths=3000, time_limit=60, samples=300, cdims={"T": [5, 8, 13]}, **DIMS)
def tail_risk(S, M, unif, demean):
    """One asset, one portfolio: P&L is R*w with free sign."""
    T = S.dim("T")
    F = M.utils__functions
    R, p, conf = scen(S, T, 1, unif)
    w = S.vec("w", 1)
    kw = dict(confidence=conf, demean=bool(demean)) if demean else dict(confidence=conf)
    cv = S.ok(S.call(F.portfolio_cvar, w, R, p, **kw))
    va = S.ok(S.call(F.portfolio_var, w, R, p, **kw))
    q = p if p is not None else [S.const(1) / T] * T
    m = sum((q[t] * R[t, 0] for t in range(T)), 0 * q[0]) if demean else 0
    pnl = [(R[t, 0] - m) * w[0] for t in range(T)]
    S.true("a single portfolio gives a scalar", S.np.ndim(cv) == 0 and S.np.ndim(va) == 0)
    defined(S, "one portfolio", va, cv, pnl, q, 1 - conf)


@contract("C03", funcs=["utils.functions.portfolio_cvar", "utils.functions.portfolio_var"], dims={"T": [2, 3], "n": [1, 2, 3]}, quick_dims={"T": [2], "n": [1, 2]}, max_paths=3000, time_limit=60,
          cfgs=[{"form": f, "demean": d, "dfR": x} for f in ("vec", "series", "mat", "frame", "mat1") for d in (0, 1) for x in (0, 1)], samples=300,
          cdims={"T": [6, 9], "n": [3]})
def tail_risk_portfolios(S, M, form, demean, dfR):
    """Several assets and portfolios: each column equals the definition on its own P&L."""
    T, n = S.dim("T"), S.dim("n")
    F = M.utils__functions
    R, p, conf = scen(S, T, n, 0)
    arg, cols = weights(S, n, form)
    Rarg = S.pd.DataFrame(R, index=list(range(T)), columns=S.labels(n)) if dfR else R
    cv = S.ok(S.call(F.portfolio_cvar, arg, Rarg, p, conf, bool(demean)))
    va = S.ok(S.call(F.portfolio_var, arg, Rarg, p, conf, bool(demean)))
    cv, va = S.np.asarray(cv, dtype=float).reshape(-1), S.np.asarray(va, dtype=float).reshape(-1)
    S.true("one number per portfolio", cv.shape == (len(cols),) and va.shape == (len(cols),))
    for k, w in enumerate(cols):
        mu = [sum((p[t] * R[t, i] for t in range(T)), 0 * p[0]) if demean else 0 for i in range(n)]
        pnl = [sum(((R[t, i] - mu[i]) * w[i] for i in range(n)), 0 * w[0]) for t in range(T)]
        defined(S, "column", va[k], cv[k], pnl, p, 1 - conf)


@contract("C03", funcs=["utils.functions.portfolio_cvar", "utils.functions.portfolio_var"], dims={"T": [2]}, cfgs=[{"p": 0}, {"p": 1}], samples=60, cdims={"T": [40, 25, 20]})
def default_confidence(S, M, p):
    T = S.dim("T")
    F = M.utils__functions
    R = S.mat("R", T, 1)
    q = S.prob("p", T) if p else None
    w = S.vec("w", 1)
    c95 = S.const("0.95")
    for f in (F.portfolio_cvar, F.portfolio_var):
        a, b = S.ok(S.call(f, w, R, q)), S.ok(S.call(f, w, R, q, confidence=c95, demean=False))
        S.eq("default is 95% without demeaning", a, b)


@contract("C03", funcs=["utils.functions.portfolio_cvar", "utils.functions.portfolio_var"], dims={"T": [2]}, samples=120,
          cfgs=[{"bad": b} for b in ("conf_low", "conf_high", "conf_nan", "demean_int", "demean_str", "conf_pct")])
def refused(S, M, bad):
    T = S.dim("T")
    R, w = S.mat("R", T, 1), S.vec("w", 1)
    kw = {}
    if bad == "conf_low":
        kw["confidence"] = S.real("c", hi=0, gen=lambda r: -abs(r.normal()) * r.integers(0, 2))
    elif bad == "conf_high":
        kw["confidence"] = S.real("c", lo=1, gen=lambda r: 1 + abs(r.normal()) * r.integers(0, 2))
    elif bad == "conf_pct":
        kw["confidence"] = 95
    elif bad == "conf_nan":
        kw["confidence"] = float("nan")
    elif bad == "demean_int":
        kw["demean"] = 1
    else:
        kw["demean"] = "yes"
    F = M.utils__functions
    S.raises(S.call(F.portfolio_cvar, w, R, None, **kw), ValueError, "out-of-range confidence or demean flag refused")
    S.raises(S.call(F.portfolio_var, w, R, None, **kw), ValueError, "out-of-range confidence or demean flag refused")


# ------------------------------------------------------------------ every array size
@contract("C03", funcs=["utils.functions.portfolio_variance", "utils.functions.portfolio_volatility", "utils.functions._ensure_weights_matrix"],
          modes="PC", dims={"n": [3]}, cdims={"n": [1, 9, 70]}, samples=30, cfgs=[{"many": 0}, {"many": 1}])
def all_sizes_variance(S, M, many):
    n = S.dim("n")
    m = S.dim("m", 2) if many and S.symbolic else 3
    cov = S.spd("cov", n)
    W = S.mat("W", n, m) if many else S.vec("w", n)
    at = (lambda i, k: W[i, k]) if many else (lambda i, k: W[i])
    want = S.build((m if many else 1,), lambda k: S.sigma(n, lambda i: S.sigma(n, lambda j: at(i, k) * cov[i, j] * at(j, k))))
    v = S.ok(S.call(M.utils__functions.portfolio_variance, W.copy(), cov.copy()))
    s = S.ok(S.call(M.utils__functions.portfolio_volatility, W.copy(), cov.copy()))
    if many:
        S.eq("variance is w'Cov w, column by column", v, want)
        S.eq("volatility is its square root", s, S.build((m,), lambda k: S.sqrt(want[k])), tol=1e-6)
    else:
        S.eq("variance is w'Cov w", v, want[0])
        S.eq("volatility is its square root", s, S.sqrt(want[0]), tol=1e-6)


@contract("C03", funcs=["utils.functions.portfolio_cvar", "utils.functions.portfolio_var", "utils.functions._ensure_weights_matrix"], modes="PC",
          assumes=["numpy argsort returns a permutation that sorts"], dims={"T": [4], "n": [2]}, cdims={"T": [50, 31], "n": [1, 6]}, samples=60,
          cfgs=[{"many": m, "unif": u, "demean": d} for m in (0, 1) for u in (0, 1) for d in (0, 1)])
def all_sizes_tail_risk(S, M, many, unif, demean):
    T, n = S.dim("T"), S.dim("n")
    F = M.utils__functions
    R = S.mat("R", T, n)
    p = None if unif else S.prob("p", T, strict=False)
    conf = S.real("conf", lo_strict=0, hi_strict=1, gen=lambda r: .02 + .96 * r.random())
    W = S.mat("W", n, 2) if many else S.vec("w", n)
    if not S.symbolic:
        q = np.full(T, 1 / T) if unif else p
        kw = dict(confidence=conf, demean=bool(demean))
        cv, va = S.ok(S.call(F.portfolio_cvar, W, R, p, **kw)), S.ok(S.call(F.portfolio_var, W, R, p, **kw))
        X = (R - (q @ R if demean else 0)) @ (W if many else W.reshape(-1, 1))
        for k, (c, v) in enumerate(zip(np.ravel(cv), np.ravel(va))):
            defined(S, "column", v, c, X[:, k], q, 1 - conf)
        return
    seen = []

    def argsort(x, axis=-1, **k):
        cols = []
        for c in range(x.shape[1]):
            col = x[:, c].copy()
            key = col.at(S.index("probe", T)).key()
            pi = next((p for kk, p in seen if kk == key), None)
            if pi is None:
                pi = S.indices(f"pi{len(seen)}", (T,), T)
                seen.append((key, pi))
            cols.append(pi)
        if axis != 0:
            S.skip("argsort along another axis")
        return S.np.stack(cols, axis=1)
    S.hook("np.argsort", argsort)
    kw = dict(confidence=conf, demean=bool(demean))
    cv = S.ok(S.call(F.portfolio_cvar, W.copy(), R.copy(), None if unif else p.copy(), **kw))
    va = S.ok(S.call(F.portfolio_var, W.copy(), R.copy(), None if unif else p.copy(), **kw))
    P = (lambda t: S.lit(1) / T) if unif else (lambda t: p[t])
    alpha = 1 - conf
    wt = (lambda c: lambda i: W[i, c]) if many else (lambda c: lambda i: W[i])
    for c in range(2 if many else 1):
        w = wt(c)
        mu = (lambda i: S.sigma(T, lambda s: P(s) * R[s, i])) if demean else (lambda i: S.lit(0))
        x = lambda t: S.sigma(n, lambda i: (R[t, i] - mu(i)) * w(i))
        cvar, var = (cv.reshape(-1)[c], va.reshape(-1)[c]) if many else (cv, va)
        v = -var
        pi, K = seen[c][1], S.firsts[min(c, len(S.firsts) - 1)]
        S.eq("VaR is minus one of the P&L values", v, x(pi[K]))
        S.true("which exists", S.all([pi[K] >= 0, pi[K] < T]))
        inc = lambda k: S.all([S.implies(k <= K, x(pi[k]) <= x(pi[K])), S.implies(k >= K, x(pi[k]) >= x(pi[K]))])   # argsort sorts
        for f in (P, lambda t: S.where(x(t) <= v, P(t), 0), lambda t: S.where(x(t) < v, P(t), 0)):                 # and permutes
            S.permuted(T, f, pi)
        S.sum_le("the scenarios up to the boundary are at most minus VaR", T, lambda k: S.where(k <= K, P(pi[k]), 0), lambda k: S.where(x(pi[k]) <= v, P(pi[k]), 0), inc)
        S.sum_le("the scenarios below minus VaR come before the boundary", T, lambda k: S.where(x(pi[k]) < v, P(pi[k]), 0), lambda k: S.where(k < K, P(pi[k]), 0), inc)
        le, lt = S.sigma(T, lambda t: S.where(x(t) <= v, P(t), 0)), S.sigma(T, lambda t: S.where(x(t) < v, P(t), 0))
        S.true("cumulative probability reaches the tail mass at minus VaR", le >= alpha)
        S.true("and at no lower P&L", lt < alpha)
        tail = S.sigma(T, lambda t: S.where(x(t) < v, P(t) * x(t), 0)) + v * (alpha - lt)
        S.eq("CVaR is minus the mean of the worst tail mass, boundary split", -cvar * alpha, tail)
        S.sum_le("every scenario of the tail is at most minus VaR", T, lambda t: S.where(x(t) < v, P(t) * x(t), 0), lambda t: S.where(x(t) < v, P(t) * v, 0))
        S.le("CVaR is never below VaR", var * alpha, cvar * alpha)
