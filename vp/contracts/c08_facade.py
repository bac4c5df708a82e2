"""C08 portfolio facade: the problem solved is the user's, the numbers reported are the portfolio's.

The optimisers (C04-C06), the constraint compiler (C01) and the risk measures (C03) are used through their contracts:
the facade must hand them the user's own moments/scenarios, constraints, costs and targets, so its answer is the one
the optimiser itself gives for that problem (the solver is a deterministic function of the programme), and each
reported number is the stated function of the reported weights."""
import numpy as np
from ..spec import contract, Reject
from ._opt import dot, quad
from .c05_mean_cvar import tailmean

PW = "portfolioapi.PortfolioWrapper."
DECLS = ["default", "kw", "obj", "dict", "call", "callobj"]


def declare(S, M, n, kind):
    """-> (constructor kwargs, per-call kwargs, the declaration in force)."""
    C = M.utils__constraints.Constraints
    if kind == "default":
        return {}, {}, C()
    lo = S.real("lo", hi=0, gen=lambda r: -.2 * r.random())
    hi = S.real("hi", lo=S.const("0.9"), gen=lambda r: .9 + .3 * r.random())
    tw = S.real("tw", lo=S.const("0.9"), hi=S.const("1.1"), gen=lambda r: float(r.choice([1.0, .95, 1.05])))
    d = {"long_only": False, "bounds": (lo, hi), "total_weight": tw}
    if kind == "eqonly":                       # the budget is the whole declaration: no inequality rows
        d = {"long_only": False, "bounds": None, "total_weight": tw}
    if kind == "ineqonly":                     # bounds only: no budget row
        d = {"long_only": False, "bounds": (lo, hi), "total_weight": None}
    c = C(**d)
    if kind in ("kw", "eqonly", "ineqonly"):
        return d, {}, c
    if kind == "obj":
        return {"constraints": c}, {}, c
    if kind == "dict":
        return {"constraints": dict(d)}, {}, c
    if kind == "call":
        return {}, {"constraints": dict(d)}, c
    return {"long_only": True, "bounds": (0, 1)}, {"constraints": c}, c


def moments(S, M, n, labelled):
    mu = S.vec("mu", n, gen=lambda r: .06 + .06 * r.normal())
    cov = S.spd("cov", n)
    names = ["B", "A", "C", "D", "E"][:n]
    if labelled:
        return mu, cov, names, S.pd.Series(mu.copy(), index=names), S.pd.DataFrame(cov.copy(), index=names, columns=names)
    return mu, cov, None, mu.copy(), cov.copy()


def costs_of(S, M, n, names, kind, where):
    """-> constructor kwargs, call kwargs, (w0, mic, pc) in force."""
    if not where:
        return {}, {}, (None, None, None)
    w0 = S.vec("w0", n, gen=lambda r: 2 * r.random() / n)
    k = S.vec("k", n, lo=0, gen=lambda r: abs(r.normal()) * (.3 if kind == "mic" else .02))
    a, b = w0.copy(), k.copy()
    if names is not None:                      # labelled, in another order
        ix = names[::-1]
        a = S.pd.Series(S.arr(list(w0)[::-1]), index=ix)
        b = S.pd.Series(S.arr(list(k)[::-1]), index=ix)
    tc = M.portfolioapi.TransactionCosts(initial_weights=a, **{"market_impact_costs" if kind == "mic" else "proportional_costs": b})
    force = (w0, k, None) if kind == "mic" else (w0, None, k)
    if where == "ctor":
        return {"costs": tc}, {}, force
    return {}, {"costs": tc}, force


def sys_of(S, decl, n):
    return decl.to_matrices(n)


def check_weights(S, name, got, want, names):
    if names is not None:
        S.true(name + " carry the asset names in order", list(got.index) == names)
    S.eq(name, S.np.asarray(got, dtype=float), want, tol=1e-7)


def psd(S, q):
    """The covariance is positive semidefinite: its quadratic form is non-negative at the given weights."""
    if S.symbolic:
        S.assume(q >= 0)


def vol_eq(S, name, v, q, tol=None):
    """v is the volatility sqrt(q), q >= 0."""
    if S.symbolic:
        from .. import term as tm
        if tm.is_zero(tm.lift(v) - tm.sqrt(tm.maxv(q, 0))) or tm.is_zero(tm.lift(v) - tm.sqrt(q)):
            S.true(name, True)
            return
    psd(S, q)
    S.eq(name, v * v, q, tol=tol)


def moments_risk(S, f, W, mu, cov, m):
    for j in range(m):
        w = list(W[:, j])
        S.eq("reported return is the mean times the reported weights", f.returns[j], dot(mu, w))
        vol_eq(S, "reported volatility squared is w'Cov w", f.risks[j], quad(w, cov))
        S.true("volatility is non-negative", f.risks[j] >= 0)


MV = [{"decl": d, "lab": l, "cost": c} for d, l, c in [("default", 0, ""), ("default", 1, ""), ("kw", 0, ""), ("obj", 1, ""), ("dict", 0, ""), ("call", 1, ""), ("callobj", 0, ""),
                                                        ("default", 0, "ctor"), ("default", 1, "ctor"), ("call", 1, "call"), ("kw", 0, "call"),
                                                        ("ineqonly", 0, "")]]


@contract("C08", funcs=[PW + "variance_frontier", PW + "_resolve_constraints", PW + "_setup_constraints", PW + "_apply_transaction_costs", PW + "_report_mu_cov", PW + "__init__"],
          dims={"n": [2], "num": [1, 2, 3]}, quick_dims={"n": [2], "num": [2]}, cdims={"n": [3, 4], "num": [1, 5]}, cfgs=MV, samples=150)
def variance_frontier(S, M, decl, lab, cost):
    n, num = S.dim("n"), S.dim("num")
    P = M.portfolioapi
    mu, cov, names, amu, acov = moments(S, M, n, lab)
    k0, k1, c = declare(S, M, n, decl)
    c0, c1, (w0, mic, _) = costs_of(S, M, n, names, "mic", cost)
    dist = S.ok(S.call(P.AssetsDistribution, mu=amu, cov=acov))
    pw = S.ok(S.call(P.PortfolioWrapper, dist, **k0, **c0))
    f = S.ok(S.call(pw.variance_frontier, num, **k1, **c1))
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.MeanVariance(mu, cov, G, h, A, b, **({} if w0 is None else dict(initial_weights=w0, market_impact_costs=mic)))
    W = opt.efficient_frontier(num)
    S.eq_shape("one column per portfolio", f.weights, W.shape)
    S.eq("weights solve the user's own problem", f.weights, W, tol=1e-7)
    m = W.shape[1]
    moments_risk(S, f, W, mu, cov, m)
    S.true("asset names are the distribution's", f.asset_names == names)
    S.true("no scenarios, no scenario overlay", not f.alternate_risks)
    # an override never affects later calls
    if k1 or c1:
        g = S.ok(S.call(pw.variance_frontier, num))
        fresh = P.PortfolioWrapper(dist, **k0, **c0).variance_frontier(num)
        S.eq("a per-call override does not change later calls", g.weights, fresh.weights, tol=1e-9)


FACTORIES = ("moments", "scenarios", "prices", "invariants", "posterior")


@contract("C08", funcs=[PW + "from_moments", PW + "_setup_constraints", PW + "_apply_transaction_costs"], dims={"n": [2]}, cdims={"n": [3]}, samples=60,
          cfgs=[{"decl": d, "lab": l, "cost": c} for d, l, c in [("default", 0, ""), ("kw", 0, "ctor"), ("obj", 1, "ctor"), ("dict", 0, ""), ("callobj", 0, "")]])
def from_moments_inputs(S, M, decl, lab, cost):
    """a factory keeps the declaration and the costs it is given"""
    n = S.dim("n")
    P = M.portfolioapi
    mu, cov, names, amu, acov = moments(S, M, n, lab)
    k0, k1, c = declare(S, M, n, decl)
    c0, _, (w0, mic, _) = costs_of(S, M, n, names, "mic", cost)
    if S.symbolic:
        S.stub(M, M.utils__validation.ensure_psd_matrix, lambda A, **k: A)           # positive definite, so unchanged (C18)
    pw = S.ok(S.call(P.PortfolioWrapper.from_moments, amu, acov, **k0, **c0))
    f = S.ok(S.call(pw.variance_frontier, 2, **k1))
    G, h, A, b = sys_of(S, c, n)
    W = M.optimization.MeanVariance(mu, cov, G, h, A, b, **({} if w0 is None else dict(initial_weights=w0, market_impact_costs=mic))).efficient_frontier(2)
    S.eq("weights solve the user's own problem", f.weights, W, tol=1e-6)
    S.true("asset names are the user's", f.asset_names == names)


@contract("C08", modes="C", funcs=[PW + "from_scenarios", PW + "from_prices", PW + "from_invariants", PW + "from_robust_posterior", PW + "_setup_constraints", PW + "_apply_transaction_costs"],
          dims={"n": [3]}, samples=60, cfgs=[{"via": v, "decl": d, "cost": c} for v in FACTORIES[1:] for d, c in (("default", ""), ("kw", "ctor"), ("obj", "ctor"), ("dict", ""), ("callobj", ""))])
def factory_inputs(S, M, via, decl, cost):
    """bounded: every other factory keeps the declaration and the costs it is given"""
    n = S.dim("n")
    P, r = M.portfolioapi.PortfolioWrapper, S.rng
    names = ["B", "A", "C"][:n]
    k0, k1, c = declare(S, M, n, decl)
    c0, _, (w0, mic, _) = costs_of(S, M, n, names, "mic", cost)
    R = S.pd.DataFrame(.02 * r.normal(size=(30, n)) + [.01, 0, .02], columns=names)
    if via == "scenarios":
        pw = S.ok(S.call(P.from_scenarios, R, **k0, **c0))
    elif via == "prices":
        pw = S.ok(S.call(P.from_prices, 100 * (1 + R).cumprod(), **k0, **c0))
    elif via == "invariants":
        pw = S.ok(S.call(P.from_invariants, R, n_simulations=50, seed=3, **k0, **c0))
    else:
        mu0, S0 = S.pd.Series([.01, .0, .02], index=names), S.pd.DataFrame(np.diag([.01, .02, .03]), index=names, columns=names)
        post = M.bayesian.RobustBayesPosterior.from_niw(prior_mu=mu0, prior_sigma=S0, t0=10, nu0=12, sample_mu=R.mean(), sample_sigma=R.cov(), n_obs=30)
        pw = S.ok(S.call(P.from_robust_posterior, post, **k0, **c0))
    d = pw.dist
    S.true("asset names are the user's", list(d.asset_names) == names)
    G, h, A, b = sys_of(S, c, n)
    f = S.ok(S.call(pw.variance_frontier, 3, **k1))
    W = M.optimization.MeanVariance(d.mu, d.cov, G, h, A, b, **({} if w0 is None else dict(initial_weights=w0, market_impact_costs=mic))).efficient_frontier(3)
    S.eq("weights solve the user's own problem", f.weights, W, tol=1e-6)


@contract("C08", funcs=[PW + "min_variance_at_return"], dims={"n": [2, 3]}, quick_dims={"n": [2]}, cdims={"n": [3, 4]},
          cfgs=MV + [{"decl": "eqonly", "lab": l, "cost": c} for l, c in [(0, ""), (1, ""), (0, "ctor"), (1, "call")]], samples=120)
def variance_at_return(S, M, decl, lab, cost):
    n = S.dim("n")
    P = M.portfolioapi
    mu, cov, names, amu, acov = moments(S, M, n, lab)
    k0, k1, c = declare(S, M, n, decl)
    c0, c1, (w0, mic, _) = costs_of(S, M, n, names, "mic", cost)
    tau = S.real("tau", gen=lambda r: .03 + .03 * r.normal())
    dist = S.ok(S.call(P.AssetsDistribution, mu=amu, cov=acov))
    pw = S.ok(S.call(P.PortfolioWrapper, dist, **k0, **c0))
    out = S.call(pw.min_variance_at_return, tau, **k1, **c1)
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.MeanVariance(mu, cov, G, h, A, b, **({} if w0 is None else dict(initial_weights=w0, market_impact_costs=mic)))
    ref = S.call(opt.efficient_portfolio, tau)
    if ref.exc is not None:
        S.raises(out, Exception, "an infeasible target raises")
        return
    w, r, s = S.ok(out)
    check_weights(S, "weights solve the user's own problem", w, ref.value, names)
    S.eq("reported return is the mean times the weights", r, dot(mu, list(ref.value)))
    vol_eq(S, "reported risk squared is w'Cov w", s, quad(list(ref.value), cov))


@contract("C08", funcs=[PW + "min_variance_at_return", PW + "min_cvar_at_return", PW + "variance_frontier", PW + "solve_robust_gamma_portfolio"], dims={"n": [2]}, samples=20)
def uncertified(S, M):
    n = S.dim("n")
    mu, cov, names, amu, acov = moments(S, M, n, 1)
    use_contracts(S, M)
    pw = S.ok(S.call(M.portfolioapi.PortfolioWrapper, S.ok(S.call(M.portfolioapi.AssetsDistribution, mu=amu, cov=acov, scenarios=S.pd.DataFrame(S.mat("R", 2, n), columns=names)))))
    S.hook("solver_status", lambda kind, i: "unknown")
    for f in (lambda: pw.min_variance_at_return(S.const(0)), lambda: pw.variance_frontier(3), lambda: pw.min_cvar_at_return(S.const(0)),
              lambda: pw.solve_robust_gamma_portfolio(S.const(1), S.const(1)), lambda: pw.robust_lambda_frontier(2)):
        S.raises(S.call(f), Exception, "an uncertified solve raises")


CV = [{"decl": d, "lab": l, "cost": c, "mom": m} for d, l, c, m in [("default", 0, "", 0), ("default", 1, "", 1), ("kw", 0, "", 0), ("dict", 1, "", 0), ("call", 1, "", 1),
                                                                     ("default", 1, "ctor", 0), ("callobj", 0, "call", 1), ("ineqonly", 0, "", 0)]]


def scenario_model(S, M, n, T, lab, mom, fixed_p=False):
    R = S.mat("R", T, n, gen=lambda r: .04 * r.normal() + (.05 if r.random() < .15 else .01))
    # (several sorted columns are decided with the two scenario probabilities fixed at 1/4 and 3/4, supplied means at 0.1, 0.2)
    p = S.prob("p", T) if not (fixed_p and S.symbolic) else S.arr([S.const("0.25"), S.const("0.75")])
    names = ["B", "A", "C", "D"][:n] if lab else None
    kw = {}
    if mom:
        mu, cov = S.vec("mu", n, gen=lambda r: .02 + .02 * r.normal()), S.spd("cov", n)
        if fixed_p and S.symbolic:
            mu = S.arr([S.const("0.1") * (i + 1) for i in range(n)])
        kw = dict(mu=S.pd.Series(mu.copy(), index=names) if lab else mu.copy(), cov=S.pd.DataFrame(cov.copy(), index=names, columns=names) if lab else cov.copy())
    else:
        mu = S.arr([sum((p[t] * R[t, i] for t in range(T)), 0 * p[0]) for i in range(n)])
    dist = S.ok(S.call(M.portfolioapi.AssetsDistribution, scenarios=S.pd.DataFrame(R.copy(), columns=names) if lab else R.copy(), probabilities=p.copy(), **kw))
    return R, p, names, mu, dist


def use_contracts(S, M):
    """Callee contracts inside the facade proofs: portfolio_cvar (C03) is some function of the column, scenarios,
    probabilities and confidence; eigenvalues of a covariance are non-negative numbers."""
    if not S.symbolic:
        return

    def cv(w, R, p=None, confidence=None, demean=None):
        np_ = S.np
        W = np_.asarray(w, dtype=float)
        W = W.reshape(-1, 1) if W.ndim == 1 else W
        R_ = np_.asarray(R, dtype=float)
        n = R_.shape[0]
        pp = [S.lit(1) / n] * n if p is None else list(np_.asarray(p, dtype=float).reshape(-1))
        c = S.const("0.95") if confidence is None else confidence
        v = [S.uf("cvar", W[:, j], R_, pp, c, 1 if demean else 0) for j in range(W.shape[1])]
        return v[0] if len(v) == 1 else S.arr(v)

    def ev(a):
        out = np.empty(a.shape[0], dtype=object)
        for i in range(len(out)):
            out[i] = S.lit(i)
        return out
    S.hook("linalg.eigvalsh", ev)
    S.stub(M, M.utils__functions.portfolio_cvar, cv)


def cvar_def(S, M, w, R, p, a):
    """CVaR of the portfolio, through portfolio_cvar's contract (C03); concretely also by definition."""
    v = M.utils__functions.portfolio_cvar(w, R, p, confidence=1 - a)
    if not S.symbolic:
        S.eq("CVaR equals its definition", v, tailmean(R @ w, p, a), tol=1e-7)
    return v


def wcov(S, R, p, i, j):
    T = R.shape[0]
    m = lambda c: sum((p[t] * R[t, c] for t in range(T)), 0 * p[0])
    return sum((p[t] * (R[t, i] - m(i)) * (R[t, j] - m(j)) for t in range(T)), 0 * p[0])


@contract("C08", funcs=[PW + "min_cvar_at_return", PW + "_scenario_inputs"], dims={"T": [2], "n": [2]}, cdims={"T": [10], "n": [3]}, cfgs=CV, samples=150)
def cvar_at_return(S, M, decl, lab, cost, mom):
    T, n = S.dim("T"), S.dim("n")
    use_contracts(S, M)
    R, p, names, mu, dist = scenario_model(S, M, n, T, lab, mom)
    k0, k1, c = declare(S, M, n, decl)
    c0, c1, (w0, _, pc) = costs_of(S, M, n, names, "pc", cost)
    a = S.real("alpha", lo_strict=0, hi_strict=1, gen=lambda r: float(r.choice([.05, .1, .3])))
    tau = S.real("tau", gen=lambda r: .01 + .02 * r.normal())
    pw = S.ok(S.call(M.portfolioapi.PortfolioWrapper, dist, **k0, **c0))
    out = S.call(pw.min_cvar_at_return, tau, a, **k1, **c1)
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.MeanCVaR(R, p, a, G=G, h=h, A=A, b=b, **({} if w0 is None else dict(initial_weights=w0, proportional_costs=pc)))
    ref = S.call(opt.efficient_portfolio, tau)
    if ref.exc is not None:
        S.raises(out, Exception, "an infeasible target raises")
        return
    w, r, k = S.ok(out)
    check_weights(S, "weights solve the user's own problem", w, ref.value, names)
    S.eq("reported return is the asset means times the weights", r, dot(mu, list(ref.value)))
    S.eq("reported risk is the weights' CVaR (signed)", k, cvar_def(S, M, ref.value, R, p, a))


@contract("C08", funcs=[PW + "cvar_frontier", PW + "_scenario_inputs"], dims={"T": [2], "n": [2], "num": [1, 2]}, skip=lambda d, c: c["mom"] and d["num"] > 1, max_paths=300,
          cdims={"T": [10], "n": [3], "num": [1, 6]}, cfgs=CV, samples=150)
def cvar_frontier(S, M, decl, lab, cost, mom):
    T, n, num = S.dim("T"), S.dim("n"), S.dim("num")
    use_contracts(S, M)
    R, p, names, mu, dist = scenario_model(S, M, n, T, lab, mom, num > 1)
    k0, k1, c = declare(S, M, n, decl)
    c0, c1, (w0, _, pc) = costs_of(S, M, n, names, "pc", cost)
    a = S.const("0.25") if S.symbolic else S.real("alpha", lo_strict=0, hi_strict=1, gen=lambda r: float(r.choice([.05, .1, .3])))
    pw = S.ok(S.call(M.portfolioapi.PortfolioWrapper, dist, **k0, **c0))
    f = S.ok(S.call(pw.cvar_frontier, num, a, enforce_convexity=False, **k1, **c1))
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.MeanCVaR(R, p, a, G=G, h=h, A=A, b=b, **({} if w0 is None else dict(initial_weights=w0, proportional_costs=pc)))
    W = opt.efficient_frontier(num)
    S.eq_shape("one column per portfolio", f.weights, W.shape)
    m = W.shape[1]
    close = lambda i, j: S.all([S.close(f.weights[k, j], W[k, i], 1e-7) for k in range(n)])
    for i in range(m):
        S.true("every optimiser portfolio is a column", S.any([close(i, j) for j in range(m)]))
    S.true("asset names are the distribution's", f.asset_names == names)
    raw = [k for k in f.alternate_risks if k.startswith("CVaR (raw")]
    S.true("raw CVaR and volatility are attached", len(raw) == 1 and "Volatility" in f.alternate_risks)
    check_cvar_columns(S, M, f, f.risks, f.alternate_risks[raw[0]], f.alternate_risks["Volatility"], mu, R, p, a, m, n)
    if k1 or c1:
        g = S.ok(S.call(pw.cvar_frontier, num, a, enforce_convexity=False))
        fresh = M.portfolioapi.PortfolioWrapper(dist, **k0, **c0).cvar_frontier(num, a, enforce_convexity=False)
        S.eq("a per-call override does not change later calls", g.weights, fresh.weights, tol=1e-9)
    if not S.symbolic:
        e = S.ok(S.call(pw.cvar_frontier, num, a, **k1, **c1))
        S.eq("convexity correction keeps the weights", e.weights, f.weights, tol=0)
        S.eq("convexity correction keeps the returns", e.returns, f.returns, tol=0)
        S.eq("convexity correction keeps the raw CVaR", e.alternate_risks[raw[0]], f.risks, tol=0)
        S.true("corrected risks do not decrease", np.all(np.diff(e.risks) >= -1e-9))
        if not mom and not cost:
            S.eq("the correction is immaterial on an exact frontier", e.risks, f.risks, tol=2e-4)
            S.true("columns are ordered by risk", np.all(np.diff(f.risks) >= -2e-5))


def check_cvar_columns(S, M, f, risks, raw, vol, mu, R, p, a, m, n):
    for j in range(m):
        w = list(f.weights[:, j])
        S.eq("reported return is the asset means times the column's weights", f.returns[j], dot(mu, w))
        v = cvar_def(S, M, S.arr(w), R, p, a)
        S.eq("reported risk is the column's CVaR (signed)", risks[j], v)
        S.eq("raw risk is the column's CVaR", raw[j], v)
        q = quad(w, S.arr([[wcov(S, R, p, i, k) for k in range(n)] for i in range(n)])) if S.symbolic else np.array(w) @ np.array([[wcov(S, R, p, i, k) for k in range(n)] for i in range(n)]) @ np.array(w)
        vol_eq(S, "attached volatility is the column's own", vol[j], q, tol=1e-9)
        if j:
            S.true("columns are ordered by return", f.returns[j - 1] <= f.returns[j] + (0 if S.symbolic else 1e-12))


@contract("C08", funcs=[PW + "variance_frontier", PW + "_cvar_overlay"], dims={"T": [2], "n": [2], "num": [2]}, cdims={"T": [30], "n": [3], "num": [1, 5]}, cfgs=[{"lab": 0, "mom": 0}, {"lab": 1, "mom": 1}], samples=80)
def overlay(S, M, lab, mom):
    T, n, num = S.dim("T"), S.dim("n"), S.dim("num")
    use_contracts(S, M)
    R, p, names, mu, dist = scenario_model(S, M, n, T, lab, mom)
    pw = S.ok(S.call(M.portfolioapi.PortfolioWrapper, dist))
    f = S.ok(S.call(pw.variance_frontier, num))
    S.true("the CVaR overlay is attached", list(f.alternate_risks) == ["CVaR (95%)"])
    for j in range(f.weights.shape[1]):
        w = f.weights[:, j]
        S.eq("overlay is the column's CVaR (signed)", f.alternate_risks["CVaR (95%)"][j], cvar_def(S, M, w, R, p, 1 - S.const("0.95") if S.symbolic else 1 - .95))
        S.eq("reported return is the distribution's mean times the weights", f.returns[j], dot(mu, list(w)))


RB = [{"decl": d, "lab": l, "cost": c, "grid": g, "over": o} for d, l, c, g, o in
      [("default", 0, "", "auto", ""), ("default", 1, "", "lams", "cov"), ("kw", 0, "", "lams", ""), ("call", 1, "", "auto", "df"), ("default", 1, "ctor", "lams", ""), ("callobj", 0, "call", "auto", "cov")]]


@contract("C08", funcs=[PW + "robust_lambda_frontier"], dims={"n": [2], "num": [2]}, cdims={"n": [3], "num": [1, 5]}, cfgs=RB, samples=150, max_paths=300)
def robust_frontier(S, M, decl, lab, cost, grid, over):
    n, num = S.dim("n"), S.dim("num")
    P = M.portfolioapi
    mu, cov, names, amu, acov = moments(S, M, n, lab)
    k0, k1, c = declare(S, M, n, decl)
    c0, c1, (w0, _, pc) = costs_of(S, M, n, names, "pc", cost)
    dist = S.ok(S.call(P.AssetsDistribution, mu=amu, cov=acov))
    pw = S.ok(S.call(P.PortfolioWrapper, dist, **k0, **c0))
    if grid == "auto":
        mx = S.real("mx", lo_strict=0, gen=lambda r: .1 + 2 * r.random())
        lam = [mx] if num == 1 else [mx * S.const(j) / (num - 1) for j in range(num)]
        args = dict(num_portfolios=num, max_lambda=mx)
    else:
        lam = list(S.vec("lam", num, lo=0, gen=lambda r: 2 * r.random()))
        args = dict(lambdas=list(lam))
    rc = None
    if over:
        rc = S.spd("rc", n, pd=False) if S.symbolic else S.spd("rc", n)
        arg = rc.copy()
        if over == "df":           # labelled, in another order
            ix = names[::-1]
            arg = S.pd.DataFrame(rc[::-1, ::-1].copy(), index=ix, columns=ix)
        args["return_cov"] = arg
    f = S.ok(S.call(pw.robust_lambda_frontier, **args, **k1, **c1))
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.RobustOptimizer(mu, cov, G, h, A, b, **({} if w0 is None else dict(initial_weights=w0, proportional_costs=pc)))
    W = [opt.solve_lambda_variant(l).weights for l in lam]
    S.eq_shape("one column per penalty", f.weights, (n, len(lam)))
    S.true("metadata per column", len(f.metadata) == len(lam))
    for j in range(len(lam)):
        w = list(f.weights[:, j])
        own = [S.all([S.close(f.metadata[j]["lambda"], lam[i], 1e-9)] + [S.close(w[k], W[i][k], 1e-7) for k in range(n)]) for i in range(len(lam))]
        S.true("each column holds the user's robust problem for the penalty in its metadata", S.any(own))
        S.eq("reported return is the mean times the weights", f.returns[j], dot(mu, w))
        S.eq("reported risk squared is w'S w", f.risks[j] * f.risks[j], quad(w, cov), tol=1e-6)
        if rc is not None:
            vol_eq(S, "overlay volatility squared is w'C w, matched by label", f.alternate_risks["Volatility"][j], quad(w, rc))
        if j:
            S.true("columns are ordered by risk", f.risks[j - 1] <= f.risks[j])
    for i in range(len(lam)):
        S.true("every penalty has its column", S.any([S.close(f.metadata[j]["lambda"], lam[i], 1e-9) for j in range(len(lam))]))
    S.true("asset names are the distribution's", f.asset_names == names)


@contract("C08", funcs=[PW + "robust_lambda_frontier"], dims={"n": [2]}, samples=20)
def robust_refusals(S, M):
    n = S.dim("n")
    mu, cov, names, amu, acov = moments(S, M, n, 0)
    pw = S.ok(S.call(M.portfolioapi.PortfolioWrapper, S.ok(S.call(M.portfolioapi.AssetsDistribution, mu=amu, cov=acov))))
    neg = S.real("neg", hi_strict=0, gen=lambda r: -r.random() - .01)
    S.raises(S.call(pw.robust_lambda_frontier, lambdas=[neg, S.const(1)]), ValueError, "negative penalties refused")
    S.raises(S.call(pw.robust_lambda_frontier, lambdas=[]), ValueError, "empty grid refused")
    S.raises(S.call(pw.robust_lambda_frontier, 3, neg), ValueError, "negative maximum refused")
    S.raises(S.call(pw.robust_lambda_frontier, 0), ValueError, "no portfolios refused")
    S.raises(S.call(pw.relaxed_risk_parity_frontier, 3, lambda_reg=neg), ValueError, "negative regulator refused")
    S.raises(S.call(pw.relaxed_risk_parity_frontier, 0), ValueError, "no portfolios refused")
    S.raises(S.call(pw.relaxed_risk_parity_frontier, 2, target_multipliers=[neg]), ValueError, "negative multiplier refused")
    S.raises(S.call(pw.relaxed_risk_parity_frontier, 2, target_multipliers=[]), ValueError, "empty multipliers refused")
    S.raises(S.call(pw.relaxed_risk_parity_portfolio, target_multiplier=neg), ValueError, "negative multiplier refused")
    bad = S.arr([S.real("w00")] * (n + 1))
    tc = M.portfolioapi.TransactionCosts(initial_weights=bad, market_impact_costs=bad)
    S.raises(S.call(M.portfolioapi.PortfolioWrapper, pw.dist, costs=tc), ValueError, "costs of the wrong length refused")
    S.raises(S.call(pw.variance_frontier, 2, costs=tc), ValueError, "costs of the wrong length refused")
    bad1 = S.arr([S.real("w01")])
    tc = M.portfolioapi.TransactionCosts(initial_weights=bad1, proportional_costs=bad1)
    S.raises(S.call(pw.robust_lambda_frontier, 2, costs=tc), ValueError, "costs of the wrong length refused")
    S.raises(S.call(pw.solve_robust_gamma_portfolio, S.const(1), S.const(1), costs=tc), ValueError, "costs of the wrong length refused")
    sc = M.portfolioapi.AssetsDistribution(mu=mu)
    for g in ("variance_frontier", "robust_lambda_frontier", "relaxed_risk_parity_frontier", "relaxed_risk_parity_portfolio"):
        S.raises(S.call(getattr(M.portfolioapi.PortfolioWrapper(sc), g)), Exception, "missing covariance refused")


@contract("C08", funcs=[PW + "solve_robust_gamma_portfolio"], dims={"n": [2, 3]}, quick_dims={"n": [2]}, cdims={"n": [4]},
          cfgs=[{"decl": d, "lab": l, "cost": c} for d, l, c in [("default", 0, ""), ("kw", 1, ""), ("call", 1, "ctor"), ("default", 0, "call")]], samples=100)
def robust_gamma(S, M, decl, lab, cost):
    n = S.dim("n")
    P = M.portfolioapi
    mu, cov, names, amu, acov = moments(S, M, n, lab)
    k0, k1, c = declare(S, M, n, decl)
    c0, c1, (w0, _, pc) = costs_of(S, M, n, names, "pc", cost)
    pw = S.ok(S.call(P.PortfolioWrapper, S.ok(S.call(P.AssetsDistribution, mu=amu, cov=acov)), **k0, **c0))
    pen, cap = S.real("pen", lo=0, gen=lambda r: 2 * r.random()), S.real("cap", lo=0, gen=lambda r: .3 + 3 * r.random())
    out = S.call(pw.solve_robust_gamma_portfolio, pen, cap, **k1, **c1)
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.RobustOptimizer(mu, cov, G, h, A, b, **({} if w0 is None else dict(initial_weights=w0, proportional_costs=pc)))
    ref = S.call(opt.solve_gamma_variant, pen, cap)
    if ref.exc is not None:
        S.raises(out, Exception, "an infeasible cap raises")
        return
    w, r, k = S.ok(out)
    check_weights(S, "weights solve the user's own problem", w, ref.value.weights, names)
    v = quad(list(ref.value.weights), cov)
    S.eq("reported return is the mean times the weights", r, dot(mu, list(ref.value.weights)))
    if S.symbolic:
        S.true("reported risk is w'S w, up to the solver's tolerance at the cap", S.any([k == v, S.all([k == cap, v > cap])]))
    else:
        S.eq("reported risk is w'S w", k, v, tol=1e-5)


RR = [{"decl": d, "lab": l, "mode": m} for d, l, m in [("default", 0, "pure"), ("default", 1, "target"), ("default", 0, "mult"), ("box", 1, "mult"), ("callbox", 1, "target")]]


def box(S, M, n, decl):
    C = M.utils__constraints.Constraints
    if decl == "default":
        return {}, {}, C()
    hi = S.real("hi", lo=S.const("0.7"), gen=lambda r: .7 + .3 * r.random())
    c = C(bounds=(0, hi))
    return ({"constraints": c}, {}, c) if decl == "box" else ({}, {"constraints": {"bounds": (0, hi)}}, c)


def rrp_cov(S, n):
    if S.symbolic:
        return S.spd("cov", n)
    e = S.vec("e", n, gen=lambda r: .2 + r.random())
    g = S.vec("g", n, gen=lambda r: r.normal() * .4)
    return .04 * (np.outer(g, g) + np.diag(e))


@contract("C08", funcs=[PW + "relaxed_risk_parity_portfolio", PW + "relaxed_risk_parity_portfolio_with_diagnostics", PW + "_solve_relaxed_rp"], dims={"n": [2]}, cdims={"n": [3]},
          cfgs=RR, samples=100, max_paths=300)
def rrp_portfolio(S, M, decl, lab, mode):
    n = S.dim("n")
    P = M.portfolioapi
    mu = S.vec("mu", n, gen=lambda r: .05 + .05 * r.normal())
    cov = rrp_cov(S, n)
    names = ["B", "A", "C"][:n] if lab else None
    k0, k1, c = box(S, M, n, decl)
    amu, acov = (S.pd.Series(mu.copy(), index=names), S.pd.DataFrame(cov.copy(), index=names, columns=names)) if lab else (mu.copy(), cov.copy())
    pw = S.ok(S.call(P.PortfolioWrapper, S.ok(S.call(P.AssetsDistribution, mu=amu, cov=acov)), **k0))
    lam = S.real("lam", lo_strict=0, gen=lambda r: .1 + r.random())
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.RelaxedRiskParity(mu, cov, G, h, A, b)
    base = opt.solve(lambda_reg=0.0)
    r0 = dot(mu, list(base.weights))
    floor = r0 if S.cond(r0 >= 0) else 0 * r0
    if mode == "pure":
        kw, want = dict(lambda_reg=0.0, target_multiplier=None), base
    else:
        tau = S.real("tau", gen=lambda r: .02 + .1 * r.random()) if mode == "target" else S.const("1.2") * floor
        kw = dict(lambda_reg=lam, return_target=tau) if mode == "target" else dict(lambda_reg=lam)
        want = None
    out = S.call(pw.relaxed_risk_parity_portfolio_with_diagnostics, **kw, **k1)
    w, r, s, d = S.ok(out)
    wl = list(w.to_numpy() if lab else S.np.asarray(w))
    if lab:
        S.true("weights carry the asset names in order", list(w.index) == names)
    if want is None:
        ref = S.call(opt.solve, lambda_reg=lam, return_target=tau, min_target=floor)
        if ref.exc is None and d["solver_warning"] is None:
            S.eq("requested target is the declared one", d["requested_target"], tau, tol=1e-9)
            if not S.symbolic and d["target_return"] is not None and abs(d["target_return"] - ref.value.target_return) > 1e-9:
                return         # the documented back-off kicked in
            want = ref.value
    if want is not None:
        S.eq("weights solve the user's own problem", S.arr(wl), want.weights, tol=1e-7)
    S.eq("reported return is the mean times the weights", r, dot(mu, wl))
    S.eq("reported risk squared is w'Cov w", s * s, quad(wl, cov))
    S.eq("diagnostic variance is w'Cov w", d["portfolio_variance"], quad(wl, cov))
    S.eq("diagnostic return is the reported one", d["achieved_return"], r)
    S.eq("anchor weights are the pure risk parity solution", d["risk_parity_weights"], base.weights, tol=1e-7)
    S.eq("anchor return belongs to the anchor", d["risk_parity_return"], r0)
    for i in range(n):
        S.eq("risk contributions are weight times marginal risk", d["risk_contributions"][i], wl[i] * d["marginal_risk"][i])
    w2, r2, s2 = S.ok(S.call(pw.relaxed_risk_parity_portfolio, **kw, **k1))
    S.eq("the short form returns the same weights", S.np.asarray(w2, dtype=float), S.arr(wl), tol=1e-9)
    S.eq("the short form returns the same numbers", S.arr([r2, s2]), S.arr([r, s]), tol=1e-9)


@contract("C08", funcs=[PW + "relaxed_risk_parity_frontier"], dims={"n": [2], "num": [2]}, cdims={"n": [3], "num": [1, 3]},
          cfgs=[{"decl": d, "lab": l, "anchor": a, "grid": g} for d, l, a, g in [("default", 0, 1, "auto"), ("box", 1, 0, "mult"), ("callbox", 1, 1, "mult")]], samples=60, max_paths=200)
def rrp_frontier(S, M, decl, lab, anchor, grid):
    n, num = S.dim("n"), S.dim("num")
    P = M.portfolioapi
    mu = S.vec("mu", n, gen=lambda r: .05 + .05 * r.normal())
    cov = rrp_cov(S, n)
    names = ["B", "A", "C"][:n] if lab else None
    k0, k1, c = box(S, M, n, decl)
    amu, acov = (S.pd.Series(mu.copy(), index=names), S.pd.DataFrame(cov.copy(), index=names, columns=names)) if lab else (mu.copy(), cov.copy())
    pw = S.ok(S.call(P.PortfolioWrapper, S.ok(S.call(P.AssetsDistribution, mu=amu, cov=acov)), **k0))
    lam = S.real("lam", lo_strict=0, gen=lambda r: .1 + r.random())
    G, h, A, b = sys_of(S, c, n)
    opt = M.optimization.RelaxedRiskParity(mu, cov, G, h, A, b)
    base = opt.solve(lambda_reg=0.0)
    r0 = dot(mu, list(base.weights))
    floor = r0 if S.cond(r0 >= 0) else 0 * r0
    if grid == "auto":
        mx = S.real("mx", lo=1, gen=lambda r: 1 + r.random())
        mult = [mx] if num == 1 else [1 + (mx - 1) * S.const(j) / (num - 1) for j in range(num)]
        kw = dict(num_portfolios=num, max_multiplier=mx)
    else:
        mult = list(S.vec("mult", num, lo=0, gen=lambda r: 2 * r.random()))
        kw = dict(target_multipliers=list(mult))
    f = S.ok(S.call(pw.relaxed_risk_parity_frontier, lambda_reg=lam, include_risk_parity=bool(anchor), **kw, **k1))
    m = num + (1 if anchor else 0)
    S.eq_shape("one column per multiplier (plus the anchor)", f.weights, (n, m))
    S.true("metadata per column", len(f.metadata) == m)
    if anchor:
        S.eq("the anchor is the pure risk parity solution", f.weights[:, 0], base.weights, tol=1e-7)
    for j in range(m):
        w = list(f.weights[:, j])
        S.eq("reported return is the mean times the weights", f.returns[j], dot(mu, w))
        vol_eq(S, "reported volatility squared is w'Cov w", f.risks[j], quad(w, cov))
        i = j - (1 if anchor else 0)
        if i >= 0:
            md = f.metadata[j]
            S.eq("metadata names the column's own multiplier", md["target_multiplier"], mult[i], tol=1e-9)
            S.eq("requested target is the multiplier times the anchor's floored return", md["requested_target"], mult[i] * floor, tol=1e-7)
            ref = S.call(opt.solve, lambda_reg=lam, return_target=mult[i] * floor, min_target=floor)
            if ref.exc is None and md["solver_warning"] is None and (S.symbolic or abs(md["effective_target"] - ref.value.target_return) < 1e-9):
                S.eq("column solves the user's own problem", f.weights[:, j], ref.value.weights, tol=1e-6)
                S.eq("metadata objective is the column's", md["objective"], ref.value.objective, tol=1e-6)


@contract("C08", funcs=[PW + "_scenario_inputs", PW + "cvar_frontier"], modes="C", dims={"n": [2]}, cdims={"n": [3]}, samples=20, cfgs=[{"log": 0}, {"log": 1}])
def simulated(S, M, log):
    """Without scenarios the facade simulates multivariate-normal ones from the user's own moments, reproducibly."""
    n = S.dim("n")
    mu, cov, names, amu, acov = moments(S, M, n, 1)
    mu, cov = mu * .1, cov * .01
    P = M.portfolioapi
    pw = P.PortfolioWrapper(P.AssetsDistribution(mu=S.pd.Series(mu, index=names), cov=S.pd.DataFrame(cov, index=names, columns=names)))
    if log:
        pw._return_type = "log"
    seed = int(S.rng.integers(1000))
    R, p, m = pw._scenario_inputs(n_simulations=400, seed=seed)
    ref = np.random.default_rng(seed).multivariate_normal(mu, cov, 400)
    S.eq("scenarios are drawn from the user's moments", R, np.exp(ref) - 1 if log else ref, tol=1e-9)
    S.eq("simulated scenarios are equally likely", p, np.full(400, 1 / 400))
    if not log:
        S.eq("means are the user's", m, mu)
    a, b = pw.cvar_frontier(2, .1, seed=seed), pw.cvar_frontier(2, .1, seed=seed)
    S.eq("the same seed gives the same frontier", a.weights, b.weights, tol=1e-12)


@contract("C08", funcs=[PW + "from_robust_posterior", PW + "_report_mu_cov", PW + "robust_lambda_frontier", PW + "variance_frontier"], modes="C", dims={"n": [2]}, cdims={"n": [3]}, samples=40, cfgs=[{"lab": 0}, {"lab": 1}])
def posterior(S, M, lab):
    n = S.dim("n")
    mu, cov, names, amu, acov = moments(S, M, n, lab)
    B = M.bayesian
    T0, nu0, T = 20 + 30 * S.rng.random(), n + 10 + 20 * S.rng.random(), 50
    post = B.RobustBayesPosterior.from_niw(prior_mu=amu, prior_sigma=acov, t0=T0, nu0=nu0, sample_mu=amu, sample_sigma=acov, n_obs=T)
    fac = float(S.rng.choice([1.0, 4.0, 12.0]))
    pw = M.portfolioapi.PortfolioWrapper.from_robust_posterior(post, annualization_factor=fac)
    m1, s1 = np.asarray(post.mu, float) * fac, np.asarray(post.sigma, float) * fac
    S.eq("mean scales with the horizon", pw.dist.mu, m1)
    S.eq("covariance scales with the horizon", pw.dist.cov, s1)
    S.eq("scatter scales with the squared horizon", pw._uncertainty_cov, np.asarray(post.s_mu, float) * fac ** 2)
    S.true("names kept", pw.dist.asset_names == names)
    f = pw.robust_lambda_frontier(3, 1.0)
    em = np.exp(m1 + .5 * np.diag(s1))
    sm, sc = em - 1, np.outer(em, em) * (np.exp(s1) - 1)
    for j in range(f.weights.shape[1]):
        w = f.weights[:, j]
        S.eq("returns are reported in simple-return space", f.returns[j], sm @ w)
        S.eq("risk is the mean-uncertainty radius", f.risks[j] ** 2, w @ (np.asarray(post.s_mu, float) * fac ** 2) @ w, tol=1e-6)
    v = pw.variance_frontier(3)
    for j in range(v.weights.shape[1]):
        w = v.weights[:, j]
        S.eq("returns are reported in simple-return space", v.returns[j], sm @ w)
        S.eq("volatility is reported in simple-return space", v.risks[j] ** 2, w @ sc @ w)
