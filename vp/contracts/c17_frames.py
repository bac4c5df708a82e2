"""C17 calls never modify the caller's objects.  (vp/frame.py also frames every call of every other property's contracts.)

Here: every public operation on arrays that already have the internal dtype, in every memory layout (row- and column-major, a transpose, a
window into a larger array) and on labelled inputs and lists; configuration mappings and sequences; and histories of operations that share
their arguments."""
import numpy as np
from ..spec import contract, Reject
from ..frame import Frame

NAMES = ["B", "A", "C"]


def lay(S, a, how, wide=1.5):
    """the same numbers in a given layout"""
    if how == "F":
        return np.asfortranarray(a)
    if how == "T" and a.ndim == 2:
        b = np.empty(a.shape[::-1], dtype=a.dtype)
        b[...] = a.T
        return b.T
    if how == "window":
        big = np.full(tuple(2 * k + 2 for k in a.shape), S.lit(wide) if S.symbolic else wide, dtype=a.dtype)
        v = big[tuple(slice(1, 2 * k + 1, 2) for k in a.shape)]
        v[...] = a
        S.track(big, "array around the argument")
        return v
    if how == "frame":
        return S.pd.Series(a.copy(), index=NAMES[:len(a)]) if a.ndim == 1 else S.pd.DataFrame(a.copy(), columns=NAMES[:a.shape[1]])
    if how == "list":
        return a.tolist()
    return a


class Pool:
    """the caller's objects"""

    def __init__(self, S, M, how):
        L = lambda a, h=None: lay(S, a, h or how)
        self.S, self.M, self.how = S, M, how
        self.n = n = 2 if S.symbolic else 3
        T = 2 if S.symbolic else 13
        sc = (lambda r: .02 * r.normal())
        self.R0 = S.mat("R", T, n, gen=sc)
        self.mu0 = S.vec("mu", n, gen=sc)
        cov = S.spd("cov", n)
        self.cov0 = cov * (1e-3 if not S.symbolic else S.const("0.001"))
        self.R, self.mu = L(self.R0), L(self.mu0)
        self.cov = S.pd.DataFrame(self.cov0.copy(), index=NAMES[:n], columns=NAMES[:n]) if how == "frame" else L(self.cov0)
        p = S.prob("p", T)
        self.p = S.pd.Series(p.copy()) if how == "frame" else L(p)
        self.p2 = S.prob("q", T)
        self.w = L(S.prob("w", n))
        w2 = S.prob("v", n)
        self.W = np.column_stack([np.asarray(self.w), w2]) if how != "frame" else S.pd.DataFrame(np.column_stack([self.w.to_numpy(), w2]), index=NAMES[:n], columns=["x", "y"])
        self.W = L(self.W) if how != "frame" else self.W
        self.px = L(S.vec("px", n, lo=1, gen=lambda r: 1 + 20 * r.random()))
        pr = [S.lit(1) * (100 if not S.symbolic else 100)] * n
        rows = [pr]
        for t in range(T):
            rows.append([rows[-1][c] * (1 + (S.absval(self.R0[t, c]) if S.symbolic else abs(self.R0[t, c]))) for c in range(n)])
        self.prices = S.pd.DataFrame(S.arr(rows), columns=NAMES[:n])
        self.view = {0: .01, 1: .02} if how != "frame" else {"B": .01, "A": .02}
        self.conf = {0: .5, 1: .25} if how != "frame" else {"B": .5, "A": .25}
        self.omega = L(S.vec("om", 2, lo_strict=0, gen=lambda r: .01 + .1 * r.random()), "C")
        self.names = NAMES[:n]
        self.bounds = {0: (0., .9), 1: (.05, 1.)}
        self.lots = {"B": 1, "A": 2}
        self.wd = {"B": .6, "A": .4}
        self.pd_ = {"B": 10., "A": 7.}
        self.box = [(0., .9), (.05, 1.), (0., 1.)][:n]
        N = (lambda a: lay(S, a, how if how not in ("frame", "list") else "C"))
        self.G, self.h = N(np.eye(n)), np.full(n, .9)
        self.A, self.b = N(np.ones((1, n))), np.array([1.])
        self.Gn, self.hn, self.An = N(np.vstack([np.eye(n), -np.eye(n)])), np.array([.9] * n + [0.] * n), self.A
        self.cons = {"long_only": True, "total_weight": 1., "bounds": self.bounds}
        self.rb = np.array([.4, .6, .5])[:n]
        self.two = np.array([.4, .6])
        self.cost = np.array([.001, .002, .003])[:n]
        self.w0 = np.array([.5, .3, .2])[:n]
        self.lams = [0., .5, 1.]
        self.idx = [1, 0]
        self.kw = {"a": {"ddof": 1}}
        self.horizons = [1, 3]
        self.rows, self.eqs = [(np.eye(n)[0], .8)], [(np.array([1., -1., 0.])[:n], .1)]
        self.nui = [0, 1]
        self._c = {}

    def wrapper(self, kind="scen"):
        if kind not in self._c:
            A, S = self.M.portfolioapi, self.S
            W = A.PortfolioWrapper
            if kind == "scen":
                self._c[kind] = S.call(W.from_scenarios, self.R, probabilities=self.p, constraints=self.cons).value
            elif kind == "cost":
                tc = A.TransactionCosts(initial_weights=self.w0, proportional_costs=self.cost, market_impact_costs=self.cost)
                S.track(tc, "costs")
                self._c[kind] = S.call(W.from_moments, self.mu, self.cov, constraints=self.cons, costs=tc).value
            else:
                self._c[kind] = S.call(W.from_moments, self.mu, self.cov, constraints=self.cons).value
        return self._c[kind]

    def frontier(self):
        if "fr" not in self._c:
            self._c["fr"] = self.S.call(self.wrapper("mom").variance_frontier, 4).value
        return self._c["fr"]

    def dist(self):
        if "d" not in self._c:
            self._c["d"] = self.S.call(self.M.portfolioapi.AssetsDistribution, scenarios=self.R, probabilities=self.p).value
        return self._c["d"]

    def post(self):
        if "post" not in self._c:
            self._c["post"] = self.S.call(self.M.bayesian.RobustBayesPosterior.from_niw, prior_mu=self.mu, prior_sigma=self.cov, t0=3, nu0=6, sample_mu=self.mu, sample_sigma=self.cov, n_obs=9).value
        return self._c["post"]

    def labels(self):
        return self.names if self.how == "frame" else [0, 1, 2][:self.n]


def kw(f, *a, **k):
    return f, a, k


def spec_of(P, **k):
    E = P.M.ensembles
    return E.make_portfolio_spec("s", returns=P.prices.pct_change().dropna() if not P.S.symbolic else P.prices, **k)


def ensemble(P, combine):
    f1 = P.frontier()
    E = P.M.ensembles
    a = E.EnsembleSpec("a", lambda: f1, lambda f: f.min_risk(), {"m": [1]}, [0])
    b = E.EnsembleSpec("b", lambda: f1, lambda f: f.max_return(), {"m": [2]}, [2])
    return kw(E.assemble_portfolio_ensemble, [a, b], ensemble=["average", "stack"], combine=combine, stack_folds=2, ensemble_weights=P.two, stack_kwargs={"show_progress": False})


def views(P):
    l = P.names if P.how == "frame" else ["0", "1"]
    return dict(mean_views={l[0]: ("<=", .01)}, vol_views={l[1]: (">=", .001)}, corr_views={(l[0], l[1]): ("<=", .99)})


PURE = {
    "normalize_probability_vector": lambda P: kw(P.M.probabilities.normalize_probability_vector, P.p),
    "resolve_probabilities": lambda P: kw(P.M.probabilities.resolve_probabilities, P.p, len(P.R)),
    "ens": lambda P: kw(P.M.probabilities.compute_effective_number_scenarios, P.p),
    "hhi": lambda P: kw(P.M.probabilities.compute_effective_number_scenarios_hhi, P.p),
    "kernel": lambda P: kw(P.M.probabilities.generate_gaussian_kernel_probabilities, P.p, None, .3, .2),
    "kernel_v": lambda P: kw(P.M.probabilities.generate_gaussian_kernel_probabilities, P.p, P.p, .3),
    "silverman": lambda P: kw(P.M.probabilities.silverman_bandwidth, P.p),
    "variance": lambda P: kw(P.M.utils__functions.portfolio_variance, P.w, P.cov),
    "volatility": lambda P: kw(P.M.utils__functions.portfolio_volatility, P.W, P.cov),
    "cvar": lambda P: kw(P.M.utils__functions.portfolio_cvar, P.w, P.R, P.p, .7),
    "cvar_demean": lambda P: kw(P.M.utils__functions.portfolio_cvar, P.W, P.R, P.p, .7, True),
    "var": lambda P: kw(P.M.utils__functions.portfolio_var, P.w, P.R, P.p, .7, True),
    "pnl": lambda P: kw(P.M.utils__performance.scenario_pnl, P.w, P.R),
    "report": lambda P: kw(P.M.utils__performance.performance_report, P.w, P.R, probabilities=P.p, confidence=.7, demean=True),
    "project": lambda P: kw(P.M.utils__projection.project_mean_covariance, P.mu, P.cov, 12),
    "to_simple": lambda P: kw(P.M.utils__projection.convert_scenarios_compound_to_simple, P.R),
    "to_log": lambda P: kw(P.M.utils__projection.convert_scenarios_simple_to_compound, P.W),
    "log2simple": lambda P: kw(P.M.utils__projection.log2simple, P.mu, P.cov),
    "simple2log": lambda P: kw(P.M.utils__projection.simple2log, P.mu, P.cov),
    "reprice_exp": lambda P: kw(P.M.utils__projection.reprice_exp, P.R),
    "reprice_taylor": lambda P: kw(P.M.utils__projection.reprice_taylor, P.R0, theta=P.mu, delta=P.w, gamma=P.w, tau=2.),
    "is_psd": lambda P: kw(P.M.utils__validation.is_psd, P.cov0),
    "sum_to_one": lambda P: kw(P.M.utils__validation.check_weights_sum_to_one, P.w),
    "non_negative": lambda P: kw(P.M.utils__validation.check_non_negativity, P.w0),
    "samples": lambda P: kw(P.M.utils__weights.ensure_samples_matrix, P.W),
    "wrap": lambda P: kw(P.M.utils__weights.wrap_exposure_vector, P.w, P.names, label="z"),
    "normalize_weights": lambda P: kw(P.M.utils__weights.normalize_weights, P.two, num_samples=2),
    "to_series": lambda P: kw(P.M.utils__data_helpers.numpy_weights_to_pandas_series, P.w0, P.names),
    "sample_moments": lambda P: kw(P.M.moments.estimate_sample_moments, P.R, P.p),
    "jorion": lambda P: kw(P.M.moments.shrink_mean_jorion, P.mu, P.cov, 30),
    "james_stein": lambda P: kw(P.M.moments.shrink_mean_james_stein, P.mu, P.cov, 30, target=P.mu0),
    "ledoit_wolf": lambda P: kw(P.M.moments.shrink_covariance_ledoit_wolf, P.R, P.cov),
    "oas": lambda P: kw(P.M.moments.shrink_covariance_oas, P.R),
    "bl_moments": lambda P: kw(P.M.moments.posterior_moments_black_litterman, prior_cov=P.cov, prior_mean=P.mu, mean_views=P.view, omega=P.omega),
    "niw_moments": lambda P: kw(P.M.moments.posterior_moments_niw, prior_mu=P.mu, prior_sigma=P.cov, t0=3, nu0=6, sample_mu=P.mu, sample_sigma=P.cov, n_obs=9),
    "robust_bayes": lambda P: kw(P.M.bayesian.RobustBayesPosterior.from_niw, prior_mu=P.mu, prior_sigma=P.cov, t0=3, nu0=6, sample_mu=P.mu, sample_sigma=P.cov, n_obs=9),
    "constraints": lambda P: kw(P.M.utils__constraints.build_G_h_A_b, P.n, total_weight=1., long_only=True, bounds=P.bounds, relative_bounds=[(0, 1, .5)], group_constraints={"g": ([0, 1], .1, .9)}, additional_G_h=P.rows, additional_A_b=P.eqs),
    "average": lambda P: kw(P.M.ensembles.average_exposures, P.W, P.two),
    "linear_map": lambda P: kw(lambda *a: P.M.stress.linear_map(mean_shift=a[1], scale=.5, matrix=a[2])(a[0]), P.R0, P.mu, P.cov),
    "stress": lambda P: kw(P.M.stress.stress_test, P.w, P.R, probabilities=P.p, stressed_probabilities=P.p2, confidence=.7),
    "stress_map": lambda P: kw(lambda w, R, p, m: P.M.stress.stress_test(w, R, probabilities=p, transform=P.M.stress.linear_map(mean_shift=m), confidence=.7), P.w, P.R, P.p, P.mu),
    "exp_decay": lambda P: kw(P.M.stress.exp_decay_stress, P.w, P.R, half_life=2, confidence=.7),
    "greedy": lambda P: kw(P.M.discrete_allocation.discretize_weights, P.wd, P.pd_, 100., method="greedy", lot_sizes=P.lots),
}

FULL = {
    **PURE,
    "nls": lambda P: kw(P.M.moments.shrink_covariance_nls, P.R),
    "poet": lambda P: kw(P.M.moments.factor_covariance_poet, P.R, 1),
    "tyler": lambda P: kw(P.M.moments.robust_covariance_tyler, P.R, shrinkage=.3),
    "ewma": lambda P: kw(P.M.moments.covariance_ewma, P.R, span=3),
    "huber": lambda P: kw(P.M.moments.robust_mean_huber, P.R),
    "mom": lambda P: kw(P.M.moments.robust_mean_median_of_means, P.R, n_blocks=2, random_state=3),
    "estimate": lambda P: kw(P.M.moments.estimate_moments, P.R, P.p, mean_estimator="james_stein", cov_estimator="ewma", mean_kwargs={"target": P.mu0}, cov_kwargs={"span": 3}),
    "estimate_lw": lambda P: kw(P.M.moments.estimate_moments, P.R, mean_estimator="huber", cov_estimator="ledoit_wolf", mean_kwargs={"max_iter": 9}, cov_kwargs={"target": "identity"}),
    "psd_repair": lambda P: kw(P.M.utils__validation.ensure_psd_matrix, P.W0),
    "simulate": lambda P: kw(P.M.utils__projection.simulate_paths, P.R, 3, 6, p=P.p, seed=4),
    "projected": lambda P: kw(P.M.utils__projection.project_scenarios, P.R, 3, p=P.p, n_simulations=6, seed=4),
    "horizons": lambda P: kw(P.M.utils__performance.horizon_report, P.w, P.R, horizons=P.horizons, n_simulations=6, p=P.p, confidence=.7, seed=4),
    "drawdown": lambda P: kw(P.M.utils__performance.drawdown_quantile, P.w, P.R, 3, confidence=.7, n_paths=6, p=P.p, seed=4),
    "returns": lambda P: kw(P.M.utils__data_helpers.pandas_to_numpy_returns, P.prices),
    "composed": lambda P: kw(lambda R, d, cols: P.M.utils__projection.compose_repricers(d, cols)[0](R), P.R0,
                             {"x": (["B"], P.M.utils__projection.reprice_exp), "y": (["A", "C"], lambda z: z.sum(axis=-1)), "A": P.M.utils__projection.reprice_exp}, P.names),
    "black_litterman": lambda P: kw(lambda **k: P.M.views.BlackLittermanProcessor(**k).get_posterior(), prior_cov=P.cov, prior_mean=P.mu, mean_views=P.view, view_confidences=P.conf, omega="idzorek"),
    "bl_market": lambda P: kw(lambda **k: P.M.views.BlackLittermanProcessor(**k).get_posterior(), prior_cov=P.cov, market_weights=P.w, mean_views=P.view),
    "pooling": lambda P: kw(P.M.views.entropy_pooling, P.p2, P.Aep, P.bep, P.Gep, P.hep),
    "flexible": lambda P: kw(lambda R, p, **k: P.M.views.FlexibleViewsProcessor(R, p, **k).get_posterior_probabilities(), P.R, P.p, **views(P)),
    "flexible_seq": lambda P: kw(lambda R, p, **k: P.M.views.FlexibleViewsProcessor(R, p, sequential=True, **k).get_posterior(), P.R, P.p, **views(P)),
    "focus": lambda P: kw(P.M.stress.kernel_focus_stress, P.w, P.R, focus_series=P.p2, probabilities=P.p, target=.2, confidence=.7),
    "pooled_stress": lambda P: kw(P.M.stress.entropy_pooling_stress, P.w, P.R, posterior_probabilities=P.p2, probabilities=P.p, confidence=.7),
    "invariants": lambda P: kw(P.M.stress.stress_invariants, P.R, P.w, P.M.utils__projection.reprice_exp, horizon=2, n_simulations=6, seed=4, confidence=.7),
    "from_dict": lambda P: kw(lambda d: P.M.utils__constraints.Constraints.from_dict(d).to_matrices(P.n), {"long_only": True, "bounds": P.bounds, "additional_G_h": P.rows}),
    "mean_variance": lambda P: kw(lambda *a, **k: P.M.optimization.MeanVariance(*a, **k).efficient_frontier(3), P.mu0, P.cov0, P.Gn, P.hn, P.An, P.b, initial_weights=P.w0, market_impact_costs=P.cost),
    "sharpe": lambda P: kw(lambda *a, **k: P.M.optimization.MeanVariance(*a, **k).max_sharpe(-1.), P.mu0, P.cov0, P.Gn, P.hn, P.An, P.b),
    "mean_cvar": lambda P: kw(lambda *a, **k: P.M.optimization.MeanCVaR(*a, **k).efficient_frontier(3), P.R0, P.p2, .3, P.Gn, P.hn, P.An, P.b, initial_weights=P.w0, proportional_costs=P.cost),
    "robust": lambda P: kw(lambda *a, **k: P.M.optimization.RobustOptimizer(*a, **k).efficient_frontier(P.lams), P.mu0, P.cov0, P.Gn, P.hn, P.An, P.b, initial_weights=P.w0, proportional_costs=P.cost),
    "rrp": lambda P: kw(lambda *a, **k: P.M.optimization.RelaxedRiskParity(*a, **k).solve(), P.mu0, P.cov0, P.Gn, P.hn, P.An, P.b, risk_budgets=P.rb),
    "var_frontier": lambda P: kw(P.wrapper().variance_frontier, 3),
    "var_frontier_cost": lambda P: kw(P.wrapper("cost").variance_frontier, 3),
    "var_frontier_with": lambda P: kw(P.wrapper().variance_frontier, 3, constraints={"long_only": True, "bounds": P.bounds}),
    "cvar_frontier": lambda P: kw(P.wrapper().cvar_frontier, 3, alpha=.3),
    "cvar_frontier_seed": lambda P: kw(P.wrapper("mom").cvar_frontier, 3, alpha=.3, seed=2),
    "robust_frontier": lambda P: kw(P.wrapper("mom").robust_lambda_frontier, lambdas=P.lams, return_cov=P.cov),
    "min_var": lambda P: kw(P.wrapper().min_variance_at_return, -1.),
    "min_cvar": lambda P: kw(P.wrapper().min_cvar_at_return, -1., alpha=.3),
    "rrp_facade": lambda P: kw(P.wrapper("mom").relaxed_risk_parity_portfolio, lambda_reg=.2, risk_budgets=P.rb),
    "rrp_diag": lambda P: kw(P.wrapper("mom").relaxed_risk_parity_portfolio_with_diagnostics, lambda_reg=.2, risk_budgets=P.rb),
    "rrp_frontier": lambda P: kw(P.wrapper("mom").relaxed_risk_parity_frontier, 3, target_multipliers=[1., 1.2], risk_budgets=P.rb),
    "gamma": lambda P: kw(P.wrapper("mom").solve_robust_gamma_portfolio, 10., 10.),
    "from_prices": lambda P: kw(lambda *a, **k: P.M.portfolioapi.PortfolioWrapper.from_prices(*a, **k).variance_frontier(3), P.prices, constraints={"long_only": True}),
    "from_invariants": lambda P: kw(lambda *a, **k: P.M.portfolioapi.PortfolioWrapper.from_invariants(*a, **k).variance_frontier(3), P.R, horizon=2, n_simulations=8, p=P.p, reprice=P.M.utils__projection.reprice_exp, seed=4, constraints=P.cons),
    "from_posterior": lambda P: kw(lambda *a, **k: P.M.portfolioapi.PortfolioWrapper.from_robust_posterior(*a, **k).robust_lambda_frontier(lambdas=[0., 1.]), P.post(), constraints={"long_only": True}),
    "frontier_queries": lambda P: kw(lambda f: [f.min_risk(), f.max_return(), f.tangency(0.), f.at_percentile(.5), f.to_frame(P.idx), f.to_samples(columns=P.idx), f.risk_percentiles()], P.frontier()),
    "frontier_discrete": lambda P: kw(P.frontier().as_discrete_allocation, 1, dict(zip(P.frontier().asset_names or [f"Asset_{i}" for i in range(P.n)], [10., 7., 3.])), 100.),
    "mip": lambda P: kw(P.M.discrete_allocation.discretize_weights, P.wd, P.pd_, 100., method="milp", lot_sizes=P.lots, solver_options={"time_limit": 5.}),
    "stacking": lambda P: kw(P.M.ensembles.exposure_stacking, P.W, 2, solver_options={"abstol": 1e-9}),
    "stacked": lambda P: kw(P.M.ensembles.exposure_stack_frontiers, [P.frontier(), P.frontier()], L=2, selections=[[0], [2]]),
    "averaged": lambda P: kw(P.M.ensembles.average_frontiers, [P.frontier(), P.frontier()], [[0], [2]], ensemble_weights=P.two),
    "percentiles": lambda P: kw(P.M.ensembles.risk_percentile_selections, [P.frontier()], .5),
    "assembled": lambda P: ensemble(P, "selected"),
    "assembled_frontier": lambda P: ensemble(P, "frontier"),
    "spec": lambda P: kw(lambda **k: P.M.ensembles.assemble_portfolio_ensemble([P.M.ensembles.make_portfolio_spec("s", **k)], ensemble="average"), returns=P.prices.pct_change().dropna(),
                         projection={"annualization_factor": 12}, mean_estimator="james_stein", cov_estimator="ledoit_wolf", mean_kwargs={"target": P.mu0}, cov_kwargs={"target": "identity"},
                         optimiser="mean_variance", optimiser_kwargs={"num_portfolios": 3, "constraints": {"long_only": True}}, selector="tangency", selector_kwargs={"risk_free_rate": -1.}, metadata={"k": [1]}),
    "facade_spec": lambda P: kw(lambda w, **k: w.assemble_ensembles([w.make_ensemble_spec("s", **k)], ensemble="average"), P.wrapper("mom"), optimiser="mean_variance", optimiser_kwargs={"num_portfolios": 3},
                                selector="min_risk", selector_kwargs={}, metadata={"k": [1]}),
}


def late(P, S):
    """objects only the solver-based operations use"""
    x = P.R0[:, 0]
    P.Aep, P.bep = lay(S, np.ones((1, len(x))), P.how if P.how != "frame" else "C"), np.array([1.])
    P.Gep, P.hep = lay(S, x[None, :].copy(), P.how if P.how != "frame" else "C"), np.array([x.mean()])
    s = P.cov0 - 1.0000001 * np.linalg.eigvalsh(P.cov0)[0] * np.eye(P.n)
    P.W0 = lay(S, s, P.how if P.how not in ("frame", "list") else "C")


@contract("C17", funcs=["every public function"], cfgs=[{"op": o, "layout": l} for o in PURE if o not in ("ledoit_wolf", "stress", "exp_decay") for l in ("C", "F", "T", "window", "frame")], time_limit=20.0, max_paths=60, samples=1, cbudget=1.0)
def operation(S, M, op, layout):
    P = Pool(S, M, layout)
    f, a, k = PURE[op](P)
    S.call(f, *a, **k)


@contract("C17", modes="C", funcs=["every public function"], dims={"_": [1]}, cfgs=[{"op": o, "layout": l} for o in FULL for l in ("C", "F", "T", "window", "frame", "list")], samples=10, cbudget=40.0)
def layouts(S, M, op, layout):
    P = Pool(S, M, layout)
    late(P, S)
    f, a, k = FULL[op](P)
    S.twice(f, *a, **k)


@contract("C17", modes="C", funcs=["every public function"], dims={"_": [1]}, cfgs=[{"layout": l, "length": k} for l in ("C", "F", "T", "window", "frame") for k in (4, 8)], samples=60, cbudget=40.0)
def histories(S, M, layout, length):
    """operations that share their arguments, in any order: each gives again what it gave first"""
    P = Pool(S, M, layout)
    late(P, S)
    ops = sorted(FULL)
    seq = [ops[S.pick(f"op{i}", len(ops))] for i in range(length)]
    calls = {o: FULL[o](P) for o in seq}
    first = {}
    for o in seq + [seq[S.pick(f"again{i}", length)] for i in range(length)]:
        f, a, k = calls[o]
        r = S.once(f, *a, **k)
        if o in first:
            S.answer(o, first[o], r)
        else:
            first[o] = r
