#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
U = "pyvallocation/utils/"
prop("C01", "Declared portfolio constraints compile to exactly the declared feasible set",
 """A weight vector satisfies the compiled linear constraint system if and only if it satisfies every
 declaration the user made: long-only, global / per-asset / keyed bounds (a missing side meaning no limit),
 relative bounds, group limits, extra inequality and equality rows, and the budget.  Malformed declarations
 (out-of-range asset, wrong length, non-finite or non-numeric limit, lower above upper, self-relative bound)
 are rejected with an error instead of being dropped or reinterpreted, and building from a declaration object
 or from a plain dictionary gives the same system.""",
 ["inputs", "configurations"], "every number of assets, every combination and number of declarations, every real limit, every weight vector",
 "The tests build a handful of 2-4 asset systems and compare a few matrix entries; equality of two feasible sets quantifies over all weight vectors, asset counts and rule combinations.",
 [U + "constraints.py"],
 [("one row per declared side, signs and right-hand sides", U + "constraints.py:build_G_h_A_b"),
  ("typed declaration object and dictionary constructor", U + "constraints.py:Constraints")],
 ["build_G_h_A_b", "Constraints.to_matrices", "Constraints.from_dict"])
prop("C02", "Scenario probabilities are valid, proportional and follow their decay law",
 """Every probability vector the library accepts comes back non-negative, summing to one and proportional to what
 was supplied, and a vector that is empty, non-finite, negative, all-zero or of the wrong length is refused.
 Generated families obey their law exactly: uniform is constant, exponential decay halves every half-life going
 back in time and favours the newest observation, kernel weights are proportional to exp(-(v-x0)^2/(2h^2)).
 The effective number of scenarios is the exponential entropy (respectively the inverse sum of squares) of the vector.""",
 ["inputs"], "every number of scenarios, every real vector, half-life, bandwidth and reference point",
 "Tests check one or two vectors of length 3-5; the law is over all lengths and values.",
 ["pyvallocation/probabilities.py"],
 [("validation and division by the total", "pyvallocation/probabilities.py:normalize_probability_vector"),
  ("length check and default", "pyvallocation/probabilities.py:resolve_probabilities"),
  ("decay and kernel generators", "pyvallocation/probabilities.py:generate_exp_decay_probabilities, generate_gaussian_kernel_probabilities"),
  ("effective number of scenarios", "pyvallocation/probabilities.py:compute_effective_number_scenarios*")],
 ["normalize_probability_vector", "resolve_probabilities", "generate_*_probabilities"])
prop("C03", "Portfolio variance, VaR and CVaR equal their definitions",
 """For every weight vector and every weighted scenario set, reported variance is w'Cov w and volatility its square
 root, reported VaR is minus the lowest P&L at which cumulative probability reaches the tail mass, and reported
 CVaR is minus the mean of exactly the worst tail mass (the boundary scenario split), hence never below VaR.
 Optional demeaning subtracts the probability-weighted asset means; evaluating many portfolios at once gives the
 same numbers as evaluating each alone, with vector or matrix weights, and an out-of-range confidence level is refused.""",
 ["inputs"], "every number of assets, scenarios and portfolios, all real returns (ties included), all probability vectors, every confidence in (0,1)",
 "Tests use a few fixed scenario tables; ties at the quantile, non-uniform probabilities and boundary mass are measure-zero for sampled data.",
 [U + "functions.py"],
 [("quadratic form", U + "functions.py:portfolio_variance, portfolio_volatility"),
  ("sorted cumulative probability and boundary correction", U + "functions.py:portfolio_var, portfolio_cvar")],
 ["portfolio_variance", "portfolio_volatility", "portfolio_var", "portfolio_cvar"])
prop("C04", "Mean-variance portfolios solve the stated programme over the user's constraints",
 """A mean-variance portfolio minimises w'Cov w plus (when given) the quadratic impact cost (w-w0)'diag(k)(w-w0) over
 all weights that satisfy the user's inequalities and equalities and, if a return target is given, expected return at
 least the target.  A frontier starts at the minimum-risk portfolio and meets evenly spaced return targets up to the
 largest attainable return.  The maximum-Sharpe portfolio maximises (mean return - risk-free)/volatility over that same
 user-constrained set, and a run the solver does not certify as optimal raises instead of returning weights.""",
 ["inputs", "configurations"], "every number of assets, mean, positive definite covariance, constraint system, cost vector, target and risk-free rate",
 "Tests compare a few solved portfolios with expectations; that the programme given to the solver is the stated one for every constraint system needs an argument over all inputs.",
 ["pyvallocation/optimization.py"],
 [("quadratic programme assembly", "pyvallocation/optimization.py:MeanVariance.__init__, _solve_target, _quadratic_turnover"),
  ("return grid", "pyvallocation/optimization.py:_FrontierMixin._frontier, _max_expected_return"),
  ("homogenised tangency programme", "pyvallocation/optimization.py:MeanVariance.max_sharpe")],
 ["MeanVariance.efficient_portfolio", "MeanVariance.efficient_frontier", "MeanVariance.max_sharpe"])
prop("C05", "Mean-CVaR portfolios solve the stated linear programme over the user's constraints",
 """A mean-CVaR portfolio minimises the alpha-tail CVaR of the portfolio loss under the given scenario probabilities,
 plus proportional trading costs on |w-w0| when given, over all weights that satisfy the user's inequalities and
 equalities and, if a target is given, probability-weighted expected return at least the target.
 The frontier starts at the minimum-CVaR portfolio and meets evenly spaced return targets up to the largest attainable
 return, and a run the solver does not certify as optimal raises.""",
 ["inputs", "configurations"], "every number of assets and scenarios, all returns, probabilities, tail levels, constraint systems, costs and targets",
 "Tests solve a few fixed problems; equivalence of the assembled programme with the stated one quantifies over all data and all weight vectors.",
 ["pyvallocation/optimization.py"],
 [("tail linearisation, cost split and user rows", "pyvallocation/optimization.py:MeanCVaR.__init__, _linear_turnover_blocks"),
  ("target row", "pyvallocation/optimization.py:MeanCVaR._solve_target"),
  ("return grid", "pyvallocation/optimization.py:_FrontierMixin._frontier")],
 ["MeanCVaR.efficient_portfolio", "MeanCVaR.efficient_frontier"])
prop("C06", "Robust and relaxed-risk-parity portfolios solve the stated cone programmes",
 """A robust portfolio minimises -mu'w + penalty*sqrt(w'S w), plus proportional trading costs on |w-w0| when given, over
 the user's constraints, optionally with sqrt(w'S w) capped; its reported risk is sqrt(w'S w) and its reported return
 mu'w.  A relaxed risk parity portfolio minimises psi-gamma over long-only, fully invested, user-feasible weights with
 marginal risks Cov w, each weight times its marginal risk at least its budget times gamma^2, average risk w'Cov w/n + rho^2
 at most psi^2 and penalty lambda*w'diag(Cov)w at most rho^2, with an attainable return target enforced and an
 unattainable one clipped just below the maximum.""",
 ["inputs", "configurations"], "every number of assets, mean, positive definite scatter (not only diagonal), constraint system, costs, budgets, penalties and targets",
 "Tests only check feasibility and monotonicity on a few matrices; the cone actually imposed must be the stated one for every matrix.",
 ["pyvallocation/optimization.py", "pyvallocation/bayesian.py"],
 [("cone and linear block assembly", "pyvallocation/optimization.py:RobustOptimizer._solve_socp, RelaxedRiskParity.solve"),
  ("matrix square root", "pyvallocation/bayesian.py:_cholesky_pd"),
  ("attainable return", "pyvallocation/optimization.py:RelaxedRiskParity._max_linear_return")],
 ["RobustOptimizer.solve_lambda_variant", "RobustOptimizer.solve_gamma_variant", "RelaxedRiskParity.solve"])
prop("C07", "Frontier queries return the portfolio the query defines, with its own numbers",
 """Every query on a frontier (minimum risk, maximum return, tangency, at a risk limit, at a return floor, nearest risk, at a
 risk percentile) returns weights, return and risk that all belong to one and the same frontier column, and that column is
 an extremal one for the query among all columns, for whichever attached risk measure is named.  Labels and metadata stay
 with their column, a request no column can meet raises, and querying never changes the frontier.""",
 ["inputs", "histories"], "every frontier size and ordering, all return and risk values, every threshold, every attached risk label",
 "Tests use monotone toy frontiers of 3-5 columns; unsorted columns, ties, thresholds between columns and several risk labels are not explored.",
 ["pyvallocation/portfolioapi.py"],
 [("column selection", "pyvallocation/portfolioapi.py:PortfolioFrontier.min_risk, max_return, tangency, portfolio_at_risk, at_return, closest_risk, at_percentile"),
  ("frame views", "pyvallocation/portfolioapi.py:PortfolioFrontier.to_frame, to_samples")],
 ["PortfolioFrontier methods"])
prop("C08", "Portfolio facade passes the user's problem through and reports each result's true numbers",
 """Portfolios and frontiers produced by the high-level facade come from solving the user's own moments/scenarios, constraints,
 costs and targets; every reported return equals the asset means applied to the reported weights (net of the declared
 transaction cost where stated) and every reported risk equals the named measure of those same weights.
 Where a frontier's columns are reordered, its weights, returns, risks and metadata are permuted together, and constraint or
 parameter overrides of one call never change later calls.""",
 ["inputs", "configurations", "histories"], "every distribution, constraint set, cost vector, grid size and call sequence",
 "Tests check shapes and a few monotonicity facts on random data; that each reported number belongs to its column is a relation over all inputs.",
 ["pyvallocation/portfolioapi.py"],
 [("frontier assembly", "pyvallocation/portfolioapi.py:PortfolioWrapper.variance_frontier, cvar_frontier, robust_lambda_frontier, relaxed_risk_parity_frontier"),
  ("single portfolios", "pyvallocation/portfolioapi.py:PortfolioWrapper.min_variance_at_return, min_cvar_at_return, solve_robust_gamma_portfolio, relaxed_risk_parity_portfolio"),
  ("cost application and overrides", "pyvallocation/portfolioapi.py:PortfolioWrapper._apply_transaction_costs, _resolve_constraints")],
 ["PortfolioWrapper methods"])
prop("C09", "Bayesian mean/covariance update and credibility sets follow their formulas",
 """The normal-inverse-Wishart update returns T1 = T0+T, nu1 = nu0+T, mu1 = (T0 mu0 + T mu)/T1 and
 Sigma1 = (nu0 Sigma0 + T Sigma + (T0 T/T1)(mu-mu0)(mu-mu0)')/nu1, the reported mean-uncertainty scatter, classical-equivalent
 estimates and credibility radii are the stated functions of those, and the radius grows with confidence.
 Matrix square roots satisfy L L' = S, horizon and log/simple conversions of the mean uncertainty are consistent with the
 underlying moments, and asset labels are preserved; degrees of freedom or matrices outside the model's domain are refused.""",
 ["inputs"], "every dimension, prior and sample moments, prior weights, sample size, confidence level and horizon",
 "Tests evaluate a few 2-3 asset cases; the identities must hold for all parameter values, including off-diagonal and mean-difference terms that vanish in simple fixtures.",
 ["pyvallocation/bayesian.py"],
 [("posterior update", "pyvallocation/bayesian.py:NIWPosterior.update"),
  ("scatter, classical-equivalent moments, radii", "pyvallocation/bayesian.py:NIWPosterior.get_mu_ce, get_S_mu, get_sigma_ce, cred_radius_mu, cred_radius_sigma_factor"),
  ("posterior container and horizon projections", "pyvallocation/bayesian.py:RobustBayesPosterior"),
  ("matrix square root and quantile", "pyvallocation/bayesian.py:_cholesky_pd, chi2_quantile")],
 ["NIWPosterior", "RobustBayesPosterior"])
prop("C10", "Black-Litterman posterior equals the conditional-Gaussian formula for the stated views",
 """The posterior mean and covariance equal the Gaussian update of the prior pi (given, or implied by reverse optimisation of
 the normalised market weights) with scatter tau*Sigma by the views P mu = Q with
 uncertainty Omega, where each absolute or relative view becomes exactly its own row and value; without views the prior is returned.
 Omega follows its rule (diagonal of P tau Sigma P', given vector/matrix, or per-view confidence c giving (1-c)/c times the view's prior
 variance, full confidence meaning the view is met up to the documented 1e-6 clip), asset labels are honoured in every input, and the caller's inputs are left unchanged.""",
 ["inputs", "configurations"], "every number of assets and views, prior, covariance, tau, market weights, confidences, labelled and unlabelled inputs",
 "Tests check a couple of single-view 2-3 asset cases; sign, row and label errors for relative or multiple views need all-input reasoning.",
 ["pyvallocation/views.py"],
 [("prior sources", "pyvallocation/views.py:BlackLittermanProcessor.__init__"),
  ("view rows", "pyvallocation/views.py:BlackLittermanProcessor._build_views"),
  ("view uncertainty", "pyvallocation/views.py:BlackLittermanProcessor._build_omega"),
  ("posterior", "pyvallocation/views.py:BlackLittermanProcessor._compute_posterior")],
 ["BlackLittermanProcessor.get_posterior"])
prop("C11", "Entropy-pooling views are encoded and solved as stated",
 """Posterior scenario probabilities are positive, sum to one and minimise relative entropy to the prior among probability
 vectors satisfying the supplied moment equalities and inequalities; the dual objective and its gradient are exact.
 A declared view on a mean or mean difference, a mean ranking, a volatility, variance, skewness, correlation, quantile or CVaR (equality,
 one-sided or range) is turned into exactly the linear probability constraint it states on the named asset (moment views of higher order at the
 current means and variances), the reported posterior satisfies the constraints of all declared views together, and reported moments are
 those of that posterior; malformed views and unattainable systems raise, and caller-supplied view containers are not modified.""",
 ["inputs", "configurations"], "every scenario table, prior, view kind, operator, target and combination",
 "Tests check a few views to loose tolerance on random scenarios; constraint encodings and gradients must be exact for all tables.",
 ["pyvallocation/views.py"],
 [("dual objective and gradient", "pyvallocation/views.py:_entropy_pooling_dual_objective"),
  ("primal recovery", "pyvallocation/views.py:entropy_pooling"),
  ("view parsing and constraint rows", "pyvallocation/views.py:FlexibleViewsProcessor._parse_view, _build_constraints"),
  ("tail views", "pyvallocation/views.py:FlexibleViewsProcessor._solve_cvar_view")],
 ["entropy_pooling", "FlexibleViewsProcessor.get_posterior", "FlexibleViewsProcessor.get_posterior_probabilities"])
prop("C12", "Moment estimators return symmetric, labelled, correctly weighted estimates",
 """The sample estimator returns the probability-weighted mean and the matching central second moment; every shrinkage or
 robust estimator returns a symmetric covariance and a mean that are the stated combination of the sample moments and its
 target, with shrinkage intensity inside [0,1].  Exponentially weighted estimates satisfy their recursion, asset labels of labelled
 inputs come back on every output, and results do not depend on the order of assets beyond relabelling.""",
 ["inputs", "configurations"], "every scenario table, probability vector, intensity, half-life/span and estimator choice",
 "Tests check shape, symmetry and PSD on random data; exact combination formulas and label order are not sampled.",
 ["pyvallocation/moments.py"],
 [("sample moments", "pyvallocation/moments.py:estimate_sample_moments"),
  ("shrinkage", "pyvallocation/moments.py:shrink_mean_jorion, shrink_covariance_ledoit_wolf, shrink_covariance_oas, james_stein_mean"),
  ("exponential weighting", "pyvallocation/moments.py:ewma_covariance"),
  ("dispatch", "pyvallocation/moments.py:estimate_moments")],
 ["estimate_moments", "estimate_sample_moments", "shrink_*"])
prop("C13", "Projection and repricing are consistent and invertible",
 """Horizon projection scales mean and covariance linearly; simple/compound scenario conversion and log/simple moment conversion are mutually
 inverse and match the log-normal formulas; projected scenarios and simulated paths are sums of whole historical rows drawn jointly with the
 given probabilities, the path end equalling its cumulated steps.  Repricing functions return exp(x)-1 for exponential assets and the stated
 delta/gamma/carry expansion otherwise, composition maps each asset through its own function in order, and labels are kept.""",
 ["inputs", "configurations"], "every vector/matrix size, horizon, probability vector, seed and repricing specification",
 "Tests evaluate small arrays; inverse identities and joint resampling are for-all statements.",
 [U + "projection.py"],
 [("conversions", U + "projection.py:log2simple, simple2log, convert_scenarios_*"),
  ("bootstrap projection", U + "projection.py:project_scenarios, simulate_paths"),
  ("repricing", U + "projection.py:reprice_exp, reprice_taylor, make_repricing_fn, compose_repricers")],
 ["projection functions"])
prop("C14", "Stress tests and performance reports evaluate the portfolio they are given",
 """Scenario P&L is the sum over assets of weight times return with weights matched to assets by label whenever both sides carry
 labels (never by position), and reported mean, volatility, VaR, CVaR, effective scenario number and drawdown figures are those of that P&L
 under the stated probabilities.  A stress report's nominal, stressed and difference columns are each computed with the same
 weights and with the prior respectively stressed probabilities/scenarios, and its divergence is the relative entropy between
 them; inputs are left unchanged.""",
 ["inputs", "configurations"], "every scenario table, probability pair, weight container (array, series in any order, mapping, frame) and transformation",
 "Tests use label orders that coincide with position order and a few numbers; permuted labels and non-uniform probabilities for every report field are not explored.",
 ["pyvallocation/stress.py", U + "performance.py"],
 [("weight alignment", "pyvallocation/stress.py:_align_weights; " + U + "performance.py:scenario_pnl"),
  ("stress comparisons", "pyvallocation/stress.py:stress_test, stress_invariants, linear_map"),
  ("report statistics", U + "performance.py:performance_report, horizon_report, drawdown_quantile")],
 ["stress_test", "exp_decay_stress", "stress_invariants", "performance_report", "scenario_pnl"])
prop("C15", "Ensembles combine portfolios as label-aligned convex combinations",
 """An averaged exposure is the normalised weighted average of the supplied portfolios, stacked exposures are a convex combination of them
 that minimises the stated fold-wise objective, and labelled portfolios are
 combined asset by asset: a different label order is either aligned or refused, never added position by position.
 Combining portfolios that share a budget keeps it, averaging a single portfolio or combining identical ones returns it unchanged, negative or otherwise invalid combination weights are
 refused, and a specification can be evaluated repeatedly with identical results.""",
 ["inputs", "configurations", "histories"], "every number of portfolios and assets, every combination weight, fold count, asset-name order and repeated use",
 "Tests use aligned name orders and a few weights, and evaluate each specification once.",
 ["pyvallocation/ensembles.py", U + "weights.py"],
 [("averaging", "pyvallocation/ensembles.py:average_exposures, average_frontiers"),
  ("stacking programme", "pyvallocation/ensembles.py:exposure_stacking"),
  ("name merge and spec closures", "pyvallocation/ensembles.py:_merge_asset_names, make_portfolio_spec, assemble_portfolio_ensemble")],
 ["average_exposures", "exposure_stacking", "average_frontiers", "assemble_portfolio_ensemble"])
prop("C16", "Discrete allocation never overspends and reports exactly what it bought",
 """For every weights/prices/value/lot-size input the returned whole-share position is an integer multiple of each asset's lot size, costs no more than the
available value (short sales, when targets have shorts, finance purchases; each such position stays within total value plus target gross exposure), long-only
targets give no short position, and leftover cash plus the position's market value equals the total value (up to a 1e-8 noise guard on the reported cash).
Achieved weights and tracking error are computed from that same position and the normalised targets; the mixed-integer method
minimises absolute value deviation plus penalised cash over all such positions, up to the solver's gap; a greedy purchase is only ever of an affordable lot.
Unusable inputs (missing, non-finite or non-positive price, non-positive value, non-positive or fractional lot size, duplicated assets, no positive net weight)
are refused, and a failed programme is never reported as an allocation.""",
 ["inputs", "configurations"], "every number of assets, weights, prices, portfolio value, lot sizes, iteration cap and method; every iteration of the greedy loop",
 "Tests run a few baskets; the budget and lot invariants must hold at every loop iteration for all prices and lots.",
 ["pyvallocation/discrete_allocation.py"],
 [("validated input", "pyvallocation/discrete_allocation.py:DiscreteAllocationInput"),
  ("floor pass and top-up loop", "pyvallocation/discrete_allocation.py:allocate_greedy"),
  ("integer programme", "pyvallocation/discrete_allocation.py:allocate_mip"),
  ("reporting", "pyvallocation/discrete_allocation.py:_build_result")],
 ["discretize_weights", "allocate_greedy", "allocate_mip"])
prop("C17", "Calls never modify the caller's arrays, series or configuration objects",
 """No public computation changes any array, series, frame, mapping or sequence passed to it by the caller, so calling twice with the same objects gives
 the same answer as the first time.""",
 ["inputs", "histories"], "every public function of the numerical core, every mutable argument, repeated calls",
 "Tests do not compare arguments before and after; aliasing only shows when an input already has the internal dtype/layout.",
 ["pyvallocation/probabilities.py", "pyvallocation/moments.py", "pyvallocation/views.py", "pyvallocation/bayesian.py", "pyvallocation/stress.py",
  "pyvallocation/ensembles.py", "pyvallocation/discrete_allocation.py", "pyvallocation/portfolioapi.py", "pyvallocation/optimization.py",
  U + "projection.py", U + "performance.py", U + "functions.py", U + "weights.py", U + "validation.py"],
 [("no in-place update of aliased inputs", "all modules: np.asarray aliasing sites")],
 ["all public functions"])
prop("C18", "Distributions and input coercion keep values and labels aligned",
 """A distribution object holds exactly the moments, scenarios, probabilities and asset names it was given, in one consistent asset order, with
 probabilities normalised; inconsistent dimensions, names, lengths or invalid probabilities are refused.  Weight normalisation,
 sample coercion and return-table conversion map each labelled value to its own asset, are idempotent, and covariance repair
 returns a symmetric positive-semidefinite matrix that leaves an already valid one unchanged.""",
 ["inputs", "configurations"], "every dimension, every mix of labelled and unlabelled inputs, every label order",
 "Tests cover a few matching fixtures; mismatched or permuted labels across combined inputs are not explored.",
 ["pyvallocation/portfolioapi.py", U + "weights.py", U + "validation.py", U + "data_helpers.py"],
 [("distribution validation", "pyvallocation/portfolioapi.py:AssetsDistribution"),
  ("weight/sample coercion", U + "weights.py:normalize_weights, ensure_samples_matrix"),
  ("covariance repair", U + "validation.py:ensure_psd_matrix"),
  ("factories", "pyvallocation/portfolioapi.py:PortfolioWrapper.from_moments, from_scenarios")],
 ["AssetsDistribution", "normalize_weights", "ensure_samples_matrix", "ensure_psd_matrix"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
