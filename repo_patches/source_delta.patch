From b92539996c33b736a7f436d948fcb1ba39ac716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 01/57] fix: compile integer-valued limits to floating-point h,
 as the solvers require

---
 pyvallocation/utils/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index c5bc199..0084e05 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -361,7 +361,7 @@ def build_G_h_A_b(
 
     G = _stack(G_rows)
     h = (
-        np.asarray(h_vals)
+        np.asarray(h_vals, float)
         if h_vals
         else (None if return_none_if_empty else np.zeros(0))
     )
-- 
2.43.0


From 708d4da70e1939ebd87ccca99abfa9894eac8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 02/57] fix: portfolio_var accepts labelled weight matrices
 like portfolio_cvar

---
 pyvallocation/utils/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 3a49518..3e9395f 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -146,7 +146,7 @@ def portfolio_var(
         R_arr = R_arr - p.T @ R_arr
 
     with np.errstate(over='ignore', under='ignore', invalid='ignore', divide='ignore'):
-        pf_pnl = R_arr @ w
+        pf_pnl = R_arr @ _ensure_weights_matrix(w)
     if pf_pnl.ndim == 1:
         pf_pnl = pf_pnl.reshape(-1, 1)
 
-- 
2.43.0


From 2c57e2859fd53af3af25a1ebd6d38dc883d41196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 03/57] fix: robust SOC block uses L' so that its norm is
 sqrt(w'S w)

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..983d67b 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -868,7 +868,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T  # S = L L' => ||S^{1/2}w|| = ||L'w||
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From 32d82c28bfb8a7eddf43379f46001d63262da2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 04/57] fix: robust optimiser with proportional costs built a
 ragged objective and crashed

---
 pyvallocation/optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 983d67b..39990ff 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -862,7 +862,11 @@ class RobustOptimizer(_BaseOptimization):
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
         c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
+            (
+                -self._mean,
+                penalty,
+                np.concatenate((self._costs, self._costs)) if self._has_costs else [],
+            )
         )
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
-- 
2.43.0


From 54f46e6e2887e437633f78423cab327cfabc2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 05/57] fix: relaxed risk parity average-risk cone uses L' so
 that its norm is sqrt(x'Cov x)

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 39990ff..4e7dd03 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1149,7 +1149,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T  # cov = L L' => x'cov x = ||L'x||^2
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
-- 
2.43.0


From 762219b69888977b9624d4bfcd7c061d7f91938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 06/57] fix: robust optimiser reports the radius of its
 weights, not a possibly slack epigraph variable

---
 pyvallocation/optimization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 4e7dd03..5707fdb 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -937,8 +937,11 @@ class RobustOptimizer(_BaseOptimization):
         )
         self._assert_optimal(sol, "SOCP")
         x = np.asarray(sol["x"]).ravel()
-        w, t = x[:n], x[n]
-        return OptimizationResult(w, float(self._mean @ w), float(t))
+        w = x[:n]
+        # The epigraph variable t is only tight for a positive penalty; report the
+        # radius of the returned weights themselves.
+        radius = float(np.linalg.norm(self._s_sqrt.T @ w))
+        return OptimizationResult(w, float(self._mean @ w), radius)
 
 
 # =================================================================== #
-- 
2.43.0


From cb2f4242f8dac3ffd69ea154ee92f5040cb18ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 07/57] fix: relaxed risk parity maximum return honours the
 implicit budget next to user equalities

---
 pyvallocation/optimization.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 5707fdb..135d75d 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1293,11 +1293,14 @@ class RelaxedRiskParity(_BaseOptimization):
         h_lp_vals.append(np.zeros(n, dtype=float))
         G_lp = np.vstack(G_lp_rows)
         h_lp = np.hstack(h_lp_vals)
-        if A_user is None:
-            A_lp = np.ones((1, n), dtype=float)
-            b_lp = np.array([1.0], dtype=float)
-        else:
+        budget_row = np.ones((1, n), dtype=float)
+        if A_user is None or not A_user.size:
+            A_lp, b_lp = budget_row, np.array([1.0], dtype=float)
+        elif any(np.allclose(row, budget_row[0], atol=1e-8, rtol=1e-8) for row in A_user):
             A_lp, b_lp = A_user, b_user
+        else:  # same implicit budget as in ``solve``
+            A_lp = np.vstack((budget_row, A_user))
+            b_lp = np.hstack((1.0, b_user))
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From 071866270f1995a00536e8e8be3f827428e8cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 08/57] fix: max_sharpe enforces the user's non-homogeneous
 limits and equalities

---
 pyvallocation/optimization.py | 79 +++++++++++++++++------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 135d75d..97f7ac0 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -447,11 +447,13 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
         .. math::
 
-           \min_{y}\; y^\top \Sigma\, y
+           \min_{y,\kappa}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           \mu^\top y - r_f\,\kappa = 1,\; G\,y \le \kappa\,h,\;
+           A\,y = \kappa\,b,\; \kappa \ge 0
 
-        The optimal weights are ``w = y / \mathbf{1}^\top y``.
+        The optimal weights are ``w = y / \kappa``.  When the equalities contain
+        no budget row, full investment (``\mathbf{1}^\top y = \kappa``) is imposed.
 
         Args:
             risk_free_rate: Risk-free rate for Sharpe computation.
@@ -459,55 +461,50 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         Returns:
             OptimizationResult: Optimal weights, return, and volatility.
         """
-        mu_excess = np.asarray(self._mean).ravel() - risk_free_rate
         N = self._I
+        mu = np.asarray(self._mean, dtype=float).ravel()
 
-        # Build the auxiliary problem: min y'Σy s.t. (μ-rf)'y = 1
-        P = matrix(2.0 * np.asarray(self._cov, dtype=float))
-        q = matrix(np.zeros(N))
+        # Variables z = (y, kappa) with w = y / kappa: min y'Σy s.t. μ'y - rf κ = 1
+        P_np = np.zeros((N + 1, N + 1))
+        P_np[:N, :N] = 2.0 * np.asarray(self._cov, dtype=float)
+        P, q = matrix(P_np), matrix(np.zeros(N + 1))
 
-        # Equality: (μ-rf)'y = 1  +  any user equalities scaled to 0
-        A_rows = [mu_excess.reshape(1, -1)]
-        b_vals = [1.0]
+        A_rows = [np.append(mu, -risk_free_rate).reshape(1, -1)]
+        has_budget = False
         if self._A is not None:
-            # User equalities become homogeneous: A y = 0 (since we normalize later).
-            # Non-homogeneous constraints (b != 0) cannot be enforced in this
-            # reformulation (Cornuejols-Tutuncu) and are skipped with a warning.
-            A_np = np.asarray(self._A)
-            b_np = np.asarray(self._b).ravel()
-            for row_idx in range(A_np.shape[0]):
-                if not np.isclose(b_np[row_idx], 0.0, atol=1e-12):
-                    _LOGGER.warning(
-                        "max_sharpe: equality b[%d]=%.4g is non-homogeneous; "
-                        "skipping (cannot be enforced in Cornuejols-Tutuncu "
-                        "reformulation).",
-                        row_idx, b_np[row_idx],
-                    )
-                    continue
-                A_rows.append(A_np[row_idx:row_idx+1])
-                b_vals.append(0.0)
-
+            A_np = np.asarray(self._A, dtype=float)
+            b_np = np.asarray(self._b, dtype=float).reshape(-1, 1)
+            A_rows.append(np.hstack((A_np, -b_np)))
+            has_budget = any(
+                abs(row[0]) > 1e-12 and np.allclose(row, row[0]) for row in A_np
+            )
+        if not has_budget:
+            A_rows.append(np.append(np.ones(N), -1.0).reshape(1, -1))
         A_mat = matrix(np.vstack(A_rows))
-        b_vec = matrix(np.array(b_vals, dtype=float))
+        b_vec = matrix(np.append(1.0, np.zeros(A_mat.size[0] - 1)))
 
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        # Inequalities: G y <= h kappa and kappa >= 0
+        G_rows = [np.append(np.zeros(N), -1.0).reshape(1, -1)]
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
-        else:
-            G_mat = None
-            h_vec = None
-
-        sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+            G_np = np.asarray(self._G, dtype=float)
+            h_np = np.asarray(self._h, dtype=float).reshape(-1, 1)
+            G_rows.append(np.hstack((G_np, -h_np)))
+        G_mat = matrix(np.vstack(G_rows))
+        h_vec = matrix(np.zeros(G_mat.size[0]))
+
+        try:
+            sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+        except ValueError as exc:  # CVXOPT: numerically infeasible / rank deficient
+            raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.") from exc
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
-        y = np.asarray(sol["x"]).ravel()
-        y_sum = y.sum()
-        if abs(y_sum) < 1e-12:
-            raise InfeasibleOptimizationError("Max Sharpe portfolio has zero weight sum (degenerate).")
+        z = np.asarray(sol["x"]).ravel()
+        y, kappa = z[:N], z[N]
+        if kappa < 1e-12:
+            raise InfeasibleOptimizationError("Max Sharpe portfolio is unbounded (degenerate).")
 
-        w = y / y_sum
+        w = y / kappa
         ret = float(np.dot(np.asarray(self._mean).ravel(), w))
         risk = float(np.sqrt(w @ np.asarray(self._cov, dtype=float) @ w))
         return OptimizationResult(weights=w, nominal_return=ret, risk=risk)
-- 
2.43.0


From 66f3c1273e7d87a018381b1bf9cbf21d2c2837ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 09/57] fix: facade reports the signed CVaR instead of its
 absolute value

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..0c9e208 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,8 +780,8 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
-                    np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
+                alt[f"CVaR ({int(confidence*100)}%)"] = np.asarray(
+                    portfolio_cvar(weights, scen, probs, confidence=confidence)
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
                 logger.debug("CVaR overlay skipped: %s", exc)
@@ -1371,7 +1371,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1538,7 +1538,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1664,7 +1664,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From cb00dc991696df957ad7be5e540841cd07577a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 10/57] fix: labelled transaction costs are matched to assets
 by label

---
 pyvallocation/portfolioapi.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c9e208..0c1a4cf 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1111,27 +1111,37 @@ class PortfolioWrapper:
             bounds=bounds,
         )
 
+    def _align_to_assets(self, values):
+        """Order a labelled cost input by asset name; unlabelled inputs stay positional."""
+        names = self.dist.asset_names
+        if isinstance(values, pd.Series) and names is not None and not isinstance(values.index, pd.RangeIndex):
+            missing = [name for name in names if name not in values.index]
+            if missing or len(values) != len(names):
+                raise ValueError(f"Transaction cost labels must match the asset names; missing {missing}.")
+            return values.loc[names]
+        return values
+
     def _apply_transaction_costs(self, costs: TransactionCosts) -> None:
         """Set transaction cost attributes from a :class:`TransactionCosts` instance.
 
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.asarray(costs.initial_weights, dtype=float).ravel()
+        iw = np.asarray(self._align_to_assets(costs.initial_weights), dtype=float).ravel()
         if iw.shape != (self.dist.N,):
             raise ValueError(
                 f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
             )
         self.initial_weights = iw
         if costs.market_impact_costs is not None:
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel()
+            mic = np.asarray(self._align_to_assets(costs.market_impact_costs), dtype=float).ravel()
             if mic.shape != (self.dist.N,):
                 raise ValueError(
                     f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
                 )
             self.market_impact_costs = mic
         if costs.proportional_costs is not None:
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel()
+            pc = np.asarray(self._align_to_assets(costs.proportional_costs), dtype=float).ravel()
             if pc.shape != (self.dist.N,):
                 raise ValueError(
                     f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
@@ -1165,9 +1175,9 @@ class PortfolioWrapper:
                 G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
-            iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel() if costs.market_impact_costs is not None else None
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel() if costs.proportional_costs is not None else None
+            iw = np.asarray(self._align_to_assets(costs.initial_weights), dtype=float).ravel()
+            mic = np.asarray(self._align_to_assets(costs.market_impact_costs), dtype=float).ravel() if costs.market_impact_costs is not None else None
+            pc = np.asarray(self._align_to_assets(costs.proportional_costs), dtype=float).ravel() if costs.proportional_costs is not None else None
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
-- 
2.43.0


From b51b05155a4b0287d4ea82e4a072d7091bfcb01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 11/57] fix: per-call transaction costs are checked against the
 number of assets

---
 pyvallocation/portfolioapi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c1a4cf..3a2872b 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1178,6 +1178,9 @@ class PortfolioWrapper:
             iw = np.asarray(self._align_to_assets(costs.initial_weights), dtype=float).ravel()
             mic = np.asarray(self._align_to_assets(costs.market_impact_costs), dtype=float).ravel() if costs.market_impact_costs is not None else None
             pc = np.asarray(self._align_to_assets(costs.proportional_costs), dtype=float).ravel() if costs.proportional_costs is not None else None
+            for label, arr in (("initial_weights", iw), ("market_impact_costs", mic), ("proportional_costs", pc)):
+                if arr is not None and arr.shape != (self.dist.N,):
+                    raise ValueError(f"`{label}` must have shape ({self.dist.N},), got {arr.shape}")
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
-- 
2.43.0


From fa2eb18c2499f8fed6fe1bd668847396857ba184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 12/57] fix: a riskless portfolio reports zero volatility
 instead of NaN when rounding makes its variance negative

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 3a2872b..24e1237 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1331,7 +1331,7 @@ class PortfolioWrapper:
         weights = optimizer.efficient_frontier(num_portfolios)
         mu_r, cov_r = self._report_mu_cov()
         returns = mu_r @ weights
-        risks = np.sqrt(np.sum((weights.T @ cov_r) * weights.T, axis=1))
+        risks = np.sqrt(np.maximum(np.sum((weights.T @ cov_r) * weights.T, axis=1), 0.0))
 
         alternate_risks = self._cvar_overlay(weights)
 
@@ -1389,7 +1389,7 @@ class PortfolioWrapper:
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
             cov = np.cov(scenarios.T, aweights=probs, bias=True)
-            vols = np.sqrt(np.sum((weights.T @ cov) * weights.T, axis=1))
+            vols = np.sqrt(np.maximum(np.sum((weights.T @ cov) * weights.T, axis=1), 0.0))
             alternate_risks["Volatility"] = vols
         except Exception as exc:  # pragma: no cover - defensive convenience
             logger.debug("Unable to compute volatility proxy for CVaR frontier: %s", exc)
@@ -1531,7 +1531,7 @@ class PortfolioWrapper:
                     cov_ref = np.asarray(cov_ref, dtype=float)
                 if cov_ref.shape != (weights_arr.shape[0], weights_arr.shape[0]):
                     raise ValueError("`return_cov` must be a square matrix matching asset count.")
-                vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
+                vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1), 0.0))
                 alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1546,7 +1546,7 @@ class PortfolioWrapper:
                 )
                 if "Volatility" not in alternate_risks:
                     cov = np.cov(scen.T, aweights=probs, bias=True)
-                    vols = np.sqrt(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1))
+                    vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1), 0.0))
                     alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1621,7 +1621,7 @@ class PortfolioWrapper:
 
         mu_r, cov_r = self._report_mu_cov()
         actual_return = mu_r @ weights
-        risk = np.sqrt(weights.T @ cov_r @ weights)
+        risk = np.sqrt(np.maximum(weights.T @ cov_r @ weights, 0.0))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"MV Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From 6b90f8aea0a4ed1c10c992fe9f9f2b5a9a96af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 13/57] fix: NIW posterior keeps fractional pseudo-counts
 instead of truncating them

---
 pyvallocation/bayesian.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..ea3b23a 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -285,8 +285,8 @@ class NIWPosterior:
 
         _ = _cholesky_pd(self.prior_sigma)  # Ensure prior_sigma is PD or near-PD
 
-        self.t0: int = int(t0)
-        self.nu0: int = int(nu0)
+        self.t0: float = t0
+        self.nu0: float = nu0
         self._posterior: Optional[NIWParams] = None
 
     @property
@@ -633,10 +633,10 @@ class RobustBayesPosterior:
         niw = NIWPosterior(
             prior_mu=prior_mu,
             prior_sigma=prior_sigma,
-            t0=int(t0),
-            nu0=int(nu0),
+            t0=t0,
+            nu0=nu0,
         )
-        niw.update(sample_mu=sample_mu, sample_sigma=sample_sigma, n_obs=int(n_obs))
+        niw.update(sample_mu=sample_mu, sample_sigma=sample_sigma, n_obs=n_obs)
         return cls(
             mu=niw.get_mu_ce(),
             sigma=niw.get_sigma_ce(),
-- 
2.43.0


From a69fd19f17685adbfbb5b0e3c45fccdb09383e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 14/57] fix: NIW update refuses sample moments whose labels
 differ from the prior's

---
 pyvallocation/bayesian.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index ea3b23a..91a24b1 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -267,10 +267,9 @@ class NIWPosterior:
                 # If prior_mu was not pandas but prior_sigma is, infer index
                 self._pandas = True
                 self._asset_index = prior_sigma.index.copy()
-            else:
-                # Ensure indices match
-                if not prior_sigma.index.equals(self._asset_index) or not prior_sigma.columns.equals(self._asset_index):
-                    raise ValueError("Index/columns of prior_sigma must match index of prior_mu.")
+            # Ensure indices match
+            if not prior_sigma.index.equals(self._asset_index) or not prior_sigma.columns.equals(self._asset_index):
+                raise ValueError("Index/columns of prior_sigma must match index of prior_mu.")
             self.prior_sigma: npt.NDArray[np.floating] = prior_sigma.values.astype(float)
         else:
             self.prior_sigma = np.asarray(prior_sigma, dtype=float)
@@ -352,6 +351,8 @@ class NIWPosterior:
 
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
+            if self._asset_index is not None and not sample_mu.index.equals(self._asset_index):
+                raise ValueError("Index of sample_mu must match the prior's asset labels.")
             smu = sample_mu.values.astype(float)
         else:
             smu = np.asarray(sample_mu, dtype=float)
@@ -363,6 +364,10 @@ class NIWPosterior:
             raise ValueError("`n_obs` (number of observations) must be strictly positive.")
 
         if isinstance(sample_sigma, pd.DataFrame):
+            if self._asset_index is not None and not (
+                sample_sigma.index.equals(self._asset_index) and sample_sigma.columns.equals(self._asset_index)
+            ):
+                raise ValueError("Index/columns of sample_sigma must match the prior's asset labels.")
             ssigma = sample_sigma.values.astype(float)
         else:
             ssigma = np.asarray(sample_sigma, dtype=float)
-- 
2.43.0


From 65c5cc951f05a56f48c8ba3abfb618b9d827ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 15/57] fix: return covariance scales linearly with the horizon
 in the exact simple-return Jacobian

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 91a24b1..e6eaeb0 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -763,7 +763,7 @@ class RobustBayesPosterior:
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
-            sigma_log = sigma_np * (annualization_factor ** 2)
+            sigma_log = sigma_np * annualization_factor
             scale = np.exp(mu_log + 0.5 * np.diag(sigma_log))
         else:
             scale = np.exp(mu_log)
-- 
2.43.0


From fd427feb010203178a4d126250254342f648a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 16/57] fix: NIW posterior-moment helpers keep fractional
 pseudo-counts instead of truncating them

---
 pyvallocation/moments.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..09a9408 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1122,11 +1122,11 @@ def posterior_moments_niw(
     *,
     prior_mu: ArrayLike,
     prior_sigma: ArrayLike,
-    t0: int,
-    nu0: int,
+    t0: float,
+    nu0: float,
     sample_mu: ArrayLike,
     sample_sigma: ArrayLike,
-    n_obs: int,
+    n_obs: float,
 ) -> Tuple[ArrayLike, ArrayLike]:
     """Return NIW posterior classical-equivalent (mu, Sigma).
 
@@ -1147,13 +1147,13 @@ def posterior_moments_niw(
     niw = NIWPosterior(
         prior_mu=prior_mu,
         prior_sigma=prior_sigma,
-        t0=int(t0),
-        nu0=int(nu0),
+        t0=t0,
+        nu0=nu0,
     )
     niw.update(
         sample_mu=sample_mu,
         sample_sigma=sample_sigma,
-        n_obs=int(n_obs),
+        n_obs=n_obs,
     )
     return niw.get_mu_ce(), niw.get_sigma_ce()
 
@@ -1162,11 +1162,11 @@ def posterior_moments_niw_with_uncertainty(
     *,
     prior_mu: ArrayLike,
     prior_sigma: ArrayLike,
-    t0: int,
-    nu0: int,
+    t0: float,
+    nu0: float,
     sample_mu: ArrayLike,
     sample_sigma: ArrayLike,
-    n_obs: int,
+    n_obs: float,
 ) -> Tuple[ArrayLike, ArrayLike, ArrayLike]:
     """Return NIW posterior moments plus mean-uncertainty covariance.
 
@@ -1182,13 +1182,13 @@ def posterior_moments_niw_with_uncertainty(
     niw = NIWPosterior(
         prior_mu=prior_mu,
         prior_sigma=prior_sigma,
-        t0=int(t0),
-        nu0=int(nu0),
+        t0=t0,
+        nu0=nu0,
     )
     niw.update(
         sample_mu=sample_mu,
         sample_sigma=sample_sigma,
-        n_obs=int(n_obs),
+        n_obs=n_obs,
     )
     return niw.get_mu_ce(), niw.get_sigma_ce(), niw.get_S_mu()
 
-- 
2.43.0


From 8f64529e36797cd4407676da8010d9df1879f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 17/57] fix: NIW covariance inputs with NaN or infinite entries
 are refused

---
 pyvallocation/bayesian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index e6eaeb0..14a464e 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -69,13 +69,15 @@ def _cholesky_pd(
         The lower Cholesky factor of `mat` (or `mat` + `jitter` * I).
 
     Raises:
-        ValueError: If `mat` is not a square matrix.
+        ValueError: If `mat` is not a square matrix or has non-finite entries.
         RuntimeError: If the matrix is not positive-definite even after
             adding jitter.
     """
     mat = np.asarray(mat, dtype=float)
     if mat.ndim != 2 or mat.shape[0] != mat.shape[1]:
         raise ValueError("Input to _cholesky_pd must be a square matrix.")
+    if not np.all(np.isfinite(mat)):
+        raise ValueError("Input to _cholesky_pd must contain only finite values.")
     if not np.allclose(mat, mat.T, rtol=1e-8, atol=1e-10):
         warnings.warn(
             "Input matrix is not symmetric (max asymmetry: "
-- 
2.43.0


From d7c34289ca63aedfc0449e094cb27bd90d73d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 18/57] fix: Black-Litterman reverse optimisation no longer
 rescales the caller's market weights in place

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..7480d51 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1346,7 +1346,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-- 
2.43.0


From 131313bf085e2b20bf4b09e6920fea92720ee07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 19/57] fix: Black-Litterman matches labelled priors, views,
 confidences and view variances by label, not by position

---
 pyvallocation/views.py | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 7480d51..148df61 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1326,6 +1326,10 @@ class BlackLittermanProcessor:
             if self._is_pandas
             else list(range(np.asarray(prior_cov).shape[0]))
         )
+        if self._is_pandas and not prior_cov.columns.equals(prior_cov.index):
+            if set(prior_cov.columns) != set(prior_cov.index):
+                raise ValueError("prior_cov rows and columns must carry the same asset labels.")
+            prior_cov = prior_cov.loc[:, prior_cov.index]
         self._sigma: np.ndarray = np.asarray(prior_cov, dtype=float)
         n_assets: int = self._sigma.shape[0]
 
@@ -1340,17 +1344,17 @@ class BlackLittermanProcessor:
         self._tau: float = float(tau)
 
         if pi is not None:
-            self._pi = np.asarray(pi, dtype=float).reshape(-1, 1)
+            self._pi = self._aligned(pi, self._assets, "pi").reshape(-1, 1)
             src = "user \\pi"
         elif market_weights is not None:
-            weights = np.asarray(market_weights, dtype=float).ravel()
+            weights = self._aligned(market_weights, self._assets, "market_weights").ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
             weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-            self._pi = np.asarray(prior_mean, dtype=float).reshape(-1, 1)
+            self._pi = self._aligned(prior_mean, self._assets, "prior_mean").reshape(-1, 1)
             src = "prior_mean"
         else:
             raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
@@ -1370,6 +1374,8 @@ class BlackLittermanProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
+            if self._is_pandas and isinstance(vec_like, pd.Series):
+                return vec_like.to_dict()
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != n_assets:
                 raise ValueError(f"`mean_views` must have length {n_assets}.")
@@ -1384,6 +1390,8 @@ class BlackLittermanProcessor:
         # ---------- confidences & \Omega -------------------------------------
         self._conf: Optional[np.ndarray] = self._parse_conf(view_confidences, view_keys)
         self._idzorek_use_tau = bool(idzorek_use_tau)
+        if isinstance(omega, pd.Series):
+            omega = self._aligned(omega, view_keys, "omega")
         self._omega: np.ndarray = self._build_omega(omega, verbose)
 
         # ---------- posterior -------------------------------------------
@@ -1397,6 +1405,29 @@ class BlackLittermanProcessor:
     # ------------------------------------------------------------------ #
     # internal utilities
     # ------------------------------------------------------------------ #
+    # label alignment
+    @staticmethod
+    def _aligned(values: Any, labels: List[Any], name: str) -> np.ndarray:
+        """Return ``values`` as floats in the order of ``labels`` (by position if unlabelled).
+
+        Args:
+            values: Array-like, or Series keyed by ``labels``.
+            labels: Asset or view labels fixing the order.
+            name: Argument name used in error messages.
+
+        Returns:
+            np.ndarray: Values ordered like ``labels``.
+        """
+        if isinstance(values, pd.Series):
+            by_label = values.to_dict()
+            if set(by_label) == set(labels):
+                return np.array([by_label[k] for k in labels], dtype=float)
+            if not isinstance(values.index, pd.RangeIndex) and not all(
+                isinstance(k, (int, np.integer)) for k in labels
+            ):
+                raise ValueError(f"`{name}` labels do not match {list(labels)}.")
+        return np.asarray(values, dtype=float)
+
     # asset index lookup
     def _asset_index(self, label: Union[str, int]) -> int:
         """Resolve an asset label or numeric index to a position.
@@ -1497,7 +1528,7 @@ class BlackLittermanProcessor:
                     )
                 result.append(float(conf.get(k, 1.0)))
             return np.array(result)
-        arr = np.asarray(conf, dtype=float).ravel()
+        arr = BlackLittermanProcessor._aligned(conf, keys, "view_confidences").ravel()
         if arr.size != len(keys):
             raise ValueError("view_confidences length mismatch.")
         return arr
-- 
2.43.0


From edde8b9b50a91811b28fa45c65ab256ed6394c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 20/57] fix: Black-Litterman refuses a relative view of an
 asset against itself instead of negating it

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 148df61..2b2757a 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1482,6 +1482,8 @@ class BlackLittermanProcessor:
             if isinstance(key, tuple):  # relative view \mu_i - \mu_j = target
                 asset_i, asset_j = key
                 i_idx, j_idx = self._asset_index(asset_i), self._asset_index(asset_j)
+                if i_idx == j_idx:
+                    raise ValueError(f"Relative view {key!r} compares an asset with itself.")
                 row = np.zeros(n)
                 row[i_idx], row[j_idx] = 1.0, -1.0
             else:  # absolute view \mu_i = target
-- 
2.43.0


From 431f79cde54a7f5801df8eb8eaa4b46a6bd735a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 21/57] fix: Black-Litterman refuses a prior mean whose length
 differs from the covariance

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 2b2757a..035e4f7 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1358,6 +1358,8 @@ class BlackLittermanProcessor:
             src = "prior_mean"
         else:
             raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
+        if self._pi.shape[0] != n_assets:
+            raise ValueError("prior mean length must match prior_cov.")
         if verbose:
             print(f"[BL] \\pi source: {src}.")
 
-- 
2.43.0


From a05c2b404e4a61d563c18c3e4ff109ff22ecafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 22/57] fix: entropy pooling meets its constraints to the same
 relative accuracy whatever the scale of the scenarios

---
 pyvallocation/views.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 035e4f7..c02ea45 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -255,6 +255,13 @@ def entropy_pooling(
         bounds_lower = [-np.inf] * num_equalities + [0.0] * num_inequalities
         bounds_upper = [np.inf] * (num_equalities + num_inequalities)
 
+    # Rescaling a row together with its target leaves the problem unchanged but
+    # makes the solver tolerance relative to the size of that row.
+    row_scale = np.max(np.abs(current_lhs), axis=1, keepdims=True)
+    row_scale = np.where(row_scale > 0.0, row_scale, 1.0)
+    current_lhs = current_lhs / row_scale
+    current_rhs_stacked = current_rhs_stacked / row_scale
+
     log_p_col = np.log(p_col)
 
     initial_lagrange_multipliers = np.zeros(current_lhs.shape[0])
-- 
2.43.0


From d33df82e90bab1bab46a33580bd41ca356af3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 23/57] fix: entropy pooling raises when the solver reports
 convergence on an unattainable constraint

---
 pyvallocation/views.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index c02ea45..dee5acc 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -305,6 +305,16 @@ def entropy_pooling(
         raise RuntimeError("Entropy pooling posterior probabilities could not be normalised.")
     q_posterior /= total_prob
 
+    # An infeasible system drives the multipliers to infinity, which the solver
+    # may report as converged: the targets are then missed.
+    violation = (current_lhs @ q_posterior - current_rhs_stacked).ravel()
+    violation[:num_equalities] = np.abs(violation[:num_equalities])
+    if np.any(violation > 1e-3):
+        raise RuntimeError(
+            "Entropy pooling could not satisfy the constraints "
+            f"(largest relative violation {float(violation.max()):.1e}); the views may be infeasible."
+        )
+
     return q_posterior
 
 class FlexibleViewsProcessor:
-- 
2.43.0


From b642c9adb0fdc43b7f560dfeab83bf072a4c7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 24/57] fix: later view stages (sequential blocks, quantile,
 CVaR) keep the constraints of the views applied before them

---
 pyvallocation/views.py | 73 ++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index dee5acc..7001ac9 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -875,7 +875,7 @@ class FlexibleViewsProcessor:
         other_G: List[np.ndarray] = None,
         other_h: List[float] = None,
         max_newton_iter: int = 20,
-    ) -> np.ndarray:
+    ) -> Tuple[np.ndarray, List[np.ndarray], List[float]]:
         """Solve CVaR view via Meucci (2011) recursive EP (Eqs 9-15).
 
         For a view E[X | X <= VaR_gamma] = cvar_target, we search over
@@ -892,7 +892,8 @@ class FlexibleViewsProcessor:
             max_newton_iter: Maximum Newton-Raphson iterations.
 
         Returns:
-            np.ndarray: Posterior probability vector (S, 1).
+            Tuple[np.ndarray, List[np.ndarray], List[float]]: Posterior probability
+            vector (S, 1) and the tail constraints (rows, targets) it satisfies.
         """
         R = self.R
         x = R[:, asset_idx]  # marginal scenarios for this asset
@@ -909,8 +910,8 @@ class FlexibleViewsProcessor:
         s_bar = int(np.searchsorted(cum_p, gamma, side='left'))
         s_bar = max(1, min(s_bar, S - 1))
 
-        def _solve_for_s(s):
-            """Solve EP with VaR at index s (Eq 9-10)."""
+        def _tail_constraints(s):
+            """Return the CVaR constraint rows and targets with VaR at index s (Eq 9-10)."""
             # Constraints: sum(q_1..q_s * x_1..x_s) = gamma * cvar_target
             #              sum(q_1..q_s) = gamma
             A_cvar = []
@@ -928,13 +929,15 @@ class FlexibleViewsProcessor:
             A_cvar.append(row_mean[np.argsort(order)])  # unsort
             b_cvar.append(gamma * cvar_target)
 
-            # Normalization: sum(q) = 1
-            A_cvar.append(np.ones(S))
-            b_cvar.append(1.0)
+            return A_cvar, b_cvar
+
+        def _solve_for_s(s):
+            """Solve EP with VaR at index s, next to the other constraints."""
+            A_cvar, b_cvar = _tail_constraints(s)
 
-            # Combine with other constraints
-            all_A = list(other_A or []) + A_cvar
-            all_b = list(other_b or []) + b_cvar
+            # Combine with other constraints and normalization: sum(q) = 1
+            all_A = list(other_A or []) + A_cvar + [np.ones(S)]
+            all_b = list(other_b or []) + b_cvar + [1.0]
             all_G = list(other_G or [])
             all_h = list(other_h or [])
 
@@ -955,7 +958,7 @@ class FlexibleViewsProcessor:
                 return None, np.inf
 
         # Newton-Raphson search (Eqs 12-15)
-        s = s_bar
+        s = best_s = s_bar
         best_q, best_kl = _solve_for_s(s)
 
         for _ in range(max_newton_iter):
@@ -986,12 +989,12 @@ class FlexibleViewsProcessor:
             s = s_new
             q_new, kl_new = _solve_for_s(s)
             if q_new is not None and kl_new < best_kl:
-                best_q, best_kl = q_new, kl_new
+                best_q, best_kl, best_s = q_new, kl_new, s
 
         if best_q is None:
             raise RuntimeError(f"CVaR view solve failed for asset {asset_idx}.")
 
-        return best_q.reshape(-1, 1)
+        return (best_q.reshape(-1, 1), *_tail_constraints(best_s))
 
     def _compute_posterior_probabilities(self) -> np.ndarray:
         """
@@ -1026,11 +1029,8 @@ class FlexibleViewsProcessor:
                 np.ndarray: Posterior probability vector.
             """
             S = R.shape[0]
-            A_eq_list.append(np.ones(S))
-            b_eq_list.append(1.0)
-
-            A = np.vstack(A_eq_list) if A_eq_list else np.zeros((0, S))
-            b = np.array(b_eq_list, float).reshape(-1, 1) if b_eq_list else np.zeros((0, 1))
+            A = np.vstack([*A_eq_list, np.ones(S)])
+            b = np.array([*b_eq_list, 1.0], float).reshape(-1, 1)
 
             if G_ineq_list:
                 G = np.vstack(G_ineq_list)
@@ -1046,6 +1046,13 @@ class FlexibleViewsProcessor:
         if not has_any:
             return p0
 
+        # Constraints of every view applied so far: later stages keep them, so
+        # that the final posterior satisfies all declared views together.
+        A_all: List[np.ndarray] = []
+        b_all: List[float] = []
+        G_all: List[np.ndarray] = []
+        h_all: List[float] = []
+
         if self.sequential:
             q_result = p0
             view_blocks = [
@@ -1059,7 +1066,11 @@ class FlexibleViewsProcessor:
             for mtype, vd in view_blocks:
                 if vd:
                     Aeq, beq, G, h = self._build_constraints(vd, mtype, mu_cur, var_cur)
-                    q_result = do_ep(q_result, Aeq, beq, G, h)
+                    A_all.extend(Aeq)
+                    b_all.extend(beq)
+                    G_all.extend(G)
+                    h_all.extend(h)
+                    q_result = do_ep(q_result, A_all, b_all, G_all, h_all)
 
                     mu_cur = (R.T @ q_result).flatten()
                     var_cur = ((R - mu_cur) ** 2).T @ q_result
@@ -1077,7 +1088,6 @@ class FlexibleViewsProcessor:
                 mu_cur = (R.T @ q_mid).flatten()
                 var_cur = (((R - mu_cur) ** 2).T @ q_mid).flatten()
 
-            A_all, b_all, G_all, h_all = [], [], [], []
             for mtype, vd in [("mean", self.mean_views), ("vol", self.vol_views),
                                ("var", self.var_views), ("skew", self.skew_views),
                                ("corr", self.corr_views)]:
@@ -1095,7 +1105,6 @@ class FlexibleViewsProcessor:
 
         # --- Quantile (VaR) views: P(R_i <= level) {op} probability ---
         if self.quantile_views:
-            A_q, b_q, G_q, h_q = [], [], [], []
             for asset, spec in self.quantile_views.items():
                 idx = self._asset_idx(asset)
                 if isinstance(spec, (list, tuple)) and len(spec) == 2:
@@ -1110,16 +1119,15 @@ class FlexibleViewsProcessor:
                     if not 0.0 < prob < 1.0:
                         raise ValueError(f"Quantile probability for '{asset}' must be in (0, 1), got {prob}.")
                     if op == "==":
-                        A_q.append(indicator)
-                        b_q.append(prob)
+                        A_all.append(indicator)
+                        b_all.append(prob)
                     elif op in ("<=", "<"):
-                        G_q.append(indicator)
-                        h_q.append(prob)
+                        G_all.append(indicator)
+                        h_all.append(prob)
                     else:  # >= or >
-                        G_q.append(-indicator)
-                        h_q.append(-prob)
-            if A_q or G_q:
-                q_result = do_ep(q_result, A_q, b_q, G_q, h_q)
+                        G_all.append(-indicator)
+                        h_all.append(-prob)
+            q_result = do_ep(q_result if self.sequential else p0, A_all, b_all, G_all, h_all)
 
         # --- CVaR views (recursive EP, Meucci 2011 ssrn-1542083) ---
         if self.cvar_views:
@@ -1131,10 +1139,13 @@ class FlexibleViewsProcessor:
                 else:
                     cvar_target = float(vw)
                     gamma = 0.05
-                q_result = self._solve_cvar_view(
+                q_result, A_tail, b_tail = self._solve_cvar_view(
                     asset_idx=idx, gamma=gamma, cvar_target=cvar_target,
-                    prior_probs=q_result,
+                    prior_probs=q_result if self.sequential else p0,
+                    other_A=A_all, other_b=b_all, other_G=G_all, other_h=h_all,
                 )
+                A_all.extend(A_tail)
+                b_all.extend(b_tail)
 
         return q_result
 
-- 
2.43.0


From ec1b2c1b5078f4821bfa4e30f0921d8809415914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 25/57] fix: a mean ranking neither edits the caller's mean
 views nor is dropped when a view on the same pair exists

---
 pyvallocation/views.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 7001ac9..19871e5 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -620,13 +620,15 @@ class FlexibleViewsProcessor:
         self.quantile_views = _vec_to_dict(quantile_views, "quantile_views") if quantile_views else {}
 
         # rank_mean: expand ["A", "B", "C"] into pairwise E[A] >= E[B], E[B] >= E[C]
+        # (kept apart from `mean_views`, which may be the caller's own dict and may
+        # already hold a view on the same pair)
+        self._mean_view_items = list(self.mean_views.items())
         if rank_mean is not None:
             if len(rank_mean) < 2:
                 raise ValueError("`rank_mean` requires at least 2 assets.")
-            for i in range(len(rank_mean) - 1):
-                pair = (rank_mean[i], rank_mean[i + 1])
-                if pair not in self.mean_views:
-                    self.mean_views[pair] = (">=", 0.0)
+            self._mean_view_items += [
+                ((rank_mean[i], rank_mean[i + 1]), (">=", 0.0)) for i in range(len(rank_mean) - 1)
+            ]
 
         self.sequential = bool(sequential)
 
@@ -809,7 +811,8 @@ class FlexibleViewsProcessor:
                 h_ineq.append(-raw)
 
         if moment_type == "mean":
-            for key, vw in view_dict.items():
+            items = view_dict.items() if isinstance(view_dict, dict) else view_dict
+            for key, vw in items:
                 if isinstance(key, tuple) and len(key) == 2:
                     a1, a2 = key
                     i, j = self._asset_idx(a1), self._asset_idx(a2)
@@ -1040,7 +1043,7 @@ class FlexibleViewsProcessor:
 
             return entropy_pooling(prior_probs, A, b, G, h)
 
-        has_any = any((self.mean_views, self.vol_views, self.var_views,
+        has_any = any((self._mean_view_items, self.vol_views, self.var_views,
                        self.skew_views, self.corr_views, self.cvar_views,
                        self.quantile_views))
         if not has_any:
@@ -1056,7 +1059,7 @@ class FlexibleViewsProcessor:
         if self.sequential:
             q_result = p0
             view_blocks = [
-                ("mean", self.mean_views),
+                ("mean", self._mean_view_items),
                 ("vol", self.vol_views),
                 ("var", self.var_views),
                 ("skew", self.skew_views),
@@ -1081,14 +1084,14 @@ class FlexibleViewsProcessor:
             # solve EP for means first to update the linearization point,
             # then build ALL constraints at the updated operating point.
             has_higher = bool(self.vol_views or self.var_views or self.skew_views or self.corr_views)
-            if self.mean_views and has_higher:
+            if self._mean_view_items and has_higher:
                 Aeq_m, beq_m, Gm, hm = self._build_constraints(
-                    self.mean_views, "mean", mu_cur, var_cur)
+                    self._mean_view_items, "mean", mu_cur, var_cur)
                 q_mid = do_ep(p0, Aeq_m, beq_m, Gm, hm)
                 mu_cur = (R.T @ q_mid).flatten()
                 var_cur = (((R - mu_cur) ** 2).T @ q_mid).flatten()
 
-            for mtype, vd in [("mean", self.mean_views), ("vol", self.vol_views),
+            for mtype, vd in [("mean", self._mean_view_items), ("vol", self.vol_views),
                                ("var", self.var_views), ("skew", self.skew_views),
                                ("corr", self.corr_views)]:
                 if vd:
-- 
2.43.0


From ab715b5a9316b14e491fd9d96b871526445dcdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 26/57] fix: flexible views work for a single asset

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 19871e5..94ccf0f 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -586,7 +586,7 @@ class FlexibleViewsProcessor:
             self.p0 = np.full((S, 1), 1.0 / S)
 
         self.mu0 = (self.R.T @ self.p0).flatten()
-        self.cov0 = np.cov(self.R.T, aweights=self.p0.flatten(), bias=True)
+        self.cov0 = np.atleast_2d(np.cov(self.R.T, aweights=self.p0.flatten(), bias=True))
         self.var0 = np.diag(self.cov0)
 
         def _vec_to_dict(vec_like, name):
@@ -636,7 +636,7 @@ class FlexibleViewsProcessor:
 
         q = self.posterior_probabilities
         mu_post = (self.R.T @ q).flatten()
-        cov_post = np.cov(self.R.T, aweights=q.flatten(), bias=True)
+        cov_post = np.atleast_2d(np.cov(self.R.T, aweights=q.flatten(), bias=True))
 
         if self._use_pandas:
             self.posterior_returns = pd.Series(mu_post, index=self.assets)
-- 
2.43.0


From 4b4f412565085a4f6a13a71109da7ebb2b726eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 27/57] fix: flexible views match a labelled prior covariance
 and labelled view vectors by asset, not by position

---
 pyvallocation/views.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 94ccf0f..70d6d10 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -545,7 +545,10 @@ class FlexibleViewsProcessor:
                 self._use_pandas = False
 
             if isinstance(prior_cov, pd.DataFrame):
-                cov = prior_cov.values.astype(float)
+                order = self.assets if self._use_pandas else list(prior_cov.index)
+                if set(prior_cov.index) != set(order) or set(prior_cov.columns) != set(order):
+                    raise ValueError("`prior_cov` labels must match the asset labels.")
+                cov = prior_cov.loc[order, order].values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
                     self._use_pandas = True
@@ -603,6 +606,11 @@ class FlexibleViewsProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
+            if self._use_pandas and isinstance(vec_like, pd.Series):
+                if set(vec_like.index) <= set(self.assets):
+                    return vec_like.to_dict()
+                if not isinstance(vec_like.index, pd.RangeIndex):
+                    raise ValueError(f"`{name}` labels must be asset labels.")
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
-- 
2.43.0


From fb02ccb1aa46a54fcc128df99ca3cb773d7f0dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 28/57] fix: flexible views refuse non-finite ranges, quantile
 levels and CVaR targets and tail probabilities outside (0, 1)

---
 pyvallocation/views.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 70d6d10..90d823c 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -699,6 +699,8 @@ class FlexibleViewsProcessor:
             and v[0] == "between"
         ):
             lo, hi = float(v[1]), float(v[2])
+            if not (np.isfinite(lo) and np.isfinite(hi)):
+                raise ValueError(f"View target must be finite, got {v}.")
             if lo > hi:
                 raise ValueError(f"between({lo}, {hi}): lower bound exceeds upper bound.")
             return [(">=", lo), ("<=", hi)]
@@ -1125,6 +1127,8 @@ class FlexibleViewsProcessor:
                         f"quantile_views['{asset}'] must be (level, probability) "
                         f"or (level, at_most(p)) / (level, at_least(p))."
                     )
+                if not np.isfinite(level):
+                    raise ValueError(f"Quantile level for '{asset}' must be finite, got {level}.")
                 indicator = (R[:, idx] <= level).astype(float)
                 for op, prob in self._parse_view_specs(prob_spec):
                     if not 0.0 < prob < 1.0:
@@ -1150,6 +1154,10 @@ class FlexibleViewsProcessor:
                 else:
                     cvar_target = float(vw)
                     gamma = 0.05
+                if not np.isfinite(cvar_target):
+                    raise ValueError(f"CVaR target for '{asset_key}' must be finite, got {cvar_target}.")
+                if not 0.0 < gamma < 1.0:
+                    raise ValueError(f"CVaR tail probability for '{asset_key}' must be in (0, 1), got {gamma}.")
                 q_result, A_tail, b_tail = self._solve_cvar_view(
                     asset_idx=idx, gamma=gamma, cvar_target=cvar_target,
                     prior_probs=q_result if self.sequential else p0,
-- 
2.43.0


From 08a4550eb8acf7d402e4ca146bd5f2df291252d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 29/57] fix: CVaR view search starts from a tail that can reach
 the target instead of failing on attainable views

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 90d823c..7114fee 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -921,6 +921,8 @@ class FlexibleViewsProcessor:
         # Initialize s_bar from prior: find s where cumulative prob first reaches gamma
         cum_p = np.cumsum(p_sorted)
         s_bar = int(np.searchsorted(cum_p, gamma, side='left'))
+        # the tail can only average the target if it reaches above it
+        s_bar = max(s_bar, int(np.searchsorted(x_sorted, cvar_target, side='right')))
         s_bar = max(1, min(s_bar, S - 1))
 
         def _tail_constraints(s):
-- 
2.43.0


From 3abf85cb879e6f4b745b76eb6759451768d38c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 30/57] fix: entropy pooling finishes with L-BFGS-B when TNC's
 line search stalls at round-off

---
 pyvallocation/views.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 7114fee..d1e936b 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -267,19 +267,26 @@ def entropy_pooling(
     initial_lagrange_multipliers = np.zeros(current_lhs.shape[0])
     optimizer_bounds = Bounds(bounds_lower, bounds_upper)
 
-    solver_options = {"maxfun": 10000}
-    if opt_method == "L-BFGS-B":
-        solver_options["maxiter"] = 1000
-
-    solution = minimize(
-        _entropy_pooling_dual_objective,
-        x0=initial_lagrange_multipliers,
-        args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
-        method=opt_method,
-        jac=True,
-        bounds=optimizer_bounds,
-        options=solver_options,
-    )
+    # TNC's line search may stall at round-off right at the optimum: L-BFGS-B
+    # then finishes from there.
+    start = initial_lagrange_multipliers
+    for attempt in dict.fromkeys((opt_method, "L-BFGS-B")):
+        solver_options = {"maxfun": 10000}
+        if attempt == "L-BFGS-B":
+            solver_options["maxiter"] = 1000
+
+        solution = minimize(
+            _entropy_pooling_dual_objective,
+            x0=start,
+            args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
+            method=attempt,
+            jac=True,
+            bounds=optimizer_bounds,
+            options=solver_options,
+        )
+        if solution.success:
+            break
+        start = solution.x
 
     if not solution.success:
         status = getattr(solution, "status", None)
-- 
2.43.0


From 95279f30301299cf5140cdcf6a6bf9c69bdd0ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 31/57] fix: entropy pooling restarts L-BFGS-B from the origin
 after a stalled line search

---
 pyvallocation/views.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index d1e936b..034513f 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -268,8 +268,7 @@ def entropy_pooling(
     optimizer_bounds = Bounds(bounds_lower, bounds_upper)
 
     # TNC's line search may stall at round-off right at the optimum: L-BFGS-B
-    # then finishes from there.
-    start = initial_lagrange_multipliers
+    # then solves the problem afresh.
     for attempt in dict.fromkeys((opt_method, "L-BFGS-B")):
         solver_options = {"maxfun": 10000}
         if attempt == "L-BFGS-B":
@@ -277,7 +276,7 @@ def entropy_pooling(
 
         solution = minimize(
             _entropy_pooling_dual_objective,
-            x0=start,
+            x0=initial_lagrange_multipliers,
             args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
             method=attempt,
             jac=True,
@@ -286,7 +285,6 @@ def entropy_pooling(
         )
         if solution.success:
             break
-        start = solution.x
 
     if not solution.success:
         status = getattr(solution, "status", None)
-- 
2.43.0


From 39742373ea5513a6ffa29f2562f3f7780a0125f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 32/57] fix: scenario-probability labels are no longer taken
 for asset labels

---
 pyvallocation/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 09a9408..15ce7cf 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -203,9 +203,9 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     Returns:
         Tuple[ArrayLike, ArrayLike]: A tuple containing:
             -   **mu** (ArrayLike): The weighted mean vector of asset returns.
-                If `R` or `p` were pandas objects, `mu` will be a :class:`pandas.Series`.
+                If `R` is a pandas object, `mu` will be a :class:`pandas.Series`.
             -   **S** (ArrayLike): The weighted covariance matrix of asset returns.
-                If `R` or `p` were pandas objects, `S` will be a :class:`pandas.DataFrame`.
+                If `R` is a pandas object, `S` will be a :class:`pandas.DataFrame`.
 
     Raises:
         ValueError: If `p` has a length mismatch with `R`, or if `p` contains
@@ -231,7 +231,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     S = np.einsum('ti,tj,t->ij', X, X, p_arr, optimize=True)
     S = (S + S.T) / 2
 
-    labels = _labels(R, p)
+    labels = _labels(R)
     logger.debug("Estimated weighted mean and covariance matrix.")
     return _wrap(mu, labels, True), _wrap(S, labels, False)
 
-- 
2.43.0


From b849c9aeef78a28805c9c8ad8779fe7efde06bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 33/57] fix: moment estimators work for a single asset

---
 pyvallocation/moments.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 15ce7cf..552116e 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -358,7 +358,7 @@ def shrink_covariance_ledoit_wolf(
     elif target == "constant_correlation":
         std = np.sqrt(np.diag(S_arr))
         corr = S_arr / np.outer(std, std)
-        r_bar = (corr.sum() - N) / (N * (N - 1))
+        r_bar = (corr.sum() - N) / max(N * (N - 1), 1)
         F = r_bar * np.outer(std, std)
         np.fill_diagonal(F, np.diag(S_arr))
     else:
@@ -374,10 +374,11 @@ def shrink_covariance_ledoit_wolf(
     if target == "identity":
         rho_hat = diag_pi
     else:
-        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
+        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / max(N * (N - 1), 1)) * off_pi
 
     gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
-    kappa = (pi_hat - rho_hat) / gamma_hat
+    # A sample covariance equal to its target leaves nothing to shrink.
+    kappa = (pi_hat - rho_hat) / gamma_hat if gamma_hat > 0.0 else 0.0
     # For identity target: delta = kappa (Ledoit-Wolf 2004, Eq. 2).
     # For constant_correlation target: delta = kappa / T (variant that accounts
     # for the larger number of estimated parameters in the structured target).
@@ -519,7 +520,7 @@ def factor_covariance_poet(
     else:
         scale = np.ones(N, dtype=float)
     X_scaled = X_centered / scale
-    S_scaled = np.cov(X_scaled, rowvar=False, ddof=1)
+    S_scaled = np.atleast_2d(np.cov(X_scaled, rowvar=False, ddof=1))
     eigvals, eigvecs = np.linalg.eigh(S_scaled)
     order = np.argsort(eigvals)[::-1]
     eigvals = eigvals[order]
@@ -650,7 +651,7 @@ def robust_covariance_tyler(
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
     X = X - X.mean(axis=0, keepdims=True)
-    sample_cov = np.cov(X, rowvar=False, ddof=1)
+    sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
@@ -1226,7 +1227,7 @@ def estimate_moments(
     if p is None:
         mu_sample = X.mean(axis=0)
         # Use ddof=0 (MLE) for consistency with estimate_sample_moments
-        S_sample = np.cov(X, rowvar=False, ddof=0)
+        S_sample = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
         mu_sample_wrapped = _wrap(mu_sample, labels, True)
         S_sample_wrapped = _wrap(S_sample, labels, False)
     else:
-- 
2.43.0


From 9c65ae4afb097ee8aac41c8890a9d49bf3bd7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 34/57] fix: James-Stein shrinkage of a single mean towards a
 given target never moves away from it

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 552116e..962c8f2 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -976,7 +976,7 @@ def shrink_mean_james_stein(
     if quad <= 0.0:
         shrink = 0.0
     else:
-        shrink = max(0.0, 1.0 - (N - 2.0) / quad)
+        shrink = min(1.0, max(0.0, 1.0 - (N - 2.0) / quad))
     mu_js = mu_target + shrink * diff
     return _wrap(mu_js, _labels(mu_hat, S), True)
 
-- 
2.43.0


From 50c42564053382ce2c511a95793f792790fa3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 35/57] fix: labelled shrinkage targets are matched to assets
 by label, not by position

---
 pyvallocation/moments.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 962c8f2..aea3375 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -181,6 +181,31 @@ def _wrap(x: np.ndarray, labels: Optional[Sequence[str]], vector: bool) -> Array
     return pd.DataFrame(x, index=labels, columns=labels)
 
 
+def _align_target(target: ArrayLike, labels: Optional[Sequence[str]]) -> np.ndarray:
+    """Return a shrinkage target as an array in the asset order of ``labels``.
+
+    Args:
+        target: Target vector or matrix, possibly labelled.
+        labels: Asset labels of the estimate, or ``None``.
+
+    Returns:
+        np.ndarray: Target values in asset order.
+
+    Raises:
+        ValueError: If the target is labelled with other assets.
+    """
+    if labels is not None and isinstance(target, (pd.Series, pd.DataFrame)):
+        default = pd.RangeIndex(len(target.index))
+        if not target.index.equals(default) or list(labels) == list(default):
+            axes = [target.index] + ([target.columns] if isinstance(target, pd.DataFrame) else [])
+            if any(len(axis) != len(labels) or set(axis) != set(labels) for axis in axes):
+                raise ValueError("Target labels do not match the asset labels.")
+            target = target.reindex(labels)
+            if isinstance(target, pd.DataFrame):
+                target = target.reindex(columns=labels)
+    return np.asarray(target, dtype=float)
+
+
 def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, ArrayLike]:
     """
     Estimates the weighted mean vector and covariance matrix from scenarios.
@@ -661,7 +686,7 @@ def robust_covariance_tyler(
             raise ValueError("`target` must be 'identity' or an array-like.")
         target_matrix = np.eye(N)
     else:
-        target_matrix = np.asarray(target, dtype=float)
+        target_matrix = _align_target(target, _labels(R))
         if target_matrix.shape != (N, N):
             raise ValueError("Custom target must have shape (N, N).")
         target_matrix = 0.5 * (target_matrix + target_matrix.T)
@@ -964,7 +989,7 @@ def shrink_mean_james_stein(
             raise ValueError("`target` must be 'grand_mean' or an array-like.")
         mu_target = np.full_like(mu_arr, mu_arr.mean())
     else:
-        mu_target = np.asarray(target, dtype=float).reshape(-1)
+        mu_target = _align_target(target, _labels(mu_hat, S)).reshape(-1)
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
 
-- 
2.43.0


From 2fc33255fca16ec7232f45fb5b0822b86a65ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 36/57] fix: OAS and graphical-lasso refuse missing returns
 instead of reporting zero covariances

---
 pyvallocation/moments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index aea3375..b033b48 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -435,6 +435,8 @@ def shrink_covariance_oas(R: ArrayLike, assume_centered: bool = True) -> ArrayLi
     T, N = X.shape
     if T == 0 or N == 0:
         raise ValueError("Input `R` must contain at least one observation and one asset.")
+    if not np.all(np.isfinite(X)):
+        raise ValueError("Input `R` must not contain NaN or infinite values.")
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     with np.errstate(over="ignore", under="ignore", divide="ignore", invalid="ignore"):
@@ -887,6 +889,8 @@ def sparse_precision_glasso(
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     if X.shape[0] < 2:
         raise ValueError("Graphical lasso requires at least two observations.")
+    if not np.all(np.isfinite(X)):
+        raise ValueError("Input `R` must not contain NaN or infinite values.")
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     T = X.shape[0]
-- 
2.43.0


From ab75a72d1483a47c0695f626d4e4042b75a993d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 37/57] fix: EWMA covariance refuses spans without a decay
 factor in [0, 1)

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index b033b48..cb39bd0 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -773,6 +773,8 @@ def covariance_ewma(
     if T < min_periods:
         raise ValueError(f"Need at least {min_periods} observations, got {T}.")
 
+    if not span >= 1:
+        raise ValueError(f"`span` must be at least 1, got {span}.")
     lam = 1.0 - 2.0 / (span + 1)
 
     # Initialize with first observation outer product
-- 
2.43.0


From 6a5014be2646d9ffdeaf74bf3adb81ecdb5980f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 38/57] fix: Tyler covariance keeps the scale of the sample
 covariance instead of dividing it by the number of assets

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index cb39bd0..0dfc75c 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -680,7 +680,7 @@ def robust_covariance_tyler(
     X = X - X.mean(axis=0, keepdims=True)
     sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
-    trace_target = np.trace(sample_cov) / max(N, 1)
+    trace_target = np.trace(sample_cov)
     if trace_target <= 0.0:
         trace_target = 1.0
     if isinstance(target, str):
-- 
2.43.0


From 726ffb36a6ff445911de1cdc5f9d5cb030d1ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 39/57] fix: project_scenarios renormalises probabilities that
 only approximately sum to one

---
 pyvallocation/utils/projection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..edc2e52 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -235,8 +235,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         weight_sum = weights.sum()
         if not np.isfinite(weight_sum) or weight_sum <= 0:
             raise ValueError("Scenario probabilities must sum to a positive finite value.")
-        if not np.isclose(weight_sum, 1.0):
-            weights = weights / weight_sum
+        weights = weights / weight_sum
 
     rng = np.random.default_rng(seed)
     idx = rng.choice(num_rows, size=(n_simulations, investment_horizon), p=weights)
-- 
2.43.0


From 85f01f94200a01942e9416475139d23b6866554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 40/57] fix: simulate_paths keeps every repriced instrument and
 does not truncate repriced integer drivers

---
 pyvallocation/utils/projection.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index edc2e52..b990c64 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -300,11 +300,13 @@ def simulate_paths(
     cumulative = np.cumsum(sampled, axis=1)  # cumulative sum along time
 
     if reprice is not None:
-        # Apply repricing at each time step
-        out = np.empty_like(cumulative)
-        for t in range(horizon):
-            out[:, t, :] = reprice(cumulative[:, t, :])
-        return out
+        # Apply repricing at each time step; the number of instruments may
+        # differ from the number of risk drivers.
+        steps = [
+            np.asarray(reprice(cumulative[:, t, :]), dtype=float).reshape(n_paths, -1)
+            for t in range(horizon)
+        ]
+        return np.stack(steps, axis=1) if steps else cumulative
 
     return cumulative
 
-- 
2.43.0


From 2259d7c15f5bc15ac1fb9547ac7257167ad57e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 41/57] fix: log/simple moment conversion matches labelled
 means and covariances by asset, not by position

---
 pyvallocation/utils/projection.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index b990c64..eb0fcff 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -107,6 +107,34 @@ def _wrap_matrix(x_np, template):
     )
 
 
+def _align_covariance(mu, cov):
+    """Reorder a labelled covariance to the asset order of a labelled mean.
+
+    Args:
+        mu: Mean vector.
+        cov: Covariance matrix.
+
+    Returns:
+        Union[np.ndarray, pd.DataFrame]: Covariance in the order of ``mu``.
+
+    Raises:
+        ValueError: If both are labelled but name different assets.
+    """
+    if not (isinstance(mu, pd.Series) and isinstance(cov, pd.DataFrame)):
+        return cov
+    order = list(mu.index)
+    if list(cov.index) == order and list(cov.columns) == order:
+        return cov
+    if (
+        len(set(order)) != len(order)
+        or cov.shape != (len(order), len(order))
+        or set(cov.index) != set(order)
+        or set(cov.columns) != set(order)
+    ):
+        raise ValueError("Mean and covariance must carry the same asset labels.")
+    return cov.loc[order, order]
+
+
 def log2simple(mu_g, cov_g):
     r"""\mu,\Sigma of log-returns -> \mu,\Sigma of simple returns (vectorised, pandas-aware).
 
@@ -117,6 +145,7 @@ def log2simple(mu_g, cov_g):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in simple-return units.
     """
+    cov_g = _align_covariance(mu_g, cov_g)
     mu_g_np = _to_numpy(mu_g)
     cov_g_np = _to_numpy(cov_g)
 
@@ -142,6 +171,7 @@ def simple2log(mu_r, cov_r):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in log-return units.
     """
+    cov_r = _align_covariance(mu_r, cov_r)
     mu_r_np = _to_numpy(mu_r)
     cov_r_np = _to_numpy(cov_r)
 
-- 
2.43.0


From e242e55c25ca9ff19092d4170f8e2fddafa1d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 42/57] fix: scenario P&L and performance reports refuse
 weights that name other assets instead of using NaN or dropping positions

---
 pyvallocation/utils/performance.py | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..6245e77 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -23,6 +23,26 @@ WeightsLike = Union[np.ndarray, pd.Series, pd.DataFrame]
 __all__ = ["scenario_pnl", "performance_report", "horizon_report", "drawdown_quantile"]
 
 
+def _match_assets(weights, asset_names):
+    """Reorder labelled weights to the asset order of the scenarios.
+
+    Args:
+        weights: Series/DataFrame indexed by asset.
+        asset_names: Scenario asset names (or ``None`` when unlabelled).
+
+    Returns:
+        Union[pd.Series, pd.DataFrame]: Weights in scenario order.
+
+    Raises:
+        ValueError: If weights and scenarios name different assets.
+    """
+    if asset_names is None or list(weights.index) == asset_names:
+        return weights
+    if weights.index.has_duplicates or set(weights.index) != set(asset_names):
+        raise ValueError("Weight labels do not match scenario asset names.")
+    return weights.reindex(asset_names)
+
+
 def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     """
     Compute scenario-by-scenario portfolio P&L.
@@ -64,12 +84,10 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
         weights = pd.Series(weights, dtype=float)
 
     if isinstance(weights, pd.Series):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _match_assets(weights, columns)
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _match_assets(weights, columns)
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
@@ -155,8 +173,7 @@ def performance_report(
     p = resolve_probabilities(probabilities, R_arr.shape[0])
 
     if isinstance(weights, pd.Series):
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
+        weights = _match_assets(weights, asset_names)
         if weights.isna().any():
             raise ValueError(
                 "Weight labels do not match scenario asset names after reindexing."
@@ -165,8 +182,7 @@ def performance_report(
     elif isinstance(weights, pd.DataFrame):
         if weights.shape[1] != 1:
             raise ValueError("`weights` must represent a single allocation.")
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
+        weights = _match_assets(weights, asset_names)
         if weights.isna().any().any():
             raise ValueError(
                 "Weight labels do not match scenario asset names after reindexing."
-- 
2.43.0


From 7e2aacb7b9a20de1870f1896a7cd3a7498c12ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 43/57] fix: scenario_pnl keeps the scenario axis when there is
 a single scenario

---
 pyvallocation/utils/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 6245e77..2b1fe01 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -109,7 +109,7 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     if isinstance(weights, pd.Series):
         series = pd.Series(pnl[:, 0], index=index, name=weights.name)
         return series
-    return pnl.squeeze()
+    return pnl[:, 0] if pnl.shape[1] == 1 else pnl
 
 
 def performance_report(
-- 
2.43.0


From eb438c51969f14bc7d30137e77e6d0ba5d2edbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 44/57] fix: drawdowns are measured from the initial wealth, so
 an immediate loss counts

---
 pyvallocation/utils/performance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 2b1fe01..c604f21 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -320,6 +320,9 @@ def drawdown_quantile(
     port_cum = paths @ w  # (n_paths, horizon)
     wealth = 1.0 + port_cum  # wealth relative to $1
 
+    # Every path starts from the initial wealth of $1
+    wealth = np.concatenate([np.ones((wealth.shape[0], 1)), wealth], axis=1)
+
     # Running maximum and drawdown
     running_max = np.maximum.accumulate(wealth, axis=1)
     drawdowns = (running_max - wealth) / np.where(running_max > 0, running_max, 1.0)
-- 
2.43.0


From 1723d7bbb7b41c28f847c388ea5057de509006c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 45/57] fix: drawdown_quantile matches labelled weights to the
 invariants by asset name

---
 pyvallocation/utils/performance.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index c604f21..0703e13 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -307,9 +307,15 @@ def drawdown_quantile(
     """
     from .projection import simulate_paths, reprice_exp as _reprice_exp
 
-    if reprice is None:
+    default_reprice = reprice is None
+    if default_reprice:
         reprice = _reprice_exp
 
+    if isinstance(invariants, pd.DataFrame) and isinstance(weights, (pd.Series, pd.DataFrame)):
+        columns = list(invariants.columns)
+        # A custom repricer may produce instruments named differently from the drivers.
+        if default_reprice or set(weights.index) == set(columns):
+            weights = _match_assets(weights, columns)
     w = np.asarray(weights, dtype=float).ravel()
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
-- 
2.43.0


From 2df98163df0b1ed8b7990e57a53c2e322ca538fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 46/57] fix: stress tests refuse duplicate weight labels and
 keep falsy portfolio names

---
 pyvallocation/stress.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..9a9be4c 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -53,7 +53,7 @@ def _align_weights(
     elif isinstance(weights, pd.Series):
         matrix = weights.to_numpy(dtype=float).reshape(-1, 1)
         idx = list(weights.index)
-        names = [weights.name or "portfolio_0"]
+        names = ["portfolio_0" if weights.name is None else weights.name]
     elif isinstance(weights, Mapping):
         series = pd.Series(weights, dtype=float)
         matrix = series.to_numpy(dtype=float).reshape(-1, 1)
@@ -77,6 +77,8 @@ def _align_weights(
             if matrix.shape[0] != len(asset_names):
                 raise ValueError("Weight dimension does not match number of assets.")
         else:
+            if len(set(idx)) != len(idx):
+                raise ValueError("Weight labels must be unique.")
             if set(idx) != set(asset_names):
                 missing = sorted(set(asset_names) - set(idx))
                 extra = sorted(set(idx) - set(asset_names))
-- 
2.43.0


From 5b9975aa028e591e98321d4808b18aea993bb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:36 +0000
Subject: [PATCH 47/57] fix: stress_invariants matches labelled weights to the
 instruments by name, not by position

---
 pyvallocation/stress.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 9a9be4c..6fc1a91 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -530,7 +530,11 @@ def stress_invariants(
             ens = compute_effective_number_scenarios(p)
             return mean_r, stdev_r, var_r, cvar_r, ens
 
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
+        pnl_names = list(pnl_df.columns) if isinstance(pnl_df, pd.DataFrame) else None
+        W, _, _ = _align_weights(weights, pnl_names)
+        if W.shape[1] != 1:
+            raise ValueError("`weights` must represent a single allocation.")
+        w_arr = W[:, 0]
         m_n = _metrics(pnl_nom, nom_probs, w_arr)
         m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
         ci = int(round(confidence * 100))
-- 
2.43.0


From 33812f7e630de5ce31942dcdc23568525860d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 48/57] fix: refuse negative combination weights

---
 pyvallocation/utils/weights.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 212ef7e..c9b3955 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -126,4 +126,6 @@ def normalize_weights(
     total = float(np.sum(weights_vector))
     if not np.isfinite(total) or total <= 0.0:
         raise ValueError("`weights` must sum to a positive finite value.")
+    if (weights_vector < 0.0).any():
+        raise ValueError("`weights` must be non-negative.")
     return weights_vector / total
-- 
2.43.0


From 1f6584d65d4ff2b536ccca2f3a86522224199c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:08 +0000
Subject: [PATCH 49/57] fix: keep falsy series names when labelling sample
 portfolios

---
 pyvallocation/utils/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index c9b3955..bcf1237 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -48,7 +48,7 @@ def ensure_samples_matrix(
         arr = sample_portfolios.to_numpy(dtype=float)
     elif isinstance(sample_portfolios, pd.Series):
         asset_names = list(sample_portfolios.index)
-        sample_names = [sample_portfolios.name or "portfolio_0"]
+        sample_names = ["portfolio_0" if sample_portfolios.name is None else sample_portfolios.name]
         arr = sample_portfolios.to_numpy(dtype=float).reshape(-1, 1)
     else:
         arr = np.asarray(sample_portfolios, dtype=float)
-- 
2.43.0


From 3515992f7a01e909121f3a91bf1d867c29f41e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 50/57] fix: min_risk selector keeps its risk label on repeated
 use

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..4bf7362 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -981,6 +981,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -991,7 +992,6 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
             weights, *_ = frontier.min_risk(risk_label=risk_label)
             return weights.rename(label)
 
-- 
2.43.0


From 06ce2a1f4e1b98d584151f6eaedc7dfdddd2cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 51/57] fix: combine every specification's own frontier when
 names repeat

---
 pyvallocation/ensembles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 4bf7362..42eff9c 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -552,12 +552,14 @@ def assemble_portfolio_ensemble(
         raise ValueError("At least one EnsembleSpec must be provided.")
 
     frontiers: Dict[str, "PortfolioFrontier"] = {}
+    frontier_list: List["PortfolioFrontier"] = []
     selections: List[pd.Series] = []
     metadata: Dict[str, Dict[str, Any]] = {}
 
     for spec in specs:
         frontier = spec.frontier_factory()
         frontiers[spec.name] = frontier
+        frontier_list.append(frontier)
         metadata[spec.name] = dict(spec.metadata or {})
         selected = _coerce_weights_series(frontier, spec.selector(frontier), spec.name)
         selections.append(selected)
@@ -589,7 +591,6 @@ def assemble_portfolio_ensemble(
                 else:
                     raise ValueError(f"Unsupported ensemble option '{entry}'.")
         else:  # combine on full frontier matrices
-            frontier_list = [frontiers[spec.name] for spec in specs]
             selections_norm = [
                 None if spec.frontier_selection is None else list(spec.frontier_selection)
                 for spec in specs
-- 
2.43.0


From 5725ad9db00e32c71cce64771f8c2dad89df5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 52/57] fix: refuse to combine selected portfolios over
 different assets

---
 pyvallocation/ensembles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 42eff9c..ca9335c 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -577,6 +577,8 @@ def assemble_portfolio_ensemble(
 
     if ensemble_names:
         if combine_mode == "selected":
+            if selection_df.isna().to_numpy().any():
+                raise ValueError("Selected portfolios must cover the same assets to be combined.")
             total_portfolios = selection_df.shape[1]
             folds = _determine_stack_folds(stack_folds, total_portfolios)
             for entry in ensemble_names:
-- 
2.43.0


From 7a241ef392a85c5b1110800d651f3fa2b9d428f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 53/57] fix: align labelled ensemble weights on specification
 names when combining frontiers

---
 pyvallocation/ensembles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index ca9335c..d8ac06e 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -614,6 +614,10 @@ def assemble_portfolio_ensemble(
                 for frontier, selection in zip(frontier_list, cleaned_selections)
             )
             folds = _determine_stack_folds(stack_folds, total_portfolios)
+            if isinstance(ensemble_weights, pd.Series):
+                ensemble_weights = normalize_weights(
+                    ensemble_weights, total_portfolios, [spec.name for spec in specs]
+                )
             for entry in ensemble_names:
                 if entry == "average":
                     ensembles["average"] = average_frontiers(
-- 
2.43.0


From eb919377b3a041c77244251d5ebb8f563e3d990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 54/57] fix: refuse fractional lot sizes instead of truncating
 them

---
 pyvallocation/discrete_allocation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..235bf66 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -61,15 +61,16 @@ def _lot_sizes_to_series(lot_sizes: LotSizeLike, index: Iterable[str]) -> pd.Ser
     if lot_sizes is None:
         return pd.Series(1, index=index, dtype=int)
     if isinstance(lot_sizes, pd.Series):
-        series = lot_sizes.astype(int)
+        series = lot_sizes.astype(float)
     elif isinstance(lot_sizes, Mapping):
-        series = pd.Series(lot_sizes, dtype=int)
+        series = pd.Series(lot_sizes, dtype=float)
     else:
         raise TypeError("`lot_sizes` must be a mapping or pandas Series if provided.")
-    series = series.reindex(index).fillna(1).astype(int)
-    if (series <= 0).any():
+    series = series.reindex(index).fillna(1)
+    whole = np.isfinite(series) & (series == np.floor(series))
+    if (series <= 0).any() or not whole.all():
         raise ValueError("All lot sizes must be positive integers.")
-    return series
+    return series.astype(int)
 
 
 @dataclass
-- 
2.43.0


From ce309e5c0f99f8a0110b6a5f2e48758069849160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 55/57] fix: refuse non-finite weights, prices and portfolio
 values

---
 pyvallocation/discrete_allocation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 235bf66..878ef03 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -103,6 +103,8 @@ class DiscreteAllocationInput:
             missing_str = ", ".join(sorted(missing_prices))
             raise ValueError(f"Missing latest prices for assets: {missing_str}")
 
+        if not np.isfinite(weights.to_numpy(dtype=float)).all():
+            raise ValueError("`weights` must be finite.")
         weights = weights.loc[~np.isclose(weights, 0.0)]
         if weights.empty:
             raise ValueError("`weights` must contain at least one non-zero entry.")
@@ -110,11 +112,11 @@ class DiscreteAllocationInput:
         self._has_shorts = bool((weights < 0).any())
 
         latest_prices = latest_prices.reindex(weights.index)
-        if (latest_prices <= 0).any():
-            raise ValueError("All latest prices must be strictly positive.")
+        if not np.isfinite(latest_prices.to_numpy(dtype=float)).all() or (latest_prices <= 0).any():
+            raise ValueError("All latest prices must be strictly positive and finite.")
 
-        if self.total_value <= 0:
-            raise ValueError("`total_value` must be positive.")
+        if not np.isfinite(self.total_value) or self.total_value <= 0:
+            raise ValueError("`total_value` must be positive and finite.")
 
         lot_sizes = _lot_sizes_to_series(self.lot_sizes, weights.index)
 
-- 
2.43.0


From 29fef1410b8155a1ab61c72a422a27fa6f25afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 56/57] fix: refuse repeated asset labels in discrete
 allocation

---
 pyvallocation/discrete_allocation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 878ef03..49a5324 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -98,6 +98,9 @@ class DiscreteAllocationInput:
         weights = _to_series(self.weights, "weights").astype(float)
         latest_prices = _to_series(self.latest_prices, "latest_prices").astype(float)
 
+        if not weights.index.is_unique or not latest_prices.index.is_unique:
+            raise ValueError("Asset labels must be unique.")
+
         missing_prices = set(weights.index) - set(latest_prices.index)
         if missing_prices:
             missing_str = ", ".join(sorted(missing_prices))
-- 
2.43.0


From fd661b5cb864d91b2005879ae2776c406360a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 57/57] fix: let the integer programme reach leveraged
 long/short targets

---
 pyvallocation/discrete_allocation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 49a5324..1ae6f29 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -378,7 +378,12 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(inputs.total_value / price_per_lot).astype(int), 0)
+    # Long-only positions are capped by the available value. With short positions the
+    # targets themselves can exceed it and proceeds can fund further purchases.
+    max_position = float(inputs.total_value)
+    if (weights.values < 0).any():
+        max_position += float(np.abs(target_values).sum() + price_per_lot.sum())
+    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(max_position / price_per_lot).astype(int), 0)
     max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
 
     # With short positions, short-sale proceeds can push leftover cash
@@ -397,7 +402,7 @@ def allocate_mip(
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
         max_shares_per_lot.astype(float),
-        np.full(n, inputs.total_value, dtype=float),
+        np.full(n, np.inf, dtype=float),
         [upper_cash],
     ])
     bounds = optimize.Bounds(lb, ub)
-- 
2.43.0

