"""C04 mean-variance programmes."""
import numpy as np
from ..spec import contract, Reject
from ..term import Unsupported
from ._opt import (Sys, dot, quad, user_system, prog_rows, qp_obj, lin_obj, same_feasible_set, same_objective, reference, vstack, hstack)

SYS = ["GA", "G", "A", ""]


def model(S, M, n, sysk, cost, m=2):
    mu = S.vec("mu", n, gen=lambda r: .05 + .08 * r.normal())
    cov = S.spd("cov", n, pd=False) if S.symbolic else S.spd("cov", n)
    us = user_system(S, n, sysk, m)
    kw, w0, k = {}, None, None
    if cost:
        w0 = S.vec("w0", n, gen=lambda r: r.random() / n * 2)
        k = S.vec("k", n, lo=0, gen=lambda r: abs(r.normal()) * .5)
        kw = dict(initial_weights=w0, market_impact_costs=k)
    opt = S.ok(S.call(M.optimization.MeanVariance, mu, cov, **us.args, **kw), "valid data are accepted")

    def stated(w):
        v = quad(w, cov)
        if cost:
            v = v + sum((k[i] * (w[i] - w0[i]) * (w[i] - w0[i]) for i in range(n)), 0 * v)
        return v
    return opt, mu, cov, us, w0, k, stated


def same_problem(S, p, kind, us, n, stated, extra_of):
    """One recorded QP: over the weights only, same feasible set, same objective."""
    if p["kind"] != kind or p["P"].shape != (n, n):
        raise Unsupported("programme layout not recognised")
    w = S.vec("pt_w", n)
    same_feasible_set(S, "programme", p, us, w, extra_of(w))
    same_objective(S, "the solver's objective is the stated one", lambda x: qp_obj(p, x), stated, n)


def numeric(S, w, us, stated, mu, cov, k, w0, tau, name="returned weights"):
    """Concrete mode: weights are feasible and no worse than an independent solve."""
    n = len(w)
    P = 2 * cov + (2 * np.diag(k) if k is not None else 0)
    q = np.zeros(n) if k is None else -2 * k * w0
    G, h = us.G, us.h
    if tau is not None:
        G, h = vstack(G, -mu[None, :]), hstack(h, -tau)
    ref = reference(S, "qp", P, q, G, h, us.A, us.b)
    if ref is None:
        raise Reject
    S.true(name + " satisfy the user's constraints", us.holds(S, w, 2e-5))
    if tau is not None:
        S.true(name + " reach the return target", dot(mu, w) >= tau - 2e-6 * (1 + abs(tau)))
    a, b = stated(w), stated(ref)
    S.true(name + " attain the minimum of the stated objective", a <= b + 2e-5 * (1e-2 + abs(b)), f"objective {a} at {w}, but {b} at {ref}")
    return ref


@contract("C04", funcs=["optimization.MeanVariance.efficient_portfolio", "optimization._quadratic_turnover", "optimization._BaseOptimization._init_constraints",
                        "optimization._BaseOptimization._finalise_expected_row"], dims={"n": [1, 2, 3]}, quick_dims={"n": [2, 3]},
          cfgs=[{"sysk": s, "cost": c, "target": t} for s in SYS for c in (0, 1) for t in (0, 1)], cdims={"n": [5]}, samples=260)
def single(S, M, sysk, cost, target):
    n = S.dim("n")
    opt, mu, cov, us, w0, k, stated = model(S, M, n, sysk, cost)
    tau = None
    if target:
        tau = S.real("tau", gen=lambda r: .02 + .05 * r.random())
    rec = S.record()
    w = S.ok(S.call(opt.efficient_portfolio, tau) if target else S.call(opt.efficient_portfolio), "a solvable problem returns") if S.symbolic else None
    if S.symbolic:
        S.true("one programme is solved", len(rec) == 1)
        p = rec[0]
        same_problem(S, p, "qp", us, n, stated, lambda w: [dot(mu, w) >= tau] if target else [])
        S.eq("the solver's solution is returned", w, p["x"].reshape(-1))
    else:
        out = S.call(opt.efficient_portfolio, tau)
        G, h = us.G, us.h
        if target:
            G, h = vstack(G, -mu[None, :]), hstack(h, -tau)
        if reference(S, "qp", 2 * cov + (0 if k is None else 2 * np.diag(k)), np.zeros(n) if k is None else -2 * k * w0, G, h, us.A, us.b) is None:
            raise Reject
        w = S.ok(out, "a solvable problem returns")
        numeric(S, w, us, stated, mu, cov, k, w0, tau)


@contract("C04", funcs=["optimization.MeanVariance.efficient_portfolio", "optimization._BaseOptimization._assert_optimal"], dims={"n": [2]},
          cfgs=[{"st": s, "cost": c} for s in ("fail", "retry") for c in (0, 1)], samples=40)
def uncertified(S, M, st, cost):
    """A run that is not certified optimal raises; the documented ridge retry solves the same constraints."""
    n = S.dim("n")
    opt, mu, cov, us, w0, k, stated = model(S, M, n, "GA", cost)
    S.hook("solver_status", lambda kind, i: "unknown" if (st == "fail" or i == 0) else "optimal")
    out = S.call(opt.efficient_portfolio)
    if st == "fail":
        S.raises(out, Exception, "uncertified solve raises")
        return
    if S.symbolic:
        rec = S.record()
        if out.exc is not None:
            S.true("uncertified first attempt without retry raises", True)
            return
        a, b = rec[0], rec[-1]
        S.eq("retry keeps the constraints", [b["G"], b["h"], b["A"], b["b"]][0], a["G"])
        S.eq("retry keeps the right-hand sides", b["h"], a["h"])
        S.eq("retry keeps the equalities", b["A"], a["A"])
        S.eq("retry keeps the equality values", b["b"], a["b"])
        S.eq("retry keeps the linear term", b["q"], a["q"])
        d = b["P"] - a["P"]
        tr = sum((a["P"][i, i] for i in range(n)), S.const(0))
        for i in range(n):
            for j in range(n):
                if i != j:
                    S.eq("retry perturbs the diagonal only", d[i, j], 0)
            S.true("retry perturbs by at most a 1e-6 fraction of the scale", S.all([d[i, i] >= 0, S.any([d[i, i] <= S.const("0.000001"), d[i, i] * 1000000 <= tr])]))
        S.eq("the certified solution is returned", out.value, b["x"].reshape(-1))
    else:
        w = S.ok(out)
        numeric(S, w, us, stated, mu, cov, k, w0, None)


@contract("C04", funcs=["optimization.MeanVariance.efficient_frontier", "optimization._FrontierMixin._frontier", "optimization._BaseOptimization._max_expected_return"],
          dims={"n": [2, 3], "num": [1, 2, 3, 4]}, quick_dims={"n": [2], "num": [1, 2, 4]}, cdims={"n": [4], "num": [5, 9]},
          cfgs=[{"sysk": s, "cost": c} for s, c in (("GA", 0), ("GA", 1), ("G", 0))], samples=150)
def frontier(S, M, sysk, cost):
    n, num = S.dim("n"), S.dim("num")
    opt, mu, cov, us, w0, k, stated = model(S, M, n, sysk, cost)
    out = S.call(opt.efficient_frontier, num)
    if S.symbolic:
        F = S.ok(out)
        rec = S.record()
        qps, lps = [p for p in rec if p["kind"] == "qp"], [p for p in rec if p["kind"] == "lp"]
        S.true("first column is the minimum-risk solution", len(qps) >= 1)
        same_problem(S, qps[0], "qp", us, n, stated, lambda w: [])
        S.eq("frontier starts at the minimum-risk portfolio", F[:, 0], qps[0]["x"].reshape(-1))
        if not lps:
            raise Unsupported("maximum return not found by a linear programme")
        w = S.vec("pt_w", n)
        same_feasible_set(S, "maximum return", lps[0], us, w)
        same_objective(S, "maximum return programme maximises mean return", lambda x: lin_obj(lps[0], x), lambda x: -dot(mu, x), n)
        rmin, rmax = dot(mu, qps[0]["x"].reshape(-1)), dot(mu, lps[0]["x"].reshape(-1))
        if F.shape[1] == 1:
            if num >= 2:
                S.le("a single point only for one requested portfolio or a degenerate return range",
                     S.absval(rmin - rmax), S.const("0.0000101") * (S.absval(rmax) + S.absval(rmin)) + S.const("0.0000001"))
            return
        S.eq_shape("one column per requested portfolio", F, (n, num))
        for j in range(1, num):
            tau = rmin + (rmax - rmin) * S.const(j) / (num - 1)
            same_problem(S, qps[j], "qp", us, n, stated, lambda w: [dot(mu, w) >= tau])
            S.eq("columns are the solutions for evenly spaced targets", F[:, j], qps[j]["x"].reshape(-1))
    else:
        r1 = reference(S, "qp", 2 * cov + (0 if k is None else 2 * np.diag(k)), np.zeros(n) if k is None else -2 * k * w0, us.G, us.h, us.A, us.b)
        r2 = reference(S, "lp", -mu, us.G, us.h, us.A, us.b)
        if r1 is None or r2 is None:
            raise Reject
        F = S.ok(out)
        lo, hi = mu @ r1, mu @ r2
        if num >= 2 and abs(lo - hi) > 3e-5 * (abs(lo) + abs(hi)) + 2e-6:
            S.true("a single point only for one requested portfolio or a degenerate return range", F.shape[1] > 1, f"returns {lo} to {hi}, one column")
        if abs(lo - hi) < 1e-4 * (1 + abs(hi)):
            raise Reject
        S.eq_shape("one column per requested portfolio", F, (n, 1 if num < 2 else num))
        lo = mu @ F[:, 0]         # targets start at the return of the minimum-risk column itself
        for j in range(F.shape[1]):
            tau = lo + (hi - lo) * j / max(num - 1, 1)
            t = None if j == 0 else tau - 1e-7 if j < num - 1 else tau - 1e-5 * (1 + abs(tau))
            w = F[:, j]
            S.true("column satisfies the user's constraints", us.holds(S, w, 2e-5))
            S.true("column reaches its evenly spaced target", j == 0 or mu @ w >= tau - 2e-5 * (1 + abs(tau)), f"column {j}: {mu @ w} < {tau}")
            if j < num - 1 or num == 1:
                G, h = (us.G, us.h) if j == 0 else (vstack(us.G, -mu[None, :]), hstack(us.h, -tau))
                ref = reference(S, "qp", 2 * cov + (0 if k is None else 2 * np.diag(k)), np.zeros(n) if k is None else -2 * k * w0, G, h, us.A, us.b)
                if ref is None:
                    continue
                a, b = stated(w), stated(ref)
                S.true("column is the cheapest portfolio for its target", a <= b + 5e-5 * (1e-2 + abs(b)), f"column {j}: {a} vs {b}")


@contract("C04", funcs=["optimization.MeanVariance.max_sharpe"], dims={"n": [2, 3]}, quick_dims={"n": [2]}, cdims={"n": [3, 5]},
          cfgs=[{"sysk": s, "rf": r} for s in SYS for r in (0, 1)] + [{"sysk": "box", "rf": 1}, {"sysk": "noB", "rf": 1}], samples=200)
def max_sharpe(S, M, sysk, rf):
    n = S.dim("n")
    mu = S.vec("mu", n, gen=lambda r: .08 + .05 * r.normal())
    cov = S.spd("cov", n, pd=False) if S.symbolic else S.spd("cov", n)
    from ._opt import Sys
    if sysk in ("box", "noB"):
        u = S.real("u", lo_strict=1, gen=lambda r: 1.2 + r.random())
        u = u / n
        lo = S.real("lo", hi=0, gen=lambda r: -.2 * r.random()) if sysk == "box" else S.const(0)
        eye = S.np.eye(n)
        G = S.np.vstack([-eye, eye])
        h = S.arr([-lo] * n + [u] * n)
        us = Sys(G, h, S.np.ones((1, n)), S.arr([S.const(1)])) if sysk == "box" else Sys(G, h, S.np.asarray([[S.const(1)] + [S.const(0)] * (n - 2) + [S.const(-1)]], dtype=float), S.arr([S.const(0)]))
    else:
        us = user_system(S, n, sysk)
    r = S.real("rf", gen=lambda g: g.choice([0.0, .01, .02, -.01])) if rf else 0
    opt = S.ok(S.call(M.optimization.MeanVariance, mu, cov, **us.args))
    rec = S.record()
    out = S.call(opt.max_sharpe, r) if rf else S.call(opt.max_sharpe)
    # full investment is implied when the equalities carry no budget row
    if S.symbolic:
        if sysk in ("GA", "A"):
            # a free equality row: budget or not is decided by the code on its coefficients
            if S.cond(S.all([us.A[0, i] == us.A[0, 0] for i in range(n)])):
                pass
        res = out
        if res.exc is not None:
            S.true("degenerate", True)
            return
        p = rec[0]
        if p["kind"] != "qp" or p["P"].shape != (n + 1, n + 1):
            raise Unsupported("programme layout not recognised")
        # homogenisation: z = (t*w, t) is feasible for t > 0  <=>  w feasible and t*(mu'w - rf) = 1; objective t^2 w'Cov w
        w, t = S.vec("pt_w", n), S.real("pt_t", lo_strict=0)
        z = [t * w[i] for i in range(n)] + [t]
        g, a = prog_rows(p, z)
        have = S.all([s >= 0 for s in g] + [e == 0 for e in a])
        want = [us.holds(S, w), t * (dot(mu, w) - r) == 1]
        base = S.all(want)
        full = dot([S.const(1)] * n, w) == 1
        S.true("programme points are user-feasible weights with unit scaled excess return", S.implies(have, base))
        S.true("user-feasible, fully invested weights are programme points", S.implies(S.all([base, full]), have))
        S.eq("objective at (t w, t) is t^2 w'Cov w", qp_obj(p, z), t * t * quad(w, cov))
        x = p["x"].reshape(-1)
        wt = res.value.weights
        S.true("scale variable is positive", x[n] > 0)
        for i in range(n):
            S.eq("weights are the rescaled solution", wt[i] * x[n], x[i])
    else:
        A1, b1 = us.A, us.b
        if A1 is None or not any(np.allclose(row, row[0]) for row in A1):
            A1, b1 = vstack(A1, np.ones((1, n))), hstack(b1, 1.0)
        if us.G is None and mu @ np.linalg.solve(cov, np.ones(n)) - r * np.ones(n) @ np.linalg.solve(cov, np.ones(n)) < 1e-3:
            raise Reject          # supremum not attained
        top = reference(S, "lp", -mu, us.G, us.h, A1, b1) if us.G is not None else None
        if us.G is not None and (top is None or mu @ top - r < 5e-3):
            raise Reject
        res = S.ok(out, "an attainable maximum Sharpe ratio is returned")
        w = res.weights
        S.true("weights satisfy the user's constraints", us.holds(S, w, 2e-5), f"{w} violates the declared system")
        s = (mu @ w - r) / np.sqrt(quad(w, cov))
        S.eq("reported return", res.nominal_return, mu @ w)
        S.eq("reported risk", res.risk, np.sqrt(quad(w, cov)))
        # no sampled feasible portfolio (vertices of min-variance problems for a grid of targets) does better
        if us.G is not None:
            best, arg = -1, None
            lo = mu @ reference(S, "qp", 2 * cov, np.zeros(n), us.G, us.h, A1, b1)
            for f in np.linspace(0, 1, 25):
                tau = lo + (mu @ top - lo) * f
                ref = reference(S, "qp", 2 * cov, np.zeros(n), vstack(us.G, -mu[None, :]), hstack(us.h, -tau + 1e-9), A1, b1)
                if ref is not None:
                    v = (mu @ ref - r) / np.sqrt(quad(ref, cov))
                    if v > best:
                        best, arg = v, ref
            S.true("no portfolio on the efficient frontier has a higher Sharpe ratio", s >= best - 1e-4 * (1 + abs(best)), f"{s} at {w} but {best} at {arg}")
        else:
            y = np.linalg.solve(cov, mu - r)
            if us.A is None:
                S.eq("tangency portfolio", w, y / y.sum(), tol=1e-4)


@contract("C04", funcs=["optimization.MeanVariance.max_sharpe"], dims={"n": [2]}, samples=20)
def sharpe_uncertified(S, M):
    n = S.dim("n")
    mu, cov = S.vec("mu", n), (S.spd("cov", n, pd=False) if S.symbolic else S.spd("cov", n))
    us = user_system(S, n, "GA")
    S.hook("solver_status", lambda kind, i: "unknown")
    opt = S.ok(S.call(M.optimization.MeanVariance, mu, cov, **us.args))
    S.raises(S.call(opt.max_sharpe), Exception, "uncertified solve raises")
    S.raises(S.call(opt.efficient_frontier, 3), Exception, "uncertified solve raises")


@contract("C04", funcs=["optimization.MeanVariance.max_sharpe"], dims={"n": [2, 3]}, quick_dims={"n": [2]})
def sharpe_numbers(S, M):
    """Reported return and volatility are those of the reported weights."""
    n = S.dim("n")
    mu, cov = S.vec("mu", n, gen=lambda r: .08 + .05 * r.normal()), (S.spd("cov", n, pd=False) if S.symbolic else S.spd("cov", n))
    us = user_system(S, n, "G")
    opt = S.ok(S.call(M.optimization.MeanVariance, mu, cov, **us.args))
    out = S.call(opt.max_sharpe)
    if out.exc is not None:
        if not S.symbolic:
            raise Reject
        return
    r = out.value
    S.eq("reported return is mu'w", r.nominal_return, dot(mu, r.weights))
    S.eq("reported risk squared is w'Cov w", r.risk * r.risk, quad(r.weights, cov))


# ------------------------------------------------------------------ every array size
def all_sizes_system(S, n, sysk):
    """The user's system with any number of rows (symbolically), or a bounded one (concretely)."""
    if not S.symbolic:
        return user_system(S, n, sysk)
    g, a = "G" in sysk, "A" in sysk
    m, k = S.dim("rows"), S.dim("eqs")
    return Sys(S.mat("G", m, n) if g else None, S.vec("h", m) if g else None, S.mat("A", k, n) if a else None, S.vec("b", k) if a else None)


def same_block(S, name, got, want):
    """Two parts of a programme: both absent, or equal entry by entry."""
    if want is None or got is None:
        S.true(name, got is None and want is None)
    else:
        S.eq(name, got, want)


def rows_plus(S, us, row, rhs):
    if us.G is None:
        return row.reshape(1, -1), S.np.array([rhs]) if not S.symbolic else S.build((1,), lambda i: rhs)
    return S.np.vstack([us.G, row.reshape(1, -1)]), S.np.append(us.h, rhs)


@contract("C04", funcs=["optimization.MeanVariance.__init__", "optimization.MeanVariance.efficient_portfolio", "optimization._quadratic_turnover", "optimization._BaseOptimization._init_constraints",
                        "optimization._BaseOptimization._finalise_expected_row"], modes="PC", dims={"n": [4]}, cdims={"n": [9, 40]}, samples=60,
          cfgs=[{"sysk": s, "cost": c, "target": t} for s in SYS for c in (0, 1) for t in (0, 1)])
def all_sizes_single(S, M, sysk, cost, target):
    n = S.dim("n")
    mu, cov = S.vec("mu", n, gen=lambda r: .05 + .08 * r.normal()), S.spd("cov", n)
    us = all_sizes_system(S, n, sysk)
    w0 = k = None
    kw = {}
    if cost:
        w0 = S.vec("w0", n, gen=lambda r: r.random() / n * 2)
        k = S.vec("k", n, lo=0, gen=lambda r: abs(r.normal()) * .5)
        kw = dict(initial_weights=w0, market_impact_costs=k)
    tau = S.real("tau", gen=lambda r: .02 + .05 * r.random()) if target else None
    opt = S.ok(S.call(M.optimization.MeanVariance, mu, cov, **us.args, **kw), "valid data are accepted")
    if S.symbolic:
        rec = S.record()
        w = S.ok(S.call(opt.efficient_portfolio, tau) if target else S.call(opt.efficient_portfolio), "a solvable problem returns")
        S.true("one programme is solved", len(rec) == 1)
        p = rec[0]
        if p["kind"] != "qp":
            raise Unsupported("programme layout not recognised")
        G, h = (us.G, us.h) if not target else rows_plus(S, us, -mu, -tau)
        same_block(S, "the inequalities are the user's rows and the return target", p["G"], G)
        same_block(S, "with the user's right-hand sides", p["h"], None if h is None else h.reshape(-1, 1))
        same_block(S, "the equalities are the user's", p["A"], us.A)
        same_block(S, "with the user's values", p["b"], None if us.b is None else us.b.reshape(-1, 1))
        kk = (lambda i: k[i]) if cost else (lambda i: 0)
        S.eq("the quadratic form is w'Cov w plus the impact costs", p["P"], S.build((n, n), lambda i, j: 2 * cov[i, j] + S.where(i == j, 2 * kk(i), 0)))
        S.eq("the linear term centres the impact costs on the initial weights", p["q"], S.build((n, 1), lambda i, j: -2 * k[i] * w0[i] if cost else S.lit(0)))
        S.eq("the solver's solution is returned", w, p["x"].reshape(-1))
        return
    out = S.call(opt.efficient_portfolio, tau)
    G, h = us.G, us.h
    if target:
        G, h = vstack(G, -mu[None, :]), hstack(h, -tau)
    if reference(S, "qp", 2 * cov + (0 if k is None else 2 * np.diag(k)), np.zeros(n) if k is None else -2 * k * w0, G, h, us.A, us.b) is None:
        raise Reject

    def stated(w):
        return w @ cov @ w + (0 if k is None else (k * (w - w0) ** 2).sum())
    numeric(S, S.ok(out, "a solvable problem returns"), us, stated, mu, cov, k, w0, tau)


def quadratic(S, n, cov, k):
    """The matrix of the quadratic form of the stated objective, as cvxopt wants it."""
    return S.build((n, n), lambda i, j: 2 * cov[i, j] + (S.where(i == j, 2 * k[i], 0) if k is not None else 0))


def same_programme(S, p, kind, us, P, q, G, h, what):
    if p["kind"] != kind:
        raise Unsupported("programme layout not recognised")
    same_block(S, what + ": inequalities", p["G"], G)
    same_block(S, what + ": right-hand sides", p["h"], None if h is None else h.reshape(-1, 1))
    same_block(S, what + ": equalities", p["A"], us.A)
    same_block(S, what + ": equality values", p["b"], None if us.b is None else us.b.reshape(-1, 1))
    if P is not None:
        S.eq(what + ": quadratic form", p["P"], P)
        S.eq(what + ": linear term", p["q"], q)
    else:
        S.eq(what + ": linear objective", p["c"], q)


@contract("C04", funcs=["optimization.MeanVariance.efficient_frontier", "optimization._FrontierMixin._frontier", "optimization._BaseOptimization._max_expected_return"], modes="PC",
          dims={"n": [4], "num": [3]}, cdims={"n": [30], "num": [4]}, cfgs=[{"sysk": s, "cost": c} for s, c in (("GA", 0), ("GA", 1), ("G", 0))],
          pcfgs=[{"sysk": s, "cost": c, "num": k} for s in SYS for c in (0, 1) for k in (1, 2, 4)], samples=24)
def all_sizes_frontier(S, M, sysk, cost, num=3):
    if not S.symbolic:
        return frontier(S, M, sysk, cost)
    n = S.dim("n")
    mu, cov = S.vec("mu", n), S.spd("cov", n)
    us = all_sizes_system(S, n, sysk)
    w0, k = (S.vec("w0", n), S.vec("k", n, lo=0)) if cost else (None, None)
    opt = S.ok(S.call(M.optimization.MeanVariance, mu, cov, **us.args, **(dict(initial_weights=w0, market_impact_costs=k) if cost else {})))
    rec = S.record()
    F = S.ok(S.call(opt.efficient_frontier, num))
    qps, lps = [p for p in rec if p["kind"] == "qp"], [p for p in rec if p["kind"] == "lp"]
    if not qps or len(lps) != 1:
        raise Unsupported("programme layout not recognised")
    P, q = quadratic(S, n, cov, k), S.build((n, 1), lambda i, j: -2 * k[i] * w0[i] if cost else S.lit(0))
    same_programme(S, qps[0], "qp", us, P, q, us.G, us.h, "minimum risk")
    same_programme(S, lps[0], "lp", us, None, -mu.reshape(-1, 1), us.G, us.h, "maximum return")
    S.eq("frontier starts at the minimum-risk portfolio", F[:, 0], qps[0]["x"].reshape(-1))
    rmin, rmax = mu @ qps[0]["x"].reshape(-1), mu @ lps[0]["x"].reshape(-1)
    if F.shape[1] == 1:
        if num >= 2:
            S.le("a single point only for one requested portfolio or a degenerate return range",
                 S.absval(rmin - rmax), S.const("0.0000101") * (S.absval(rmax) + S.absval(rmin)) + S.const("0.0000001"))
        return
    S.true("one column per requested portfolio", F.shape[1] == num and len(qps) == num)
    for j in range(1, num):
        tau = rmin + (rmax - rmin) * S.const(j) / (num - 1)
        G, h = rows_plus(S, us, -mu, -tau)
        same_programme(S, qps[j], "qp", us, P, q, G, h, "column")
        S.eq("columns are the solutions for evenly spaced targets", F[:, j], qps[j]["x"].reshape(-1))


@contract("C04", funcs=["optimization.MeanVariance.max_sharpe"], modes="PC", dims={"n": [6]}, cdims={"n": [12]}, samples=20, cfgs=[{"sysk": s, "rf": r} for s in ("GA", "G") for r in (0, 1)],
          pcfgs=[{"sysk": s, "rf": r} for s in ("G", "", "budget", "Gbudget") for r in (0, 1)])
def all_sizes_sharpe(S, M, sysk, rf):
    if not S.symbolic:
        return max_sharpe(S, M, sysk, rf)
    n = S.dim("n")
    mu, cov = S.vec("mu", n), S.spd("cov", n)
    r = S.real("rf") if rf else S.lit(0)
    G, h = (S.mat("G", S.dim("rows"), n), S.vec("h", S.dimval("rows"))) if "G" in sysk else (None, None)
    beta = S.real("beta")
    A, b = (S.build((1, n), lambda i, j: S.lit(1)), S.build((1,), lambda i: beta)) if "budget" in sysk else (None, None)
    opt = S.ok(S.call(M.optimization.MeanVariance, mu, cov, G=G, h=h, A=A, b=b))
    rec = S.record()
    out = S.call(opt.max_sharpe, r) if rf else S.call(opt.max_sharpe)
    p = rec[0]
    S.eq("objective at (y, t) is y'Cov y", p["P"], S.build((n + 1, n + 1), lambda i, j: S.where(S.all([i < n, j < n]), 2 * cov.at(i, j), 0)))
    S.eq("no linear term", p["q"], S.build((n + 1, 1), lambda i, j: S.lit(0)))
    one = A is None
    S.eq("equalities: unit excess return, then the scaled budget (the declared one, or full investment)", p["A"],
         S.build((2, n + 1), lambda i, j: S.where(i == 0, S.where(j < n, mu.at(j), -r), S.where(j < n, S.lit(1), -(S.lit(1) if one else beta)))))
    S.eq("equality values", p["b"], S.build((2, 1), lambda i, j: S.where(i == 0, S.lit(1), S.lit(0))))
    m = 0 if G is None else S.dimval("rows")
    S.eq("inequalities: positive scale, then the scaled user rows", p["G"],
         S.build((m + 1, n + 1), lambda i, j: S.where(i == 0, S.where(j < n, S.lit(0), S.lit(-1)), S.where(j < n, G.at(i - 1, j), -h.at(i - 1)) if G is not None else S.lit(0))))
    S.eq("inequality right-hand sides", p["h"], S.build((m + 1, 1), lambda i, j: S.lit(0)))
    if out.exc is not None:
        return
    x = p["x"].reshape(-1)
    w = out.value.weights
    S.eq("weights are the rescaled solution", S.build((n,), lambda i: w[i] * x[n]), S.build((n,), lambda i: x[i]))
    S.eq("reported return is mu'w", out.value.nominal_return, S.sigma(n, lambda i: mu[i] * w[i]))
