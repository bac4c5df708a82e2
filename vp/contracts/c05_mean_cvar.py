"""C05 mean-CVaR linear programmes (Rockafellar-Uryasev)."""
import numpy as np
from ..spec import contract, Reject
from ..term import Unsupported
from ._opt import dot, user_system, prog_rows, lin_obj, same_feasible_set, same_objective, reference, vstack, hstack, Sys

RU = "Rockafellar-Uryasev theorem: CVaR_a(loss) = min_c c + E[(loss-c)+]/a (cross-checked concretely against the tail-mean definition)"


def tailmean(pnl, p, a):
    """CVaR by its definition: minus the mean of the worst tail mass."""
    o = np.argsort(pnl)
    left, s = a, 0.0
    for t in o:
        m = min(left, p[t])
        s += m * pnl[t]
        left -= m
        if left <= 1e-15:
            break
    return -s / a


def model(S, M, T, n, sysk, cost):
    R = S.mat("R", T, n, gen=lambda r: .05 * r.normal() + .01)
    p = S.prob("p", T)
    a = S.real("alpha", lo_strict=0, hi_strict=1, gen=lambda r: r.choice([.05, .1, .25, .5]) if r.random() < .6 else .03 + .6 * r.random())
    us = user_system(S, n, sysk)
    kw, w0, k = {}, None, None
    if cost:
        w0 = S.vec("w0", n, gen=lambda r: r.random() / n * 2)
        k = S.vec("k", n, lo=0, gen=lambda r: abs(r.normal()) * .02)
        kw = dict(initial_weights=w0, proportional_costs=k)
    opt = S.ok(S.call(M.optimization.MeanCVaR, R, p, a, **us.args, **kw), "valid data are accepted")
    return opt, R, p, a, us, w0, k


def layout(S, pr, T, n, cost):
    if pr["kind"] != "lp" or pr["c"].shape[0] != n + 1 + T + (2 * n if cost else 0):
        raise Unsupported("programme layout not recognised")


def same_problem(S, pr, T, n, R, p, a, us, w0, k, tau):
    """Recorded LP over z = [w | c | xi | u+ | u-]  ==  min_{w,c} c + E[(-Rw-c)+]/a + k'|w-w0| over the user's set."""
    cost = k is not None
    layout(S, pr, T, n, cost)
    mu = [sum((p[t] * R[t, i] for t in range(T)), 0 * p[0]) for i in range(n)]
    # (a) soundness at an arbitrary programme point
    N = pr["c"].shape[0]
    z = list(S.vec("pt_z", N))
    w, c, xi, u = z[:n], z[n], z[n + 1:n + 1 + T], z[n + 1 + T:]
    g, e = prog_rows(pr, z)
    feas = S.all([s >= 0 for s in g] + [r == 0 for r in e])
    obj = c + sum((p[t] * xi[t] for t in range(T)), 0 * c) / a
    if cost:
        obj = obj + sum((k[i] * (u[i] + u[n + i]) for i in range(n)), 0 * c)
    S.eq("objective is c + sum p_t xi_t / alpha + costs on traded amounts", lin_obj(pr, z), obj)
    S.true("programme points meet the user's constraints", S.implies(feas, us.holds(S, w)))
    for t in range(T):
        loss = -sum((R[t, i] * w[i] for i in range(n)), 0 * c)
        S.true("excess variables dominate the scenario's loss above c", S.implies(feas, S.all([xi[t] >= 0, xi[t] >= loss - c])))
    if cost:
        for i in range(n):
            S.true("traded amounts cover the change of each weight",
                   S.implies(feas, S.all([u[i] + u[n + i] >= w[i] - w0[i], u[i] + u[n + i] >= w0[i] - w[i]])))
    if tau is not None:
        S.true("programme points reach the return target", S.implies(feas, dot(mu, w) >= tau))
    # (b) completeness: explicit witness for any user-feasible w and any c
    w, c = list(S.vec("pt_w", n)), S.real("pt_c")
    xi = [S.pos(-sum((R[t, i] * w[i] for i in range(n)), 0 * c) - c) for t in range(T)]
    u = [S.pos(w[i] - w0[i]) for i in range(n)] + [S.pos(w0[i] - w[i]) for i in range(n)] if cost else []
    if cost and S.symbolic:
        # orientation of the two trade variables is the code's choice
        A = pr["A"]
        if S.cond(A[A.shape[0] - n, n + 1 + T] == 1):
            u = u[n:] + u[:n]
    g, e = prog_rows(pr, w + [c] + xi + u)
    want = S.all([us.holds(S, w)] + ([dot(mu, w) >= tau] if tau is not None else []))
    S.true("every user-feasible weight vector with any VaR candidate is a programme point", S.implies(want, S.all([s >= 0 for s in g] + [r == 0 for r in e])))


def ref_solve(S, R, p, a, us, w0, k, tau):
    """Independent formulation: variables [c, xi, w, u], u >= |w-w0| by two inequalities."""
    T, n = R.shape
    nc = n if k is not None else 0
    N = 1 + T + n + nc
    c = np.concatenate([[1], p / a, np.zeros(n), k if nc else []])
    G, h = [], []
    G.append(np.hstack([-np.ones((T, 1)), -np.eye(T), -R, np.zeros((T, nc))])), h.append(np.zeros(T))
    G.append(np.hstack([np.zeros((T, 1)), -np.eye(T), np.zeros((T, n + nc))])), h.append(np.zeros(T))
    if us.G is not None:
        G.append(np.hstack([np.zeros((len(us.h), 1 + T)), us.G, np.zeros((len(us.h), nc))])), h.append(us.h)
    if nc:
        for s in (1, -1):
            G.append(np.hstack([np.zeros((n, 1 + T)), s * np.eye(n), -np.eye(n)])), h.append(s * w0)
    if tau is not None:
        G.append(np.hstack([np.zeros((1, 1 + T)), -(p @ R)[None, :], np.zeros((1, nc))])), h.append(np.array([-tau]))
    A = None if us.A is None else np.hstack([np.zeros((len(us.b), 1 + T)), us.A, np.zeros((len(us.b), nc))])
    x = reference(S, "lp", c, np.vstack(G), np.concatenate(h), A, us.b)
    return None if x is None else x[1 + T:1 + T + n]


def stated(w, R, p, a, w0, k):
    return tailmean(R @ w, p, a) + (np.sum(k * np.abs(w - w0)) if k is not None else 0.0)


def numeric(S, w, R, p, a, us, w0, k, tau, ref):
    S.true("weights satisfy the user's constraints", us.holds(S, w, 2e-5), f"{w}")
    if tau is not None:
        S.true("weights reach the return target", p @ R @ w >= tau - 2e-6, f"{p @ R @ w} < {tau}")
    x, y = stated(w, R, p, a, w0, k), stated(ref, R, p, a, w0, k)
    S.true("weights attain the minimum of CVaR plus costs", x <= y + 2e-6 + 2e-5 * abs(y), f"{x} at {w}, but {y} at {ref}")


@contract("C05", funcs=["optimization.MeanCVaR.__init__", "optimization.MeanCVaR.efficient_portfolio", "optimization._linear_turnover_blocks"], assumes=[RU],
          dims={"T": [1, 2, 3], "n": [1, 2, 3]}, quick_dims={"T": [2], "n": [2, 3]}, cdims={"T": [8, 20], "n": [4]}, samples=220,
          cfgs=[{"sysk": s, "cost": c, "target": t} for s in ("GA", "G", "A") for c in (0, 1) for t in (0, 1)])
def single(S, M, sysk, cost, target):
    T, n = S.dim("T"), S.dim("n")
    S.unit_budget = False
    opt, R, p, a, us, w0, k = model(S, M, T, n, sysk, cost)
    tau = S.real("tau", gen=lambda r: -.01 + .03 * r.random()) if target else None
    if S.symbolic:
        w = S.ok(S.call(opt.efficient_portfolio, tau) if target else S.call(opt.efficient_portfolio))
        rec = S.record()
        S.true("one programme is solved", len(rec) == 1)
        same_problem(S, rec[0], T, n, R, p, a, us, w0, k, tau)
        S.eq("the solver's weights are returned", w, rec[0]["x"].reshape(-1)[:n])
    else:
        if sysk == "A":
            raise Reject
        out = S.call(opt.efficient_portfolio, tau)
        ref = ref_solve(S, R, p, a, us, w0, k, tau)
        if ref is None:
            raise Reject
        numeric(S, S.ok(out, "a solvable problem returns"), R, p, a, us, w0, k, tau, ref)


@contract("C05", funcs=["optimization.MeanCVaR.efficient_portfolio", "optimization.MeanCVaR.efficient_frontier"], dims={"T": [2], "n": [2]}, samples=20)
def uncertified(S, M):
    T, n = S.dim("T"), S.dim("n")
    opt, R, p, a, us, w0, k = model(S, M, T, n, "GA", 0)
    S.hook("solver_status", lambda kind, i: "unknown")
    S.raises(S.call(opt.efficient_portfolio), Exception, "uncertified solve raises")
    S.raises(S.call(opt.efficient_frontier, 3), Exception, "uncertified solve raises")


@contract("C05", funcs=["optimization.MeanCVaR.efficient_frontier", "optimization._FrontierMixin._frontier", "optimization._BaseOptimization._max_expected_return"], assumes=[RU],
          dims={"T": [2], "n": [2], "num": [1, 2, 3, 4]}, quick_dims={"T": [2], "n": [2], "num": [1, 3]}, cdims={"T": [12], "n": [4], "num": [5, 8]}, samples=90,
          cfgs=[{"cost": 0}, {"cost": 1}])
def frontier(S, M, cost):
    T, n, num = S.dim("T"), S.dim("n"), S.dim("num")
    opt, R, p, a, us, w0, k = model(S, M, T, n, "GA", cost)
    mu = [sum((p[t] * R[t, i] for t in range(T)), 0 * p[0]) for i in range(n)]
    out = S.call(opt.efficient_frontier, num)
    if S.symbolic:
        F = S.ok(out)
        rec = S.record()
        N = n + 1 + T + (2 * n if cost else 0)
        S.true("minimum-risk programme comes first", len(rec) >= 2)
        same_problem(S, rec[0], T, n, R, p, a, us, w0, k, None)
        S.eq("frontier starts at the minimum-CVaR portfolio", F[:, 0], rec[0]["x"].reshape(-1)[:n])
        top = rec[1]
        if top["kind"] != "lp" or top["c"].shape[0] not in (N, n):
            raise Unsupported("maximum return programme not recognised")
        z = list(S.vec("pt_y", top["c"].shape[0]))
        S.eq("maximum return programme maximises mean return", lin_obj(top, z), -dot(mu, z[:n]))
        if top["c"].shape[0] == n:
            same_feasible_set(S, "maximum return", top, us, z)
        else:
            same_rows(S, top, rec[0])
        rmin, rmax = dot(mu, rec[0]["x"].reshape(-1)[:n]), dot(mu, top["x"].reshape(-1)[:n])
        if F.shape[1] == 1:
            S.true("a single point only for one requested portfolio or a degenerate return range",
                   num < 2 or S.cond(S.absval(rmin - rmax) <= S.const("0.0000101") * (S.absval(rmax) + S.absval(rmin)) + S.const("0.0000001")))
            return
        S.eq_shape("one column per requested portfolio", F, (n, num))
        for j in range(1, num):
            tau = rmin + (rmax - rmin) * S.const(j) / (num - 1)
            same_problem(S, rec[j + 1], T, n, R, p, a, us, w0, k, tau)
            S.eq("columns are the solutions for evenly spaced targets", F[:, j], rec[j + 1]["x"].reshape(-1)[:n])
    else:
        r2 = reference(S, "lp", -(p @ R), us.G, us.h, us.A, us.b)
        r1 = ref_solve(S, R, p, a, us, w0, k, None)
        if r1 is None or r2 is None:
            raise Reject
        F = S.ok(out)
        m = p @ R
        lo, hi = m @ F[:, 0], m @ r2
        if abs(lo - hi) < 1e-4:
            raise Reject
        S.eq_shape("one column per requested portfolio", F, (n, 1 if num < 2 else num))
        for j in range(F.shape[1]):
            tau = lo + (hi - lo) * j / max(num - 1, 1)
            w = F[:, j]
            S.true("column reaches its evenly spaced target", j == 0 or m @ w >= tau - 2e-6 - 2e-5 * abs(tau), f"column {j}: {m @ w} < {tau}")
            S.true("column satisfies the user's constraints", us.holds(S, w, 2e-5))
            if j == num - 1 and j:
                continue        # at the maximum attainable return the cost is ill-conditioned in the target
            ref = ref_solve(S, R, p, a, us, w0, k, tau if j else None)
            if ref is None:
                continue
            x, y = stated(w, R, p, a, w0, k), stated(ref, R, p, a, w0, k)
            S.true("column is the cheapest portfolio for its target", x <= y + 1e-5 + 1e-4 * abs(y), f"column {j}: {x} vs {y}")


def same_rows(S, p, q):
    """Both programmes carry the same linear system."""
    z = list(S.vec("pt_r", p["G"].shape[1]))
    g1, a1 = prog_rows(p, z)
    g2, a2 = prog_rows(q, z)
    f1, f2 = S.all([s >= 0 for s in g1] + [r == 0 for r in a1]), S.all([s >= 0 for s in g2] + [r == 0 for r in a2])
    S.true("maximum return is taken over the same set", S.all([S.implies(f1, f2), S.implies(f2, f1)]))


# ------------------------------------------------------------------ every array size
from .c04_mean_variance import all_sizes_system, rows_plus


def all_sizes_model(S, M, sysk, cost, unif=0):
    T, n = S.dim("T"), S.dim("n")
    R, a = S.mat("R", T, n), S.real("alpha", lo_strict=0, hi_strict=1)
    p = S.prob("p", T)
    us = all_sizes_system(S, n, sysk)
    w0, k = (S.vec("w0", n), S.vec("k", n, lo=0)) if cost else (None, None)
    opt = S.ok(S.call(M.optimization.MeanCVaR, R, p, a, **us.args, **(dict(initial_weights=w0, proportional_costs=k) if cost else {})), "valid data are accepted")
    return T, n, R, a, p, us, w0, k, opt


def ru_programme(S, pr, what, T, n, R, p, a, us, w0, k, tau, c=None):
    """Every row of the recorded LP at a generic point z = [w | c | xi | u+ | u-], and its objective."""
    if pr["kind"] != "lp":
        raise Unsupported("programme layout not recognised")
    N = n + 1 + T + (2 * n if k is not None else 0)
    S.true(what + ": variables are weights, VaR level, excesses and traded amounts", pr["c"].shape[0] == N)
    z = S.vec("pt_z" + str(len(S.inputs)), N)
    S.eq(what + ": objective", (pr["c"].reshape(-1) * z).sum(),
         z.at(n) + S.sigma(T, lambda t: p[t] * z.at(n + 1 + t)) / a + (S.sigma(n, lambda i: k[i] * (z.at(n + 1 + T + i) + z.at(n + 1 + T + n + i))) if k is not None else 0)
         if c is None else c(z))
    rows = [(T, lambda t: -S.sigma(n, lambda i: R[t, i] * z.at(i)) - z.at(n) - z.at(n + 1 + t), lambda t: S.lit(0)),       # xi >= -R w - c
            (T, lambda t: -z.at(n + 1 + t), lambda t: S.lit(0))]                                                        # xi >= 0
    if k is not None:
        rows.append((2 * n, lambda i: -z.at(n + 1 + T + i), lambda i: S.lit(0)))                                        # u+, u- >= 0
    if us.G is not None:
        rows.append((us.G.shape[0], lambda r: S.sigma(n, lambda i: us.G[r, i] * z.at(i)), lambda r: us.h[r]))
    if tau is not None:
        rows.append((1, lambda r: -S.sigma(n, lambda i: S.sigma(T, lambda t: p[t] * R[t, i]) * z.at(i)), lambda r: -tau))
    eqs = []
    if us.A is not None:
        eqs.append((us.A.shape[0], lambda r: S.sigma(n, lambda i: us.A[r, i] * z.at(i)), lambda r: us.b[r]))
    if k is not None:
        eqs.append((n, lambda i: z.at(i) - z.at(n + 1 + T + i) + z.at(n + 1 + T + n + i), lambda i: w0[i]))              # w = w0 + u+ - u-
    for M_, v_, rs, nm in (("G", "h", rows, "inequality"), ("A", "b", eqs, "equality")):
        if not rs:
            S.true(what + f": no {nm} rows", pr[M_] is None)
            continue
        if pr[M_] is None:
            S.fail(what + f": {nm} rows present")
            continue
        lhs, rhs, o = pr[M_] @ z, pr[v_].reshape(-1), 0
        for q, (m, f, g) in enumerate(rs):
            S.eq(what + f": {nm} rows, block {q}", lhs[o:o + m], S.build((m,), f))
            S.eq(what + f": {nm} right-hand sides, block {q}", rhs[o:o + m], S.build((m,), g))
            o = o + m
        S.true(what + f": no further {nm} rows", lhs.shape[0] == o)


@contract("C05", funcs=["optimization.MeanCVaR.__init__", "optimization.MeanCVaR.efficient_portfolio", "optimization._linear_turnover_blocks"], assumes=[RU], modes="PC",
          dims={"T": [4], "n": [3]}, cdims={"T": [60], "n": [8]}, samples=40, cfgs=[{"sysk": s, "cost": c, "target": t} for s in ("GA", "G") for c in (0, 1) for t in (0, 1)],
          pcfgs=[{"sysk": s, "cost": c, "target": t} for s in ("GA", "G", "A", "") for c in (0, 1) for t in (0, 1)])
def all_sizes_single(S, M, sysk, cost, target):
    if not S.symbolic:
        return single(S, M, sysk, cost, target)
    T, n, R, a, p, us, w0, k, opt = all_sizes_model(S, M, sysk, cost)
    tau = S.real("tau") if target else None
    rec = S.record()
    w = S.ok(S.call(opt.efficient_portfolio, tau) if target else S.call(opt.efficient_portfolio))
    S.true("one programme is solved", len(rec) == 1)
    ru_programme(S, rec[0], "programme", T, n, R, p, a, us, w0, k, tau)
    S.eq("the solver's weights are returned", w, rec[0]["x"].reshape(-1)[:n])


@contract("C05", funcs=["optimization.MeanCVaR.efficient_frontier", "optimization._FrontierMixin._frontier", "optimization._BaseOptimization._max_expected_return"], assumes=[RU], modes="PC",
          dims={"T": [3], "n": [3], "num": [3]}, cdims={"T": [40], "n": [6], "num": [4]}, samples=16, cfgs=[{"cost": 0}, {"cost": 1}], pcfgs=[{"cost": c, "num": k} for c in (0, 1) for k in (1, 2, 4)])
def all_sizes_frontier(S, M, cost, num=3):
    if not S.symbolic:
        return frontier(S, M, cost)
    T, n, R, a, p, us, w0, k, opt = all_sizes_model(S, M, "GA", cost)
    rec = S.record()
    F = S.ok(S.call(opt.efficient_frontier, num))
    if len(rec) < 2:
        raise Unsupported("programme layout not recognised")
    ru_programme(S, rec[0], "minimum risk", T, n, R, p, a, us, w0, k, None)
    mu = S.build((n,), lambda i: S.sigma(T, lambda t: p[t] * R[t, i]))
    ru_programme(S, rec[1], "maximum return", T, n, R, p, a, us, w0, k, None, c=lambda z: -S.sigma(n, lambda i: mu[i] * z.at(i)))
    S.eq("frontier starts at the minimum-CVaR portfolio", F[:, 0], rec[0]["x"].reshape(-1)[:n])
    x0, x1 = rec[0]["x"], rec[1]["x"]
    rmin, rmax = S.sigma(n, lambda i: mu[i] * x0.at(i, 0)), S.sigma(n, lambda i: mu[i] * x1.at(i, 0))
    if F.shape[1] == 1:
        if num >= 2:
            S.le("a single point only for one requested portfolio or a degenerate return range",
                 S.absval(rmin - rmax), S.const("0.0000101") * (S.absval(rmax) + S.absval(rmin)) + S.const("0.0000001"))
        return
    S.true("one column per requested portfolio", F.shape[1] == num and len(rec) == num + 1)
    for j in range(1, num):
        ru_programme(S, rec[j + 1], "column", T, n, R, p, a, us, w0, k, rmin + (rmax - rmin) * S.const(j) / (num - 1))
        S.eq("columns are the solutions for evenly spaced targets", F[:, j], rec[j + 1]["x"].reshape(-1)[:n])
