"""C06 robust mean programmes and relaxed risk parity (second-order cone programmes)."""
import numpy as np
from ..spec import contract, Reject
from ..term import Unsupported
from ._opt import dot, quad, user_system, prog_rows, soc_blocks, lin_obj, same_feasible_set, reference, vstack, hstack, Sys

CONE = "conelp with status 'optimal' returns a minimiser of c'x over {Gx + s = h, s in the declared cones, Ax = b}"


def conic(S, p, z):
    """Feasibility of z in the recorded cone programme."""
    g, a = prog_rows(p, z)
    f = [s >= 0 for s in g] + [r == 0 for r in a]
    for head, tail in soc_blocks(p, z):
        f += [head >= 0, sum((t * t for t in tail), 0 * head) <= head * head]
    return S.all(f)


def model(S, M, n, sysk, cost):
    mu = S.vec("mu", n, gen=lambda r: .05 + .08 * r.normal())
    U = S.spd("S", n)
    us = user_system(S, n, sysk)
    kw, w0, k = {}, None, None
    if cost:
        w0 = S.vec("w0", n, gen=lambda r: r.random() / n * 2)
        k = S.vec("k", n, lo=0, gen=lambda r: abs(r.normal()) * .02)
        kw = dict(initial_weights=w0, proportional_costs=k)
    opt = S.ok(S.call(M.optimization.RobustOptimizer, mu, U, **us.args, **kw), "valid data are accepted")
    return opt, mu, U, us, w0, k


def ref_socp(S, mu, U, us, w0, k, pen, cap):
    """Independent formulation with a symmetric square root and two-sided trade epigraphs: [w, t, v], v >= |w-w0|."""
    n = len(mu)
    nc = n if k is not None else 0
    lam, V = np.linalg.eigh(U)
    R = V @ np.diag(np.sqrt(lam)) @ V.T
    c = hstack(-mu, [pen], k if nc else np.zeros(0))
    G, h = [], []
    if us.G is not None:
        G.append(np.hstack([us.G, np.zeros((len(us.h), 1 + nc))])), h.append(us.h)
    if cap is not None:
        G.append(np.hstack([np.zeros((1, n)), [[1.0]], np.zeros((1, nc))])), h.append([np.sqrt(cap)])
    for s in (1, -1) if nc else ():
        G.append(np.hstack([s * np.eye(n), np.zeros((n, 1)), -np.eye(n)])), h.append(s * w0)
    soc = np.zeros((n + 1, n + 1 + nc))
    soc[0, n] = -1
    soc[1:, :n] = -R
    nl = sum(len(x) for x in h)
    A = None if us.A is None else np.hstack([us.A, np.zeros((len(us.b), 1 + nc))])
    x = reference(S, "conelp", c, np.vstack(G + [soc]), np.concatenate(h + [np.zeros(n + 1)]), {"l": nl, "q": [n + 1], "s": []}, A, us.b)
    return None if x is None else x[:n]


@contract("C06", funcs=["optimization.RobustOptimizer._solve_socp", "optimization.RobustOptimizer.solve_lambda_variant", "optimization.RobustOptimizer.solve_gamma_variant",
                        "optimization.RobustOptimizer.__init__", "bayesian._cholesky_pd"], assumes=[CONE],
          dims={"n": [1, 2, 3]}, quick_dims={"n": [1, 2]}, cdims={"n": [4]}, samples=260,
          cfgs=[{"sysk": s, "cost": c, "kind": k} for s in ("GA", "G", "A") for c in (0, 1) for k in ("lambda", "gamma")])
def robust(S, M, sysk, cost, kind):
    n = S.dim("n")
    S.unit_budget = False
    opt, mu, U, us, w0, k = model(S, M, n, sysk, cost)
    pen = S.real("pen", lo=0, gen=lambda r: 0.0 if r.random() < .15 else 3 * r.random())
    cap = S.real("cap", lo=0, gen=lambda r: 3 * r.random()) if kind == "gamma" else None
    go = (lambda: S.call(opt.solve_lambda_variant, pen)) if kind == "lambda" else (lambda: S.call(opt.solve_gamma_variant, pen, cap))
    if S.symbolic:
        res = S.ok(go())
        rec = S.record()
        S.true("one programme is solved", len(rec) == 1)
        p = rec[0]
        N = n + 1 + (2 * n if cost else 0)
        if p["kind"] != "conelp" or p["c"].shape[0] != N:
            raise Unsupported("programme layout not recognised")
        z = list(S.vec("pt_z", N))
        w, t, u = z[:n], z[n], z[n + 1:]
        cst = sum((k[i] * (u[i] + u[n + i]) for i in range(n)), 0 * t) if cost else 0
        S.eq("objective is -mu'w + penalty t + costs on traded amounts", lin_obj(p, z), -dot(mu, w) + pen * t + cst)
        feas = conic(S, p, z)
        S.true("programme points meet the user's constraints", S.implies(feas, us.holds(S, w)))
        socs = soc_blocks(p, z)
        if len(socs) != 1:
            raise Unsupported("cone layout not recognised")
        head, tail = socs[0]
        S.eq("the cone's norm is sqrt(w'S w)", sum((x * x for x in tail), 0 * t), quad(w, U))
        S.eq("the cone bounds the epigraph variable", head, t)
        if cap is not None:
            S.true("programme points respect the radius cap", S.implies(feas, t <= S.sqrt(cap)))
        for i in range(n) if cost else ():
            S.true("traded amounts cover the change of each weight",
                   S.implies(feas, S.all([u[i] + u[n + i] >= w[i] - w0[i], u[i] + u[n + i] >= w0[i] - w[i]])))
        # completeness: any user-feasible w with its own radius t (t^2 = w'Sw, t >= 0) and minimal trades
        w, t = list(S.vec("pt_w", n)), S.real("pt_t", lo=0)
        u = [S.pos(w[i] - w0[i]) for i in range(n)] + [S.pos(w0[i] - w[i]) for i in range(n)] if cost else []
        if cost:
            A = p["A"]
            if S.cond(A[A.shape[0] - n, n + 1] == 1):
                u = u[n:] + u[:n]
        g, e = prog_rows(p, w + [t] + u)
        want = S.all([us.holds(S, w)] + ([t <= S.sqrt(cap)] if cap is not None else []))
        S.true("user-feasible weights with their own radius are programme points", S.implies(want, S.all([s >= 0 for s in g] + [r == 0 for r in e])))
        x = p["x"].reshape(-1)
        S.eq("the solver's weights are returned", res.weights, x[:n])
        S.eq("reported return is mu'w", res.nominal_return, dot(mu, list(x[:n])))
        S.true("reported risk is non-negative", res.risk >= 0)
        S.eq("reported risk is sqrt(w'S w)", res.risk * res.risk, quad(list(x[:n]), U))
    else:
        if sysk == "A":
            raise Reject
        out = go()
        if cap is not None:
            base = ref_socp(S, mu, U, us, None, None, 1e4, None)
            if base is None or quad(base, U) > cap * .98:
                raise Reject
        ref = ref_socp(S, mu, U, us, w0, k, pen, cap)
        if ref is None:
            raise Reject
        res = S.ok(out, "a solvable problem returns")
        w = res.weights
        f = lambda v: -mu @ v + pen * np.sqrt(quad(v, U)) + (np.sum(k * abs(v - w0)) if cost else 0)
        S.true("weights satisfy the user's constraints", us.holds(S, w, 2e-5), f"{w}")
        if cap is not None:
            S.true("weights respect the radius cap", quad(w, U) <= cap * (1 + 1e-5) + 1e-7)
        S.true("weights attain the minimum of the stated objective", f(w) <= f(ref) + 5e-6 * (1 + abs(f(ref))), f"{f(w)} at {w}, but {f(ref)} at {ref}")
        S.eq("reported return is mu'w", res.nominal_return, mu @ w)
        S.eq("reported risk is sqrt(w'S w)", res.risk, np.sqrt(quad(w, U)), tol=1e-5)


@contract("C06", funcs=["optimization.RobustOptimizer.solve_lambda_variant", "optimization.RobustOptimizer.solve_gamma_variant", "optimization.RobustOptimizer.efficient_frontier"],
          dims={"n": [2]}, cfgs=[{"cost": 0}, {"cost": 1}], samples=30)
def refusals(S, M, cost):
    n = S.dim("n")
    opt, mu, U, us, w0, k = model(S, M, n, "GA", cost)
    neg = S.real("neg", hi_strict=0, gen=lambda r: -r.random() - 1e-3)
    pos = S.real("posv", lo=0, gen=lambda r: r.random())
    S.raises(S.call(opt.solve_lambda_variant, neg), ValueError, "negative penalty refused")
    S.raises(S.call(opt.solve_gamma_variant, neg, pos), ValueError, "negative penalty refused")
    S.raises(S.call(opt.solve_gamma_variant, pos, neg), ValueError, "negative cap refused")
    S.hook("solver_status", lambda kind, i: "unknown")
    S.raises(S.call(opt.solve_lambda_variant, pos), Exception, "uncertified solve raises")
    S.raises(S.call(opt.efficient_frontier, [pos]), Exception, "uncertified solve raises")


@contract("C06", funcs=["optimization.RobustOptimizer.efficient_frontier"], dims={"n": [2], "m": [1, 3]}, cfgs=[{"cost": 0}, {"cost": 1}], samples=40)
def robust_frontier(S, M, cost):
    n, m = S.dim("n"), S.dim("m")
    opt, mu, U, us, w0, k = model(S, M, n, "GA", cost)
    lams = S.vec("lam", m, lo=0, gen=lambda r: 2 * r.random())
    out = S.call(opt.efficient_frontier, list(lams))
    if S.symbolic:
        ret, risk, W = S.ok(out)
        rec = S.record()
        S.true("one programme per penalty", len(rec) == m)
    else:
        ret, risk, W = S.ok(out)
    S.eq_shape("one column per penalty", W, (n, m))
    for j in range(m):
        if S.symbolic:
            p = rec[j]
            z = list(S.vec("pt_z", p["c"].shape[0]))
            cst = sum((k[i] * (z[n + 1 + i] + z[2 * n + 1 + i]) for i in range(n)), 0 * z[0]) if cost else 0
            S.eq("column solved for its own penalty", lin_obj(p, z), -dot(mu, z[:n]) + lams[j] * z[n] + cst)
            S.eq("column holds the solver's weights", W[:, j], p["x"].reshape(-1)[:n])
        w = list(W[:, j])
        S.eq("return of its own column", ret[j], dot(mu, w))
        S.eq("risk of its own column", risk[j] * risk[j], quad(w, U), tol=1e-6)


# ------------------------------------------------------------------ relaxed risk parity
def rrp_model(S, M, n, sysk, budgets):
    mu = S.vec("mu", n, gen=lambda r: .05 + .08 * r.normal())
    if S.symbolic:
        C = S.spd("cov", n)
    else:
        f = S.vec("f", n, gen=lambda r: .3 + .7 * r.random())
        e = S.vec("e", n, gen=lambda r: .2 + r.random())
        g = S.vec("g", n, gen=lambda r: r.normal() * .4)
        C = .04 * (np.outer(f, f) + np.outer(g, g) * .3 + np.diag(e))
    if sysk == "":
        us = Sys(None, None, None, None)
    elif sysk == "cap":
        c = S.real("hi", gen=lambda r: 1.6 / n + .3 * r.random())
        us = Sys(S.np.eye(n), S.arr([c] * n), None, None)
    elif sysk == "budget":
        us = Sys(None, None, S.np.ones((1, n)), S.arr([S.const(1)]))
    elif sysk == "row":            # one further equality, no budget row supplied
        r = S.vec("row", n, gen=lambda r: r.normal())
        S.assume(S.absval(r[0] - 1) > S.const("0.01"))       # not itself a budget row
        rhs = S.real("rhs") if S.symbolic else None
        if not S.symbolic:
            w = S.prob("at", n, strict=True)
            rhs = r @ w
        us = Sys(None, None, S.np.asarray([list(r)], dtype=float), S.arr([rhs]))
    else:                          # inequalities and both equalities
        if S.symbolic:
            G, h = S.mat("G", 2, n), S.vec("h", 2)
        else:
            G = np.vstack([S.vec("G0", n), S.vec("G1", n)])
            h = G @ np.full(n, 1 / n) + S.vec("sl", 2, lo=0, gen=lambda r: .05 + r.random())
        us = Sys(G, h, S.np.ones((1, n)), S.arr([S.const(1)]))
    b = None
    if budgets == "given":
        b = S.prob("bud", n, strict=True)
    elif budgets == "scaled":
        b = S.vec("bud", n, lo_strict=0, gen=lambda r: .2 + r.random())
    opt = S.ok(S.call(M.optimization.RelaxedRiskParity, mu, C, **us.args, **({"risk_budgets": b} if b is not None else {})), "valid data are accepted")
    bb = [S.const(1) / n] * n if b is None else ([x / sum(b) for x in b] if not S.symbolic else None)
    if S.symbolic and b is not None:
        tot = S.total(b)
        if budgets == "given":
            bb = list(b)
        elif S.cond(S.absval(tot - 1) <= S.const("0.00001001")):
            bb = list(b) if S.cond(S.absval(tot - 1) <= S.const("0.00001") * 1 + S.const("0.00000001")) else [x / tot for x in b]
        else:
            bb = [x / tot for x in b]
    return opt, mu, C, us, bb


def rrp_checks(S, p, n, mu, C, us, bb, lam, tau):
    N = 2 * n + 4
    if p["kind"] != "conelp" or p["c"].shape[0] != N:
        raise Unsupported("programme layout not recognised")
    z = list(S.vec("pt_z", N))
    x, zeta, psi, gam, rho, q = z[:n], z[n:2 * n], z[2 * n], z[2 * n + 1], z[2 * n + 2], z[2 * n + 3]
    S.eq("objective is psi - gamma", lin_obj(p, z), psi - gam)
    g, a = prog_rows(p, z)
    lin = S.all([s >= 0 for s in g] + [r == 0 for r in a])
    want = [v >= 0 for v in x + zeta + [psi, gam, rho]] + [S.total(S.arr(x)) == 1, us.holds(S, x)]
    want += [zeta[i] == dot(list(C[i]), x) for i in range(n)]
    if tau is not None:
        want.append(dot(mu, x) >= tau)
    want = S.all(want)
    S.true("linear part of the programme implies budget, signs, marginal risks, user constraints and target", S.implies(lin, want))
    S.true("budget, signs, marginal risks, user constraints and target imply the programme's linear part", S.implies(want, lin))
    socs = soc_blocks(p, z)
    pen = [x[i] * x[i] * C[i, i] for i in range(n)]
    if len(socs) != 2 + n + (1 if lam is not None else 0):
        raise Unsupported("cone layout not recognised")
    sq = lambda tail: sum((v * v for v in tail), 0 * psi)
    # every cone as head, |tail|^2
    h, t = socs[0]
    S.eq("average-risk cone head", h, q)
    S.eq("average-risk cone norm is sqrt(x'Cov x)", sq(t), quad(x, C))
    h, t = socs[1]
    S.eq("regulator cone: (q^2 + n rho^2) <= n psi^2", h * h - sq(t), n * psi * psi - q * q - n * rho * rho)
    S.true("regulator cone head has the sign of psi", S.implies(psi >= 0, h >= 0))
    k = 2
    if lam is not None:
        h, t = socs[2]
        S.eq("penalty cone head", h, rho)
        S.eq("penalty cone norm^2 is lambda x'diag(Cov)x", sq(t), lam * sum(pen, 0 * psi))
        k = 3
    for i in range(n):
        h, t = socs[k + i]
        S.eq("risk-contribution cone: x_i zeta_i >= b_i gamma^2", h * h - sq(t), 4 * (x[i] * zeta[i] - bb[i] * gam * gam))
        S.true("risk-contribution cone head is non-negative for non-negative weight and risk", S.implies(S.all([x[i] >= 0, zeta[i] >= 0]), h >= 0))


@contract("C06", funcs=["optimization.RelaxedRiskParity.__init__", "optimization.RelaxedRiskParity.solve", "optimization.RelaxedRiskParity._extract_user_constraints",
                        "optimization.RelaxedRiskParity._max_linear_return"], assumes=[CONE],
          dims={"n": [2, 3]}, quick_dims={"n": [2]}, cdims={"n": [4]}, samples=260,
          cfgs=[{"sysk": s, "bud": b, "lam": l, "target": t} for s, b, l, t in
                [("", "", 0, 0), ("", "given", 1, 0), ("", "scaled", 1, 1), ("cap", "", 1, 1), ("cap", "", 0, 1), ("budget", "", 0, 0), ("budget", "given", 1, 1),
                 ("row", "", 0, 0), ("row", "", 1, 1), ("full", "", 1, 0), ("full", "given", 0, 1), ("full", "", 1, 2), ("", "", 0, 2)]])
def rrp(S, M, sysk, bud, lam, target):
    n = S.dim("n")
    opt, mu, C, us, bb = rrp_model(S, M, n, sysk, bud)
    l = S.real("lam", lo_strict=0, gen=lambda r: 2 * r.random() + 1e-3) if lam else None
    tau = S.real("tau", gen=lambda r: -.02 + .25 * r.random()) if target else None
    mt = S.real("mintau", gen=lambda r: -.3 + .02 * r.random()) if target == 2 else None
    kw = {}
    if l is not None:
        kw["lambda_reg"] = l
    if target:
        kw["return_target"] = tau
    if mt is not None:
        kw["min_target"] = mt
    out = S.call(opt.solve, **kw)
    if S.symbolic:
        res = S.ok(out)
        rec = S.record()
        S.true("one cone programme, preceded by the maximum-return programme exactly when a target is given", len(rec) == (2 if target else 1))
        used = None
        if target:
            q = rec[0]
            if q["kind"] != "lp" or q["c"].shape[0] != n:
                raise Unsupported("maximum return programme not recognised")
            y = S.vec("pt_y", n)
            S.eq("maximum-return programme maximises mu'x", lin_obj(q, list(y)), -dot(mu, list(y)))
            same_feasible_set(S, "maximum return", q, us, y, [v >= 0 for v in y] + [S.total(y) == 1])
            top = dot(mu, list(q["x"].reshape(-1)))
            S.eq("reported maximum return", res.max_return, top)
            tol = S.const("0.001") * S.absval(top)
            tol = tol if S.cond(tol >= S.const("0.00000001")) else S.const("0.00000001")
            used = top - tol if S.cond(tau >= top - tol) else tau
            if mt is not None and S.cond(mt > used):
                used = mt
            S.eq("target used is the requested one, clipped just below the maximum, not under the floor", res.target_return, used)
        rrp_checks(S, rec[-1], n, mu, C, us, bb, l, used)
        x = rec[-1]["x"].reshape(-1)
        S.eq("weights are the solver's", res.weights, x[:n])
        S.eq("marginal risks are the solver's", res.marginal_risk, x[n:2 * n])
        S.eq("psi", res.psi, x[2 * n])
        S.eq("gamma", res.gamma, x[2 * n + 1])
        S.eq("rho", res.rho, x[2 * n + 2])
        S.eq("objective", res.objective, x[2 * n] - x[2 * n + 1])
    else:
        lamv = 0.0 if l is None else l
        G, h = vstack(us.G, -np.eye(n)), hstack(us.h, np.zeros(n))
        A, b = (np.ones((1, n)), [1.0]) if sysk in ("", "cap", "budget", "full") else (vstack(us.A, np.ones((1, n))), hstack(us.b, 1.0))
        used = None
        if target:
            y = reference(S, "lp", -mu, G, h, A, b)
            if y is None:
                raise Reject
            tol = max(1e-8, 1e-3 * abs(mu @ y))
            used = min(tau, mu @ y - tol)
            if mt is not None:
                used = max(used, mt)
        ref = ref_rrp(S, n, mu, C, G, h, A, b, bb, lamv, used)
        if ref is None:
            raise Reject
        r = S.ok(out, "a solvable problem returns")
        x = r.weights
        e = 3e-5
        S.true("weights are long-only and fully invested", np.all(x >= -e) and abs(x.sum() - 1) <= e, f"{x}")
        S.true("weights satisfy the user's constraints", us.holds(S, x, 3e-5), f"{x}")
        if used is not None:
            S.true("attainable target enforced, unattainable one clipped just below the maximum", mu @ x >= used - 1e-6, f"{mu @ x} < {used}")
            S.eq("target used", r.target_return, used, tol=1e-6)
        S.eq("marginal risks are Cov x", r.marginal_risk, C @ x, tol=1e-5)
        S.true("risk contributions reach their floor", np.all(x * (C @ x) >= np.array(bb) * r.gamma ** 2 - 1e-6), f"{x * (C @ x)} vs {np.array(bb) * r.gamma ** 2}")
        S.true("average risk is regulated", x @ C @ x / n + r.rho ** 2 <= r.psi ** 2 + 1e-6)
        S.true("penalty is regulated", lamv * np.sum(np.diag(C) * x * x) <= r.rho ** 2 + 1e-6)
        S.eq("objective is psi - gamma", r.objective, r.psi - r.gamma)
        best = rrp_value(ref, C, np.array(bb), lamv)
        mine = rrp_value(x, C, np.array(bb), lamv)
        S.true("weights attain the minimum of psi - gamma", mine <= best + 3e-5, f"{mine} at {x}, but {best} at {ref}")
        S.true("reported objective is the attained one", abs(r.objective - mine) <= 5e-5, f"{r.objective} vs {mine}")


def rrp_value(x, C, b, lam):
    x = np.maximum(x, 0)
    rho2 = lam * np.sum(np.diag(C) * x * x)
    return np.sqrt(x @ C @ x / len(x) + rho2) - np.sqrt(max(0.0, np.min(x * (C @ x) / b)))


def ref_rrp(S, n, mu, C, G, h, A, b, bb, lam, tau):
    """Independent formulation over [x, psi, gamma] with rho eliminated (rho = sqrt(lam x'Dx) at the optimum)."""
    d, V = np.linalg.eigh(C / n + lam * np.diag(np.diag(C)))
    R = V @ np.diag(np.sqrt(np.maximum(d, 0))) @ V.T
    N = n + 2
    G, h = np.hstack([G, np.zeros((len(h), 2))]), np.asarray(h, float)
    if tau is not None:
        G, h = vstack(G, hstack(-mu, 0, 0)[None, :]), hstack(h, -tau)
    G, h = vstack(G, hstack(np.zeros(n), 0, -1)[None, :]), hstack(h, 0)
    G, h = vstack(G, np.hstack([-C, np.zeros((n, 2))])), hstack(h, np.zeros(n))
    nl = len(h)
    blk, q = [], []
    B = np.zeros((n + 1, N))
    B[0, n] = -1
    B[1:, :n] = -R
    blk.append(B), q.append(n + 1)
    for i in range(n):
        B = np.zeros((3, N))
        B[0, :n] = -C[i]
        B[0, i] -= 1
        B[2, :n] = -C[i]
        B[2, i] += 1
        B[1, n + 1] = -2 * np.sqrt(bb[i])
        blk.append(B), q.append(3)
    GG = np.vstack([G] + blk)
    hh = np.concatenate([h, np.zeros(len(GG) - nl)])
    x = reference(S, "conelp", hstack(np.zeros(n), 1, -1), GG, hh, {"l": nl, "q": q, "s": []}, np.hstack([A, np.zeros((len(A), 2))]), np.asarray(b, float))
    return None if x is None else x[:n]


@contract("C06", funcs=["optimization.RelaxedRiskParity.solve", "optimization.RelaxedRiskParity.__init__"], dims={"n": [2]}, samples=40)
def rrp_refusals(S, M):
    n = S.dim("n")
    opt, mu, C, us, bb = rrp_model(S, M, n, "", "")
    neg = S.real("neg", hi_strict=0, gen=lambda r: -r.random() - 1e-3)
    S.raises(S.call(opt.solve, lambda_reg=neg), ValueError, "negative penalty refused")
    S.raises(S.call(opt.solve, return_target=float("nan")), ValueError, "non-finite target refused")
    S.raises(S.call(opt.solve, return_target=float("inf")), ValueError, "non-finite target refused")
    S.raises(S.call(M.optimization.RelaxedRiskParity, mu, C, risk_budgets=S.arr([S.real("b0", lo_strict=0)] * (n + 1))), ValueError, "budgets of the wrong length refused")
    bad = S.vec("bb", n, lo_strict=0)
    nb = S.real("nb", hi=0)
    S.raises(S.call(M.optimization.RelaxedRiskParity, mu, C, risk_budgets=S.arr([nb] + list(bad)[1:])), ValueError, "non-positive budgets refused")
    S.raises(S.call(M.optimization.RelaxedRiskParity, S.arr(list(mu) + [S.const(0)]), C), ValueError, "inconsistent dimensions refused")
    S.hook("solver_status", lambda kind, i: "unknown")
    S.raises(S.call(opt.solve), Exception, "uncertified solve raises")


# ------------------------------------------------------------------ every array size
from .c04_mean_variance import all_sizes_system


def rows_at(S, what, M_, v_, z, blocks, o=0):
    """Row blocks (count, value at z, right-hand side) of  M z (<= or =) v , from row o on; returns the next row."""
    if not blocks:
        return o
    if M_ is None:
        S.fail(what + ": rows present")
        return o
    lhs, rhs = M_ @ z, v_.reshape(-1)
    for q, (m, f, g) in enumerate(blocks):
        S.eq(what + f": rows, block {q}", lhs[o:o + m], S.build((m,), f))
        S.eq(what + f": right-hand sides, block {q}", rhs[o:o + m], S.build((m,), g))
        o = o + m
    return o


@contract("C06", funcs=["optimization.RobustOptimizer._solve_socp", "optimization.RobustOptimizer.solve_lambda_variant", "optimization.RobustOptimizer.solve_gamma_variant",
                        "optimization.RobustOptimizer.__init__", "bayesian._cholesky_pd"], assumes=[CONE], modes="PC", dims={"n": [4]}, cdims={"n": [7, 20]}, samples=60,
          cfgs=[{"sysk": s, "cost": c, "kind": k} for s in ("GA", "G") for c in (0, 1) for k in ("lambda", "gamma")],
          pcfgs=[{"sysk": s, "cost": c, "kind": k} for s in ("GA", "G", "A", "") for c in (0, 1) for k in ("lambda", "gamma")])
def all_sizes_robust(S, M, sysk, cost, kind):
    if not S.symbolic:
        return robust(S, M, sysk, cost, kind)
    n = S.dim("n")
    mu, U = S.vec("mu", n), S.spd("S", n)
    us = all_sizes_system(S, n, sysk)
    w0, k = (S.vec("w0", n), S.vec("k", n, lo=0)) if cost else (None, None)
    opt = S.ok(S.call(M.optimization.RobustOptimizer, mu, U, **us.args, **(dict(initial_weights=w0, proportional_costs=k) if cost else {})), "valid data are accepted")
    pen, cap = S.real("pen", lo=0), S.real("cap", lo=0) if kind == "gamma" else None
    rec = S.record()
    res = S.ok(S.call(opt.solve_lambda_variant, pen) if kind == "lambda" else S.call(opt.solve_gamma_variant, pen, cap))
    S.true("one programme is solved", len(rec) == 1)
    p = rec[0]
    if p["kind"] != "conelp":
        raise Unsupported("programme layout not recognised")
    N = n + 1 + (2 * n if cost else 0)
    z = S.vec("pt_z", N)
    S.eq("objective is -mu'w + penalty t + costs on traded amounts", (p["c"].reshape(-1) * z).sum(),
         -S.sigma(n, lambda i: mu[i] * z.at(i)) + pen * z.at(n) + (S.sigma(n, lambda i: k[i] * (z.at(n + 1 + i) + z.at(n + 1 + n + i))) if cost else 0))
    lin, eqs = [], []
    if us.G is not None:
        lin.append((us.G.shape[0], lambda r: S.sigma(n, lambda i: us.G[r, i] * z.at(i)), lambda r: us.h[r]))
    if cost:
        lin.append((2 * n, lambda i: -z.at(n + 1 + i), lambda i: S.lit(0)))
    if cap is not None:
        lin.append((1, lambda i: z.at(n), lambda i: S.sqrt(cap)))
    if us.A is not None:
        eqs.append((us.A.shape[0], lambda r: S.sigma(n, lambda i: us.A[r, i] * z.at(i)), lambda r: us.b[r]))
    if cost:
        eqs.append((n, lambda i: z.at(i) - z.at(n + 1 + i) + z.at(n + 1 + n + i), lambda i: w0[i]))
    o = rows_at(S, "linear inequalities", p["G"], p["h"], z, lin)
    S.true("dims: linear rows, then one cone of n+1 rows", S.all([o - p["dims"]["l"] + S.lit(0) == 0, len(p["dims"]["q"]) == 1, n + 1 - p["dims"]["q"][0] + S.lit(0) == 0]))
    S.eq("no further rows", p["G"].shape[0], o + n + 1)
    e = rows_at(S, "equalities", p["A"], p["b"], z, eqs)
    if not eqs:
        S.true("no equalities", p["A"] is None)
    else:
        S.eq("no further equalities", p["A"].shape[0], e)
    slack = p["h"].reshape(-1)[o:] - (p["G"] @ z)[o:]
    S.eq("the cone bounds the epigraph variable", slack[0], z.at(n))
    tail = slack[1:]
    S.eq("the cone's norm is sqrt(w'S w)", (tail * tail).sum(), S.sigma(n, lambda i: S.sigma(n, lambda j: z.at(i) * U[i, j] * z.at(j))))
    x = p["x"].reshape(-1)
    S.eq("the solver's weights are returned", res.weights, x[:n])
    S.eq("reported return is mu'w", res.nominal_return, S.sigma(n, lambda i: mu[i] * x.at(i)))
    S.eq("reported risk is sqrt(w'S w)", res.risk * res.risk, S.sigma(n, lambda i: S.sigma(n, lambda j: x.at(i) * U[i, j] * x.at(j))))
    S.true("reported risk is non-negative", res.risk >= 0)
