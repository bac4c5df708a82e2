"""C11 entropy-pooling views are encoded and solved as stated."""
import warnings
import numpy as np
from ..spec import contract, Reject
from ._opt import dot

NAMES = ["B", "A", "C"]
V = "views.FlexibleViewsProcessor."
ENC = [V + f for f in ("__init__", "_parse_view", "_parse_view_specs", "_asset_idx", "_build_constraints", "_compute_posterior_probabilities", "get_scenarios", "get_posterior_probabilities", "get_posterior")]


# ------------------------------------------------------------------------------------------------ dual problem
def no_clip(S):
    """exponents beyond +-700 are outside the modelled range (exp(-700) is zero for every purpose here)"""
    if S.symbolic:
        def clip(x, lo, hi):
            if lo is not None and float(lo) <= -700 and float(hi) >= 700:
                if S.P:
                    return x                    # all sizes: assumed for every scenario
                for v in np.asarray(x, dtype=object).ravel():
                    S.assume(S.all([v > S.lit(-700), v < S.lit(700)]))
                return x
        S.hook("clip", clip)


@contract("C11", funcs=["views._entropy_pooling_dual_objective"], dims={"T": [1, 2, 3], "K": [1, 2]}, cdims={"T": [6], "K": [3]}, samples=120)
def dual(S, M):
    T, K = S.dim("T"), S.dim("K")
    no_clip(S)
    lam, lp, A, b = S.vec("lam", K), S.vec("lp", T), S.mat("A", K, T), S.vec("b", K)
    v, g = S.ok(S.call(M.views._entropy_pooling_dual_objective, lam, lp.reshape(-1, 1), A, b if K > 1 else b[0] if S.symbolic else np.asarray(b[0])))
    x = [S.exp(lp[t] - 1 - sum((lam[k] * A[k, t] for k in range(K)), 0 * lam[0])) for t in range(T)]
    S.eq("value is 1000 (sum exp(log p - 1 - A'l) + b'l)", v, 1000 * (sum(x, 0 * x[0]) + dot(lam, b)), tol=1e-12)
    S.eq("gradient is its exact derivative 1000 (b - A exp(...))", g, S.arr([1000 * (b[k] - dot(list(A[k]), x)) for k in range(K)]), tol=1e-9)
    if not S.symbolic:                         # the derivative, independently of the formula
        e = 1e-6
        for k in range(K):
            d = np.zeros(K)
            d[k] = e
            f = lambda z: M.views._entropy_pooling_dual_objective(z, lp.reshape(-1, 1), A, b)[0]
            S.eq("central difference agrees with the gradient", g[k], (f(lam + d) - f(lam - d)) / (2 * e), tol=1e-4)


@contract("C11", funcs=["views.entropy_pooling", "views._entropy_pooling_dual_objective"], dims={"T": [2, 3], "K": [0, 1], "J": [0, 1]}, quick_dims={"T": [2], "K": [0, 1], "J": [0, 1]}, cdims={"T": [3, 6, 20], "K": [0, 1, 2], "J": [0, 1, 2]}, samples=400, cbudget=14,
          cfgs=[{"method": m, "col": c} for m in (None, "TNC", "L-BFGS-B") for c in (0, 1)], skip=lambda d, c: d.get("T", 2) > 2 or c["method"] == "TNC")
def pooling(S, M, method, col):
    """minimize's assumed contract: on success it returns a KKT point of the objective it is given over the bounds it is given"""
    T, K, J = S.dim("T"), S.dim("K", lo=0), S.dim("J", lo=0)
    if S.symbolic and T == 2 and K + J > 1:
        K, J = (1, 0)
    no_clip(S)
    p = S.prob("p", T)
    if S.symbolic:
        A, b = S.mat("A", K, T) if K else None, S.vec("b", K) if K else []
        G, h = S.mat("G", J, T) if J else None, S.vec("h", J) if J else []
        r = S.prob("r", T, strict=False)

        seen = []

        def solve(fun, x0, args=(), method=None, jac=None, bounds=None, options=None, **kw):
            n = len(x0)
            lam = S.vec("lam", n)
            seen.append((lam, args))
            val, g = fun(lam, *args)
            g = S.np.atleast_1d(g)
            for k in range(n):
                lb, ub = bounds.lb[k], bounds.ub[k]
                S.true("multipliers are not bounded above", not (ub < float("inf")))
                if lb == -float("inf"):
                    S.assume(g[k] == 0)
                else:
                    S.true("only multipliers of inequalities are bounded, by zero", lb == 0)
                    S.assume(S.all([lam[k] >= 0, g[k] >= 0, lam[k] * g[k] == 0]))

            class Sol:
                pass
            s = Sol()
            s.x, s.success, s.fun = lam, True, val
            return s
        S.hook("minimize", solve)
    else:
        sc = float(S.rng.choice([1e-3, 1.0, 50.0]))
        r = S.rng.dirichlet(np.ones(T) * 2)
        if r.min() < 1e-3:
            raise Reject
        A = S.rng.normal(size=(K, T)) * sc if K else None
        G = S.rng.normal(size=(J, T)) * sc if J else None
        b = A @ r if K else []
        h = G @ r + sc * S.rng.choice([0., .1, .5], size=J) if J else []
        if K + 1 > T - 1:
            raise Reject
    ones = S.np.ones((1, T))
    AA = S.np.vstack([A, ones]) if K else ones
    bb = S.arr(list(b) + [S.lit(1)])
    kw = {"G": G, "h": S.arr(list(h))} if J else {}
    if col and J:
        kw["h"] = kw["h"].reshape(-1, 1)
    out = S.call(M.views.entropy_pooling, p.reshape(-1, 1).copy() if col else p.copy(), AA, bb.reshape(-1, 1) if col else bb, method=method, **kw)
    if not S.symbolic and out.exc is not None and isinstance(out.exc, RuntimeError):
        raise Reject                            # the numerical solver gave up: reported, not silently wrong
    q = S.ok(out)
    S.true("column vector of scenario probabilities", tuple(q.shape) == (T, 1))
    q = q[:, 0]
    S.true("posterior probabilities are positive", S.all([x > 0 for x in q]) if S.symbolic else bool((q > 0).all()))
    S.eq("posterior probabilities sum to one", S.total(q), S.lit(1), tol=1e-9)
    for k in range(K):
        s = 1.0 if S.symbolic else np.abs(A[k]).max()
        S.eq("equalities hold", dot(A[k], q) / s, b[k] / s, tol=2e-4)
    for j in range(J):
        s = 1.0 if S.symbolic else np.abs(G[j]).max()
        S.le("inequalities hold", dot(G[j], q) / s, h[j] / s, tol=2e-4)
    S.assume(S.all([S.close(dot(A[k], r), b[k], 1e-6) for k in range(K)] + [dot(G[j], r) <= h[j] + (0 if S.symbolic else 1e-9) for j in range(J)]))
    # q minimises the convex relative entropy over the polytope iff no feasible direction descends
    if S.symbolic:
        lam, (lp, L, rhs) = seen[-1]                   # the multipliers and the (rescaled) rows they belong to
        rhs = np.asarray(rhs, dtype=object).ravel()
        w = [S.exp(dot(lam, list(L[:, t]))) for t in range(T)]
        for t in range(1, T):                          # log(q/p) + multipliers x rows is constant, in exponential form
            S.eq("stationarity: q/p times exp(multipliers x rows) is constant", q[t] * p[0] * w[t], q[0] * p[t] * w[0])
        for k in range(len(lam)):
            Lr, Lq = dot(list(L[k]), r), dot(list(L[k]), q)
            if k < K or k == len(lam) - J - 1:
                S.eq("feasible vectors and the posterior meet the row of an equality multiplier", Lr, rhs[k])
                S.eq("the posterior meets the row of an equality multiplier", Lq, rhs[k])
            else:
                S.le("feasible vectors respect the row of an inequality multiplier", Lr, rhs[k])
                S.true("inequality multipliers are non-negative", lam[k] >= 0)
                S.eq("complementary slackness", lam[k] * (rhs[k] - Lq), S.lit(0))
        return
    d = sum(((r[t] - q[t]) * (S.log(q[t]) - S.log(p[t])) for t in range(T)), 0 * q[0])
    S.le("no feasible vector descends: minimum relative entropy", -2e-3 * max(1.0, float(np.abs(np.log(q / p)).max())), d)


@contract("C11", funcs=[], modes="F", dims={"T": [2, 3, 4], "K": [1, 2]}, quick_dims={"T": [2, 3], "K": [1, 2]}, samples=0)
def lagrangian_lemma(S, M):
    """lemma: stationarity, feasibility and complementary slackness make (r-q).(log q - log p) >= 0 for every feasible r"""
    T, K = S.dim("T"), S.dim("K")
    q, r, lam, L, rhs, c = S.prob("q", T), S.prob("r", T, strict=False), S.vec("lam", K), S.mat("L", K, T), S.vec("rhs", K), S.real("c")
    m = [lam[k] * (dot(list(L[k]), r) - dot(list(L[k]), q)) for k in range(K)]
    S.assume(S.all([x <= 0 for x in m]))               # = 0 for an equality, lam (Lr - rhs) + lam (rhs - Lq) <= 0 for an inequality
    w = [c - dot(lam, list(L[:, t])) for t in range(T)]
    S.le("no feasible vector descends", S.lit(0), sum(((r[t] - q[t]) * w[t] for t in range(T)), 0 * q[0]))


@contract("C11", funcs=["views.entropy_pooling"], modes="FC", cfgs=[{"case": c} for c in ("method", "negative", "zero", "nan", "empty", "failed")], samples=6)
def pooling_refuses(S, M, case):
    A, b = np.array([[1., 2., 3.], [1., 1., 1.]]), np.array([2., 1.])
    p = {"negative": [.5, .7, -.2], "zero": [.5, .5, 0.], "nan": [.5, float("nan"), .5], "empty": []}.get(case, [.2, .3, .5])

    class Sol:
        x, success, status, message = np.zeros(2), False, 3, "gave up"
    S.hook("minimize", lambda *a, **k: Sol() if case == "failed" else None)
    S.raises(S.call(M.views.entropy_pooling, np.array(p), A, b, method="SLSQP" if case == "method" else None), Exception, "refused: " + case)


@contract("C11", funcs=["views.entropy_pooling"], modes="C", dims={"T": [3]}, cdims={"T": [4, 10, 40]}, samples=80, cfgs=[{"method": m} for m in ("TNC", "L-BFGS-B")])
def unattainable(S, M, method):
    """bounded: a target outside the scenario range is refused whatever the solver reports"""
    T = S.dim("T")
    x = S.rng.normal(size=T) * float(S.rng.choice([1e-3, 1., 30.]))
    t = x.max() + (x.max() - x.min()) * S.rng.uniform(.05, 8)
    S.raises(S.call(M.views.entropy_pooling, np.ones(T) / T, np.vstack([x, np.ones(T)]), np.array([t, 1.0]), method=method), RuntimeError, "unattainable target refused")


# ------------------------------------------------------------------------------------------------ encoding of views
class Calls:
    """Every entropy-pooling problem the processor poses.  Symbolically the answer is an arbitrary positive probability
    vector satisfying the posed system (the contract of entropy_pooling proved above); concretely the real answer."""

    def __init__(self, S, M, infeasible=None, may_fail=False):
        self.S, self.log, self.may_fail = S, [], may_fail
        S.spy(M, getattr(M.views, "entropy_pooling", None), self)
        self.infeasible = infeasible

    def __call__(self, real, p, A, b, G=None, h=None, method=None):
        S = self.S
        T = np.asarray(p, dtype=object).size
        flat = lambda x: [] if x is None else list(np.asarray(x, dtype=object).ravel())
        rows = lambda x: [] if x is None else [list(np.asarray(x, dtype=object)[i]) for i in range(np.asarray(x, dtype=object).shape[0])]
        A_, b_, G_, h_, p_ = rows(A), flat(b), rows(G), flat(h), flat(p)
        if real is not None:
            q = real(p, A, b, G, h) if method is None else real(p, A, b, G, h, method)
            self.log.append((p_, A_, b_, G_, h_, list(q.ravel())))
            return q
        for c in self.log:
            if len(c[1]) == len(A_) and len(c[3]) == len(G_) and all(self.same(x, y) for x, y in zip([c[0], c[2], c[4]] + c[1] + c[3], [p_, b_, h_] + A_ + G_)):
                q = c[5]
                break
        else:
            if self.infeasible is not None and self.infeasible(A_, b_):
                raise RuntimeError("unattainable")
            if self.may_fail and S.cond(S.real(f"attainable{len(self.log)}") < 0):
                raise RuntimeError("unattainable")
            q = list(S.prob(f"q{len(self.log)}", T))
            S.assume(S.all([dot(a, q) == v for a, v in zip(A_, b_)] + [dot(g, q) <= v for g, v in zip(G_, h_)]))
            self.log.append((p_, A_, b_, G_, h_, q))
        return S.arr(q).reshape(-1, 1)

    @staticmethod
    def same(x, y):
        from .. import term as tm
        return len(x) == len(y) and all(tm.is_zero(tm.lift(a) - tm.lift(b)) for a, b in zip(x, y))


def holds(S, c, r):
    """the posed system at the probability vector r"""
    return S.all([dot(a, r) == v for a, v in zip(c[1], c[2])] + [dot(g, r) <= v for g, v in zip(c[3], c[4])])


def op_holds(S, op, x, t):
    if op in ("==", "="):
        return x == t
    if op in ("<=", "<"):
        return x <= t
    if op in (">=", ">"):
        return x >= t
    return S.all([x >= t[0], x <= t[1]])


OPS = ("plain", "==", ">=", "<=", ">", "<", "between", "list")


def view_value(M, S, op, t, helpers):
    """the user's way of writing 'op t'"""
    if op == "between":
        return (M.views.between(*t) if helpers else ("between", t[0], t[1])), op
    if op == "plain":
        return t, "=="
    if op == "list":
        return [">=", t], ">="
    h = {">=": "at_least", "<=": "at_most", ">": "above", "<": "below"}.get(op)
    return (getattr(M.views, h)(t) if helpers and h else (op, t)), op


def moments(S, R, q, T, n):
    m = [sum((q[t] * R[t, i] for t in range(T)), 0 * q[0]) for i in range(n)]
    v = [sum((q[t] * (R[t, i] - m[i]) * (R[t, i] - m[i]) for t in range(T)), 0 * q[0]) for i in range(n)]
    return m, v


def raw(S, R, r, T, f):
    return sum((r[t] * f(R[t]) for t in range(T)), 0 * r[0])


def stated(S, kind, i, j, op, t, R, r, T, cur):
    """the constraint a view states, at probability vector r; cur: current means and variances"""
    m, v = cur
    if kind == "mean":
        return op_holds(S, op, raw(S, R, r, T, lambda x: x[i]), t)
    if kind == "rel":
        return op_holds(S, op, raw(S, R, r, T, lambda x: x[i] - x[j]), t)
    lift = lambda f: (f(t[0]), f(t[1])) if op == "between" else f(t)
    if kind == "vol":
        return op_holds(S, op, raw(S, R, r, T, lambda x: x[i] * x[i]), lift(lambda u: u * u + m[i] * m[i]))
    if kind == "var":
        return op_holds(S, op, raw(S, R, r, T, lambda x: x[i] * x[i]), lift(lambda u: u + m[i] * m[i]))
    if kind == "skew":
        s = S.sqrt(v[i])
        return op_holds(S, op, raw(S, R, r, T, lambda x: x[i] * x[i] * x[i]), lift(lambda u: u * s * s * s + 3 * m[i] * v[i] + m[i] * m[i] * m[i]))
    if kind == "corr":
        return op_holds(S, op, raw(S, R, r, T, lambda x: x[i] * x[j]), lift(lambda u: u * S.sqrt(v[i]) * S.sqrt(v[j]) + m[i] * m[j]))
    raise KeyError(kind)


def scenario_table(S, T, n):
    if S.symbolic:
        return S.mat("R", T, n)
    return S.rng.normal(size=(T, n)) * float(S.rng.choice([.02, 1.])) + S.rng.normal(size=n) * .01


def distinct(S, R, p, T, n):
    """non-degenerate marginals (positive variance beyond the 1e-12 guard)"""
    m, v = moments(S, R, p, T, n)
    S.assume(S.all([x > S.const("0.00000001") for x in v]))
    return m, v


def final_checks(S, M, fv, calls, R, T, n, names, p):
    q = S.ok(S.call(fv.get_posterior_probabilities))
    S.true("posterior is a column of scenario probabilities", tuple(q.shape) == (T, 1))
    want = calls.log[-1][5] if calls.log else p
    S.eq("posterior is the pooling solution (the prior when no view is declared)", q[:, 0], S.arr(want))
    q = list(want)
    m = [sum((q[t] * R[t, i] for t in range(T)), 0 * q[0]) for i in range(n)]
    c = [[sum((q[t] * (R[t, i] - m[i]) * (R[t, j] - m[j]) for t in range(T)), 0 * q[0]) for j in range(n)] for i in range(n)]
    a, b = S.ok(S.call(fv.get_posterior))
    sc = S.ok(S.call(fv.get_scenarios))
    if names:
        S.true("asset names on the posterior moments", list(a.index) == names and list(b.index) == names and list(b.columns) == names and list(sc.columns) == names)
        a, b, sc = a.to_numpy(), b.to_numpy(), sc.to_numpy()
    S.eq("posterior mean", a, S.arr(m), tol=1e-9)
    S.eq("posterior covariance", b, S.arr(c), tol=1e-9)
    S.eq("scenarios are the given ones", sc, R)


def targets(S, M, kind, op, i, j, R, T, n, cur, r=None):
    """a target in the view's domain; concretely an attainable one (value under a tilted probability vector)"""
    if S.symbolic:
        rng = {"vol": {"lo": 0, "lo_strict": True}, "var": {"lo": 0}, "corr": {"lo": -1, "hi": 1}}.get(kind, {})
        if kind == "vol":
            rng = {"lo_strict": 0}
        t = S.real("t", **rng)
        if op == "between":
            u = S.real("u", **rng)
            S.assume(t <= u)
            return (t, u)
        return t
    r = S.rng.dirichlet(np.ones(T) * 6) if r is None else r
    m, v = cur
    x = {"mean": lambda: r @ R[:, i], "rel": lambda: r @ (R[:, i] - R[:, j]), "vol": lambda: np.sqrt(max(r @ R[:, i] ** 2 - m[i] ** 2, 1e-9)), "var": lambda: max(r @ R[:, i] ** 2 - m[i] ** 2, 0.),
         "skew": lambda: (r @ R[:, i] ** 3 - 3 * m[i] * v[i] - m[i] ** 3) / v[i] ** 1.5, "corr": lambda: float(np.clip((r @ (R[:, i] * R[:, j]) - m[i] * m[j]) / np.sqrt(v[i] * v[j]), -1, 1))}[kind]()
    w = abs(x) * .1 + 1e-4
    if op == "between":
        hi = min(x + w, 1.0) if kind == "corr" else x + w
        return (float(max(x - w, 1e-9 if kind in ("vol", "var") else -1.0 if kind == "corr" else -1e9)), float(hi))
    return float(x)


def posed(S, name, calls, want, T, loose=None):
    """the last posed system and the stated constraints have exactly the same probability vectors"""
    if S.symbolic:
        r = list(S.prob("r", T, strict=False))
        S.true(name, S.cond(holds(S, calls.log[-1], r)) == S.cond(want(r)))
    else:
        # concretely: at probability vectors that satisfy the posed equalities, the posed inequalities hold iff the stated
        # constraints do (loose: the stated inequalities only, stated equalities to rounding)
        c = calls.log[-1]
        q = np.array([num(x) for x in c[5]], float)
        A = np.array([[num(x) for x in a] for a in c[1]] + [[1.] * T], float)
        Z = np.linalg.svd(A)[2][np.linalg.matrix_rank(A):]
        for _ in range(12 if len(Z) and loose is not None else 0):
            d = Z.T @ S.rng.normal(size=len(Z))
            far = min([-x / y for x, y in zip(q, d) if y < 0] + [1e9])
            r = q + d * min(far, 1e3) * S.rng.random() ** 2
            gap = [float(np.dot([num(x) for x in g], r) - num(v)) for g, v in zip(c[3], c[4])]
            if any(abs(x) < 1e-7 for x in gap) or min(r) < 0 or abs(A[:-1] @ r - np.array([num(v) for v in c[2]], float)).max(initial=0) > 1e-6:
                continue
            S.true(name + " (on the posed equalities)", all(x < 0 for x in gap) == bool(loose(list(r))), f"{gap}")
        for _ in range(4):
            r = list(S.rng.dirichlet(np.ones(T)))
            ineq = S.all([dot(g, r) <= v for g, v in zip(c[3], c[4])])
            eq = all(abs(dot(a, r) - v) < 1e-12 for a, v in zip(c[1], c[2]))
            if eq:
                S.true(name, bool(ineq) == bool(want(r)))


def near(S, kind, i, j, op, t, R, q, T, cur, name):
    """concretely: the reported posterior satisfies the stated constraint to solver accuracy"""
    class Tol(float):
        pass
    m, v = cur
    val = {"mean": lambda: raw(S, R, q, T, lambda x: x[i]), "rel": lambda: raw(S, R, q, T, lambda x: x[i] - x[j]), "vol": lambda: raw(S, R, q, T, lambda x: x[i] ** 2),
           "var": lambda: raw(S, R, q, T, lambda x: x[i] ** 2), "skew": lambda: raw(S, R, q, T, lambda x: x[i] ** 3), "corr": lambda: raw(S, R, q, T, lambda x: x[i] * x[j])}[kind]()
    f = {"mean": lambda u: u, "rel": lambda u: u, "vol": lambda u: u * u + m[i] ** 2, "var": lambda u: u + m[i] ** 2, "skew": lambda u: u * v[i] ** 1.5 + 3 * m[i] * v[i] + m[i] ** 3,
         "corr": lambda u: u * np.sqrt(v[i] * v[j]) + m[i] * m[j]}[kind]
    scale = {"mean": lambda: abs(R[:, i]).max(), "rel": lambda: abs(R[:, i] - R[:, j]).max(), "vol": lambda: (R[:, i] ** 2).max(), "var": lambda: (R[:, i] ** 2).max(), "skew": lambda: abs(R[:, i] ** 3).max(),
             "corr": lambda: abs(R[:, i] * R[:, j]).max()}[kind]()
    e = 1e-3 * scale + 1e-12
    lo, hi = (f(t[0]), f(t[1])) if op == "between" else (f(t), f(t))
    if op in ("==", ">=", ">", "between"):
        S.true(name + " (posterior, lower side)", val >= lo - e)
    if op in ("==", "<=", "<", "between"):
        S.true(name + " (posterior, upper side)", val <= hi + e)


KW = {"mean": "mean_views", "rel": "mean_views", "vol": "vol_views", "var": "var_views", "skew": "skew_views", "corr": "corr_views"}


@contract("C11", funcs=ENC + ["views.at_least", "views.at_most", "views.above", "views.below", "views.between", "views._validate_finite"], dims={"T": [2], "n": [1, 2]}, cdims={"T": [8, 25], "n": [2, 3]}, samples=500, cbudget=14,
          cfgs=[{"kind": k, "op": o, "lab": l, "prior": l} for k in KW for o in OPS for l in (0, 1)])
def single_view(S, M, kind, op, lab, prior):
    """one declared view of each kind, operator and spelling: the posed system is exactly the stated constraint"""
    T, n = S.dim("T"), S.dim("n")
    i, j = n - 1, 0
    if kind in ("rel", "corr") and n == 1:
        raise Reject
    R = scenario_table(S, T, n)
    names = NAMES[:n] if lab else None
    key = (lambda a: NAMES[a]) if lab else (lambda a: str(a))
    if prior:
        p0 = list(S.prob("p", T))
        kwp = {"prior_probabilities": S.arr(p0)}
    else:
        p0, kwp = [S.lit(1) / T] * T if S.symbolic else [1 / T] * T, {}
    cur = distinct(S, R, p0, T, n)
    if not S.symbolic:
        cur = tuple(np.array(x) for x in cur)
    t = targets(S, M, kind, op, i, j, R, T, n, cur)
    vw, o = view_value(M, S, op, t, helpers=bool(lab))
    k = (key(i), key(j)) if kind in ("rel", "corr") else key(i)
    d = {k: vw}
    calls = Calls(S, M)
    out = S.call(M.views.FlexibleViewsProcessor, S.pd.DataFrame(R.copy(), columns=names) if lab else R.copy(), **kwp, **{KW[kind]: d})
    if not S.symbolic and isinstance(out.exc, RuntimeError):
        raise Reject
    fv = S.ok(out)
    final_checks(S, M, fv, calls, R, T, n, names, p0)
    S.true("one pooling problem, on the prior", len(calls.log) == 1)
    S.eq("the prior of the pooling problem", S.arr(calls.log[0][0]), S.arr(p0), tol=1e-12)
    posed(S, "the posed system is exactly the stated view", calls, lambda r: stated(S, kind, i, j, o, t, R, r, T, cur), T)
    if not S.symbolic:
        near(S, kind, i, j, o, t, R, np.array(calls.log[-1][5], float), T, cur, "view holds")
    S.true("the caller's view mapping is left alone", list(d) == [k] and d[k] is vw)


@contract("C11", funcs=ENC, dims={"T": [2], "n": [2]}, cdims={"T": [10], "n": [2, 3]}, samples=300, cbudget=10,
          cfgs=[{"op": o, "lab": l, "with_mean": w} for o in ("plain", ">=", "<=", "between") for l in (0, 1) for w in (0, 1)])
def quantile_view(S, M, op, lab, with_mean):
    """P(R_i <= level) op probability; a mean view declared next to it stays in force"""
    T, n = S.dim("T"), S.dim("n")
    R = scenario_table(S, T, n)
    names = NAMES[:n] if lab else None
    key = (lambda a: NAMES[a]) if lab else (lambda a: str(a))
    p0 = list(S.prob("p", T))
    lev = S.real("lev", gen=lambda r: float(np.median(R[:, 1]) + 1e-6) if not S.symbolic else 0.)
    if S.symbolic:
        t = S.real("t", lo_strict=0, hi_strict=1)
        if op == "between":
            u = S.real("u", lo_strict=0, hi_strict=1)
            S.assume(t <= u)
            t = (t, u)
    else:
        x = float(S.rng.uniform(.3, .6))
        t = (x, x + .1) if op == "between" else x
    vw, o = view_value(M, S, op, t, bool(lab))
    d = {key(1): (lev, vw)}
    kw = {}
    cur = tuple(np.array(x) if not S.symbolic else x for x in moments(S, R, p0, T, n))
    if with_mean:
        mt = targets(S, M, "mean", ">=", 0, 0, R, T, n, cur)
        kw["mean_views"] = {key(0): (">=", mt)}
    calls = Calls(S, M)
    out = S.call(M.views.FlexibleViewsProcessor, S.pd.DataFrame(R.copy(), columns=names) if lab else R.copy(), S.arr(p0), quantile_views=d, **kw)
    if not S.symbolic and isinstance(out.exc, RuntimeError):
        raise Reject
    fv = S.ok(out)
    final_checks(S, M, fv, calls, R, T, n, names, p0)
    S.eq("pooled from the prior", S.arr(calls.log[-1][0]), S.arr(p0), tol=1e-12)
    ind = [1 if S.cond(R[s, 1] <= lev) else 0 for s in range(T)]
    stat = lambda r: S.all([op_holds(S, o, dot([S.lit(z) for z in ind], r), t)] + ([stated(S, "mean", 0, 0, ">=", mt, R, r, T, cur)] if with_mean else []))
    posed(S, "the posed system is exactly the stated views", calls, stat, T)
    if not S.symbolic:
        q = np.array(calls.log[-1][5], float)
        P = float(np.dot(ind, q))
        lo, hi = t if op == "between" else (t, t)
        S.true("probability below the level", (P >= lo - 1e-3 or o == "<=") and (P <= hi + 1e-3 or o == ">="))
        if with_mean:
            near(S, "mean", 0, 0, ">=", mt, R, q, T, cur, "mean view next to the quantile view")


COMBOS = [("mean", "vol"), ("mean", "corr"), ("mean", "skew"), ("vol", "corr"), ("mean", "var", "corr"), ("rank",), ("rank", "rel"), ("rank", "vol"), ("mean", "mean"), ("mean", "rel", "skew")]


@contract("C11", funcs=ENC, dims={"T": [2], "n": [2]}, cdims={"T": [12], "n": [2, 3]}, samples=300, cbudget=14,
          cfgs=[{"combo": "+".join(c), "seq": s, "quant": q} for c in COMBOS for s in (0, 1) for q in (0, 1)])
def combined_views(S, M, combo, seq, quant):
    """any combination, joint or sequential: the last posed system is the conjunction of all declared views"""
    T, n = S.dim("T"), S.dim("n")
    kinds = combo.split("+")
    if S.symbolic and quant and "skew" in kinds:
        raise Reject                                  # cubic in the scenarios next to an indicator: concrete only
    R = scenario_table(S, T, n)
    p0 = list(S.prob("p", T))
    cur0 = distinct(S, R, p0, T, n)
    cur0 = tuple(np.array(x) for x in cur0) if not S.symbolic else cur0
    kw, decl = {}, []
    r0 = None if S.symbolic else S.rng.dirichlet(np.array(p0, float) * T * 30 + .05)
    ops = {"mean": "==", "rel": "<=", "vol": "<=", "var": ">=", "skew": ">=", "corr": "<="}
    seen = 0
    for kd in kinds:
        if kd == "rank":
            order = [str(a) for a in range(n)][::-1]
            kw["rank_mean"] = list(order)
            for a in range(n - 1):
                decl.append(("rel", n - 1 - a, n - 2 - a, ">=", S.lit(0) if S.symbolic else 0.0))
            continue
        i, j = (n - 1, 0)
        if kd == "mean":
            i = seen
            seen += 1
        if S.symbolic:
            rg = {"vol": {"lo_strict": 0}, "var": {"lo": 0}, "corr": {"lo": -1, "hi": 1}}.get(kd, {})
            t = S.real(f"t_{kd}{i}", **rg)
        else:
            t = targets(S, M, kd, ops[kd], i, j, R, T, n, cur0, r0)
            t = {"<=": t + abs(t) * .3, ">=": t - abs(t) * .3, "==": t}[ops[kd]]
            t = float(np.clip(t, -1, 1)) if kd == "corr" else max(t, 0.) if kd == "var" else t
        decl.append((kd, i, j, ops[kd], t))
        kw.setdefault(KW[kd], {})[(str(i), str(j)) if kd in ("rel", "corr") else str(i)] = t if ops[kd] == "==" else (ops[kd], t)
    if quant:
        lev, pr = S.real("lev", gen=lambda r: float(np.quantile(R[:, 0], .4)) if not S.symbolic else 0.), (S.real("pr", lo_strict=0, hi_strict=1) if S.symbolic else .45)
        kw["quantile_views"] = {"0": (lev, ("<=", pr))}
    keep = {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in kw.items()}
    calls = Calls(S, M)
    out = S.call(M.views.FlexibleViewsProcessor, R.copy(), S.arr(p0), sequential=bool(seq), **kw)
    if not S.symbolic and isinstance(out.exc, (RuntimeError,)):
        raise Reject
    if isinstance(out.exc, ValueError) and "near-zero" in str(out.exc):
        raise Reject
    fv = S.ok(out)
    final_checks(S, M, fv, calls, R, T, n, None, p0)
    S.true("caller's view containers are left alone", all((dict(v) if isinstance(v, dict) else list(v)) == keep[k] for k, v in kw.items()) if not S.symbolic else all(list(v) == list(keep[k]) for k, v in kw.items()))
    # the current moments: those of the latest pooling of lower-order views
    blocks = [b for b in (("mean", "rel"), ("vol",), ("var",), ("skew",), ("corr",)) if any(d[0] in b for d in decl)]
    order = ["mean", "vol", "var", "skew", "corr"]
    cur = {}
    if seq:
        c = cur0
        for a, b in enumerate(blocks):
            for kd in b:
                cur[kd] = c
            if a < len(calls.log):
                c = moments(S, R, calls.log[a][5], T, n)
        S.true("one pooling per block", len(calls.log) == len(blocks) + quant)
    else:
        hi = [b for b in blocks if b[0] != "mean"]
        two = hi and len(hi) < len(blocks)
        c = moments(S, R, calls.log[0][5], T, n) if two else cur0
        for b in blocks:
            for kd in b:
                cur[kd] = c
        S.eq("jointly declared views are pooled from the prior", S.arr(calls.log[-1][0]), S.arr(p0), tol=1e-12)
    cur = {k: tuple(np.array(x, dtype=float) for x in v) if not S.symbolic else v for k, v in cur.items()}
    ind = [1 if quant and S.cond(R[s, 0] <= lev) else 0 for s in range(T)]

    def want(r):
        return S.all([stated(S, kd, i, j, op, t, R, r, T, cur[kd]) for kd, i, j, op, t in decl] + ([dot([S.lit(z) for z in ind], r) <= pr] if quant else []))
    def loose(r):
        return S.all([stated(S, kd, i, j, op, t, R, r, T, cur[kd]) for kd, i, j, op, t in decl if op != "=="] + ([dot([S.lit(z) for z in ind], r) <= pr] if quant else []))
    posed(S, "the last posed system is the conjunction of all declared views", calls, want, T, loose)
    if not S.symbolic:
        q = np.array(calls.log[-1][5], float)
        for kd, i, j, op, t in decl:
            near(S, kd, i, j, op, t, R, q, T, cur[kd], f"{kd} view among others")
        if quant:
            S.true("quantile view among others", np.dot(ind, q) <= pr + 1e-3)


@contract("C11", funcs=[V + "_solve_cvar_view"] + ENC, dims={"T": [3], "n": [1]}, cdims={"T": [6, 12, 40], "n": [1, 2]}, samples=200, cbudget=14,
          cfgs=[{"order": o, "extra": e, "seq": s} for o in ("012", "201", "120") for e in ("", "mean", "cvar") for s in (0, 1)], skip=lambda d, c: c["extra"] == "cvar")
def cvar_view(S, M, order, extra, seq):
    """the worst gamma of posterior probability is a whole tail with the stated mean; other declared views stay in force"""
    T, n = S.dim("T"), S.dim("n")
    R = scenario_table(S, T, n)
    p0 = list(S.prob("p", T))
    if S.symbolic:
        if extra == "cvar":
            raise Reject
        o = [int(c) for c in order]
        S.assume(S.all([R[o[a], 0] < R[o[a + 1], 0] for a in range(2)]))
        g = S.real("g", lo_strict=0, hi_strict=1)
        c = S.real("c")
    else:
        o = list(np.argsort(R[:, 0], kind="stable"))
        g = float(S.rng.choice([.05, .1, .3]))
        r = S.rng.dirichlet(np.ones(T) * 4)
        c = tail_mean(R[:, 0], r, g)
    kw = {}
    cur = moments(S, R, p0, T, n)
    if extra == "mean":
        mt = S.real("mt") if S.symbolic else float(np.dot(p0, R[:, 0])) * .9
        kw["mean_views"] = {"0": ("<=", mt)}
    views = {"0": (c, g)}
    if extra == "cvar":
        if n < 2:
            raise Reject
        c2 = tail_mean(R[:, 1], r, .2)
        views["1"] = (c2, .2)
    calls = Calls(S, M, infeasible=lambda A, b: any(all(x == 1 for x in map(num, a)) and num(v) != 1 for a, v in zip(A, b)), may_fail=True)
    out = S.call(M.views.FlexibleViewsProcessor, R.copy(), S.arr(p0), cvar_views=views, sequential=bool(seq), **kw)
    if isinstance(out.exc, RuntimeError):
        raise Reject                                  # reported as unattainable
    fv = S.ok(out)
    q = S.ok(S.call(fv.get_posterior_probabilities))[:, 0]
    if S.symbolic:
        tails = []
        for k in range(1, T):
            mass = sum((q[o[a]] for a in range(k)), 0 * q[0])
            tails.append(S.all([mass == g, sum((q[o[a]] * R[o[a], 0] for a in range(k)), 0 * q[0]) == g * c]))
        S.true("a tail of probability gamma has the target mean", S.any(tails))
        if extra == "mean":
            S.le("the mean view stays in force", raw(S, R, list(q), T, lambda x: x[0]), mt)
    else:
        s = np.abs(R[:, 0]).max()
        S.eq("CVaR of the posterior is the target", tail_mean(R[:, 0], q, g) / s, c / s, tol=5e-3)
        if extra == "mean":
            S.true("the mean view stays in force", q @ R[:, 0] <= mt + 2e-3 * s)
        if extra == "cvar":
            S.eq("CVaR of the second asset too", tail_mean(R[:, 1], q, .2) / np.abs(R[:, 1]).max(), c2 / np.abs(R[:, 1]).max(), tol=5e-3)
        S.eq("a probability vector", q.sum(), 1.0, tol=1e-9)


def num(x):
    if hasattr(x, "is_const"):
        return float(x) if x.is_const() else None
    return float(x)


def tail_mean(x, q, g):
    o = np.argsort(x)
    x, q = x[o], np.asarray(q, float)[o]
    c = np.cumsum(q)
    w = np.minimum(q, np.maximum(0, g - (c - q)))
    return float(w @ x / g)


# ------------------------------------------------------------------------------------------------ prior moments, labels
@contract("C11", funcs=ENC, dims={"n": [1, 2]}, cdims={"n": [2, 3]}, samples=120, cfgs=[{"kind": k, "fn": f} for k in ("arr", "ser_df", "ser_arr", "arr_df", "perm") for f in ("fn4", "fn3")])
def from_moments(S, M, kind, fn):
    """synthetic scenarios come from the generator called with the labelled moments in one consistent asset order"""
    n = S.dim("n")
    N = 3
    mu, cov = S.vec("mu", n), S.spd("cov", n)
    names = NAMES[:n]
    rev = list(range(n))[::-1]
    Se, D = S.pd.Series, S.pd.DataFrame
    dfp = lambda: D(S.arr([[cov[i, j] for j in rev] for i in rev]), index=[names[i] for i in rev], columns=[names[i] for i in rev])
    df = lambda: D(cov.copy(), index=names, columns=names)
    a, b = {"arr": lambda: (mu.copy(), cov.copy()), "ser_df": lambda: (Se(mu.copy(), index=names), df()), "ser_arr": lambda: (Se(mu.copy(), index=names), cov.copy()),
            "arr_df": lambda: (mu.copy(), df()), "perm": lambda: (Se(mu.copy(), index=names), dfp())}[kind]()
    R = S.mat("R", N, n)
    got = []

    def f4(m, c, k, rng):
        got.append((m, c, k))
        return R.copy()

    def f3(m, c, k):
        got.append((m, c, k))
        return R.copy()
    S.stub(M, getattr(M.views, "_cholesky_pd", None), lambda mat, *r, **k: mat)
    fv = S.ok(S.call(M.views.FlexibleViewsProcessor, prior_mean=a, prior_cov=b, num_scenarios=N, distribution_fn=f4 if fn == "fn4" else f3))
    S.true("generator called once with the requested size", len(got) == 1 and got[0][2] == N)
    S.eq("generator gets the means", got[0][0], mu)
    S.eq("generator gets the covariance (with the documented 1e-6 ridge) in the same order", got[0][1], cov + S.const("0.000001") * np.eye(n), tol=1e-9)
    final_checks(S, M, fv, Calls(S, M), R, N, n, None if kind == "arr" else names, [S.lit(1) / N] * N if S.symbolic else [1 / N] * N)


@contract("C11", funcs=ENC, modes="C", dims={"n": [2]}, cdims={"n": [2, 3]}, samples=20)
def synthesised(S, M):
    """bounded (the generator is numpy's): default synthesis is reproducible from its seed and has the requested moments"""
    n = S.dim("n")
    mu, cov = S.vec("mu", n), S.spd("cov", n)
    mk = lambda: M.views.FlexibleViewsProcessor(prior_mean=mu.copy(), prior_cov=cov.copy(), num_scenarios=20000, random_state=7)
    a, b = mk(), mk()
    S.eq("same seed, same scenarios", a.get_scenarios(), b.get_scenarios(), tol=0)
    m, c = a.get_posterior()
    s = np.sqrt(np.diag(cov))
    S.true("means within sampling error", np.all(np.abs(m - mu) < 6 * s / np.sqrt(20000) + 1e-2))
    S.true("covariance within sampling error", np.all(np.abs(c - cov) < .08 * np.outer(s, s) + 1e-4))


@contract("C11", funcs=ENC, dims={"T": [2], "n": [1, 2]}, cdims={"T": [12], "n": [2, 3]}, samples=120, cbudget=8,
          cfgs=[{"kind": k, "which": w} for k in ("array", "list", "series", "series_perm", "series_range", "series_part") for w in ("mean_views", "vol_views")])
def view_vectors(S, M, kind, which):
    """a whole vector of views: unlabelled by position, labelled by asset"""
    T, n = S.dim("T"), S.dim("n")
    R = scenario_table(S, T, n)
    names = NAMES[:n]
    p0 = [S.lit(1) / T] * T if S.symbolic else [1 / T] * T
    cur = distinct(S, R, p0, T, n)
    cur = tuple(np.array(x) for x in cur) if not S.symbolic else cur
    kd = "mean" if which == "mean_views" else "vol"
    if S.symbolic:
        t = list(S.vec("t", n, **({"lo_strict": 0} if kd == "vol" else {})))
    else:
        r = S.rng.dirichlet(np.ones(T) * 20)
        t = [float(r @ R[:, i]) if kd == "mean" else float(np.sqrt(max(r @ R[:, i] ** 2 - cur[0][i] ** 2, 1e-9))) for i in range(n)]
    Se = S.pd.Series
    rev = list(range(n))[::-1]
    used = list(range(n))
    arg = {"array": lambda: S.arr(t), "list": lambda: list(t), "series": lambda: Se(S.arr(t), index=names), "series_range": lambda: Se(S.arr(t)),
           "series_perm": lambda: Se(S.arr([t[i] for i in rev]), index=[names[i] for i in rev]), "series_part": lambda: Se(S.arr(t[-1:]), index=names[-1:])}[kind]()
    if kind == "series_part":
        used = [n - 1]
    calls = Calls(S, M)
    out = S.call(M.views.FlexibleViewsProcessor, S.pd.DataFrame(R.copy(), columns=names), **{which: arg})
    if not S.symbolic and isinstance(out.exc, RuntimeError):
        raise Reject
    fv = S.ok(out)
    final_checks(S, M, fv, calls, R, T, n, names, p0)
    posed(S, "each entry is the view on its own asset", calls, lambda r: S.all([stated(S, kd, i, i, "==", t[i], R, r, T, cur) for i in used]), T)
    if not S.symbolic:
        for i in used:
            near(S, kd, i, i, "==", t[i], R, np.array(calls.log[-1][5], float), T, cur, "vector view")


BAD = ("unknown asset", "unknown relative", "unknown operator", "NaN target", "infinite target", "NaN one-sided", "between reversed", "between NaN", "zero vol", "negative vol", "negative var", "corr above one", "corr below minus one",
       "skew of constant", "short vector", "long vector", "quantile no pair", "quantile NaN level", "quantile prob 0", "quantile prob 1", "rank of one", "rank unknown", "cvar gamma 0", "cvar gamma 1", "cvar gamma 5", "cvar NaN", "cvar unknown",
       "no prior", "mean only", "cov shape", "bad num_scenarios", "float num_scenarios", "fn shape", "prob length", "prob zero", "prob negative", "cov labels", "series labels", "unattainable mean")


@contract("C11", funcs=ENC + ["views.entropy_pooling"], cfgs=[{"case": c, "seq": s} for c in BAD for s in (0, 1)], samples=2 * len(BAD), skip=lambda d, c: c["case"] == "unattainable mean")
def refused(S, M, case, seq):
    if S.symbolic and case == "unattainable mean":
        raise Reject
    D, Se = S.pd.DataFrame, S.pd.Series
    R = np.array([[.1, .2], [-.05, .3], [.02, -.1], [.07, .01]])
    AB = ["A", "B"]
    N = float("nan")
    k = dict(prior_risk_drivers=D(R.copy(), columns=AB), sequential=bool(seq))
    m, c = np.array([.1, .2]), np.array([[.04, .01], [.01, .09]])
    mom = dict(prior_risk_drivers=None, prior_mean=m, prior_cov=c, num_scenarios=10)
    k.update({
        "unknown asset": dict(mean_views={"Z": .1}), "unknown relative": dict(mean_views={("A", "Z"): .1}), "unknown operator": dict(mean_views={"A": ("=>", .1)}), "NaN target": dict(mean_views={"A": N}),
        "infinite target": dict(vol_views={"A": float("inf")}), "NaN one-sided": dict(vol_views={"A": ("<=", N)}), "between reversed": dict(mean_views={"A": ("between", .2, .1)}), "between NaN": dict(mean_views={"A": ("between", N, .1)}),
        "zero vol": dict(vol_views={"A": 0.0}), "negative vol": dict(vol_views={"A": ("<=", -.1)}), "negative var": dict(var_views={"A": -.1}), "corr above one": dict(corr_views={("A", "B"): 1.1}),
        "corr below minus one": dict(corr_views={("A", "B"): (">=", -1.5)}), "skew of constant": dict(prior_risk_drivers=D(np.column_stack([np.ones(4), R[:, 1]]), columns=AB), skew_views={"A": .1}),
        "short vector": dict(mean_views=[.1]), "long vector": dict(vol_views=[.1, .2, .3]), "quantile no pair": dict(quantile_views={"A": .1}), "quantile NaN level": dict(quantile_views={"A": (N, ("<=", .5))}),
        "quantile prob 0": dict(quantile_views={"A": (.0, 0.0)}), "quantile prob 1": dict(quantile_views={"A": (.0, ("<=", 1.0))}), "rank of one": dict(rank_mean=["A"]), "rank unknown": dict(rank_mean=["A", "Z"]),
        "cvar gamma 0": dict(cvar_views={"A": (-.01, 0.0)}), "cvar gamma 1": dict(cvar_views={"A": (-.01, 1.0)}), "cvar gamma 5": dict(cvar_views={"A": (-.01, 5.0)}), "cvar NaN": dict(cvar_views={"A": (N, .3)}), "cvar unknown": dict(cvar_views={"Z": (-.01, .3)}),
        "no prior": dict(prior_risk_drivers=None), "mean only": dict(prior_risk_drivers=None, prior_mean=m), "cov shape": dict(mom, prior_cov=np.eye(3)), "bad num_scenarios": dict(mom, num_scenarios=0), "float num_scenarios": dict(mom, num_scenarios=10.5),
        "fn shape": dict(mom, distribution_fn=lambda *a: np.zeros((9, 2))), "prob length": dict(prior_probabilities=[.5, .5]), "prob zero": dict(prior_probabilities=[.5, .5, 0., 0.]), "prob negative": dict(prior_probabilities=[.5, .4, .2, -.1]),
        "cov labels": dict(mom, prior_mean=Se(m, index=AB), prior_cov=D(c, index=["A", "Z"], columns=["A", "Z"])), "series labels": dict(mean_views=Se([.1, .2], index=["A", "Z"])), "unattainable mean": dict(mean_views={"A": 5.0}),
    }[case])
    Calls(S, M) if S.symbolic else None
    S.raises(S.call(M.views.FlexibleViewsProcessor, **k), Exception, "refused: " + case)


@contract("C11", funcs=["views.at_least", "views.at_most", "views.above", "views.below", "views.between", "views._validate_finite"], cfgs=[{"f": f, "x": x} for f in ("at_least", "at_most", "above", "below", "between_lo", "between_hi", "between_rev") for x in ("nan", "inf", "-inf")], samples=21)
def helpers_refuse(S, M, f, x):
    v = M.views
    x = float(x)
    g = {"between_lo": lambda: v.between(x, 1.0), "between_hi": lambda: v.between(0.0, x), "between_rev": lambda: v.between(2.0, 1.0)}.get(f, lambda: getattr(v, f)(x))
    S.raises(S.call(g), ValueError, "non-finite or reversed target refused")


# ---------------------------------------------------------------------- every number of scenarios (and constraints, where stated)
@contract("C11", funcs=["views._entropy_pooling_dual_objective"], modes="PC", dims={"T": [2], "K": [2]}, cdims={"T": [50], "K": [2, 6]}, samples=24)
def all_sizes_dual(S, M):
    T, K = S.dim("T"), S.dim("K", 2)
    no_clip(S)
    lam, lp, A, b = S.vec("lam", K), S.vec("lp", T), S.mat("A", K, T), S.vec("b", K)
    v, g = S.ok(S.call(M.views._entropy_pooling_dual_objective, lam.copy(), lp.reshape(-1, 1), A.copy(), b.copy()))
    x = lambda t: S.exp(lp[t] - 1 - S.sigma(K, lambda k: lam[k] * A[k, t]))
    S.eq("value is 1000 (sum exp(log p - 1 - A'l) + b'l)", v, 1000 * (S.sigma(T, x) + S.sigma(K, lambda k: lam[k] * b[k])), tol=1e-12)
    S.eq("gradient is its exact derivative 1000 (b - A exp(...))", g, S.build((K,), lambda k: 1000 * (b[k] - S.sigma(T, lambda t: A[k, t] * x(t)))), tol=1e-9)


class Posed:
    """entropy_pooling by its contract, for symbolic numbers of scenarios: some positive probability vector; every posed problem is recorded"""

    def __init__(self, S, M):
        self.S, self.log = S, []
        S.spy(M, getattr(M.views, "entropy_pooling", None), lambda real, *a, **k: self(*a, **k))

    def __call__(self, p, A, b, G=None, h=None, method=None):
        S = self.S
        q = S.prob(f"q{len(self.log)}", p.shape[0])
        self.log.append((p, A, b, G, h, q))
        return q.reshape(-1, 1)


PKINDS = ("mean", "rel", "vol", "var", "skew", "corr")
POPS = ("==", ">=", "<=", ">", "<", "between")


@contract("C11", funcs=ENC, modes="PC", dims={"T": [4]}, cdims={"T": [40]}, samples=72, cfgs=[{"kind": k, "op": o} for k in PKINDS for o in POPS])
def all_sizes_encoding(S, M, kind, op):
    """one view on two of three assets: the posed rows, targets, prior, and the posterior moments"""
    T, n = S.dim("T", 2), 3
    R, p = S.mat("R", T, n), S.prob("p", T)
    E = lambda f, q=p: S.sigma(T, lambda t: q[t] * f(t))
    m = [E(lambda t, i=i: R[t, i]) for i in range(n)]
    v = [E(lambda t, i=i: (R[t, i] - m[i]) * (R[t, i] - m[i])) for i in range(n)]
    S.assume(S.all([x > S.const("0.00000001") for x in v]))
    i, j = 0, 2
    rng = {"vol": {"lo_strict": 0}, "var": {"lo": 0}, "corr": {"lo": -1, "hi": 1}}.get(kind, {})
    t = S.real("t", **rng)
    u = S.real("u", **rng) if op == "between" else None
    if u is not None:
        S.assume(t <= u)
    calls = Posed(S, M)
    vw = ("between", t, u) if op == "between" else t if op == "==" else (op, t)
    key = ("0", "2") if kind in ("rel", "corr") else "0"
    fv = S.ok(S.call(M.views.FlexibleViewsProcessor, R.copy(), p.copy(), **{{"rel": "mean"}.get(kind, kind) + "_views": {key: vw}}))
    row = {"mean": lambda s: R[s, i], "rel": lambda s: R[s, i] - R[s, j], "vol": lambda s: R[s, i] * R[s, i], "var": lambda s: R[s, i] * R[s, i], "skew": lambda s: R[s, i] * R[s, i] * R[s, i], "corr": lambda s: R[s, i] * R[s, j]}[kind]
    s = S.sqrt(v[i])
    rhs = {"mean": lambda x: x, "rel": lambda x: x, "vol": lambda x: x * x + m[i] * m[i], "var": lambda x: x + m[i] * m[i], "skew": lambda x: x * s * s * s + 3 * m[i] * v[i] + m[i] * m[i] * m[i], "corr": lambda x: x * s * S.sqrt(v[j]) + m[i] * m[j]}[kind]
    S.true("one problem is posed", len(calls.log) == 1)
    p0, A, b, G, h, q = calls.log[0]
    S.eq("the prior is the given one", p0.reshape(-1), p)
    eqs = [(row, rhs(t))] if op == "==" else []
    ineq = [] if op == "==" else [(lambda z: -row(z), -rhs(t))] if op in (">=", ">") else [(row, rhs(t))] if op in ("<=", "<") else [(lambda z: -row(z), -rhs(t)), (row, rhs(u))]
    eqs = eqs + [(lambda z: S.lit(1), S.lit(1))]
    for name, X, y, rows in (("equalities", A, b, eqs), ("inequalities", G, h, ineq)):
        if not rows:
            S.true("no " + name, X is None)
            continue
        S.eq_shape("number of " + name, X, (len(rows), T))
        S.eq_shape("targets of " + name, y.reshape(-1), (len(rows),))
        for k, (f, r) in enumerate(rows):
            S.eq("rows of " + name + " are the stated moments of the scenarios", X[k], S.build((T,), f))
            S.eq("targets of " + name + " are the stated values", y.reshape(-1)[k], r)
    posterior_moments(S, fv, R, q, T, n)


def posterior_moments(S, fv, R, q, T, n):
    got = S.ok(S.call(fv.get_posterior_probabilities))
    S.eq("the posterior is the pooling solution", got.reshape(-1), q)
    E = lambda f: S.sigma(T, lambda t: q[t] * f(t))
    m = [E(lambda t, i=i: R[t, i]) for i in range(n)]
    a, c = S.ok(S.call(fv.get_posterior))
    S.eq("posterior mean", a, S.arr(m))
    S.eq("posterior covariance", c, S.arr([[E(lambda t: (R[t, i] - m[i]) * (R[t, j] - m[j])) for j in range(n)] for i in range(n)]))
    S.eq("scenarios are the given ones", S.ok(S.call(fv.get_scenarios)), R)


@contract("C11", funcs=["views.entropy_pooling", "views._entropy_pooling_dual_objective"], modes="PC", dims={"T": [4]}, cdims={"T": [6, 30]}, samples=60,
          cfgs=[{"K": k, "J": j, "method": m, "col": c} for k, j in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)) for m, c in ((None, 0), ("L-BFGS-B", 1))])
def all_sizes_pooling(S, M, K, J, method, col):
    """any number of scenarios, a given number of rows: minimize by its KKT contract, as in `pooling`"""
    if not S.symbolic:
        T = S.dim("T")
        S.cdims = {"T": T, "K": K, "J": J}
        sc = float(S.rng.choice([1e-3, 1.0, 50.0]))
        r = S.rng.dirichlet(np.ones(T) * 2)
        p = S.rng.dirichlet(np.ones(T) * 3)
        if min(r.min(), p.min()) < 1e-3:
            raise Reject
        A, G = S.rng.normal(size=(K, T)) * sc, S.rng.normal(size=(J, T)) * sc
        b, h = A @ r, G @ r + sc * S.rng.choice([0., .1], size=J)
        out = S.call(M.views.entropy_pooling, p.reshape(-1, 1) if col else p, np.vstack([A, np.ones((1, T))]), np.append(b, 1.), method=method, **({"G": G, "h": h} if J else {}))
        if isinstance(out.exc, RuntimeError):
            raise Reject
        q = S.ok(out)[:, 0]
        S.true("posterior probabilities are positive", bool((q > 0).all()))
        S.eq("posterior probabilities sum to one", q.sum(), 1., tol=1e-9)
        S.eq("equalities hold", A @ q / sc, b / sc, tol=1e-3)
        for j in range(J):
            S.le("inequalities hold", G[j] @ q / sc, h[j] / sc, tol=1e-3)
        d = (r - q) @ np.log(q / p)
        S.le("no feasible vector descends: minimum relative entropy", -2e-3 * max(1.0, float(np.abs(np.log(q / p)).max())), d)
        return
    T = S.dim("T", 2)
    no_clip(S)
    p = S.prob("p", T)
    A, b = [S.vec(f"A{k}", T) for k in range(K)], [S.real(f"b{k}") for k in range(K)]
    G, h = [S.vec(f"G{j}", T) for j in range(J)], [S.real(f"h{j}") for j in range(J)]
    one = S.build((T,), lambda t: S.lit(1))
    AA, bb = S.np.stack(A + [one]), S.arr(b + [S.lit(1)])
    seen = []

    def solve(fun, x0, args=(), method=None, jac=None, bounds=None, options=None, **kw):
        n = len(x0)
        lam = S.vec(f"lam{len(seen)}", n)
        seen.append((lam, args))
        val, g = fun(lam, *args)
        g = S.np.atleast_1d(g)
        for k in range(n):
            lb, ub = bounds.lb[k], bounds.ub[k]
            S.true("multipliers are not bounded above", not (ub < float("inf")))
            if lb == -float("inf"):
                S.assume(g[k] == 0)
            else:
                S.true("only multipliers of inequalities are bounded, by zero", lb == 0)
                S.assume(S.all([lam[k] >= 0, g[k] >= 0, lam[k] * g[k] == 0]))

        class Sol:
            pass
        s = Sol()
        s.x, s.success, s.fun = lam, True, val
        return s
    S.hook("minimize", solve)
    kw = {"G": S.np.stack(G), "h": S.arr(h)} if J else {}
    q = S.ok(S.call(M.views.entropy_pooling, p.reshape(-1, 1) if col else p, AA, bb.reshape(-1, 1) if col else bb, method=method, **kw))
    S.eq_shape("column vector of scenario probabilities", q, (T, 1))
    q = q[:, 0]
    S.true("posterior probabilities are positive", S.forall(q, lambda x: x > 0))
    E = lambda a: S.sigma(T, lambda t: q[t] * a[t])
    S.eq("posterior probabilities sum to one", S.sigma(T, lambda t: q[t]), S.lit(1))
    for k in range(K):
        S.eq("equalities hold", E(A[k]), b[k])
    for j in range(J):
        S.le("inequalities hold", E(G[j]), h[j])
    lam, (lp, L, rhs) = seen[-1]                       # the multipliers and the (rescaled) rows they belong to
    rhs = S.np.asarray(rhs).reshape(-1)
    r = S.prob("r", T, strict=False)                   # an arbitrary feasible vector
    S.assume(S.all([S.sigma(T, lambda t, a=a: r[t] * a[t]) == v for a, v in zip(A, b)] + [S.sigma(T, lambda t, a=a: r[t] * a[t]) <= v for a, v in zip(G, h)]))
    i = S.index("i", T)
    w = lambda t: S.exp(sum((lam[k] * L[k, t] for k in range(K + 1 + J)), S.lit(0)))
    S.eq("stationarity: q/p times exp(multipliers x rows) is constant", q[i] * p[0] * w(i), q[0] * p[i] * w(S.lit(0)))
    for k in range(K + 1 + J):
        Lr, Lq = (S.sigma(T, lambda t: x[t] * L[k, t]) for x in (r, q))
        if k <= K:
            S.eq("feasible vectors meet the row of an equality multiplier", Lr, rhs[k])
            S.eq("the posterior meets the row of an equality multiplier", Lq, rhs[k])
        else:
            S.le("feasible vectors respect the row of an inequality multiplier", Lr, rhs[k])
            S.true("inequality multipliers are non-negative", lam[k] >= 0)
            S.eq("complementary slackness", lam[k] * (rhs[k] - Lq), S.lit(0))


@contract("C11", funcs=[], modes="P", cfgs=[{"K": k} for k in (1, 2, 3, 4)], samples=0)
def all_sizes_lagrangian_lemma(S, M, K):
    """lemma, any number of scenarios: stationarity, feasibility and complementary slackness make (r-q).(log q - log p) >= 0 for every feasible r"""
    T = S.dim("T")
    q, r, c = S.prob("q", T), S.prob("r", T, strict=False), S.real("c")
    lam, L = [S.real(f"lam{k}") for k in range(K)], [S.vec(f"L{k}", T) for k in range(K)]
    E = lambda x, f: S.sigma(T, lambda t: x[t] * f(t))
    S.assume(S.all([lam[k] * (E(r, lambda t: L[k][t]) - E(q, lambda t: L[k][t])) <= 0 for k in range(K)]))
    w = lambda t: c - sum((lam[k] * L[k][t] for k in range(K)), S.lit(0))
    S.le("no feasible vector descends", S.lit(0), S.sigma(T, lambda t: (r[t] - q[t]) * w(t)))


@contract("C11", funcs=[], modes="F", samples=0)
def entropy_is_convex(S, M):
    """lemma, scenario by scenario: r log(r/p) - q log(q/p) >= (r-q)(log(q/p) + 1), so no descent direction means the minimum"""
    r, q = S.real("r", lo_strict=0), S.real("q", lo_strict=0)
    x = S.real("x", lo_strict=0)                       # x = q / r; log x <= x - 1 is the logarithm's own axiom
    S.assume(q == r * x)
    S.le("log(q/r) <= q/r - 1, times r", r * S.log(x), q - r)
