"""C13 projection and repricing: linear horizon scaling, invertible conversions, row bootstrap, repricing functions."""
import numpy as np
from ..spec import contract, Reject
from .c12_moments import wrap, wrap_sq, out

NAMES = ["B", "A", "C", "D", "E"]
PJ = "utils.projection."


def small(r):
    return float(r.normal() * r.choice([1., .2, .02]))


@contract("C13", funcs=[PJ + "project_mean_covariance"], dims={"n": [1, 2, 3]}, cdims={"n": [5]}, samples=40, cfgs=[{"lab": l} for l in ("00", "11", "10", "01")])
def horizon_scaling(S, M, lab):
    n = S.dim("n")
    mu, cov, k = S.vec("mu", n, gen=small), S.mat("c", n, n, sym=True), S.real("k", gen=lambda r: float(r.choice([12., 252., 1., .5, 0., 1 / 12])))
    na = [NAMES[:n] if c == "1" else None for c in lab]
    a, b = S.ok(S.call(M.utils__projection.project_mean_covariance, wrap(S, mu, na[0]), wrap_sq(S, cov, na[1]), k))
    out(S, "mean scales with the horizon", a, [k * mu[i] for i in range(n)], na[0], tol=1e-12)
    out(S, "covariance scales with the horizon", b, [[k * cov[i, j] for j in range(n)] for i in range(n)], na[1], tol=1e-12)


@contract("C13", funcs=[PJ + "convert_scenarios_compound_to_simple", PJ + "convert_scenarios_simple_to_compound"],
          dims={"T": [1, 2, 3], "n": [1, 2]}, cdims={"T": [20], "n": [3]}, samples=80, max_paths=3000, cfgs=[{"kind": k} for k in ("array", "vector", "frame")])
def scenario_conversion(S, M, kind):
    T, n = S.dim("T"), S.dim("n")
    f, g = M.utils__projection.convert_scenarios_compound_to_simple, M.utils__projection.convert_scenarios_simple_to_compound
    x = S.vec("x", T, gen=small) if kind == "vector" else S.mat("x", T, n, gen=small)
    box = (lambda v: S.pd.DataFrame(v.copy(), columns=NAMES[:n])) if kind == "frame" else (lambda v: v.copy())
    val = lambda v: v.to_numpy() if hasattr(v, "to_numpy") else v
    flat = lambda v: list(v.ravel())
    s = val(S.ok(S.call(f, box(x))))
    S.eq_shape("shape", s, x.shape)
    for a, b in zip(flat(s), flat(x)):
        S.eq("simple return is exp(x) - 1", a, S.exp(b) - 1, tol=1e-12)
    back = val(S.ok(S.call(g, box(s))))
    for a, b in zip(flat(back), flat(x)):
        S.eq("compound of simple is the identity", a, b, tol=1e-9)
    r = S.vec("r", T, gen=lambda q: float(q.choice([q.normal() * .3, -1., -.99999, 2.]))) if kind == "vector" else S.mat("r", T, n, gen=lambda q: float(q.choice([q.normal() * .3, q.normal() * .01, -1., -.99999, 2., -1.5], p=[.55, .3, .03, .05, .05, .02])))
    o = S.call(g, box(r))
    if S.cond(S.any([v <= -1 for v in flat(r)])):
        S.raises(o, ValueError, "a simple return of -100% or less is refused")
        return
    c = val(S.ok(o))
    S.eq_shape("shape", c, r.shape)
    for a, b in zip(flat(c), flat(r)):
        S.eq("compound return is log(1 + r)", a, S.log(1 + b), tol=1e-12)
    for a, b in zip(flat(val(S.ok(S.call(f, box(c))))), flat(r)):
        S.eq("simple of compound is the identity", a, b, tol=1e-9)


def arrange(S, x, lab, n, perm):
    """plain, labelled, or labelled in another order"""
    if lab == "0":
        return x.copy(), None
    names = NAMES[:n]
    o = list(range(n)) if lab == "1" else perm
    nn = [names[i] for i in o]
    if len(x.shape) == 1:
        return S.pd.Series(x[o], index=nn, name="mean"), nn
    return S.pd.DataFrame(x[o][:, o], index=nn, columns=nn), nn


def by_label(S, name, got, want, n, labelled, tol):
    """compare in the canonical asset order, whatever order the result carries"""
    if labelled:
        S.true(name + ": asset labels kept", hasattr(got, "index") and sorted(got.index) == sorted(NAMES[:n]) and (len(got.shape) == 1 or list(got.columns) == list(got.index)))
        got = got.loc[NAMES[:n]] if len(got.shape) == 1 else got.loc[NAMES[:n], NAMES[:n]]
        got = got.to_numpy()
    else:
        S.true(name + ": plain array", not hasattr(got, "index"))
    S.eq(name, got, S.arr(want), tol=tol)
    return got


LABS = ("00", "11", "10", "01", "12", "21")


@contract("C13", funcs=[PJ + "log2simple", PJ + "simple2log", PJ + "_to_numpy", PJ + "_wrap_vector", PJ + "_wrap_matrix"],
          dims={"n": [1, 2, 3]}, cdims={"n": [5]}, samples=60, cfgs=[{"lab": l} for l in LABS])
def log_to_simple(S, M, lab):
    n = S.dim("n")
    mu, cov = S.vec("mu", n, gen=lambda r: .1 * small(r)), S.spd("c", n) if S.symbolic else .1 * S.spd("c", n)
    perm = [1, 2, 0] + list(range(3, n)) if n > 2 else list(range(n))[::-1]
    m, na = arrange(S, mu, lab[0], n, perm)
    c, nb = arrange(S, cov, lab[1], n, perm)
    a, b = S.ok(S.call(M.utils__projection.log2simple, m, c))
    e = [S.exp(mu[i] + cov[i, i] / 2) for i in range(n)]
    by_label(S, "mean of simple returns is exp(mu + s/2) - 1", a, [x - 1 for x in e], n, na is not None, 1e-10)
    by_label(S, "covariance of simple returns is E_i E_j (exp(s_ij) - 1)", b, [[S.exp(mu[i] + cov[i, i] / 2 + mu[j] + cov[j, j] / 2 + cov[i, j]) - e[i] * e[j] for j in range(n)] for i in range(n)], n, nb is not None, 1e-10)
    mm, cc = S.ok(S.call(M.utils__projection.simple2log, a, b))
    by_label(S, "log mean recovered", mm, mu, n, na is not None, 1e-7)
    by_label(S, "log covariance recovered", cc, cov, n, nb is not None, 1e-7)


@contract("C13", funcs=[PJ + "simple2log", PJ + "log2simple"], dims={"n": [1, 2, 3]}, cdims={"n": [4]}, samples=80, cfgs=[{"lab": l} for l in LABS])
def simple_to_log(S, M, lab):
    n = S.dim("n")
    mu, cov = S.vec("mu", n, gen=lambda r: float(r.choice([r.normal() * .2, r.normal() * .01, .5, -.9, -1., -1.2], p=[.5, .35, .05, .05, .025, .025]))), S.spd("c", n) if S.symbolic else .05 * S.spd("c", n)
    perm = [1, 2, 0] + list(range(3, n)) if n > 2 else list(range(n))[::-1]
    m, na = arrange(S, mu, lab[0], n, perm)
    c, nb = arrange(S, cov, lab[1], n, perm)
    bad = S.any([x <= -1 for x in mu])
    if not S.cond(bad):
        # a log-normal vector can only have these moments when every E_i E_j + c_ij is positive
        S.assume(S.all([1 + cov[i, j] / ((1 + mu[i]) * (1 + mu[j])) > (0 if S.symbolic else .01) for i in range(n) for j in range(n)]))
    o = S.call(M.utils__projection.simple2log, m, c)
    if S.cond(bad):
        S.raises(o, ValueError, "a mean simple return of -100% or less is refused")
        return
    a, b = S.ok(o)
    u = [1 + mu[i] for i in range(n)]
    v = [[S.log(1 + cov[i, j] / (u[i] * u[j])) for j in range(n)] for i in range(n)]
    by_label(S, "mean of log returns is log(1 + m) - v/2", a, [S.log(u[i]) - v[i][i] / 2 for i in range(n)], n, na is not None, 1e-9)
    by_label(S, "covariance of log returns is log(1 + c_ij / (u_i u_j))", b, v, n, nb is not None, 1e-9)
    mm, cc = S.ok(S.call(M.utils__projection.log2simple, a, b))
    by_label(S, "simple mean recovered", mm, mu, n, na is not None, 1e-7)
    by_label(S, "simple covariance recovered", cc, cov, n, nb is not None, 1e-7)


class Draws:
    """numpy's Generator.choice by its contract: an arbitrary table of row numbers; its arguments are recorded.
    Concretely the real generator runs."""

    def __init__(self, S):
        self.S, self.calls = S, []
        if S.symbolic:
            S.hook("random.default_rng", lambda seed=None: self)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        S = self.S
        S.true("drawn with replacement", replace is True)
        idx = np.array([S.pick(f"draw{len(self.calls)}_{k}", a) for k in range(int(np.prod(size)))], dtype=int).reshape(size)
        self.calls.append((a, p, idx))
        return idx


def drawn_with(S, d, T, p):
    """the generator was asked for rows of the whole history with the given probabilities (None: uniform)"""
    S.true("one joint draw", len(d.calls) == 1)
    a, q, idx = d.calls[0]
    S.true("rows of the whole history", a == T)
    if q is None:
        S.true("uniform draws only without probabilities", p is None)
    else:
        S.eq_shape("one probability per row", q, (T,))
        for t in range(T):
            S.eq("drawn with the given probabilities", q[t], S.lit(1) / T if p is None else p[t] / S.total(p), tol=1e-9)
    return idx


def history(S, T, n):
    """distinct powers: every bootstrap sum reveals how often each row was used"""
    return np.array([[float((j + 1) * 64 ** t) for j in range(n)] for t in range(T)])


def counts(S, v, T, h, j):
    """how often each historical row occurs in the sum v of column j"""
    c, v = [], v / (j + 1)
    for t in range(T):
        c.append(int(round(v)) % 64)
        v = (v - c[-1]) / 64
    S.true("a sum of whole historical rows, one per step", abs(v) < 1e-9 and sum(c) == h, f"{c}")
    return c


PK = ("none", "given", "scaled", "rounded", "series")


def probs(S, T, pk):
    if pk == "none":
        return None, None
    p = S.prob("p", T, strict=False)
    if pk == "scaled":
        p = p * 3
    if pk == "rounded":
        # published to a few digits: sums to one only approximately
        p = p * (S.const("0.999995") if S.symbolic else .999995)
    return p, (S.pd.Series(p.copy(), index=[f"d{t}" for t in range(T)]) if pk == "series" else p.copy())


@contract("C13", funcs=[PJ + "project_scenarios", PJ + "_to_numpy", PJ + "_wrap_vector", PJ + "_wrap_matrix"],
          dims={"T": [1, 2, 3], "h": [1, 2], "n": [1, 2]}, cdims={"T": [4], "h": [5], "n": [3]}, samples=40, max_paths=3000,
          cfgs=[{"kind": k, "pk": p, "rep": r} for k in ("array", "frame", "vector", "series") for p in PK for r in (0, 1)])
def bootstrap_sums(S, M, kind, pk, rep):
    T, h, n = S.dim("T"), S.dim("h"), S.dim("n")
    one = kind in ("vector", "series")
    if one and n > 1:
        raise Reject
    sims = 2 if S.symbolic else 3000
    if S.symbolic and T ** (sims * h) > 81:
        sims = 1
    R = (S.vec("R", T) if one else S.mat("R", T, n)) if S.symbolic else history(S, T, n)[:, 0] if one else history(S, T, n)
    p, pp = probs(S, T, pk)
    r = {"array": lambda: R.copy(), "vector": lambda: R.copy(), "frame": lambda: S.pd.DataFrame(R.copy(), columns=NAMES[:n]), "series": lambda: S.pd.Series(R.copy(), name="spread")}[kind]()
    d = Draws(S)
    f = (lambda x: 2 * x + 1) if rep else None
    res = S.ok(S.call(M.utils__projection.project_scenarios, r, investment_horizon=h, p=pp, n_simulations=sims, reprice=f, seed=S.pick("seed", 1000) if not S.symbolic else 3))
    if kind == "frame":
        S.true("asset labels kept", hasattr(res, "columns") and list(res.columns) == NAMES[:n] and list(res.index) == list(range(sims)))
        res = res.to_numpy()
    elif kind == "series":
        S.true("label kept", hasattr(res, "index") and res.name == "spread" and list(res.index) == list(range(sims)))
        res = res.to_numpy()
    else:
        S.true("plain array", not hasattr(res, "index"))
    S.eq_shape("one row per simulation", res, (sims,) if one else (sims, n))
    if S.symbolic:
        idx = drawn_with(S, d, T, p)
        S.eq_shape("one draw per simulation and step", idx, (sims, h))
        for s in range(sims):
            if one:
                v = S.sum(R[t] for t in idx[s])
                S.eq("sum of whole historical rows", res[s], 2 * v + 1 if rep else v)
            else:
                for j in range(n):
                    v = S.sum(R[t, j] for t in idx[s])
                    S.eq("sum of whole historical rows", res[s, j], 2 * v + 1 if rep else v)
    else:
        x = np.asarray(res, float).reshape(sims, -1)
        x = (x - 1) / 2 if rep else x
        freq = np.zeros(T)
        for s in range(sims):
            c = counts(S, x[s, 0], T, h, 0)
            freq += c
            for j in range(1, n):
                S.true("assets are drawn jointly", counts(S, x[s, j], T, h, j) == c)
        frequencies(S, freq, p, T, sims * h)
    same = (r.to_numpy() if hasattr(r, "to_numpy") else r)
    S.eq("history left alone", same, R)


def frequencies(S, freq, p, T, N):
    q = np.full(T, 1 / T) if p is None else np.asarray(p, float) / np.sum(p)
    for t in range(T):
        if q[t] == 0:
            S.true("a scenario with probability zero is never drawn", freq[t] == 0)
        else:
            S.true("rows are drawn with the given probabilities", abs(freq[t] - N * q[t]) <= 7 * np.sqrt(N * q[t] * (1 - q[t])) + 3, f"{freq} of {N} for {q}")


@contract("C13", funcs=[PJ + "simulate_paths", PJ + "_to_numpy"],
          dims={"T": [1, 2, 3], "h": [1, 2], "n": [1, 2]}, cdims={"T": [4], "h": [5], "n": [3]}, samples=40, max_paths=3000,
          cfgs=[{"kind": k, "pk": p, "rep": r} for k in ("array", "frame", "vector", "whole") for p in PK for r in (0, 1, 2)])
def path_simulation(S, M, kind, pk, rep):
    T, h, n = S.dim("T"), S.dim("h"), S.dim("n")
    one = kind == "vector"
    if one and n > 1:
        raise Reject
    paths = 2 if S.symbolic else 1000
    if S.symbolic and T ** (paths * h) > 81:
        paths = 1
    if kind == "whole":
        R = np.array([[(j + 1) * 64 ** t for j in range(n)] for t in range(T)], dtype=int)
    else:
        R = (S.vec("R", T) if one else S.mat("R", T, n)) if S.symbolic else history(S, T, n)[:, 0] if one else history(S, T, n)
    p, pp = probs(S, T, pk)
    r = S.pd.DataFrame(R.copy(), columns=NAMES[:n]) if kind == "frame" else R.copy()
    d = Draws(S)
    # 1: half of the change of every driver; 2: two instruments per driver set (sum and first driver)
    f = {0: None, 1: lambda x: x / 2, 2: lambda x: S.np.column_stack([x.sum(axis=1), x[:, 0]]) if not S.symbolic else S.arr([[S.sum(list(v)), v[0]] for v in x])}[rep]
    res = S.ok(S.call(M.utils__projection.simulate_paths, r, horizon=h, n_paths=paths, p=pp, reprice=f, seed=S.pick("seed", 1000) if not S.symbolic else 3))
    w = 2 if rep == 2 else n
    S.eq_shape("paths x steps x instruments", res, (paths, h, w))
    Rm = R.reshape(T, -1)
    if S.symbolic:
        idx = drawn_with(S, d, T, p)
        S.eq_shape("one draw per path and step", idx, (paths, h))
        for s in range(paths):
            cum = [[S.sum(Rm[idx[s][k], j] for k in range(t + 1)) for j in range(n)] for t in range(h)]
            for t in range(h):
                want = cum[t] if rep == 0 else [x / 2 for x in cum[t]] if rep == 1 else [S.sum(cum[t]), cum[t][0]]
                for j in range(w):
                    S.eq("cumulated steps" if rep == 0 else "the repriced cumulated steps", res[s, t, j], want[j])
    else:
        x = np.asarray(res, float)
        if rep == 1:
            x = 2 * x
        elif rep == 2:
            tot = n * (n + 1) / 2
            S.true("both instruments see the same draw", np.allclose(x[:, :, 0], tot * x[:, :, 1]))
            x = x[:, :, 1:]
        freq = np.zeros(T)
        for s in range(paths):
            prev = [0] * T
            for t in range(h):
                c = counts(S, x[s, t, 0], T, t + 1, 0)
                S.true("each step adds one historical row", all(a <= b for a, b in zip(prev, c)))
                for j in range(1, x.shape[2]):
                    S.true("assets are drawn jointly", counts(S, x[s, t, j], T, t + 1, j) == c)
                prev = c
            freq += prev
        frequencies(S, freq, p, T, paths * h)
    S.eq("history left alone", r.to_numpy() if kind == "frame" else r, R)


@contract("C13", funcs=[PJ + "project_scenarios", PJ + "simulate_paths"], modes="FC", dims={"T": [3]}, samples=40,
          cfgs=[{"f": f, "case": c} for f in ("project", "paths") for c in ("negative", "short", "long", "zero", "nan", "inf", "horizon0", "sims0", "cube")])
def bootstrap_refuses(S, M, f, case):
    T = S.dim("T")
    R = S.mat("R", T, 2)
    p = S.prob("p", T)
    k = S.pick("at", T)
    q = [p[t] for t in range(T)]
    if S.symbolic:
        if f == "paths" and case in ("zero", "inf"):
            raise Reject            # division by an exact zero / infinity: checked on the real arithmetic only
        d = Draws(S)
        d.choice = lambda a, size=None, replace=True, p=None: refuse(S, a, size, p)
    h, sims = 2, 4
    if case == "negative":
        q[k] = -q[k]
    elif case == "short":
        q = q[:-1]
    elif case == "long":
        q = q + [S.lit(0)]
    elif case == "zero":
        q = [0 * x for x in q]
    elif case in ("nan", "inf"):
        q[k] = float(case)
    elif case == "horizon0":
        h = 0
    elif case == "sims0":
        sims = 0
    else:
        R = R.reshape(1, T, 2)
    if f == "project":
        o = S.call(M.utils__projection.project_scenarios, R, investment_horizon=h, p=S.np.array(q), n_simulations=sims, seed=1)
    elif case in ("horizon0", "sims0"):
        raise Reject
    else:
        o = S.call(M.utils__projection.simulate_paths, R, horizon=h, p=S.np.array(q), n_paths=sims, seed=1)
    S.raises(o, ValueError, "refused: " + case)


def refuse(S, a, size, p):
    """Generator.choice refuses probabilities that are negative, not finite, of another length or do not sum to one"""
    if p is not None:
        if len(p) != a or S.cond(S.any([x < 0 for x in p])):
            raise ValueError("probabilities")
        if not S.cond(S.np.all(S.np.isfinite(p))):
            raise ValueError("probabilities not finite")
        t = S.total(p)
        if S.cond(S.any([t > 1 + S.const("1e-8"), t < 1 - S.const("1e-8")])):
            raise ValueError("probabilities do not sum to 1")
    if min(size) < 0:
        raise ValueError("size")
    return np.zeros(size, dtype=int)


@contract("C13", funcs=[PJ + "reprice_exp", PJ + "reprice_taylor"], dims={"s": [1, 2, 3], "n": [1, 2]}, cdims={"s": [6], "n": [3]}, samples=60,
          cfgs=[{"t": t, "d": d, "g": g, "vec": v, "flat": f} for t in (0, 1) for d in (0, 1) for g in (0, 1) for v in (0, 1) for f in (0, 1)])
def builtin_repricing(S, M, t, d, g, vec, flat):
    s, n = S.dim("s"), S.dim("n")
    if flat and n > 1:
        raise Reject
    y = S.vec("y", s, gen=small) if flat else S.mat("y", s, n, gen=small)
    keep = y.copy()
    e = S.ok(S.call(M.utils__projection.reprice_exp, y))
    S.eq_shape("shape", e, y.shape)
    for a, b in zip(e.ravel(), y.ravel()):
        S.eq("exponential repricing is exp(x) - 1", a, S.exp(b) - 1, tol=1e-12)
    co, kw = {}, {}
    for name, on in (("theta", t), ("delta", d), ("gamma", g)):
        if on:
            v = S.vec(name, n) if vec and not flat else S.real(name)
            co[name] = [v[j] for j in range(n)] if vec and not flat else [v] * n
            kw[name] = v
    tau = S.real("tau", gen=lambda r: float(r.choice([1 / 252, 1 / 12, 1., 0.])))
    if t or S.pick("with tau", 2):
        kw["tau"] = tau
    o = S.ok(S.call(M.utils__projection.reprice_taylor, y, **kw))
    S.eq_shape("shape", o, y.shape)
    z = [0] * n
    o2, y2 = o.reshape(s, n), y.reshape(s, n)
    for i in range(s):
        for j in range(n):
            S.eq("theta tau + delta x + gamma x^2 / 2", o2[i, j], co.get("theta", z)[j] * tau + co.get("delta", z)[j] * y2[i, j] + co.get("gamma", z)[j] * y2[i, j] * y2[i, j] / 2, tol=1e-12)
    S.eq("changes left alone", y, keep)


@contract("C13", funcs=[PJ + "reprice_taylor"], dims={"s": [1, 2, 3]}, samples=20)
def taylor_whole_numbers(S, M):
    """integer changes are repriced in real arithmetic"""
    s = S.dim("s")
    y = np.array([[S.pick(f"y{i}", 5) - 2] for i in range(s)], dtype=int)
    d, g = S.real("d"), S.real("g")
    o = S.ok(S.call(M.utils__projection.reprice_taylor, y, delta=d, gamma=g))
    for i in range(s):
        S.eq("delta x + gamma x^2 / 2", o[i, 0], d * int(y[i, 0]) + g * int(y[i, 0]) ** 2 / 2, tol=1e-12)


@contract("C13", funcs=[PJ + "make_repricing_fn"], dims={"s": [1, 2, 3], "k": [1, 2]}, cdims={"k": [3]}, samples=60, cfgs=[{"kind": k} for k in ("exp", "product", "square")])
def full_repricing(S, M, kind):
    s, k = S.dim("s"), S.dim("k")
    y0, dy = S.vec("y0", k, gen=small), S.mat("dy", s, k, gen=small)
    f = {"exp": lambda Y: 100 * S.np.exp(-5 * Y), "product": lambda Y: Y[..., 0] * Y[..., k - 1], "square": lambda Y: Y * Y}[kind]
    keep = (y0.copy(), dy.copy())
    fn = S.ok(S.call(M.utils__projection.make_repricing_fn, f, y0))
    for rep in range(2):
        o = S.ok(S.call(fn, dy))
        S.eq_shape("one row per scenario", o, (s,) if kind == "product" else (s, k))
        for i in range(s):
            y1 = [y0[j] + dy[i, j] for j in range(k)]
            if kind == "product":
                S.eq("price at the horizon minus price now", o[i], y1[0] * y1[k - 1] - y0[0] * y0[k - 1], tol=1e-10)
            for j in range(k if kind != "product" else 0):
                S.eq("price at the horizon minus price now", o[i, j], 100 * S.exp(-5 * y1[j]) - 100 * S.exp(-5 * y0[j]) if kind == "exp" else y1[j] * y1[j] - y0[j] * y0[j], tol=1e-10)
    S.eq("drivers left alone", y0, keep[0])
    S.eq("changes left alone", dy, keep[1])


DRV = ["stock", "rate", "vol"]


@contract("C13", funcs=[PJ + "compose_repricers", PJ + "compose_repricers._combined"], dims={"s": [1, 2, 3]}, cdims={"s": [5]}, samples=40, cfgs=[{"perm": p} for p in ([0, 1, 2], [2, 0, 1], [1, 2, 0])])
def composition(S, M, perm):
    """each instrument is priced by its own function from its own drivers, columns in the declared order"""
    s = S.dim("s")
    cols = [DRV[i] for i in perm]
    y = {c: [S.real(f"{c}{i}", gen=small) for i in range(s)] for c in DRV}
    dy = S.arr([[y[c][i] for c in cols] for i in range(s)])
    seen = {}

    def note(name, f):
        def g(x):
            seen[name] = x
            return f(x)
        return g

    inst = {
        "call": (["vol", "stock"], note("call", lambda x: 2 * x[:, 0] - x[:, 1] * x[:, 1])),
        "stock": note("stock", lambda x: 3 * x),
        "bond": (["rate"], note("bond", lambda x: -7 * x)),
        "swap": ("rate", lambda x: (5 * x + 1).reshape(-1, 1)),
        "var": (("vol",), lambda x: x * x),
    }
    want = {"call": lambda i: 2 * y["vol"][i] - y["stock"][i] * y["stock"][i], "stock": lambda i: 3 * y["stock"][i], "bond": lambda i: -7 * y["rate"][i],
            "swap": lambda i: 5 * y["rate"][i] + 1, "var": lambda i: y["vol"][i] * y["vol"][i]}
    fn, names = S.ok(S.call(M.utils__projection.compose_repricers, inst, cols))
    S.true("instrument names in the declared order", list(names) == list(inst))
    keep = dy.copy()
    for rep in range(2):
        o = S.ok(S.call(fn, dy))
        S.eq_shape("scenarios x instruments", o, (s, 5))
        for j, nm in enumerate(inst):
            for i in range(s):
                S.eq("each instrument priced from its own drivers", o[i, j], want[nm](i), tol=1e-12)
    S.eq("changes left alone", dy, keep)
    # a single driver column handed over as a vector
    fn1, _ = S.ok(S.call(M.utils__projection.compose_repricers, {"a": ("x", lambda v: 2 * v), "x": lambda v: v + 1}, ["x"]))
    v = S.arr(y["rate"])
    o = S.ok(S.call(fn1, v))
    for i in range(s):
        S.eq("vector of one driver", o[i, 0], 2 * v[i], tol=1e-12)
        S.eq("vector of one driver", o[i, 1], v[i] + 1, tol=1e-12)


@contract("C13", funcs=[PJ + "compose_repricers"], dims={}, samples=4, cfgs=[{"case": c} for c in ("unknown instrument", "unknown driver", "unknown driver in list", "not callable", "number", "triple", "list")])
def composition_refuses(S, M, case):
    f = lambda x: x
    bad, exc = {"unknown instrument": ({"bond": f}, KeyError), "unknown driver": ({"stock": f, "bond": ("yield", f)}, KeyError), "unknown driver in list": ({"bond": (["rate", "yield"], f)}, KeyError),
                "not callable": ({"bond": ("rate", 3)}, TypeError), "number": ({"bond": 3}, TypeError), "triple": ({"bond": ("rate", f, 1)}, TypeError), "list": ({"bond": ["rate", f]}, TypeError)}[case]
    S.raises(S.call(M.utils__projection.compose_repricers, bad, DRV), exc, case + " refused")


# ---------------------------------------------------------------------- every number of scenarios, steps, simulations and assets
@contract("C13", funcs=[PJ + "project_mean_covariance", PJ + "log2simple", PJ + "simple2log", PJ + "_to_numpy"], modes="PC", dims={"n": [2]}, cdims={"n": [9, 20]}, samples=24)
def all_sizes_conversion(S, M):
    n = S.dim("n")
    mu, cov = S.vec("mu", n, gen=lambda r: .1 * small(r)), S.spd("c", n) if S.symbolic else .1 * S.spd("c", n)
    k = S.real("k", gen=lambda r: float(r.choice([12., 252., .5, 0.])))
    a, b = S.ok(S.call(M.utils__projection.project_mean_covariance, mu.copy(), cov.copy(), k))
    S.eq("mean scales with the horizon", a, S.build((n,), lambda i: k * mu[i]))
    S.eq("covariance scales with the horizon", b, S.build((n, n), lambda i, j: k * cov[i, j]))
    a, b = S.ok(S.call(M.utils__projection.log2simple, mu.copy(), cov.copy()))
    e = lambda i: S.exp(mu[i] + cov[i, i] / 2)
    S.eq("mean of simple returns is exp(mu + s/2) - 1", a, S.build((n,), lambda i: e(i) - 1))
    S.eq("covariance of simple returns is E_i E_j (exp(s_ij) - 1)", b, S.build((n, n), lambda i, j: S.exp(mu[i] + cov[i, i] / 2 + mu[j] + cov[j, j] / 2 + cov[i, j]) - e(i) * e(j)))
    mm, cc = S.ok(S.call(M.utils__projection.simple2log, a, b))
    S.eq("log mean recovered", mm, mu, tol=1e-7)
    S.eq("log covariance recovered", cc, cov, tol=1e-7)


@contract("C13", funcs=[PJ + "simple2log"], modes="PC", dims={"n": [2]}, cdims={"n": [9, 20]}, samples=40)
def all_sizes_simple_to_log(S, M):
    n = S.dim("n")
    mu, cov = S.vec("mu", n, gen=lambda r: float(r.choice([r.normal() * .2, r.normal() * .01, .5, -.9, -1.2], p=[.5, .35, .1, .04, .01]))), S.spd("c", n) if S.symbolic else .0001 * S.spd("c", n)
    o = S.call(M.utils__projection.simple2log, mu.copy(), cov.copy())
    if S.cond((mu <= -1).any()):
        S.raises(o, ValueError, "a mean simple return of -100% or less is refused")
        return
    a, b = S.ok(o)
    u = lambda i: 1 + mu[i]
    v = lambda i, j: S.log(1 + cov[i, j] / (u(i) * u(j)))
    S.eq("mean of log returns is log(1 + m) - v/2", a, S.build((n,), lambda i: S.log(u(i)) - v(i, i) / 2))
    S.eq("covariance of log returns is log(1 + c_ij / (u_i u_j))", b, S.build((n, n), v))


@contract("C13", funcs=[PJ + "convert_scenarios_compound_to_simple", PJ + "convert_scenarios_simple_to_compound"], modes="PC", dims={"T": [2], "n": [2]}, cdims={"T": [90], "n": [4]}, samples=24, cfgs=[{"flat": f} for f in (0, 1)])
def all_sizes_scenarios(S, M, flat):
    T, n = S.dim("T"), S.dim("n")
    f, g = M.utils__projection.convert_scenarios_compound_to_simple, M.utils__projection.convert_scenarios_simple_to_compound
    x = S.vec("x", T, gen=small) if flat else S.mat("x", T, n, gen=small)
    s = S.ok(S.call(f, x.copy()))
    S.eq("simple return is exp(x) - 1", s, S.build(x.shape, lambda *i: S.exp(x[i if len(i) > 1 else i[0]]) - 1))
    S.eq("compound of simple is the identity", S.ok(S.call(g, s)), x, tol=1e-9)
    r = S.vec("r", T, gen=lambda q: max(q.normal(), -1.5) * .4) if flat else S.mat("r", T, n, gen=lambda q: max(q.normal(), -2.7) * .4)
    o = S.call(g, r.copy())
    if S.cond((r <= -1).any()):
        S.raises(o, ValueError, "a simple return of -100% or less is refused")
        return
    S.eq("compound return is log(1 + r)", S.ok(o), S.build(r.shape, lambda *i: S.log(1 + r[i if len(i) > 1 else i[0]])), tol=1e-9)


class AnyDraws:
    """numpy's Generator.choice by its contract, for symbolic sizes"""

    def __init__(self, S):
        self.S, self.calls = S, []
        S.hook("random.default_rng", lambda seed=None: self)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.S.true("drawn with replacement", replace is True)
        self.calls.append((a, p, size, self.S.indices(f"draw{len(self.calls)}", tuple(size), a)))
        return self.calls[-1][-1]


@contract("C13", funcs=[PJ + "project_scenarios", PJ + "simulate_paths"], modes="PC", dims={"T": [5], "h": [12], "n": [4]}, cdims={"T": [5, 7], "h": [12], "n": [4]}, samples=12, cfgs=[{"f": f, "pk": p} for f in ("project", "paths") for p in ("none", "given", "scaled")])
def all_sizes_bootstrap(S, M, f, pk):
    if not S.symbolic:
        return bootstrap_sums(S, M, "array", pk, 0) if f == "project" else path_simulation(S, M, "array", pk, 0)
    T, h, n, sims = S.dim("T"), S.dim("h"), S.dim("n"), S.dim("sims")
    R = S.mat("R", T, n)
    p = None
    if pk != "none":
        p = S.prob("p", T, strict=False)
        p = p * S.real("c", lo=0, lo_strict=True) if pk == "scaled" else p
    d = AnyDraws(S)
    kw = {} if p is None else {"p": p.copy()}
    if f == "project":
        res = S.ok(S.call(M.utils__projection.project_scenarios, R.copy(), investment_horizon=h, n_simulations=sims, **kw))
    else:
        res = S.ok(S.call(M.utils__projection.simulate_paths, R.copy(), horizon=h, n_paths=sims, **kw))
    S.true("one joint draw", len(d.calls) == 1)
    a, q, size, idx = d.calls[0]
    S.true("rows of the whole history", a == T)
    S.true("one draw per simulation and step", S.all([len(size) == 2, size[0] == sims, size[1] == h]))
    if q is not None:
        S.eq("drawn with the given probabilities", q, S.build((T,), lambda t: S.lit(1) / T if p is None else p[t] / S.total(p)))
    else:
        S.true("uniform draws only without probabilities", p is None)
    if f == "project":
        S.eq("sum of whole historical rows", res, S.build((sims, n), lambda s, j: S.sigma(h, lambda t: R.at(idx.at(s, t), j))))
    else:
        S.eq("cumulated whole historical rows", res, S.build((sims, h, n), lambda s, k, j: S.sigma(k + 1, lambda t: R.at(idx.at(s, t), j))))


@contract("C13", funcs=[PJ + "reprice_exp", PJ + "reprice_taylor"], modes="PC", dims={"s": [3], "n": [2]}, cdims={"s": [200], "n": [4]}, samples=24, cfgs=[{"vec": v, "on": o} for v in (0, 1) for o in ("tdg", "t", "d", "g", "dg", "")])
def all_sizes_repricing(S, M, vec, on):
    s, n = S.dim("s"), S.dim("n")
    y = S.mat("y", s, n, gen=small)
    S.eq("exponential repricing is exp(x) - 1", S.ok(S.call(M.utils__projection.reprice_exp, y.copy())), S.build((s, n), lambda i, j: S.exp(y[i, j]) - 1))
    co = {k: (S.vec(nm, n) if vec else S.real(nm)) if k in on else None for k, nm in (("t", "theta"), ("d", "delta"), ("g", "gamma"))}
    tau = S.real("tau", gen=lambda r: float(r.choice([1 / 252, 1 / 12, 1., 0.])))
    c = lambda k, j: 0 if co[k] is None else co[k][j] if vec else co[k]
    o = S.ok(S.call(M.utils__projection.reprice_taylor, y.copy(), tau=tau, **{nm: co[k] for k, nm in (("t", "theta"), ("d", "delta"), ("g", "gamma")) if k in on}))
    S.eq("theta tau + delta x + gamma x^2 / 2", o, S.build((s, n), lambda i, j: S.lit(0) + c("t", j) * tau + c("d", j) * y[i, j] + c("g", j) * y[i, j] * y[i, j] / 2))


@contract("C13", funcs=[PJ + "make_repricing_fn", PJ + "compose_repricers", PJ + "compose_repricers._combined"], modes="PC", dims={"s": [3]}, cdims={"s": [200]}, samples=12, cfgs=[{"perm": p} for p in ([0, 1, 2], [2, 0, 1], [1, 2, 0])])
def all_sizes_composition(S, M, perm):
    s = S.dim("s")
    cols = [DRV[i] for i in perm]
    dy = S.mat("dy", s, 3, gen=small)
    y = lambda c, i: dy[i, cols.index(c)]
    inst = {"call": (["vol", "stock"], lambda x: 2 * x[:, 0] - x[:, 1] * x[:, 1]), "stock": lambda x: 3 * x, "bond": (["rate"], lambda x: -7 * x), "swap": ("rate", lambda x: (5 * x + 1).reshape(-1, 1)), "var": (("vol",), lambda x: x * x)}
    want = [lambda i: 2 * y("vol", i) - y("stock", i) * y("stock", i), lambda i: 3 * y("stock", i), lambda i: -7 * y("rate", i), lambda i: 5 * y("rate", i) + 1, lambda i: y("vol", i) * y("vol", i)]
    fn, names = S.ok(S.call(M.utils__projection.compose_repricers, inst, cols))
    S.true("instrument names in the declared order", list(names) == list(inst))
    o = S.ok(S.call(fn, dy.copy()))
    for j in range(5):
        S.eq("each instrument priced from its own drivers", o[:, j], S.build((s,), want[j]), tol=1e-12)
    y0 = S.vec("y0", 3, gen=small)
    g = S.ok(S.call(M.utils__projection.make_repricing_fn, lambda Y: Y[..., 0] * Y[..., 2], y0))
    S.eq("price at the horizon minus price now", S.ok(S.call(g, dy.copy())), S.build((s,), lambda i: (y0[0] + dy[i, 0]) * (y0[2] + dy[i, 2]) - y0[0] * y0[2]), tol=1e-10)
