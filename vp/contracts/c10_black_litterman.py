"""C10 Black-Litterman posterior equals the conditional-Gaussian formula for the stated views."""
import logging
import warnings
import numpy as np
from ..spec import contract, Reject
from ._opt import dot

NAMES = ["B", "A", "C", "D", "E"]
V = "views.BlackLittermanProcessor."
FUNCS = [V + f for f in ("__init__", "_asset_index", "_build_views", "_parse_conf", "_build_omega", "_compute_posterior", "get_posterior")]
logging.getLogger("pyvallocation.views").setLevel(logging.ERROR)


def quiet():
    logging.disable(logging.WARNING)


def inverse(S, A):
    """inverse of a k x k matrix by cofactors (k <= 2 symbolically)"""
    k = len(A)
    if not S.symbolic:
        return np.linalg.inv(np.array(A, dtype=float))
    if k == 1:
        return [[1 / A[0][0]]]
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return [[A[1][1] / d, -A[0][1] / d], [-A[1][0] / d, A[0][0] / d]]


def gauss(S, pi, sg, tau, P, Q, Om):
    """conditional mean and predictive covariance of  mu ~ (pi, tau Sigma),  Q = P mu + noise(Omega)"""
    n, k = len(pi), len(P)
    C = [[tau * sum(sg[i, j] * P[a][j] for j in range(n)) for a in range(k)] for i in range(n)]          # tau Sigma P'
    A = [[sum(P[a][i] * C[i][b] for i in range(n)) + Om[a][b] for b in range(k)] for a in range(k)]
    I = inverse(S, A)
    e = [Q[a] - dot(P[a], pi) for a in range(k)]
    mean = [pi[i] + sum(C[i][a] * I[a][b] * e[b] for a in range(k) for b in range(k)) for i in range(n)]
    cov = [[sg[i, j] + tau * sg[i, j] - sum(C[i][a] * I[a][b] * C[j][b] for a in range(k) for b in range(k)) for j in range(n)] for i in range(n)]
    return mean, cov, C, A


def unit(n, i, j=None):
    r = [0.0] * n
    r[i] = 1.0
    if j is not None:
        r[j] = -1.0
    return r


# view sets over n assets: list of (asset, asset or None)
SHAPES = {"none": [], "a0": [(0, None)], "aL": [(-1, None)], "r": [(0, -1)], "rr": [(-1, 0)], "aa": [(0, None), (1, None)], "ar": [(1, None), (0, -1)], "ra": [(0, 1), (-1, None)]}


def setup(S, shape):
    n = S.dim("n")
    sg = S.spd("sg", n)
    tau = S.real("tau", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.02, .05, .5, 1.])))
    views = [(i % n, None if j is None else j % n) for i, j in SHAPES[shape]]
    if any(i == j for i, j in views) or (len(views) > n):
        raise Reject
    Q = S.vec("Q", max(len(views), 1), gen=lambda r: .1 * r.normal())[:len(views)]
    return n, sg, tau, views, Q, [unit(n, i, j) for i, j in views]


def label_view(i, j, names, how):
    f = {"name": lambda a: names[a], "int": lambda a: a, "digit": lambda a: str(a)}[how]
    return f(i) if j is None else (f(i), f(j))


def post(S, bl, want_mean, want_cov, names, tol=1e-8):
    m, c = S.ok(S.call(bl.get_posterior))
    if names is None:
        S.true("plain arrays", not hasattr(m, "index") and not hasattr(c, "index"))
    else:
        S.true("asset names on the posterior", list(m.index) == names and list(c.index) == names and list(c.columns) == names)
        m, c = m.to_numpy(), c.to_numpy()
    S.eq("posterior mean", m, S.arr(want_mean), tol=tol)
    S.eq("posterior covariance", c, S.arr(want_cov), tol=tol)


def small(d, c):
    return d.get("n", 0) >= 3 and len(SHAPES[c["shape"]]) > 1


@contract("C10", funcs=FUNCS, dims={"n": [1, 2, 3]}, cdims={"n": [2, 3, 4]}, samples=200,
          cfgs=[{"shape": s, "lab": l, "om": o} for s in SHAPES for l in ("arr", "df", "digit") for o in ("default", "vector", "matrix") if not (s == "none" and o != "default")])
def posterior(S, M, shape, lab, om):
    n, sg, tau, views, Q, P = setup(S, shape)
    quiet()
    names = NAMES[:n] if lab == "df" else None
    pi = S.vec("pi", n, gen=lambda r: .1 * r.normal())
    how = {"arr": "int", "df": "name", "digit": "digit"}[lab]
    mv = {label_view(i, j, names, how): Q[k] for k, (i, j) in enumerate(views)}
    K = len(views)
    kw = {}
    if om == "default":
        Om = [[tau * sum(P[a][i] * sg[i, j] * P[a][j] for i in range(n) for j in range(n)) if a == b else 0.0 for b in range(K)] for a in range(K)]
    elif om == "vector":
        o = S.vec("om", K, lo=0, lo_strict=True)
        Om = [[o[a] if a == b else 0.0 for b in range(K)] for a in range(K)]
        kw["omega"] = o.copy()
    else:
        o = S.spd("om", K)
        Om = o
        kw["omega"] = o.copy()
    cov = S.pd.DataFrame(sg.copy(), index=names, columns=names) if names else sg.copy()
    bl = S.ok(S.call(M.views.BlackLittermanProcessor, prior_cov=cov, pi=pi.copy(), tau=tau, mean_views=mv, **kw))
    if not views:
        post(S, bl, list(pi), [list(r) for r in sg], names)
        return
    mean, c, C, A = gauss(S, pi, sg, tau, P, Q, Om)
    post(S, bl, mean, c, names)


@contract("C10", funcs=FUNCS, dims={"n": [1, 2, 3]}, cdims={"n": [2, 4]}, samples=200,
          cfgs=[{"shape": s, "src": a, "kind": k} for s in ("none", "a0", "rr") for a in ("pi", "prior_mean", "market_weights") for k in ("arr", "list", "col", "ser", "perm", "range")])
def prior_sources(S, M, shape, src, kind):
    n, sg, tau, views, Q, P = setup(S, shape)
    quiet()
    names = NAMES[:n]
    if src == "market_weights":
        w = S.vec("w", n, gen=lambda r: r.random() + .05)
        tot = S.total(w)
        S.assume(tot != 0)
        d = S.real("delta", lo=0, lo_strict=True, gen=lambda r: r.uniform(.5, 5))
        pi = [d * dot(sg[i], w) / tot for i in range(n)]
        x, kw = w, {"risk_aversion": d}
    else:
        x, kw = S.vec("pi", n, gen=lambda r: .1 * r.normal()), {}
        pi = list(x)
    keep = x.copy()
    order = list(range(n))[::-1]
    Se = S.pd.Series
    arg = {"arr": lambda: x, "list": lambda: list(x), "col": lambda: x.reshape(-1, 1), "ser": lambda: Se(x, index=names),
           "perm": lambda: Se(S.arr([x[i] for i in order]), index=[names[i] for i in order]), "range": lambda: Se(x)}[kind]()
    held = S.arr(list(arg.to_numpy())) if kind == "perm" else None
    cov = S.pd.DataFrame(sg.copy(), index=names, columns=names)
    mv = {label_view(i, j, names, "name"): Q[k] for k, (i, j) in enumerate(views)}
    om = S.vec("om", len(views), lo=0, lo_strict=True) if views else None
    bl = S.ok(S.call(M.views.BlackLittermanProcessor, prior_cov=cov, tau=tau, mean_views=mv, **({"omega": list(om)} if views else {}), **{src: arg}, **kw))
    if views:
        mean, c, _, _ = gauss(S, S.arr(pi), sg, tau, P, Q, [[om[0]]])
    else:
        mean, c = pi, [list(r) for r in sg]
    post(S, bl, mean, c, names)
    S.eq("caller's prior left alone", x, keep, tol=0 if not S.symbolic else None)
    if held is not None:
        S.eq("caller's labelled prior left alone", arg.to_numpy(), held, tol=0 if not S.symbolic else None)
    S.eq("caller's covariance left alone", cov.to_numpy(), sg, tol=0 if not S.symbolic else None)
    S.true("caller's views left alone", list(mv) == [label_view(i, j, names, "name") for i, j in views])


@contract("C10", funcs=FUNCS, dims={"n": [2, 3]}, cdims={"n": [2, 4]}, samples=200,
          cfgs=[{"shape": s, "conf": c, "tau_base": t} for s in ("a0", "r", "aa", "ar") for c in ("scalar", "list", "dict", "missing", "series", "series_perm") for t in (0, 1, 2)],
          skip=small)
def confidences(S, M, shape, conf, tau_base):
    n, sg, tau, views, Q, P = setup(S, shape)
    quiet()
    names = NAMES[:n]
    K = len(views)
    keys = [label_view(i, j, names, "name") for i, j in views]
    mv = {k: Q[a] for a, k in enumerate(keys)}
    c = S.vec("c", K, lo=0, hi=1, gen=lambda r: float(r.choice([0., 1., r.random(), r.random()])))
    c = list(c)
    if conf == "scalar":
        c = [c[0]] * K
        arg = c[0]
    elif conf == "list":
        arg = list(c)
    elif conf in ("dict", "missing"):
        arg = {k: c[a] for a, k in enumerate(keys)}
        if conf == "missing":
            del arg[keys[0]]
            c[0] = S.lit(1)
    else:
        o = list(range(K)) if conf == "series" else list(range(K))[::-1]
        if any(isinstance(k, tuple) for k in keys):
            if S.symbolic:
                raise Reject                 # tuple keys need a pandas MultiIndex: concrete check only
            import pandas as pd
            ix = pd.Index([keys[a] for a in o], tupleize_cols=False)
        else:
            ix = [keys[a] for a in o]
        arg = S.pd.Series(S.arr([c[a] for a in o]), index=ix)
    lo, hi = S.const("0.000001"), 1 - S.const("0.000001")
    c = [lo if S.cond(x < lo) else hi if S.cond(x > hi) else x for x in c]
    pi = S.vec("pi", n, gen=lambda r: .1 * r.normal())
    base = tau if tau_base else S.lit(1)
    Om = [[(1 - c[a]) / c[a] * base * sum(P[a][i] * sg[i, j] * P[a][j] for i in range(n) for j in range(n)) if a == b else 0.0 for b in range(K)] for a in range(K)]
    kw = {} if tau_base == 2 else {"idzorek_use_tau": bool(tau_base)}
    cov = S.pd.DataFrame(sg.copy(), index=names, columns=names)
    bl = S.ok(S.call(M.views.BlackLittermanProcessor, prior_cov=cov, tau=tau, pi=pi.copy(), mean_views=mv, view_confidences=arg, omega="Idzorek" if conf == "list" else "idzorek", **kw))
    mean, cv, _, _ = gauss(S, pi, sg, tau, P, Q, Om)
    post(S, bl, mean, cv, names, tol=1e-6)


@contract("C10", funcs=FUNCS, dims={"n": [2, 3]}, cdims={"n": [2, 3, 4]}, samples=80, cfgs=[{"shape": s} for s in ("a0", "r")])
def full_confidence(S, M, shape):
    n, sg, tau, views, Q, P = setup(S, shape)
    pi = S.vec("pi", n, gen=lambda r: .1 * r.normal())
    key = label_view(*views[0], None, "int")
    m, c = S.ok(S.call(M.views.BlackLittermanProcessor, prior_cov=sg.copy(), tau=tau, pi=pi.copy(), mean_views={key: Q[0]}, view_confidences=1.0, omega="idzorek")).get_posterior()
    gap0, gap1 = Q[0] - dot(P[0], pi), Q[0] - dot(P[0], m)
    S.eq("a fully confident view closes all but one millionth of its gap", gap1, gap0 * S.const("0.000001"), tol=1e-9)


@contract("C10", funcs=FUNCS, dims={"n": [1, 2, 3]}, cdims={"n": [3, 4]}, samples=120,
          cfgs=[{"vk": v} for v in ("array", "list", "series", "series_perm", "series_range", "one_tuple", "one_list", "int_labels", "columns_perm")])
def labelled_views(S, M, vk):
    """every labelled container lands on its own asset; unlabelled vectors by position"""
    n = S.dim("n")
    sg = S.spd("sg", n)
    pi, q = S.vec("pi", n, gen=lambda r: .1 * r.normal()), S.vec("q", n, gen=lambda r: .1 * r.normal())
    names = NAMES[:n]
    Se = S.pd.Series
    rev = list(range(n))[::-1]
    tau = S.const("0.05")
    ones = [unit(n, i) for i in range(n)]
    cov = S.pd.DataFrame(sg.copy(), index=names, columns=names)
    P, Q = ones, list(q)
    if vk == "int_labels":
        names = [5, 0, 3][:n] if n <= 3 else [5, 0, 3, 7]
        cov = S.pd.DataFrame(sg.copy(), index=names, columns=names)
        mv = {names[-1]: q[0]}
        P, Q = [ones[-1]], [q[0]]
    elif vk in ("one_tuple", "one_list"):
        mv = {names[0]: (q[0],) if vk == "one_tuple" else [q[0]]}
        P, Q = [ones[0]], [q[0]]
    elif vk == "columns_perm":
        cov = S.pd.DataFrame(S.arr([[sg[i, j] for j in rev] for i in range(n)]), index=names, columns=[names[j] for j in rev])
        mv = {names[0]: q[0]}
        P, Q = [ones[0]], [q[0]]
    else:
        if S.symbolic and n > 2:
            raise Reject
        mv = {"array": lambda: q.copy(), "list": lambda: list(q), "series": lambda: Se(q.copy(), index=names), "series_range": lambda: Se(q.copy()),
              "series_perm": lambda: Se(S.arr([q[i] for i in rev]), index=[names[i] for i in rev])}[vk]()
        if vk == "series_perm":
            P, Q = [ones[i] for i in rev], [q[i] for i in rev]
    with warnings.catch_warnings():
        warnings.simplefilter("error")          # a covariance permuted consistently is symmetric: no symmetrising warning
        bl = S.ok(S.call(M.views.BlackLittermanProcessor, prior_cov=cov, tau=tau, pi=pi.copy(), mean_views=mv))
    Om = [[tau * sum(P[a][i] * sg[i, j] * P[a][j] for i in range(n) for j in range(n)) if a == b else 0.0 for b in range(len(P))] for a in range(len(P))]
    mean, c, _, _ = gauss(S, pi, sg, tau, P, Q, Om)
    post(S, bl, mean, c, names)


@contract("C10", funcs=FUNCS, dims={"n": [1, 2]}, cdims={"n": [3]}, samples=60, cfgs=[{"k": "arr"}, {"k": "ser"}])
def asymmetric_prior(S, M, k):
    """an asymmetric covariance is replaced by its symmetric part"""
    n = S.dim("n")
    B = S.mat("B", n, n, gen=lambda r: r.normal() * .1)
    if not S.symbolic:
        B = B + np.eye(n) * 2
    tau = S.const("0.05")
    pi = S.vec("pi", n)
    sym = (B + B.T) / 2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bl = S.ok(S.call(M.views.BlackLittermanProcessor, prior_cov=B.copy(), pi=pi.copy(), tau=tau))
    asym = S.any([S.absval(B[i, j] - B[j, i]) > S.const("0.00000001") + S.const("0.00001") * S.absval(B[j, i]) for i in range(n) for j in range(n)])
    m, c = bl.get_posterior()
    if S.cond(asym):
        S.eq("symmetrised", c, sym)
    else:
        S.eq("kept", c, B)


@contract("C10", funcs=["moments.posterior_moments_black_litterman"], dims={"n": [1, 2]}, cdims={"n": [3]}, samples=80, cfgs=[{"src": s, "om": o} for s in ("prior_mean", "market_weights", "pi") for o in ("idzorek", "vector")])
def wrapper(S, M, src, om):
    n, sg, tau, views, Q, P = setup(S, "a0")
    quiet()
    names = NAMES[:n]
    x = S.vec("x", n, gen=lambda r: r.random() + .05)
    d = S.real("delta", lo=0, lo_strict=True)
    S.assume(S.total(x) != 0)
    pi = [d * dot(sg[i], x) / S.total(x) for i in range(n)] if src == "market_weights" else list(x)
    c = S.real("c", lo=.01, hi=.99)
    o = S.real("o", lo=0, lo_strict=True)
    kw = {"view_confidences": {names[0]: c}} if om == "idzorek" else {"omega": [o]}
    Om = [[(1 - c) / c * tau * sg[0, 0]]] if om == "idzorek" else [[o]]
    cov = S.pd.DataFrame(sg.copy(), index=names, columns=names)
    m, cv = S.ok(S.call(M.moments.posterior_moments_black_litterman, prior_cov=cov, tau=tau, risk_aversion=d, mean_views={names[0]: Q[0]}, **{src: S.pd.Series(x.copy(), index=names)}, **kw))
    mean, c2, _, _ = gauss(S, S.arr(pi), sg, tau, P, Q, Om)
    S.true("labelled", list(m.index) == names and list(cv.columns) == names)
    S.eq("posterior mean", m.to_numpy(), S.arr(mean), tol=1e-8)
    S.eq("posterior covariance", cv.to_numpy(), S.arr(c2), tol=1e-8)


BAD = ("no prior", "zero risk aversion", "negative risk aversion", "cov not square", "cov vector", "weights short", "weights long", "pi short", "pi long", "mean long", "unknown asset", "unknown relative",
       "self relative", "inequality view", "views short", "views long", "views series labels", "conf short", "conf long", "idzorek without confidence", "omega short", "omega matrix shape", "omega word",
       "pi labels", "weights labels", "mean labels", "cov columns labels", "conf series labels", "index out of range", "negative index")


@contract("C10", funcs=FUNCS, cfgs=[{"case": c, "views": v} for c in BAD for v in (0, 1)], samples=2 * len(BAD))
def refused(S, M, case, views):
    quiet()
    AB = ["A", "B"]
    m, c = np.array([.1, .2]), np.array([[.04, .01], [.01, .09]])
    D, Se = S.pd.DataFrame, S.pd.Series
    k = dict(prior_cov=D(c.copy(), index=AB, columns=AB), pi=m.copy(), tau=.05)
    if views:
        k["mean_views"] = {"A": .1, ("A", "B"): .02}
    two = {"A": .1, ("A", "B"): .02}
    k.update({
        "no prior": dict(pi=None), "zero risk aversion": dict(risk_aversion=0.0), "negative risk aversion": dict(risk_aversion=-1.0),
        "cov not square": dict(prior_cov=c[:, :1]), "cov vector": dict(prior_cov=np.array([.1, .2])), "weights short": dict(pi=None, market_weights=[1.0]), "weights long": dict(pi=None, market_weights=[.5, .3, .2]),
        "pi short": dict(pi=m[:1]), "pi long": dict(pi=np.array([.1, .2, .3])), "mean long": dict(pi=None, prior_mean=np.array([.1, .2, .3])),
        "unknown asset": dict(mean_views={"Z": .1}), "unknown relative": dict(mean_views={("A", "Z"): .1}), "self relative": dict(mean_views={("A", "A"): .1}),
        "inequality view": dict(mean_views={"A": (">=", .1)}), "views short": dict(mean_views=[.1]), "views long": dict(mean_views=[.1, .2, .3]),
        "views series labels": dict(mean_views=Se([.1, .2], index=["A", "Z"])),
        "conf short": dict(mean_views=two, view_confidences=[.5], omega="idzorek"), "conf long": dict(mean_views=two, view_confidences=[.5, .5, .5], omega="idzorek"),
        "idzorek without confidence": dict(mean_views=two, omega="idzorek"), "omega short": dict(mean_views=two, omega=[.1]), "omega matrix shape": dict(mean_views=two, omega=np.eye(3)),
        "omega word": dict(mean_views=two, omega="proportional"),
        "pi labels": dict(pi=Se(m, index=["A", "Z"])), "weights labels": dict(pi=None, market_weights=Se(m, index=["A", "Z"])), "mean labels": dict(pi=None, prior_mean=Se(m, index=["X", "B"])),
        "cov columns labels": dict(prior_cov=D(c, index=AB, columns=["A", "Z"])), "conf series labels": dict(mean_views={"A": .1}, view_confidences=Se([.5], index=["B"]), omega="idzorek"),
        "index out of range": dict(mean_views={2: .1}), "negative index": dict(mean_views={-1: .1}),
    }[case])
    S.raises(S.call(M.views.BlackLittermanProcessor, **k), Exception, "refused: " + case)


# ---------------------------------------------------------------------- every number of assets
PVIEWS = {"none": [], "a": [(2, None)], "r": [(0, 2)], "ar": [(1, None), (0, 2)], "ra": [(2, 0), (2, None)], "rr": [(1, 2), (2, 0)]}


@contract("C10", funcs=FUNCS, modes="PC", dims={"n": [3]}, cdims={"n": [3, 9, 25]}, samples=60,
          cfgs=[{"shape": s, "om": o, "src": a} for s in PVIEWS for o in ("default", "vector", "matrix", "idzorek", "idzorek_full") for a in ("pi", "prior_mean", "market_weights") if not (s == "none" and o != "default") and not (o != "default" and a != "pi") and not (s == "rr" and o == "idzorek_full")])
def all_sizes_posterior(S, M, shape, om, src):
    n = S.dim("n", 3)
    quiet()
    sg = S.spd("sg", n)
    tau = S.real("tau", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.02, .05, .5, 1.])))
    views = PVIEWS[shape]
    K = len(views)
    Q = [S.real(f"Q{k}", gen=lambda r: .1 * r.normal()) for k in range(K)]
    # rows of P as sums of signed unit vectors: P x is a combination of single entries
    Pm = lambda a, f: f(views[a][0]) - (0 if views[a][1] is None else f(views[a][1]))
    if src == "market_weights":
        w = S.vec("w", n, lo=0, lo_strict=True, gen=lambda r: r.random() + .05)
        d = S.real("delta", lo=0, lo_strict=True, gen=lambda r: r.uniform(.5, 5))
        pi = S.build((n,), lambda i: d * S.sigma(n, lambda j: sg[i, j] * w[j]) / S.total(w))
        kw = {"market_weights": w.copy(), "risk_aversion": d}
    else:
        pi = S.vec("pi", n, gen=lambda r: .1 * r.normal())
        kw = {src: pi.copy()}
    PSP = [[Pm(a, lambda i: Pm(b, lambda j: sg[i, j])) for b in range(K)] for a in range(K)]
    if om == "default":
        Om = [[tau * PSP[a][a] if a == b else S.lit(0) for b in range(K)] for a in range(K)]
    elif om == "vector":
        o = S.vec("om", K, lo=0, lo_strict=True) if not S.symbolic else S.arr([S.real(f"om{a}", lo=0, lo_strict=True) for a in range(K)])
        Om = [[o[a] if a == b else S.lit(0) for b in range(K)] for a in range(K)]
        kw["omega"] = o.copy()
    elif om == "matrix":
        o = [[None] * K for _ in range(K)]
        for a in range(K):
            for b in range(a + 1):
                o[a][b] = o[b][a] = S.real(f"om{a}_{b}", gen=lambda r: r.uniform(.5, 1)) * (S.lit(1) if S.symbolic or a == b else .3)
        Om = o
        kw["omega"] = S.arr(o)
    else:
        c = [S.real(f"c{a}", lo=.01, hi=.99, gen=lambda r: r.uniform(.05, .95)) for a in range(K)]
        Om = [[(1 - c[a]) / c[a] * (tau if om == "idzorek" else S.lit(1)) * PSP[a][a] if a == b else S.lit(0) for b in range(K)] for a in range(K)]
        kw.update(omega="idzorek", view_confidences=S.arr(c))
        if om != "idzorek":
            kw["idzorek_use_tau"] = False
    mv = {(i if j is None else (i, j)): q for (i, j), q in zip(views, Q)}
    bl = S.ok(S.call(M.views.BlackLittermanProcessor, prior_cov=sg.copy(), tau=tau, mean_views=mv, **kw))
    m, c = S.ok(S.call(bl.get_posterior))
    if not K:
        S.eq("without views the posterior mean is the prior mean", m, pi)
        S.eq("without views the posterior covariance is the prior covariance", c, sg)
        return
    A = [[tau * PSP[a][b] + Om[a][b] for b in range(K)] for a in range(K)]
    I = inverse(S, A)
    e = [Q[a] - Pm(a, lambda i: pi[i]) for a in range(K)]
    C = lambda i, a: tau * Pm(a, lambda j: sg[i, j])
    S.eq("posterior mean", m, S.build((n,), lambda i: pi[i] + sum(C(i, a) * I[a][b] * e[b] for a in range(K) for b in range(K))), tol=1e-8)
    S.eq("posterior covariance", c, S.build((n, n), lambda i, j: (1 + tau) * sg[i, j] - sum(C(i, a) * I[a][b] * C(j, b) for a in range(K) for b in range(K))), tol=1e-8)
