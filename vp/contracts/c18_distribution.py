"""C18 distributions and input coercion keep values and labels aligned."""
import itertools
import numpy as np
import pandas as pd
from ..spec import contract, Reject
from ._opt import dot, quad

AD = "portfolioapi.AssetsDistribution.__post_init__"
NAMES = ["B", "A", "C", "D", "E", "F", "G"]


def wmean(S, R, p, c):
    return sum((p[t] * R[t, c] for t in range(R.shape[0])), 0 * p[0])


def wcov(S, R, p, i, j):
    mi, mj = wmean(S, R, p, i), wmean(S, R, p, j)
    return sum((p[t] * (R[t, i] - mi) * (R[t, j] - mj) for t in range(R.shape[0])), 0 * p[0])


def quiet_eig(S):
    """The eigenvalues are only compared with a warning threshold here: any non-negative numbers."""
    if S.symbolic:
        def ev(a):
            out = np.empty(a.shape[0], dtype=object)
            for i in range(len(out)):
                out[i] = S.lit(i)
            return out
        S.hook("linalg.eigvalsh", ev)


@contract("C18", funcs=[AD], dims={"n": [1, 2, 3]}, cdims={"n": [5]}, samples=80,
          cfgs=[{"kmu": a, "kcov": b, "given": g} for a in ("arr", "ser", "list", "col") for b in ("arr", "df", "list") for g in (0, 1)])
def from_given_moments(S, M, kmu, kcov, given):
    n = S.dim("n")
    quiet_eig(S)
    mu, cov = S.vec("mu", n), S.spd("cov", n)
    names = NAMES[:n]
    a = {"arr": lambda: mu.copy(), "ser": lambda: S.pd.Series(mu.copy(), index=names), "list": lambda: list(mu), "col": lambda: mu.copy().reshape(-1, 1)}[kmu]()
    b = {"arr": lambda: cov.copy(), "df": lambda: S.pd.DataFrame(cov.copy(), index=names, columns=names), "list": lambda: [list(r) for r in cov]}[kcov]()
    d = S.ok(S.call(M.portfolioapi.AssetsDistribution, mu=a, cov=b, **({"asset_names": tuple(names)} if given else {})))
    S.eq("means are the given ones", d.mu, mu)
    S.eq("covariance is the given one", d.cov, cov)
    S.true("number of assets", d.N == n)
    S.true("no scenarios", d.T is None and d.scenarios is None and d.probabilities is None)
    lab = given or kmu == "ser" or kcov == "df"
    S.true("asset names are the given ones", d.asset_names == (names if lab else None))


@contract("C18", funcs=[AD, "probabilities.generate_uniform_probabilities", "moments.estimate_sample_moments"], dims={"T": [1, 2, 3], "n": [1, 2]}, cdims={"T": [7], "n": [3]}, samples=120,
          cfgs=[{"ks": a, "kp": b, "mom": m} for a in ("arr", "df") for b in ("none", "arr", "ser", "col") for m in ("none", "mu", "cov", "both")])
def from_given_scenarios(S, M, ks, kp, mom):
    T, n = S.dim("T"), S.dim("n")
    quiet_eig(S)
    R = S.mat("R", T, n)
    names = NAMES[:n]
    kw = {"scenarios": S.pd.DataFrame(R.copy(), columns=names) if ks == "df" else R.copy()}
    if kp == "none":
        p = [S.lit(1) / T] * T if S.symbolic else [1 / T] * T
    else:
        q = S.vec("q", T, lo=0, gen=lambda r: max(0., r.random() - .1))
        tot = S.total(q)
        S.assume(tot > 0)
        p = [x / tot for x in q]
        kw["probabilities"] = {"arr": q.copy(), "ser": S.pd.Series(q.copy(), index=[f"s{t}" for t in range(T)]), "col": q.copy().reshape(-1, 1)}[kp]
    mu = [wmean(S, R, p, c) for c in range(n)]
    cov = [[wcov(S, R, p, i, j) for j in range(n)] for i in range(n)]
    if mom in ("mu", "both"):
        mu = S.vec("mu", n)
        kw["mu"] = mu.copy()
    if mom in ("cov", "both"):
        cov = S.spd("cov", n)
        kw["cov"] = cov.copy()
    d = S.ok(S.call(M.portfolioapi.AssetsDistribution, **kw))
    S.eq("scenarios are the given ones", d.scenarios, R)
    S.eq("probabilities are the given ones, normalised", d.probabilities, S.arr(p), tol=1e-12)
    S.eq("means are the given ones, else the weighted scenario means", d.mu, S.arr(mu))
    S.eq("covariance is the given one, else the weighted scenario covariance", d.cov, S.arr(cov))
    S.true("sizes", d.N == n and d.T == T)
    S.true("asset names come from the scenarios", d.asset_names == (names if ks == "df" else None))


def bad_cases(S):
    N = float("nan")
    I = np.eye(2)
    m, c2 = np.array([.1, .2]), np.array([[.04, .01], [.01, .09]])
    R = np.array([[.1, .2], [.0, -.1], [.3, .1]])
    D = S.pd.DataFrame
    Se = S.pd.Series
    dfc = lambda ix, cols: D(c2.copy(), index=ix, columns=cols)
    return {
        "nothing": {}, "lone probabilities": {"probabilities": [.5, .5]},
        "mu too short": {"mu": m[:1], "cov": c2}, "mu too long": {"mu": np.array([.1, .2, .3]), "cov": c2},
        "cov not square": {"mu": m, "cov": c2[:1]}, "cov vector": {"mu": m, "cov": np.array([.1, .2])}, "cov too large": {"mu": m, "cov": np.eye(3)},
        "scenarios vector": {"scenarios": R[:, 0]}, "scenarios and mu disagree": {"scenarios": R, "mu": np.array([.1, .2, .3])},
        "scenarios and cov disagree": {"scenarios": R, "cov": np.eye(3)},
        "probabilities too short": {"scenarios": R, "probabilities": np.array([.5, .5])},
        "probabilities too long": {"scenarios": R, "probabilities": np.array([.25] * 4)},
        "negative probability": {"scenarios": R, "probabilities": np.array([.5, .75, -.25])},
        "zero probabilities": {"scenarios": R, "probabilities": np.zeros(3)},
        "NaN probability": {"scenarios": R, "probabilities": np.array([.5, .5, N])},
        "infinite probability": {"scenarios": R, "probabilities": np.array([.5, .5, float("inf")])},
        "NaN mean": {"mu": np.array([.1, N]), "cov": c2}, "infinite mean": {"mu": np.array([.1, float("inf")]), "cov": c2},
        "NaN covariance": {"mu": m, "cov": np.array([[1, N], [N, 1]])}, "NaN scenario": {"scenarios": np.array([[.1, N], [.2, .1]]), "mu": m, "cov": c2},
        "infinite scenario": {"scenarios": np.array([[.1, float("-inf")], [.2, .1]]), "mu": m, "cov": c2},
        "names too short": {"mu": m, "cov": c2, "asset_names": ["A"]}, "names too long": {"mu": m, "cov": c2, "asset_names": ["A", "B", "C"]},
        "mu and cov labels differ": {"mu": Se(m, index=["A", "B"]), "cov": dfc(["A", "C"], ["A", "C"])},
        "mu and cov order differs": {"mu": Se(m, index=["A", "B"]), "cov": dfc(["B", "A"], ["B", "A"])},
        "cov rows and columns differ": {"mu": m, "cov": dfc(["A", "B"], ["B", "A"])},
        "names and mu order differs": {"mu": Se(m, index=["A", "B"]), "cov": c2, "asset_names": ["B", "A"]},
        "scenario columns and mu order differs": {"mu": Se(m, index=["A", "B"]), "scenarios": D(R, columns=["B", "A"])},
        "scenario columns and cov order differs": {"cov": dfc(["A", "B"], ["A", "B"]), "scenarios": D(R, columns=["B", "A"])},
        "names and scenario columns differ": {"asset_names": ["A", "B"], "scenarios": D(R, columns=["A", "C"])},
        "no assets": {"mu": np.array([])},
    }


@contract("C18", funcs=[AD], cfgs=[{"case": i} for i in range(29)], samples=29)
def inconsistent(S, M, case):
    quiet_eig(S)
    d = bad_cases(S)
    name = list(d)[case]
    S.raises(S.call(M.portfolioapi.AssetsDistribution, **d[name]), Exception, "refused: " + name)


# ------------------------------------------------------------------------------------------------ weights
NW = "utils.weights.normalize_weights"


@contract("C18", funcs=[NW], dims={"n": [1, 2, 3]}, cdims={"n": [6]}, cfgs=[{"kind": k} for k in ("none", "arr", "list", "col", "ser", "ser_lab", "ser_perm", "ser_extra")], samples=80)
def normalise_weights(S, M, kind):
    n = S.dim("n")
    f = M.utils__weights.normalize_weights
    names = NAMES[:n]
    if kind == "none":
        w = S.ok(S.call(f, None, n))
        S.eq("no weights means equal weights", w, [S.lit(1) / n] * n)
        return
    q = S.vec("q", n, gen=lambda r: r.random() - .1)
    tot = S.total(q)
    if kind.startswith("ser_"):
        q = S.arr(list(q))
        order = list(range(n)) if kind == "ser_lab" else list(range(n))[::-1]
        vals, ix = [q[i] for i in order], [names[i] for i in order]
        if kind == "ser_extra":
            vals, ix = [S.real("extra")] + vals, ["Z"] + ix
        arg, kw = S.pd.Series(S.arr(vals), index=ix), {"sample_names": names}
    elif kind == "ser":
        arg, kw = S.pd.Series(q.copy(), index=names), {}
    else:
        arg, kw = {"arr": q.copy(), "list": list(q), "col": q.copy().reshape(-1, 1)}[kind], {}
    out = S.call(f, arg, n, **kw)
    if S.cond(S.any([tot <= 0] + [x < 0 for x in q])):
        S.raises(out, Exception, "negative weights and weights without a positive sum are refused")
        return
    w = S.ok(out)
    S.eq("each sample has its own weight over the sum", w, [x / tot for x in q], tol=1e-9, scale=None)
    S.eq("weights sum to one", S.total(w), S.lit(1))
    w2 = S.ok(S.call(f, S.arr(list(w)), n))
    S.eq("normalising twice changes nothing", w2, w)


@contract("C18", funcs=[NW], dims={"n": [2]}, cfgs=[{"case": c} for c in ("none0", "short", "long", "nan", "inf", "missing", "missing_nan", "neg", "one_neg", "empty")], samples=10)
def bad_weights(S, M, case):
    f = M.utils__weights.normalize_weights
    Se = S.pd.Series
    a = {"none0": (None, 0), "short": ([1.0], 2), "long": ([1., 2., 3.], 2), "nan": ([1., float("nan")], 2), "inf": ([1., float("inf")], 2),
         "missing": (Se([1., 2.], index=["A", "C"]), 2, ["A", "B"]), "missing_nan": (Se([1., float("nan")], index=["A", "B"]), 2, ["A", "B"]),
         "neg": ([-1., .5], 2), "one_neg": ([3., -.5], 2), "empty": ([], 2)}[case]
    S.raises(S.call(f, *a), Exception, "refused")


@contract("C18", funcs=["utils.weights.ensure_samples_matrix", "utils.weights.wrap_exposure_vector"], dims={"n": [1, 2, 3], "m": [1, 2]}, cdims={"n": [5], "m": [4]},
          cfgs=[{"kind": k} for k in ("df", "arr", "ser", "ser_nameless", "ser_zero", "vec", "list")], samples=60)
def samples_matrix(S, M, kind):
    n, m = S.dim("n"), S.dim("m")
    f = M.utils__weights.ensure_samples_matrix
    X = S.mat("X", n, m)
    rows, cols = NAMES[:n], [f"p{j}" for j in range(m)]
    if kind == "df":
        arg, want, an, sn = S.pd.DataFrame(X.copy(), index=rows, columns=cols), X, rows, cols
    elif kind == "arr":
        arg, want, an, sn = X.copy(), X, None, None
    elif kind == "list":
        arg, want, an, sn = [list(r) for r in X], X, None, None
    elif kind == "vec":
        arg, want, an, sn = X[:, 0].copy(), X[:, :1], None, None
    else:
        arg = S.pd.Series(X[:, 0].copy(), index=rows, name={"ser": "mine", "ser_zero": 0}.get(kind))
        want, an, sn = X[:, :1], rows, [{"ser": "mine", "ser_zero": 0}.get(kind, "portfolio_0")]
    a, names, samples = S.ok(S.call(f, arg))
    S.eq("entries keep their asset and sample", a, want)
    S.true("asset names", names == an)
    S.true("sample names", samples == sn)
    v = S.ok(S.call(M.utils__weights.wrap_exposure_vector, a[:, 0], names, label="x"))
    S.eq("wrapping keeps the values", S.np.asarray(v, dtype=float), want[:, 0])
    if an is not None:
        S.true("wrapping attaches the names in order", list(v.index) == an and v.name == "x")
    b, names2, _ = S.ok(S.call(f, v))
    S.eq("coercion is idempotent", b, want[:, :1])
    S.true("coercion keeps names", names2 == an)


@contract("C18", funcs=["utils.weights.ensure_samples_matrix"], cfgs=[{"case": c} for c in ("3d", "empty", "0d3")], samples=6)
def bad_samples(S, M, case):
    f = M.utils__weights.ensure_samples_matrix
    a = {"3d": np.zeros((2, 2, 2)), "empty": np.zeros((3, 0)), "0d3": S.pd.DataFrame(np.zeros((2, 0)), index=["A", "B"])}[case]
    S.raises(S.call(f, a), Exception, "refused")


# ------------------------------------------------------------------------------------------------ covariance repair
VA = "utils.validation."


@contract("C18", funcs=[VA + "is_psd", VA + "ensure_psd_matrix"], dims={"n": [1, 2]}, cdims={"n": [2, 3, 5]}, samples=200,
          cfgs=[{"kind": k} for k in ("sym", "asym", "valid")], tol=1e-9)
def psd_repair(S, M, kind):
    n = S.dim("n")
    f, isp = M.utils__validation.ensure_psd_matrix, M.utils__validation.is_psd
    if kind == "valid":
        A = S.spd("A", n)
    else:
        A = S.mat("A", n, n, sym=kind == "sym")
        if not S.symbolic and S.rng.random() < .4:           # nearly singular / slightly indefinite
            k = S.rng.normal(size=(n, max(1, n - 1)))
            A = k @ k.T + (S.rng.normal(size=(n, n)) * 10.0 ** -S.rng.integers(4, 12) if kind == "asym" else -10.0 ** -S.rng.integers(4, 12) * np.eye(n))
            A = A if kind == "asym" else (A + A.T) / 2
    keep = A.copy()
    B = S.ok(S.call(f, A))
    S.eq("the argument is left alone", A, keep, tol=1e-15)
    B = S.arr(B)
    S.eq("result is symmetric", B, B.T, tol=1e-15)
    sym = (keep + keep.T) / 2
    j = S.const("0.00000001")
    lam = S.np.linalg.eigvalsh(B)
    S.true("result is positive semidefinite within the tolerance", lam[0] >= -j * (1 if S.symbolic else 1.0 + 1e-6 + 1e-6 * float(np.abs(B).max()) / 1e-8 * 1e-8))
    if kind == "valid":
        S.eq("a valid covariance is unchanged", B, keep, tol=1e-15)
    else:
        mn = S.np.linalg.eigvalsh(sym)[0]
        if S.cond(mn >= -j):
            S.eq("a valid covariance is unchanged", B, sym, tol=1e-15)
        else:
            S.eq("repair shifts the diagonal by the missing amount plus the jitter", B, sym + (j - mn) * np.eye(n), tol=1e-9)
    C = S.ok(S.call(f, B.copy()))
    S.eq("repair is idempotent", C, B, tol=1e-15 if S.symbolic else 2e-8)


@contract("C18", funcs=[VA + "is_psd"], dims={"n": [1, 2]}, cdims={"n": [3, 4]}, samples=120, cfgs=[{"kind": k} for k in ("sym", "asym")])
def psd_test(S, M, kind):
    n = S.dim("n")
    A = S.mat("A", n, n, sym=kind == "sym")
    t = S.const("0.00000001")
    r = S.ok(S.call(M.utils__validation.is_psd, A))
    lam = S.np.linalg.eigvalsh(A)
    if not S.symbolic and abs(lam[0] + 1e-8) < 1e-7:
        raise Reject
    near = S.all([S.absval(A[i, k] - A[k, i]) <= t + S.const("0.00001") * S.absval(A[k, i]) for i in range(n) for k in range(n)])
    S.true("psd iff symmetric and no eigenvalue below the tolerance", S.cond(S.all([near, lam[0] >= -t])) == S.cond(r))


@contract("C18", funcs=[VA + "is_psd", VA + "ensure_psd_matrix"], cfgs=[{"f": f, "case": c} for f in ("is_psd", "ensure_psd_matrix") for c in range(3)], samples=6)
def bad_psd(S, M, f, case):
    S.raises(S.call(getattr(M.utils__validation, f), [np.zeros((2, 3)), np.zeros(4), np.zeros((2, 2, 2))][case]), Exception, "refused")


@contract("C18", funcs=[VA + "check_weights_sum_to_one", VA + "check_non_negativity"], dims={"n": [1, 2, 3]}, samples=80)
def weight_checks(S, M):
    n = S.dim("n")
    w = S.vec("w", n, gen=lambda r: float(r.choice([.5, 1 / 3, .25, 0., -1e-8, 1.0])))
    tot = S.total(w)
    a = S.ok(S.call(M.utils__validation.check_weights_sum_to_one, w))
    b = S.ok(S.call(M.utils__validation.check_non_negativity, w))
    # np.isclose adds its relative tolerance 1e-5 to the absolute one
    S.true("sum-to-one test", S.cond(S.absval(tot - 1) <= S.const("0.000001") + S.const("0.00001")) == S.cond(a))
    S.true("non-negativity test", S.cond(S.all([x >= -S.const("0.000000001") for x in w])) == S.cond(b))


# ------------------------------------------------------------------------------------------------ factories
PW = "portfolioapi.PortfolioWrapper."


@contract("C18", funcs=[PW + "from_moments", PW + "from_scenarios"], dims={"n": [2], "T": [2]}, cdims={"n": [3], "T": [6]}, samples=80,
          cfgs=[{"f": f, "lab": l, "log": g} for f in ("moments", "scenarios") for l in (0, 1) for g in (0, 1)])
def factories(S, M, f, lab, log):
    n = S.dim("n")
    P = M.portfolioapi.PortfolioWrapper
    names = NAMES[:n] if lab else None
    kw = {"return_type": "log"} if log else {}
    if f == "moments":
        mu, cov = S.vec("mu", n, gen=lambda r: .1 * r.normal()), S.spd("cov", n)
        # positive definite, hence accepted unchanged by ensure_psd_matrix (its own contract)
        if S.symbolic:
            quiet_eig(S)
        a, b = (S.pd.Series(mu.copy(), index=names), S.pd.DataFrame(cov.copy(), index=names, columns=names)) if lab else (mu.copy(), cov.copy())
        d = S.ok(S.call(P.from_moments, a, b, **kw)).dist
        if log:
            e = [S.exp(mu[i] + cov[i, i] / 2) for i in range(n)]
            mu2 = [x - 1 for x in e]
            cov2 = [[e[i] * e[j] * (S.exp(cov[i, j]) - 1) for j in range(n)] for i in range(n)]
        else:
            mu2, cov2 = mu, cov
        S.eq("means", d.mu, S.arr(list(mu2)), tol=1e-9)
        S.eq("covariance", d.cov, S.arr([list(r) for r in cov2]), tol=1e-9)
    else:
        T = S.dim("T")
        quiet_eig(S)
        R = S.mat("R", T, n, gen=lambda r: .1 * r.normal())
        p = S.prob("p", T)
        d = S.ok(S.call(P.from_scenarios, S.pd.DataFrame(R.copy(), columns=names) if lab else R.copy(), probabilities=p.copy(), **kw)).dist
        S.eq("scenarios", d.scenarios, S.arr([[S.exp(x) - 1 for x in r] for r in R]) if log else R, tol=1e-12)
        S.eq("probabilities", d.probabilities, p, tol=1e-12)
    S.true("asset names", d.asset_names == names)


@contract("C18", funcs=[PW + "from_prices"], dims={"T": [2, 3], "n": [1, 2]}, cdims={"T": [6], "n": [3]}, samples=80, cfgs=[{"lab": 0}, {"lab": 1}])
def from_prices(S, M, lab):
    T, n = S.dim("T"), S.dim("n")
    quiet_eig(S)
    X = S.mat("X", T, n, lo_strict=0, gen=lambda r: float(np.exp(r.normal())))
    names = NAMES[:n] if lab else None
    d = S.ok(S.call(M.portfolioapi.PortfolioWrapper.from_prices, S.pd.DataFrame(X.copy(), columns=names) if lab else X.copy())).dist
    S.eq("scenarios are the simple returns in time order", d.scenarios, S.arr([[X[t + 1, i] / X[t, i] - 1 for i in range(n)] for t in range(T - 1)]), tol=1e-10)
    S.eq("scenarios are equally likely", d.probabilities, [S.lit(1) / (T - 1)] * (T - 1))
    S.true("asset names", d.asset_names == names)


@contract("C18", funcs=[PW + "from_prices"], modes="C", cfgs=[{"case": c, "df": d} for c in ("nan", "zero", "neg", "one", "inf", "flat") for d in (0, 1)], samples=12)
def bad_prices(S, M, case, df):
    X = np.array([[1., 2.], [1.1, 2.1], [1.2, 2.2]])
    if case == "flat":
        X, df = X[:, 0], 0
    elif case == "one":
        X = X[:1]
    else:
        X[1, 0] = {"nan": np.nan, "zero": 0.0, "neg": -1.0, "inf": np.inf}[case]
    S.raises(S.call(M.portfolioapi.PortfolioWrapper.from_prices, pd.DataFrame(X, columns=["A", "B"]) if df else X), Exception, "refused")


@contract("C18", funcs=[PW + "from_invariants"], modes="C", dims={"n": [3]}, cdims={"n": [3]}, samples=60, cfgs=[{"lab": l, "rep": r} for l, r in [(0, ""), (1, ""), (1, "call"), (1, "dict"), (1, "dictperm"), (1, "multi")]])
def from_invariants(S, M, lab, rep):
    """Every simulated P&L row is the repricing of a sum of whole historical rows; columns keep their own repricer."""
    n = S.dim("n")
    T, h = 3, int(S.rng.integers(1, 3))
    X = S.mat("X", T, n, gen=lambda r: .1 * r.normal())
    names = NAMES[:n]
    kw, g = {}, [lambda x: np.exp(x) - 1] * n
    if rep == "call":
        kw["reprice"] = lambda x: 2 * x
        g = [lambda x: 2 * x] * n
    elif rep.startswith("dict"):
        fs = {c: (lambda x, k=k: (k + 1) * x + k) for k, c in enumerate(names)}
        kw["reprice"] = dict(reversed(list(fs.items()))) if rep == "dictperm" else fs
        g = [fs[c] for c in names]
    elif rep == "multi":                  # instruments that read one renamed driver, or two drivers
        kw["reprice"] = {"i0": ([names[2], names[0]], lambda x: x[:, 0] - 3 * x[:, 1]), "i1": (names[1], lambda x: 2 * x), "i2": ([names[2]], lambda x: x + 1)}
    rows, pk = range(T), int(S.rng.integers(3))
    if pk:                                # a row with probability zero is never drawn
        w = [.3, 0., .7] if pk == 1 else [0., 1., 0.]
        kw["p"] = pd.Series(w) if lab and pk == 1 else np.array(w)
        rows = [t for t in rows if w[t]]
    sd, con = int(S.rng.integers(99)), [{}, {"long_only": False, "total_weight": None}, {"total_weight": .5, "bounds": (0, .4)}][int(S.rng.integers(3))]
    make = lambda: M.portfolioapi.PortfolioWrapper.from_invariants(pd.DataFrame(X, columns=names) if lab else X, horizon=h, n_simulations=40, seed=sd, **kw, **con)
    w1, w2 = make(), make()
    d = w1.dist
    S.true("a seed fixes the scenarios", np.array_equal(np.asarray(d.scenarios), np.asarray(w2.dist.scenarios)))
    ref = M.portfolioapi.PortfolioWrapper.from_scenarios(d.scenarios, **con)
    for a, b in zip((w1.G, w1.h, w1.A, w1.b), (ref.G, ref.h, ref.A, ref.b)):
        S.true("the declared constraints are kept", (a is None) == (b is None) and (a is None or np.array_equal(np.asarray(a), np.asarray(b))))
    sums = [sum(X[t] for t in ts) for ts in itertools.combinations_with_replacement(rows, h)]
    if rep == "multi":
        S.true("asset names", list(d.asset_names) == ["i0", "i1", "i2"])
        g = {"i0": lambda s: s[2] - 3 * s[0], "i1": lambda s: 2 * s[1], "i2": lambda s: s[2] + 1}
        ref = [np.array([g[o](s) for o in d.asset_names]) for s in sums]
        S.true("number of scenarios", d.scenarios.shape == (40, 3))
        for row in np.asarray(d.scenarios):
            S.true("each scenario reprices a sum of whole historical rows", any(np.allclose(row, q, atol=1e-9) for q in ref))
        return
    S.true("number of scenarios", d.scenarios.shape == (40, n))
    order = d.asset_names if lab else list(range(n))
    S.true("asset names", sorted(order) == sorted(names) if lab else d.asset_names is None)
    ref = [np.array([float(np.asarray(g[names.index(o) if lab else o](s[names.index(o) if lab else o]))) for o in order]) for s in sums]
    for row in d.scenarios:
        S.true("each scenario reprices a sum of whole historical rows", any(np.allclose(row, q, atol=1e-9) for q in ref))
    S.eq("scenarios are equally likely", d.probabilities, np.full(40, 1 / 40), tol=1e-12)


# ------------------------------------------------------------------------------------------------ tables
DH = "utils.data_helpers."


@contract("C18", funcs=[DH + "numpy_weights_to_pandas_series"], dims={"n": [1, 2, 3]}, samples=20)
def weights_to_series(S, M):
    n = S.dim("n")
    w = S.vec("w", n)
    s = S.ok(S.call(M.utils__data_helpers.numpy_weights_to_pandas_series, w, NAMES[:n]))
    S.eq("values", s.to_numpy(), w)
    S.true("names", list(s.index) == NAMES[:n])
    for bad in (NAMES[:n + 1], tuple(NAMES[:n]), list(range(n))):
        S.raises(S.call(M.utils__data_helpers.numpy_weights_to_pandas_series, w, bad), Exception, "wrong names are refused")
    S.raises(S.call(M.utils__data_helpers.numpy_weights_to_pandas_series, w.reshape(1, -1), NAMES[:n]), Exception, "a matrix is refused")


@contract("C18", funcs=[DH + "pandas_to_numpy_returns"], modes="C", dims={"T": [2, 4], "n": [1, 2]}, cdims={"T": [7], "n": [3]}, samples=200,
          cfgs=[{"how": h, "cols": c, "fill": f, "date": d} for h in ("log", "simple") for c in (0, 1) for f in ("", "ffill", "bfill", "zero", "drop") for d in (0, 1)])
def return_table(S, M, how, cols, fill, date):
    """Returns of each column in the requested order; only missing returns are filled, from the same column."""
    T, n = S.dim("T"), S.dim("n")
    X = S.mat("X", T, n, lo_strict=0, gen=lambda r: float(np.exp(.2 * r.normal())))
    names = NAMES[:n]
    if fill:
        for _ in range(int(S.rng.integers(0, 3))):
            X[S.rng.integers(T), S.rng.integers(n)] = np.nan
    df = pd.DataFrame(X, columns=names)
    df.insert(0, "txt", ["x"] * T)
    ts = pd.date_range("2020-01-01", periods=T)
    if date:
        df.insert(0, "when", [str(t) for t in ts])
    keep = df.copy()
    sel = names[::-1] if cols else names
    kw = dict(return_calculation_method=how)
    if fill:
        kw["fill_na_method"] = fill
    if cols:
        kw["price_columns"] = list(sel)
    if date:
        kw["date_column"] = "when"
    r = S.ok(S.call(M.utils__data_helpers.pandas_to_numpy_returns, df, **kw))
    S.true("the table is left alone", df.equals(keep))
    Y = keep[sel].to_numpy(dtype=float)
    q = Y[1:] / Y[:-1]
    q = np.log(q) if how == "log" else q - 1
    q = pd.DataFrame(q)
    q = {"": q.ffill, "ffill": q.ffill, "bfill": q.bfill, "zero": lambda: q.fillna(0), "drop": q.dropna}[fill]().fillna(0).to_numpy()
    S.eq("returns per column, in the requested order", r, q, tol=1e-10)


@contract("C18", funcs=[DH + "pandas_to_numpy_returns"], modes="C", cfgs=[{"case": c} for c in range(6)], samples=6)
def bad_table(S, M, case):
    df = pd.DataFrame({"A": [1., 2.], "B": [1., 3.]})
    a = [((df.to_numpy(),), {}), ((df,), {"price_columns": ["A", "Z"]}), ((df,), {"date_column": "when"}), ((df,), {"return_calculation_method": "geo"}),
         ((df,), {"fill_na_method": "magic"}), ((pd.DataFrame({"t": ["x", "y"]}),), {})][case]
    S.raises(S.call(M.utils__data_helpers.pandas_to_numpy_returns, *a[0], **a[1]), Exception, "refused")
