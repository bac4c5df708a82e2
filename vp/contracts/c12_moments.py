"""C12 moment estimators return symmetric, labelled, correctly weighted estimates."""
import numpy as np
from ..spec import contract, Reject
from ._opt import dot

NAMES = ["B", "A", "C", "D", "E"]
MM = "moments."


def ret(r):
    """gen of returns: whole numbers, percents and tiny values"""
    return float(r.normal() * r.choice([1., .02]))


def returns(S, T, n):
    """any T x n table; symbolically as means plus deviations that sum to zero (every table has exactly one such form)"""
    if not S.symbolic:
        return S.mat("R", T, n, gen=ret)
    m, x = S.vec("m", n), S.mat("x", T - 1, n) if T > 1 else []
    last = [-sum((x[t][i] for t in range(T - 1)), 0 * m[i]) for i in range(n)]
    return S.arr([[m[i] + (x[t][i] if t < T - 1 else last[i]) for i in range(n)] for t in range(T)])


def wrap(S, x, names):
    x = x.copy()
    return x if names is None else S.pd.Series(x, index=names) if len(x.shape) == 1 else S.pd.DataFrame(x, columns=names)


def wrap_sq(S, x, names):
    return x.copy() if names is None else S.pd.DataFrame(x.copy(), index=names, columns=names)


def out(S, name, x, want, names, tol=None):
    """values, and labels if and only if the assets were labelled"""
    if names is None:
        S.true(name + ": plain array", not hasattr(x, "index"))
    else:
        S.true(name + ": asset names", hasattr(x, "index") and list(x.index) == names and (len(x.shape) == 1 or list(x.columns) == names))
        x = x.to_numpy()
    S.eq(name, x, S.arr(want), tol=tol)
    return x


def central(S, R, p, T, n):
    m = [sum((p[t] * R[t, i] for t in range(T)), 0 * p[0]) for i in range(n)]
    c = [[sum((p[t] * (R[t, i] - m[i]) * (R[t, j] - m[j]) for t in range(T)), 0 * p[0]) for j in range(n)] for i in range(n)]
    return m, c


class PSD:
    """ensure_psd_matrix by its contract (proved under C18): symmetric positive semidefinite, a valid matrix unchanged.
    The matrices handed to it here are assumed valid; whatever is handed over is compared with the stated combination."""

    def __init__(self, S, M):
        S.stub(M, getattr(M.moments, "ensure_psd_matrix", None), lambda m, *a, **k: (m + m.T) / 2)


def symmetric(S, name, x, n):
    for i in range(n):
        for j in range(i):
            S.eq(name + " is symmetric", x[i, j], x[j, i], tol=0 if not S.symbolic else None)


def psd(S, name, x):
    if not S.symbolic:
        x = np.asarray(x, float)
        S.true(name + " is positive semidefinite", np.linalg.eigvalsh(x).min() >= -2e-8 - 1e-9 * np.abs(x).max())


@contract("C12", funcs=[MM + "estimate_sample_moments", MM + "_labels", MM + "_wrap", "utils.validation.check_weights_sum_to_one", "utils.validation.check_non_negativity"],
          dims={"T": [1, 2, 3, 4], "n": [1, 2, 3]}, cdims={"T": [30], "n": [4]}, samples=200, cfgs=[{"lab": l, "pk": k} for l in (0, 1) for k in ("array", "series", "dates", "column")])
def sample_moments(S, M, lab, pk):
    T, n = S.dim("T"), S.dim("n")
    R, p = S.mat("R", T, n, gen=ret), S.prob("p", T, strict=False)
    names = NAMES[:n] if lab else None
    pp = {"array": lambda: p.copy(), "series": lambda: S.pd.Series(p.copy()), "dates": lambda: S.pd.Series(p.copy(), index=[f"d{t}" for t in range(T)]), "column": lambda: p.copy().reshape(-1, 1)}[pk]()
    r = wrap(S, R, names)
    a, b = S.ok(S.call(M.moments.estimate_sample_moments, r, pp))
    m, c = central(S, R, p, T, n)
    out(S, "mean is the probability-weighted mean", a, m, names, tol=1e-10)
    x = out(S, "covariance is the matching central second moment", b, c, names, tol=1e-10)
    symmetric(S, "covariance", x, n)
    psd(S, "covariance", x)
    S.eq("returns left alone", r.to_numpy() if lab else r, R)


@contract("C12", funcs=[MM + "estimate_sample_moments"], dims={"T": [1, 2, 3], "n": [1]}, samples=150, cfgs=[{"d": d} for d in (-1, 0, 1)])
def sample_moments_refuses(S, M, d):
    T, n = S.dim("T"), S.dim("n")
    if T + d < 1:
        raise Reject
    R, p = S.mat("R", T, n), S.vec("p", T + d, gen=lambda r: float(r.choice([.5, 1 / max(T, 1), -.25, 0., 1., float("nan")])))
    o = S.call(M.moments.estimate_sample_moments, R.copy(), p.copy())
    if d:
        S.raises(o, ValueError, "length mismatch refused")
        return
    tot = S.total(p)
    e = S.const("0.0001")
    if S.cond(S.any([x < -e for x in p] + [tot > 1 + e, tot < 1 - e])) or (not S.symbolic and np.isnan(p).any()):
        S.raises(o, ValueError, "negative or unnormalised probabilities refused")
    else:
        S.assume(S.all([x >= 0 for x in p] + [S.close(tot, S.lit(1), 1e-9)]))
        S.ok(o)


@contract("C12", funcs=[MM + "shrink_mean_jorion"], dims={"n": [3]}, cdims={"n": [3, 4, 5]}, samples=150, cfgs=[{"lab": l} for l in ("00", "11", "10", "01")])
def jorion(S, M, lab):
    n = S.dim("n")
    mu, sg = S.vec("mu", n, gen=ret), S.spd("sg", n)
    T = S.real("T", lo=0, lo_strict=True, gen=lambda r: float(r.choice([1, 5, 60])))
    names = NAMES[:n] if "1" in lab else None
    V = None
    if S.symbolic:
        # any symmetric matrix with positive total c is c times one with total 1
        U, c = S.mat("U", n, n, sym=True), S.real("c", lo=0, lo_strict=True)
        rest = sum(U[i, j] for i in range(n) for j in range(n) if (i, j) != (n - 1, n - 1))
        U = [[1 - rest if i == j == n - 1 else U[i, j] for j in range(n)] for i in range(n)]
        g = sum(dot(U[i], mu) for i in range(n))
        V = S.arr([[c * x for x in r] for r in U])
    V = inverse(S, n, sg + S.const("0.00000001") * np.eye(n), V=V)
    one = [sum(V[i]) for i in range(n)]
    if not S.symbolic:
        g = dot(one, mu) / sum(one)
    d = [x - g for x in mu]
    q = dot(d, [dot(V[i], d) for i in range(n)])
    S.assume(q >= 0)                                  # the inverse of a positive definite matrix is positive definite
    S.assume(T * q >= 0)
    v = (n + 2) / ((n + 2) + T * q)
    v = clip01(S, v)
    a = S.ok(S.call(M.moments.shrink_mean_jorion, wrap(S, mu, names if lab[0] == "1" else None), wrap_sq(S, sg, names if lab[1] == "1" else None), T))
    out(S, "mean is shrunk to the minimum-variance mean by (N+2)/(N+2+T d'S^-1 d)", a, [mu[i] - v * d[i] for i in range(n)], names, tol=1e-7)


def inverse(S, n, want, fn=("linalg.inv", "linalg.pinv"), V=None):
    """assumed contract of inv/pinv: the (symmetric) inverse of the matrix handed over, which is compared with `want`"""
    if not S.symbolic:
        return np.linalg.inv(np.asarray(want, float))
    V = S.mat("V", n, n, sym=True) if V is None else V

    def inv(m, *a, **k):
        S.eq("the stated matrix is inverted", S.arr(m), S.arr(want))
        return V.copy()
    for f in fn:
        S.hook(f, inv)
    return V


@contract("C12", funcs=[MM + "shrink_mean_james_stein", MM + "_align_target"], dims={"n": [1, 2, 3]}, cdims={"n": [1, 2, 3, 5]}, samples=300,
          cfgs=[{"lab": l, "target": t} for l in ("00", "11", "10", "01") for t in ("grand", "array", "series", "permuted", "default")],
          skip=lambda d, c: c["target"] == "default" and c["lab"] == "00" or d["n"] == 3 and c["target"] != "grand" and (c["lab"], c["target"]) not in (("00", "array"), ("11", "permuted")))
def james_stein(S, M, lab, target):
    n = S.dim("n")
    mu, sg = S.vec("mu", n, gen=ret), S.spd("sg", n)
    T = S.real("T", lo=0, lo_strict=True, gen=lambda r: float(r.choice([1, 5, 60])))
    if S.symbolic and n == 3 and target != "grand":
        T = S.lit(5)              # (three assets towards a supplied target: sample size fixed; every T in the other layouts)
    names = NAMES[:n] if "1" in lab else None
    if target in ("series", "permuted") and names is None:
        raise Reject
    PSD(S, M)
    V = inverse(S, n, sg)
    tg = S.vec("tg", n, gen=ret)
    rev = list(range(n))[::-1]
    kw = {"grand": {}, "array": {"target": tg.copy()}, "series": {"target": S.pd.Series(tg.copy(), index=names)}, "default": {"target": S.pd.Series(tg.copy())},
          "permuted": {"target": S.pd.Series(S.arr([tg[i] for i in rev]), index=[names[i] for i in rev]) if names else None}}[target]
    m = [sum(mu) / n] * n if target == "grand" else list(tg)
    d = [mu[i] - m[i] for i in range(n)]
    q = T * dot(d, [dot(V[i], d) for i in range(n)])
    S.assume(q >= 0)
    if not S.symbolic and 0 < q < 1e-9:
        raise Reject
    a = S.ok(S.call(M.moments.shrink_mean_james_stein, wrap(S, mu, names if lab[0] == "1" else None), wrap_sq(S, sg, names if lab[1] == "1" else None), T, **kw))
    if S.cond(q <= 0):
        c = S.lit(0)
    else:
        c = 1 - S.lit(n - 2) / q
        c = S.lit(0) if S.cond(c < 0) else S.lit(1) if S.cond(c > 1) else c
    out(S, "mean is target + (1 - (N-2)/(T d'S^-1 d)) d with the factor kept in [0, 1]", a, [m[i] + c * d[i] for i in range(n)], names, tol=1e-6)


def clip01(S, x):
    if not S.symbolic:
        return float(np.clip(x, 0, 1))
    return S.lit(0) if S.cond(x < 0) else S.lit(1) if S.cond(x > 1) else x


@contract("C12", funcs=[MM + "shrink_covariance_ledoit_wolf"], dims={"T": [1, 2], "n": [1, 2, 3]}, quick_dims={"T": [2], "n": [1, 2]}, cdims={"T": [5, 20], "n": [1, 2, 4]}, samples=200,
          cfgs=[{"lab": l, "target": t} for l in ("00", "11", "10", "01") for t in ("identity", "constant_correlation")], skip=lambda d, c: d.get("n") == 3 and c["lab"] != "11")
def ledoit_wolf(S, M, lab, target):
    T, n = S.dim("T"), S.dim("n")
    R = returns(S, T, n)
    if S.symbolic:
        # every covariance matrix is D C D with standard deviations and correlations
        sd = S.vec("sd", n, lo=0, lo_strict=True)
        co = S.mat("co", n, n, sym=True, lo=-1, hi=1)
        sg = S.arr([[sd[i] * sd[i] if i == j else co[i, j] * sd[i] * sd[j] for j in range(n)] for i in range(n)])
    else:
        sg = S.spd("sg", n) if S.rng.random() < .5 else np.atleast_2d(np.cov(R.T, bias=True)) + 1e-6 * np.eye(n)
        if not np.all(np.isfinite(sg)) or np.linalg.eigvalsh(sg).min() < 1e-9:
            raise Reject
    names = NAMES[:n] if "1" in lab else None
    PSD(S, M)
    a = S.ok(S.call(M.moments.shrink_covariance_ledoit_wolf, wrap(S, R, names if lab[0] == "1" else None), wrap_sq(S, sg, names if lab[1] == "1" else None), target=target))
    m = [sum(R[:, i]) / T for i in range(n)]
    X = [[R[t, i] - m[i] for i in range(n)] for t in range(T)]
    pi = [[sum((X[t][i] * X[t][j] - sg[i, j]) * (X[t][i] * X[t][j] - sg[i, j]) for t in range(T)) / T for j in range(n)] for i in range(n)]
    pih = sum(sum(r) for r in pi) / (n * n)
    dpi = sum(pi[i][i] for i in range(n))
    if target == "identity":
        tr = sum(sg[i, i] for i in range(n)) / n
        F = [[tr if i == j else 0 * tr for j in range(n)] for i in range(n)]
        rho = dpi
    else:
        s = sd if S.symbolic else np.sqrt(np.diag(sg))
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        rb = sum((sg[i, j] / (s[i] * s[j]) for i, j in pairs), 0 * sg[0, 0]) / max(len(pairs), 1)
        F = [[sg[i, i] if i == j else rb * s[i] * s[j] for j in range(n)] for i in range(n)]
        rho = dpi + sum((F[i][j] for i, j in pairs), 0 * sg[0, 0]) / max(len(pairs), 1) * (pih - dpi)
    gam = sum((sg[i, j] - F[i][j]) * (sg[i, j] - F[i][j]) for i in range(n) for j in range(n))
    if S.cond(gam <= 0 if S.symbolic else gam < 1e-12):
        want = [[sg[i, j] for j in range(n)] for i in range(n)]      # the sample covariance is its own target
    else:
        k = (pih - rho) / gam
        dl = clip01(S, k if target == "identity" else k / T)
        S.true("intensity in [0, 1]", S.all([dl >= 0, dl <= 1]))
        want = [[dl * F[i][j] + (1 - dl) * sg[i, j] for j in range(n)] for i in range(n)]
        if not S.symbolic and np.linalg.eigvalsh(np.array(want, float)).min() < 0:
            raise Reject
    x = out(S, "covariance is the convex combination of target and sample with the stated intensity", a, want, names, tol=1e-6)
    symmetric(S, "covariance", x, n)
    psd(S, "covariance", x)


@contract("C12", funcs=[MM + "shrink_covariance_oas"], dims={"T": [1, 2], "n": [1, 2]}, cdims={"T": [1, 5, 20], "n": [1, 2, 5]}, samples=200, cfgs=[{"lab": l, "cent": c} for l in (0, 1) for c in (0, 1)],
          skip=lambda d, c: d["T"] * d["n"] == 4 and c["cent"])
def oas(S, M, lab, cent):
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=ret) if cent else returns(S, T, n)
    names = NAMES[:n] if lab else None
    PSD(S, M)
    a = S.ok(S.call(M.moments.shrink_covariance_oas, wrap(S, R, names), **({} if cent else {"assume_centered": False})))
    m = [0 * R[0, 0] if cent else sum(R[:, i]) / T for i in range(n)]
    C = [[sum((R[t, i] - m[i]) * (R[t, j] - m[j]) for t in range(T)) / T for j in range(n)] for i in range(n)]
    tr = sum(C[i][i] for i in range(n))
    t2 = sum(C[i][j] * C[i][j] for i in range(n) for j in range(n))
    if n == 1:
        want = C
    else:
        den = (T + 1 - S.lit(2) / n) * (t2 - tr * tr / n)
        num = (1 - S.lit(2) / n) * t2 + tr * tr
        if not S.symbolic:
            rho = 1. if den <= 1e-14 * t2 else min(num / den, 1.)
        else:
            rho = S.lit(1) if S.cond(den <= 0) else (S.lit(1) if S.cond(num > den) else num / den)
        S.true("intensity in [0, 1]", S.all([rho >= 0, rho <= 1]))
        want = [[(1 - rho) * C[i][j] + (rho * tr / n if i == j else 0) for j in range(n)] for i in range(n)]
    x = out(S, "covariance is the convex combination of sample and scaled identity with the OAS intensity", a, want, names, tol=1e-6)
    symmetric(S, "covariance", x, n)
    psd(S, "covariance", x)


@contract("C12", funcs=[MM + "covariance_ewma"], dims={"T": [1, 2, 3, 4], "n": [1, 2]}, cdims={"T": [5, 30], "n": [1, 3]}, samples=150, cfgs=[{"lab": l} for l in (0, 1)])
def ewma(S, M, lab):
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=ret)
    span = S.real("span", lo=1, gen=lambda r: float(r.choice([1, 2, 5, 252])))
    names = NAMES[:n] if lab else None
    a = S.ok(S.call(M.moments.covariance_ewma, wrap(S, R, names), span=span))
    lam = 1 - S.lit(2) / (span + 1)
    c = [[R[0, i] * R[0, j] for j in range(n)] for i in range(n)]
    for t in range(1, T):
        c = [[lam * c[i][j] + (1 - lam) * R[t, i] * R[t, j] for j in range(n)] for i in range(n)]
    x = out(S, "covariance satisfies the recursion", a, c, names, tol=1e-9)
    symmetric(S, "covariance", x, n)
    psd(S, "covariance", x)
    if T > 1:
        b = S.ok(S.call(M.moments.covariance_ewma, R[:T - 1].copy(), span=span))
        S.eq("one more observation is one recursion step", x, S.arr([[lam * b[i, j] + (1 - lam) * R[T - 1, i] * R[T - 1, j] for j in range(n)] for i in range(n)]), tol=1e-9)
    S.raises(S.call(M.moments.covariance_ewma, R.copy(), span=span, min_periods=T + 1), ValueError, "too few observations refused")
    for k in sorted({min(2, T), T}):
        g = S.ok(S.call(M.moments.covariance_ewma, R.copy(), span=span, min_periods=k))
        S.eq("the required number of observations does not enter the estimate", np.asarray(g), S.np.asarray(a), tol=1e-9)


@contract("C12", funcs=[MM + "factor_covariance_poet"], dims={"T": [3], "n": [1, 2]}, cdims={"T": [6, 30], "n": [1, 2, 3, 5]}, samples=240,
          cfgs=[{"lab": l, "k": k, "th": h, "std": s, "dec": d} for l, k, h, s, d in ((0, "auto", "auto", 1, 0), (1, 1, 0, 1, 0), (0, 1, 1, 0, 0), (1, 1, 1, 1, 0), (1, 2, "auto", 0, 0), (0, 9, 1, 1, 0), (1, 1, "auto", 0, 0), (1, 1, 1, 1, 1), (0, 2, 0, 0, 1))],
          skip=lambda d, c: d["n"] == 2 and c["k"] == 2 and c["th"] == "auto")
def poet(S, M, lab, k, th, std, dec):
    """low rank plus soft-thresholded residual: sample variances kept, off-diagonal entries within the threshold of the sample's"""
    T, n = S.dim("T"), S.dim("n")
    if S.symbolic and k == "auto" and n > 2:
        raise Reject
    if S.symbolic and std and n > 1:
        T = 2                                         # keeps the square roots of the standardisation simple
    R = returns(S, T, n)
    names = NAMES[:n] if lab else None
    m = [sum(R[:, i]) / T for i in range(n)]
    X = [[R[t, i] - m[i] for i in range(n)] for t in range(T)]
    var = [sum(X[t][i] * X[t][i] for t in range(T)) / (T - 1) for i in range(n)]
    for i in range(n):
        S.assume(var[i] > S.const("0.000001"))
    sc = [S.sqrt(var[i]) if std else 1 + 0 * var[i] for i in range(n)]
    C = [[sum(X[t][i] * X[t][j] for t in range(T)) / (T - 1) / (sc[i] * sc[j]) for j in range(n)] for i in range(n)]
    tau = S.real("tau", lo=0, gen=lambda r: float(r.choice([0., .1, .5, 3.]))) if th == 1 else th
    PSD(S, M)
    kk = k
    if S.symbolic:
        W, V = S.vec("W", n), S.mat("U", n, n)
        S.assume(S.all([W[i] >= 0 for i in range(n)] + [W[i] <= W[i + 1] for i in range(n - 1)]))
        def eigh(a, *r, **q):
            S.eq("the (scaled) sample covariance is decomposed", S.arr(a), S.arr(C))
            return W.copy(), V.copy()
        S.hook("linalg.eigh", eigh)
    else:
        W, V = np.linalg.eigh(np.atleast_2d(np.array(C, float)))
        if n > 1 and np.diff(W).min() < 1e-6:
            raise Reject
    a = S.ok(S.call(M.moments.factor_covariance_poet, wrap(S, R, names), k=k, thresh=tau, standardize=bool(std), return_decomp=bool(dec)))
    if dec:
        a, B, F = a
    if k == "auto":
        kk = 1
        if not S.symbolic and n > 2:
            w = np.sort(W)[::-1]
            df = np.diff(w)
            kk = int(np.argmax(df[:-1] - df[1:]) + 1)
    kk = min(kk, n)
    top = list(range(n))[::-1][:kk]
    L = [[sum(W[f] * V[i][f] * V[j][f] for f in top) for j in range(n)] for i in range(n)]
    res = [[C[i][j] - L[i][j] for j in range(n)] for i in range(n)]
    off = [S.absval(res[i][j]) for i in range(n) for j in range(n) if i != j]
    if th == "auto":
        tau = S.lit(0) if not off else off[0] * S.sqrt(S.log(S.lit(max(n, 2))) / T) if n == 2 else (float(np.median(off)) * np.sqrt(np.log(max(n, 2)) / T) if not S.symbolic else None)

    def soft(x):
        if not S.symbolic:
            return np.sign(x) * max(abs(x) - tau, 0)
        if S.cond(S.absval(x) - tau <= 0):
            return 0 * x
        return x - tau if S.cond(x > 0) else x + tau
    want = [[var[i] if i == j and std else sc[i] * sc[j] * (L[i][j] + (res[i][j] if i == j else soft(res[i][j]))) for j in range(n)] for i in range(n)]
    if not S.symbolic and np.linalg.eigvalsh(np.array(want, float)).min() < 1e-9:
        raise Reject
    x = out(S, "covariance is factor part plus thresholded residual, rescaled", a, want, names, tol=1e-6)
    symmetric(S, "covariance", x, n)
    psd(S, "covariance", x)
    if dec:
        if names:
            S.true("labels of loadings and scores", list(B.index) == names and list(B.columns) == [f"factor_{i + 1}" for i in range(kk)] and list(F.columns) == list(B.columns) and list(F.index) == list(range(T)))
            B, F = B.to_numpy(), F.to_numpy()
        for i in range(n):
            for j in range(n):
                S.eq("loadings reproduce the factor part", sum(B[i, f] * B[j, f] for f in range(kk)), sc[i] * sc[j] * L[i][j], tol=1e-6)
        for t in range(T):
            for f in range(kk):
                v = sum(X[t][i] / sc[i] * V[i][top[f]] for i in range(n))
                S.eq("scores are the scaled returns on the leading eigenvectors", F[t, f] if S.symbolic else abs(F[t, f]), v if S.symbolic else abs(v), tol=1e-6)


@contract("C12", funcs=[MM + "robust_covariance_tyler", MM + "_align_target"], dims={"T": [2], "n": [1, 2]}, cdims={"T": [10, 40], "n": [1, 2, 4]}, samples=240,
          cfgs=[{"lab": l, "target": t, "sh": s, "it": i} for l, t, s, i in ((0, "identity", 0, 1), (1, "identity", 1, 1), (1, "frame", 1, 1), (1, "permuted", 1, 1), (0, "array", 1, 1), (0, "identity", 0, 200), (1, "permuted", 1, 200), (0, "array", 1, 200), (1, "identity", 1, 200))],
          skip=lambda d, c: c["it"] > 1 or d["n"] == 2)
def tyler(S, M, lab, target, sh, it):
    """fixed-point step weights, convex combination with the trace-normalised target, trace of the sample covariance"""
    T, n = S.dim("T"), S.dim("n")
    if S.symbolic and it > 1:
        raise Reject
    R = returns(S, T, n)
    names = NAMES[:n] if lab else None
    PSD(S, M)
    m = [sum(R[:, i]) / T for i in range(n)]
    X = [[R[t, i] - m[i] for i in range(n)] for t in range(T)]
    C = [[sum(X[t][i] * X[t][j] for t in range(T)) / (T - 1) for j in range(n)] for i in range(n)]
    tr = sum(C[i][i] for i in range(n))
    S.assume(tr > S.const("0.0000001"))
    s = S.real("s", lo=0, hi=1, gen=lambda r: float(r.choice([.1, .5, 1.]))) if sh else S.lit(0) if S.symbolic else 0.
    if S.symbolic:
        G = S.mat("G", n, n, sym=True)
        S.assume(S.all([G[i, i] > 0 for i in range(n)]))
    else:
        G = S.spd("G", n)
    if target == "identity":
        G = np.eye(n) if not S.symbolic else S.arr([[S.lit(1 if i == j else 0) for j in range(n)] for i in range(n)])
    rev = list(range(n))[::-1]
    kw = {"identity": {}, "array": {"target": G.copy()}, "frame": {"target": wrap_sq(S, G, names)},
          "permuted": {"target": wrap_sq(S, S.arr([[G[i, j] for j in rev] for i in rev]), [names[i] for i in rev] if names else None)}}[target]
    keep = {k: v.copy() for k, v in kw.items()}
    tg = sum(G[i, i] for i in range(n))
    if S.symbolic:
        V = inverse(S, n, [[C[i][j] / tr * n for j in range(n)] for i in range(n)])
    a = S.ok(S.call(M.moments.robust_covariance_tyler, wrap(S, R, names), shrinkage=s, max_iter=it, **kw))
    x = a.to_numpy() if names else a
    if names:
        S.true("asset names", list(a.index) == names and list(a.columns) == names)
    symmetric(S, "covariance", x, n)
    psd(S, "covariance", x)
    S.eq("trace of the sample covariance", sum(x[i, i] for i in range(n)), tr, tol=1e-6)
    for k in kw:
        S.eq("target left alone", kw[k].to_numpy() if hasattr(kw[k], "to_numpy") else kw[k], keep[k].to_numpy() if hasattr(keep[k], "to_numpy") else keep[k])

    def step(V):
        q = [dot(X[t], [dot(list(V[i]), X[t]) for i in range(n)]) for t in range(T)]
        w = []
        for y in q:
            y = S.const("0.000001") if S.cond(y < S.const("0.000001")) else y
            z = n / y
            w.append(S.const("1000000") if S.cond(z > S.const("1000000")) else z)
        U = [[sum(w[t] * X[t][i] * X[t][j] for t in range(T)) for j in range(n)] for i in range(n)]
        u = sum(U[i][i] for i in range(n))
        return [[((1 - s) * n / u * U[i][j] + s * n / tg * G[i, j]) * tr / n for j in range(n)] for i in range(n)]
    if it == 1:
        if not S.symbolic:
            V = np.linalg.pinv(np.array(C, float) / tr * n)
        w = step(V)
    else:
        w = step(np.linalg.pinv(x / tr * n))          # converged: a fixed point of the normalised update
    S.eq("robust covariance is the weighted update combined with the normalised target", x, S.arr(w), tol=1e-7 if it == 1 else 1e-3)


@contract("C12", funcs=[MM + "robust_mean_huber"], dims={"T": [1, 2, 3], "n": [1]}, quick_dims={"T": [1, 2], "n": [1]}, cdims={"T": [1, 5, 20], "n": [1, 3]}, samples=150, cfgs=[{"lab": l, "it": i} for l in (0, 1) for i in (1, 200)], skip=lambda d, c: c["it"] > 1)
def huber(S, M, lab, it):
    T, n = S.dim("T"), S.dim("n")
    if S.symbolic and it > 1:
        raise Reject
    R = S.mat("R", T, n, gen=ret)
    names = NAMES[:n] if lab else None
    a = S.ok(S.call(M.moments.robust_mean_huber, wrap(S, R, names), max_iter=it))
    x = a.to_numpy() if names else a
    if names:
        S.true("asset names", list(a.index) == names)
    for i in range(n):
        c = list(R[:, i])
        for k in range(T - 1):                        # the estimate is an average of the observations
            pass
        S.true("between the smallest and the largest return", S.all([S.any([x[i] >= v - (0 if S.symbolic else 1e-9) for v in c]), S.any([x[i] <= v + (0 if S.symbolic else 1e-9) for v in c])]))
        if not S.symbolic:
            md = np.median(c)
            tau = (1.4826 * np.median(np.abs(c - md)) + 1e-12) * np.sqrt(T / max(np.log(max(T, 3)), 2.))
            mu = md if it == 1 else x[i]
            w = np.minimum(1, tau / np.maximum(np.abs(c - mu), 1e-12))
            S.eq("weighted mean with Huber weights at the stated threshold", x[i], np.sum(w * c) / np.sum(w), tol=1e-9 if it == 1 else 1e-4)


@contract("C12", funcs=[MM + "robust_mean_median_of_means"], dims={"T": [1, 2, 3, 4], "n": [1, 2]}, cdims={"T": [5, 30], "n": [1, 3]}, samples=150,
          cfgs=[{"lab": l, "nb": b} for l in (0, 1) for b in ("auto", 1, 2, 3, 99)])
def median_of_means(S, M, lab, nb):
    T, n = S.dim("T"), S.dim("n")
    if S.symbolic and T == 4 and nb == 99 and n == 2:
        raise Reject
    R = S.mat("R", T, n, gen=ret)
    names = NAMES[:n] if lab else None
    perm = [(3 * t + 1) % T if T % 3 else T - 1 - t for t in range(T)] if S.symbolic else list(np.random.default_rng(5).permutation(T))

    class Rng:
        def permutation(self, k):
            S.true("all observations are permuted", k == T)
            return np.array(perm)
    S.hook("random.default_rng", lambda seed=None: Rng())
    a = S.ok(S.call(M.moments.robust_mean_median_of_means, wrap(S, R, names), n_blocks=nb, random_state=5))
    Bn = max(1, min(int(np.ceil(np.sqrt(T))) if nb == "auto" else nb, T))
    sizes = [T // Bn + (1 if b < T % Bn else 0) for b in range(Bn)]
    want = []
    for i in range(n):
        ms, o = [], 0
        for z in sizes:
            ms.append(sum(R[perm[t], i] for t in range(o, o + z)) / z)
            o += z
        ms = ranked(S, ms)
        h = len(ms) // 2
        want.append(ms[h] if len(ms) % 2 else (ms[h - 1] + ms[h]) / 2)
    out(S, "median of the means of equal blocks of distinct observations", a, want, names, tol=1e-9)
    S.raises(S.call(M.moments.robust_mean_median_of_means, R.copy(), n_blocks=0), ValueError, "no blocks refused")


def ranked(S, xs):
    if not S.symbolic:
        return sorted(xs)
    out = []
    for x in xs:
        k = 0
        while k < len(out) and S.cond(out[k] <= x):
            k += 1
        out.insert(k, x)
    return out


@contract("C12", funcs=[MM + "_soft_threshold"], dims={"n": [1, 2]}, cdims={"n": [3]}, samples=60)
def soft_threshold(S, M):
    n = S.dim("n")
    if getattr(M.moments, "_soft_threshold", None) is None:
        raise Reject
    A, t = S.mat("A", n, n), S.real("t", lo=0)
    a = S.ok(S.call(M.moments._soft_threshold, A.copy(), t))
    for i in range(n):
        for j in range(n):
            x = A[i, j]
            w = x if i == j else 0 * x if S.cond(S.absval(x) <= t) else x - t if S.cond(x > 0) else x + t
            S.eq("off-diagonal entries move towards zero by the threshold", a[i, j], w)


@contract("C12", funcs=[MM + "sparse_precision_glasso", MM + "_graphical_lasso_admm"], modes="C", dims={"T": [12], "n": [2]}, cdims={"T": [12, 60], "n": [1, 2, 4]}, samples=150, cfgs=[{"lab": l, "cent": c, "auto": a} for l in (0, 1) for c in (0, 1) for a in (0, 1)])
def glasso(S, M, lab, cent, auto):
    """bounded: inverse pair, optimality conditions of the penalised likelihood, labels"""
    T, n = S.dim("T"), S.dim("n")
    R = S.rng.normal(size=(T, n)) @ (np.eye(n) + .3 * S.rng.normal(size=(n, n))) + .1
    al = "auto" if auto else float(S.rng.choice([.05, .2]))
    names = NAMES[:n] if lab else None
    o = S.call(M.moments.sparse_precision_glasso, wrap(S, R, names), alpha=al, assume_centered=bool(cent), return_precision=True)
    if isinstance(o.exc, RuntimeError):
        raise Reject
    C, P = S.ok(o)
    if names:
        S.true("asset names", list(C.index) == names == list(C.columns) == list(P.index) == list(P.columns))
        C, P = C.to_numpy(), P.to_numpy()
    symmetric(S, "covariance", C, n)
    psd(S, "covariance", C)
    S.eq("precision is the inverse of the covariance", C @ P, np.eye(n), tol=1e-5)
    X = R if cent else R - R.mean(0)
    E = X.T @ X / T
    if not auto:
        S.true("fitted covariances within the penalty of the sample's", np.all(np.abs(C - E)[~np.eye(n, dtype=bool)] <= al + 5e-2 * np.abs(E).max()))
        S.true("fitted variances are the sample's", np.all(np.abs(np.diag(C) - np.diag(E)) <= 5e-2 * np.abs(E).max()))
    S.eq("covariance alone is the same", np.asarray(M.moments.sparse_precision_glasso(R.copy(), alpha=al, assume_centered=bool(cent))), C, tol=1e-9)


@contract("C12", funcs=[MM + "shrink_covariance_nls"], modes="C", dims={"T": [14], "n": [2]}, cdims={"T": [14, 60], "n": [2, 4]}, samples=30, cfgs=[{"lab": l, "k": k} for l in (0, 1) for k in (0, 1)])
def nonlinear(S, M, lab, k):
    """bounded: the external estimator's result on the returns given"""
    try:
        import nonlinshrink
    except ImportError:
        raise Reject
    T, n = S.dim("T"), S.dim("n")
    R = S.rng.normal(size=(T, n)) * .02
    a = S.ok(S.call(M.moments.shrink_covariance_nls, wrap(S, R, NAMES[:n] if lab else None), dof_correction=k))
    out(S, "external nonlinear shrinkage", a, nonlinshrink.shrink_cov(R.copy(), k=k or None), NAMES[:n] if lab else None, tol=1e-9)
    S.raises(S.call(M.moments.shrink_covariance_nls, R, input_is_cov=True), ValueError, "covariance input refused")


MEANS = {"sample": None, "simple": None, "jorion": "shrink_mean_jorion", "bayes_stein": "shrink_mean_jorion", "james_stein": "shrink_mean_james_stein", "js": "shrink_mean_james_stein", "JAMES-stein": "shrink_mean_james_stein",
         "huber": "robust_mean_huber", "robust_huber": "robust_mean_huber", "median_of_means": "robust_mean_median_of_means", "mom": "robust_mean_median_of_means"}
COVS = {"sample": None, "empirical": None, "ledoit_wolf": "shrink_covariance_ledoit_wolf", "LW": "shrink_covariance_ledoit_wolf", "oas": "shrink_covariance_oas", "nls": "shrink_covariance_nls", "nonlinear": "shrink_covariance_nls",
        "poet": "factor_covariance_poet", "tyler": "robust_covariance_tyler", "tyler_shrinkage": "robust_covariance_tyler", "glasso": "sparse_precision_glasso", "graphical_lasso": "sparse_precision_glasso", "ewma": "covariance_ewma"}


@contract("C12", funcs=[MM + "estimate_moments"], dims={"T": [2], "n": [1, 2]}, cdims={"T": [6], "n": [1, 3]}, samples=300,
          cfgs=[{"me": m, "ce": "sample", "lab": l, "p": p} for m in MEANS for l in (0, 1) for p in (0, 1)] + [{"me": "sample", "ce": c, "lab": l, "p": p} for c in COVS for l in (0, 1) for p in (0, 1)])
def dispatch(S, M, me, ce, lab, p):
    """each key runs its own estimator on the user's returns / the sample moments of the user's probabilities"""
    import inspect
    T, n = S.dim("T"), S.dim("n")
    R = S.mat("R", T, n, gen=ret)
    names = NAMES[:n] if lab else None
    pr = list(S.prob("p", T)) if p else [S.lit(1) / T] * T if S.symbolic else [1 / T] * T
    m, c = central(S, R, pr, T, n)
    log, mark = [], {}

    def spy(name):
        fn = getattr(M.moments, name)
        sig = inspect.signature(fn)

        def wrapf(real, *a, **k):
            log.append((name, sig.bind(*a, **k).arguments))
            mark[name] = object()
            return mark[name]
        S.spy(M, fn, wrapf)
    for f in set(MEANS.values()) | set(COVS.values()):
        if f:
            spy(f)
    mk, ck = {"flag": 1} if False else {}, {}
    r = wrap(S, R, names)
    a, b = S.ok(S.call(M.moments.estimate_moments, r, *([S.arr(pr)] if p else []), mean_estimator=me, cov_estimator=ce, mean_kwargs=mk, cov_kwargs=ck))
    S.true("caller's keyword mappings are left alone", mk == {} and ck == {})
    fm, fc = MEANS[me], COVS[ce]
    S.true("only the named estimators run", [x[0] for x in log] == [x for x in (fm, fc) if x])
    for name, got, want in (("mean", a, fm), ("covariance", b, fc)):
        if want:
            S.true("the named estimator's result is returned", got is mark[want])
    if not fm:
        out(S, "sample mean", a, m, names, tol=1e-9)
    if not fc:
        out(S, "sample covariance", b, c, names, tol=1e-9)
    for name, args in log:
        ar = dict(args)
        if name.startswith("shrink_mean"):
            out(S, "shrinks the sample mean", ar["mu" if "jorion" in name else "mu_hat"], m, names, tol=1e-9)
            out(S, "by the sample covariance", ar["S"], c, names, tol=1e-9)
            S.true("with the number of observations", ar["T"] == T)
        elif "ledoit" in name:
            out(S, "shrinks the sample covariance", ar["S_hat"], c, names, tol=1e-9)
        if "R" in ar or "R_or_S" in ar:
            x = ar.get("R", ar.get("R_or_S"))
            S.true("on the user's labelled returns", list(getattr(x, "columns", [])) == (names or []))
            S.eq("on the user's returns", x.to_numpy() if lab else x, R)


@contract("C12", funcs=[MM + "estimate_moments"] + [MM + f for f in sorted({f for f in list(MEANS.values()) + list(COVS.values()) if f})], modes="C", dims={"T": [20], "n": [2]}, cdims={"T": [20, 60], "n": [1, 2, 3, 5]}, samples=200, cbudget=10,
          cfgs=[{"me": m, "ce": c} for m, c in (("sample", "ledoit_wolf"), ("jorion", "oas"), ("james_stein", "poet"), ("huber", "tyler"), ("mom", "glasso"), ("sample", "ewma"), ("js", "nls"), ("sample", "sample"), ("sample", "lwcc"))])
def relabelling(S, M, me, ce):
    """bounded: permuting the assets permutes the estimates; estimates are symmetric, labelled, positive semidefinite"""
    T, n = S.dim("T"), S.dim("n")
    if me == "jorion" and n < 3:
        me = "sample"
    if ce == "nls":
        try:
            import nonlinshrink  # noqa
        except ImportError:
            raise Reject
    R = S.rng.standard_t(4, size=(T, n)) * S.rng.uniform(.5, 2, size=n) * .02 @ (np.eye(n) + .3 * S.rng.normal(size=(n, n)))
    if ce == "glasso":
        R = R * 50
    names = NAMES[:n]
    q = list(S.rng.permutation(n))
    D = S.pd.DataFrame
    kw = dict(mean_estimator=me, cov_estimator="ledoit_wolf" if ce == "lwcc" else ce, mean_kwargs={"random_state": 3} if me == "mom" else {}, cov_kwargs={"target": "constant_correlation"} if ce == "lwcc" else {"alpha": .3} if ce == "glasso" else {})
    pr = S.prob("p", T) if S.rng.random() < .5 else None
    o = S.call(M.moments.estimate_moments, D(R.copy(), columns=names), pr, **kw)
    if ce == "glasso" and isinstance(o.exc, RuntimeError):
        raise Reject
    a, b = S.ok(o)
    a2, b2 = S.ok(S.call(M.moments.estimate_moments, D(R[:, q].copy(), columns=[names[i] for i in q]), pr, **kw))
    S.true("labels", list(a.index) == names == list(b.index) == list(b.columns) and list(a2.index) == [names[i] for i in q] == list(b2.columns))
    s = np.abs(b.to_numpy()).max()
    S.true("finite", np.isfinite(a.to_numpy()).all() and np.isfinite(b.to_numpy()).all())
    S.eq("mean does not depend on the order of assets", a2.reindex(names).to_numpy() / np.sqrt(s), a.to_numpy() / np.sqrt(s), tol=1e-6)
    S.eq("covariance does not depend on the order of assets", b2.reindex(index=names, columns=names).to_numpy() / s, b.to_numpy() / s, tol=2e-3 if ce == "glasso" else 1e-5)
    symmetric(S, "covariance", b.to_numpy(), n)
    psd(S, "covariance", b.to_numpy())


BAD = ("unknown mean", "unknown cov", "series returns", "jorion two assets", "jorion T=0", "jorion shape", "lw target", "lw shape", "lw empty", "oas NaN", "oas empty", "glasso NaN", "glasso one row", "glasso alpha 0", "tyler shrinkage", "tyler NaN shrinkage",
       "tyler target", "tyler target shape", "tyler target labels", "poet k 0", "poet thresh", "js shape", "js target length", "js target labels", "js target name", "js T=0", "huber flag", "ewma periods", "ewma span", "permuted S jorion", "permuted S js", "permuted S lw")


@contract("C12", funcs=[MM + f for f in sorted({f for f in list(MEANS.values()) + list(COVS.values()) if f})] + [MM + "_align_target", MM + "_labels"], cfgs=[{"case": c} for c in BAD], samples=len(BAD))
def refused(S, M, case):
    m, N = M.moments, float("nan")
    PSD(S, M)
    D, Se = S.pd.DataFrame, S.pd.Series
    R = np.array([[.1, .2, .05], [-.05, .3, .01], [.02, -.1, .04], [.07, .01, -.03]])
    ABC, CAB = list("ABC"), list("CAB")
    mu, C = np.array([.1, .2, .3]), np.diag([.04, .09, .16])
    Rn = R.copy()
    Rn[1, 1] = N
    lm, lC = Se(mu, index=ABC), D(C, index=CAB, columns=CAB)
    f = {"unknown mean": lambda: m.estimate_moments(R, mean_estimator="median"), "unknown cov": lambda: m.estimate_moments(R, cov_estimator="shrunk"), "series returns": lambda: m.estimate_moments(Se(mu)), "jorion two assets": lambda: m.shrink_mean_jorion(mu[:2], C[:2, :2], 5),
         "jorion T=0": lambda: m.shrink_mean_jorion(mu, C, 0), "jorion shape": lambda: m.shrink_mean_jorion(mu, C[:2, :2], 5), "lw target": lambda: m.shrink_covariance_ledoit_wolf(R, C, "diagonal"), "lw shape": lambda: m.shrink_covariance_ledoit_wolf(R, C[:2, :2]),
         "lw empty": lambda: m.shrink_covariance_ledoit_wolf(R[:0], C), "oas NaN": lambda: m.shrink_covariance_oas(Rn), "oas empty": lambda: m.shrink_covariance_oas(R[:0]), "glasso NaN": lambda: m.sparse_precision_glasso(Rn, alpha=.1), "glasso one row": lambda: m.sparse_precision_glasso(R[:1], alpha=.1),
         "glasso alpha 0": lambda: m.sparse_precision_glasso(R, alpha=0.0), "tyler shrinkage": lambda: m.robust_covariance_tyler(R, shrinkage=1.5), "tyler NaN shrinkage": lambda: m.robust_covariance_tyler(R, shrinkage=N), "tyler target": lambda: m.robust_covariance_tyler(R, target="diag"),
         "tyler target shape": lambda: m.robust_covariance_tyler(R, target=np.eye(2)), "tyler target labels": lambda: m.robust_covariance_tyler(D(R, columns=ABC), target=D(C, index=list("ABZ"), columns=list("ABZ"))), "poet k 0": lambda: m.factor_covariance_poet(R, k=0),
         "poet thresh": lambda: m.factor_covariance_poet(R, k=1, thresh=-.1), "js shape": lambda: m.shrink_mean_james_stein(mu[:2], C, 5), "js target length": lambda: m.shrink_mean_james_stein(mu, C, 5, target=[.1, .2]),
         "js target labels": lambda: m.shrink_mean_james_stein(lm, C, 5, target=Se(mu, index=list("ABZ"))), "js target name": lambda: m.shrink_mean_james_stein(mu, C, 5, target="zero"), "js T=0": lambda: m.shrink_mean_james_stein(mu, C, 0), "huber flag": lambda: m.robust_mean_huber(R, allow_vectorized=False),
         "ewma periods": lambda: m.covariance_ewma(R, min_periods=5), "ewma span": lambda: m.covariance_ewma(R, span=0), "permuted S jorion": lambda: m.shrink_mean_jorion(lm, lC, 5), "permuted S js": lambda: m.shrink_mean_james_stein(lm, lC, 5),
         "permuted S lw": lambda: m.shrink_covariance_ledoit_wolf(D(R, columns=ABC), lC)}[case]
    if S.symbolic and case in ("poet k 0", "poet thresh", "glasso NaN", "glasso one row", "glasso alpha 0", "oas NaN"):
        S.hook("linalg.eigh", lambda a, *r, **k: (np.array([.1, .2, .3]), np.eye(3)))
    S.raises(S.call(f), Exception, "refused: " + case)


# ---------------------------------------------------------------------- every number of observations and assets
BIG = {"T": [5, 130], "n": [3, 7]}


@contract("C12", funcs=[MM + "estimate_sample_moments", "utils.validation.check_weights_sum_to_one", "utils.validation.check_non_negativity"],
          modes="PC", dims={"T": [2], "n": [2]}, cdims={"T": [7, 130], "n": [1, 12]}, samples=24)
def all_sizes_sample(S, M):
    T, n = S.dim("T"), S.dim("n")
    R, p = S.mat("R", T, n, gen=ret), S.prob("p", T, strict=False)
    a, b = S.ok(S.call(M.moments.estimate_sample_moments, R.copy(), p.copy()))
    m = S.build((n,), lambda i: S.sigma(T, lambda t: p[t] * R[t, i]))
    S.eq("mean is the probability-weighted mean", a, m)
    S.eq("covariance is the matching central second moment", b, S.build((n, n), lambda i, j: S.sigma(T, lambda t: p[t] * (R[t, i] - m[i]) * (R[t, j] - m[j]))))


@contract("C12", funcs=[MM + "shrink_mean_jorion"], modes="PC", dims={"n": [3]}, cdims={"n": [4, 15]}, samples=24)
def all_sizes_jorion(S, M):
    n = S.dim("n", 3)
    mu, sg = S.vec("mu", n, gen=ret), S.spd("sg", n)
    T = S.real("T", lo=0, lo_strict=True, gen=lambda r: float(r.choice([1, 5, 60])))
    V = S.inverse(S.build((n, n), lambda i, j: sg[i, j] + S.where(i == j, S.const("0.00000001"), 0)))
    g = S.sigma(n, lambda i: S.sigma(n, lambda j: V[i, j] * mu[j])) / S.sigma(n, lambda i: S.sigma(n, lambda j: V[i, j]))
    q = S.sigma(n, lambda i: S.sigma(n, lambda j: (mu[i] - g) * V[i, j] * (mu[j] - g)))
    S.assume(q >= 0)                                  # the inverse of a positive definite matrix is positive definite
    S.assume(T * q >= 0)
    v = clip01(S, (n + 2) / ((n + 2) + T * q))
    a = S.ok(S.call(M.moments.shrink_mean_jorion, mu.copy(), sg.copy(), T))
    S.eq("mean is shrunk to the minimum-variance mean by (N+2)/(N+2+T d'S^-1 d)", a, S.build((n,), lambda i: mu[i] - v * (mu[i] - g)), tol=1e-6)


@contract("C12", funcs=[MM + "shrink_mean_james_stein", MM + "_align_target"], modes="PC", dims={"n": [3]}, cdims={"n": [1, 2, 15]}, samples=40, cfgs=[{"target": t} for t in ("grand", "array")])
def all_sizes_james_stein(S, M, target):
    n = S.dim("n")
    mu, sg = S.vec("mu", n, gen=ret), S.spd("sg", n)
    T = S.real("T", lo=0, lo_strict=True, gen=lambda r: float(r.choice([1, 5, 60])))
    PSD(S, M)
    S.hook("linalg.pinv", lambda a, *k, **kw: S.inverse(a))
    V = S.inverse(sg)
    tg = S.vec("tg", n, gen=ret) if target == "array" else None
    m = (lambda i: tg[i]) if target == "array" else (lambda i: S.total(mu) / n)
    q = T * S.sigma(n, lambda i: S.sigma(n, lambda j: (mu[i] - m(i)) * V[i, j] * (mu[j] - m(j))))
    S.assume(q >= 0)
    if not S.symbolic and 0 <= q < 1e-9:
        raise Reject
    a = S.ok(S.call(M.moments.shrink_mean_james_stein, mu.copy(), sg.copy(), T, **({"target": tg.copy()} if target == "array" else {})))
    c = S.lit(0)
    if S.cond(q > 0):
        c = 1 - (n - 2) / q
        c = S.lit(0) if S.cond(c < 0) else S.lit(1) if S.cond(c > 1) else c
    S.eq("mean is target + (1 - (N-2)/(T d'S^-1 d)) d with the factor kept in [0, 1]", a, S.build((n,), lambda i: m(i) + c * (mu[i] - m(i))), tol=1e-6)


@contract("C12", funcs=[MM + "shrink_covariance_ledoit_wolf"], modes="PC", dims={"T": [2], "n": [2]}, cdims={"T": [5, 90], "n": [1, 8]}, samples=24, cfgs=[{"target": t} for t in ("identity", "constant_correlation")])
def all_sizes_ledoit_wolf(S, M, target):
    T, n = S.dim("T"), S.dim("n", 2)
    R = S.mat("R", T, n, gen=ret)
    if not S.symbolic and n < 2:
        raise Reject
    sg = S.spd("sg", n)
    if S.symbolic:
        d = S.vec("sd", n, lo=0, lo_strict=True)                    # S = D C D
        c = S.mat("co", n, n, sym=True)
        sg = S.build((n, n), lambda i, j: S.where(i == j, d[i] * d[i], d[i] * d[j] * c[i, j]))
    else:
        d = np.sqrt(np.diag(sg))
    PSD(S, M)
    m = S.build((n,), lambda i: S.sigma(T, lambda t: R[t, i]) / T)
    x = S.build((T, n), lambda t, i: R[t, i] - m[i])
    pi = S.build((n, n), lambda i, j: S.sigma(T, lambda t: (x[t, i] * x[t, j] - sg[i, j]) * (x[t, i] * x[t, j] - sg[i, j])) / T)
    pih = S.total(pi) / (n * n)
    rho = dpi = S.sigma(n, lambda i: pi[i, i])
    if target == "identity":
        tr = S.sigma(n, lambda i: sg[i, i]) / n
        F = S.build((n, n), lambda i, j: S.where(i == j, tr, 0))
    else:
        rb = S.sigma(n, lambda i: S.sigma(n, lambda j: S.where(i == j, 0, sg[i, j] / (d[i] * d[j])))) / (n * (n - 1))
        F = S.build((n, n), lambda i, j: S.where(i == j, sg[i, j], rb * d[i] * d[j]))
        rho = dpi + S.sigma(n, lambda i: S.sigma(n, lambda j: S.where(i == j, 0, F[i, j]))) / (n * (n - 1)) * (pih - dpi)
    gam = S.sigma(n, lambda i: S.sigma(n, lambda j: (sg[i, j] - F[i, j]) * (sg[i, j] - F[i, j])))
    if not S.symbolic and gam < 1e-12:
        raise Reject
    a = S.ok(S.call(M.moments.shrink_covariance_ledoit_wolf, R.copy(), sg.copy(), target=target))
    if S.cond(gam <= 0):
        return
    k = (pih - rho) / gam
    dl = clip01(S, k if target == "identity" else k / T)
    want = S.build((n, n), lambda i, j: dl * F[i, j] + (1 - dl) * sg[i, j])
    if not S.symbolic and np.linalg.eigvalsh(want).min() < 0:
        raise Reject
    S.eq("covariance is the convex combination of target and sample with the stated intensity", a, want, tol=1e-6)


@contract("C12", funcs=[MM + "shrink_covariance_oas"], modes="PC", dims={"T": [2], "n": [2]}, cdims={"T": [5, 90], "n": [2, 8]}, samples=24, cfgs=[{"cent": c} for c in (0, 1)])
def all_sizes_oas(S, M, cent):
    T, n = S.dim("T"), S.dim("n", 2)
    if cent:
        x = R = S.mat("R", T, n, gen=ret)
    else:
        R, x, _ = S.centred("R", T, n, gen=ret)
    PSD(S, M)
    C = S.build((n, n), lambda i, j: S.sigma(T, lambda t: x[t, i] * x[t, j]) / T)
    tr = S.sigma(n, lambda i: C[i, i])
    t2 = S.sigma(n, lambda i: S.sigma(n, lambda j: C[i, j] * C[i, j]))
    den = (T + 1 - S.lit(2) / n) * (t2 - tr * tr / n)
    num = (1 - S.lit(2) / n) * t2 + tr * tr
    a = S.ok(S.call(M.moments.shrink_covariance_oas, R.copy(), **({} if cent else {"assume_centered": False})))
    if not S.symbolic:
        rho = 1. if den <= 1e-14 * t2 else min(num / den, 1.)
    else:
        rho = S.lit(1) if S.cond(den <= 0) else (S.lit(1) if S.cond(num > den) else num / den)
    S.eq("covariance is the convex combination of sample and scaled identity with the OAS intensity", a,
         S.build((n, n), lambda i, j: (1 - rho) * C[i, j] + S.where(i == j, rho * tr / n, 0)), tol=1e-6)
