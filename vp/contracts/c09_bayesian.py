"""C09 Bayesian mean/covariance update, credibility sets and mean uncertainty follow their formulas."""
import warnings
import numpy as np
from ..spec import contract, Reject

NAMES = ["B", "A", "C", "D", "E", "F", "G"]
B = "bayesian."


def niw_inputs(S, n, nu=None):
    mu0, s0 = S.vec("mu0", n), S.spd("s0", n)
    mu, s = S.vec("mu", n), S.spd("s", n)
    t0 = S.real("t0", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.25, 1., 2.5, 7., 40.])))
    nu0 = S.real("nu0", lo=0, gen=lambda r: float(r.choice([0., .5, 1., 3.25, 30.])))
    T = S.real("T", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.75, 1., 1.5, 2., 6., 60.])))
    return mu0, s0, mu, s, t0, nu0, T


def update(mu0, s0, mu, s, t0, nu0, T):
    n = len(mu)
    T1, nu1 = t0 + T, nu0 + T
    mu1 = [(t0 * mu0[i] + T * mu[i]) / T1 for i in range(n)]
    s1 = [[(nu0 * s0[i, j] + T * s[i, j] + (t0 * T / T1) * (mu[i] - mu0[i]) * (mu[j] - mu0[j])) / nu1 for j in range(n)] for i in range(n)]
    return T1, nu1, mu1, s1


def wrapped(S, n, lab, mu0, s0, mu, s):
    """lab: which of (prior_mu, prior_sigma, sample_mu, sample_sigma) carry labels"""
    names = NAMES[:n]
    out = []
    for x, l in zip((mu0, s0, mu, s), lab):
        x = x.copy()
        out.append(x if l == "0" else S.pd.Series(x, index=names) if len(x.shape) == 1 else S.pd.DataFrame(x, index=names, columns=names))
    return dict(prior_mu=out[0], prior_sigma=out[1]), dict(sample_mu=out[2], sample_sigma=out[3]), names if "1" in lab[:2] else None


def values(S, x):
    return x.to_numpy() if hasattr(x, "to_numpy") else x


def same(S, name, x, want, names, tol=None):
    """value and container: labelled with the prior's asset names if and only if the prior was labelled"""
    if names is None:
        S.true(name + ": plain array", not hasattr(x, "index"))
    else:
        S.true(name + ": asset names", hasattr(x, "index") and list(x.index) == names and (len(x.shape) == 1 or list(x.columns) == names))
    S.eq(name, values(S, x), S.arr(want), tol=tol)


def radii(S, T1, nu1, n, p, ps):
    """squared chi-square quantiles come from the distribution table (scipy), assumed correct"""
    if S.symbolic:
        from .. import term as tm
        ppf = lambda q, d: tm.fn("chi2ppf", q, tm.lift(d))
    else:
        from scipy.stats import chi2
        ppf = lambda q, d: float(chi2.ppf(q, d))
    q, qs = ppf(p, n), ppf(ps, n * (n + 1) // 2)
    c = nu1 + n + 1
    return q, qs, S.sqrt(q / T1 * (nu1 / (nu1 - 2))), nu1 / c + S.sqrt(2 * nu1 * nu1 * qs / (c * c * c))


@contract("C09", funcs=[B + "NIWPosterior.__init__", B + "NIWPosterior.update", B + "NIWPosterior.get_mu_ce", B + "NIWPosterior.get_sigma_ce", B + "NIWPosterior.get_S_mu",
                        B + "NIWPosterior._wrap_vector", B + "NIWPosterior._wrap_matrix", B + "NIWPosterior.is_updated", B + "_to_numpy"],
          dims={"n": [1, 2, 3]}, cdims={"n": [5]}, samples=120, cfgs=[{"lab": l} for l in ("0000", "1111", "1000", "0100", "1100", "0011")])
def niw_update(S, M, lab):
    n = S.dim("n")
    a = niw_inputs(S, n)
    T1, nu1, mu1, s1 = update(*a)
    k0, k1, names = wrapped(S, n, lab, *a[:4])
    keep = [x.copy() for x in a[:4]]
    # callee contract (square_root): a positive definite argument is accepted; the factor itself is not used here
    S.stub(M, getattr(M.bayesian, "_cholesky_pd", None), lambda mat, *r, **k: mat)
    niw = S.ok(S.call(M.bayesian.NIWPosterior, t0=a[4], nu0=a[5], **k0))
    S.true("not updated yet", niw.is_updated is False)
    for g in ("get_mu_ce", "get_S_mu", "get_sigma_ce"):
        S.raises(S.call(getattr(niw, g)), RuntimeError, g + " before the update")
    S.raises(S.call(niw.cred_radius_mu, .5), RuntimeError, "cred_radius_mu before the update")
    S.raises(S.call(niw.cred_radius_sigma_factor, .5), RuntimeError, "cred_radius_sigma_factor before the update")
    r = S.ok(S.call(niw.update, n_obs=a[6], **k1))
    S.true("updated", niw.is_updated is True)
    S.eq("T1 = T0 + T", r.T1, T1)
    S.eq("nu1 = nu0 + T", r.nu1, nu1)
    same(S, "mu1", r.mu1, mu1, names)
    same(S, "Sigma1", r.sigma1, s1, names)
    same(S, "classical-equivalent mean", S.ok(S.call(niw.get_mu_ce)), mu1, names)
    same(S, "classical-equivalent covariance", S.ok(S.call(niw.get_sigma_ce)), [[nu1 / (nu1 + n + 1) * s1[i][j] for j in range(n)] for i in range(n)], names)
    o = S.call(niw.get_S_mu)
    if S.cond(nu1 <= 2):
        S.raises(o, ValueError, "mean scatter refused for nu1 <= 2")
    else:
        same(S, "mean scatter", S.ok(o), [[nu1 / (T1 * (nu1 - 2)) * s1[i][j] for j in range(n)] for i in range(n)], names)
    S.raises(S.call(niw.update, n_obs=a[6], **k1), RuntimeError, "a second update is refused")
    for name, x, k in zip(("prior mean", "prior covariance", "sample mean", "sample covariance"), a[:4], keep):
        S.eq(name + " left alone", x, k, tol=0 if not S.symbolic else None)


@contract("C09", funcs=[B + "NIWPosterior.cred_radius_mu", B + "NIWPosterior.cred_radius_sigma_factor", B + "chi2_quantile"],
          dims={"n": [1, 2]}, cdims={"n": [1, 2, 3, 4]}, samples=160)
def niw_radii(S, M):
    n = S.dim("n")
    a = niw_inputs(S, n)
    T1, nu1, mu1, s1 = update(*a)
    p = S.real("p", gen=lambda r: r.uniform(-.1, 1.1))
    p2 = S.real("p2", gen=lambda r: r.uniform(0, 1))
    niw = S.ok(S.call(M.bayesian.NIWPosterior, a[0], a[1], a[4], a[5]))
    S.ok(S.call(niw.update, a[2], a[3], a[6]))
    o, os = S.call(niw.cred_radius_mu, p), S.call(niw.cred_radius_sigma_factor, p)
    bad = S.any([p <= 0, p >= 1])
    if S.cond(bad):
        S.raises(o, ValueError, "mean radius refuses levels outside (0,1)")
        S.raises(os, ValueError, "covariance factor refuses levels outside (0,1)")
        return
    if S.cond(nu1 <= 2):
        S.raises(o, ValueError, "mean radius refused for nu1 <= 2")
        return
    S.assume(S.all([p2 > 0, p2 < p]))
    q, qs, gm, cs = radii(S, T1, nu1, n, p, p)
    q2, qs2, _, _ = radii(S, T1, nu1, n, p2, p2)
    S.assume(S.all([q2 >= 0, qs2 >= 0, q2 < q, qs2 < qs]))     # a quantile function is increasing, chi-square ones are non-negative
    S.eq("mean radius formula", S.ok(o), gm)
    S.eq("covariance factor formula", S.ok(os), cs)
    S.lt("mean radius grows with confidence", S.ok(S.call(niw.cred_radius_mu, p2)), gm)
    S.lt("covariance factor grows with confidence", S.ok(S.call(niw.cred_radius_sigma_factor, p2)), cs)


@contract("C09", funcs=[B + "chi2_quantile"], dims={}, cfgs=[{"sq": 0}, {"sq": 1}], samples=60)
def quantile(S, M, sq):
    p = S.real("p", gen=lambda r: r.choice([0., 1., -.2, 1.3, r.random(), r.random()]))
    o = S.call(M.bayesian.chi2_quantile, p, 3, sqrt=bool(sq))
    if S.cond(S.any([p <= 0, p >= 1])):
        S.raises(o, ValueError, "level outside (0,1) refused")
        return
    q = radii(S, S.lit(1), S.lit(3), 3, p, p)[0]
    S.assume(q >= 0)
    S.eq("quantile, or its root", S.ok(o), S.sqrt(q) if sq else q)


@contract("C09", funcs=[B + "chi2_quantile"], modes="C", dims={}, cfgs=[{}], samples=40)
def quantile_inverts_distribution(S, M):
    """bounded (the chi-square table is scipy's): the quantile solves F(q) = p, with F by the incomplete gamma function"""
    from scipy.special import gammainc
    d = int(S.integer("d", lo=1, hi=60, gen=lambda r: int(r.integers(1, 60))))
    p = S.real("p", lo=0, hi=1, gen=lambda r: r.uniform(.01, .99))
    S.eq("F(quantile) = level", gammainc(d / 2, M.bayesian.chi2_quantile(p, d) / 2), p, tol=1e-9)


BAD = ("t0 zero", "t0 negative", "nu0 negative", "n_obs zero", "n_obs negative", "prior mean 2-d", "prior mean empty", "prior cov short", "prior cov vector",
       "prior labels differ", "prior order differs", "prior columns differ", "sample mean short", "sample mean long", "sample mean 2-d", "sample cov large", "sample cov vector",
       "sample mean labels", "sample mean order", "sample cov order", "sample cov columns", "prior cov indefinite", "sample cov indefinite", "prior cov NaN", "sample cov NaN")


@contract("C09", funcs=[B + "NIWPosterior.__init__", B + "NIWPosterior.update", B + "RobustBayesPosterior.from_niw", "moments.posterior_moments_niw", "moments.posterior_moments_niw_with_uncertainty"],
          cfgs=[{"case": c, "via": v} for c in BAD for v in ("class", "bundle", "mom", "mom_unc")], samples=len(BAD) * 4, skip=lambda d, c: "indefinite" in c["case"] or "NaN" in c["case"])
def refused(S, M, case, via):
    if S.symbolic and ("indefinite" in case or "NaN" in case):
        return
    m, c = np.array([.1, .2]), np.array([[.04, .01], [.01, .09]])
    k = dict(prior_mu=m.copy(), prior_sigma=c.copy(), t0=2.5, nu0=4.5, sample_mu=m + .1, sample_sigma=c * 2, n_obs=12)
    Se, D = S.pd.Series, S.pd.DataFrame
    AB = ["A", "B"]
    lab = dict(prior_mu=Se(m.copy(), index=AB), prior_sigma=D(c.copy(), index=AB, columns=AB))
    ind = np.array([[1., 2.], [2., 1.]])
    k.update({
        "t0 zero": dict(t0=0), "t0 negative": dict(t0=-.5), "nu0 negative": dict(nu0=-.5), "n_obs zero": dict(n_obs=0), "n_obs negative": dict(n_obs=-3),
        "prior mean 2-d": dict(prior_mu=m.reshape(2, 1)), "prior mean empty": dict(prior_mu=np.array([]), prior_sigma=np.zeros((0, 0)), sample_mu=np.array([]), sample_sigma=np.zeros((0, 0))),
        "prior cov short": dict(prior_sigma=c[:1]), "prior cov vector": dict(prior_sigma=np.array([.1, .2])),
        "prior labels differ": dict(lab, prior_sigma=D(c, index=["A", "C"], columns=["A", "C"])), "prior order differs": dict(lab, prior_sigma=D(c, index=["B", "A"], columns=["B", "A"])),
        "prior columns differ": dict(lab, prior_sigma=D(c, index=AB, columns=["B", "A"])),
        "sample mean short": dict(sample_mu=m[:1]), "sample mean long": dict(sample_mu=np.array([.1, .2, .3])), "sample mean 2-d": dict(sample_mu=m.reshape(1, 2)),
        "sample cov large": dict(sample_sigma=np.eye(3)), "sample cov vector": dict(sample_sigma=np.array([.1, .2])),
        "sample mean labels": dict(lab, sample_mu=Se(m, index=["A", "C"])), "sample mean order": dict(lab, sample_mu=Se(m, index=["B", "A"])),
        "sample cov order": dict(lab, sample_sigma=D(c, index=["B", "A"], columns=["B", "A"])), "sample cov columns": dict(lab, sample_sigma=D(c, index=AB, columns=["B", "A"])),
        "prior cov indefinite": dict(prior_sigma=ind), "sample cov indefinite": dict(sample_sigma=ind),
        "prior cov NaN": dict(prior_sigma=np.full((2, 2), np.nan)), "sample cov NaN": dict(sample_sigma=np.full((2, 2), np.nan)),
    }[case])

    def run():
        if via == "bundle":
            return M.bayesian.RobustBayesPosterior.from_niw(**k)
        if via == "mom":
            return M.moments.posterior_moments_niw(**k)
        if via == "mom_unc":
            return M.moments.posterior_moments_niw_with_uncertainty(**k)
        niw = M.bayesian.NIWPosterior(*(k[x] for x in ("prior_mu", "prior_sigma", "t0", "nu0")))
        return niw.update(*(k[x] for x in ("sample_mu", "sample_sigma", "n_obs")))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        S.raises(S.call(run), (ValueError, RuntimeError), "refused: " + case)


@contract("C09", funcs=[B + "RobustBayesPosterior.from_niw", B + "RobustBayesPosterior.sigma1", B + "RobustBayesPosterior.cred_radius_mu", B + "RobustBayesPosterior.cred_radius_sigma_factor",
                        B + "RobustBayesPosterior.mean_uncertainty_cov_log", B + "RobustBayesPosterior.mean_uncertainty_cov_simple", B + "_wrap_matrix_like",
                        "moments.posterior_moments_niw", "moments.posterior_moments_niw_with_uncertainty"],
          dims={"n": [1, 2]}, cdims={"n": [2, 3, 4]}, samples=120, cfgs=[{"lab": "0000"}, {"lab": "1111"}])
def bundle(S, M, lab):
    n = S.dim("n")
    a = niw_inputs(S, n)
    T1, nu1, mu1, s1 = update(*a)
    k0, k1, names = wrapped(S, n, lab, *a[:4])
    kw = dict(k0, t0=a[4], nu0=a[5], n_obs=a[6], **k1)
    ce = [[nu1 / (nu1 + n + 1) * s1[i][j] for j in range(n)] for i in range(n)]
    m2, c2 = S.ok(S.call(M.moments.posterior_moments_niw, **kw))
    same(S, "posterior_moments_niw mean", m2, mu1, names)
    same(S, "posterior_moments_niw covariance", c2, ce, names)
    o = S.call(M.bayesian.RobustBayesPosterior.from_niw, **kw)
    o3 = S.call(M.moments.posterior_moments_niw_with_uncertainty, **kw)
    if S.cond(nu1 <= 2):
        S.raises(o, ValueError, "bundle refused for nu1 <= 2")
        S.raises(o3, ValueError, "uncertainty refused for nu1 <= 2")
        return
    sm = [[nu1 / (T1 * (nu1 - 2)) * s1[i][j] for j in range(n)] for i in range(n)]
    m3, c3, u3 = S.ok(o3)
    same(S, "with_uncertainty mean", m3, mu1, names)
    same(S, "with_uncertainty covariance", c3, ce, names)
    same(S, "with_uncertainty scatter", u3, sm, names)
    b = S.ok(o)
    same(S, "bundle mean", b.mu, mu1, names)
    same(S, "bundle covariance", b.sigma, ce, names)
    same(S, "bundle scatter", b.s_mu, sm, names)
    same(S, "recovered scale matrix", S.ok(S.call(lambda: b.sigma1)), s1, names)
    p = S.real("p", lo=0, hi=1, lo_strict=True, hi_strict=True, gen=lambda r: r.uniform(.05, .95))
    q, qs, gm, cs = radii(S, T1, nu1, n, p, p)
    S.assume(S.all([q >= 0, qs >= 0]))
    S.eq("mean radius", S.ok(S.call(b.cred_radius_mu, p)), gm)
    S.eq("covariance factor", S.ok(S.call(b.cred_radius_sigma_factor, p)), cs)
    d = S.const("0.75")
    q, qs, gm, cs = radii(S, T1, nu1, n, d, d)
    S.assume(S.all([q >= 0, qs >= 0]))
    S.eq("default mean radius", S.ok(S.call(b.cred_radius_mu)), gm)
    S.eq("default covariance factor", S.ok(S.call(b.cred_radius_sigma_factor)), cs)
    h = S.real("h", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.5, 1., 4., 12.])))
    if n == 1 or not S.symbolic:
        for g in (0, 1):
            S.raises(S.call([b.cred_radius_mu, b.cred_radius_sigma_factor][g], 1.0), ValueError, "level 1 refused")
    same(S, "log-return uncertainty scales with the squared horizon", S.ok(S.call(b.mean_uncertainty_cov_log, annualization_factor=h)), [[h * h * x for x in r] for r in sm], names)
    same(S, "default horizon is one period", S.ok(S.call(b.mean_uncertainty_cov_log)), sm, names)


@contract("C09", funcs=[B + "RobustBayesPosterior.mean_uncertainty_cov_simple"], dims={"n": [1, 2, 3]}, cdims={"n": [4]}, samples=80,
          cfgs=[{"exact": e, "lab": l, "hz": z} for e in (0, 1) for l in (0, 1) for z in (0, 1)])
def simple_uncertainty(S, M, exact, lab, hz):
    n = S.dim("n")
    mu, sg, sm = S.vec("mu", n, gen=lambda r: .1 * r.normal()), S.spd("sg", n), S.spd("sm", n)
    names = NAMES[:n] if lab else None
    w = (lambda x: S.pd.Series(x.copy(), index=names) if len(x.shape) == 1 else S.pd.DataFrame(x.copy(), index=names, columns=names)) if lab else (lambda x: x.copy())
    b = M.bayesian.RobustBayesPosterior(mu=w(mu), sigma=w(sg), s_mu=w(sm))
    kw = {"exact": True} if exact else {}
    h = S.real("h", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.5, 1., 4., 12.]))) if hz else S.lit(1)
    if hz:
        kw["annualization_factor"] = h
    J = [S.exp(mu[i] * h + sg[i, i] * h / 2) if exact else S.exp(mu[i] * h) for i in range(n)]
    same(S, "delta-method covariance in simple returns", S.ok(S.call(b.mean_uncertainty_cov_simple, **kw)), [[J[i] * J[j] * h * h * sm[i, j] for j in range(n)] for i in range(n)], names, tol=1e-9)
    if not hz and not exact:
        for g in ("cred_radius_mu", "cred_radius_sigma_factor"):
            S.raises(S.call(getattr(b, g)), ValueError, g + " needs the posterior parameters")
        S.raises(S.call(lambda: b.sigma1), ValueError, "sigma1 needs the posterior parameters")


@contract("C09", funcs=[B + "_cholesky_pd"], dims={"n": [1, 2, 3]}, cdims={"n": [2, 3, 5]}, samples=160, cfgs=[{"kind": "pd"}, {"kind": "near"}, {"kind": "bad"}],
          skip=lambda d, c: c["kind"] != "pd")
def square_root(S, M, kind):
    n = S.dim("n")
    f = M.bayesian._cholesky_pd
    if kind == "pd":
        A = S.spd("A", n)
        L = S.ok(S.call(f, A.copy()))
        S.eq("L L' = S", L @ L.T, A, tol=1e-9)
        S.true("lower triangular", S.all([L[i, j] == 0 for i in range(n) for j in range(i + 1, n)]))
        return
    if S.symbolic:
        return
    k = S.rng.normal(size=(n, max(n - 1, 1)))
    A = k @ k.T
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "near":
            if S.rng.random() < .5:
                A = A - 10.0 ** -S.rng.integers(8, 12) * np.eye(n)
            L = S.ok(S.call(f, A.copy()))
            d = L @ L.T - A
            S.true("L L' differs from S by at most a small multiple of the identity", np.abs(d - d[0, 0] * np.eye(n)).max() < 1e-9 and -1e-9 < d[0, 0] < 2e-7)
        else:
            A = A - (.01 + S.rng.random()) * np.eye(n) if n > 1 else -A - .01
            S.raises(S.call(f, A), RuntimeError, "an indefinite matrix is refused")
            S.raises(S.call(f, np.ones((n, n + 1))), ValueError, "a non-square matrix is refused")
            S.raises(S.call(f, np.ones(n)), ValueError, "a vector is refused")
            S.raises(S.call(f, np.full((n, n), np.nan)), ValueError, "NaN is refused")


# ---------------------------------------------------------------------- every number of assets
@contract("C09", funcs=[B + "NIWPosterior.__init__", B + "NIWPosterior.update", B + "NIWPosterior.get_mu_ce", B + "NIWPosterior.get_sigma_ce", B + "NIWPosterior.get_S_mu",
                        B + "NIWPosterior.cred_radius_mu", B + "NIWPosterior.cred_radius_sigma_factor", B + "_to_numpy"],
          modes="PC", dims={"n": [2]}, cdims={"n": [8, 25]}, samples=24)
def all_sizes_niw(S, M):
    n = S.dim("n")
    mu0, s0, mu, s, t0, nu0, T = a = niw_inputs(S, n)
    S.stub(M, getattr(M.bayesian, "_cholesky_pd", None), lambda mat, *r, **k: mat)
    niw = S.ok(S.call(M.bayesian.NIWPosterior, t0=t0, nu0=nu0, prior_mu=mu0.copy(), prior_sigma=s0.copy()))
    r = S.ok(S.call(niw.update, n_obs=T, sample_mu=mu.copy(), sample_sigma=s.copy()))
    T1, nu1 = t0 + T, nu0 + T
    mu1 = S.build((n,), lambda i: (t0 * mu0[i] + T * mu[i]) / T1)
    s1 = S.build((n, n), lambda i, j: (nu0 * s0[i, j] + T * s[i, j] + (t0 * T / T1) * (mu[i] - mu0[i]) * (mu[j] - mu0[j])) / nu1)
    S.eq("T1 = T0 + T", r.T1, T1)
    S.eq("nu1 = nu0 + T", r.nu1, nu1)
    S.eq("mu1", r.mu1, mu1)
    S.eq("Sigma1", r.sigma1, s1)
    S.eq("classical-equivalent mean", S.ok(S.call(niw.get_mu_ce)), mu1)
    S.eq("classical-equivalent covariance", S.ok(S.call(niw.get_sigma_ce)), S.build((n, n), lambda i, j: nu1 / (nu1 + n + 1) * s1[i, j]))
    o = S.call(niw.get_S_mu)
    p = S.real("p", lo=0, hi=1, lo_strict=True, hi_strict=True, gen=lambda r: r.uniform(.05, .95))
    og, oc = S.call(niw.cred_radius_mu, p), S.call(niw.cred_radius_sigma_factor, p)
    if S.cond(nu1 <= 2):
        S.raises(o, ValueError, "mean scatter refused for nu1 <= 2")
        S.raises(og, ValueError, "mean radius refused for nu1 <= 2")
        return
    S.eq("mean scatter", S.ok(o), S.build((n, n), lambda i, j: nu1 / (T1 * (nu1 - 2)) * s1[i, j]))
    q, qs, gm, cs = radii(S, T1, nu1, n, p, p)
    S.assume(S.all([q >= 0, qs >= 0]))
    S.eq("mean radius formula", S.ok(og), gm)
    S.eq("covariance factor formula", S.ok(oc), cs)


@contract("C09", funcs=[B + "RobustBayesPosterior.from_niw", B + "RobustBayesPosterior.sigma1", B + "RobustBayesPosterior.cred_radius_mu", B + "RobustBayesPosterior.cred_radius_sigma_factor",
                        B + "RobustBayesPosterior.mean_uncertainty_cov_log", "moments.posterior_moments_niw", "moments.posterior_moments_niw_with_uncertainty"],
          modes="PC", dims={"n": [2]}, cdims={"n": [8, 25]}, samples=24)
def all_sizes_bundle(S, M):
    n = S.dim("n")
    mu0, s0, mu, s, t0, nu0, T = niw_inputs(S, n)
    S.stub(M, getattr(M.bayesian, "_cholesky_pd", None), lambda mat, *r, **k: mat)
    kw = dict(prior_mu=mu0.copy(), prior_sigma=s0.copy(), t0=t0, nu0=nu0, sample_mu=mu.copy(), sample_sigma=s.copy(), n_obs=T)
    T1, nu1 = t0 + T, nu0 + T
    S.assume(nu1 > 2)
    mu1 = S.build((n,), lambda i: (t0 * mu0[i] + T * mu[i]) / T1)
    s1 = S.build((n, n), lambda i, j: (nu0 * s0[i, j] + T * s[i, j] + (t0 * T / T1) * (mu[i] - mu0[i]) * (mu[j] - mu0[j])) / nu1)
    ce = S.build((n, n), lambda i, j: nu1 / (nu1 + n + 1) * s1[i, j])
    sm = S.build((n, n), lambda i, j: nu1 / (T1 * (nu1 - 2)) * s1[i, j])
    m2, c2 = S.ok(S.call(M.moments.posterior_moments_niw, **kw))
    S.eq("posterior_moments_niw mean", m2, mu1)
    S.eq("posterior_moments_niw covariance", c2, ce)
    m3, c3, u3 = S.ok(S.call(M.moments.posterior_moments_niw_with_uncertainty, **kw))
    S.eq("with_uncertainty mean", m3, mu1)
    S.eq("with_uncertainty covariance", c3, ce)
    S.eq("with_uncertainty scatter", u3, sm)
    b = S.ok(S.call(M.bayesian.RobustBayesPosterior.from_niw, **kw))
    S.eq("bundle mean", b.mu, mu1)
    S.eq("bundle covariance", b.sigma, ce)
    S.eq("bundle scatter", b.s_mu, sm)
    S.eq("recovered scale matrix", S.ok(S.call(lambda: b.sigma1)), s1)
    p = S.real("p", lo=0, hi=1, lo_strict=True, hi_strict=True, gen=lambda r: r.uniform(.05, .95))
    q, qs, gm, cs = radii(S, T1, nu1, n, p, p)
    S.assume(S.all([q >= 0, qs >= 0]))
    S.eq("mean radius", S.ok(S.call(b.cred_radius_mu, p)), gm)
    S.eq("covariance factor", S.ok(S.call(b.cred_radius_sigma_factor, p)), cs)
    h = S.real("h", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.5, 1., 4., 12.])))
    S.eq("log-return uncertainty scales with the squared horizon", S.ok(S.call(b.mean_uncertainty_cov_log, annualization_factor=h)), S.build((n, n), lambda i, j: h * h * sm[i, j]))


@contract("C09", funcs=[B + "RobustBayesPosterior.mean_uncertainty_cov_simple"], modes="PC", dims={"n": [2]}, cdims={"n": [8, 25]}, samples=24, cfgs=[{"exact": e} for e in (0, 1)])
def all_sizes_simple(S, M, exact):
    n = S.dim("n")
    mu, sg, sm = S.vec("mu", n, gen=lambda r: .1 * r.normal()), S.spd("sg", n), S.spd("sm", n)
    h = S.real("h", lo=0, lo_strict=True, gen=lambda r: float(r.choice([.5, 1., 4., 12.])))
    b = M.bayesian.RobustBayesPosterior(mu=mu.copy(), sigma=sg.copy(), s_mu=sm.copy())
    J = S.build((n,), lambda i: S.exp(mu[i] * h + (sg[i, i] * h / 2 if exact else 0)))
    S.eq("delta-method covariance in simple returns", S.ok(S.call(b.mean_uncertainty_cov_simple, annualization_factor=h, **({"exact": True} if exact else {}))),
         S.build((n, n), lambda i, j: J[i] * J[j] * h * h * sm[i, j]), tol=1e-9)
