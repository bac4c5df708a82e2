"""C02 scenario probabilities."""
from ..spec import contract


@contract("C02", funcs=["probabilities.normalize_probability_vector"], dims={"n": [1, 2, 3, 4]}, quick_dims={"n": [1, 2, 3]},
          cfgs=[{"strict": False}, {"strict": True}], modes="PFC")
def normalise(S, M, strict):
    n = S.dim("n")
    p = S.vec("p", n, gen=lambda r: max(0.0, r.normal() * 0.4 + 0.4) if r.random() < 0.9 else -0.1)
    out = S.call(M.probabilities.normalize_probability_vector, p, strictly_positive=strict)
    tot = S.total(p)
    good = S.all([S.forall(p, lambda v: v > 0 if strict else v >= 0), tot > 0])
    if S.cond(good):
        q = S.ok(out, "a valid vector is accepted")
        S.true("result is non-negative", S.forall(q, lambda v: v >= 0))
        S.eq_shape("length kept", q, (n,))
        # the code leaves a vector untouched whose sum is one up to np.isclose
        if S.cond(S.all([tot - 1 <= S.const("0.0000101"), 1 - tot <= S.const("0.0000101")])):
            t2 = S.total(q)
            S.le("sum within np.isclose of one", S.absval(t2 - 1), S.const("0.0000102"))
        else:
            S.eq("sums to one", S.total(q), 1)
        S.eq("proportional to the input", q * tot, p * S.total(q))
    else:
        S.raises(out, ValueError, "an invalid vector is refused")


@contract("C02", funcs=["probabilities.resolve_probabilities"], dims={"n": [1, 2, 3], "m": [1, 2, 3]}, modes="PFC",
          cfgs=[{"given": True, "strict": 0}, {"given": True, "strict": 1}, {"given": False, "strict": 0}])
def resolve(S, M, given, strict):
    n, m = S.dim("n"), S.dim("m")
    p = S.vec("p", m, lo=0, gen=lambda r: r.random() + 2. if r.random() < .8 else 0.) if given else None
    if given:
        S.assume(S.total(p) > S.const("2"))
    out = S.call(M.probabilities.resolve_probabilities, p, n, **({"strictly_positive": True} if strict else {}))
    if not given:
        q = S.ok(out)
        S.eq("uniform when absent", q, S.build((n,), lambda i: S.lit(1) / n))
    elif n != m:
        S.raises(out, ValueError, "wrong length refused")
    elif strict and S.cond(S.some(m, lambda i: p[i] <= 0)):
        S.raises(out, ValueError, "a zero probability is refused when strict positivity is asked for")
    else:
        q = S.ok(out)
        S.eq("normalised", q, S.build((n,), lambda i: p[i] / S.total(p)))


@contract("C02", funcs=["probabilities.generate_uniform_probabilities"], dims={"n": [1, 2, 3, 5, 8]}, modes="PFC")
def uniform(S, M):
    n = S.dim("n")
    q = S.ok(S.call(M.probabilities.generate_uniform_probabilities, n))
    S.eq_shape("length", q, (n,))
    S.true("constant 1/n", S.forall(q, lambda v: S.close(v * n, 1)))
    S.eq("sums to one", S.total(q), 1)


@contract("C02", funcs=["probabilities.generate_exp_decay_probabilities"], dims={"n": [1, 2, 3, 5]}, modes="PFC")
def exp_decay(S, M):
    n = S.dim("n")
    hl = S.real("hl", gen=lambda r: r.choice([-1.0, 0.0, 0.7, 2.0, 5.0]) if r.random() < .5 else 0.3 + 4 * r.random())
    out = S.call(M.probabilities.generate_exp_decay_probabilities, n, hl)
    if S.cond(hl <= 0):
        S.raises(out, ValueError, "non-positive half-life refused")
        return
    q = S.ok(out)
    S.eq_shape("length", q, (n,))
    S.eq("sums to one", S.total(q), 1)
    i = S.index("i", n)
    S.true("positive", q[i] > 0)
    if S.cond(i + 1 < n):
        S.eq("one step back decays by 2^(-1/half_life)", q[i], q[i + 1] * S.exp(-S.log(S.const(2)) / hl))


@contract("C02", funcs=["probabilities.generate_gaussian_kernel_probabilities"], dims={"n": [1, 2, 3], "m": [2, 3]}, modes="PFC",
          cfgs=[{"v": a, "x0": b} for a in (0, 1) for b in (0, 1)])
def gauss_kernel(S, M, v, x0):
    n, m = S.dim("n"), S.dim("m")
    x = S.vec("x", m)
    vv = S.vec("v", n) if v else None
    h = S.real("h", gen=lambda r: r.choice([-1.0, 0.0]) if r.random() < .2 else 0.3 + 2 * r.random())
    c = S.real("c") if x0 else None
    out = S.call(M.probabilities.generate_gaussian_kernel_probabilities, x, vv, h, c)
    if S.cond(h <= 0):
        S.raises(out, ValueError, "non-positive bandwidth refused")
        return
    q = S.ok(out)
    pts = vv if v else x
    centre = c if x0 else x[m - 1]
    N = n if v else m
    S.eq_shape("length", q, (N,))
    S.eq("sums to one", S.total(q), 1)
    i, j = S.index("i", N), S.index("j", N)
    k = lambda t: S.exp(-(pts[t] - centre) * (pts[t] - centre) / (2 * h * h))
    S.eq("proportional to the Gaussian kernel", q[i] * k(j), q[j] * k(i))
    S.true("non-negative", q[i] >= 0)


@contract("C02", funcs=["probabilities.silverman_bandwidth", "probabilities.generate_gaussian_kernel_probabilities"], dims={"n": [2, 3, 5]}, modes="PFC")
def silverman(S, M):
    n = S.dim("n", 2)
    x = S.vec("x", n)
    if not S.P:
        S.assume(S.some(n, lambda i: S.neg(x[i] == x[0])))
    m = S.total(x) / n
    sd = S.sqrt(S.sigma(n, lambda i: (x[i] - m) * (x[i] - m)) / (n - 1))
    if S.P:
        S.assume(sd > 0)
    out = S.ok(S.call(M.probabilities.silverman_bandwidth, x))
    S.eq("1.06 * s * n^(-1/5)", out * ((n if S.P else S.const(n)) ** S.const("0.2")), S.const("1.06") * sd)
    q = S.ok(S.call(M.probabilities.generate_gaussian_kernel_probabilities, x))
    q2 = S.ok(S.call(M.probabilities.generate_gaussian_kernel_probabilities, x, None, out, x[n - 1]))
    S.eq("defaults are Silverman bandwidth and newest observation", q, q2)


@contract("C02", funcs=["probabilities.compute_effective_number_scenarios", "probabilities.compute_effective_number_scenarios_hhi"],
          dims={"n": [1, 2, 3, 4]}, modes="PFC", cfgs=[{"zeros": 0}, {"zeros": 1}])
def ens(S, M, zeros):
    n = S.dim("n")
    if S.P:
        q = S.prob("p", n, strict=not zeros)
        e = S.ok(S.call(M.probabilities.compute_effective_number_scenarios, q.copy()))
        S.eq("exp of entropy", e, S.exp(-S.sigma(n, lambda t: S.where(q[t] > 0, q[t] * S.log(q[t]), 0))))
        e2 = S.ok(S.call(M.probabilities.compute_effective_number_scenarios_hhi, q.copy()))
        S.eq("inverse sum of squares", e2 * S.sigma(n, lambda t: q[t] * q[t]), 1)
        return
    p = S.prob("p", n)
    if zeros:
        q = S.np.concatenate([p, S.arr([S.const(0)])])
    else:
        q = p
    e = S.ok(S.call(M.probabilities.compute_effective_number_scenarios, q))
    S.eq("exp of entropy", e, S.exp(-S.sum([v * S.log(v) for v in p])))
    e2 = S.ok(S.call(M.probabilities.compute_effective_number_scenarios_hhi, q))
    S.eq("inverse sum of squares", e2 * S.sum([v * v for v in p]), 1)


@contract("C02", funcs=["probabilities.normalize_probability_vector", "probabilities.resolve_probabilities",
                        "probabilities.generate_uniform_probabilities"], modes="FC",
          cfgs=[{"bad": b} for b in ("empty", "nan", "inf", "neg", "zero", "count0")])
def refused(S, M, bad):
    P = M.probabilities
    a = S.real("a", lo_strict=0)
    nan, inf = float("nan"), float("inf")
    if bad == "count0":
        S.raises(S.call(P.generate_uniform_probabilities, 0), ValueError)
        S.raises(S.call(P.generate_uniform_probabilities, -2), ValueError)
        S.raises(S.call(P.resolve_probabilities, None, 0), ValueError)
        return
    v = {"empty": [], "nan": [a, nan], "inf": [a, inf], "neg": [a + 1, -a], "zero": [S.const(0), S.const(0)]}[bad]
    S.raises(S.call(P.normalize_probability_vector, v), ValueError)
    S.raises(S.call(P.normalize_probability_vector, S.np.array(v)), ValueError)
    S.raises(S.call(P.resolve_probabilities, v, len(v)), ValueError)
