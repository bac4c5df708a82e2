"""C01 constraint compilation: compiled system <=> declarations, for every weight vector."""
from ..spec import contract

KINDS_B = ["none", "tuple", "tuple_lo", "tuple_hi", "dict", "dict_part", "list", "list_part"]
CF = []
for b in KINDS_B:
    for lo in (0, 1):
        CF.append({"long": lo, "b": b, "rel": 0, "grp": 0, "exG": 0, "exA": 0, "tot": 1})
for r, g, G, A, t in ((1, 0, 0, 0, 1), (2, 0, 0, 0, 1), (0, 1, 0, 0, 1), (0, 2, 0, 0, 1), (0, 0, 1, 0, 1), (0, 0, 2, 0, 0), (0, 0, 0, 1, 1),
                      (0, 0, 0, 2, 0), (1, 1, 1, 1, 1), (2, 2, 0, 2, 0)):
    CF.append({"long": 1, "b": "tuple", "rel": r, "grp": g, "exG": G, "exA": A, "tot": t})
    CF.append({"long": 0, "b": "dict_part", "rel": r, "grp": g, "exG": G, "exA": A, "tot": t})


def declare(S, n, long, b, rel, grp, exG, exA, tot):
    """Declaration (kwargs) and its meaning as rows (ineq, eq): (coefficients, rhs)."""
    kw, ineq, eq = {"long_only": bool(long)}, [], []
    e = lambda i, s=1: [s if k == i else 0 for k in range(n)]
    if long:
        ineq += [(e(i, -1), 0) for i in range(n)]

    def pair(tag, lo=True, hi=True):
        l = S.real("l" + tag, gen=lambda r: r.normal() * .3) if lo else None
        u = None
        if hi:
            u = S.real("u" + tag, gen=lambda r: .4 + abs(r.normal()) * .5)
        if lo and hi:
            S.assume(l <= u)
        return l, u

    def box(i, l, u):
        if l is not None:
            ineq.append((e(i, -1), -l))
        if u is not None:
            ineq.append((e(i), u))
    if b.startswith("tuple"):
        l, u = pair("", b != "tuple_hi", b != "tuple_lo")
        kw["bounds"] = (l, u)
        for i in range(n):
            box(i, l, u)
    elif b.startswith("dict"):
        part = b == "dict_part"
        d = {}
        for i in range(n):
            if part and i == 1:
                continue
            l, u = pair(str(i), not (part and i == 0), not (part and i == 2))
            d[i] = (l, u) if i % 2 == 0 else [l, u]
            box(i, l, u)
        kw["bounds"] = d
    elif b.startswith("list"):
        part = b == "list_part"
        L = []
        for i in range(n):
            l, u = pair(str(i), not (part and i == 0), not (part and i == n - 1))
            L.append((l, u))
            box(i, l, u)
        kw["bounds"] = L
    if rel:
        R = []
        for t in range(rel):
            i, j = (0, n - 1) if t == 0 else (n - 1, 1 % n)
            if i == j:
                continue
            k = S.real(f"k{t}")
            R.append((i, j, k))
            row = [0] * n
            row[i], row[j] = 1, -1
            ineq.append((row, k))
        kw["relative_bounds"] = R
    if grp:
        g = {}
        for t in range(grp):
            idx = list(range(0, n, 2)) if t == 0 else [n - 1]
            lo, hi = S.real(f"glo{t}", gen=lambda r: r.normal() * .3), S.real(f"ghi{t}", gen=lambda r: .5 + abs(r.normal()))
            S.assume(lo <= hi)
            g[f"g{t}"] = (idx, lo, hi)
            row = [1 if i in idx else 0 for i in range(n)]
            ineq.append((row, hi))
            ineq.append(([-v for v in row], -lo))
        kw["group_constraints"] = g
    if exG:
        X = []
        for t in range(exG):
            row, rhs = S.vec(f"eg{t}", n), S.real(f"eh{t}")
            X.append((row if t else list(row), rhs))
            ineq.append((list(row), rhs))
        kw["additional_G_h"] = X
    if tot:
        B = S.real("total", gen=lambda r: r.choice([1.0, 1.0, .5, 0.0, -1.0, 2.0]))
        kw["total_weight"] = B
        eq.append(([1] * n, B))
    else:
        kw["total_weight"] = None
    if exA:
        X = []
        for t in range(exA):
            row, rhs = S.vec(f"ea{t}", n), S.real(f"eb{t}")
            X.append((list(row) if t else row, rhs))
            eq.append((list(row), rhs))
        kw["additional_A_b"] = X
    return kw, ineq, eq


def rows_of(S, name, M, v, n):
    """(matrix, vector) -> list of (row, rhs); absent = no rows."""
    if M is None or v is None:
        S.true(f"{name}: both parts present or both absent", M is None and v is None)
        return []
    S.true(f"{name}: as many right-hand sides as rows", len(M.shape) == 2 and M.shape[1] == n and tuple(v.shape) == (M.shape[0],),
           f"{M.shape} {v.shape}")
    S.true(f"{name}: real-valued arrays, as the solvers require", M.dtype.kind in "fO" and v.dtype.kind in "fO", f"{M.dtype} {v.dtype}")
    return [([M[i, j] for j in range(n)], v[i]) for i in range(M.shape[0])]


def slack(row, rhs, w):
    return rhs - sum((row[j] * w[j] for j in range(len(w))), 0 * w[0])


def point(S, n, eq):
    """Arbitrary weight vector; concretely drawn so that the equalities are met half of the time."""
    if S.symbolic:
        return S.vec("w", n)
    import numpy as np
    w = np.array([S.real(f"w_{i}", gen=lambda r: r.normal() * .6 + .3) for i in range(n)])
    if eq and "w_0" not in S.vals and S.rng.random() < .7:
        A = np.array([r for r, _ in eq], dtype=float)
        b = np.array([float(v) for _, v in eq])
        w = w - np.linalg.pinv(A) @ (A @ w - b)
    return w


def feasible(S, ineq, eq, w):
    if S.symbolic:
        return S.all([slack(r, v, w) >= 0 for r, v in ineq] + [slack(r, v, w) == 0 for r, v in eq])
    ok = True
    for r, v in ineq:
        s = float(slack(r, v, w))
        if abs(s) < 1e-9:
            continue
        ok = ok and s >= 0
    for r, v in eq:
        ok = ok and abs(float(slack(r, v, w))) <= 1e-8 * (1 + abs(float(v)))
    return ok


def same_set(S, got, ineq, eq, n):
    G, h, A, b = got
    gi, ge = rows_of(S, "inequalities", G, h, n), rows_of(S, "equalities", A, b, n)
    w = point(S, n, eq)
    want, have = feasible(S, ineq, eq, w), feasible(S, gi, ge, w)
    S.true("every declared-feasible weight vector satisfies the compiled system", S.implies(want, have))
    if S.symbolic:
        for t, (r, v) in enumerate(ineq):
            S.true("the compiled system enforces every declared inequality", S.implies(have, slack(r, v, w) >= 0))
        for t, (r, v) in enumerate(eq):
            S.true("the compiled system enforces every declared equality", S.implies(have, slack(r, v, w) == 0))
    else:
        S.true("the compiled system enforces every declaration", (not have) or want, f"w={w} satisfies compiled rows but not the declaration")


@contract("C01", funcs=["utils.constraints.build_G_h_A_b"], dims={"n": [1, 2, 3, 4]}, quick_dims={"n": [2, 3]}, cfgs=CF, modes="FC", samples=400)
def compile_system(S, M, **c):
    n = S.dim("n")
    kw, ineq, eq = declare(S, n, **c)
    got = S.ok(S.call(M.utils__constraints.build_G_h_A_b, n, **kw), "well-formed declarations are accepted")
    same_set(S, got, ineq, eq, n)


@contract("C01", funcs=["utils.constraints.Constraints.to_matrices", "utils.constraints.Constraints.from_dict"], dims={"n": [3]},
          cfgs=[c for c in CF if c["exA"] == c["exG"]], modes="FC", samples=120)
def declaration_forms_agree(S, M, **c):
    n = S.dim("n")
    kw, ineq, eq = declare(S, n, **c)
    C = M.utils__constraints.Constraints
    obj = C(**kw)
    same_set(S, S.ok(S.call(obj.to_matrices, n)), ineq, eq, n)
    d = dict(kw)
    d["unrelated_key"] = 1
    o2 = S.ok(S.call(C.from_dict, d))
    same_set(S, S.ok(S.call(o2.to_matrices, n)), ineq, eq, n)
    dd = C()
    same_set(S, S.ok(S.call(dd.to_matrices, n)), [([-1 if k == i else 0 for k in range(n)], 0) for i in range(n)], [([1] * n, 1)], n)


INTS = {"tuple": dict(bounds=(0, 1)), "dict": dict(bounds={0: (0, 1), 1: (-1, 2)}), "list": dict(bounds=[(0, 1), (0, 1), (None, 2)]),
        "extra": dict(additional_G_h=[([1, 2, 3], 4)], additional_A_b=[([1, 0, 1], 1)], total_weight=1),
        "rel": dict(relative_bounds=[(0, 1, 2)], total_weight=2), "grp": dict(group_constraints={"a": ([0, 1], 0, 1)})}


@contract("C01", funcs=["utils.constraints.build_G_h_A_b"], cfgs=[{"k": k, "long": b} for k in INTS for b in (0, 1)], modes="FC", samples=60)
def integer_limits(S, M, k, long):
    """Limits written as Python integers mean the same numbers."""
    n = 3
    kw = dict(INTS[k])
    f = lambda v: None if v is None else float(v)
    fl = {}
    if "bounds" in kw:
        b = kw["bounds"]
        fl["bounds"] = tuple(map(f, b)) if isinstance(b, tuple) else {i: tuple(map(f, v)) for i, v in b.items()} if isinstance(b, dict) else [tuple(map(f, v)) for v in b]
    ineq, eq = [], []
    e = lambda i, s=1: [s if t == i else 0 for t in range(n)]
    if long:
        ineq += [(e(i, -1), 0) for i in range(n)]
    if k in ("tuple", "dict", "list"):
        b = kw["bounds"]
        items = [(i, b) for i in range(n)] if k == "tuple" else list(b.items()) if k == "dict" else list(enumerate(b))
        for i, (l, u) in items:
            if l is not None:
                ineq.append((e(i, -1), -l))
            if u is not None:
                ineq.append((e(i), u))
    elif k == "extra":
        ineq.append(([1, 2, 3], 4))
    elif k == "rel":
        ineq.append(([1, -1, 0], 2))
    else:
        ineq += [([1, 1, 0], 1), ([-1, -1, 0], 0)]
    eq.append(([1] * n, kw.get("total_weight", 1)))
    if k == "extra":
        eq.append(([1, 0, 1], 1))
    got = S.ok(S.call(M.utils__constraints.build_G_h_A_b, n, long_only=bool(long), **kw))
    same_set(S, got, ineq, eq, n)


def bad_cases(S):
    nan, inf = float("nan"), float("inf")
    a = S.real("a", gen=lambda r: r.normal())
    d = S.real("d", lo_strict=0, gen=lambda r: abs(r.normal()) + .01)
    r3 = [S.real(f"r{i}") for i in range(3)]
    return {
        "dict_oob": dict(bounds={3: (a, a + d)}), "dict_neg": dict(bounds={-1: (a, a + d)}), "dict_len": dict(bounds={0: (a, a + d, a)}),
        "dict_order": dict(bounds={1: (a + d, a)}), "dict_nan": dict(bounds={0: (nan, a)}), "dict_inf": dict(bounds={0: (a, inf)}),
        "dict_str": dict(bounds={0: ("x", a)}),
        "tuple_order": dict(bounds=(a + d, a)), "tuple_len": dict(bounds=(a, a + d, a + d)), "tuple_nan": dict(bounds=(a, nan)),
        "tuple_inf": dict(bounds=(-inf, a)), "tuple_str": dict(bounds=("0", a)), "tuple_hi_nan": dict(bounds=(None, nan)),
        "list_short": dict(bounds=[(a, a + d)] * 2), "list_long": dict(bounds=[(a, a + d)] * 4), "list_order": dict(bounds=[(a, a + d), (a + d, a), (a, a + d)]),
        "list_nan": dict(bounds=[(a, a + d), (a, a + d), (nan, a)]), "list_str": dict(bounds=[(a, a + d), ("x", a + d), (a, a + d)]),
        "rel_oob": dict(relative_bounds=[(0, 3, a)]), "rel_neg": dict(relative_bounds=[(-1, 0, a)]), "rel_self": dict(relative_bounds=[(1, 1, d)]),
        "rel_len": dict(relative_bounds=[(0, 1)]), "rel_nan": dict(relative_bounds=[(0, 1, nan)]), "rel_str": dict(relative_bounds=[(0, 1, "x")]),
        "rel_second": dict(relative_bounds=[(0, 1, a), (2, 5, a)]), "rel_oob_i": dict(relative_bounds=[(3, 0, a)]), "rel_neg_j": dict(relative_bounds=[(0, -2, a)]),
        "grp_oob": dict(group_constraints={"g": ([0, 3], a, a + d)}), "grp_neg": dict(group_constraints={"g": ([0, -1], a, a + d)}),
        "grp_order": dict(group_constraints={"g": ([0, 1], a + d, a)}), "grp_nan": dict(group_constraints={"g": ([0], nan, a)}),
        "grp_inf": dict(group_constraints={"g": ([0], a, inf)}), "grp_second": dict(group_constraints={"g": ([0], a, a + d), "k": ([7], a, a + d)}),
        "G_short": dict(additional_G_h=[(r3[:2], a)]), "G_long": dict(additional_G_h=[(r3 + [a], a)]), "G_nan": dict(additional_G_h=[(r3, nan)]),
        "G_str": dict(additional_G_h=[(r3, "x")]), "G_second": dict(additional_G_h=[(r3, a), (r3[:1], a)]),
        "A_short": dict(additional_A_b=[(r3[:2], a)]), "A_long": dict(additional_A_b=[(r3 + [a], a)]), "A_nan": dict(additional_A_b=[(r3, nan)]),
        "A_inf": dict(additional_A_b=[(r3, inf)]), "A_second": dict(additional_A_b=[(r3, a), (r3[:1], a)]),
        "tot_nan": dict(total_weight=nan), "tot_inf": dict(total_weight=inf), "tot_str": dict(total_weight="1"),
        "n_zero": dict(n=0), "n_neg": dict(n=-2), "n_float": dict(n=2.5),
    }


class _Names:
    def real(self, *a, **k):
        return 0.5


@contract("C01", funcs=["utils.constraints.build_G_h_A_b", "utils.constraints._check_number"], modes="FC", samples=150,
          cfgs=[{"bad": k, "long": l} for k in bad_cases(_Names()) for l in (0, 1)])
def malformed(S, M, bad, long):
    kw = dict(bad_cases(S)[bad])
    n = kw.pop("n", 3)
    S.raises(S.call(M.utils__constraints.build_G_h_A_b, n, long_only=bool(long), **kw), (ValueError, TypeError, IndexError), "malformed declaration refused")


@contract("C01", funcs=["utils.constraints.build_G_h_A_b"], cfgs=[{"none": 0}, {"none": 1}], modes="FC", samples=20)
def unconstrained(S, M, none):
    got = S.ok(S.call(M.utils__constraints.build_G_h_A_b, 3, long_only=False, total_weight=None, return_none_if_empty=bool(none)))
    if none:
        S.true("nothing declared compiles to nothing", all(v is None for v in got))
    else:
        S.true("nothing declared compiles to empty systems", got[0].shape == (0, 3) and got[1].shape == (0,) and got[2].shape == (0, 3) and got[3].shape == (0,))
