"""C16 discrete allocation: whole lots, never overspent, and the report describes exactly what was bought."""
import itertools
import numpy as np
from ..spec import contract, Reject

NAMES = ["B", "A", "C", "D", "E"]
DA = "discrete_allocation."


def pgen(r):
    return float(r.choice([r.integers(1, 400) / 4, r.integers(1, 60), r.random() * 50 + .01]))


def wgen(r):
    return float(r.choice([r.random() + .01, r.integers(1, 5)], p=[.7, .3]))


def box(S, vals, labels, kind, o):
    v = [vals[i] for i in o]
    l = [labels[i] for i in o]
    return dict(zip(l, v)) if kind == "dict" else S.pd.Series(S.arr(v), index=l)


def data(S, n, lots=True, signs=None, maxlot=6):
    w = [S.real(f"w{i}", lo_strict=0, gen=wgen) * (1 if signs is None else signs[i]) for i in range(n)]
    p = [S.real(f"p{i}", lo_strict=0, gen=pgen) for i in range(n)]
    k = [S.integer(f"lot{i}", lo=1, gen=lambda r: int(r.choice([1, 1, 1, 2, 5, maxlot]))) if lots else 1 for i in range(n)]
    V = S.real("V", lo_strict=0, gen=lambda r: float(r.choice([r.integers(50, 3000), r.random() * 900 + 20, r.integers(1, 40)])))
    return w, p, k, V


def whole(S, name, x, lot):
    """x is an integer multiple of lot"""
    if S.symbolic:
        from .. import term as tm
        q = tm.lift(x) / lot
        S.eq(name, tm.floor(q), q)
    else:
        S.true(name, abs(x / lot - round(x / lot)) < 1e-12 and float(x) == int(x))


def reported(S, res, tw, p, k, V, labels, long_only=True):
    """the result describes one position: lots, cash, achieved weights and tracking error all follow from res.shares"""
    n = len(p)
    sh = [res.shares.get(l, 0) for l in labels]
    S.true("only assets of the target are held", set(res.shares) <= set(labels))
    spent = sum((s * q for s, q in zip(sh, p)), 0 * p[0])
    for i in range(n):
        whole(S, "an integer multiple of the lot size", sh[i], k[i])
        if labels[i] in res.shares:
            S.true("only non-zero holdings are listed", S.any([sh[i] < 0, sh[i] > 0]))
        if long_only:
            S.true("no short position for a long-only target", sh[i] >= 0)
        S.eq("achieved weight: market value over total value", res.achieved_weights[labels[i]], sh[i] * p[i] / V, tol=1e-9)
    e = S.const("0.00000001") if S.symbolic else 1e-8 * (1 + V)
    S.true("never more than the available value is spent", spent <= V + e)
    S.true("leftover cash is not negative", res.leftover_cash >= 0)
    S.true("leftover cash plus market value is the total value", S.all([res.leftover_cash + spent - V <= e, res.leftover_cash + spent - V >= -e]))
    S.eq("tracking error: total absolute difference from the normalised targets", res.tracking_error, sum((S.absval(tw[i] - sh[i] * p[i] / V) for i in range(n)), 0 * V), tol=1e-9)
    S.true("achieved weights cover the targets", sorted(res.achieved_weights.index) == sorted(labels))


def targets(S, w):
    t = sum(w[1:], w[0])
    return [x / t for x in w]


# ------------------------------------------------------------------------------------------------ inputs
@contract("C16", funcs=[DA + "DiscreteAllocationInput.__post_init__", DA + "_to_series", DA + "_lot_sizes_to_series"], dims={"n": [1, 2, 3]}, cdims={"n": [4]}, samples=60, max_paths=1500,
          cfgs=[{"kw": a, "kp": b, "kl": c} for a, b in (("dict", "dict"), ("series", "series"), ("dict", "series")) for c in ("none", "dict", "series", "partial")])
def inputs(S, M, kw, kp, kl):
    n = S.dim("n")
    w, p, k, V = data(S, n)
    z = [S.integer(f"z{i}", lo=0, hi=1, gen=lambda r: int(r.random() < .2)) for i in range(n)]         # some targets are exactly zero
    on = [not S.cond(z[i] >= 1) for i in range(n)]
    wv = [w[i] if on[i] else w[i] * 0 for i in range(n)]
    if S.symbolic:
        S.assume(S.all([v > S.const("0.0000001") for v in w]))
    o1, o2 = list(range(n)), list(range(n))[::-1]
    a, b = box(S, wv, NAMES, kw, o1), box(S, list(p) + [S.lit(7)], NAMES, kp, [n] + o2)
    lots = None if kl == "none" else box(S, k, NAMES, "dict" if kl == "dict" else "series", [0] if kl == "partial" else o2)
    out = S.call(M.discrete_allocation.DiscreteAllocationInput, weights=a, latest_prices=b, total_value=V, lot_sizes=lots)
    if not any(on):
        S.raises(out, ValueError, "targets that are all zero are refused")
        return
    x = S.ok(out)
    lab = [NAMES[i] for i in range(n) if on[i]]
    tw = targets(S, [w[i] for i in range(n) if on[i]])
    S.true("one entry per non-zero target, one order throughout", list(x.weights.index) == lab and list(x.latest_prices.index) == lab and list(x.lot_sizes.index) == lab and list(x.asset_names) == lab)
    S.eq("targets are normalised", x.weights.to_numpy(), S.arr(tw), tol=1e-12)
    S.eq("each asset's own price", x.latest_prices.to_numpy(), S.arr([p[i] for i in range(n) if on[i]]), tol=0)
    want = [(1 if kl == "none" or (kl == "partial" and i > 0) else k[i]) for i in range(n) if on[i]]
    S.eq("each asset's own lot size, one by default", x.lot_sizes.to_numpy(), S.arr(want), tol=0)
    S.true("long-only targets are recognised", x._has_shorts is False or x._has_shorts == False)       # noqa: E712
    S.true("caller's targets left alone", list(a.keys()) == [NAMES[i] for i in o1])
    S.eq("caller's target values left alone", [a[NAMES[i]] for i in range(n)], wv, tol=0)


NAN, INF = float("nan"), float("inf")
BAD = {
    "missing price": ({"A": 1., "B": 1.}, {"A": 1.}, 10., None), "zero price": ({"A": 1.}, {"A": 0.}, 10., None), "negative price": ({"A": .5, "B": .5}, {"A": 1., "B": -1.}, 10., None),
    "nan price": ({"A": .5, "B": .5}, {"A": 1., "B": NAN}, 10., None), "infinite price": ({"A": .5, "B": .5}, {"A": 1., "B": INF}, 10., None),
    "zero value": ({"A": 1.}, {"A": 1.}, 0., None), "negative value": ({"A": 1.}, {"A": 1.}, -5., None), "nan value": ({"A": 1.}, {"A": 1.}, NAN, None), "infinite value": ({"A": 1.}, {"A": 1.}, INF, None),
    "zero lot": ({"A": 1.}, {"A": 1.}, 10., {"A": 0}), "negative lot": ({"A": 1., "B": 1.}, {"A": 1., "B": 1.}, 10., {"B": -2}), "fractional lot": ({"A": 1.}, {"A": 1.}, 10., {"A": 2.5}), "infinite lot": ({"A": 1.}, {"A": 1.}, 10., {"A": INF}),
    "no targets": ({}, {"A": 1.}, 10., None), "zero targets": ({"A": 0., "B": 0.}, {"A": 1., "B": 1.}, 10., None), "net zero": ({"A": 1., "B": -1.}, {"A": 1., "B": 1.}, 10., None),
    "net negative": ({"A": 1., "B": -2.}, {"A": 1., "B": 1.}, 10., None), "nan target": ({"A": 1., "B": NAN}, {"A": 1., "B": 1.}, 10., None), "infinite target": ({"A": 1., "B": INF}, {"A": 1., "B": 1.}, 10., None),
    "no prices": ({"A": 1.}, {}, 10., None),
}


@contract("C16", funcs=[DA + "DiscreteAllocationInput.__post_init__", DA + "_to_series", DA + "_lot_sizes_to_series", DA + "discretize_weights"], samples=1,
          cfgs=[{"case": c, "k": k} for c in BAD for k in ("dict", "series")] + [{"case": c, "k": "series"} for c in ("repeated target", "repeated price", "repeated lot", "list", "method")])
def refused(S, M, case, k):
    D = M.discrete_allocation
    Se = S.pd.Series
    if case in BAD:
        w, p, V, l = BAD[case]
        f = (lambda d: d if d is None or k == "dict" else Se(list(d.values()), index=list(d), dtype=float))
        a = (f(w), f(p), V)
        out = S.call(D.DiscreteAllocationInput, *a, lot_sizes=f(l))
        S.raises(out, (ValueError, OverflowError), "refused: " + case)
        for m in ("greedy", "milp"):
            S.raises(S.call(D.discretize_weights, *a, lot_sizes=f(l), method=m), (ValueError, OverflowError), f"refused by {m}: {case}")
        return
    one, two = Se([1.], index=["A"]), Se([.5, .5], index=["A", "A"])
    w, p, l, kw, exc = {"repeated target": (two, one, None, {}, ValueError), "repeated price": (one, two, None, {}, ValueError), "repeated lot": (one, one, Se([1, 1], index=["A", "A"]), {}, ValueError),
                        "list": ([1.], one, None, {}, TypeError), "method": (one, one, None, {"method": "magic"}, ValueError)}[case]
    S.raises(S.call(D.discretize_weights, w, p, 10., lot_sizes=l, **kw), exc, "refused: " + case)


# ------------------------------------------------------------------------------------------------ reporting
@contract("C16", funcs=[DA + "_build_result", DA + "DiscreteAllocationResult.as_series"], dims={"n": [1, 2]}, cdims={"n": [4]}, samples=60, cfgs=[{"o": o} for o in (0, 1)])
def report(S, M, o):
    """any position: the report is computed from it, and a position that costs more than the value is refused"""
    n = S.dim("n")
    w, p, k, V = data(S, n)
    if S.symbolic:
        S.assume(S.all([v > S.const("0.0000001") for v in w]))
    order = list(range(n))[::-1] if o else list(range(n))
    D = M.discrete_allocation
    inp = S.ok(S.call(D.DiscreteAllocationInput, box(S, w, NAMES, "series", range(n)), box(S, p, NAMES, "series", range(n)), V, box(S, k, NAMES, "series", range(n))))
    m = [S.integer(f"m{i}", gen=lambda r: int(r.integers(-2, 12))) for i in range(n)]
    pos = [m[i] * k[i] for i in range(n)]
    raw = S.pd.Series(S.arr([pos[i] for i in order]), index=[NAMES[i] for i in order])
    out = S.call(D._build_result, inp, raw if S.symbolic else raw.astype(int))
    spent = sum((s * q for s, q in zip(pos, p)), 0 * p[0])
    if S.cond(spent > V + (S.const("0.00000001") if S.symbolic else 1e-6 * (1 + V))):
        S.raises(out, RuntimeError, "a position that cannot be paid for is not reported")
        return
    if not S.symbolic and spent > V:
        raise Reject
    if out.exc is not None and S.symbolic:
        S.true("refused only when the value is exceeded", spent > V)
        return
    res = S.ok(out)
    for i in range(n):
        S.eq("the holdings of that position", res.shares.get(NAMES[i], 0), pos[i], tol=0)
    reported(S, res, targets(S, w), p, k, V, NAMES[:n], long_only=False)
    s = S.ok(S.call(res.as_series))
    S.true("series view lists the same assets", list(s.index) == list(res.shares))
    S.eq("series view holds the same counts", s.to_numpy(), S.arr(list(res.shares.values())), tol=0)


# ------------------------------------------------------------------------------------------------ greedy
def greedy_rule(S, w, p, k, V, labels):
    """loop invariant: every holding is a non-negative whole number of lots, cash is what is left of V and (but for 1e-12) not negative"""
    by = {l: i for i, l in enumerate(labels)}
    tol = S.const("0.000000000001") if S.symbolic else 1e-12

    def inv(S, env, where):
        sh, cash = env["shares"], env["available_cash"]
        S.true("loop: one holding per asset", sorted(sh.index) == sorted(labels))
        for l in labels:
            i = by[l]
            whole(S, f"loop: whole lots {where}", sh[l], k[i])
            S.true(f"loop: no negative holding {where}", sh[l] >= 0)
        S.eq(f"loop: cash plus cost is the total value {where}", cash + sum((sh[l] * p[by[l]] for l in labels), 0 * V), V)
        S.true(f"loop: only affordable lots were bought {where}", cash >= -tol)

    def havoc(S, env):
        order = list(env["shares"].index)
        m = {l: S.integer(f"h_{l}", lo=0) for l in order}
        cash = V - sum((m[l] * k[by[l]] * p[by[l]] for l in order), 0 * V)
        S.assume(cash >= -tol)
        un = set(l for l in order if S.cond(S.integer(f"u_{l}", lo=0, hi=1) >= 1))
        return {"shares": S.pd.Series(S.arr([m[l] * k[by[l]] for l in order]), index=order), "available_cash": cash, "iteration": S.integer("h_iter", lo=0),
                "unaffordable": un, "last_deficits": S.pd.Series(S.arr([S.real(f"d_{l}", lo=0) for l in order]), index=order), "terminated_via_break": False}
    return S.loop("allocate_greedy", ("shares", "available_cash"), inv, havoc)


@contract("C16", funcs=[DA + "allocate_greedy"], dims={"n": [1, 2, 3]}, quick_dims={"n": [1, 2]}, cdims={"n": [1, 3, 4]}, samples=60, max_paths=6000, time_limit=250.0, cbudget=20.0,
          cfgs=[{"mode": m, "it": i} for m in ("none", "auto") for i in (None, 3)])
def greedy(S, M, mode, it):
    """every iteration of the purchase loop, by invariant; the report of the final position is `report`'s contract"""
    n = S.dim("n")
    w, p, k, V = data(S, n)
    D = M.discrete_allocation
    if S.symbolic:
        S.assume(S.all([v > S.const("0.0000001") for v in w]))
        S.assume(S.all([w[i] >= w[i + 1] for i in range(n - 1)]))
    tw = targets(S, w)
    inp = S.ok(S.call(D.DiscreteAllocationInput, box(S, w, NAMES, "series", range(n)), box(S, p, NAMES, "series", range(n)), V, box(S, k, NAMES, "series", range(n))))
    called, built = [], []
    if S.symbolic:
        marker = object()
        S.stub(M, D.allocate_mip, lambda inputs, **kw: called.append((inputs, kw)) or marker)
        S.stub(M, D._build_result, lambda inputs, raw: built.append((inputs, raw)) or marker)
        greedy_rule(S, tw, p, k, V, NAMES[:n])
    res = S.ok(S.call(D.allocate_greedy, inp, it, fallback_mode=mode, fallback_kwargs={"cash_penalty": .5}))
    if called:
        S.true("the fallback gets the same inputs and its options, and its answer is returned", called == [(inp, {"cash_penalty": .5})] and res is marker and mode == "auto")
    elif built:
        S.true("one position is reported, for these inputs", len(built) == 1 and built[0][0] is inp and res is marker)
        sh = built[0][1]
        S.true("final position: one holding per asset", sorted(sh.index) == sorted(NAMES[:n]))
        for i, l in enumerate(NAMES[:n]):
            whole(S, "final position: whole lots", sh[l], k[i])
            S.true("final position: no negative holding", sh[l] >= 0)
        S.true("final position costs no more than the available value", sum((sh[l] * p[i] for i, l in enumerate(NAMES[:n])), 0 * V) <= V + S.const("0.000000000001"))
    else:
        reported(S, res, tw, p, k, V, NAMES[:n])


@contract("C16", funcs=[DA + "allocate_greedy"], dims={"n": [1, 2]}, quick_dims={"n": [1]}, cdims={"n": [2]}, samples=40, max_paths=4000, time_limit=100.0, cfgs=[{"mode": m, "it": i} for m in ("auto", "milp", "MILP", "none") for i in (0, 2)])
def fallback(S, M, mode, it):
    """a failing fallback is raised in mode 'milp' and otherwise the greedy position stands; 'none' never falls back"""
    n = S.dim("n")
    w, p, k, V = data(S, n)
    D = M.discrete_allocation
    if S.symbolic:
        S.assume(S.all([v > S.const("0.0000001") for v in w]))
        S.assume(S.all([w[i] >= w[i + 1] for i in range(n - 1)]))
    tw = targets(S, w)
    inp = S.ok(S.call(D.DiscreteAllocationInput, box(S, w, NAMES, "series", range(n)), box(S, p, NAMES, "series", range(n)), V, box(S, k, NAMES, "series", range(n))))
    calls = []

    def boom(*a, **kw):
        calls.append(1)
        raise RuntimeError("no answer")
    built = []
    marker = object()
    if S.symbolic:
        S.stub(M, D.allocate_mip, boom)
        S.stub(M, D._build_result, lambda inputs, raw: built.append(raw) or marker)
        greedy_rule(S, tw, p, k, V, NAMES[:n])
    else:
        S.spy(M, D.allocate_mip, boom)
    out = S.call(D.allocate_greedy, inp, it, fallback_mode=mode)
    if calls and mode.lower() == "milp":
        S.raises(out, RuntimeError, "the requested fallback's failure is reported")
        return
    S.true("mode none never falls back", mode != "none" or not calls)
    res = S.ok(out)
    if built:
        sh = built[0]
        for i, l in enumerate(NAMES[:n]):
            whole(S, "whole lots", sh[l], k[i])
            S.true("no negative holding", sh[l] >= 0)
        S.true("costs no more than the available value", sum((sh[l] * p[i] for i, l in enumerate(NAMES[:n])), 0 * V) <= V + S.const("0.000000000001"))
    else:
        reported(S, res, tw, p, k, V, NAMES[:n])


@contract("C16", funcs=[DA + "allocate_greedy"], cfgs=[{"case": c} for c in ("mode", "short", "short_kw")], samples=2)
def delegation(S, M, case):
    D = M.discrete_allocation
    seen = []
    S.spy(M, D.allocate_mip, lambda f, *a, **k: seen.append((a, k)) or "mip")
    inp = S.ok(S.call(D.DiscreteAllocationInput, {"A": 1.5, "B": -.5} if case != "mode" else {"A": 1.}, {"A": 2., "B": 3.}, 10.))
    S.true("shorts are recognised", bool(inp._has_shorts) == (case != "mode"))
    if case == "mode":
        S.raises(S.call(D.allocate_greedy, inp, fallback_mode="maybe"), ValueError, "unknown fallback mode refused")
        return
    kw = {"cash_penalty": .25} if case == "short_kw" else None
    out = S.ok(S.call(D.allocate_greedy, inp, fallback_kwargs=kw))
    S.true("targets with shorts go to the integer programme", out == "mip" and len(seen) == 1 and seen[0][0] == (inp,) and seen[0][1] == (kw or {}))


@contract("C16", funcs=[DA + "discretize_weights"], cfgs=[{"m": m} for m in ("greedy", "RoundDown", "milp", "MIP", "integer", "lp")], samples=5)
def routing(S, M, m):
    D = M.discrete_allocation
    seen = []
    S.spy(M, D.allocate_mip, lambda f, *a, **k: seen.append(("mip", a, k)) or "r")
    S.spy(M, D.allocate_greedy, lambda f, *a, **k: seen.append(("greedy", a, k)) or "r")
    w, p, k, V = data(S, 2)
    if S.symbolic:
        S.assume(S.all([v > S.const("0.0000001") for v in w]))
    kw = {"max_iterations": 4} if m.lower() in ("greedy", "rounddown") else {"cash_penalty": .3}
    out = S.ok(S.call(D.discretize_weights, box(S, w, NAMES, "dict", [0, 1]), box(S, p, NAMES, "dict", [1, 0]), V, method=m, lot_sizes=box(S, k, NAMES, "dict", [1, 0]), **kw))
    S.true("the named method answers", out == "r" and len(seen) == 1 and seen[0][0] == ("greedy" if "max_iterations" in kw else "mip") and seen[0][2] == kw)
    x = seen[0][1][0]
    S.eq("with the normalised targets", x.weights.to_numpy(), S.arr(targets(S, w)), tol=1e-12)
    S.eq("the prices", x.latest_prices.to_numpy(), S.arr(p), tol=0)
    S.eq("the lot sizes", x.lot_sizes.to_numpy(), S.arr(k), tol=0)
    S.eq("and the value", x.total_value, V, tol=0)


# ------------------------------------------------------------------------------------------------ integer programme
def rows(c):
    return c.A, c.lb, c.ub


def feasible(S, kw, z):
    """z satisfies the bounds and every linear constraint of the recorded programme"""
    out = []
    lo, hi = list(kw["bounds"].lb), list(kw["bounds"].ub)
    inf = lambda v: isinstance(v, (float, np.floating)) and np.isinf(v)
    for i, v in enumerate(z):
        out += [] if inf(lo[i]) else [v >= lo[i]]
        out += [] if inf(hi[i]) else [v <= hi[i]]
    for c in kw["constraints"] if isinstance(kw["constraints"], (list, tuple)) else [kw["constraints"]]:
        A, lb, ub = rows(c)
        for i in range(A.shape[0]):
            t = sum((A[i, j] * z[j] for j in range(len(z))), 0 * z[0])
            out += [] if inf(lb[i]) else [t >= lb[i]]
            out += [] if inf(ub[i]) else [t <= ub[i]]
    return out


class Answer:
    def __init__(self, x, success=True):
        self.x, self.success, self.status, self.message = x, success, 0 if success else 2, "x"


def mip_inputs(S, M, n, signs, maxlot=6):
    w, p, k, V = data(S, n, signs=signs, maxlot=maxlot)
    if S.symbolic:
        S.assume(S.all([S.absval(v) > S.const("0.0000001") for v in w] + [sum(w[1:], w[0]) > 0]))
    elif sum(w) <= .05:
        raise Reject
    D = M.discrete_allocation
    inp = S.ok(S.call(D.DiscreteAllocationInput, box(S, w, NAMES, "series", range(n)), box(S, p, NAMES, "series", range(n)), V, box(S, k, NAMES, "series", range(n))))
    return targets(S, w), p, k, V, inp


def deviation(S, m, c, t, V, pen):
    return sum((S.absval(m[i] * c[i] - t[i] * V) for i in range(len(m))), 0 * V) + pen * (V - sum((m[i] * c[i] for i in range(len(m))), 0 * V))


@contract("C16", funcs=[DA + "allocate_mip"], modes="F", dims={"n": [1, 2, 3]}, max_paths=3000, time_limit=150.0, cfgs=[{"signs": s, "cap": c} for s in ("+", "-") for c in (0, 1)])
def programme(S, M, signs, cap):
    """The integer programme handed to the solver: its feasible points are exactly the affordable whole-lot positions (with the cash cap, if any),
    and an optimal point's position has the least deviation plus penalised cash.  The solver is assumed to return an optimal feasible point."""
    n = S.dim("n")
    if n == 1 and signs == "-":
        raise Reject
    sg = [1] * n if signs == "+" else [1] * (n - 1) + [-1]
    t, p, k, V, inp = mip_inputs(S, M, n, sg)
    D = M.discrete_allocation
    pen = S.real("pen", lo=0)
    top = S.real("top", lo=0) if cap else None
    c = [p[i] * k[i] for i in range(n)]
    # any admissible position
    m = [S.integer(f"m{i}") for i in range(n)]
    spent = sum((m[i] * c[i] for i in range(n)), 0 * V)
    gross = V + sum((S.absval(x) * V for x in t), 0 * V)
    adm = [spent <= V] + ([V - spent <= top] if cap else []) + [m[i] >= 0 if sg[i] > 0 else m[i] <= 0 for i in range(n) if signs == "+"]
    if signs == "-":
        adm += [m[i] >= 0 for i in range(n) if sg[i] > 0] + [S.all([m[i] * c[i] <= gross, -m[i] * c[i] <= gross]) for i in range(n)] + [m[i] <= 0 for i in range(n) if sg[i] < 0]
    S.assume(S.all(adm))
    x = [S.integer(f"x{i}") for i in range(n)]
    u, r = [S.real(f"u{i}") for i in range(n)], S.real("r")
    seen = []

    def solver(**kw):
        seen.append(kw)
        cc = list(kw["c"])
        S.true("one whole-number variable per asset", [int(v) for v in kw["integrality"]][:n] == [1] * n and len(cc) == len(list(kw["integrality"])))
        if len(cc) != 2 * n + 1:
            from ..term import Unsupported
            raise Unsupported("programme layout not recognised")
        z = x + u + [r]
        pt = m + [S.absval(m[i] * c[i] - t[i] * V) for i in range(n)] + [V - spent]
        S.true("every admissible position is a feasible point", S.all(feasible(S, kw, pt)))
        S.eq("its cost is its deviation plus penalised cash", sum((cc[j] * pt[j] for j in range(2 * n + 1)), 0 * V), deviation(S, m, c, t, V, pen))
        S.assume(S.all(feasible(S, kw, z)))
        S.assume(sum((cc[j] * z[j] for j in range(2 * n + 1)), 0 * V) <= sum((cc[j] * pt[j] for j in range(2 * n + 1)), 0 * V))
        return Answer(S.arr(z))
    S.hook("milp", solver)
    built = []
    S.stub(M, D._build_result, lambda inputs, raw: built.append((inputs, raw)) or "built")
    opts = {"time_limit": 5}
    out = S.ok(S.call(D.allocate_mip, inp, pen, top, opts))
    S.true("solver options forwarded and left alone", seen[0]["options"] == {"time_limit": 5} and opts == {"time_limit": 5})
    S.true("the position is reported for these inputs", out == "built" and built[0][0] is inp)
    sh = built[0][1]
    lots = []
    for i in range(n):
        whole(S, "whole lots", sh[NAMES[i]], k[i])
        lots.append(sh[NAMES[i]] / k[i])
        S.eq("the solver's own lots", sh[NAMES[i]], x[i] * k[i])
        if sg[i] > 0:
            S.true("no short position for a long target", sh[NAMES[i]] >= 0)
    cost = sum((x[i] * c[i] for i in range(n)), 0 * V)
    S.true("costs no more than the available value", cost <= V)
    if cap:
        S.true("leftover cash within the cap", V - cost <= top)
    # the optimal point's own cost bounds its position's deviation plus penalised cash, term by term; the last step is linear in those terms
    cc, z = list(seen[0]["c"]), x + u + [r]
    dev = [S.absval(x[i] * c[i] - t[i] * V) for i in range(n)]
    S.true("the integer variables carry no cost of their own", S.all([cc[i] * 1.0 == 0 for i in range(n)]))
    for i in range(n):
        S.true("the cost counts at least each asset's deviation", dev[i] <= cc[n + i] * u[i])
    S.true("and the penalised cash", pen * (V - cost) <= cc[2 * n] * r)
    d, q, e, f, best = [S.real(f"d{i}") for i in range(n)], [S.real(f"q{i}") for i in range(n)], S.real("e"), S.real("f"), S.real("best")
    lemma = S.implies(S.all([d[i] <= q[i] for i in range(n)] + [e <= f, sum(q, f) <= best]), sum(d, e) <= best)
    S.true("no admissible position has a lower deviation plus penalised cash", lemma)


@contract("C16", funcs=[DA + "allocate_mip"], cfgs=[{"s": s} for s in ("fail",)], samples=3)
def mip_failure(S, M, s):
    t, p, k, V, inp = mip_inputs(S, M, 1, [1])
    S.hook("milp", lambda **kw: Answer(None, False))
    S.raises(S.call(M.discrete_allocation.allocate_mip, inp), RuntimeError, "a failed integer programme is not reported as an allocation")


@contract("C16", modes="C", funcs=[DA + "allocate_mip", DA + "_build_result", DA + "discretize_weights"], dims={"n": [1, 2, 3]}, samples=25, cbudget=40.0,
          cfgs=[{"signs": s, "pen": q, "cap": c} for s in ("+", "-") for q in (0., .5, 1., 3.) for c in (0, 1)])
def mip_optimal(S, M, signs, pen, cap):
    """bounded: the real solver's answer against enumeration of every affordable position"""
    n = S.dim("n")
    if n == 1 and signs == "-":
        raise Reject
    sg = [1] * n if signs == "+" else [1] * (n - 1) + [-1]
    t, p, k, V, inp = mip_inputs(S, M, n, sg)
    if signs == "-" and sum(map(abs, t)) > 6:
        raise Reject
    c = np.array([p[i] * k[i] for i in range(n)])
    reach = V + sum(abs(x) * V for x in t)
    rng = [range(0 if s > 0 else -int(reach // ci), int((V if signs == "+" else reach) // ci) + 1) if s > 0 else range(-int(reach // ci), 1) for s, ci in zip(sg, c)]
    if np.prod([len(q) for q in rng]) > 60000:
        raise Reject
    g = np.array(list(itertools.product(*rng)), dtype=float)
    spent = g @ c
    top = .4 * V if cap else None
    ok = (spent <= V + 1e-12) & ((V - spent <= top) if cap else True)
    out = S.call(M.discrete_allocation.allocate_mip, inp, pen, top)
    if not ok.any():
        if signs == "+":
            S.raises(out, RuntimeError, "no admissible position")
        return
    res = S.ok(out)
    reported(S, res, t, p, k, V, NAMES[:n], long_only=signs == "+")
    dev = np.abs(g * c - np.array(t) * V).sum(axis=1) + pen * (V - spent)
    best = dev[ok].min()
    m = np.array([res.shares.get(NAMES[i], 0) / k[i] for i in range(n)])
    got = np.abs(m * c - np.array(t) * V).sum() + pen * (V - m @ c)
    S.true("no admissible position has a lower deviation plus penalised cash", got <= best + 2e-3 * (abs(best) + 1e-3 * V) + 1e-9, f"{got} > {best}")
    if cap:
        S.true("leftover cash within the cap", res.leftover_cash <= top + 1e-6 * V)
