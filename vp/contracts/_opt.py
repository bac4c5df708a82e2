"""Shared specification pieces for the optimisers: user systems, recorded programmes, reference solves."""
import numpy as np
from ..spec import Reject, Failure
from ..term import Unsupported


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0 * a[0] * b[0])


def quad(x, A):
    n = len(x)
    return sum((x[i] * A[i, j] * x[j] for i in range(n) for j in range(n)), 0 * x[0])


class Sys:
    """The user's linear system  G w <= h,  A w = b  (any part may be absent)."""

    def __init__(self, G, h, A, b):
        self.G, self.h, self.A, self.b = G, h, A, b

    @property
    def args(self):
        return dict(G=self.G, h=self.h, A=self.A, b=self.b)

    def rows(self):
        g = [] if self.G is None else [(list(self.G[i]), self.h[i]) for i in range(self.G.shape[0])]
        a = [] if self.A is None else [(list(self.A[i]), self.b[i]) for i in range(self.A.shape[0])]
        return g, a

    def holds(self, S, w, tol=1e-6):
        g, a = self.rows()
        if S.symbolic:
            return S.all([dot(r, w) <= v for r, v in g] + [dot(r, w) == v for r, v in a])
        return all(dot(r, w) <= v + tol * (1 + abs(v)) for r, v in g) and all(abs(dot(r, w) - v) <= tol * (1 + abs(v)) for r, v in a)


def user_system(S, n, sysk, m=2):
    """sysk: which parts are present: '', 'G', 'A', 'GA'.  Symbolically every coefficient is free.
    Concretely: a bounded system with an interior point (box, one extra row, budget)."""
    g, a = "G" in sysk, "A" in sysk
    if S.symbolic:
        G = S.mat("G", m, n) if g else None
        h = S.vec("h", m) if g else None
        A = S.mat("A", 1, n) if a else None
        b = S.vec("b", 1) if a else None
        return Sys(G, h, A, b)
    r = S.rng
    tot = float(r.choice([1.0, 1.0, 1.0, 1.3, 0.6])) if a and not getattr(S, "unit_budget", False) else 1.0
    lo = float(r.choice([0.0, 0.0, 0.05, -0.3]))
    hi = float(r.choice([1.0, .6, .8])) * max(1.0, 2.5 / n)
    w0 = r.dirichlet(np.ones(n)) * .6 * tot + .4 * tot / n
    lo = min(lo, w0.min() - .01)
    hi = max(hi, w0.max() + .05)
    row = r.normal(size=n)
    G = np.vstack([-np.eye(n), np.eye(n), row])
    h = np.concatenate([-lo * np.ones(n), hi * np.ones(n), [row @ w0 + .05 + .3 * r.random()]])
    A = np.ones((1, n)) if a else None
    b = np.array([tot]) if a else None
    if a and n >= 4 and r.random() < .3:
        row2 = np.zeros(n)
        row2[:2] = 1
        A, b = np.vstack([A, row2]), np.append(b, row2 @ w0)
    if not g:
        G = h = None
    for name, M in (("G", G), ("h", h), ("A", A), ("b", b)):
        if M is not None:
            for idx in np.ndindex(*M.shape):
                k = name + "_" + "_".join(map(str, idx))
                if k in S.vals:
                    M[idx] = float(S.vals[k])
                S.used[k] = M[idx]
    return Sys(G, h, A, b)


# ------------------------------------------------------------------ recorded programmes
def prog_rows(p, x):
    """Linear rows of a recorded programme evaluated at x: (slacks of G x <= h, residuals of A x = b)."""
    g, a = [], []
    if p["G"] is not None:
        nl = p["G"].shape[0]
        d = p.get("dims")
        if d:
            nl = int(d["l"])
        for i in range(nl):
            g.append(p["h"][i, 0] - dot(list(p["G"][i]), x))
    if p["A"] is not None:
        for i in range(p["A"].shape[0]):
            a.append(dot(list(p["A"][i]), x) - p["b"][i, 0])
    return g, a


def soc_blocks(p, x):
    """Second-order cone blocks (head, tail list) at x."""
    d = p["dims"]
    k = int(d["l"])
    out = []
    for q in d["q"]:
        v = [p["h"][i, 0] - dot(list(p["G"][i]), x) for i in range(k, k + int(q))]
        out.append((v[0], v[1:]))
        k += int(q)
    if k != p["G"].shape[0] or list(d.get("s", [])):
        raise Unsupported("cone layout not recognised")
    return out


def qp_obj(p, x):
    return quad(x, p["P"]) / 2 + dot([p["q"][i, 0] for i in range(len(x))], x)


def lin_obj(p, x):
    return dot([p["c"][i, 0] for i in range(len(x))], x)


def same_feasible_set(S, name, p, sysm, w, extra=(), x=None):
    """Programme (over exactly the weights) is feasible at w  <=>  user system and `extra` conditions hold."""
    g, a = prog_rows(p, x if x is not None else w)
    have = S.all([s >= 0 for s in g] + [r == 0 for r in a])
    want = S.all([sysm.holds(S, w)] + list(extra))
    S.true(name + ": every weight vector meeting the user's constraints is feasible in the solved programme", S.implies(want, have))
    S.true(name + ": every weight vector feasible in the solved programme meets the user's constraints", S.implies(have, want))


def same_objective(S, name, obj, stated, n):
    """obj differs from the stated objective by a constant, up to a positive factor (1, 1/2, 2)."""
    from .. import term as tm
    u, v = S.vec("pt_u", n), S.vec("pt_v", n)
    do, ds = tm.lift(obj(u) - obj(v)), tm.lift(stated(u) - stated(v))
    for f in (1, 2, S.const(1) / 2):
        if tm.is_zero(do * f - ds):
            S.eq(name, do * f, ds)
            return
    S.eq(name, do, ds)


def reference(S, kind, *a, **k):
    """Independent solve of the stated programme with cvxopt (concrete mode only)."""
    from cvxopt import matrix, solvers
    old = dict(solvers.options)
    try:
        solvers.options.update(show_progress=False, abstol=1e-9, reltol=1e-9, feastol=1e-9)
        f = getattr(S, "orig")[kind]
        conv = [None if x is None else (x if isinstance(x, dict) else matrix(np.atleast_2d(np.asarray(x, float)).T if np.ndim(x) == 1 else np.asarray(x, float))) for x in a]
        sol = f(*conv, **k)
    except (ValueError, ArithmeticError):
        return None
    finally:
        solvers.options.clear()
        solvers.options.update(old)
    if sol["status"] != "optimal":
        return None
    return np.array(sol["x"]).ravel()


def vstack(*b):
    b = [np.asarray(x, float) for x in b if x is not None]
    return np.vstack(b) if b else None


def hstack(*b):
    b = [np.atleast_1d(np.asarray(x, float)) for x in b if x is not None]
    return np.hstack(b) if b else None
