"""Stand-ins for cvxopt / scipy: every call is recorded and answered by its assumed contract."""
from __future__ import annotations
import types
import numpy as np
from . import npx
from . import term as tm
from .term import T, Unsupported, lift, ZERO, ENG

COUNTER = [0]


def fresh(name):
    COUNTER[0] += 1
    return f"{name}!{COUNTER[0]}"


class SymMatrix:
    """cvxopt.matrix: a dense 2-D matrix; 1-D input becomes a column, a list of matrices is stacked."""

    def __init__(self, x=None, size=None, tc=None):
        if npx.is_sa(x):
            self.arr = x if x.ndim == 2 else x.reshape(-1, 1)
            return
        if isinstance(x, SymMatrix):
            a = x.arr if npx.is_sa(x.arr) else x.arr.copy()
        elif isinstance(x, (list, tuple)) and x and all(isinstance(v, (SymMatrix, np.ndarray)) for v in x):
            parts = [v.arr if isinstance(v, SymMatrix) else SymMatrix(v).arr for v in x]
            a = npx.NP().vstack(parts)
        else:
            if isinstance(x, np.ndarray) and x.dtype.kind in "iu":
                self.int_typed = True
            a = npx.np_array(x, dtype=float)
            if a.ndim == 1:
                a = a.reshape(-1, 1)
            elif a.ndim == 0:
                a = a.reshape(1, 1)
        if size is not None:
            if a.size == 1:
                v = a.flat[0]
                a = np.empty(size, dtype=object)
                a.fill(v)
            else:
                a = a.reshape(size, order="F")
        self.arr = a

    @property
    def size(self):
        return tuple(self.arr.shape)

    @property
    def T(self):
        return SymMatrix._of(self.arr.T)

    @staticmethod
    def _of(a):
        m = SymMatrix.__new__(SymMatrix)
        m.arr = a
        return m

    def trans(self):
        return self.T

    def __neg__(self):
        return SymMatrix._of(-self.arr)

    def __add__(self, o):
        return SymMatrix._of(self.arr + (o.arr if isinstance(o, SymMatrix) else o))

    def __sub__(self, o):
        return SymMatrix._of(self.arr - (o.arr if isinstance(o, SymMatrix) else o))

    def __mul__(self, o):
        if isinstance(o, SymMatrix):
            if 1 in (self.arr.size, o.arr.size) and self.arr.shape[1] != o.arr.shape[0]:
                return SymMatrix._of(self.arr * o.arr)
            return SymMatrix._of(self.arr @ o.arr)
        return SymMatrix._of(self.arr * o)

    __rmul__ = __mul__

    def __len__(self):
        return self.arr.size

    def __iter__(self):
        return iter(self.arr.ravel(order="F"))

    def __getitem__(self, i):
        if isinstance(i, tuple):
            r = self.arr[i]
            return SymMatrix._of(np.atleast_2d(r)) if isinstance(r, np.ndarray) else r
        r = self.arr.ravel(order="F")[i]
        return SymMatrix._of(r.reshape(-1, 1)) if isinstance(r, np.ndarray) else r

    def __array__(self, dtype=None, copy=None):
        return self.arr


def _mat(x):
    if x is None:
        return None
    if isinstance(x, SymMatrix):
        if getattr(x, "int_typed", False):
            raise TypeError("cvxopt: matrix must have 'd' typecode")
        return x.arr
    raise TypeError("cvxopt: argument must be a matrix")


def _same(a, b):
    if a is None or b is None or isinstance(a, dict) or isinstance(b, dict):
        return a is b or (isinstance(a, dict) and isinstance(b, dict) and {k: list(np.atleast_1d(v)) for k, v in a.items()} == {k: list(np.atleast_1d(v)) for k, v in b.items()})
    if npx.is_sa(a) or npx.is_sa(b):
        return a is b
    return a.shape == b.shape and all(tm.is_zero(npx.lift1(x) - npx.lift1(y)) for x, y in zip(a.flat, b.flat))


class Solvers:
    def __init__(self):
        self.options = {}

    def _solution(self, kind, prog, nvar, obj):
        status = "optimal"
        h = npx.HOOKS.get("solver_status")
        if h is None:              # a deterministic function of the programme: equal programmes, equal answers
            for q in npx.RECORD:
                if q["kind"] == kind and all(_same(q[f], v) for f, v in prog.items()):
                    npx.RECORD.append(q)
                    m = SymMatrix._of(q["x"])
                    return {"status": q["status"], "x": m, "primal objective": obj(q["x"]), "y": None, "z": None, "s": None}
        name = fresh("x")
        if npx.has_sym_dim((nvar,)):
            from . import symarray
            x = symarray.SymArray.symbol(name, (nvar, 1))
            m = SymMatrix._of(x)
        else:
            nvar = nvar.__index__()
            a = np.empty((nvar, 1), dtype=object)
            for i in range(nvar):
                a[i, 0] = T.var(f"{name}_{i}")
            m = SymMatrix._of(a)
        if h is not None:
            status = h(kind, len(npx.RECORD))
        prog.update(kind=kind, x=m.arr, status=status)
        npx.RECORD.append(prog)
        ass = npx.HOOKS.get("solver_assume")
        if ass is not None:
            ass(prog)
        po = obj(m.arr)
        return {"status": status, "x": m, "primal objective": po, "y": None, "z": None, "s": None}

    def qp(self, P, q=None, G=None, h=None, A=None, b=None, *a, **k):
        P, q, G, h, A, b = map(_mat, (P, q, G, h, A, b))
        prog = dict(P=P, q=q, G=G, h=h, A=A, b=b)
        self._dims(prog, P.shape[0])
        half = tm.T.const(1) / 2
        return self._solution("qp", prog, P.shape[0],
                              lambda x: ((x.T @ P @ x)[0, 0] * half + (q.T @ x)[0, 0]))

    def lp(self, c, G=None, h=None, A=None, b=None, *a, **k):
        c, G, h, A, b = map(_mat, (c, G, h, A, b))
        prog = dict(c=c, G=G, h=h, A=A, b=b)
        self._dims(prog, c.shape[0])
        return self._solution("lp", prog, c.shape[0], lambda x: (c.T @ x)[0, 0])

    def conelp(self, c, G, h, dims=None, A=None, b=None, *a, **k):
        c, G, h, A, b = map(_mat, (c, G, h, A, b))
        prog = dict(c=c, G=G, h=h, A=A, b=b, dims=dims)
        self._dims(prog, c.shape[0])
        return self._solution("conelp", prog, c.shape[0], lambda x: (c.T @ x)[0, 0])

    def _dims(self, p, n):
        for M, v in (("G", "h"), ("A", "b")):
            if p[M] is not None:
                if not (p[M].shape[1] == n) or p[v] is None or not (p[v].shape[0] == p[M].shape[0]) or not (p[v].shape[1] == 1):
                    raise TypeError(f"cvxopt: incompatible dimensions of {M}, {v}")

    def __getattr__(self, n):
        raise Unsupported("cvxopt.solvers." + n)


SOLVERS = Solvers()


class Chi2:
    @staticmethod
    def ppf(q, df, *a, **k):
        """ASSUMED: strictly increasing positive quantile function of (q, df)."""
        return tm.fn("chi2ppf", npx.lift1(q), npx.lift1(df))

    def __getattr__(self, n):
        raise Unsupported("scipy.stats.chi2." + n)


class Sla:
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def cholesky(a, lower=False, overwrite_a=False, check_finite=True):
        h = npx.HOOKS.get("sla.cholesky")
        if h is not None:
            return h(a, lower)
        return npx.cholesky(a, lower)

    cho_solve = staticmethod(npx.cho_solve)
    solve_triangular = staticmethod(npx.solve_triangular)
    solve = staticmethod(npx.solve)
    inv = staticmethod(npx.inv)
    norm = staticmethod(npx.norm)

    @staticmethod
    def cho_factor(a, lower=False, **k):
        return npx.cholesky(a, lower), lower

    def __getattr__(self, n):
        raise Unsupported("scipy.linalg." + n)


class Optimize:
    class Bounds:
        def __init__(self, lb=None, ub=None, **k):
            self.lb, self.ub = lb, ub

    class LinearConstraint:
        def __init__(self, A, lb=None, ub=None, **k):
            self.A, self.lb, self.ub = A, lb, ub

    @staticmethod
    def milp(c, *, integrality=None, bounds=None, constraints=None, options=None):
        h = npx.HOOKS.get("milp")
        if h is None:
            raise Unsupported("milp")
        return h(c=c, integrality=integrality, bounds=bounds, constraints=constraints, options=options)

    @staticmethod
    def minimize(*a, **k):
        h = npx.HOOKS.get("minimize")
        if h is None:
            raise Unsupported("scipy.optimize.minimize")
        return h(*a, **k)

    def __getattr__(self, n):
        raise AttributeError(n)


NPI = npx.NP()
PDI = npx.PD()
SLA = Sla()
OPT = Optimize()
TABLE = {
    ("numpy", None): NPI,
    ("numpy.linalg", None): NPI.linalg,
    ("pandas", None): PDI,
    ("cvxopt", "matrix"): SymMatrix,
    ("cvxopt", "solvers"): SOLVERS,
    ("scipy", "linalg"): SLA,
    ("scipy", "optimize"): OPT,
    ("scipy.stats", "chi2"): Chi2(),
    ("scipy.optimize", "Bounds"): Optimize.Bounds,
    ("scipy.optimize", "minimize"): Optimize.minimize,
    ("scipy.optimize", "LinearConstraint"): Optimize.LinearConstraint,
    ("scipy.optimize", "milp"): Optimize.milp,
    ("numpy.linalg", "inv"): npx.inv,
}


def wrap_import(mod, attr, obj):
    if (mod, attr) in TABLE:
        return TABLE[(mod, attr)]
    if mod and mod.startswith("scipy") and attr is not None:
        h = f"{mod}.{attr}"

        def f(*a, **k):
            if h in npx.HOOKS:
                return npx.HOOKS[h](*a, **k)
            raise Unsupported(h)
        return f if callable(obj) else obj
    return obj
