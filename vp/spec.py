"""Contracts: one Python function per contract, executed in three modes by the same text.

  P  deductive, array sizes symbolic (all sizes)      - engine.py + symarray.py
  F  deductive, array sizes fixed (stated bound)      - engine.py, all real values
  C  concrete: the real, untransformed code in CPython; used to replay counter-models and to
     cross-check the engine; contract inputs come from a model or from a seeded generator.

A contract is   @contract("C02", funcs=[...], dims={...}, cfgs=[...], modes="PFC")
                def name(S, M, **cfg): build inputs with S, call real functions through S.call, state posts.
"""
from __future__ import annotations
import hashlib
import itertools
import math
from fractions import Fraction
import numpy as np
import pandas as pd
from . import term as tm
from .term import T, B, Unsupported, ZERO

REGISTRY = []


def bounds(lo, hi, lo_strict, hi_strict):
    """`lo_strict=True` makes `lo` itself the strict bound; a number is a bound of its own."""
    if lo_strict is True:
        lo, lo_strict = None, lo
    if hi_strict is True:
        hi, hi_strict = None, hi
    return lo, hi, lo_strict, hi_strict


class Contract:
    def __init__(self, prop, fn, funcs, dims, cfgs, modes, samples, assumes, quick_dims, max_paths, time_limit, tol, loops, cdims, pcfgs, cbudget, skip=None):
        self.skip = skip
        self.cdims, self.pcfgs, self.cbudget = cdims, pcfgs, cbudget
        self.prop, self.fn, self.name = prop, fn, fn.__name__
        self.funcs, self.dims, self.cfgs, self.modes = funcs, dims or {}, cfgs or [{}], modes
        self.samples, self.assumes = samples, assumes or []
        self.quick_dims = quick_dims
        self.max_paths, self.time_limit, self.tol = max_paths, time_limit, tol
        self.loops = loops
        self.frame = False

    def concrete(self, rng, dims, vals):
        return ConS(rng, dims, vals, tol=self.tol)

    def symbolic(self, path, mode, dims, cfg):
        return SymS(path, mode, dims, None, self.name, cfg)

    def fcases(self, tier):
        d = self.dims if (tier != "quick" or not self.quick_dims) else self.quick_dims
        keys = list(d)
        for vals in itertools.product(*[d[k] for k in keys]):
            for cfg in self.cfgs:
                yield dict(zip(keys, vals)), cfg


def contract(prop, funcs=(), dims=None, cfgs=None, modes="FC", samples=60, assumes=None, quick_dims=None,
             max_paths=400, time_limit=40.0, tol=1e-7, loops=None, cdims=None, pcfgs=None, cbudget=12.0, skip=None):
    def deco(fn):
        REGISTRY.append(Contract(prop, fn, list(funcs), dims, cfgs, modes, samples, assumes, quick_dims,
                                 max_paths, time_limit, tol, loops, cdims, pcfgs, cbudget, skip))
        return fn
    return deco


class Reject(BaseException):
    """Concrete sample outside the contract's precondition."""


class Failure(BaseException):
    def __init__(self, name, detail):
        super().__init__(name, detail)
        self.name, self.detail = name, detail


class Outcome:
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class Shared:
    """Spec helpers that work on terms and floats alike."""
    symbolic = False

    def note(self, **k):
        pass

    # basic spec maths over nested sequences ------------------------------------------
    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def total(self, x):
        if self.P and self.npx.is_sa(x):
            return x.sum()
        r = 0
        for v in flat(x)[1]:
            r = r + v
        return r

    def sigma(self, n, f):
        """sum of f(i) over 0 <= i < n."""
        if self.P and isinstance(n, T):
            from . import sums
            t = sums.temp(n)
            e = sums.pure()
            tm._ENGINE.append(e)
            try:
                return sums.summ(tm.lift(f(t)), t, n)
            finally:
                tm._ENGINE.pop()
        r = 0
        for i in range(n):
            r = r + f(i)
        return r

    def build(self, shape, f):
        """Array with entries f(i, j, ..)."""
        if self.P:
            from . import symarray
            return symarray.SymArray(shape, f)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = f(*ix)
        return a if self.symbolic else a.astype(float)

    def centred(self, name, T_, n, gen=None):
        """(R, x, m): every T x n matrix R as the sum of its column means m and the deviations x, whose columns sum to zero."""
        if self.P:
            from . import symarray, sums
            x, m = self.mat(name + ".x", T_, n), self.vec(name + ".m", n)
            sums.MARGIN[name + ".x", 0] = lambda i: tm.ZERO
            return self.build((T_, n), lambda t, i: x[t, i] + m[i]), x, m
        R = self.mat(name, T_, n, gen=gen)
        m = self.build((n,), lambda i: self.sigma(T_, lambda t: R[t, i]) / T_)
        return R, self.build((T_, n), lambda t, i: R[t, i] - m[i]), m

    def indices(self, name, shape, n):
        """Arbitrary table of whole numbers in [0, n) (all sizes only)."""
        from . import symarray, sums
        a = symarray.SymArray.symbol(name, shape, isint=True)
        self.inputs[name] = a
        sums.FACTS[name] = (tuple(shape), {"lo": 0, "hi_strict": n})
        return a

    def inverse(self, a):
        """The inverse of a symmetric invertible matrix (all sizes: the assumed inverse function)."""
        return self.npx.inv(a) if self.symbolic else np.linalg.inv(np.asarray(a, float))

    def forall(self, x, pred):
        """Conjunction of pred over all entries."""
        if self.P and self.npx.is_sa(x):
            return x.forall(pred)
        return self.all([pred(v) for v in flat(x)[1]])

    def exists(self, x, pred):
        return self.neg(self.forall(x, lambda v: self.neg(pred(v))))

    def every(self, n, f):
        """f(i) for every i < n."""
        if self.P and not isinstance(n, int):
            from . import symarray, sums
            v = sums.temp(n, "q")
            e = sums.pure()
            tm._ENGINE.append(e)
            try:
                b = tm.tob(f(v))
            finally:
                tm._ENGINE.pop()
            return symarray.quant(v, n, b)
        return self.all([f(i) for i in range(n)])

    def some(self, n, f):
        return self.neg(self.every(n, lambda i: self.neg(f(i))))

    def index(self, name, n):
        """Arbitrary index 0..n-1."""
        if self.P and not isinstance(n, int):
            v = T.var(name, isint=True)
            self.path.assume(v >= 0)
            self.path.assume(v < n)
            self.inputs[name] = v
            return v
        return self.pick(name, n)

    def close(self, a, b, tol=1e-9):
        if self.symbolic:
            return tm.lift(a) == b
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))

    def labels(self, n, perm=None, prefix="A"):
        ls = [f"{prefix}{i}" for i in range(n)]
        return ls if perm is None else [ls[i] for i in perm]

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (Unsupported, Reject, Failure):
            raise
        except Exception as e:
            if __import__('os').environ.get('VP_TB') == '2':
                __import__('traceback').print_exc()
            return Outcome(exc=e)

    def ok(self, out, name="returns normally"):
        """Obligation: the call returned; gives its value."""
        if out.exc is not None:
            self.fail(name, f"raised {type(out.exc).__name__}: {str(out.exc)[:200]}")
        else:
            self.true(name, True)
        return out.value

    def raises(self, out, exc=Exception, name="rejects malformed input"):
        if out.exc is None:
            self.fail(name, f"returned {_short(out.value)} instead of raising")
        elif not isinstance(out.exc, exc):
            self.fail(name, f"raised {type(out.exc).__name__}: {str(out.exc)[:160]}")
        else:
            self.true(name, True)

    def arr(self, x):
        return self.np.asarray(x, dtype=float)

    def same_labels(self, name, idx, labels):
        self.true(name, list(idx) == list(labels), f"{list(idx)} != {list(labels)}")

    def eq_shape(self, name, a, shape):
        if self.P and self.npx.is_sa(a):
            self.true(name, len(a.shape) == len(shape) and self.all([tm.lift(x) == y for x, y in zip(a.shape, shape)]), f"shape {a.shape} expected {tuple(shape)}")
            return
        s = np.shape(a)
        self.true(name, tuple(s) == tuple(shape), f"shape {s} expected {tuple(shape)}")


def _short(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + "..."


def flat(x):
    if type(x).__name__ == "SymMatrix":
        x = x.arr
    if isinstance(x, (pd.Series, pd.DataFrame)):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        return x.shape, list(x.ravel())
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (list, tuple, np.ndarray)) for v in x):
            subs = [flat(v) for v in x]
            return (len(x),) + subs[0][0], [w for s in subs for w in s[1]]
        return (len(x),), list(x)
    return (), [x]


# ============================================================================ symbolic
class SymS(Shared):
    symbolic = True

    def __init__(self, path, mode, dimvals, res, cname, cfg):
        from . import npx
        self.path, self.mode, self.dimvals, self.res = path, mode, dimvals, res
        self.np, self.pd = npx.NP(), npx.PD()
        self.npx = npx
        self.cname, self.cfg = cname, cfg
        self.inputs = {}
        self.obls = []
        self.stubs = []
        self.P = mode == "P"
        self.dimnames = []
        if self.P:
            from . import sums
            sums.reset()

    # inputs ---------------------------------------------------------------------------
    def dim(self, name, lo=1):
        if self.P:
            v = T.var(name, isint=True)
            self.path.assume(v >= lo)
            self.inputs[name] = v
            self.dimnames.append(name)
            return v
        return self.dimvals[name]

    def dimval(self, name):
        return self.inputs[name] if self.P else self.dimvals[name]

    def _reg(self, name, isint=False):
        v = T.var(name, isint=isint)
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_strict=None, hi_strict=None, gen=None):
        lo, hi, lo_strict, hi_strict = bounds(lo, hi, lo_strict, hi_strict)
        v = self._reg(name)
        self._rng(v, lo, hi, lo_strict, hi_strict)
        return v

    def _rng(self, v, lo=None, hi=None, lo_strict=None, hi_strict=None):
        if lo is not None:
            self.path.assume(v >= lo)
        if hi is not None:
            self.path.assume(v <= hi)
        if lo_strict is not None:
            self.path.assume(v > lo_strict)
        if hi_strict is not None:
            self.path.assume(v < hi_strict)

    def integer(self, name, lo=None, hi=None, gen=None):
        v = self._reg(name, isint=True)
        self._rng(v, lo, hi)
        return v

    def vec(self, name, n, gen=None, **rng):
        if self.P:
            from . import symarray
            a = symarray.SymArray.symbol(name, (n,))
            self.inputs[name] = a
            symarray.assume_range(self.path, a, **rng)
            return a
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = self.real(f"{name}_{i}", **rng)
        return a

    def mat(self, name, r, c, sym=False, gen=None, **rng):
        if self.P:
            from . import symarray
            a = symarray.SymArray.symbol(name, (r, c), sym=sym)
            self.inputs[name] = a
            symarray.assume_range(self.path, a, **rng)
            return a
        a = np.empty((r, c), dtype=object)
        for i in range(r):
            for j in range(c):
                if sym and j < i:
                    a[i, j] = a[j, i]
                else:
                    a[i, j] = self.real(f"{name}_{i}_{j}", **rng)
        return a

    def spd(self, name, n, pd=True):
        """Symmetric matrix, assumed positive definite (leading minors > 0 for fixed sizes)."""
        a = self.mat(name, n, n, sym=True)
        if pd and not self.P:
            for k in range(1, n + 1):
                self.path.assume(self.npx.det(a[:k, :k]) > 0)
        elif pd and self.P:
            from . import symarray
            symarray.assume_spd(self.path, a)
        return a

    def prob(self, name, n, strict=True):
        """Probability vector (positive, sums to one)."""
        if self.P:
            from . import symarray
            a = symarray.SymArray.symbol(name, (n,))
            self.inputs[name] = a
            symarray.assume_range(self.path, a, **({"lo_strict": 0} if strict else {"lo": 0}))
            symarray.assume_sum(self.path, a, 1)
            return a
        a = np.empty(n, dtype=object)
        rest = T.const(1)
        for i in range(n - 1):
            a[i] = self.real(f"{name}_{i}", **({"lo_strict": 0} if strict else {"lo": 0}))
            rest = rest - a[i]
        a[n - 1] = rest
        self.path.assume(rest > 0 if strict else rest >= 0)
        return a

    def series(self, name, labels, order=None, **rng):
        """Labelled vector: value cell names follow the label, so any order denotes the same mapping."""
        labels = list(labels)
        vals = {l: self.real(f"{name}_{l}", **rng) for l in labels}
        lab = labels if order is None else [labels[i] for i in order]
        return self.pd.Series(np.array([vals[l] for l in lab], dtype=object), index=lab)

    def frame(self, name, index, columns, **rng):
        index, columns = list(index), list(columns)
        a = np.empty((len(index), len(columns)), dtype=object)
        for i, r in enumerate(index):
            for j, c in enumerate(columns):
                a[i, j] = self.real(f"{name}_{r}_{c}", **rng)
        return self.pd.DataFrame(a, index=index, columns=columns)

    def const(self, v):
        return T.const(Fraction(v) if isinstance(v, str) else v)

    def lit(self, v):
        return T.const(v)

    def pick(self, name, n):
        """Arbitrary index 0..n-1 (forks)."""
        i = self.path.choose(n)
        self.inputs["pick:" + name] = T.const(i)
        return i

    # logic -------------------------------------------------------------------------------
    @property
    def firsts(self):
        """Proof hint: the first-true positions the code has asked for, in order."""
        from . import sums
        return [v for k, v in sums.MEMO.items() if k[0] == "first"]

    def skip(self, why):
        raise Unsupported(why)

    def permuted(self, n, f, pi):
        """pi is a permutation of 0..n-1: a sum may be taken in its order."""
        self.path.assume(self.sigma(n, f) == self.sigma(n, lambda k: f(pi[k])))

    def sum_le(self, name, n, f, g, given=None):
        """Lemma: f(k) <= g(k) for every k (proved at an arbitrary k, from instances of assumed facts), hence the sums compare."""
        from . import sums
        k = sums.temp(n, "k")
        self.path.assume(k >= 0)
        self.path.assume(k < n)
        e = sums.pure()
        tm._ENGINE.append(e)
        try:
            goal = tm.lift(f(k)) <= tm.lift(g(k))
            if given is not None:
                goal = tm.implies(tm.tob(given(k)), goal)
        finally:
            tm._ENGINE.pop()
        ob = self.path.prove(name, goal)
        self._rec(ob)
        if ob.status == "discharged":
            self.path.assume(self.sigma(n, f) <= self.sigma(n, g))

    def assume(self, b):
        b = tm.tob(b)
        self.path.assume(b)
        if self.P:
            from . import sums
            sums.learn(b)

    def cond(self, b):
        return bool(b)

    def all(self, bs):
        return tm.conj(*[tm.tob(b) for b in bs])

    def any(self, bs):
        return tm.disj(*[tm.tob(b) for b in bs])

    def implies(self, a, b):
        return tm.implies(tm.tob(a), tm.tob(b))

    def neg(self, a):
        return tm.neg(tm.tob(a))

    def sqrt(self, x):
        return tm.sqrt(x)

    def exp(self, x):
        return tm.exp(x)

    def log(self, x):
        return tm.log(x)

    def absval(self, x):
        return tm.absv(x)

    def where(self, c, a, b):
        if self.mode == "P":
            from .symarray import pick
            return pick(c, lambda: a, lambda: b)
        return tm.ite(tm.tob(c), a, b)

    def pos(self, x):
        return tm.ite(tm.lift(x) >= 0, x, 0)

    # obligations -----------------------------------------------------------------------------
    def fail(self, name, detail=""):
        """The current path itself contradicts the contract."""
        from .engine import Obligation
        st = self.path.check(tm.TRUE)
        if st == "unsat":
            return
        ob = Obligation(name, "refuted" if st == "sat" else "undecided", "z3", 0.0, goal="path must be infeasible", detail=detail)
        if st == "sat":
            ob.model = self.path.solver.model()
        self._rec(ob)

    def _rec(self, ob):
        ob.name = ob.name
        self.obls.append(ob)

    def true(self, name, b, detail=""):
        if isinstance(b, (bool, np.bool_)):
            from .engine import Obligation
            if b:
                self._rec(Obligation(name, "discharged", "evaluate"))
            else:
                self.fail(name, detail)
            return
        ob = self.path.prove(name, b)
        self._rec(ob)

    def eq(self, name, a, b, tol=None, scale=None):
        if self.npx.is_sa(a) or self.npx.is_sa(b):
            from . import symarray
            symarray.prove_eq(self, name, a, b)
            return
        sa, fa = flat(a)
        sb, fb = flat(b)
        if sa != sb and not (len(fa) == len(fb) == 1):
            self.fail(name, f"shape {sa} vs {sb}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            d = self.npx.lift1(x) - self.npx.lift1(y)
            ob = self.path.prove(name, tm.cmp("==", d))
            if ob.status != "discharged":
                ob.detail = f"entry {i}: {tm.show(self.npx.lift1(x), 200)} vs {tm.show(self.npx.lift1(y), 200)}"
            self._rec(ob)

    def le(self, name, a, b, tol=None):
        if self.npx.is_sa(a) or self.npx.is_sa(b):
            from . import symarray
            symarray.prove_each(self, name, symarray.map2(lambda x, y: x <= y, a, b, True), tm.tob)
            return
        _, fa = flat(a)
        _, fb = flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        for x, y in zip(fa, fb):
            self._rec(self.path.prove(name, self.npx.lift1(x) <= self.npx.lift1(y)))

    def lt(self, name, a, b, tol=None):
        if self.npx.is_sa(a) or self.npx.is_sa(b):
            from . import symarray
            symarray.prove_each(self, name, symarray.map2(lambda x, y: x < y, a, b, True), tm.tob)
            return
        _, fa = flat(a)
        _, fb = flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        for x, y in zip(fa, fb):
            self._rec(self.path.prove(name, self.npx.lift1(x) < self.npx.lift1(y)))

    # external contracts ----------------------------------------------------------------------
    def loop(self, match, need, inv, havoc):
        """Cut the while loop of function `match` by an invariant (symbolic modes; every iteration count is covered)."""
        from .loops import Cut
        c = Cut(self, match, need, inv, havoc)
        self.loop_specs.append(c)
        return c

    def hook(self, name, f):
        self.npx.HOOKS[name] = f

    def stub(self, M, fn, repl):
        """Within this path every module of the package that holds `fn` calls its contract `repl` instead."""
        import sys
        from . import loader
        if fn is None:
            return
        loader.load_all()
        for m in [m for k, m in list(sys.modules.items()) if k.split(".")[0] == M._pkg]:
            for k, v in list(vars(m).items()):
                if v is fn:
                    self.stubs.append((m, k, v))
                    setattr(m, k, repl)

    def spy(self, M, fn, wrap):
        """Concrete runs: every real module that holds `fn` calls wrap(fn, *a, **k); symbolic runs: wrap(None, *a, **k)."""
        self.stub(M, fn, lambda *a, **k: wrap(None, *a, **k))

    def unstub(self):
        while self.stubs:
            setattr(*self.stubs.pop())

    def uf(self, name, *args):
        """Uninterpreted real function of the flattened arguments."""
        out = []
        for a in args:
            out.extend(self.npx.lift1(x) for x in flat(a)[1])
        return tm.fn(name, *out)

    def record(self):
        return self.npx.RECORD


# ============================================================================ concrete
NICE = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25, 3.0, -2.0, 0.1]


class ConS(Shared):
    symbolic = False
    P = False

    def __init__(self, rng, dimvals, vals=None, tol=1e-7):
        self.rng, self.dimvals, self.vals = rng, dimvals, vals or {}
        self.np, self.pd = np, pd
        self.tol = tol
        self.used = {}
        self.checked = 0
        self.mode = "C"
        self.nice = rng.random() < 0.35
        self.hooks = {}
        self.spies = []
        self._rec_list = []

    def dim(self, name, lo=1):
        if "dim:" + name in self.vals:
            return int(self.vals["dim:" + name])
        return self.dimvals[name]

    def real(self, name, lo=None, hi=None, lo_strict=None, hi_strict=None, gen=None):
        lo, hi, lo_strict, hi_strict = bounds(lo, hi, lo_strict, hi_strict)
        if name in self.vals:
            v = float(self.vals[name])
        else:
            a = lo if lo is not None else lo_strict
            b = hi if hi is not None else hi_strict
            r = self.rng
            if gen is not None:
                v = float(gen(r))
            elif a is not None and b is not None:
                a, b = float(a), float(b)
                v = a + (b - a) * (r.random() if not self.nice else r.integers(0, 9) / 8)
            elif a is not None:
                v = float(a) + (abs(r.normal()) if not self.nice else abs(NICE[r.integers(len(NICE))]))
            elif b is not None:
                v = float(b) - (abs(r.normal()) if not self.nice else abs(NICE[r.integers(len(NICE))]))
            else:
                v = r.normal() if not self.nice else NICE[r.integers(len(NICE))]
            if lo_strict is not None and v <= lo_strict and gen is None:
                v = float(lo_strict) + 0.125 if hi is None and hi_strict is None else v
        if lo is not None and v < lo or hi is not None and v > hi or lo_strict is not None and v <= lo_strict \
                or hi_strict is not None and v >= hi_strict:
            raise Reject
        self.used[name] = v
        return v

    def integer(self, name, lo=None, hi=None, gen=None):
        if name in self.vals:
            v = int(round(float(self.vals[name])))
        else:
            a = 0 if lo is None else int(lo)
            b = (a + 6) if hi is None else int(hi)
            v = int(gen(self.rng)) if gen else int(self.rng.integers(a, b + 1))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject
        self.used[name] = v
        return v

    def vec(self, name, n, gen=None, **rng):
        return np.array([self.real(f"{name}_{i}", gen=gen, **rng) for i in range(n)], dtype=float)

    def mat(self, name, r, c, sym=False, gen=None, **rng):
        a = np.empty((r, c))
        for i in range(r):
            for j in range(c):
                a[i, j] = a[j, i] if (sym and j < i) else self.real(f"{name}_{i}_{j}", gen=gen, **rng)
        return a

    def spd(self, name, n, pd=True):
        if f"{name}_0_0" in self.vals:
            a = self.mat(name, n, n, sym=True)
        else:
            Bm = self.rng.normal(size=(n, n))
            a = Bm @ Bm.T / n + 0.05 * np.eye(n)
            a = (a + a.T) / 2
            for i in range(n):
                for j in range(i, n):
                    self.used[f"{name}_{i}_{j}"] = a[i, j]
        if pd and np.linalg.eigvalsh(a).min() < 1e-9 * max(1.0, np.abs(a).max()):
            raise Reject
        return a

    def prob(self, name, n, strict=True):
        if n > 1 and f"{name}_0" in self.vals:
            a = np.array([float(self.vals.get(f"{name}_{i}", 0.0)) for i in range(n - 1)])
            a = np.append(a, 1.0 - a.sum())
        else:
            a = self.rng.random(n) + 0.05 if not self.nice else self.rng.integers(1, 5, size=n).astype(float)
            if not strict and n > 1 and self.rng.random() < 0.3:
                a[self.rng.integers(n)] = 0.0
            a = a / a.sum()
        for i in range(n - 1):
            self.used[f"{name}_{i}"] = a[i]
        if (a <= 0).any() if strict else (a < 0).any():
            raise Reject
        return a

    def series(self, name, labels, order=None, **rng):
        labels = list(labels)
        vals = {l: self.real(f"{name}_{l}", **rng) for l in labels}
        lab = labels if order is None else [labels[i] for i in order]
        return pd.Series([vals[l] for l in lab], index=lab, dtype=float)

    def frame(self, name, index, columns, **rng):
        index, columns = list(index), list(columns)
        return pd.DataFrame([[self.real(f"{name}_{r}_{c}", **rng) for c in columns] for r in index],
                            index=index, columns=columns, dtype=float)

    def const(self, v):
        return float(Fraction(v)) if isinstance(v, str) else v

    def lit(self, v):
        return float(v)

    def pick(self, name, n):
        k = "pick:" + name
        v = int(self.vals[k]) if k in self.vals else int(self.rng.integers(n))
        self.used[k] = v
        return v

    def assume(self, b):
        if not bool(b):
            raise Reject

    def cond(self, b):
        return bool(b)

    def all(self, bs):
        return all(bool(b) for b in bs)

    def any(self, bs):
        return any(bool(b) for b in bs)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def neg(self, a):
        return not bool(a)

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0)) if not isinstance(x, np.ndarray) else np.sqrt(x)

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        return np.log(x)

    def absval(self, x):
        return abs(x)

    def where(self, c, a, b):
        return a if bool(c) else b

    def pos(self, x):
        return max(x, 0.0)

    def fail(self, name, detail=""):
        raise Failure(name, detail)

    def true(self, name, b, detail=""):
        self.checked += 1
        if not bool(b):
            raise Failure(name, detail)

    def eq(self, name, a, b, tol=None, scale=None):
        tol = tol or self.tol
        sa, fa = flat(a)
        sb, fb = flat(b)
        if tuple(sa) != tuple(sb) and not (len(fa) == len(fb) == 1):
            raise Failure(name, f"shape {sa} vs {sb}")
        fa = np.array([float(x) for x in fa])
        fb = np.array([float(x) for x in fb])
        self.checked += 1
        if fa.size == 0:
            return
        if not np.isfinite(fb).all():
            raise Reject
        sc = max(1.0, np.abs(fb).max()) if scale is None else scale
        d = np.abs(fa - fb)
        if not (d <= tol * sc).all():
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            raise Failure(name, f"entry {i}: got {fa[i]!r}, expected {fb[i]!r}")

    def le(self, name, a, b, tol=None):
        tol = tol or self.tol
        self.checked += 1
        a, b = np.asarray(flat(a)[1], dtype=float), np.asarray(flat(b)[1], dtype=float)
        sc = max(1.0, np.abs(b).max() if b.size else 1.0)
        if not (a <= b + tol * sc).all():
            raise Failure(name, f"{a} <= {b} fails")

    def lt(self, name, a, b, tol=None):
        self.le(name, a, b, tol)

    def stub(self, M, fn, repl):
        pass

    def loop(self, *a, **k):
        return None

    def spy(self, M, fn, wrap):
        import sys
        if fn is None:
            return
        w = lambda *a, **k: wrap(fn, *a, **k)
        for m in [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "pyvallocation" and m is not None]:
            for k, v in list(vars(m).items()):
                if v is fn:
                    self.spies.append((m, k, v))
                    setattr(m, k, w)

    def hook(self, name, f):
        self.hooks[name] = f

    def record(self):
        return self._rec_list
