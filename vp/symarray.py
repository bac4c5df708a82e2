"""Arrays with symbolic numbers of rows / columns: a shape of integer terms and the element at a generic index.

Every operation is numpy's definition of the result element by element; contractions are canonical sums (sums.py).
Operations that need the elements one by one (sorting, Python iteration, forks on an element) are outside the fragment.
"""
from __future__ import annotations
import itertools
from fractions import Fraction
import numbers
import numpy as np
from . import term as tm
from . import sums
from .term import T, B, Unsupported, ZERO, lift, ENG

NUM = (int, float, Fraction, np.number, np.bool_, T, B)


def dimT(n):
    n = lift(n)
    return int(n.cval()) if n.is_const() else n


def is1(n):
    return isinstance(n, int) and n == 1


def where_index(c):
    """The positions of the true entries: every listed position is true, and every true position is listed."""
    c = wrap(c).copy()
    if c.ndim != 1:
        raise Unsupported("positions of the true entries of a matrix of symbolic size")
    n = c.shape[0]
    holds = lambda i: tm.tob(c.at(i)) if c.boolean else tm.neg(c.at(i) == 0)
    probe = tm.tob(holds(T.var("#probe", isint=True)))
    key = ("where", lift(n).key(), probe.key())
    if key in sums.MEMO:
        return sums.MEMO[key]
    e = ENG()
    q = next(_XN)
    L = T.var(f"#n{q}", isint=True)
    e.assume(L >= 0)
    e.assume(L <= n)
    ix = SymArray.symbol(f"#ix{q}", (L,), isint=True)
    at = SymArray.symbol(f"#at{q}", (n,), isint=True)
    sums.FACTS[ix.name] = ((L,), {"lo": 0, "hi": lift(n) - 1})
    e.assume(ix.forall(lambda p: tm.conj(p >= 0, p < n, holds(p))))
    i = sums.temp(n, "q")
    e.assume(quant(i, n, tm.implies(holds(i), tm.conj(at.at(i) >= 0, at.at(i) < L, ix.at(at.at(i)) == i))))
    sums.MEMO[key] = ix
    return ix


def argsort(x):
    """ASSUMED (numpy): a permutation, with its inverse, that puts the entries in increasing order."""
    if getattr(x, "inverse", None) is not None:
        return x.inverse
    x = x.copy()
    n = x.shape[0]
    key = ("argsort", lift(n).key(), x.at(T.var("#probe", isint=True)).key())
    if key in sums.MEMO:
        return sums.MEMO[key]
    e = ENG()
    q = next(_XN)
    to, of = SymArray.symbol(f"#pi{q}", (n,), isint=True), SymArray.symbol(f"#rk{q}", (n,), isint=True)
    for a in (to, of):
        sums.FACTS[a.name] = ((n,), {"lo": 0, "hi": lift(n) - 1})
    to.inverse, of.inverse = of, to
    for a, b in ((to, of), (of, to)):
        i = sums.temp(n, "q")
        e.assume(quant(i, n, tm.conj(a.at(i) >= 0, a.at(i) < n, b.at(a.at(i)) == i)))
    i, j = sums.temp(n, "q"), sums.temp(n, "q")
    ri, rj = of.at(i), of.at(j)
    e.assume(quant(i, n, quant(j, n, tm.implies(ri <= rj, x.at(i) <= x.at(j)))))
    sums.MEMO[key] = to
    return to


def pick(c, f, g):
    """f() where c holds else g(), deciding c when the index ranges do."""
    c = tm.tob(c)
    if sums.must(c):
        return f()
    if sums.must(tm.neg(c)):
        return g()
    a, b = f(), g()
    if isinstance(a, B) or isinstance(b, B):
        a, b = tm.tob(a), tm.tob(b)
        return tm.disj(tm.conj(c, a), tm.conj(tm.neg(c), b))
    return tm.ite(c, a, b)


_XN = itertools.count()


def over(n, f):
    """sum of f over 0..n-1, written out when n is a small number"""
    if isinstance(n, int) and n <= 6:
        r = ZERO
        for k in range(n):
            r = r + f(lift(k))
        return r
    t = sums.temp(n)
    return sums.summ(lift(f(t)), t, n)


class SymArray:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, shape, fn, boolean=False, base=None):
        self._shape = tuple(dimT(n) for n in shape)
        self.fn = fn
        self.boolean = boolean
        self.base = base               # the array this one is a view of
        self.viewed = False
        self._memo = {}
        self.masked = None             # (mask, array): these are its entries where the mask holds
        if base is not None:
            base.viewed = True

    # -- construction
    @staticmethod
    def symbol(name, shape, sym=False, isint=False):
        if sym:
            sums.SYM.add(name)
        sums.FACTS[name] = (tuple(shape), {})
        a = SymArray(shape, lambda *i: sums.app(name, *i, isint=isint))
        a.isint = isint
        a.name = name
        return a

    def fixed(self):
        """The entries one by one when the shape is known."""
        if not all(isinstance(n, int) for n in self._shape) or prodT(self._shape) > 64:
            return None
        a = np.empty(self._shape, dtype=object)
        for ix in np.ndindex(*self._shape):
            a[ix] = self.at(*ix)
        return a

    # -- shape
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = lift(1)
        for n in self._shape:
            r = r * n
        return dimT(r)

    @property
    def dtype(self):
        return np.dtype(bool) if self.boolean else np.dtype(float)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return SymArray(self._shape[::-1], lambda *i: self.at(*i[::-1]), self.boolean, base=self)

    def transpose(self, *a):
        return self.T

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic number of rows outside the instrumented code")

    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("Python iteration over a symbolic number of entries")

    def __array__(self, *a, **k):
        raise Unsupported("array of symbolic size used where only a fixed size is understood")

    def __bool__(self):
        if self.ndim == 0 or all(is1(n) for n in self._shape):
            return bool(tm.tob(self.item()))
        if all(sums.must(lift(n) == 1) for n in self._shape):
            return bool(tm.tob(self.at(*[0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    # -- elements
    def at(self, *idx):
        idx = tuple(lift(i) for i in idx)
        assert len(idx) == self.ndim, (idx, self._shape)
        k = tuple(i.key() for i in idx)
        v = self._memo.get(k)
        if v is None:
            e = sums.pure()
            tm._ENGINE.append(e)
            try:
                v = self.fn(*idx)
            finally:
                tm._ENGINE.pop()
            v = tm.tob(v) if self.boolean else (lift(v) if not isinstance(v, B) else lift(v))
            self._memo[k] = v
        return v

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if not all(is1(n) or sums.must(lift(n) == 1) for n in self._shape):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.at(*[0] * self.ndim)

    def copy(self, *a, **k):
        f = self.fn if self.base is None else self.at
        r = SymArray(self._shape, f, self.boolean)
        r.masked = self.masked
        return r

    def astype(self, *a, **k):
        return self.copy()

    def tolist(self):
        raise Unsupported("tolist of an array of symbolic size")

    def map(self, f, boolean=False):
        s = self.copy()
        r = SymArray(self._shape, lambda *i: f(s.at(*i)), boolean)
        if self.masked is not None:
            r.masked = (self.masked[0], self.masked[1].map(f, boolean))
        return r

    # -- indexing
    def _norm(self, key):
        key = key if isinstance(key, tuple) else (key,)
        out = []
        n_el = sum(1 for k in key if k is not None and k is not Ellipsis)
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_el)
            else:
                out.append(interval(k))
        out += [slice(None)] * (self.ndim - sum(1 for k in out if k is not None))
        return out

    def _plan(self, key):
        """(shape of the result, map from result index to own index, map own index -> (condition, result index))."""
        plan = []
        d = 0
        for k in self._norm(key):
            if k is None:
                plan.append(("new",))
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                step = 1 if k.step is None else k.step
                step = int(lift(step).cval())
                if step == 1:
                    lo, hi = self._bound(k.start, n, 0), self._bound(k.stop, n, n)
                    plan.append(("sl", d, lo, hi, 1))
                elif step == -1 and k.start is None and k.stop is None:
                    plan.append(("sl", d, lift(n) - 1, None, -1))
                else:
                    raise Unsupported("slice step")
            elif isinstance(k, (int, np.integer, T)) and not isinstance(k, bool):
                k = lift(k)
                if sums.must(tm.conj(k >= 0, k < n)):
                    e = k
                elif sums.must(tm.conj(k < 0, k >= -lift(n))):
                    e = k + n
                else:
                    if ENG().decide(tm.conj(k >= 0, k < n)) if k.is_const() and k.cval() >= 0 else False:
                        e = k
                    elif k.is_const() and k.cval() < 0 and ENG().decide(k + n >= 0):
                        e = k + n
                    else:
                        raise IndexError("index out of bounds")
                plan.append(("ix", d, e))
            else:
                raise Unsupported(f"index of type {type(k).__name__} on an array of symbolic size")
            d += 1
        shape = []
        for p in plan:
            if p[0] == "new":
                shape.append(1)
            elif p[0] == "sl":
                shape.append(self._shape[p[1]] if p[4] == -1 else dimT(p[3] - p[2]))
        return plan, shape

    def _bound(self, b, n, default):
        if b is None:
            return lift(default)
        b = lift(b)
        n = lift(n)
        if b.is_const() and b.cval() < 0:
            b = b + n
        if sums.must(tm.conj(b >= 0, b <= n)):
            return b
        if ENG().decide(b < 0):
            return ZERO
        if ENG().decide(b > n):
            return n
        return b

    def __getitem__(self, key):
        if is_diag(key):
            return np_diag(self)
        if isinstance(key, SymArray) or isinstance(key, (list, np.ndarray)):
            if isinstance(key, SymArray) and not key.boolean:
                k = key.ndim
                src, ix = self.copy(), key.copy()
                return SymArray(key.shape + self._shape[1:], lambda *i: src.at(ix.at(*i[:k]), *i[k:]), self.boolean)
            if isinstance(key, SymArray) and key.ndim == 1 and dims_equal(key.shape[0], self._shape[0]):
                s, c = self.copy(), key.copy()
                t = sums.temp(self._shape[0])
                if sums.must(c.at(t)):
                    return s
                r = s[where(c)[0]]
                r.masked = (c, s)
                return r
            raise Unsupported("fancy index on an array of symbolic size")
        if isinstance(key, tuple) and any(isinstance(interval(k), slice) and not isinstance(k, slice) for k in key):
            return self[tuple(interval(k) for k in key)].copy()
        if isinstance(key, tuple) and any(isinstance(k, (SymArray, list, np.ndarray)) for k in key):
            q = [j for j, k in enumerate(key) if isinstance(k, (SymArray, list, np.ndarray))]
            if len(q) == 1 and not isinstance(key[q[0]], SymArray) and all(k is None or isinstance(k, slice) for j, k in enumerate(key) if j != q[0]) \
                    and all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in key[q[0]]) and len(key[q[0]]):
                cols = [self[key[:q[0]] + (int(x),) + key[q[0] + 1:]] for x in key[q[0]]]
                return np_stack(cols, axis=q[0])
            raise Unsupported("fancy index on an array of symbolic size")
        plan, shape = self._plan(key)

        def src(idx):
            own = [None] * self.ndim
            it = iter(idx)
            for p in plan:
                if p[0] == "new":
                    next(it)
                elif p[0] == "sl":
                    own[p[1]] = next(it) * p[4] + p[2]
                else:
                    own[p[1]] = p[2]
            return own
        if not shape and not any(p[0] != "ix" for p in plan):
            return self.at(*src(()))
        return SymArray(shape, lambda *i: self.at(*src(i)), self.boolean, base=self)

    def __setitem__(self, key, val):
        self._mutable()
        if is_diag(key):
            np_fill_diagonal(self, val.copy() if isinstance(val, SymArray) else val)
            return
        if isinstance(key, SymArray) and key.boolean:
            if not (same_shape(key.shape, self._shape) and isinstance(val, NUM + (np.floating,))):
                raise Unsupported("masked assignment of this shape")
            old, c = SymArray(self._shape, self.fn, self.boolean), key.copy()
            self.fn = lambda *i: pick(c.at(*i), lambda: lift(val), lambda: old.at(*i))
            self._memo = {}
            return
        if isinstance(key, SymArray) and getattr(key, "inverse", None) is not None and self.ndim == 1 and same_shape(key.shape, self._shape):
            v, of = broadcast_to(snap(val), self._shape), key.inverse
            self.fn = lambda i: v.at(of.at(i))
            self._memo = {}
            return
        plan, shape = self._plan(key)
        old = SymArray(self._shape, self.fn, self.boolean)
        v = wrap(val)
        v = v.copy() if isinstance(v, SymArray) else v
        vb = broadcast_to(v, shape)

        def fn(*own):
            conds, res = [], []
            for p in plan:
                if p[0] == "new":
                    res.append(ZERO)
                elif p[0] == "ix":
                    conds.append(own[p[1]] == p[2])
                elif p[4] == -1:
                    res.append(p[2] - own[p[1]])
                else:
                    conds += [own[p[1]] >= p[2], own[p[1]] < p[3]]
                    res.append(own[p[1]] - p[2])
            return pick(tm.conj(*conds), lambda: vb.at(*res), lambda: old.at(*own))
        self.fn = fn
        self._memo = {}

    def _mutable(self):
        if self.base is not None or self.viewed:
            raise Unsupported("in-place change of a view, or of an array with views")

    # -- reshaping
    def reshape(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = tuple(a[0])
        a = [dimT(x) for x in a]
        src = [i for i, n in enumerate(self._shape) if not is1(n)]       # essential axes
        if a.count(-1) > 1:
            raise ValueError("can only specify one unknown dimension")
        if -1 in a:
            q = a.index(-1)
            known = lift(1)
            for x in a:
                known = known * (1 if isinstance(x, int) and x == -1 else x)
            a[q] = dimT(lift(self.size) / known)
        if not sums.must(lift(self.size) == prodT(a)):
            raise Unsupported("reshape to a size not shown equal") if not sums.must(lift(self.size) != prodT(a)) else ValueError("cannot reshape array")
        dst = [i for i, n in enumerate(a) if not is1(n)]
        if len(src) == len(dst) and all(sums.must(lift(self._shape[i]) == a[j]) for i, j in zip(src, dst)):
            def fn(*idx):
                own = [ZERO] * self.ndim
                for i, j in zip(src, dst):
                    own[i] = idx[j]
                return self.at(*own)
            return SymArray(a, fn, self.boolean, base=self)
        raise Unsupported("reshape that mixes symbolic axes")

    def ravel(self, *a, **k):
        return self.reshape(-1)

    def flatten(self, *a, **k):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        return self.reshape(*[n for n in self._shape if not is1(n)])

    # -- reductions
    def _axes(self, axis):
        if axis is None:
            return list(range(self.ndim))
        ax = axis if isinstance(axis, (tuple, list)) else (axis,)
        return sorted(int(x) % self.ndim for x in ax)

    def sum(self, axis=None, keepdims=False, dtype=None, **k):
        if self.masked is not None and self.ndim == 1 and not keepdims:
            c, m = self.masked
            return over(m._shape[0], lambda t: pick(c.at(t), lambda: lift(m.at(t)), lambda: ZERO))
        s = self.copy()
        ax = self._axes(axis)
        keep = [i for i in range(self.ndim) if i not in ax]

        def fn(*idx):
            own = [None] * s.ndim
            for i, q in enumerate(keep):
                own[q] = idx[i]
            def go(todo):
                if not todo:
                    return lift(s.at(*own))

                def f(v):
                    own[todo[0]] = v
                    return go(todo[1:])
                return over(s._shape[todo[0]], f)
            return go(list(ax))
        if not keep and not keepdims:
            return SymArray((), fn).at()
        r = SymArray([self._shape[q] for q in keep], fn)
        if keepdims:
            r = SymArray([1 if q in ax else self._shape[q] for q in range(self.ndim)], lambda *i, r=r: r.at(*[i[q] for q in keep]))
        return r

    def _count(self, axis):
        r = lift(1)
        for q in self._axes(axis):
            r = r * self._shape[q]
        return r

    def mean(self, axis=None, keepdims=False, **k):
        return self.sum(axis, keepdims=keepdims) / self._count(axis)

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        d = self - self.mean(axis, keepdims=True)
        return (d * d).sum(axis, keepdims=keepdims) / (self._count(axis) - ddof)

    def std(self, axis=None, ddof=0, **k):
        r = self.var(axis, ddof, **k)
        return r.map(tm.sqrt) if isinstance(r, SymArray) else tm.sqrt(r)

    def dot(self, o):
        return self @ o

    def trace(self):
        return np_trace(self)

    def forall(self, pred):
        s = self.copy()
        vs = [sums.temp(n, "q") for n in self._shape]
        b = tm.tob(SymArray((), lambda: pred(s.at(*vs)), boolean=True).at())
        for v, n in reversed(list(zip(vs, self._shape))):
            b = quant(v, n, b)
        return b

    def all(self, axis=None, **k):
        if axis is None:
            return self.forall(tm.tob)
        return self._along(axis, lambda x: x.all())

    def any(self, axis=None, **k):
        if axis is None:
            return tm.neg(self.forall(lambda v: tm.neg(tm.tob(v))))
        return self._along(axis, lambda x: x.any())

    def _no(self, *a, **k):
        raise Unsupported("order statistics of an array of symbolic size")
    searchsorted = prod = cumprod = _no

    def argsort(self, axis=-1, **k):
        if self.ndim != 1:
            raise Unsupported("argsort of a matrix of symbolic size")
        return argsort(self)

    def sort(self, axis=-1, **k):
        self._inplace(self.copy()[self.argsort()])

    def nonzero(self):
        return where(self)

    def argmin(self, axis=None, **k):
        return self._arg(axis, lambda v, m: v >= m, "argmin")

    def _arg(self, axis, f, tag):
        """The position of a least / greatest entry."""
        if self.boolean:
            raise Unsupported("order statistics of truth values")
        if self.ndim != 1:
            if axis is None:
                raise Unsupported("argmax of a flattened array")
            return self._along(axis, lambda x: x._arg(None, f, tag))
        s, n = self.copy(), self._shape[0]
        key = (tag, lift(n).key(), s.at(T.var("#probe", isint=True)).key())
        if key in sums.MEMO:
            return sums.MEMO[key]
        e = ENG()
        if not e.decide(lift(n) >= 1):
            raise ValueError("attempt to get argmax of an empty sequence")
        x = T.var(f"#x{next(_XN)}", isint=True)
        e.assume(x >= 0)
        e.assume(x < n)
        m = s.at(x)
        e.assume(s.forall(lambda v: f(v, m)))
        sums.MEMO[key] = x
        return x

    def argmax(self, axis=None, **k):
        """Of truth values: the first true entry (0 when there is none)."""
        if not self.boolean:
            return self._arg(axis, lambda v, m: v <= m, "argmax")
        if self.ndim > 1:
            if axis is None:
                raise Unsupported("argmax of a flattened array")
            return self._along(axis, lambda x: x.argmax())
        s, n = self.copy(), self._shape[0]
        probe = tm.tob(s.at(T.var("#probe", isint=True)))
        key = ("first", lift(n).key(), probe.key())
        if key in sums.MEMO:
            return sums.MEMO[key]
        e = ENG()
        if not e.decide(lift(n) >= 1):
            raise ValueError("attempt to get argmax of an empty sequence")
        x = T.var(f"#x{next(_XN)}", isint=True)
        e.assume(x >= 0)
        e.assume(x < n)
        c = lambda i: tm.tob(s.at(i))
        # consequences of "first true entry, or 0": enough for what follows, all of them instances
        e.assume(tm.disj(c(x), x == 0))
        e.assume(tm.disj(c(x), tm.neg(c(lift(n) - 1))))
        if not e.decide(x == 0):
            e.assume(tm.neg(c(x - 1)))
        sums.MEMO[key] = x
        return x

    def _along(self, axis, f, keepdims=False):
        """f of every line along the axis, the other axes being of concrete size"""
        import itertools
        ax = axis % self.ndim
        rest = [n for p, n in enumerate(self._shape) if p != ax]
        if not all(isinstance(n, int) for n in rest):
            raise Unsupported("order statistics along one of several axes of symbolic size")
        out = {}
        for ix in itertools.product(*(range(n) for n in rest)):
            out[ix] = f(self[ix[:ax] + (slice(None),) + ix[ax:]])
        if not rest:
            return out[()]
        r = np.empty(tuple(rest), dtype=object)
        for ix, v in out.items():
            r[ix] = v
        return np.expand_dims(r, ax) if keepdims else r

    def _extreme(self, axis, f, keepdims=False):
        """The least / greatest entry: an entry that bounds all others."""
        if axis is not None:
            return self._along(axis, lambda x: x._extreme(None, f), keepdims)
        e = ENG()
        if not e.decide(tm.conj(*[lift(n) >= 1 for n in self._shape])):
            raise ValueError("zero-size array to reduction operation which has no identity")
        ks = [T.var(f"#x{next(_XN)}", isint=True) for _ in self._shape]
        for k, n in zip(ks, self._shape):
            e.assume(k >= 0)
            e.assume(k < n)
        s = self.copy()
        m = s.at(*ks)
        e.assume(s.forall(lambda v: f(v, m)))
        return m

    def min(self, axis=None, keepdims=False, **k):
        return self._extreme(axis, lambda v, m: v >= m, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return self._extreme(axis, lambda v, m: v <= m, keepdims)

    def clip(self, lo=None, hi=None, **k):
        from . import npx
        return npx.np_clip(self, lo, hi)

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis)

    def round(self, *a):
        raise Unsupported("round")

    # -- arithmetic
    def _bin(self, o, f, boolean=False):
        return map2(f, self, o, boolean)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return map2(lambda a, b: a + b, o, self)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return map2(lambda a, b: a - b, o, self)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return map2(lambda a, b: a * b, o, self)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return map2(lambda a, b: a / b, o, self)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __rpow__(self, o): return map2(lambda a, b: a ** b, o, self)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __neg__(self): return self.map(lambda a: -a)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(absT)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, True)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, True)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, True)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, True)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, True)
    def __ne__(self, o): return self._bin(o, lambda a, b: tm.neg(a == b), True)
    def __and__(self, o): return self._bin(o, lambda a, b: tm.conj(a, b), True)
    def __or__(self, o): return self._bin(o, lambda a, b: tm.disj(a, b), True)
    def __invert__(self): return self.map(tm.neg, True)
    __hash__ = None
    __rand__, __ror__ = __and__, __or__

    def _inplace(self, r):
        self._mutable()
        if not (isinstance(r, SymArray) and same_shape(r.shape, self._shape)):
            raise ValueError("non-broadcastable output operand")
        self.fn = r.fn if r.base is None else r.at
        self._memo = {}
        return self

    def __iadd__(self, o): return self._inplace(self.copy() + o)
    def __isub__(self, o): return self._inplace(self.copy() - o)
    def __imul__(self, o): return self._inplace(self.copy() * o)
    def __itruediv__(self, o): return self._inplace(self.copy() / o)

    def __matmul__(self, o):
        return matmul(self, wrap(o))

    def __rmatmul__(self, o):
        return matmul(wrap(o), self)

    def __repr__(self):
        return f"SymArray{self._shape}"

    def to_numpy(self, *a, **k):
        return self


def prodT(a):
    r = lift(1)
    for x in a:
        r = r * x
    return r


def absT(v):
    s = sums.sign(v)
    return v if s >= 1 else tm.absv(v)


def quant(v, n, b):
    b = tm.tob(b)
    if b.kind in ("true",):
        return b
    if sums.vid(v) not in tm.deps(b):
        return b if sums.must(lift(n) >= 1) else tm.disj(lift(n) <= 0, b)
    if isinstance(n, int) and n <= 16:
        return tm.conj(*[tm.substitute(b, {sums.vid(v): lift(k)}) for k in range(n)])
    return B("forall", v, ZERO, lift(n), b)


def wrap(x):
    """SymArray for anything array-like; scalars have shape ()."""
    if isinstance(x, SymArray):
        return x
    if type(x).__name__ == "SymMatrix":
        return wrap(x.arr)
    if isinstance(x, NUM):
        v = x if isinstance(x, (T, B)) else lift(x)
        return SymArray((), lambda: v, isinstance(x, B))
    from . import npx
    if isinstance(x, (list, tuple)) and npx.any_sa(x):
        return stack_list(x)
    a = npx.from_any(x)
    if a.dtype == object or a.dtype.kind in "fiub":
        def fn(*idx, a=a):
            def go(sub, rest):
                if not rest:
                    return lift(sub if not isinstance(sub, np.ndarray) else sub.item())
                i, n = rest[0], sub.shape[0]
                if i.is_const():
                    return go(sub[int(i.cval())], rest[1:])
                if n > 16:
                    raise Unsupported("long fixed array at a symbolic index")
                r = go(sub[n - 1], rest[1:])
                for q in range(n - 2, -1, -1):
                    r = pick(i == q, lambda q=q: go(sub[q], rest[1:]), lambda r=r: r)
                return r
            return go(a, list(idx))
        return SymArray(a.shape, fn, a.dtype == bool)
    raise Unsupported(f"array of {a.dtype} with arrays of symbolic size")


def dims_equal(a, b):
    """Are the dimensions equal?  Forks when the path does not say."""
    d = lift(a) - lift(b)
    if not d.d:
        return True
    if d.is_const():
        return False
    c = lift(a) == lift(b)
    e = ENG()
    return e.decide(c)


def same_shape(s1, s2):
    return len(s1) == len(s2) and all(dims_equal(a, b) for a, b in zip(s1, s2))


def bshape(s1, s2):
    k = max(len(s1), len(s2))
    s1 = (1,) * (k - len(s1)) + tuple(s1)
    s2 = (1,) * (k - len(s2)) + tuple(s2)
    out = []
    for a, b in zip(s1, s2):
        if is1(a):
            out.append(b)
        elif is1(b):
            out.append(a)
        elif dims_equal(a, b):
            out.append(a if isinstance(a, int) else b)
        elif not isinstance(a, int) and ENG().decide(lift(a) == 1):
            out.append(b)
        elif not isinstance(b, int) and ENG().decide(lift(b) == 1):
            out.append(a)
        else:
            raise ValueError("operands could not be broadcast together")
    return tuple(out)


def bindex(shape, out, idx):
    off = len(out) - len(shape)
    r = []
    for d, n in enumerate(shape):
        i = idx[off + d]
        m = out[off + d]
        if is1(n):
            i = ZERO
        elif not isinstance(n, int) and not (lift(n) - lift(m)).d == {} and sums.must(lift(n) == 1) and not sums.must(lift(m) == 1):
            i = ZERO
        r.append(i)
    return r


def broadcast_to(x, shape):
    x = wrap(x)
    shape = tuple(dimT(n) for n in shape)
    out = bshape(x.shape, shape)
    if len(out) != len(shape) or not same_shape(out, shape):
        raise ValueError("could not broadcast input array")
    return SymArray(shape, lambda *i: x.at(*bindex(x.shape, shape, i)), x.boolean)


def snap(x):
    x = wrap(x)
    return x.copy() if x.ndim or x.base is not None else x


def map2(f, x, y, boolean=False):
    from . import npx
    if f is npx._maxT:
        f = maxT
    elif f is npx._minT:
        f = minT
    if npx.is_pandas(x) or npx.is_pandas(y):
        raise Unsupported("pandas object with an array of symbolic size")
    a, b = snap(x), snap(y)
    out = bshape(a.shape, b.shape)
    r = SymArray(out, lambda *i: f(a.at(*bindex(a.shape, out, i)), b.at(*bindex(b.shape, out, i))), boolean)
    if a.masked is not None and b.ndim == 0:
        r.masked = (a.masked[0], map2(f, a.masked[1], b, boolean))
    elif b.masked is not None and a.ndim == 0:
        r.masked = (b.masked[0], map2(f, a, b.masked[1], boolean))
    elif a.masked is not None and b.masked is not None and (a.masked[0] is b.masked[0] or where_index(a.masked[0]) is where_index(b.masked[0])):
        r.masked = (a.masked[0], map2(f, a.masked[1], b.masked[1], boolean))
    return r if out else r.at()


def maxT(a, b):
    if sums.must(a >= b):
        return a
    if sums.must(b >= a):
        return b
    return tm.maxv(a, b)


def minT(a, b):
    return -maxT(-a, -b)


def matmul(a, b):
    a, b = snap(a), snap(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul beyond 2-D")
    n, m = a.shape[-1], b.shape[0]
    if not dims_equal(n, m):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension")
    n = n if isinstance(n, int) else m

    def fn(*idx):
        i = idx[:1] if a.ndim == 2 else ()
        j = idx[-1:] if b.ndim == 2 else ()
        return over(n, lambda t: lift(a.at(*i, t)) * b.at(t, *j))
    shape = (a.shape[:1] if a.ndim == 2 else ()) + (b.shape[1:] if b.ndim == 2 else ())
    r = SymArray(shape, fn)
    if not shape:
        return r.at()
    f = r.fixed()                        # a fresh array of known shape: entry by entry
    return r if f is None else f


# ------------------------------------------------------------------------------ numpy constructors and functions
def full(shape, v):
    shape = shape if isinstance(shape, (tuple, list)) else (shape,)
    if isinstance(v, (bool, np.bool_)):
        b = tm.tob(v)
        return SymArray(shape, lambda *i: b, True)
    if isinstance(v, NUM):
        v = lift(v)
        return SymArray(shape, lambda *i: v)
    return broadcast_to(v, shape).copy()


def delta(i, j):
    return pick(lift(i) == lift(j), lambda: lift(1), lambda: ZERO)


def eye(n, m=None, k=0):
    return SymArray((n, n if m is None else m), lambda i, j: delta(i + k, j))


def arange(*a):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    lo, hi, st = lift(lo), lift(hi), lift(st)
    if not st.is_const() or abs(st.cval()) != 1 or not lo.isint() or not hi.isint():
        raise Unsupported("arange with a step")
    n = (hi - lo) * st
    if not sums.must(n >= 0):
        if not ENG().decide(n >= 0):
            n = ZERO
    return SymArray((n,), lambda i: lo + st * i)


def interval(k):
    """An index array that runs through consecutive positions lo, lo + 1, ... is the slice lo : lo + size."""
    if not isinstance(k, SymArray) or k.boolean or k.ndim != 1 or getattr(k, "masked", None) is not None:
        return k
    n = k.shape[0]
    if isinstance(n, int) and n == 0:
        return slice(0, 0)
    t = T.var("#probe", isint=True)
    lo, first = k.at(t) - t, k.at(ZERO)
    return slice(first, first + n) if (lo - first).is_const() and not (lo - first).cval() else k


class SymRange:
    def __init__(self, *a):
        self.a = a

    def __iter__(self):
        raise Unsupported("Python loop over a symbolic range")

    def bounds(self):
        a = self.a
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if lift(st) != 1:
            raise Unsupported("range with a step")
        return lift(lo), lift(hi)

    def __symlen__(self):
        lo, hi = self.bounds()
        return maxT(hi - lo, ZERO) if not sums.must(hi >= lo) else hi - lo

    def __contains__(self, v):
        lo, hi = self.bounds()
        if not isinstance(v, NUM) or isinstance(v, (bool, B)) or not lift(v).isint():
            return False
        return bool(tm.conj(lift(v) >= lo, lift(v) < hi))

    def index(self, v):
        if v not in self:
            raise ValueError(f"{v} is not in list")
        lo, _ = self.bounds()
        return (lambda r: int(r.cval()) if r.is_const() else r)(lift(v) - lo)


class SymSeries:
    def __init__(self, *a):
        raise Unsupported("pandas object of symbolic length")


def concat(parts, axis=0):
    parts = [snap(p) for p in parts]
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts):
        raise ValueError("all the input array dimensions must match")
    axis = axis % nd
    for p in parts[1:]:
        for d in range(nd):
            if d != axis and not dims_equal(parts[0].shape[d], p.shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [ZERO]
    for p in parts:
        offs.append(offs[-1] + p.shape[axis])

    def fn(*i):
        def go(q):
            if q == len(parts) - 1:
                return parts[q].at(*[x if d != axis else x - offs[q] for d, x in enumerate(i)])
            return pick(i[axis] < offs[q + 1], lambda: parts[q].at(*[x if d != axis else x - offs[q] for d, x in enumerate(i)]), lambda: go(q + 1))
        return go(0)
    shape = list(parts[0].shape)
    shape[axis] = dimT(offs[-1])
    return SymArray(shape, fn, all(p.boolean for p in parts))


def stack_list(xs):
    xs = [wrap(x) for x in xs]
    return concat([x.reshape(1, *x.shape) if x.ndim else SymArray((1,), lambda i, x=x: x.at()) for x in xs], 0)


def parts_of(xs):
    if isinstance(xs, SymArray):
        raise Unsupported("stacking the rows of an array of symbolic size")
    return [wrap(x) for x in xs]


def np_concatenate(xs, axis=0, **k):
    return concat(parts_of(xs), axis)


def np_vstack(xs, **k):
    return concat([x if x.ndim >= 2 else np_atleast_2d(x) for x in parts_of(xs)], 0)


np_row_stack = np_vstack


def np_hstack(xs, **k):
    p = [np_atleast_1d(x) for x in parts_of(xs)]
    return concat(p, 0 if p[0].ndim == 1 else 1)


def np_column_stack(xs, **k):
    return concat([x if x.ndim == 2 else x.reshape(-1, 1) for x in parts_of(xs)], 1)


def np_stack(xs, axis=0, **k):
    p = parts_of(xs)
    if axis == 0:
        return stack_list(p)
    if axis in (1, -1) and p[0].ndim == 1:
        return np_column_stack(p)
    if 0 <= axis <= p[0].ndim:
        if not all(same_shape(x.shape, p[0].shape) for x in p):
            raise ValueError("all input arrays must have the same shape")
        shape = p[0].shape
        ps = [x.copy() for x in p]

        def fn(*i):
            rest = i[:axis] + i[axis + 1:]

            def go(q):
                return ps[q].at(*rest) if q == len(ps) - 1 else pick(lift(i[axis]) == q, lambda: ps[q].at(*rest), lambda: go(q + 1))
            return go(0)
        return SymArray(shape[:axis] + (len(ps),) + shape[axis:], fn)
    raise Unsupported("stack along this axis")


def np_block(xs, **k):
    return np_vstack([np_hstack(r) if isinstance(r, (list, tuple)) else r for r in xs])


def np_append(a, b, axis=None):
    return concat([wrap(a).reshape(-1), np_atleast_1d(wrap(b)).reshape(-1)], 0) if axis is None else concat([wrap(a), wrap(b)], axis)


def np_atleast_1d(x):
    x = wrap(x)
    return x if x.ndim else SymArray((1,), lambda i: x.at())


def np_atleast_2d(x):
    x = wrap(x)
    if x.ndim >= 2:
        return x
    x = np_atleast_1d(x)
    return SymArray((1,) + x.shape, lambda i, j: x.at(j), x.boolean, base=x)


def np_ravel(x, *a, **k): return x.ravel()
def np_squeeze(x, axis=None): return x.squeeze(axis)
def np_transpose(x, *a): return x.T
def np_reshape(x, *a, **k): return x.reshape(*a)
def np_ndim(x): return x.ndim
def np_shape(x): return x.shape
def np_size(x): return x.size
def np_copy(x, **k): return x.copy()
def np_broadcast_to(x, shape, **k): return broadcast_to(x, shape)
def np_multiply(a, b, **k): return map2(lambda p, q: p * q, a, b)
def np_add(a, b, **k): return map2(lambda p, q: p + q, a, b)
def np_subtract(a, b, **k): return map2(lambda p, q: p - q, a, b)
def np_negative(a, **k): return -a
def np_matmul(a, b, **k): return wrap(a) @ b
def np_logical_not(a): return ~a
def np_logical_and(a, b): return map2(lambda p, q: tm.conj(p, q), a, b, True)
def np_logical_or(a, b): return map2(lambda p, q: tm.disj(p, q), a, b, True)
def np_iscomplexobj(a): return False
def np_isrealobj(a): return True
def np_vdot(a, b): return wrap(a) @ b


def np_inner(a, b):
    return wrap(a) @ b


def np_expand_dims(x, axis):
    return x[tuple([slice(None)] * (axis % (x.ndim + 1)) + [None])]


def np_outer(a, b):
    a, b = wrap(a).reshape(-1), wrap(b).reshape(-1)
    return a[:, None] * b[None, :]


def np_diag(x, k=0):
    x = wrap(x)
    if k:
        raise Unsupported("diag offset")
    s = x.copy()
    if x.ndim == 1:
        return SymArray((x.shape[0], x.shape[0]), lambda i, j: pick(i == j, lambda: s.at(i), lambda: ZERO))
    if not dims_equal(*x.shape):
        raise Unsupported("diagonal of a rectangular matrix")
    return SymArray((x.shape[0],), lambda i: s.at(i, i))


np_diagonal = np_diag


def np_diag_indices(n, ndim=2):
    d = arange(n)
    d.diag = True
    return (d, d)


def is_diag(key):
    return isinstance(key, tuple) and len(key) == 2 and all(getattr(k, "diag", False) for k in key)


def np_diagflat(x):
    return np_diag(wrap(x).ravel())


def np_trace(x):
    return np_diag(x).sum()


def np_fill_diagonal(x, v, **k):
    x._mutable()
    old = SymArray(x.shape, x.fn)
    v = wrap(v)
    x.fn = lambda i, j: pick(i == j, lambda: v.at(*([i] if v.ndim else [])), lambda: old.at(i, j))
    x._memo = {}


def np_tril(x, k=0):
    s = x.copy()
    return SymArray(x.shape, lambda i, j: pick(j <= i + k, lambda: s.at(i, j), lambda: ZERO))


def np_triu(x, k=0):
    s = x.copy()
    return SymArray(x.shape, lambda i, j: pick(j >= i + k, lambda: s.at(i, j), lambda: ZERO))


def np_cumsum(x, axis=None, **k):
    s = x.copy() if x.ndim == 1 or axis is not None else x.reshape(-1).copy()
    ax = 0 if axis is None else axis % s.ndim

    def fn(*i):
        t = sums.temp(i[ax] + 1)
        return sums.summ(s.at(*[t if d == ax else q for d, q in enumerate(i)]), t, i[ax] + 1)
    return SymArray(s.shape, fn)


def np_argmax(x, axis=None, **k): return x.argmax(axis)
def np_argsort(x, axis=-1, **k): return x.argsort(axis)
def np_sort(x, axis=-1, **k): return x[x.argsort(axis)]
def np_argmin(x, axis=None, **k): return x.argmin(axis)
def np_nonzero(x): return (where_index(x),)


def np_flatnonzero(x): return where_index(wrap(x).ravel())


def np_take_along_axis(x, idx, axis=None):
    x, idx = wrap(x).copy(), wrap(idx).copy()
    if axis is None or x.ndim != idx.ndim:
        raise Unsupported("take_along_axis of these shapes")
    ax = axis % x.ndim
    for p in range(x.ndim):
        if p != ax and not dims_equal(x.shape[p], idx.shape[p]):
            raise Unsupported("take_along_axis with broadcasting")
    return SymArray(idx.shape, lambda *i: x.at(*[idx.at(*i) if p == ax else i[p] for p in range(x.ndim)]))


def np_diff(x, n=1, axis=-1, **k):
    if n != 1:
        raise Unsupported("higher differences")
    ax = axis % x.ndim
    lo = [slice(None)] * x.ndim
    hi = list(lo)
    lo[ax], hi[ax] = slice(None, -1), slice(1, None)
    return x[tuple(hi)] - x[tuple(lo)]


def np_dot(a, b, **k):
    a, b = wrap(a), wrap(b)
    return a @ b if a.ndim and b.ndim else a * b


def np_einsum(spec, *ops, **k):
    ops = [snap(o) for o in ops]
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    size = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            if c in size and not dims_equal(size[c], n):
                raise ValueError("einsum: dimension mismatch")
            size[c] = n

    def fn(*idx):
        ix = dict(zip(out, idx))
        red = [c for c in size if c not in ix]
        for c in red:
            ix[c] = sums.temp(size[c])
        r = lift(1)
        for s, o in zip(ins, ops):
            r = r * o.at(*[ix[c] for c in s])
        for c in red:
            r = sums.summ(r, ix[c], size[c])
        return r
    r = SymArray([size[c] for c in out], fn)
    return r if out else r.at()


def where(c, *a):
    if not a:
        return (where_index(c),)
    c, x, y = snap(c), snap(a[0]), snap(a[1])
    out = bshape(bshape(c.shape, x.shape), y.shape)
    return SymArray(out, lambda *i: pick(c.at(*bindex(c.shape, out, i)), lambda: x.at(*bindex(x.shape, out, i)),
                                         lambda: y.at(*bindex(y.shape, out, i))))


def cov(m, rowvar=True, bias=False, ddof=None, aweights=None):
    X = m if m.ndim == 2 else np_atleast_2d(m)
    if not rowvar and not is1(X.shape[0]):
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    if aweights is None:
        avg = X.sum(1) / n
        C = (X - avg[:, None])
        C = C @ C.T / (lift(n) - ddof)
    else:
        w = wrap(aweights)
        ws = w.sum()
        avg = (X * w).sum(1) / ws
        fact = ws if ddof == 0 else ws - ddof * (w * w).sum() / ws
        C = X - avg[:, None]
        C = (C * w) @ C.T / fact
    return C.squeeze() if not all(is1(x) for x in C.shape) else C.item()


_inv = {}


def matkey(M):
    """Canonical key of the diagonal and off-diagonal entries of M (equal keys: equal matrices), and whether M is symmetric."""
    n = M.shape[0]
    i, j = T.var("#key.0", isint=True), T.var("#key.1", isint=True)
    sums.RANGE[sums.vid(i)] = sums.RANGE[sums.vid(j)] = (ZERO, lift(n))
    sums.EXTRA[sums.vid(i)] = tm.neg(i == j)
    M = M.copy()
    d, a, b = M.at(i, i), M.at(i, j), M.at(j, i)
    for q in tm.deps(a) | tm.deps(d) | tm.deps(b):
        at = tm._BYID[q]
        if at.kind == "var" and str(at.args[0]).startswith("#") and at.args[0][1].isalpha() and q not in (sums.vid(i), sums.vid(j)):
            raise Unsupported("matrix depending on a generic index")
    return (lift(n).key(), d.key(), a.key()), tm.is_zero(a - b)


def inv(M, *args, **kw):
    """ASSUMED: M is invertible; the inverse is a function of the entries, symmetric when M is, and contracts with M."""
    M = snap(M)
    if M.ndim != 2 or not dims_equal(*M.shape):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    key, sym = matkey(M)
    name = _inv.setdefault(("inv", key), f"inv!{len(_inv)}")
    r = SymArray.symbol(name, M.shape, sym=sym)
    one = M.at(sums.temp(M.shape[0]), sums.temp(M.shape[0]))
    if len(one.d) == 1:
        (m, c), = one.d.items()
        if c == 1 and len(m) == 1 and tm._BYID[m[0][0]].kind == "app":
            base = tm._BYID[m[0][0]].args[0]
            for p, q in ((1, 0),):
                sums.CONTRACT[(name, 1, base, 0)] = delta
                sums.CONTRACT[(base, 1, name, 0)] = delta
    return r


def cholesky(M, lower=True):
    """ASSUMED: M is positive definite; L is lower triangular, L L' = M, a function of the entries of M."""
    M = snap(M)
    key, sym = matkey(M)
    name = _inv.setdefault(("chol", key), f"chol!{len(_inv)}")
    L = SymArray.symbol(name, M.shape)
    sums.CONTRACT[(name, 1, name, 1)] = lambda a, b: M.at(a, b)
    return L if lower else L.T


# ------------------------------------------------------------------------------ contract helpers
def assume_range(path, a, **rng):
    from .spec import bounds
    lo, hi, los, his = bounds(rng.get("lo"), rng.get("hi"), rng.get("lo_strict"), rng.get("hi_strict"))
    r = {k: v for k, v in dict(lo=lo, hi=hi, lo_strict=los, hi_strict=his).items() if v is not None}
    sums.FACTS[a.name] = (a.shape, r)
    if r:
        def p(v):
            return tm.conj(*[v >= r["lo"] if k == "lo" else v <= r["hi"] if k == "hi" else v > r[k] if k == "lo_strict" else v < r[k] for k in r])
        path.assume(a.forall(p))


def assume_sum(path, a, value):
    s = a.sum()
    (m, c), = s.d.items()
    sums.SUMVALUE[m[0][0]] = lift(value)


def assume_spd(path, a):
    pass          # positive definiteness enters only through the assumed contracts of inv and cholesky


def prove_eq(S, name, a, b):
    a, b = wrap(a), wrap(b)
    if a.ndim != b.ndim:
        S.fail(name, f"shape {a.shape} vs {b.shape}")
        return
    for x, y in zip(a.shape, b.shape):
        S._rec(S.path.prove(name, lift(x) == lift(y)))
    small = [p for p, n in enumerate(a.shape) if isinstance(n, int) and 1 < n <= 6]
    if small and len(small) < a.ndim or small and len(a.shape) == 1:
        p, n = small[0], a.shape[small[0]]
        if a.ndim == 1:
            for k in range(n):
                _prove_at(S, name, a.copy().at(lift(k)), b.copy().at(lift(k)))
        else:
            for k in range(n):
                ix = tuple(k if r == p else slice(None) for r in range(a.ndim))
                prove_eq(S, name, a[ix], b[ix])
        return
    if len(small) == a.ndim and a.ndim:
        import itertools
        for ix in itertools.product(*(range(n) for n in a.shape)):
            ix = [lift(k) for k in ix]
            _prove_at(S, name, a.copy().at(*ix), b.copy().at(*ix))
        return
    idx = []
    for n in a.shape:
        if isinstance(n, int) and n == 1:
            idx.append(ZERO)
            continue
        v = sums.temp(n, "k")
        S.path.assume(v >= 0)
        S.path.assume(v < n)
        idx.append(v)
    same = [(p, q) for p in range(len(idx)) for q in range(p) if idx[p].d and idx[q].d and not (lift(a.shape[p]) - a.shape[q]).d]
    cases = [idx]
    for p, q in same[:1]:                 # the diagonal on its own, then two different indices
        cases.insert(0, [idx[q] if r == p else v for r, v in enumerate(idx)])
    for c in cases:
        if same and c is idx:
            sums.EXTRA[sums.vid(idx[same[0][0]])] = tm.neg(idx[same[0][0]] == idx[same[0][1]])
        x, y = a.copy().at(*c), b.copy().at(*c)
        goal = tm.cmp("==", x - y)
        ob = S.path.prove(name, goal if c is not idx or not same else tm.implies(sums.EXTRA[sums.vid(idx[same[0][0]])], goal) if goal.kind != "true" and not (goal.kind == "==" and tm.is_zero(goal.args[0])) else tm.TRUE)
        if ob.status != "discharged":
            ob.detail = f"at a generic index: {tm.show(x, 300)} vs {tm.show(y, 300)}"
        S._rec(ob)


def _prove_at(S, name, x, y):
    ob = S.path.prove(name, tm.cmp("==", x - y))
    if ob.status != "discharged":
        ob.detail = f"{tm.show(x, 300)} vs {tm.show(y, 300)}"
    S._rec(ob)


def prove_each(S, name, a, pred):
    a = wrap(a)
    idx = []
    for n in a.shape:
        v = sums.temp(n, "k")
        S.path.assume(v >= 0)
        S.path.assume(v < n)
        idx.append(v)
    S._rec(S.path.prove(name, tm.tob(pred(a.at(*idx)))))


def np_min(x, axis=None, **k): return x.min(axis, **k)
def np_max(x, axis=None, **k): return x.max(axis, **k)
def np_amin(x, axis=None, **k): return x.min(axis, **k)
def np_amax(x, axis=None, **k): return x.max(axis, **k)
