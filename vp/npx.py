"""numpy / builtins stand-ins used by the instrumented copy of the code under symbolic execution.

Arrays of fixed shape are real numpy object arrays whose entries are exact terms, so indexing,
stacking, broadcasting and matmul are numpy's own; only functions that need floating point or
LAPACK are replaced, by their real-arithmetic definition.  Arrays with a symbolic number of rows
or columns are symarray.SymArray.
"""
from __future__ import annotations
import builtins
import itertools
import numbers
from fractions import Fraction
import numpy as np
from . import term as tm
from .term import T, B, Unsupported, lift, ZERO, ENG

_float, _int, _isinstance, _abs, _len, _range, _bool = (
    builtins.float, builtins.int, builtins.isinstance, builtins.abs, builtins.len, builtins.range, builtins.bool)
from .term import INF, NAN, special


def _SA():
    from . import symarray
    return symarray


def is_sa(x):
    return type(x).__name__ == "SymArray"


def any_sa(*xs):
    for x in xs:
        if is_sa(x):
            return True
        if _isinstance(x, (list, tuple)) and any_sa(*x):
            return True
    return False


def has_sym_dim(shape):
    if _isinstance(shape, T):
        return not shape.is_const()
    if _isinstance(shape, (tuple, list)):
        return any(_isinstance(s, T) and not s.is_const() for s in shape)
    return False


def lift1(v):
    if _isinstance(v, (T, B)):
        return v if _isinstance(v, T) else lift(v)
    if _isinstance(v, _float):
        if v != v:
            return NAN
        if v == _float("inf"):
            return INF
        if v == -_float("inf"):
            return -INF
    r = lift(v)
    if r is NotImplemented:
        if v is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if _isinstance(v, str):
            raise ValueError(f"could not convert string to float: {v!r}")
        raise TypeError(f"cannot convert {type(v)} to a real")
    return r


_lift_vec = np.frompyfunc(lift1, 1, 1)


def objarr(a):
    """Object array of terms (copy)."""
    a = np.asarray(a, dtype=object) if not _isinstance(a, np.ndarray) else a
    if a.size == 0:
        return a.astype(object)
    r = _lift_vec(a)
    if not _isinstance(r, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = r
        return z
    return r


def all_T(a):
    return a.dtype == object and all(_isinstance(v, T) for v in a.flat)


FLOAT_DTYPES = {_float, np.float64, np.float32, "float", "float64", np.floating}


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt is SFloat or dt in (_float,):
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


def is_int_dtype(dt):
    if dt is None:
        return False
    if dt is SInt or dt is _int:
        return True
    try:
        return np.dtype(dt).kind in "iu"
    except TypeError:
        return False


def contains_T(x, depth=0):
    if _isinstance(x, (T, B)):
        return True
    if _isinstance(x, np.ndarray):
        return x.dtype == object
    if _isinstance(x, (list, tuple)) and depth < 4:
        return any(contains_T(v, depth + 1) for v in x)
    return False


def is_pandas(x):
    return type(x).__module__.startswith("pandas")


def from_any(x):
    """np.asarray for anything incl. pandas and nested lists with terms."""
    if is_pandas(x):
        return np.asarray(x.to_numpy())
    if type(x).__name__ == "SymMatrix":
        return x.arr
    if _isinstance(x, (T, B)):
        z = np.empty((), dtype=object)
        z[()] = x
        return z
    if _isinstance(x, (list, tuple)):
        xs = [from_any(v) if _isinstance(v, (list, tuple, np.ndarray, T, B)) or is_pandas(v) else v for v in x]
        if any(_isinstance(v, np.ndarray) and v.dtype == object for v in xs):
            arrs = [v if _isinstance(v, np.ndarray) else objarr(np.asarray(v)) for v in xs]
            shp = {a.shape for a in arrs}
            if _len(shp) > 1:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            out = np.empty((_len(arrs),) + arrs[0].shape, dtype=object)
            for i, a in enumerate(arrs):
                out[i] = a[()] if a.ndim == 0 else a
            return out
        return np.asarray(x)
    if hasattr(x, "__iter__") and not _isinstance(x, (np.ndarray, str, dict)):
        return from_any(list(x))
    return np.asarray(x)


def np_asarray(x, dtype=None, copy=None, order=None, ndmin=0, **kw):
    x = getattr(x, "arr", x) if is_sa(getattr(x, "arr", None)) else x
    if is_sa(x):
        return x.copy() if copy else x
    if any_sa(x):
        return _SA().stack_list(x)
    a = from_any(x)
    if is_float_dtype(dtype):
        if a.dtype == object and all_T(a):
            r = a
        else:
            r = objarr(a)
    elif dtype is None:
        r = objarr(a) if a.dtype.kind == "f" else a
    elif is_int_dtype(dtype):
        if a.dtype == object:
            r = a if all(_isinstance(v, T) and v.isint() for v in a.flat) else int_cast(a)
        else:
            r = a.astype(_int)
    elif dtype in (_bool, np.bool_, "bool"):
        r = np.frompyfunc(lambda v: _bool(v), 1, 1)(a).astype(_bool) if a.dtype == object else a.astype(_bool)
    else:
        r = a.astype(dtype) if dtype is not object else a.astype(object)
    if copy and (r is x or r is a):
        r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_array(x, dtype=None, copy=True, **kw):
    return np_asarray(x, dtype=dtype, copy=copy is True, **kw)


def int_cast(a):
    def f(v):
        if _isinstance(v, T):
            if v.isint():
                return v
            if v.is_const():
                return T.const(_int(v.cval()))
            # truncation towards zero
            return tm.floor(v) if (v >= 0) else -tm.floor(-v)
        return T.const(_int(v))
    return np.frompyfunc(f, 1, 1)(a)


class _FloatMeta(type):
    def __call__(cls, x=0):
        if _isinstance(x, T):
            return x
        if _isinstance(x, B):
            return lift(x)
        if is_sa(x):
            return x.item()
        if _isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            return cls(x.item())
        if _isinstance(x, str):
            return lift1(_float(x))
        if is_pandas(x):
            raise TypeError("cannot convert the series to float")
        if x is None or _isinstance(x, (list, tuple, dict, set)):
            raise TypeError("float() argument must be a string or a real number")
        return lift1(_float(x) if not _isinstance(x, (_int, Fraction, _float, np.generic)) else x)

    def __instancecheck__(cls, x):
        return _isinstance(x, (_float,)) or (_isinstance(x, T))

    def __subclasscheck__(cls, c):
        return issubclass(c, _float)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class SFloat(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if a:
            return _int(x, *a)
        if _isinstance(x, T):
            return int_cast(np.array([x], dtype=object))[0] if not x.is_const() else _int(x.cval())
        if _isinstance(x, B):
            return lift(x)
        if _isinstance(x, np.ndarray) and x.dtype == object:
            return cls(x.item())
        return _int(x)

    def __instancecheck__(cls, x):
        return _isinstance(x, _int) or (_isinstance(x, T) and x.isint())

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class SInt(metaclass=_IntMeta):
    pass


def s_isinstance(x, cls):
    if _isinstance(cls, tuple):
        return any(s_isinstance(x, c) for c in cls)
    if _isinstance(x, T):
        if cls is SFloat or cls is _float:
            # a term standing for a declared integer input is an int, everything else a float
            return not (x.isint() and not x.is_const())
        if cls is SInt or cls is _int:
            return x.isint() and not x.is_const()
        if cls is numbers.Real or cls is numbers.Number:
            return True
        if cls in (numbers.Integral, np.integer):
            return x.isint() and not x.is_const()
        if cls in (np.floating, np.number, np.generic, np.float64):
            return False
        if cls is _bool:
            return False
    if is_sa(x):
        if cls is np.ndarray:
            return True
        if cls in (list, tuple, dict, str):
            return False
        return False
    if cls is SFloat:
        return _isinstance(x, _float)
    if cls is SInt:
        return _isinstance(x, _int)
    tgt = getattr(cls, "__vp_real__", None)
    if tgt is not None:
        cls = tgt
    return _isinstance(x, cls)


def div(a, b):
    if is_sa(a) or is_sa(b):
        return a / b
    if _isinstance(a, T) or _isinstance(b, T):
        if _isinstance(a, np.ndarray) and a.dtype != object:
            a = objarr(a)
        if _isinstance(b, np.ndarray) and b.dtype != object:
            b = objarr(b)
        if not _isinstance(a, np.ndarray) and not _isinstance(b, np.ndarray) and not is_pandas(a) and not is_pandas(b):
            try:
                return lift(a) / b if _isinstance(b, T) or lift(b) is not NotImplemented else a / b
            except ZeroDivisionError:
                raise Unsupported("division by literal zero")
        return a / b
    def conv(v):
        if _isinstance(v, np.ndarray):
            return v if v.dtype == object else objarr(v)
        if _isinstance(v, (_int, _float, Fraction, np.number)):
            return lift1(v)
        if is_pandas(v) and v.dtypes is not None:
            try:
                return v.astype(object)
            except Exception:
                return v
        return v
    if hasattr(a, "__truediv__") and not _isinstance(a, (_int, _float, np.ndarray, np.number, Fraction)) and not is_pandas(a):
        return a / b
    return conv(a) / conv(b)


def idiv(a, b):
    if _isinstance(a, np.ndarray) and a.dtype == object:
        b = objarr(b) if _isinstance(b, np.ndarray) and b.dtype != object else b
        a /= b if _isinstance(b, (np.ndarray, T)) or is_pandas(b) else lift1(b)
        return a
    if is_pandas(a):
        a /= b
        return a
    return div(a, b)


def elementwise(f):
    uf = np.frompyfunc(lambda v: f(lift1(v)), 1, 1)

    def g(x, *a, dtype=None, where=None, out=None, **k):
        if is_sa(x):
            return x.map(lambda v: f(v))
        if _isinstance(x, (T, _int, _float, Fraction, np.number)) or _isinstance(x, B):
            return f(lift1(x))
        if is_pandas(x):
            import pandas as pd
            return x.map(lambda v: f(lift1(v)))
        arr = from_any(x)
        if out is not None:
            out[...] = uf(arr)
            return out
        if arr.size == 0:
            return arr.astype(object)
        return uf(arr)
    return g


def elementwise2(f):
    uf = np.frompyfunc(lambda a, b: f(lift1(a), lift1(b)), 2, 1)

    def g(x, y, *a, **k):
        if is_sa(x) or is_sa(y):
            return _SA().map2(f, x, y)
        sc = (T, _int, _float, Fraction, np.number, B)
        if _isinstance(x, sc) and _isinstance(y, sc):
            return f(lift1(x), lift1(y))
        if is_pandas(x) or is_pandas(y):
            import pandas as pd
            src = x if is_pandas(x) else y
            r = uf(from_any(x), from_any(y))
            if _isinstance(src, pd.Series):
                return pd.Series(r, index=src.index, name=src.name, dtype=object)
            return pd.DataFrame(r, index=src.index, columns=src.columns, dtype=object)
        r = uf(from_any(x), from_any(y))
        return r

    def accumulate(x, axis=0, **k):
        return uf.accumulate(from_any(x), axis=axis, dtype=object)

    def reduce(x, axis=0, **k):
        return uf.reduce(from_any(x), axis=axis)
    g.accumulate, g.reduce, g.outer = accumulate, reduce, lambda x, y, **k: uf.outer(from_any(x), from_any(y))
    return g


def bool2(f):
    """Element-wise predicate -> concrete bool array (forks per element); scalar -> B."""
    def g(x, y, *a, **k):
        if is_sa(x) or is_sa(y):
            return _SA().map2(lambda p, q: f(p, q, *a, **k), x, y, boolean=True)
        sc = (T, _int, _float, Fraction, np.number, B)
        if _isinstance(x, sc) and _isinstance(y, sc):
            return f(lift1(x), lift1(y), *a, **k)
        X, Y = np.broadcast_arrays(from_any(x), from_any(y))
        out = np.empty(X.shape, dtype=_bool)
        for i in np.ndindex(*X.shape):
            out[i] = _bool(f(lift1(X[i]), lift1(Y[i]), *a, **k))
        return out
    return g


def _isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), equal_nan=False):
    return cmp_close(a, b, lift1(rtol), lift1(atol))


def cmp_close(a, b, rtol, atol):
    """|a-b| <= atol + rtol*|b|"""
    d = a - b
    if not d.d:
        return tm.TRUE
    rhs = atol + rtol * tm.absv(b)
    return tm.conj(d <= rhs, (-d) <= rhs)


isclose = bool2(_isclose)


def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), equal_nan=False):
    if is_sa(a) or is_sa(b):
        return _SA().map2(lambda p, q: _isclose(p, q, rtol, atol), a, b, boolean=True).all()
    X, Y = np.broadcast_arrays(from_any(a), from_any(b))
    return _bool(tm.conj(*[_isclose(lift1(x), lift1(y), rtol, atol) for x, y in zip(X.flat, Y.flat)]))


def array_equal(a, b, **k):
    if is_sa(a) or is_sa(b):
        return _SA().map2(lambda p, q: p == q, a, b, boolean=True).all()
    X, Y = from_any(a), from_any(b)
    if X.shape != Y.shape:
        return False
    return _bool(tm.conj(*[tm.tob(x == y) for x, y in zip(X.flat, Y.flat)]))


def np_isfinite(x, **k):
    if is_sa(x):
        return x.map(lambda v: tm.TRUE, boolean=True)
    if _isinstance(x, T):
        return special(x) is None
    if _isinstance(x, (_int, _float, np.number)):
        return _bool(np.isfinite(x))
    a = from_any(x)
    out = np.empty(a.shape, dtype=_bool)
    for i in np.ndindex(*a.shape):
        v = a[i]
        out[i] = (special(v) is None) if _isinstance(v, T) else _bool(np.isfinite(v))
    return out


def np_isnan(x, **k):
    if is_sa(x):
        return x.map(lambda v: tm.FALSE, boolean=True)
    if _isinstance(x, T):
        return special(x) == "nan"
    if _isinstance(x, (_int, _float, np.number)):
        return _bool(np.isnan(x))
    a = from_any(x)
    out = np.empty(a.shape, dtype=_bool)
    for i in np.ndindex(*a.shape):
        v = a[i]
        out[i] = (special(v) == "nan") if _isinstance(v, T) else _bool(np.isnan(v))
    return out


def np_any(x, axis=None, **k):
    if is_sa(x):
        return x.any(axis)
    if axis is not None:
        return np.any(from_any(x).astype(_bool), axis=axis)
    if is_pandas(x):
        x = x.to_numpy()
    if _isinstance(x, (B, _bool, np.bool_)):
        return x
    a = from_any(x)
    if a.dtype == _bool:
        return _bool(a.any())
    return _bool(tm.disj(*[tm.tob(v) for v in a.flat]))


def np_all(x, axis=None, **k):
    if is_sa(x):
        return x.all(axis)
    if axis is not None:
        return np.all(from_any(x).astype(_bool), axis=axis)
    if is_pandas(x):
        x = x.to_numpy()
    if _isinstance(x, (B, _bool, np.bool_)):
        return x
    a = from_any(x)
    if a.dtype == _bool:
        return _bool(a.all())
    return _bool(tm.conj(*[tm.tob(v) for v in a.flat]))


def _dims(shape):
    if _isinstance(shape, (tuple, list)):
        return tuple(s.__index__() if _isinstance(s, T) else s for s in shape)
    return shape.__index__() if _isinstance(shape, T) else shape


def filler(val):
    def g(shape, dtype=None, **k):
        if has_sym_dim(shape):
            return _SA().full(shape, val)
        shape = _dims(shape)
        if is_int_dtype(dtype) or dtype in (_bool, object, "bool"):
            return np.full(shape, val, dtype=_int if is_int_dtype(dtype) else dtype)
        a = np.empty(shape, dtype=object)
        a.fill(T.const(val))
        return a
    return g


def np_full(shape, v, dtype=None, **k):
    if has_sym_dim(shape) or is_sa(v):
        return _SA().full(shape, v)
    shape = _dims(shape)
    if is_int_dtype(dtype) or dtype in (_bool, object) or _isinstance(v, (_bool, str)) or v is None:
        return np.full(shape, v, dtype=dtype)
    a = np.empty(shape, dtype=object)
    if _isinstance(v, np.ndarray):
        a[...] = objarr(v)
    else:
        a.fill(lift1(v))
    return a


def np_eye(N, M=None, k=0, dtype=None, **kw):
    if has_sym_dim((N,)) or has_sym_dim((M if M is not None else N,)):
        return _SA().eye(N, M, k)
    N = N.__index__()
    if dtype in (_bool, np.bool_):
        return np.eye(N, M.__index__() if M is not None else None, k=k.__index__(), dtype=bool)
    return objarr(np.eye(N, M.__index__() if M is not None else None, k=k.__index__()))


def like(f):
    def g(x, *a, dtype=None, **k):
        if is_sa(x):
            return f(x.shape, *a)
        return f(np.shape(x), *a, dtype=dtype)
    return g


def np_arange(*a, dtype=None, **k):
    if any(_isinstance(v, T) and not v.is_const() for v in a):
        return _SA().arange(*a)
    a = [(_int(v.cval()) if v.cval().denominator == 1 else v.cval()) if _isinstance(v, T) else v for v in a]
    if all(_isinstance(v, (_int, np.integer)) for v in a):
        r = np.arange(*a)
        return objarr(r) if is_float_dtype(dtype) else r
    lo, hi, st = (0, a[0], 1) if _len(a) == 1 else (a[0], a[1], 1) if _len(a) == 2 else a
    out = []
    v = Fraction(lo)
    while v < hi:
        out.append(T.const(v))
        v += Fraction(st)
    r = np.empty(_len(out), dtype=object)
    r[:] = out
    return r


def np_linspace(a, b, num=50, endpoint=True, **k):
    num = num.__index__()
    a, b = lift1(a), lift1(b)
    r = np.empty(num, dtype=object)
    for i in _range(num):
        d = (num - 1) if endpoint else num
        r[i] = a if num == 1 else a + (b - a) * T.const(Fraction(i, d))
    return r


def np_clip(x, a_min=None, a_max=None, *, min=None, max=None, **k):
    h = HOOKS.get("clip")
    if h is not None:
        r = h(x, a_min if a_min is not None else min, a_max if a_max is not None else max)
        if r is not None:
            return r
    a_min = a_min if a_min is not None else min
    a_max = a_max if a_max is not None else max
    r = x
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    return r


def _maxT(a, b):
    if a is INF or (not (a - INF).d) or not (b + INF).d:
        return a
    if not (b - INF).d or not (a + INF).d:
        return b
    d = a - b
    if d.is_const():
        return a if d.cval() >= 0 else b
    # forking keeps the queries simple and the canonical forms exact
    return a if _bool(a >= b) else b


def _minT(a, b):
    return -_maxT(-a, -b)


maximum = elementwise2(_maxT)
minimum = elementwise2(_minT)


def _sign(t):
    return T.const(1) if t > 0 else (T.const(-1) if t < 0 else ZERO)


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if is_sa(m):
        return _SA().cov(m, rowvar=rowvar, bias=bias, ddof=ddof, aweights=aweights)
    X = np_asarray(m, dtype=_float)
    X = np.atleast_2d(X)
    if not rowvar and X.shape[0] != 1:
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    if aweights is None:
        w = np_full(n, 1)
        avg = X.sum(axis=1) / lift(n)
        fact = lift(n - ddof)
    else:
        w = np_asarray(aweights, dtype=_float)
        ws = w.sum()
        avg = (X * w).sum(axis=1) / ws
        fact = ws if ddof == 0 else ws - ddof * (w * w).sum() / ws
    Xc = X - avg[:, None]
    c = (Xc * w) @ Xc.T
    c = c / fact
    return c.squeeze()[()] if c.size == 1 else c.squeeze()


def np_average(a, axis=None, weights=None, returned=False, **k):
    if is_sa(a):
        raise Unsupported("average of symbolic array")
    A = np_asarray(a, dtype=_float)
    if weights is None:
        return A.sum(axis=axis) / lift(A.size if axis is None else A.shape[axis])
    w = np_asarray(weights, dtype=_float)
    if A.shape != w.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.shape[0] != A.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        sh = [1] * A.ndim
        sh[axis] = w.shape[0]
        return (A * w.reshape(sh)).sum(axis=axis) / w.sum()
    return (A * w).sum(axis=axis) / w.sum(axis=axis)


def np_mean(a, axis=None, **k):
    if is_sa(a):
        return a.mean(axis)
    if is_pandas(a):
        return a.mean() if axis is None else a.mean(axis=axis)
    A = np_asarray(a, dtype=_float)
    kd = k.get("keepdims", False)
    return A.sum(axis=axis, keepdims=kd) / lift(A.size if axis is None else A.shape[axis])


def np_var(a, axis=None, ddof=0, keepdims=False, **k):
    if is_sa(a):
        return a.var(axis, ddof)
    A = np_asarray(a, dtype=_float)
    n = A.size if axis is None else A.shape[axis]
    mu = A.sum(axis=axis, keepdims=True) / lift(n)
    d = A - mu
    return (d * d).sum(axis=axis, keepdims=keepdims) / lift(n - ddof)


sqrt_e = elementwise(tm.sqrt)


def np_std(a, axis=None, ddof=0, **k):
    return sqrt_e(np_var(a, axis=axis, ddof=ddof, **k))


def np_median(a, axis=None, **k):
    A = np_asarray(a, dtype=_float)
    if axis is None:
        s = np.sort(A.ravel())
    else:
        s = np.sort(A, axis=axis)
        s = np.moveaxis(s, axis, 0)
    n = s.shape[0]
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / lift(2)


def np_quantile(a, q, axis=None, **k):
    A = np_asarray(a, dtype=_float)
    s = np.sort(A.ravel()) if axis is None else np.moveaxis(np.sort(A, axis=axis), axis, 0)
    n = s.shape[0]
    q = lift1(q) if not _isinstance(q, (list, tuple, np.ndarray)) else None
    if q is None or not q.is_const():
        raise Unsupported("symbolic quantile level")
    pos = q.cval() * (n - 1)
    lo = pos.numerator // pos.denominator
    f = pos - lo
    if f == 0:
        return s[lo]
    return s[lo] + (s[lo + 1] - s[lo]) * T.const(f)


# ---- linear algebra on fixed-shape symbolic matrices --------------------------
def det(M):
    M = np_asarray(M, dtype=_float)
    n = M.shape[0]
    if n == 0:
        return T.const(1)
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    r = ZERO
    for j in _range(n):
        if not M[0, j].d:
            continue
        sub = np.delete(np.delete(M, 0, 0), j, 1)
        t = M[0, j] * det(sub)
        r = r + t if j % 2 == 0 else r - t
    return r


def inv(M):
    if is_sa(M):
        f = M.fixed()
        if f is None:
            return _SA().inv(M)
        M = f
    M = np_asarray(M, dtype=_float)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = M.shape[0]
    h = HOOKS.get("linalg.inv")
    if h is not None:
        return h(M)
    if n > 4:
        raise Unsupported("symbolic inverse beyond 4x4")
    d = det(M)
    if not d.d:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in _range(n):
        for j in _range(n):
            sub = np.delete(np.delete(M, j, 0), i, 1)
            c = det(sub)
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out


def solve(A, b, **k):
    if is_sa(A) or is_sa(b):
        return _SA().wrap(inv(A)) @ b
    return inv(A) @ np_asarray(b, dtype=_float)


def norm(x, ord=None, axis=None, **k):
    if is_sa(x):
        return tm.sqrt((x * x).sum())
    x = np_asarray(x, dtype=_float)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim > 1 and axis is None):
        if ord == 1 and x.ndim == 1:
            return elementwise(tm.absv)(x).sum()
        if ord == np.inf and x.ndim == 1:
            raise Unsupported("inf norm")
        raise Unsupported(f"norm ord={ord}")
    return sqrt_e((x * x).sum(axis=axis))


_chol_memo = {}


def cholesky(a, lower=True, **k):
    """ASSUMED contract: returns lower-triangular L with positive diagonal and L L' = a, for any symmetric
    positive definite a; raises LinAlgError otherwise (the PD case split is made by the contract's assumption)."""
    if is_sa(a):
        return _SA().cholesky(a, lower)
    a = np_asarray(a, dtype=_float)
    n = a.shape[0]
    key = tuple(v.key() for v in a.flat)
    L = _chol_memo.get(key)
    if L is None:
        L = np.empty((n, n), dtype=object)
        L.fill(ZERO)
        for i in _range(n):
            for j in _range(i + 1):
                s = a[i, j]
                for q in _range(j):
                    s = s - L[i, q] * L[j, q]
                if i == j:
                    L[i, j] = tm.sqrt(s)
                else:
                    L[i, j] = s / L[j, j]
        _chol_memo[key] = L
    L = L.copy()
    return L if lower else L.T.copy()


def cho_solve(c_low, b, **k):
    c, low = c_low
    A = (c @ c.T) if low else (c.T @ c)
    return solve(A, b)


def solve_triangular(a, b, lower=False, trans=0, **k):
    a = np_asarray(a, dtype=_float)
    n = a.shape[0]
    m = a.copy()
    for i in _range(n):
        for j in _range(n):
            if (lower and j > i) or (not lower and j < i):
                m[i, j] = ZERO
    if trans in (1, "T"):
        m = m.T
    return inv(m) @ np_asarray(b, dtype=_float)


class Record(list):
    """Calls made to assumed externals on the current path (solver programmes etc.)."""


RECORD = Record()
HOOKS = {}       # name -> callable installed by a contract for the current path


def eigvalsh(a, *_, **k):
    """Ascending eigenvalues of a symmetric matrix (lower triangle read, as LAPACK does): closed form up to order 2;
    for higher orders arbitrary ascending reals whose power sums/products match the trace and determinant."""
    h = HOOKS.get("linalg.eigvalsh")
    if h is not None:
        return h(a)
    a = np_asarray(a, dtype=_float)
    n = a.shape[0]
    if n == 1:
        return _mk([a[0, 0]])
    if n == 2:
        m, d = (a[0, 0] + a[1, 1]) / 2, (a[0, 0] - a[1, 1]) / 2
        r = tm.sqrt(d * d + a[1, 0] * a[1, 0])
        return _mk([m - r, m + r])
    raise Unsupported("np.linalg.eigvalsh beyond order 2")


def _mk(v):
    o = np.empty(len(v), dtype=object)
    o[:] = v
    return o


def _opaque_cond(a, *_, **k):
    """Only compared against warning thresholds: an arbitrary number at least one."""
    from .externals import fresh
    v = tm.T.var(fresh("cond"))
    tm.ENG().assume(v >= 1)
    return v


class LinalgProxy:
    eigvalsh = staticmethod(eigvalsh)
    cond = staticmethod(_opaque_cond)
    LinAlgError = np.linalg.LinAlgError
    inv = staticmethod(inv)
    solve = staticmethod(solve)
    norm = staticmethod(norm)
    det = staticmethod(det)
    cholesky = staticmethod(lambda a, **k: cholesky(a, True))

    def __getattr__(self, n):
        h = HOOKS.get("linalg." + n)
        if h is not None:
            return h
        if n == "pinv":
            return inv
        if n in ("eigh", "svd", "matrix_rank", "eigvals"):
            def f(*a, **k):
                raise Unsupported("np.linalg." + n)
            return f
        return getattr(np.linalg, n)


class RandomProxy:
    def __getattr__(self, n):
        h = HOOKS.get("random." + n)
        if h is not None:
            return h
        return getattr(np.random, n)


def lifted(name):
    real = getattr(np, name)

    def g(*a, **k):
        if any_sa(*a) or (name == "diag_indices" and has_sym_dim(a[0])):
            f = getattr(_SA(), "np_" + name, None)
            if f is None:
                raise Unsupported("np." + name + " on an array of symbolic size")
            return f(*a, **k)
        k.pop("dtype", None) if is_float_dtype(k.get("dtype")) else None
        a = [from_any(v) if (is_pandas(v) and not name.startswith("_")) or type(v).__name__ == "SymMatrix" else v for v in a]
        a = [from_any(v) if _isinstance(v, (list, tuple)) and contains_T(v) and name not in STACKERS else v for v in a]
        if name in STACKERS and a and _isinstance(a[0], (list, tuple)):
            a[0] = [from_any(v) if _isinstance(v, (T, list, tuple)) or is_pandas(v) else v for v in a[0]]
        r = real(*a, **k)
        return normres(r)
    return g


STACKERS = {"vstack", "hstack", "concatenate", "column_stack", "stack", "block", "row_stack"}


def normres(r):
    if _isinstance(r, np.ndarray):
        if r.dtype.kind == "f":
            return objarr(r)
        if r.dtype == object and r.size and not all(_isinstance(v, (T,)) for v in r.flat):
            try:
                return objarr(r)
            except (TypeError, ValueError):
                return r
        return r
    if _isinstance(r, np.floating):
        return lift1(r)
    if _isinstance(r, tuple):
        return tuple(normres(v) for v in r)
    return r


def np_where(c, *a):
    if not a and not is_sa(c):
        return np.where(from_any(c).astype(_bool))
    if is_sa(c) or any_sa(*a):
        return _SA().where(c, *a)
    C = from_any(c)
    if _isinstance(c, B):
        return tm.ite(c, lift1(a[0]), lift1(a[1]))
    if C.dtype == object:
        C = np.frompyfunc(_bool, 1, 1)(C).astype(_bool)
    return normres(np.where(C, from_any(a[0]), from_any(a[1])))


def np_sum(x, axis=None, **k):
    if is_sa(x):
        return x.sum(axis, **k)
    if is_pandas(x):
        return x.sum() if axis is None else x.sum(axis=axis)
    if _isinstance(x, (list, tuple)):
        x = from_any(x)
    k.pop("dtype", None)
    r = np.sum(x, axis=axis, **k)
    return lift1(r) if not _isinstance(r, np.ndarray) and not _isinstance(r, (np.integer, _int)) else r


_abs_e = elementwise(lambda t: t if t >= 0 else -t)


def abs_e(x, *a, **k):
    if is_sa(x):
        return x.map(tm.absv)
    return _abs_e(x, *a, **k)


class NP:
    """The object bound to `np` in instrumented modules."""
    linalg = LinalgProxy()
    random = RandomProxy()
    asarray = staticmethod(np_asarray)
    asanyarray = staticmethod(np_asarray)
    ascontiguousarray = staticmethod(np_asarray)
    array = staticmethod(np_array)
    zeros = staticmethod(filler(0))
    ones = staticmethod(filler(1))
    empty = staticmethod(filler(0))
    full = staticmethod(np_full)
    eye = staticmethod(np_eye)
    identity = staticmethod(np_eye)
    arange = staticmethod(np_arange)
    linspace = staticmethod(np_linspace)
    sqrt = staticmethod(sqrt_e)
    exp = staticmethod(elementwise(tm.exp))
    log = staticmethod(elementwise(tm.log))
    log1p = staticmethod(elementwise(lambda t: tm.log(1 + t)))
    expm1 = staticmethod(elementwise(lambda t: tm.exp(t) - 1))
    abs = staticmethod(abs_e)
    absolute = staticmethod(abs_e)
    fabs = absolute
    sign = staticmethod(elementwise(_sign))
    floor = staticmethod(elementwise(tm.floor))
    ceil = staticmethod(elementwise(lambda t: -tm.floor(-t)))
    rint = staticmethod(elementwise(lambda t: t if t.isint() else tm.floor(t + Fraction(1, 2))))
    square = staticmethod(elementwise(lambda t: t * t))
    power = staticmethod(elementwise2(lambda a, b: a ** b))
    reciprocal = staticmethod(elementwise(lambda t: 1 / t))
    maximum = staticmethod(maximum)
    minimum = staticmethod(minimum)
    clip = staticmethod(np_clip)
    isclose = staticmethod(isclose)
    allclose = staticmethod(allclose)
    array_equal = staticmethod(array_equal)
    isfinite = staticmethod(np_isfinite)
    isnan = staticmethod(np_isnan)
    any = staticmethod(np_any)
    all = staticmethod(np_all)
    where = staticmethod(np_where)
    sum = staticmethod(np_sum)
    mean = staticmethod(np_mean)
    var = staticmethod(np_var)
    std = staticmethod(np_std)
    median = staticmethod(np_median)
    quantile = staticmethod(np_quantile)
    percentile = staticmethod(lambda a, q, **k: np_quantile(a, lift1(q) / 100, **k))
    cov = staticmethod(np_cov)
    average = staticmethod(np_average)
    divide = staticmethod(lambda a, b, **k: div(a, b))
    true_divide = staticmethod(lambda a, b, **k: div(a, b))
    inf = INF
    integer = np.integer
    bool_ = np.bool_

    @staticmethod
    def isscalar(x):
        return _isinstance(x, T) or np.isscalar(x)

    @staticmethod
    def dot(a, b, out=None):
        return a @ b if (np.ndim(a) and np.ndim(b)) else a * b

    @staticmethod
    def zeros_like(x, **k):
        return NP.zeros(np.shape(x) if not is_sa(x) else x.shape)

    @staticmethod
    def ones_like(x, **k):
        return NP.ones(np.shape(x) if not is_sa(x) else x.shape)

    @staticmethod
    def empty_like(x, **k):
        return NP.zeros(np.shape(x) if not is_sa(x) else x.shape)

    @staticmethod
    def full_like(x, v, **k):
        return np_full(np.shape(x) if not is_sa(x) else x.shape, v)

    @staticmethod
    def max(x, axis=None, **k):
        if is_sa(x):
            return x.max(axis, **k)
        return np.max(from_any(x), axis=axis, **k)

    @staticmethod
    def min(x, axis=None, **k):
        if is_sa(x):
            return x.min(axis, **k)
        return np.min(from_any(x), axis=axis, **k)

    amax = max
    amin = min

    @staticmethod
    def nan_to_num(x, *a, **k):
        return x

    @staticmethod
    def errstate(**k):
        return np.errstate(**k)

    def __getattr__(self, n):
        h = HOOKS.get("np." + n)
        if h is not None:
            return h
        v = getattr(np, n)
        if _isinstance(v, type) or not callable(v):
            return v
        return lifted(n)


_abs_np = NP()


# ---- builtins seen by instrumented modules -------------------------------------
def s_len(x):
    if is_sa(x):
        return x.shape[0]
    if hasattr(x, "__symlen__"):
        return x.__symlen__()
    return _len(x)


def s_range(*a):
    if any(_isinstance(v, T) and not v.is_const() for v in a):
        return _SA().SymRange(*a)
    return _range(*[v.__index__() for v in a])


def s_abs(x):
    if _isinstance(x, T):
        if x.is_const():
            return T.const(abs(x.cval()))
        return x if x >= 0 else -x
    if is_sa(x):
        return x.map(tm.absv)
    if _isinstance(x, np.ndarray) and x.dtype == object:
        return NP.abs(x)
    return _abs(x)


def s_max(*a, **k):
    if _len(a) == 2 and not k and any(_isinstance(v, T) for v in a):
        return _maxT(lift1(a[0]), lift1(a[1]))
    return builtins.max(*a, **k)


def s_min(*a, **k):
    if _len(a) == 2 and not k and any(_isinstance(v, T) for v in a):
        return _minT(lift1(a[0]), lift1(a[1]))
    return builtins.min(*a, **k)


def s_round(x, n=None):
    if _isinstance(x, T):
        if x.isint():
            return x
        raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_callable_sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


# ---- intercepted method calls ---------------------------------------------------
def meth(obj, name, *a, **k):
    if name == "astype":
        dt = a[0] if a else k.get("dtype")
        if is_sa(obj):
            return obj.copy()
        if _isinstance(obj, np.ndarray):
            if is_float_dtype(dt):
                r = objarr(obj)
                return r.copy() if k.get("copy", True) else r
            if is_int_dtype(dt):
                return int_cast(obj) if obj.dtype == object else obj.astype(_int)
            if dt in (_bool, "bool", np.bool_) and obj.dtype == object:
                return np.frompyfunc(_bool, 1, 1)(obj).astype(_bool)
            return obj.astype(dt)
        if is_pandas(obj):
            if is_float_dtype(dt) or is_int_dtype(dt):
                import pandas as pd
                vals = obj.to_numpy()
                vals = objarr(vals) if is_float_dtype(dt) else int_cast(vals)
                if _isinstance(obj, pd.Series):
                    return pd.Series(vals, index=obj.index, name=obj.name, dtype=object)
                return pd.DataFrame(vals, index=obj.index, columns=obj.columns, dtype=object)
            return obj.astype(dt)
        if _isinstance(obj, T):
            return obj
    elif name == "to_numpy":
        if is_pandas(obj):
            dt = a[0] if a else k.get("dtype")
            vals = obj.to_numpy()
            if is_float_dtype(dt) or vals.dtype.kind == "f":
                if vals.dtype == object and all_T(vals):
                    return vals.copy() if k.get("copy") else vals
                return objarr(vals)
            return vals.copy() if k.get("copy") else vals
    elif name in ("mean", "std", "var", "sum", "cov", "prod", "abs", "corr", "max", "min", "round", "clip", "dot"):
        if _isinstance(obj, np.ndarray) and obj.dtype == object:
            if name == "mean":
                return np_mean(obj, *a, **k)
            if name == "std":
                return np_std(obj, *a, **k)
            if name == "var":
                return np_var(obj, *a, **k)
            if name == "clip":
                return np_clip(obj, *a, **k)
            if name == "sum":
                r = obj.sum(*a, **k)
                return r if _isinstance(r, np.ndarray) else lift1(r)
        elif _isinstance(obj, np.ndarray):
            if name == "mean":
                return np_mean(obj, *a, **k)
        elif is_pandas(obj):
            return pd_method(obj, name, *a, **k)
    elif name in ("isna", "notna", "isnull", "fillna", "dropna"):
        pass
    return getattr(obj, name)(*a, **k)


def pd_method(obj, name, *a, **k):
    import pandas as pd
    if name == "abs":
        return obj.map(lambda v: s_abs(lift1(v)))
    if _isinstance(obj, pd.Series):
        v = obj.to_numpy()
        if v.dtype == object or v.dtype.kind == "f":
            if v.dtype == _bool:
                return getattr(obj, name)(*a, **k)
            if name == "sum":
                return lift1(sum((lift1(x) for x in v), ZERO))
            if name == "mean":
                return np_mean(v)
            if name == "std":
                return np_std(v, ddof=k.get("ddof", 1))
            if name == "var":
                return np_var(v, ddof=k.get("ddof", 1))
            if name in ("max", "min") and v.size:
                f = _maxT if name == "max" else _minT
                r = lift1(v[0])
                for x in v[1:]:
                    r = f(r, lift1(x))
                return r
            if name == "clip":
                lo = k.get("lower", a[0] if a else None)
                hi = k.get("upper", a[1] if _len(a) > 1 else None)
                return pd.Series(np_clip(v, lo, hi), index=obj.index, name=obj.name, dtype=object)
    elif _isinstance(obj, pd.DataFrame):
        v = obj.to_numpy()
        ax = k.get("axis", a[0] if a else 0)
        if v.dtype == object or v.dtype.kind == "f":
            lab = obj.columns if ax in (0, "index") else obj.index
            axn = 0 if ax in (0, "index") else 1
            if name == "mean":
                return pd.Series(np_mean(v, axis=axn), index=lab, dtype=object)
            if name == "sum":
                return pd.Series(objarr(v).sum(axis=axn), index=lab, dtype=object)
            if name == "std":
                return pd.Series(np_std(v, axis=axn, ddof=k.get("ddof", 1)), index=lab, dtype=object)
            if name == "var":
                return pd.Series(np_var(v, axis=axn, ddof=k.get("ddof", 1)), index=lab, dtype=object)
            if name == "cov":
                return pd.DataFrame(np.atleast_2d(np_cov(v, rowvar=False, ddof=k.get("ddof", 1))), index=obj.columns, columns=obj.columns, dtype=object)
    return getattr(obj, name)(*a, **k)


# ---- pandas constructors ----------------------------------------------------------
def _pd_data(data):
    if is_sa(data) and data.fixed() is not None:
        data = data.fixed()
    if _isinstance(data, dict):
        data = {k: (v.fixed() if is_sa(v) and v.fixed() is not None else v) for k, v in data.items()}
    if _isinstance(data, dict):
        return {k: _pd_data(v) for k, v in data.items()}
    if _isinstance(data, np.ndarray) and data.dtype.kind == "f":
        return objarr(data)
    if _isinstance(data, (_float, np.floating)):
        return lift1(data)
    if _isinstance(data, (list, tuple)) and contains_T(data):
        return list(data)
    return data


class _SeriesMeta(type):
    def __call__(cls, data=None, index=None, dtype=None, name=None, copy=None, **k):
        import pandas as pd
        if any_sa(data):
            fixed = data.fixed() if is_sa(data) else None
            if fixed is None:
                return _SA().SymSeries(data, index, name)
            data = fixed
        if is_float_dtype(dtype) or is_int_dtype(dtype):
            if data is None:
                return pd.Series(dtype=object, index=index, name=name)
            if _isinstance(data, dict):
                data = {kk: lift1(v) for kk, v in data.items()}
            elif _isinstance(data, (T, _int, _float, np.number)):
                data = lift1(data)
                idx = pd.Index(index)
                arr = np.empty(_len(idx), dtype=object)
                arr.fill(data)
                return pd.Series(arr, index=idx, name=name, dtype=object)
            elif _isinstance(data, pd.Series):
                data = pd.Series(objarr(data.to_numpy()), index=data.index, name=data.name, dtype=object)
            else:
                data = objarr(from_any(data))
            return pd.Series(data, index=index, name=name, dtype=object)
        data = _pd_data(data)
        if _isinstance(data, T):
            idx = pd.Index(index)
            arr = np.empty(_len(idx), dtype=object)
            arr.fill(data)
            return pd.Series(arr, index=idx, name=name, dtype=object)
        if dtype is None and contains_T(data):
            dtype = object
        return pd.Series(data, index=index, dtype=dtype, name=name, **k)

    def __instancecheck__(cls, x):
        import pandas as pd
        return _isinstance(x, pd.Series)


class SSeries(metaclass=_SeriesMeta):
    pass


class _FrameMeta(type):
    def __call__(cls, data=None, index=None, columns=None, dtype=None, copy=None, **k):
        import pandas as pd
        if is_float_dtype(dtype) or is_int_dtype(dtype):
            if _isinstance(data, np.ndarray):
                data = objarr(data)
            elif _isinstance(data, pd.DataFrame):
                data = pd.DataFrame(objarr(data.to_numpy()), index=data.index, columns=data.columns, dtype=object)
            elif _isinstance(data, (list, tuple)):
                data = objarr(from_any(data))
            elif _isinstance(data, (T, _int, _float)) :
                arr = np.empty((_len(index), _len(columns)), dtype=object)
                arr.fill(lift1(data))
                data = arr
            dtype = object
        data = _pd_data(data)
        if dtype is None and contains_T(data):
            dtype = object
        return pd.DataFrame(data, index=index, columns=columns, dtype=dtype, **k)

    def __instancecheck__(cls, x):
        import pandas as pd
        return _isinstance(x, pd.DataFrame)

    def __getattr__(cls, n):
        import pandas as pd
        return getattr(pd.DataFrame, n)


class SFrame(metaclass=_FrameMeta):
    pass


class PD:
    Series = SSeries
    DataFrame = SFrame

    def __getattr__(self, n):
        import pandas as pd
        h = HOOKS.get("pd." + n)
        if h is not None:
            return h
        return getattr(pd, n)


SSeries.__vp_real__ = None
SFrame.__vp_real__ = None
