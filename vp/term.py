"""Symbolic real/integer terms in a canonical (Laurent polynomial over atoms) form.

A term T is a finite map  monomial -> rational coefficient ; a monomial is a product of
atoms raised to non-zero integer powers.  Atoms are input symbols, array cells, sums over
a symbolic range, square roots, exponentials, logarithms, absolute values, if-then-else
terms, floors, and composite denominators.  Two terms with the same canonical form denote
the same real number wherever both are defined; everything the canonical form does not
decide goes to z3 (see engine.py).
"""
from __future__ import annotations
from fractions import Fraction
import numbers
import math
import z3
from decimal import Decimal, localcontext

_ATOMS = {}
_BYID = []


class Unsupported(BaseException):
    """The engine cannot represent an operation; the obligation is undecided, never violated."""


class Atom:
    __slots__ = ("id", "kind", "args", "isint", "_z", "dep")

    def __repr__(self):
        return f"{self.kind}{self.args!r}"


def _argkey(a):
    if isinstance(a, T):
        return ("T", a.key())
    if isinstance(a, B):
        return ("B", a.key())
    return a


def mkatom(kind, *args, isint=False):
    k = (kind, isint) + tuple(_argkey(a) for a in args)
    at = _ATOMS.get(k)
    if at is None:
        at = Atom()
        at.id = len(_BYID)
        at.kind = kind
        at.args = args
        at.isint = isint
        at._z = None
        at.dep = None
        _ATOMS[k] = at
        _BYID.append(at)
    return at


def atom_deps(at):
    """ids of all atoms occurring inside at (including itself)."""
    if at.dep is None:
        s = {at.id}
        for a in at.args:
            if isinstance(a, (T, B)):
                s |= deps(a)
        at.dep = frozenset(s)
    return at.dep


def deps(x):
    if isinstance(x, T):
        s = set()
        for m in x.d:
            for i, _ in m:
                s |= atom_deps(_BYID[i])
        return s
    if isinstance(x, B):
        s = set()
        for a in x.args:
            if isinstance(a, (T, B)):
                s |= deps(a)
        return s
    return set()


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    import numpy as np
    if isinstance(x, (np.integer, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if not math.isfinite(f):
            raise Unsupported(f"non-finite constant {f}")
        return Fraction(repr(f))      # literal value as written (reals, not binary64)
    raise TypeError(type(x))


_ONE = ()


class T:
    __slots__ = ("d", "_k", "_z")

    def __init__(self, d):
        self.d = d
        self._k = None
        self._z = None

    # -- construction -------------------------------------------------
    @staticmethod
    def const(c):
        c = frac(c)
        return T({_ONE: c} if c else {})

    @staticmethod
    def of_atom(at):
        return T({((at.id, 1),): Fraction(1)})

    @staticmethod
    def var(name, isint=False):
        return T.of_atom(mkatom("var", name, isint=isint))

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def is_const(self):
        return not self.d or (len(self.d) == 1 and _ONE in self.d)

    def cval(self):
        return self.d.get(_ONE, Fraction(0))

    def isint(self):
        for m, c in self.d.items():
            if c.denominator != 1:
                return False
            for i, e in m:
                if e < 0 or not _BYID[i].isint:
                    return False
        return True

    # -- arithmetic ---------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v:
                    d[m] = v
                else:
                    del d[m]
        return T(d)

    __radd__ = __add__

    def __neg__(self):
        return T({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not self.d or not o.d:
            return ZERO
        if o.is_const():
            c = o.cval()
            return T({m: v * c for m, v in self.d.items()})
        if self.is_const():
            c = self.cval()
            return T({m: v * c for m, v in o.d.items()})
        acc = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                r = _mono_mul(m1, m2)
                c = c1 * c2
                if isinstance(r, T):
                    t = r if c == 1 else T({m: v * c for m, v in r.d.items()})
                    extra = t if extra is None else extra + t
                else:
                    v = acc.get(r)
                    if v is None:
                        acc[r] = c
                    else:
                        v += c
                        if v:
                            acc[r] = v
                        else:
                            del acc[r]
        t = T(acc)
        return t if extra is None else t + extra

    __rmul__ = __mul__

    def inv(self):
        if not self.d:
            raise ZeroDivisionError("division by constant zero")
        if len(self.d) == 1:
            (m, c), = self.d.items()
            r = T({_ONE: 1 / c})
            for i, e in m:
                r = r * _atom_pow(i, -e)
            return r
        ENG().note_nonzero(self)
        # content
        items = self.key()
        common = None
        for m, _ in items:
            mm = dict(m)
            if common is None:
                common = mm
            else:
                common = {i: (min(e, mm[i])) for i, e in common.items() if i in mm}
        negs = {}
        for m, _ in items:
            for i, e in m:
                if e < 0:
                    negs[i] = min(negs.get(i, 0), e)
        fac = {i: e for i, e in (common or {}).items() if e > 0}
        fac.update(negs)
        fac = {i: e for i, e in fac.items() if _BYID[i].kind != "poly" or e < 0}
        q = self
        pre = T.const(1)
        if fac:
            f = T.const(1)
            for i, e in fac.items():
                f = f * _atom_pow(i, -e)
            q2 = self * f
            if len(q2.d) > 1:
                q, pre = q2, f
                # self = q / f  => 1/self = f / q
        if len(q.d) == 1:
            return pre * q.inv()
        lead = max(q.d)  # canonical monomial choice
        lc = q.d[lead]
        qn = T({m: c / lc for m, c in q.d.items()})
        at = mkatom("poly", qn)
        return pre * T({((at.id, -1),): 1 / lc})

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if o.is_const():
            c = o.cval()
            if not c:
                raise ZeroDivisionError("division by constant zero")
            return T({m: v / c for m, v in self.d.items()})
        if not self.d:
            ENG().note_nonzero(o)
            return ZERO
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o / self

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return floor(self / o)

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        return self - o * floor(self / o)

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o):
        if isinstance(o, T) and o.is_const():
            o = o.cval()
        if isinstance(o, T):
            return exp(o * log(self))
        e = frac(o)
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return (self ** (-n)).inv()
            r = T.const(1)
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if e.denominator == 2:
            r = sqrt(self)
            k = int((e - Fraction(1, 2)))
            return r * (self ** k)
        return exp(log(self) * T.const(e))

    def __rpow__(self, o):
        return lift(o) ** self

    def __abs__(self):
        return absv(self)

    # numpy object-dtype ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def log1p(self):
        return log(self + 1)

    def expm1(self):
        return exp(self) - 1

    def floor(self):
        return floor(self)

    def ceil(self):
        return -floor(-self)

    def rint(self):
        return floor(self + Fraction(1, 2))

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def isfinite(self):
        return special(self) is None

    def _old_isfinite(self):
        return True

    def isnan(self):
        return special(self) == "nan"

    def _old_isnan(self):
        return False

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def ravel(self):
        import numpy as np
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    def reshape(self, *a):
        return self.ravel().reshape(*a)

    def copy(self):
        return self

    def is_integer(self):
        if self.is_const():
            return self.cval().denominator == 1
        return self.isint()

    # -- comparisons --------------------------------------------------
    def __lt__(self, o):
        o = lift(o)
        return o if o is NotImplemented else cmp("<", self - o)

    def __le__(self, o):
        o = lift(o)
        return o if o is NotImplemented else cmp("<=", self - o)

    def __gt__(self, o):
        o = lift(o)
        return o if o is NotImplemented else cmp("<", o - self)

    def __ge__(self, o):
        o = lift(o)
        return o if o is NotImplemented else cmp("<=", o - self)

    def __eq__(self, o):
        o = lift(o)
        return o if o is NotImplemented else cmp("==", self - o)

    def __ne__(self, o):
        o = lift(o)
        return o if o is NotImplemented else neg(cmp("==", self - o))

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        v = ENG().concretize_int(self)
        return v

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise Unsupported("int() of symbolic term")

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported("float() of symbolic term")

    def __round__(self, n=None):
        raise Unsupported("round of symbolic term")

    def __floor__(self):
        return floor(self)

    def __repr__(self):
        return show(self)

    __str__ = __repr__

    def __format__(self, spec):
        return show(self)


numbers.Real.register(T)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, float) and not math.isfinite(x):
        return NAN if x != x else (INF if x > 0 else -INF)
    if isinstance(x, B):
        return ite(x, T.const(1), ZERO)
    try:
        return T.const(x)
    except TypeError:
        pass
    import numpy as np
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def _atom_pow(i, e):
    at = _BYID[i]
    if e < 0 and at.kind not in ("exp", "poly"):
        ENG().note_nonzero(T({((i, 1),): Fraction(1)}))
    r = _mono_norm([(i, e)])
    return r if isinstance(r, T) else T({r: Fraction(1)})


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        v = d.get(i, 0) + e
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return _mono_norm(d.items())


def _mono_norm(items):
    """Normalise a product of atom powers; returns a monomial tuple or a T."""
    items = list(items)
    special = False
    nexp = 0
    for i, e in items:
        k = _BYID[i].kind
        if k == "exp":
            nexp += 1
            if e != 1:
                special = True
        elif k == "sqrt" and e != 1:
            special = True
        elif k == "abs" and e not in (1, -1):
            special = True
        elif k == "poly" and e > 0:
            special = True
        elif k == "sign" and e != 1:
            special = True
    if nexp > 1:
        special = True
    if not special:
        return tuple(sorted(items))
    rest = []
    mult = T.const(1)
    earg = None
    for i, e in items:
        at = _BYID[i]
        k = at.kind
        if k == "exp":
            t = at.args[0] * e
            earg = t if earg is None else earg + t
        elif k == "sqrt" and e != 1:
            a = at.args[0]
            q, r = divmod(e, 2)
            mult = mult * (a ** q)
            if r:
                rest.append((i, 1))
        elif k == "abs" and e not in (1, -1):
            a = at.args[0]
            q, r = divmod(e, 2)
            mult = mult * (a ** (2 * q))
            if r:
                rest.append((i, 1))
        elif k == "poly" and e > 0:
            mult = mult * (at.args[0] ** e)
        elif k == "sign" and e != 1 and False:
            pass
        else:
            rest.append((i, e))
    if earg is not None and earg.d:
        en = exp(earg)
        # exp() may itself simplify (e.g. exp(log x)); en is a T
        if len(en.d) == 1:
            (m, c), = en.d.items()
            if c == 1 and len(m) == 1 and _BYID[m[0][0]].kind == "exp" and m[0][1] == 1:
                rest.append((m[0][0], 1))
            else:
                mult = mult * en
        else:
            mult = mult * en
    base = tuple(sorted(rest))
    if mult.is_const() and mult.cval() == 1:
        return base
    return T({base: Fraction(1)}) * mult


# ---------------------------------------------------------------- functions
def sqrt(t):
    t = lift(t)
    if t.is_const():
        c = t.cval()
        if c < 0:
            raise Unsupported("sqrt of negative constant")
        n, dn = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and dn * dn == c.denominator:
            return T.const(Fraction(n, dn))
        # sqrt(p/q) = sqrt(p*q)/q, extract square part
        p = c.numerator * c.denominator
        sq = 1
        f = 2
        while f * f <= p and f < 2000:
            while p % (f * f) == 0:
                p //= f * f
                sq *= f
            f += 1
        at = mkatom("sqrt", T.const(p))
        return T({((at.id, 1),): Fraction(sq, c.denominator)})
    if len(t.d) == 1:
        (m, c), = t.d.items()
        # perfect square monomial -> abs ; exp -> exp(half)
        if len(m) == 1 and _BYID[m[0][0]].kind == "exp" and c > 0:
            return sqrt(T.const(c)) * exp(_BYID[m[0][0]].args[0] * Fraction(1, 2))
        if all(e % 2 == 0 for _, e in m) and c > 0:
            r = T.const(1)
            for i, e in m:
                r = r * T({((i, 1),): Fraction(1)}) ** (e // 2)
            return sqrt(T.const(c)) * absv(r)
        cs = None
        if c > 0:
            n, dn = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and dn * dn == c.denominator and c != 1:
                cs = Fraction(n, dn)
        if cs is not None:
            return sqrt(T({m: Fraction(1)})) * cs
    ENG().note_nonneg(t)
    return T.of_atom(mkatom("sqrt", t))


def exp(t):
    t = lift(t)
    if not t.d:
        return T.const(1)
    # pull out c*log(x) with integer c
    rest = {}
    mult = None
    for m, c in t.d.items():
        if len(m) == 1 and m[0][1] == 1 and _BYID[m[0][0]].kind == "log" and c.denominator in (1, 2):
            f = _BYID[m[0][0]].args[0] ** c
            mult = f if mult is None else mult * f
        else:
            rest[m] = c
    if mult is not None:
        r = exp(T(rest))
        return r * mult
    return T.of_atom(mkatom("exp", t))


def _prime_powers(c):
    """[(base, exponent)] with product c > 0; bases are primes up to 1000 and at most one unfactored rest."""
    out, rest = {}, Fraction(1)
    for v, sgn in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while d <= 1000 and d * d <= v:
            while v % d == 0:
                out[d] = out.get(d, 0) + sgn
                v //= d
            d += 1
        if v > 1:
            if v <= 10 ** 6:
                out[v] = out.get(v, 0) + sgn
            else:
                rest *= Fraction(v) ** sgn
    fs = [(Fraction(q), e) for q, e in out.items() if e]
    return fs + ([(rest, 1)] if rest != 1 else [])


def log(t):
    t = lift(t)
    if t.is_const():
        if t.cval() == 1:
            return ZERO
        if t.cval() <= 0:
            raise Unsupported("log of non-positive constant")
        fs = _prime_powers(t.cval())
        if len(fs) == 1 and fs[0][1] == 1:
            return T.of_atom(mkatom("log", t))
        r = ZERO
        for q, e in fs:                          # log(2/3) and log(2)-log(3) are the same term
            r = r + T.of_atom(mkatom("log", T.const(q))) * e
        return r
    if len(t.d) == 1:
        (m, c), = t.d.items()
        r = ZERO if c == 1 else None
        if c > 0:
            tot = log(T.const(c))
            ok = True
            pieces = []
            for i, e in m:
                at = _BYID[i]
                if at.kind == "exp":
                    pieces.append(at.args[0] * e)
                elif len(m) == 1 and e == 1 and c == 1:
                    ok = False
                else:
                    pieces.append((i, e))
            if ok and (len(m) > 1 or c != 1 or _BYID[m[0][0]].kind == "exp" or m[0][1] != 1):
                for pz in pieces:
                    if isinstance(pz, T):
                        tot = tot + pz
                    else:
                        i, e = pz
                        at = _BYID[i]
                        base = at.args[0] if at.kind == "poly" else T({((i, 1),): Fraction(1)})
                        ENG().note_pos(base)
                        tot = tot + T.of_atom(mkatom("log", base)) * e
                return tot
    ENG().note_pos(t)
    return T.of_atom(mkatom("log", t))


def absv(t):
    t = lift(t)
    if t.is_const():
        return T.const(abs(t.cval()))
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if all(_BYID[i].kind in ("exp", "sqrt", "abs") or e % 2 == 0 for i, e in m):
            return T({m: abs(c)})
        if c != 1:
            return absv(T({m: Fraction(1)})) * abs(c)
    if any(_BYID[i].kind == "app" for i in deps(t)):
        from . import sums
        if sums.sign(t) >= 1:
            return t
    lead = max(t.d)
    if t.d[lead] < 0:
        t = -t
    return T.of_atom(mkatom("abs", t))


def closed_value(t):
    """60-digit value of a term without variables (roots, exponentials and logarithms of constants), else None."""
    with localcontext() as ctx:
        ctx.prec = 60
        tot = Decimal(0)
        for m, c in t.d.items():
            p = Decimal(c.numerator) / Decimal(c.denominator)
            for i, e in m:
                a = _BYID[i]
                if a.kind not in ("sqrt", "exp", "log"):
                    return None
                x = closed_value(a.args[0])
                if x is None:
                    return None
                p *= (x.sqrt() if a.kind == "sqrt" else x.exp() if a.kind == "exp" else x.ln()) ** e
            tot += p
        return tot


def floor(t):
    t = lift(t)
    if t.is_const():
        return T.const(math.floor(t.cval()))
    if t.isint():
        return t
    v = closed_value(t)
    if v is not None:
        k = int(v.to_integral_value(rounding="ROUND_FLOOR"))
        if min(v - k, k + 1 - v) > Decimal("1e-30"):
            return T.const(k)
    # split integer part
    ip = {}
    rp = {}
    for m, c in t.d.items():
        s = T({m: c})
        (ip if s.isint() else rp)[m] = c
    return T(ip) + T.of_atom(mkatom("floor", T(rp), isint=True))


def fn(name, *args, isint=False):
    return T.of_atom(mkatom("fn", name, *[lift(a) if not isinstance(a, (str, B)) else a for a in args], isint=isint))


def maxv(a, b):
    a, b = lift(a), lift(b)
    d = a - b
    if d.is_const():
        return a if d.cval() >= 0 else b
    if b.key() < a.key():
        a, b = b, a
    return T.of_atom(mkatom("max", a, b, isint=a.isint() and b.isint()))


def minv(a, b):
    return -maxv(-lift(a), -lift(b))


def ite(c, a, b):
    if isinstance(c, bool):
        return lift(a) if c else lift(b)
    a, b = lift(a), lift(b)
    if c.kind == "true":
        return a
    if c.kind == "false":
        return b
    if not (a - b).d:
        return a
    if c.kind == "not":
        return ite(c.args[0], b, a)
    return T.of_atom(mkatom("ite", c, a, b, isint=a.isint() and b.isint()))


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("kind", "args", "_k")

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.kind,) + tuple(_argkey(a) for a in self.args)
        return self._k

    def __bool__(self):
        if self.kind == "true":
            return True
        if self.kind == "false":
            return False
        return ENG().decide(self)

    def __and__(self, o):
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __eq__(self, o):
        if isinstance(o, (bool, B)):
            o = tob(o)
            return disj(conj(self, o), conj(neg(self), neg(o)))
        return NotImplemented

    def __hash__(self):
        return hash(self.key())

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return bool(self)

    def __repr__(self):
        return showb(self)

    # numeric use of booleans
    def _t(self):
        return ite(self, 1, 0)

    def __mul__(self, o):
        return self._t() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._t() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._t() - o

    def __rsub__(self, o):
        return o - self._t()


TRUE = B("true")
FALSE = B("false")
INF = T.var("INF")          # atom 0
NAN = T.var("NAN")          # atom 1
assert mkatom("var", "INF").id == 0 and mkatom("var", "NAN").id == 1


def tob(x):
    if isinstance(x, B):
        return x
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, T):
        return x != 0
    raise TypeError(f"not a boolean: {x!r}")


def special(t):
    """None for a finite term, else 'nan', '+inf', '-inf' or 'mixed'."""
    r = None
    for m, c in t.d.items():
        for i, e in m:
            if i == 1:
                return "nan"
            if i == 0:
                if len(m) == 1 and e == 1 and r is None:
                    r = "+inf" if c > 0 else "-inf"
                else:
                    r = "mixed"
    return r


def cmp(op, t):
    sp = special(t)
    if sp is not None:
        if sp == "nan":
            return FALSE                      # every comparison with NaN is false
        if sp == "mixed":
            raise Unsupported("arithmetic on an infinite value")
        return TRUE if (op != "==" and sp == "-inf") else FALSE
    if t.is_const():
        c = t.cval()
        r = c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0
        return TRUE if r else FALSE
    if op == "==":
        lead = max(t.d)
        lc = t.d[lead]
        if lc != 1:
            t = T({m: c / lc for m, c in t.d.items()})
    else:
        lc = abs(t.d[max(t.d)])
        if lc != 1:
            t = T({m: c / lc for m, c in t.d.items()})
    return B(op, t)


def neg(b):
    if isinstance(b, bool):
        return FALSE if b else TRUE
    k = b.kind
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "not":
        return b.args[0]
    if k == "<":
        return cmp("<=", -b.args[0])
    if k == "<=":
        return cmp("<", -b.args[0])
    if k == "forall":
        return B("exists", *b.args[:-1], neg(b.args[-1]))
    if k == "exists":
        return B("forall", *b.args[:-1], neg(b.args[-1]))
    return B("not", b)


def conj(*bs):
    out = []
    seen = set()
    for b in bs:
        b = tob(b)
        if b.kind == "false":
            return FALSE
        if b.kind == "true":
            continue
        for x in (b.args if b.kind == "and" else (b,)):
            k = x.key()
            if k not in seen:
                seen.add(k)
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B("and", *out)


def disj(*bs):
    out = []
    seen = set()
    for b in bs:
        b = tob(b)
        if b.kind == "true":
            return TRUE
        if b.kind == "false":
            continue
        for x in (b.args if b.kind == "or" else (b,)):
            k = x.key()
            if k not in seen:
                seen.add(k)
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B("or", *out)


_SK = [0]


def skolem(b):
    """Existential facts with a fresh witness (the facts about the witness are then visible to the solver)."""
    if b.kind == "exists":
        v, lo, hi, body = b.args
        _SK[0] += 1
        w = T.var(f"#w{_SK[0]}", isint=True)
        i = next(i for m in v.d for i, _ in m)
        return conj(w >= lo, w < hi, skolem(substitute(body, {i: w})))
    if b.kind in ("and", "or"):
        a = [skolem(x) for x in b.args]
        return b if all(x is y for x, y in zip(a, b.args)) else (conj(*a) if b.kind == "and" else disj(*a))
    return b


def implies(a, b):
    return disj(neg(tob(a)), b)


ZERO = T({})


class _NullEng:
    def note_nonzero(self, t): pass
    def note_nonneg(self, t): pass
    def note_pos(self, t): pass

    def decide(self, b):
        raise Unsupported("symbolic condition outside the engine")

    def concretize_int(self, t):
        raise Unsupported("symbolic index outside the engine")


_ENGINE = [_NullEng()]


def ENG():
    return _ENGINE[-1]


# ---------------------------------------------------------------- zero test
def clear_denominators(t):
    """Multiply t by positive powers of its composite denominators; zero iff t is zero (where defined)."""
    for _ in range(12):
        need = {}
        for m in t.d:
            for i, e in m:
                if e < 0 and _BYID[i].kind == "poly":
                    need[i] = min(need.get(i, 0), e)
        if not need:
            return t
        # t = sum c * m ; group: multiply every monomial by q^k
        acc = ZERO
        for m, c in t.d.items():
            mm = dict(m)
            f = T.const(c)
            for i, e in need.items():
                have = mm.pop(i, 0)
                f = f * (_BYID[i].args[0] ** (have - e))
            acc = acc + T({tuple(sorted(mm.items())): Fraction(1)}) * f
        t = acc
    return t


def is_zero(t):
    if not t.d:
        return True
    if t.is_const():
        return False
    return not clear_denominators(t).d


# ---------------------------------------------------------------- z3
_Z3F = {}


def z3fun(name, nargs, argsorts, isint):
    k = (name, nargs, tuple(argsorts), isint)
    f = _Z3F.get(k)
    if f is None:
        rs = z3.IntSort() if isint else z3.RealSort()
        f = z3.Function(name, *[z3.IntSort() if s == "i" else z3.RealSort() for s in argsorts], rs)
        _Z3F[k] = f
    return f


def _tz_int(t):
    """Integer z3 expression for an integer term."""
    s = None
    for m, c in t.d.items():
        e = z3.IntVal(int(c))
        for i, p in m:
            z = atom_z(_BYID[i])
            for _ in range(p):
                e = e * z
        s = e if s is None else s + e
    return z3.IntVal(0) if s is None else s


def _asreal(z):
    return z3.ToReal(z) if z.is_int() else z


def tz(t):
    """z3 Real expression of a term."""
    if t._z is not None:
        return t._z
    s = []
    for m, c in t.d.items():
        num = []
        den = []
        for i, p in m:
            at = _BYID[i]
            z = _asreal(atom_z(at))
            (num if p > 0 else den).extend([z] * abs(p))
        cz = z3.RealVal(f"{c.numerator}/{c.denominator}")
        e = cz if (c != 1 or not num) else None
        for z in num:
            e = z if e is None else e * z
        if den:
            dz = den[0]
            for z in den[1:]:
                dz = dz * z
            e = e / dz
        s.append(e)
    if not s:
        r = z3.RealVal(0)
    elif len(s) == 1:
        r = s[0]
    else:
        r = z3.Sum(s)
    t._z = r
    return r


def atom_z(at):
    if at._z is not None:
        return at._z
    k = at.kind
    if k == "var":
        r = z3.Int(at.args[0]) if at.isint else z3.Real(at.args[0])
    elif k == "app":
        name, *idx = at.args
        f = z3fun(name, len(idx), ["i"] * len(idx), at.isint)
        r = f(*[_tz_int(a) for a in idx])
    elif k == "poly":
        r = tz(at.args[0])
    elif k == "abs":
        a = tz(at.args[0])
        r = z3.If(a >= 0, a, -a)
    elif k == "max":
        a, b = (_tz_int(at.args[0]), _tz_int(at.args[1])) if at.isint else (tz(at.args[0]), tz(at.args[1]))
        r = z3.If(a >= b, a, b)
    elif k == "ite":
        c = bz(at.args[0])
        a, b = (_tz_int(at.args[1]), _tz_int(at.args[2])) if at.isint else (tz(at.args[1]), tz(at.args[2]))
        r = z3.If(c, a, b)
    elif k == "floor":
        r = z3.ToInt(tz(at.args[0]))
    elif k == "sqrt":
        r = z3fun("sqrt", 1, ["r"], False)(tz(at.args[0]))
    elif k == "exp":
        r = z3fun("exp", 1, ["r"], False)(tz(at.args[0]))
    elif k == "log":
        r = z3fun("log", 1, ["r"], False)(tz(at.args[0]))
    elif k == "fn":
        name, *a = at.args
        a = [x for x in a if isinstance(x, T)]
        r = z3fun(name, len(a), ["r"] * len(a), at.isint)(*[tz(x) for x in a])
    elif k == "sum":
        # canonical sum: uninterpreted function of its free variables
        from . import sums
        r = sums.sum_z(at)
    else:
        raise Unsupported("z3 for " + k)
    at._z = r
    return r


def bz(b):
    k = b.kind
    if k == "true":
        return z3.BoolVal(True)
    if k == "false":
        return z3.BoolVal(False)
    if k in ("<", "<=", "=="):
        t = b.args[0]
        if t.isint() and not t.is_const():
            z = _tz_int(t)
        elif all(all(p > 0 and _BYID[i].isint for i, p in m) for m in t.d):
            den = 1
            for c in t.d.values():
                den = den * c.denominator // math.gcd(den, c.denominator)
            z = _tz_int(T({m: c * den for m, c in t.d.items()}))
        else:
            z = tz(t)
        return z < 0 if k == "<" else z <= 0 if k == "<=" else z == 0
    if k == "and":
        return z3.And(*[bz(a) for a in b.args])
    if k == "or":
        return z3.Or(*[bz(a) for a in b.args])
    if k == "not":
        return z3.Not(bz(b.args[0]))
    if k in ("forall", "exists"):
        v, lo, hi, body = b.args
        zv = atom_z(next(iter(_BYID[i] for m in v.d for i, _ in m)))
        rng = z3.And(zv >= _tz_int(lo), zv < _tz_int(hi))
        zb = bz(body)
        if k == "forall":
            return z3.ForAll([zv], z3.Implies(rng, zb))
        return z3.Exists([zv], z3.And(rng, zb))
    if k == "bvar":
        return z3.Bool(b.args[0])
    raise Unsupported("z3 for bool " + k)


def axioms_for(ids, done):
    """Defining axioms of the atoms with the given ids (recursively)."""
    out = []
    stack = list(ids)
    while stack:
        i = stack.pop()
        if i in done:
            continue
        done.add(i)
        at = _BYID[i]
        for a in at.args:
            if isinstance(a, (T, B)):
                stack.extend(deps(a))
        if at.kind == "sqrt":
            z, a = atom_z(at), tz(at.args[0])
            out.append(z >= 0)
            out.append(z3.Implies(a >= 0, z * z == a))
        elif at.kind == "exp":
            z = atom_z(at)
            a = tz(at.args[0])
            out.append(z > 0)
            out.append(z >= 1 + a)
        elif at.kind == "log":
            z = atom_z(at)
            a = tz(at.args[0])
            out.append(z3.Implies(a > 0, z <= a - 1))
            out.append(z3.Implies(a >= 1, z >= 0))
            out.append(z3.Implies(a > 1, z > 0))
        elif at.kind == "sum":
            from . import sums
            out.extend(sums.sum_axioms(at))
        elif at.kind == "app":
            from . import sums
            out.extend(sums.app_axioms(at))
    return out


# ---------------------------------------------------------------- printing / evaluation
def _sa(i):
    at = _BYID[i]
    k = at.kind
    if k == "var":
        return str(at.args[0])
    if k == "app":
        return f"{at.args[0]}[{','.join(show(a) for a in at.args[1:])}]"
    if k == "poly":
        return "(" + show(at.args[0]) + ")"
    return k + "(" + ",".join(show(a) if isinstance(a, T) else showb(a) if isinstance(a, B) else str(a) for a in at.args) + ")"


def show(t, limit=400):
    if not t.d:
        return "0"
    out = []
    for m, c in t.key():
        f = "*".join(_sa(i) + (f"^{e}" if e != 1 else "") for i, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        else:
            out.append(f"{c}*{f}")
    s = " + ".join(out)
    return s if len(s) < limit else s[:limit] + "..."


def showb(b):
    k = b.kind
    if k in ("<", "<=", "=="):
        return f"{show(b.args[0])} {k} 0"
    if k in ("forall", "exists"):
        return f"{k} {show(b.args[0])} in [{show(b.args[1])},{show(b.args[2])}): {showb(b.args[3])}"
    return f"{k}(" + ", ".join(showb(a) if isinstance(a, B) else str(a) for a in b.args) + ")"


def substitute(x, mp):
    """Replace atoms (by id) with terms, rebuilding canonical forms."""
    if isinstance(x, T):
        if not (deps(x) & mp.keys()):
            return x
        acc = ZERO
        for m, c in x.d.items():
            f = T.const(c)
            for i, e in m:
                f = f * (sub_atom(i, mp) ** e)
            acc = acc + f
        return acc
    if isinstance(x, B):
        if not (deps(x) & mp.keys()):
            return x
        k = x.kind
        if k in ("<", "<=", "=="):
            return cmp(k, substitute(x.args[0], mp))
        if k == "and":
            return conj(*[substitute(a, mp) for a in x.args])
        if k == "or":
            return disj(*[substitute(a, mp) for a in x.args])
        if k == "not":
            return neg(substitute(x.args[0], mp))
        if k in ("forall", "exists"):
            v = x.args[0]
            return B(k, v, substitute(x.args[1], mp), substitute(x.args[2], mp), substitute(x.args[3], mp))
        return x
    return x


def sub_atom(i, mp):
    if i in mp:
        return mp[i]
    at = _BYID[i]
    if not (atom_deps(at) & mp.keys()):
        return T({((i, 1),): Fraction(1)})
    k = at.kind
    a = [substitute(z, mp) if isinstance(z, (T, B)) else z for z in at.args]
    if k == "app":
        from . import sums
        return sums.app(*a, isint=at.isint)
    if k == "poly":
        return a[0]
    if k == "sqrt":
        return sqrt(a[0])
    if k == "exp":
        return exp(a[0])
    if k == "log":
        return log(a[0])
    if k == "abs":
        return absv(a[0])
    if k == "floor":
        return floor(a[0])
    if k == "max":
        return maxv(a[0], a[1])
    if k == "ite":
        return ite(a[0], a[1], a[2])
    if k == "fn":
        return T.of_atom(mkatom("fn", *a, isint=at.isint))
    if k == "sum":
        from . import sums
        return sums.rebuild(at, a, mp)
    raise Unsupported("substitute " + k)
