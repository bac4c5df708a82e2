"""Finite sums over symbolic index ranges, in canonical form.

An atom  sum(L, k, n_1..n_k, body)  denotes  sum_{0<=#L.0<n_1} .. sum_{0<=#L.{k-1}<n_k} body , where body is one monomial
whose factors are connected through the bound indices (independent factors are pulled out, inner sums are flattened,
Kronecker deltas and range splits are eliminated), named by the least key over all orders of the indices.  Two
expressions with the same canonical form are equal for every size.  L is the nesting level (no capture).
"""
from __future__ import annotations
import itertools
from fractions import Fraction
import z3
from . import term as tm
from .term import T, B, Unsupported, ZERO, ENG, deps, atom_deps, lift, mkatom, substitute

RANGE = {}        # index atom id -> (lo, hi): bound / temporary indices lie in [lo, hi)
SYM = set()       # names of symmetric arrays
FACTS = {}        # array name -> (shape, {lo, hi, lo_strict, hi_strict})
EXTRA = {}        # index atom id -> a fact about it
SUMVALUE = {}     # sum atom id -> term (an assumed value of that sum)
MEMO = {}         # Skolem constants by what they stand for
CONTRACT = {}     # (name1, pos1, name2, pos2) -> f(other index of 1, other index of 2)
MARGIN = {}       # (name, pos) -> f(other indices): the assumed sum of the array over that index
_N = [0]


def reset():
    RANGE.clear()
    EXTRA.clear()
    SYM.clear()
    FACTS.clear()
    SUMVALUE.clear()
    MEMO.clear()
    CONTRACT.clear()
    MARGIN.clear()


def temp(n, tag="t"):
    _N[0] += 1
    v = T.var(f"#{tag}{_N[0]}", isint=True)
    RANGE[vid(v)] = (ZERO, lift(n))
    return v


def vid(v):
    (m, c), = v.d.items()
    return m[0][0]


class Pure:
    """Engine seen while an element of an array is computed at a generic index: no forks, only entailed decisions."""

    def __init__(self, path):
        self.path = path

    def facts(self, b):
        out, todo, seen = [], list(deps(b)), set()
        while todo:
            i = todo.pop()
            if i in RANGE and i not in seen:
                seen.add(i)
                lo, hi = RANGE[i]
                v = T.of_atom(tm._BYID[i])
                out += [v >= lo, v < hi]
                if i in EXTRA:
                    out.append(EXTRA[i])
                    todo += list(deps(EXTRA[i]))
                todo += list(deps(hi) | deps(lo))
        return out

    def must(self, b):
        b = tm.tob(b)
        if b.kind == "true":
            return True
        if b.kind == "false":
            return False
        k = ("puremust", b.key())
        c = self.path.cache.get(k)
        if c is None:
            c = self.path.check(tm.conj(tm.neg(b), *self.facts(b))) == "unsat"
            self.path.cache[k] = c
        return c

    def decide(self, b):
        if self.must(b):
            return True
        if self.must(tm.neg(b)):
            return False
        raise Unsupported("the code branches on an element at a generic index: " + tm.showb(b)[:120])

    def concretize_int(self, t):
        raise Unsupported("concrete index wanted at a generic index")

    def note_nonzero(self, t):
        self.path.stats["defined_assumed"].add("divisor != 0")

    def note_nonneg(self, t):
        self.path.stats["defined_assumed"].add("radicand >= 0")

    def note_pos(self, t):
        self.path.stats["defined_assumed"].add("log argument > 0")

    def assume(self, b):
        raise Unsupported("assumption at a generic index")

    def check(self, b):
        return self.path.check(b)

    @property
    def stats(self):
        return self.path.stats


def real_path():
    for e in reversed(tm._ENGINE):
        if not isinstance(e, Pure):
            return e
    raise Unsupported("no path")


def pure():
    e = ENG()
    return e if isinstance(e, Pure) else Pure(e)


def must(b):
    return pure().must(b)


def app(name, *idx, isint=False):
    idx = [lift(i) for i in idx]
    if name in SYM and len(idx) == 2 and idx[1].key() < idx[0].key():
        idx = idx[::-1]
    return T.of_atom(mkatom("app", name, *idx, isint=isint))


def lin(t, v):
    """(a, r) with t = a*v + r, a constant and r free of v; else None."""
    i = vid(v)
    a, r = Fraction(0), {}
    for m, c in t.d.items():
        if m == ((i, 1),):
            a += c
        elif any(i in atom_deps(tm._BYID[j]) for j, _ in m):
            return None
        else:
            r[m] = c
    return (a, T(r)) if a else None


def prod(items):
    r = T.const(1)
    for i, e in items:
        r = r * tm._atom_pow(i, e)
    return r


def summ(body, v, n):
    """sum of body over v in [0, n)."""
    n, body = lift(n), lift(body)
    i = vid(v)
    if n.is_const():
        acc = ZERO
        if n.cval() > 64:
            raise Unsupported("long fixed sum")
        for k in range(int(n.cval())):
            acc = acc + substitute(body, {i: T.const(k)})
        return acc
    acc = ZERO
    for m, c in body.d.items():
        dep = [(j, e) for j, e in m if i in atom_deps(tm._BYID[j])]
        rest = T({tuple((j, e) for j, e in m if i not in atom_deps(tm._BYID[j])): c})
        acc = acc + rest * (n if not dep else _depsum(dep, v, n))
    return acc


def _depsum(dep, v, n):
    i = vid(v)
    # composite denominators and if-then-else factors on the index
    for q, (j, e) in enumerate(dep):
        at = tm._BYID[j]
        if at.kind == "ite" and i in deps(at.args[0]):
            c, A, Bv = at.args
            others = prod(dep[:q] + dep[q + 1:])
            r = _split(c, (A ** e) * others if e > 0 else others / (A ** -e), lambda: (Bv ** e) * others if e > 0 else others / (Bv ** -e), v, n)
            if r is not None:
                return r
            if e > 0:
                r = _indicator(c, A ** e, Bv ** e, others, v, n)
                if r is not None:
                    return r
        elif at.kind == "ite" and e > 0:                             # the condition is free of the index: pull it out
            c, A, Bv = at.args
            others = prod(dep[:q] + dep[q + 1:])
            return tm.ite(c, summ((A ** e) * others, v, n), summ((Bv ** e) * others, v, n))
    if len(dep) == 1 and dep[0][0] == i and 1 <= dep[0][1] <= 3:      # sums of powers of the index
        p = dep[0][1]
        if p == 1:
            return n * (n - 1) / 2
        if p == 2:
            return n * (n - 1) * (2 * n - 1) / 6
        return (n * (n - 1) / 2) ** 2
    # flatten inner sums
    idx = [(v, n)]
    body = T.const(1)
    for j, e in dep:
        at = tm._BYID[j]
        if at.kind == "sum" and e > 0 and not any(i in deps(x) for x in at.args[2:2 + at.args[1]]):
            for _ in range(e):
                ts = [temp(x) for x in at.args[2:2 + at.args[1]]]
                mp = {mkatom("var", f"#{at.args[0]}.{q}", isint=True).id: t for q, t in enumerate(ts)}
                body = body * substitute(at.args[-1], mp)
                idx += list(zip(ts, at.args[2:2 + at.args[1]]))
        else:
            body = body * tm._atom_pow(j, e)
    if len(body.d) != 1:
        return _nest(body, idx)
    r = _itestep(idx, body) if len(idx) > 1 else None
    return multi(idx, body) if r is None else r


def _indicator(c, A, Bv, others, v, n):
    """if c then A else B, as B + (A-B) [c], with c oriented one way"""
    nc = tm.neg(c)
    flip = nc.key() < c.key()
    if flip:
        c, A, Bv = nc, Bv, A
    if A.is_const() and Bv.is_const() and A.cval() == 1 and Bv.cval() == 0 and not flip:
        return None
    ind = tm.ite(c, T.const(1), ZERO)
    if len(ind.d) != 1:
        return None
    return summ((Bv + (A - Bv) * ind) * others, v, n)


def _itestep(idx, body):
    """Progress on an if-then-else factor of a flattened sum: pull it out or split one of the ranges."""
    (m, k), = body.d.items()
    ids = {vid(t) for t, _ in idx}
    for q, (j, e) in enumerate(m):
        at = tm._BYID[j]
        if at.kind != "ite" or e < 0:
            continue
        c, A, Bv = at.args
        others = prod(m[:q] + m[q + 1:]) * T.const(k)
        if not (ids & deps(c)):
            return tm.ite(c, _nest((A ** e) * others, idx), _nest((Bv ** e) * others, idx))
        for p, (t, n) in enumerate(idx):
            if vid(t) in deps(c):
                r = _split(c, (A ** e) * others, lambda: (Bv ** e) * others, t, n)
                if r is not None:
                    return _nest(r, idx[:p] + idx[p + 1:])
    return None


def _nest(body, idx):
    for t, m in reversed(idx):
        body = summ(body, t, m)
    return body


def _split(c, A, Bf, v, n):
    """sum of ite(c, A, B) when c is a comparison linear in v (None: leave it as it is)."""
    if must(c):
        return summ(A, v, n)
    if must(tm.neg(c)):
        return summ(Bf(), v, n)
    if c.kind == "not":
        inner = c.args[0]
        if inner.kind == "==":
            Bv = Bf()
            return _split(inner, Bv, lambda: A, v, n)
        return None
    if c.kind == "and":
        for k, x in enumerate(c.args):
            l = lin(x.args[0], v) if x.kind in ("==", "<", "<=") else None
            if l and l[0] in (1, -1):
                restc = tm.conj(*(c.args[:k] + c.args[k + 1:]))
                return _split(x, _iteprod(restc, A, Bf()), Bf, v, n)
        return None
    if c.kind not in ("==", "<", "<="):
        return None
    l = lin(c.args[0], v)
    if l is None or l[0] not in (1, -1):
        return None
    a, r = l
    i = vid(v)
    if c.kind == "==":
        e = -r if a == 1 else r
        if not e.isint():
            return None
        Bv = Bf()
        d = substitute(A, {i: e}) - substitute(Bv, {i: e})
        inr = tm.conj(e >= 0, e < n)
        if not must(inr):
            d = tm.ite(inr, d, ZERO)
        return d + summ(Bv, v, n)
    if a == 1:
        cut, first = (-r if c.kind == "<" else -r + 1), True
    else:
        cut, first = (r + 1 if c.kind == "<" else r), False
    if not cut.isint():
        return None
    if must(cut <= 0):
        return summ(Bf() if first else A, v, n)
    if must(cut >= n):
        return summ(A if first else Bf(), v, n)
    if not must(tm.conj(cut >= 0, cut <= n)):
        return None
    lo, hi = (A, Bf()) if first else (Bf(), A)
    t1, t2 = temp(cut), temp(n - cut)
    return summ(substitute(lo, {i: t1}), t1, cut) + summ(substitute(hi, {i: t2 + cut}), t2, n - cut)


def _iteprod(c, a, b):
    return tm.ite(c, a, b)


def _rule(idx, items):
    """Contract one bound index by a rule of the form  sum_w X(.., w) Y(w, ..) = f."""
    for w, _ in idx:
        wi = vid(w)
        occ = [(j, e) for j, e in items if wi in atom_deps(tm._BYID[j])]
        if any(tm._BYID[j].kind != "app" for j, _ in occ):
            continue
        flat = [tm._BYID[j] for j, e in occ for _ in range(e if e > 0 else 9)]
        if len(flat) == 1 and MARGIN:
            nm, *ix = flat[0].args
            hit = [q for q, x in enumerate(ix) if wi in deps(x)]
            if len(hit) == 1 and ix[hit[0]].key() == w.key() and (nm, hit[0]) in MARGIN:
                r = lift(MARGIN[nm, hit[0]](*[x for q, x in enumerate(ix) if q != hit[0]]))
                rest = [(j, e) for j, e in items if (j, e) not in occ]
                return r * prod(rest), [(t, m) for t, m in idx if vid(t) != wi]
            continue
        if len(flat) != 2:
            continue

        def ways(at):
            nm, *ix = at.args
            for q, x in enumerate(ix):
                if x.key() == w.key() and not any(wi in deps(y) for p, y in enumerate(ix) if p != q):
                    yield q, ix[1 - q]
                    if nm in SYM:
                        yield 1 - q, ix[1 - q]
        if any(len(a.args) != 3 for a in flat):
            continue
        for x, y in (flat, flat[::-1]):
            for q, o1 in ways(x):
                for p, o2 in ways(y):
                    f = CONTRACT.get((x.args[0], q, y.args[0], p))
                    if f is not None:
                        rest = [(j, e) for j, e in items if (j, e) not in occ]
                        return f(o1, o2) * prod(rest), [(t, m) for t, m in idx if vid(t) != wi]
    return None


def multi(idx, body):
    (m, c), = body.d.items()
    if CONTRACT or MARGIN:
        r = _rule(idx, m)
        if r is not None:
            return _nest(r[0] * T.const(c), r[1])
    k = len(idx)
    if k > 5:
        raise Unsupported("sum over more than five indices")
    body = T({m: Fraction(1)})
    L = 1
    for j in deps(body):
        if tm._BYID[j].kind == "sum":
            L = max(L, tm._BYID[j].args[0] + 1)
    best = None
    ids = [vid(t) for t, _ in idx]
    names = [T.var(f"#{L}.{q}", isint=True) for q in range(k)]
    for perm in itertools.permutations(range(k)):
        ns = [None] * k
        for j in range(k):
            ns[perm[j]] = idx[j][1]
        key0 = tuple(x.key() for x in ns)
        if best is not None and key0 > best[0][0]:
            continue
        b = substitute(body, {ids[j]: names[perm[j]] for j in range(k)})
        key = (key0, b.key())
        if best is None or key < best[0]:
            best = (key, ns, b)
    _, ns, b = best
    isint = b.isint()
    at = mkatom("sum", L, k, *ns, b, isint=isint)
    v = SUMVALUE.get(at.id)
    return T({(): c}) * (T.of_atom(at) if v is None else v)


def learn(b):
    """An assumed equation that is linear in one sum gives that sum's value."""
    if b.kind != "==":
        return
    d = b.args[0].d
    for m, c in d.items():
        for j, e in m:
            at = tm._BYID[j]
            if at.kind != "sum" or e != 1 or j in SUMVALUE or any(i in RANGE for i in deps(T.of_atom(at)) if tm._BYID[i].kind == "var"):
                continue
            if sum(j in atom_deps(tm._BYID[q]) for mm in d for q, _ in mm) != 1:
                continue
            co = T({tuple((q, k) for q, k in m if q != j): c})
            rest = T({mm: k for mm, k in d.items() if mm != m})
            SUMVALUE[j] = -rest / co
            return


def rebuild(at, a, mp):
    L, k = at.args[0], at.args[1]
    ns, body = a[2:2 + k], a[-1]
    ts = [temp(x) for x in ns]
    body = substitute(body, {mkatom("var", f"#{L}.{q}", isint=True).id: t for q, t in enumerate(ts)})
    return _nest(body, list(zip(ts, ns)))


# ------------------------------------------------------------------------------ facts for the solvers
def sum_z(at):
    return (z3.Int if at.isint else z3.Real)(f"sum!{at.id}")


def sign(x, depth=0):
    """2 positive, 1 non-negative, 0 unknown (index ranges understood)."""
    if depth > 6:
        return 0
    if isinstance(x, T):
        if not x.d:
            return 1
        s = [(_msign(m, depth) if c > 0 else 0) for m, c in x.d.items()]
        return 0 if 0 in s else (2 if 2 in s else 1)
    return 0


def _msign(m, depth):
    r = 2
    for i, e in m:
        s = _asign(tm._BYID[i], depth)
        if e < 0 and s == 1:
            s = 2              # defined divisor
        if s == 0 and e % 2 == 0:
            s = 1 if e > 0 else 2
        r = min(r, s)
    return r


def _asign(at, depth):
    k = at.kind
    if k == "app":
        f = FACTS.get(at.args[0])
        if f is None:
            return 0
        lo, st = f[1].get("lo"), f[1].get("lo_strict")
        if st is not None and Fraction(st) >= 0 or lo is not None and Fraction(lo) > 0:
            return 2
        return 1 if lo is not None and Fraction(lo) >= 0 else 0
    if k == "exp":
        return 2
    if k in ("sqrt", "abs"):
        return 1
    if k == "poly":
        return sign(at.args[0], depth + 1)
    if k == "ite":
        return min(sign(at.args[1], depth + 1), sign(at.args[2], depth + 1))
    if k == "max":
        return max(sign(at.args[0], depth + 1), sign(at.args[1], depth + 1))
    if k == "sum":
        r = sign(at.args[-1], depth + 1)
        return 1 if r == 2 and not all(must(n >= 1) for n in at.args[2:2 + at.args[1]]) else r
    if k == "var":
        if at.id in RANGE:
            return 1
        try:
            v = T.of_atom(at)
            return 2 if must(v > 0) else 1 if must(v >= 0) else 0
        except Unsupported:
            return 0
    return 0


def sum_axioms(at):
    s = sign(at.args[-1])
    z = sum_z(at)
    k = at.args[1]
    out = []
    if s:
        out.append(z >= 0)
    if s == 2:
        out.append(z3.Implies(z3.And(*[tm._tz_int(n) >= 1 for n in at.args[2:2 + k]]), z > 0))
    return out


def app_axioms(at):
    f = FACTS.get(at.args[0])
    if f is None or not f[1]:
        return []
    shape, rng = f
    g = []
    for i, n in zip(at.args[1:], shape):
        zi = tm._tz_int(lift(i))
        g += [zi >= 0, zi < tm._tz_int(lift(n))]
    z = tm.atom_z(at)
    out = []
    for kk, c in rng.items():
        if c is None:
            continue
        cz = tm.tz(lift(c))
        zz = tm._asreal(z)
        b = zz >= cz if kk == "lo" else zz <= cz if kk == "hi" else zz > cz if kk == "lo_strict" else zz < cz
        out.append(z3.Implies(z3.And(*g), b))
    return out
