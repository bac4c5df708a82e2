"""Frame conditions (C17).  Every contract of every other property is run again with its calls framed: everything the caller
passed in so far - arrays, series, frames, mappings, sequences, dataclasses and the arrays inside them - is compared with a
snapshot after each call, whether it returned or raised; the contract's own postconditions are not looked at.  Where the call
reads nothing random and no external stand-in is involved, it is also made a second time with the same objects, and must give
the same answer."""
from __future__ import annotations
import dataclasses
import numpy as np
import pandas as pd
from . import spec
from . import term as tm
from .spec import Contract, SymS, ConS, Reject, Outcome


class Stop(Reject):
    """the host contract can not continue"""


def ours(v):
    m = type(v).__module__
    return m.split(".")[0] in ("pyvallocation",) or m.startswith("sympyv")


def snap(v, depth=0):
    """(kind, saved content, parts) of a caller's object"""
    if isinstance(v, np.ndarray):
        return ("array", v.copy(), [])
    if isinstance(v, pd.Series):
        return ("series", (np.array(v.to_numpy(), copy=True), list(v.index), v.name), [])
    if isinstance(v, pd.DataFrame):
        return ("frame", (np.array(v.to_numpy(), copy=True), list(v.index), list(v.columns)), [])
    if isinstance(v, pd.Index):
        return ("index", list(v), [])
    if depth > 5:
        return ("atom", v, [])
    if isinstance(v, dict):
        return ("mapping", list(v.keys()), [(k, x, snap(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return ("sequence", len(v), [(i, x, snap(x, depth + 1)) for i, x in enumerate(v)])
    if isinstance(v, (set, frozenset)):
        return ("set", set(v), [])
    if ours(v) and not isinstance(v, type) and not callable(v) and hasattr(v, "__dict__"):
        d = {k: x for k, x in vars(v).items() if not k.startswith("_")}
        return ("object", list(d), [(k, x, snap(x, depth + 1)) for k, x in d.items()])
    return ("atom", v, [])


def same(x, y):
    if x is y:
        return True
    if isinstance(x, (tm.T, tm.B)) or isinstance(y, (tm.T, tm.B)):
        return None
    try:
        if x == y:
            return True
        return bool(x != x and y != y)
    except Exception:
        return False


def values(S, a, b):
    """a, b: arrays.  True / False / list of term pairs to prove equal"""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype != object:
        if a.dtype.kind == "f":
            return bool(((a == b) | ((a != a) & (b != b))).all())
        return bool((a == b).all())
    todo = []
    for x, y in zip(a.flat, b.flat):
        r = same(x, y)
        if r is False:
            return False
        if r is None:
            todo.append((x, y))
    return todo or True


def diff(S, v, s, where="", out=None):
    """[(where, False | pairs)] of the differences between v and its snapshot"""
    out = [] if out is None else out
    kind, saved, parts = s
    put = lambda r: out.append((where, r)) if r is not True else None
    if kind == "array":
        put(values(S, v, saved))
    elif kind == "series":
        put(list(v.index) == saved[1] and v.name == saved[2])
        put(values(S, np.asarray(v.to_numpy()), saved[0]))
    elif kind == "frame":
        put(list(v.index) == saved[1] and list(v.columns) == saved[2])
        put(values(S, np.asarray(v.to_numpy()), saved[0]))
    elif kind == "index":
        put(list(v) == saved)
    elif kind == "set":
        put(set(v) == saved)
    elif kind == "mapping":
        put(list(v.keys()) == saved)
        for k, x, t in parts:
            if k in v:
                part(S, v[k], x, t, f"{where}[{k!r}]", out)
    elif kind == "sequence":
        put(len(v) == saved)
        for i, x, t in parts:
            if i < len(v):
                part(S, v[i], x, t, f"{where}[{i}]", out)
    elif kind == "object":
        d = vars(v)
        put([k for k in d if not k.startswith("_")] == saved)
        for k, x, t in parts:
            if k in d:
                part(S, d[k], x, t, f"{where}.{k}", out)
    return out


def part(S, new, old, t, where, out):
    if new is not old:
        r = same(new, old) if t[0] == "atom" else False
        if r is not True:
            out.append((where, [(new, old)] if r is None else False))
            return
    diff(S, old, t, where, out)


def plain(v, depth=0):
    """comparable content of a result; None marks something not compared"""
    if isinstance(v, pd.Series):
        return ("s", list(map(str, v.index)), plain(np.asarray(v.to_numpy())))
    if isinstance(v, pd.DataFrame):
        return ("d", list(map(str, v.index)), list(map(str, v.columns)), plain(np.asarray(v.to_numpy())))
    if isinstance(v, np.ndarray):
        return ("a", v.shape, list(v.flat))
    if isinstance(v, (list, tuple)):
        return ("l", [plain(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("m", [(str(k), plain(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (bool, int, float, str, np.number, np.bool_, tm.T)):
        return ("v", [v])
    if depth < 4 and ours(v) and not callable(v) and hasattr(v, "__dict__"):
        return ("o", type(v).__name__, [(k, plain(x, depth + 1)) for k, x in vars(v).items() if not k.startswith("_")])
    return None


def leaves(a, b, out):
    """pairs of scalars; False where the shapes of the two results differ"""
    if a is None or b is None:
        return a is b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return all([leaves(x, y, out) for x, y in zip(a, b)])
    if isinstance(a, (str, bool, np.bool_)) or isinstance(b, (str, bool, np.bool_)):
        return bool(a == b)
    out.append((a, b))
    return True


STATEFUL = ("update", "set_", "add_")          # documented to change their receiver
RANDOM = ("seed", "rng", "random_state", "random", "simulate", "sample", "draw", "project_scenarios", "stacking", "stack")


class Frame:
    """mixed into the symbolic and the concrete specification object"""

    def start(self):
        self.kept = []
        self.seen = set()

    def track(self, v, name):
        if id(v) in self.seen or isinstance(v, np.random.Generator) or callable(v):
            return
        s = snap(v)
        if s[0] == "atom":
            return
        self.seen.add(id(v))
        self.kept.append((name, v, s))

    def call(self, f, *a, **k):
        for i, v in enumerate(a):
            self.track(v, f"argument {i}")
        for n, v in k.items():
            self.track(v, f"argument {n}")
        fn = getattr(f, "__name__", "call")
        n0 = self.counter()
        first = super().call(f, *a, **k)
        self.unchanged(fn)
        if not fn.startswith(STATEFUL) and not any(hasattr(v, "__next__") for v in a) and self.repeatable(f, fn, k, n0):
            second = super().call(f, *a, **k)
            self.unchanged(fn)
            self.answer(fn, first, second)
        return first

    def once(self, f, *a, **k):
        for i, v in enumerate(a):
            self.track(v, f"argument {i}")
        for n, v in k.items():
            self.track(v, f"argument {n}")
        out = super().call(f, *a, **k)
        self.unchanged(getattr(f, "__name__", "call"))
        return out

    def twice(self, f, *a, **k):
        first = self.once(f, *a, **k)
        self.answer(getattr(f, "__name__", "call"), first, self.once(f, *a, **k))
        return first

    def repeatable(self, f, fn, k, n0):
        return False

    def counter(self):
        return 0

    def unchanged(self, fn):
        self.post("the caller's objects are left as they were", True)
        for name, v, s in self.kept:
            bad = diff(self, v, s, name)
            for where, r in bad:
                if r is False:
                    self.broken("the caller's objects are left as they were", f"{fn} changed {where}")
                else:
                    for x, y in r:
                        self.equal("the caller's objects are left as they were", x, y, f"{fn} changed {where}")

    def answer(self, fn, a, b):
        nm = "the same objects give the same answer again"
        if (a.exc is None) != (b.exc is None) or type(a.exc).__name__ != type(b.exc).__name__:
            return self.broken(nm, f"{fn}: {a.exc!r} then {b.exc!r}")
        if a.exc is not None:
            return self.post(nm, True)
        prs = []
        if not leaves(plain(a.value), plain(b.value), prs):
            return self.broken(nm, f"{fn}: {spec._short(a.value)} then {spec._short(b.value)}")
        self.post(nm, True)
        for x, y in prs:
            self.equal(nm, x, y, f"{fn}: second answer differs")

    # the host contract's own obligations are discharged under their own property
    def true(self, *a, **k):
        pass

    eq = le = lt = same_labels = eq_shape = true

    def fail(self, *a, **k):
        raise Stop

    def ok(self, out, name=""):
        if out.exc is not None:
            raise Stop
        return out.value

    def raises(self, *a, **k):
        pass


class FrameSym(Frame, SymS):
    def __init__(self, *a):
        SymS.__init__(self, *a)
        self.start()

    def counter(self):
        from . import externals
        return externals.COUNTER[0] + len(self.npx.RECORD)

    def repeatable(self, f, fn, k, n0):
        return (self.mode == "F" and not self.stubs and not self.npx.HOOKS and self.counter() == n0 and not self.loop_specs
                and not any(r in fn or r in k for r in RANDOM))

    def post(self, name, b):
        SymS.true(self, name, b)

    def broken(self, name, detail):
        SymS.fail(self, name, detail)

    def equal(self, name, x, y, detail):
        SymS.eq(self, name, x, y)


class FrameCon(Frame, ConS):
    def __init__(self, rng, dims, vals=None, tol=1e-7):
        ConS.__init__(self, rng, dims, vals, tol)
        self.start()

    def repeatable(self, f, fn, k, n0):
        return not self.hooks and not self.spies and not any(r in fn or r in k for r in RANDOM)

    def mat(self, *a, **k):
        m = ConS.mat(self, *a, **k)
        return np.asfortranarray(m) if self.rng.random() < .3 else m

    def post(self, name, b):
        ConS.true(self, name, b)

    def broken(self, name, detail):
        self.checked += 1
        raise spec.Failure(name, detail)

    def equal(self, name, x, y, detail):
        self.checked += 1
        x, y = float(x), float(y)
        if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-7 * max(1., abs(y))):
            raise spec.Failure(name, f"{detail}: {x!r} vs {y!r}")


class FrameContract(Contract):
    def __init__(self, c):
        self.__dict__.update(c.__dict__)
        self.host, self.prop, self.name, self.frame = c, "C17", f"frame_{c.prop}_{c.name}", True
        self.modes = "".join(m for m in "FC" if m in c.modes)
        d = c.quick_dims or c.dims
        self.dims = {k: [v[min(1, len(v) - 1)]] for k, v in d.items()}
        self.quick_dims, self.cdims = None, None
        self.samples = max(5, min(20, c.samples // 3))
        self.cbudget = 6.0

    def concrete(self, rng, dims, vals):
        return FrameCon(rng, dims, vals, self.tol)

    def symbolic(self, path, mode, dims, cfg):
        return FrameSym(path, mode, dims, None, self.name, cfg)


class OwnContract(FrameContract):
    """written for C17"""
    def __init__(self, c):
        self.__dict__.update(c.__dict__)


def derived(reg):
    return [c if c.prop != "C17" else OwnContract(c) for c in reg] + [FrameContract(c) for c in reg if c.prop != "C17"]
