"""Loop rule.  A loop whose contract gives an invariant is cut: the invariant is checked on entry, the modified
locals are replaced by arbitrary values satisfying it, one arbitrary iteration is executed and the invariant checked again
(that path then ends); the path on which the loop condition fails, or a break is taken, continues after the loop.  So the
obligations hold for every number of iterations."""
from __future__ import annotations


OWNER = {}          # loop state -> branch decisions of the path that continues from it (per case: each case is its own process)
_LIVE = {}
_N = [0]


def live(key):
    """names the function reads at or after the loop"""
    if key not in _LIVE:
        import ast
        import os
        from . import loader
        mod, rest = key.split(":")
        fn, _, _ = rest.partition("#")
        line = loader._RT.finder.loops[key]
        with open(os.path.join(loader.REPO, "pyvallocation", *mod.split(".")) + ".py", encoding="utf-8") as f:
            tree = ast.parse(f.read())
        out = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.lineno <= line <= n.end_lineno:
                out |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.lineno >= line}
        _LIVE[key] = out
    return _LIVE[key]


def fingerprint(v):
    """canonical form of a value (terms by their canonical form), or an object identity"""
    import numpy as np
    import pandas as pd
    from .term import T, B
    if isinstance(v, (T, B)):
        return ("t", v.key())
    if isinstance(v, dict):
        return ("d",) + tuple((str(k), fingerprint(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0])))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(map(fingerprint, v))
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted(map(str, v)))
    if isinstance(v, pd.Series):
        return ("S", tuple(map(str, v.index)), fingerprint(list(v.to_numpy())))
    if isinstance(v, pd.DataFrame):
        return ("D", tuple(map(str, v.index)), tuple(map(str, v.columns)), fingerprint(v.to_numpy()))
    if isinstance(v, np.ndarray):
        return ("a", v.shape, fingerprint(list(v.ravel())))
    if isinstance(v, (int, float, str, bool, type(None), np.number)):
        return ("c", repr(v))
    if hasattr(v, "__dict__") and not callable(v) and type(v).__module__.startswith("sympyv"):
        return ("o", type(v).__name__, fingerprint(vars(v)))
    if callable(v) or type(v).__name__ == "module":
        return ("f", getattr(v, "__module__", ""), getattr(v, "__qualname__", repr(v)))
    _N[0] += 1
    return ("unique", _N[0])


class Undefined:
    """A local the loop assigns and the invariant does not describe: unusable until the code assigns it again."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        from .term import Unsupported
        raise Unsupported(f"local `{object.__getattribute__(self, '_n')}` read before the cut loop assigns it")

    __getattr__ = __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = __contains__ = __add__ = __radd__ = __sub__ = __rsub__ = \
        __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __float__ = __int__ = __index__ = _no

    def __eq__(self, o):
        self._no()

    def __ne__(self, o):
        self._no()
    __hash__ = None


class Cut:
    """match: function name; need: locals the invariant speaks about; inv(S, env, where): states obligations;
    havoc(S, env): dict of arbitrary values satisfying the invariant (assumed)."""

    def __init__(self, S, match, need, inv, havoc, forget=True):
        self.S, self.match, self.need, self.inv, self.havoc = S, match, need, inv, havoc
        self.used = 0
        self.mark = S.path.mark() if forget else None

    def enter(self, key, names, loc, it):
        from .engine import PathEnd
        if not key.split("#")[0].endswith(self.match) or it is not None or any(n not in loc for n in self.need):
            return None
        if not all(n in names for n in self.need):
            return None
        self.used += 1
        self.inv(self.S, loc, "on entry")
        if self.mark is not None:
            # what happened before the loop is summarised by the invariant alone; equal states are continued once
            fp = (self.match, fingerprint({k: v for k, v in loc.items() if k not in names and k in live(key)}))
            mine = tuple(self.S.path.taken)
            if OWNER.setdefault(fp, mine) != mine:
                raise PathEnd("same loop state as another path")
            self.S.path.forget(self.mark)
        h = dict(self.havoc(self.S, loc))
        for n in names:
            if n not in h:
                h[n] = Undefined(n)
        h["__spec__"] = self
        return h

    def iterate(self, h, it):
        return it

    def back(self, h, loc):
        from .engine import PathEnd
        self.inv(self.S, loc, "after an iteration")
        raise PathEnd("loop body verified")


def enter(rt, key, names, loc, it):
    for spec in rt.loop_specs:
        h = spec.enter(key, names, loc, it)
        if h is not None:
            return h
    return None


def iterate(rt, h, it):
    if not h:
        return it
    return h["__spec__"].iterate(h, it)


def back(rt, h, loc):
    h["__spec__"].back(h, loc)
