"""Concrete mode: recording / answering wrappers around the real cvxopt and scipy entry points."""
from __future__ import annotations
import contextlib
import numpy as np


def _a(m):
    return None if m is None else np.array(m, dtype=float)


@contextlib.contextmanager
def patched(S):
    import cvxopt
    from cvxopt import solvers
    import scipy.optimize as so
    orig = {n: getattr(solvers, n) for n in ("qp", "lp", "conelp", "socp", "sdp", "coneqp", "cp", "cpl")}
    S.orig = orig
    orig_min, orig_milp = so.minimize, so.milp
    S.orig_min, S.orig_milp = orig_min, orig_milp
    opts = dict(solvers.options)
    busy = [0]

    def wrap(kind, keys):
        f = orig[kind]

        def g(*a, **k):
            if busy[0]:
                return f(*a, **k)
            prog = dict(zip(keys, a))
            for kk in keys:
                if kk in k:
                    prog[kk] = k[kk]
            rec = {kk: (_a(v) if not isinstance(v, dict) and kk != "dims" else v) for kk, v in prog.items() if kk in keys}
            for kk in keys:
                rec.setdefault(kk, None)
            busy[0] = 1
            try:
                sol = f(*a, **k)
            finally:
                busy[0] = 0
            h = S.hooks.get("solver_status")
            if h is not None:
                sol = dict(sol)
                sol["status"] = h(kind, len(S._rec_list))
            rec.update(kind=kind, x=None if sol.get("x") is None else _a(sol["x"]), status=sol["status"])
            S._rec_list.append(rec)
            return sol
        return g

    def minim(*a, **k):
        h = S.hooks.get("minimize")
        if h is not None:
            r = h(*a, **k)
            if r is not None:
                return r
        return orig_min(*a, **k)

    def milp(*a, **k):
        h = S.hooks.get("milp")
        if h is not None:
            kk = dict(k)
            if a:
                kk["c"] = a[0]
            r = h(**kk)
            if r is not None:
                return r
        return orig_milp(*a, **k)

    mods = []
    try:
        import sys
        solvers.options["show_progress"] = False
        solvers.qp = wrap("qp", ("P", "q", "G", "h", "A", "b"))
        solvers.lp = wrap("lp", ("c", "G", "h", "A", "b"))
        solvers.conelp = wrap("conelp", ("c", "G", "h", "dims", "A", "b"))
        for name, m in list(sys.modules.items()):
            if name.startswith("pyvallocation") and m is not None:
                for at, fn, new in (("minimize", orig_min, minim), ("milp", orig_milp, milp)):
                    if getattr(m, at, None) is fn:
                        setattr(m, at, new)
                        mods.append((m, at, fn))
        so.minimize, so.milp = minim, milp
        yield
    finally:
        for n, f in orig.items():
            setattr(solvers, n, f)
        so.minimize, so.milp = orig_min, orig_milp
        for m, at, fn in mods:
            setattr(m, at, fn)
        solvers.options.clear()
        solvers.options.update(opts)
