"""Path enumeration by re-execution of the real code, and discharge of the obligations (z3, cvc5)."""
from __future__ import annotations
import time
from fractions import Fraction
import z3
from . import term as tm
from .term import T, B, Unsupported, bz, tz, deps, is_zero, neg, conj

Z3_BRANCH_MS = 1500
Z3_PROVE_MS = 6000


class PathEnd(BaseException):
    """This path is over (infeasible, or the end of a loop body whose invariant was re-established)."""


class PathLimit(BaseException):
    pass


class Obligation:
    __slots__ = ("name", "status", "backend", "ms", "model", "detail", "goal")

    def __init__(self, name, status, backend="", ms=0.0, model=None, detail="", goal=""):
        self.name, self.status, self.backend, self.ms = name, status, backend, ms
        self.model, self.detail, self.goal = model, detail, goal


class Path:
    """State of one symbolic execution path."""

    def __init__(self, prefix, stats):
        self.prefix = prefix          # list of bool decisions to follow
        self.taken = []
        self.alts = []                # positions whose other branch is feasible
        self.pc = []                  # list of B
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", Z3_BRANCH_MS)
        self.done = set()
        self.cache = {}
        self.mcache = set()
        self.assumed_defined = set()
        self.havoc = 0
        self.deadline = None

    # -- assumptions ---------------------------------------------------
    def _assert(self, b):
        b = tm.skolem(b)
        for ax in tm.axioms_for(list(deps(b)), self.done):
            self.solver.add(ax)
        self.solver.add(bz(b))

    def assume(self, b):
        b = tm.tob(b)
        if b.kind == "true":
            return
        if b.kind == "false":
            raise PathEnd("assume false")
        self.pc.append(b)
        self._assert(b)

    def note_nonzero(self, t):
        k = ("nz", t.key())
        if k in self.assumed_defined:
            return
        self.assumed_defined.add(k)
        if t.is_const():
            return
        b = t != 0
        if b.kind == "false":
            raise PathEnd
        self.pc.append(b)
        self._assert(b)
        self.stats["defined_assumed"].add("divisor != 0")

    def note_nonneg(self, t):
        k = ("nn", t.key())
        if k in self.assumed_defined:
            return
        self.assumed_defined.add(k)
        b = t >= 0
        if b.kind == "true":
            return
        self.pc.append(b)
        self._assert(b)
        self.stats["defined_assumed"].add("radicand >= 0")

    def note_pos(self, t):
        k = ("ps", t.key())
        if k in self.assumed_defined:
            return
        self.assumed_defined.add(k)
        b = t > 0
        if b.kind == "true":
            return
        self.pc.append(b)
        self._assert(b)
        self.stats["defined_assumed"].add("log argument > 0")

    def mark(self):
        return len(self.pc)

    def forget(self, mark):
        """Drop every fact learned after `mark` (fewer assumptions: what is proved afterwards holds more generally)."""
        self.pc = self.pc[:mark]
        self.solver = z3.Solver()
        self.solver.set("timeout", Z3_BRANCH_MS)
        self.done = set()
        self.cache = {}
        self.mcache = set()
        self.assumed_defined = set()
        for b in self.pc:
            self._assert(b)

    # -- branching -----------------------------------------------------
    def check(self, b):
        """sat / unsat / unknown of pc and b."""
        b = tm.skolem(b)
        for ax in tm.axioms_for(list(deps(b)), self.done):
            self.solver.add(ax)
        t0 = time.time()
        r = self.solver.check(bz(b))
        self.stats["solver_s"] += time.time() - t0
        self.stats["branch_queries"] += 1
        return str(r)

    def decide(self, b):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time limit of the symbolic execution")
        k = b.key()
        if k in self.cache:
            return self.cache[k]
        nb = neg(b)
        if b.kind in ("<", "<=", "==") and is_zero(b.args[0]):
            v = b.kind != "<"
            self.cache[k] = v
            return v
        pos = len(self.taken)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.taken.append(v)
            self._commit(b if v else nb)
        else:
            rt = self.check(b)
            if rt == "unsat":
                rf = self.check(nb)
                if rf == "unsat":
                    raise PathEnd("infeasible path")
                self.cache[k] = False
                self.cache[nb.key()] = True
                self.taken.append(False)
                return False
            rf = self.check(nb)
            if rf == "unsat":
                self.cache[k] = True
                self.cache[nb.key()] = False
                self.taken.append(True)
                return True
            self.alts.append(pos)
            self.taken.append(True)
            v = True
            self._commit(b)
        self.cache[k] = v
        self.cache[nb.key()] = not v
        return v

    def _commit(self, b):
        self.pc.append(b)
        self._assert(b)

    def choose(self, n):
        """Non-deterministic choice among n alternatives (encoded as boolean decisions)."""
        for i in range(n - 1):
            pos = len(self.taken)
            if pos < len(self.prefix):
                v = self.prefix[pos]
            else:
                v = True
                self.alts.append(pos)
            self.taken.append(v)
            if v:
                return i
        return n - 1

    def concretize_int(self, t):
        """Fork over the integer values of t (only when few are feasible)."""
        if not t.isint():
            raise Unsupported(f"non-integer symbolic index {t!r}")
        for v in range(0, 12):
            if self.decide(t == v):
                return v
        raise Unsupported(f"unbounded symbolic index {t!r}")

    def must(self, b):
        """True iff pc implies b (no fork)."""
        b = tm.tob(b)
        if b.kind == "true":
            return True
        if b.kind == "false":
            return False
        k = b.key()
        if k in self.cache:
            return self.cache[k]
        if b.kind in ("<", "<=", "==") and is_zero(b.args[0]):
            return b.kind != "<"
        mk = ("must", k)
        if mk in self.mcache:
            return True
        r = self.check(neg(b)) == "unsat"
        if r:
            self.mcache.add(mk)
        return r

    # -- obligations ----------------------------------------------------
    def prove(self, name, goal):
        goal = tm.tob(goal)
        t0 = time.time()
        if goal.kind == "true":
            return Obligation(name, "discharged", "normalise", 0.0)
        if goal.kind == "==" and is_zero(goal.args[0]):
            return Obligation(name, "discharged", "normalise", (time.time() - t0) * 1e3)
        if goal.kind == "<=" and is_zero(goal.args[0]):
            return Obligation(name, "discharged", "normalise", (time.time() - t0) * 1e3)
        return discharge(name, self.pc, goal, self.stats, t0)


def _mk_solver(pc, goal, ms, extra=()):
    s = z3.Solver()
    s.set("timeout", ms)
    done = set()
    facts = [tm.skolem(b) for b in pc] + [tm.skolem(neg(goal))]
    for b in facts:
        for ax in tm.axioms_for(list(deps(b)), done):
            s.add(ax)
        s.add(bz(b))
    for e in extra:
        s.add(e)
    return s


def discharge(name, pc, goal, stats, t0):
    # equalities: clear composite denominators first
    if goal.kind == "==":
        g = tm.clear_denominators(goal.args[0])
        goal = tm.cmp("==", g)
    if goal.kind == "true":
        return Obligation(name, "discharged", "normalise", (time.time() - t0) * 1e3)
    # relevance filter: first only assumptions sharing symbols with the goal
    gd = deps(goal)
    rel = [b for b in pc if deps(b) & gd]
    tried = set()
    res = None
    for subset in (rel, list(pc)):
        kk = len(subset)
        if kk in tried:
            continue
        tried.add(kk)
        s = _mk_solver(subset, goal, Z3_PROVE_MS)
        r = s.check()
        if r == z3.unsat:
            ms = (time.time() - t0) * 1e3
            stats["solver_s"] += ms / 1e3
            return Obligation(name, "discharged", "z3", ms)
        res = (r, s)
    r, s = res
    if r != z3.sat:
        # second opinion: cvc5
        rr = cvc5_check(s, 8000)
        if rr == "unsat":
            ms = (time.time() - t0) * 1e3
            stats["solver_s"] += ms / 1e3
            return Obligation(name, "discharged", "cvc5", ms)
        # nlsat on a quantifier/UF free abstraction
    ms = (time.time() - t0) * 1e3
    stats["solver_s"] += ms / 1e3
    from . import numeric
    if r == z3.sat:
        m = s.model()
        if numeric.variables([goal])[1] & {"exp", "log"}:
            # the solver's exp and log are not the real ones: its model has to be confirmed with those
            vs = numeric.variables(list(pc) + [goal])[0]
            base = {i: model_value(m, tm._BYID[i]) for i in vs}
            j, pt = numeric.judge(pc, goal, {i: float(v) for i, v in base.items() if v is not None})
            if j == "holds":
                return Obligation(name, "undecided", "z3", ms, detail="refuted only with another exp/log; holds at every sampled point of the path", goal=tm.showb(goal)[:600])
            if j == "violated":
                return Obligation(name, "refuted", "z3", ms, model=pt, goal=tm.showb(goal)[:600])
        return Obligation(name, "refuted", "z3", ms, model=m, goal=tm.showb(goal)[:600])
    j, pt = numeric.judge(pc, goal)
    if j == "violated":
        return Obligation(name, "refuted", "evaluation at a point", ms, model=pt, goal=tm.showb(goal)[:600])
    return Obligation(name, "undecided", "z3+cvc5", ms, detail=s.reason_unknown(), goal=tm.showb(goal)[:600])


def cvc5_check(solver, ms):
    try:
        import cvc5
        txt = solver.to_smt2()
        s = cvc5.Solver()
        s.setOption("tlimit-per", str(ms))
        s.setOption("nl-cov", "true")
        s.setLogic("ALL")
        ip = cvc5.InputParser(s)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = ip.getSymbolManager()
        out = ""
        while True:
            c = ip.nextCommand()
            if c.isNull():
                break
            out += str(c.invoke(s, sm))
        for w in ("unsat", "sat", "unknown"):
            if w in out.split():
                return w
    except Exception as e:       # the second solver is optional: no answer = unknown
        return "unknown"
    return "unknown"


def model_value(model, at):
    if isinstance(model, dict):                       # a sampled point (numeric.py)
        v = model.get(at.id)
        return None if v is None else Fraction(v)
    z = tm.atom_z(at)
    v = model.eval(z, model_completion=True)
    try:
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        pass
    return None


class Explorer:
    """Runs body(path) on every feasible path (depth-first), up to limits."""

    def __init__(self, stats, max_paths=400, time_limit=60.0):
        self.stats = stats
        self.max_paths = max_paths
        self.time_limit = time_limit

    def run(self, body):
        t_end = time.time() + self.time_limit
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if n > self.max_paths or time.time() > t_end:
                raise PathLimit(f"more than {self.max_paths} paths or {self.time_limit}s")
            p = Path(prefix, self.stats)
            p.deadline = t_end
            tm._ENGINE.append(p)
            try:
                body(p)
            except PathEnd:
                pass
            finally:
                tm._ENGINE.pop()
            for pos in p.alts:
                if pos >= len(prefix):
                    work.append(p.taken[:pos] + [False])
        return n


def new_stats():
    return {"solver_s": 0.0, "branch_queries": 0, "defined_assumed": set()}
