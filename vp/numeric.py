"""Numeric reading of a goal the solver would not settle: does it hold at sampled points of its path?

z3 knows exp and log only through a few axioms, so a `sat` answer about them may not be a real counterexample, and an
`unknown` answer may hide one.  A point is an assignment to the symbols (opaque functions read as arbitrary fixed
functions) at which every assumption of the path holds; the goal is evaluated there with the real exp and log."""
import hashlib
import math
import random
from . import term as tm
from .term import T

INT = {"floor"}


class Skip(Exception):
    pass


def variables(bs):
    """ids of the free symbols below the given booleans, and the kinds met."""
    seen, kinds, vs = set(), set(), set()
    stack = []

    def push(x):
        if isinstance(x, T):
            for m in x.d:
                stack.extend(i for i, _ in m)
        elif isinstance(x, tm.B):
            for a in x.args:
                push(a)
            if x.kind == "bvar":
                kinds.add("bvar")
            if x.kind in ("forall", "exists"):
                kinds.add("quant")
        elif isinstance(x, (tuple, list)):
            for a in x:
                push(a)
    for b in bs:
        push(b)
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        at = tm._BYID[i]
        kinds.add(at.kind)
        if at.kind == "var":
            vs.add(i)
        else:
            for a in at.args:
                push(a)
    return vs, kinds


class Point:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def term(self, t):
        s, scale = 0.0, 0.0
        for m, c in t.d.items():
            v = float(c)
            for i, e in m:
                a = self.atom(i)
                if e < 0 and a == 0:
                    raise Skip
                v *= a ** e
            s += v
            scale += abs(v)
        if not math.isfinite(s):
            raise Skip
        return s, scale

    def val(self, t):
        return self.term(t)[0]

    def atom(self, i):
        if i in self.memo:
            return self.memo[i]
        at = tm._BYID[i]
        k = at.kind
        if k == "var":
            if i not in self.env:
                raise Skip
            r = self.env[i]
        elif k == "poly":
            r = self.val(at.args[0])
        elif k == "abs":
            r = abs(self.val(at.args[0]))
        elif k == "max":
            r = max(self.val(at.args[0]), self.val(at.args[1]))
        elif k == "ite":
            r = self.val(at.args[1] if self.holds(at.args[0]) else at.args[2])
        elif k == "floor":
            x = self.val(at.args[0])
            if abs(x - round(x)) < 1e-9:
                raise Skip
            r = float(math.floor(x))
        elif k == "sqrt":
            x = self.val(at.args[0])
            if x < 0:
                raise Skip
            r = math.sqrt(x)
        elif k == "exp":
            x = self.val(at.args[0])
            if abs(x) > 200:
                raise Skip
            r = math.exp(x)
        elif k == "log":
            x = self.val(at.args[0])
            if x <= 0:
                raise Skip
            r = math.log(x)
        elif k == "fn":
            key = [str(at.args[0])] + [f"{self.val(a):.7g}" if isinstance(a, T) else str(a) for a in at.args[1:]]
            h = int(hashlib.sha256("|".join(key).encode()).hexdigest()[:12], 16) / 16 ** 12
            if at.isint:
                raise Skip
            r = 2 * h - .5
        else:
            raise Skip
        self.memo[i] = r
        return r

    def holds(self, b, slack=0.0):
        """truth at the point; Skip when too close to call."""
        k = b.kind
        if k == "true":
            return True
        if k == "false":
            return False
        if k in ("<", "<=", "=="):
            v, sc = self.term(b.args[0])
            eps = 1e-11 * (1 + sc)
            if k == "==":
                if abs(v) > 1e-7 * (1e-3 + sc):
                    return False
                if abs(v) <= 1e-11 * (1e-3 + sc):
                    return True
                raise Skip
            if abs(v) <= eps:
                if sc == 0:
                    return k == "<="
                raise Skip
            return v < 0
        if k == "and":
            return all(self.holds(a) for a in b.args)
        if k == "or":
            return any(self.holds(a) for a in b.args)
        if k == "not":
            return not self.holds(b.args[0])
        raise Skip


def sample(vs, base, rng, t):
    env = {}
    style = t % 4
    total = {}
    for i in vs:
        b = base.get(i)
        if tm._BYID[i].isint:
            env[i] = float(rng.randint(0, 4)) if b is None or style else float(b)
            continue
        if b is not None and (t == 0 or style == 1 and rng.random() < .7):
            env[i] = float(b) if t == 0 else float(b) + rng.gauss(0, 1) * (.1 + abs(b)) * .3
        else:
            env[i] = {0: rng.random, 1: lambda: rng.gauss(0, 1), 2: lambda: rng.random() / max(len(vs), 2), 3: lambda: 1 + rng.random() * 2}[style]()
    return env


def judge(pc, goal, base=None, tries=240, want=12, seed=5):
    """-> ("holds", n) / ("violated", point) / ("unknown", reason): the goal at sampled points of the path."""
    vs, kinds = variables(list(pc) + [goal])
    if kinds & {"bvar", "quant", "sum", "app"}:
        return "unknown", "not evaluated"
    rng = random.Random(seed)
    good = 0
    for t in range(tries):
        env = sample(vs, base or {}, rng, t)
        p = Point(env)
        try:
            if not all(p.holds(b) for b in pc):
                continue
            ok = p.holds(goal)
        except (Skip, OverflowError, ZeroDivisionError, RecursionError):
            continue
        if not ok:
            return "violated", env
        good += 1
        if good >= want:
            break
    return ("holds", good) if good else ("unknown", "no point of the path found")
