"""Mechanical extraction of the code under verification.

On every run the package sources under /repo/pyvallocation are read, parsed and compiled again
as the package `sympyv`.  The transformation keeps every statement of every function; it only
  * binds np / pd / cvxopt / scipy names to the stand-ins of npx.py / externals.py,
  * binds the builtins float, int, len, range, isinstance, abs, max, min, round to symbolic-aware ones,
  * reads float literals as the exact decimal written, and `/` as exact division,
  * routes a fixed list of method calls (astype, to_numpy, mean, sum, ...) through npx.meth,
  * marks loop heads so that a contract may give an invariant for a loop over a symbolic range.
Dropped: type annotations of local variables, docstrings (kept as expressions), logging output,
plotting.py (not loaded).
"""
from __future__ import annotations
import ast
import importlib.abc
import importlib.util
import logging
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "sympyv"
METHODS = {"astype", "to_numpy", "mean", "std", "var", "sum", "cov", "abs", "clip", "round", "max", "min", "prod"}
SHADOW = ("float", "int", "len", "range", "isinstance", "abs", "max", "min", "round")


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.func = []
        self.loopno = {}
        self.loops = {}

    # names ---------------------------------------------------------------
    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        self.generic_visit(node)
        self.func.pop()
        return node

    def visit_ClassDef(self, node):
        self.func.append(node.name)
        self.generic_visit(node)
        self.func.pop()
        return node

    def visit_AnnAssign(self, node):
        # class-level annotations are needed by dataclasses: keep, but do not transform the annotation
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Import(self, node):
        out = [node]
        for a in node.names:
            if a.name.startswith("pyvallocation"):
                a.name = a.name.replace("pyvallocation", PKG, 1)
            bound = a.asname or a.name.split(".")[0]
            out.append(self._wrap(bound, a.name if a.asname else a.name.split(".")[0], None))
        return out

    def visit_ImportFrom(self, node):
        out = [node]
        if node.module == "__future__":
            return node
        if node.module and node.module.startswith("pyvallocation"):
            node.module = node.module.replace("pyvallocation", PKG, 1)
            return node
        if node.level:
            if node.module and node.module.endswith("plotting"):
                return ast.Pass()
            return node
        for a in node.names:
            if a.name == "*":
                continue
            out.append(self._wrap(a.asname or a.name, node.module, a.name))
        return out

    def _wrap(self, bound, mod, attr):
        return ast.Assign(
            targets=[ast.Name(bound, ast.Store())],
            value=ast.Call(
                ast.Attribute(ast.Name("_vp_rt", ast.Load()), "wrap_import", ast.Load()),
                [ast.Constant(mod), ast.Constant(attr), ast.Name(bound, ast.Load())], []))

    # expressions ------------------------------------------------------------
    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.Call(ast.Attribute(ast.Name("_vp_rt", ast.Load()), "c", ast.Load()),
                            [ast.Constant(repr(node.value))], [])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.Call(ast.Attribute(ast.Name("_vp_rt", ast.Load()), "div", ast.Load()), [node.left, node.right], [])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            load = ast.parse(ast.unparse(node.target), mode="eval").body
            load = Tr(self.modname).visit(load)
            return ast.Assign([node.target], ast.Call(
                ast.Attribute(ast.Name("_vp_rt", ast.Load()), "idiv", ast.Load()), [load, node.value], []))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and not (
                isinstance(f.value, ast.Name) and f.value.id in ("np", "pd", "self", "_vp_rt", "math")):
            return ast.Call(ast.Attribute(ast.Name("_vp_rt", ast.Load()), "meth", ast.Load()),
                            [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
        if isinstance(f, ast.Name) and f.id == "list" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return ast.Call(ast.Attribute(ast.Name("_vp_rt", ast.Load()), "tolist", ast.Load()), node.args, [])
        return node

    def visit_JoinedStr(self, node):
        return node

    # loops --------------------------------------------------------------------
    def _key(self):
        f = ".".join(self.func)
        self.loopno[f] = self.loopno.get(f, 0) + 1
        return f"{self.modname}:{f}#{self.loopno[f]}"

    def visit_For(self, node):
        key = self._key()
        self.generic_visit(node)
        self.loops[key] = node.lineno
        if not self.func:
            return node
        node.iter = ast.Call(ast.Attribute(ast.Name("_vp_rt", ast.Load()), "loop_iter", ast.Load()),
                             [ast.Constant(key), node.iter], [])
        return self._instrument(node, key)

    def visit_While(self, node):
        key = self._key()
        self.generic_visit(node)
        self.loops[key] = node.lineno
        if not self.func:
            return node
        return self._instrument(node, key)

    def _instrument(self, node, key):
        mod = modified_names(node)
        names = ast.Tuple([ast.Constant(n) for n in mod], ast.Load())

        def vp(name, *args):
            return ast.Call(ast.Attribute(ast.Name("_vp_rt", ast.Load()), name, ast.Load()), list(args), [])
        loc = ast.Call(ast.Name("locals", ast.Load()), [], [])
        hname = f"_vp_h_{len(self.loops)}_{node.lineno}"
        out = []
        # __h = _vp_rt.loop_enter(key, names, locals(), iterable-or-None)
        if isinstance(node, ast.For):
            itname = f"_vp_it_{len(self.loops)}_{node.lineno}"
            out.append(ast.Assign([ast.Name(itname, ast.Store())], node.iter.args[1]))
            itarg = ast.Name(itname, ast.Load())
        else:
            itarg = ast.Constant(None)
        out.append(ast.Assign([ast.Name(hname, ast.Store())],
                              vp("loop_enter", ast.Constant(key), names, loc, itarg)))
        h = ast.Name(hname, ast.Load())
        # if __h: (havoc every modified local)
        hv = []
        for n in mod:
            hv.append(ast.If(ast.Compare(ast.Constant(n), [ast.In()], [h]),
                             [ast.Assign([ast.Name(n, ast.Store())],
                                         ast.Subscript(h, ast.Constant(n), ast.Load()))], []))
        out.append(ast.If(h, hv or [ast.Pass()], []))
        back = ast.Expr(vp("loop_back", h, loc))
        node.body = [ContinueTr(back).visit(s) for s in node.body]
        node.body = flatten(node.body) + [ast.If(h, [back], [])]
        if isinstance(node, ast.For):
            node.iter = vp("loop_iter", h, itarg)
        out.append(node)
        return out


def flatten(b):
    out = []
    for s in b:
        out.extend(s) if isinstance(s, list) else out.append(s)
    return out


class ContinueTr(ast.NodeTransformer):
    """`continue` of the loop at hand also ends the (single) symbolic iteration."""

    def __init__(self, back):
        self.back = back

    def visit_For(self, node):
        return node

    def visit_While(self, node):
        return node

    def visit_FunctionDef(self, node):
        return node

    def visit_Continue(self, node):
        return [self.back, node]


MUTATORS = {"append", "extend", "add", "remove", "update", "pop", "insert", "discard", "setdefault", "clear"}


def modified_names(node):
    names = []

    def add(n):
        if n not in names and not n.startswith("_vp_"):
            names.append(n)

    def base(t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        if isinstance(t, ast.Call):
            return None
        return t.id if isinstance(t, ast.Name) else None

    def tgt(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        else:
            b = base(t)
            if b and b != "self":
                add(b)
    for s in node.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = base(n.func.value)
                if b and b != "self":
                    add(b)
    if isinstance(node, ast.For):
        loopvars = set()
        for n in ast.walk(node.target):
            if isinstance(n, ast.Name):
                loopvars.add(n.id)
        names = [n for n in names if n not in loopvars]
    return names


class Runtime:
    """The object bound to __vp in instrumented modules."""

    def __init__(self):
        from . import npx, externals, term
        self.npx, self.ext, self.tm = npx, externals, term
        self.loop_specs = []
        self._c = {}

    def c(self, s):
        v = self._c.get(s)
        if v is None:
            from fractions import Fraction
            if s in ("inf", "nan"):
                return float(s)
            v = self._c[s] = self.tm.T.const(Fraction(s))
        return v

    def div(self, a, b):
        return self.npx.div(a, b)

    def idiv(self, a, b):
        return self.npx.idiv(a, b)

    def meth(self, o, name, *a, **k):
        return self.npx.meth(o, name, *a, **k)

    def tolist(self, x):
        from . import symarray
        return x if isinstance(x, symarray.SymRange) else list(x)

    def wrap_import(self, mod, attr, obj):
        return self.ext.wrap_import(mod, attr, obj)

    # loops: by default executed as they are (fixed-size unrolling); see symarray.LoopRule
    def loop_enter(self, key, names, loc, it):
        from . import loops
        return loops.enter(self, key, names, loc, it)

    def loop_iter(self, h, it):
        from . import loops
        return loops.iterate(self, h, it)

    def loop_back(self, h, loc):
        from . import loops
        if h:
            loops.back(self, h, loc)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, rt):
        self.rt = rt
        self.loops = {}

    def _path(self, fullname):
        rel = fullname.split(".")[1:]
        p = os.path.join(REPO, "pyvallocation", *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        p, pkg = self._path(fullname)
        if not os.path.exists(p):
            return None
        return importlib.util.spec_from_loader(fullname, self, origin=p, is_package=pkg)

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        if spec.submodule_search_locations is not None:
            m.__path__ = [os.path.dirname(spec.origin)]
        m.__file__ = spec.origin
        return m

    def exec_module(self, module):
        name = module.__name__
        if name == PKG:
            return                      # the package __init__ only re-exports
        p, _ = self._path(name)
        with open(p, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, p)
        tr = Tr(name[len(PKG) + 1:])
        tree = tr.visit(tree)
        ast.fix_missing_locations(tree)
        self.loops.update(tr.loops)
        npx = self.rt.npx
        d = module.__dict__
        d["_vp_rt"] = self.rt
        d.update(float=npx.SFloat, int=npx.SInt, len=npx.s_len, range=npx.s_range, isinstance=npx.s_isinstance,
                 abs=npx.s_abs, max=npx.s_max, min=npx.s_min, round=npx.s_round, sum=npx.s_callable_sum)
        exec(compile(tree, p, "exec", dont_inherit=True), d)


_RT = None


def install():
    global _RT
    if _RT is None:
        logging.disable(logging.CRITICAL)
        _RT = Runtime()
        _RT.finder = Finder(_RT)
        sys.meta_path.insert(0, _RT.finder)
    return _RT


class Mods:
    """Lazy access to the code under verification: Mods('sympyv') or Mods('pyvallocation')."""

    def __init__(self, pkg):
        self._pkg = pkg

    def __getattr__(self, n):
        m = importlib.import_module(f"{self._pkg}.{n.replace('__', '.')}")
        setattr(self, n, m)
        return m


def symbolic_mods():
    install()
    return Mods(PKG)


_ALL = []


def load_all():
    """Every module of the package (a name replaced by its contract must not be imported under the replacement)."""
    if _ALL:
        return
    _ALL.append(1)
    root = os.path.join(REPO, "pyvallocation")
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                n = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                try:
                    importlib.import_module(f"{PKG}.{n}")
                except Exception:
                    pass


def real_mods():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import pyvallocation
    assert os.path.realpath(pyvallocation.__file__).startswith(os.path.realpath(REPO)), pyvallocation.__file__
    return Mods("pyvallocation")
