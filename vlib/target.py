"""Loads the code under test from the working tree of /repo (never from an installed copy)."""
import ast
import importlib
import importlib.machinery
import importlib.util
import json
import os
import sys
import types

REPO = os.environ.get("PYRUS_REPO", "/repo")
SRC = os.path.join(REPO, "src")
MODULES = ["math_values", "angle_deg", "vector_2d", "line_2d", "ray_2d", "segment_2d", "triangle_2d",
           "circle_2d", "size_2d", "rect_2d", "region_2d", "sector_2d", "polygon_2d", "convex_hull",
           "matrix_2d", "soccer_math", "geom_2d"]


class HarnessError(Exception):
    pass


def load():
    """namespace holding every public name of the package, imported from SRC"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join("/nonexistent", "pyc")
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    ns = types.SimpleNamespace()
    mods = {}
    for m in MODULES:
        mod = importlib.import_module("pyrusgeom." + m)
        f = os.path.realpath(mod.__file__)
        if not f.startswith(os.path.realpath(SRC) + os.sep):
            raise HarnessError("pyrusgeom.%s was imported from %s, not from %s" % (m, f, SRC))
        mods[m] = mod
        for k, v in vars(mod).items():
            if not k.startswith("_"):
                setattr(ns, k, v)
    ns.mods = mods
    ns.soccer = mods["soccer_math"]
    ns.hull_mod = mods["convex_hull"]
    return ns


class Universe:
    """a second, pristine load of the package: same code, none of the state of the first load

    Entered as a context (imports inside functions then resolve to its own modules)."""
    _code = {}

    def __init__(self):
        self.mods = {}
        with self:
            for m in MODULES:
                importlib.import_module("pyrusgeom." + m)
        for m in MODULES:
            for k, v in vars(self.mods["pyrusgeom." + m]).items():
                if not k.startswith("_"):
                    setattr(self, k, v)
        self.soccer = self.mods["pyrusgeom.soccer_math"]

    def __enter__(self):
        self.outer = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] == "pyrusgeom"}
        sys.modules.update(self.mods)
        sys.meta_path.insert(0, _Finder)
        return self

    def __exit__(self, *exc):
        sys.meta_path.remove(_Finder)
        self.mods = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] == "pyrusgeom"}
        sys.modules.update(self.outer)
        return False


class _Finder:
    """imports pyrusgeom modules from SRC with the code compiled once"""

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name.split(".")[0] != "pyrusgeom":
            return None
        f = os.path.join(SRC, *name.split("."))
        is_pkg = os.path.isdir(f)
        f = os.path.join(f, "__init__.py") if is_pkg else f + ".py"
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f),
                                                      submodule_search_locations=[os.path.dirname(f)] if is_pkg else None)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        c = Universe._code.get(self.path)
        if c is None:
            c = Universe._code[self.path] = compile(open(self.path, encoding="utf-8").read(), self.path, "exec", dont_inherit=True)
        return c


def source_files():
    d = os.path.join(SRC, "pyrusgeom")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".py"))


class Consts(list):
    """the constants of the code; `fresh`: those that occur more often in a file than in the recorded tree"""
    fresh = ()


def count_constants():
    """{file name: {constant: occurrences}} of the code under test"""
    out = {}
    for f in source_files():
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except SyntaxError:
            continue
        d = out[os.path.basename(f)] = {}
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                v = node.value
                if v == v and abs(v) < 1e15:
                    d[repr(v)] = d.get(repr(v), 0) + 1
    return out


RECORD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "consts.json")


def constants(limit=400):
    """numeric constants in the source of the code under test: generators try them and their neighbours, and more often
    those that the recorded tree does not have (a dictionary in the sense of fuzzing; no verdict depends on it)"""
    now = count_constants()
    out = Consts(sorted({ast.literal_eval(k) for d in now.values() for k in d})[:limit])
    try:
        with open(RECORD) as fh:
            then = json.load(fh)
    except (OSError, ValueError):
        return out
    fresh = set()
    for f, d in now.items():
        old = then.get(f, {})
        for k, n in d.items():
            v = ast.literal_eval(k)
            if n > old.get(k, 0) and not (f in then and v in (0, 1)):
                fresh.add(abs(v))
    for k in os.environ.get("PYRUS_FRESH", "").split(","):      # development: pretend these are new
        if k:
            fresh.add(float(k) if "." in k or "e" in k else int(k))
    out.fresh = tuple(sorted(fresh))[:40]
    return out
