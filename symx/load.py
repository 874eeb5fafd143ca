"""Import /repo's valor_lite with its third-party modules replaced by the
symbolic front ends, from the current source on every run."""
from __future__ import annotations

import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import json as rjson
import os
import pkgutil
import sys
import types

from . import core, narr, sstr
from .core import Sym, SymBase, SymBool

REPO_SRC = os.environ.get("SYMX_SRC", "/repo/src")
PKG = "valor_lite"


class _FloatMeta(type):
    def __call__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, narr.Arr) and x.size == 1:
                x = x.view(narr.rnp.ndarray).reshape(-1)[0]
            if isinstance(x, (Sym, SymBool)):
                return narr.coerce_elem(x, "f")
        return builtins.float(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and x.k == "r")

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SFloat(builtins.float, metaclass=_FloatMeta):
    __symx_real__ = builtins.float


SFloat.__name__ = "float"


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if a and len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, narr.Arr) and x.size == 1:
                x = x.view(narr.rnp.ndarray).reshape(-1)[0]
            if isinstance(x, (Sym, SymBool)):
                return narr.coerce_elem(x, "i")
            if isinstance(x, sstr.SymText):
                return x.to_int()
            if isinstance(x, sstr.SymStr):
                return builtins.int(x.force("int"))
        return builtins.int(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.k == "i")

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SInt(builtins.int, metaclass=_IntMeta):
    __symx_real__ = builtins.int


SInt.__name__ = "int"


class _BoolMeta(type):
    def __call__(cls, *a):
        if a and isinstance(a[0], SymBool):
            return a[0]
        if a and isinstance(a[0], Sym):
            return a[0] != 0
        return builtins.bool(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class SBool(builtins.int, metaclass=_BoolMeta):
    __symx_real__ = builtins.bool


SBool.__name__ = "bool"

class _StrMeta(type):
    def __call__(cls, *a, **k):
        return sstr.s_str(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.str, sstr.SymStr, sstr.SymText))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)


class SStr(builtins.str, metaclass=_StrMeta):
    __symx_real__ = builtins.str


SStr.__name__ = "str"

_TYPES = {builtins.float: SFloat, builtins.int: SInt, builtins.str: SStr, builtins.bool: SBool}


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return SFloat if x.k == "r" else SInt
        if isinstance(x, SymBool):
            return SBool
        if isinstance(x, (sstr.SymStr, sstr.SymText)):
            return SStr
        t = builtins.type(x)
        return _TYPES.get(t, t)
    return builtins.type(*a)


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1:
            return s_type(*a)
        return builtins.type(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)


class SType(builtins.type, metaclass=_TypeMeta):
    pass


SType.__name__ = "type"


def s_max(*a, **k):
    return _ext(builtins.max, lambda x, y: y > x, a, k)


def s_min(*a, **k):
    return _ext(builtins.min, lambda x, y: y < x, a, k)


def _ext(real, better, a, k):
    if k or (len(a) == 1 and isinstance(a[0], types.GeneratorType)):
        if len(a) == 1:
            a = (list(a[0]),)
        if k:
            return real(*a, **k)
    items = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, SymBase) for x in items):
        return real(*a, **k) if len(a) != 1 else real(items)
    best = items[0]
    for x in items[1:]:
        if builtins.bool(better(best, x)):
            best = x
    return best


class SymJSON:
    """json on configuration values that may be symbolic integers."""

    def __init__(self):
        for n in dir(rjson):
            if not n.startswith("__") and not hasattr(type(self), n):
                setattr(self, n, getattr(rjson, n))
        self.__name__ = "json"

    @staticmethod
    def _default(o):
        if isinstance(o, (Sym, sstr.SymStr)):
            return {"__symx__": core.engine().handle(o)}
        if isinstance(o, SymBool):
            return bool(o)
        raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")

    @staticmethod
    def _hook(d):
        if set(d) == {"__symx__"}:
            return core.engine().handles[d["__symx__"]]
        return d

    def dumps(self, o, **k):
        k.setdefault("default", self._default)
        return rjson.dumps(o, **k)

    def dump(self, o, f, **k):
        k.setdefault("default", self._default)
        return rjson.dump(o, f, **k)

    def loads(self, s, **k):
        if isinstance(s, sstr.SymText):
            # outside strings and numbers only these distinctions matter to JSON
            s = s.by_class('{}[]",:\\-')
        if isinstance(s, sstr.SymStr):
            s = s.force("json")
        if k:
            return rjson.loads(s, **k)
        return rjson.loads(s, object_hook=self._hook) if "__symx__" in s else rjson.loads(s)

    def load(self, f, **k):
        return self.loads(f.read(), **k)


class Membership(ast.NodeTransformer):
    """`a in b` -> a call, because the operator forces a plain bool."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "__symx_in__" if isinstance(n.ops[0], ast.In) else "__symx_notin__"
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.comparators[0]], []), n)
        return n

    SCALARS = {"float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "intp", "bool_", "double"}

    def visit_ClassDef(self, n):
        """class X(str, Enum): derive from the real type."""
        self.generic_visit(n)
        n.bases = [
            ast.copy_location(ast.Name(f"__symx_real_{b.id}__", ast.Load()), b) if isinstance(b, ast.Name) and b.id in ("str", "int", "float", "bool") else b
            for b in n.bases
        ]
        return n

    def visit_Call(self, n):
        """np.float64(x) -> a call that keeps symbols, the type itself forces a number."""
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id == "type" and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(ast.Call(ast.Name("__symx_type__", ast.Load()), n.args, []), n)
        if isinstance(f, ast.Attribute) and f.attr in self.SCALARS and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(ast.Call(ast.Name("__symx_npscalar__", ast.Load()), [f, n.args[0]], []), n)
        return n


class World:
    """the symbolically loaded package."""

    def __init__(self, extra_modules=None):
        from . import parrow

        self.np = narr.make_module()
        mods = {"numpy": self.np, **parrow.make_modules()}
        self.pa = mods["pyarrow"]
        self.pc = mods["pyarrow.compute"]
        mods["json"] = SymJSON()
        mods["re"] = sstr.SymRe()
        mods.update(extra_modules or {})
        self.mods = mods
        self.modules = {}
        self.files = []
        self._load()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in self.mods:
            if fromlist:
                return self.mods[name]
            top = name.partition(".")[0]
            return self.mods.get(top) or builtins.__import__(top)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _load(self):
        bl = dict(builtins.__dict__)
        bl["__import__"] = self._import
        bl["float"] = SFloat
        bl["int"] = SInt
        bl["bool"] = SBool
        bl["str"] = SStr
        bl["__symx_type__"] = s_type
        for t in (builtins.float, builtins.int, builtins.bool, builtins.str):
            bl[f"__symx_real_{t.__name__}__"] = t
        bl["max"] = s_max
        bl["min"] = s_min
        bl["isinstance"] = sstr.s_isinstance
        bl["__symx_in__"] = sstr.s_in
        bl["__symx_notin__"] = sstr.s_notin
        bl["__symx_npscalar__"] = narr.np_scalar
        self.builtins = bl
        world = self

        class Loader(importlib.abc.Loader):
            def __init__(self, path, is_pkg):
                self.path, self.is_pkg = path, is_pkg

            def create_module(self, spec):
                return None

            def exec_module(self, module):
                with builtins.open(self.path, "rb") as f:
                    src = f.read()
                tree = Membership().visit(ast.parse(src, self.path))
                code = compile(ast.fix_missing_locations(tree), self.path, "exec", dont_inherit=True)
                module.__dict__["__builtins__"] = world.builtins
                world.files.append(self.path)
                exec(code, module.__dict__)

        class Finder(importlib.abc.MetaPathFinder):
            def find_spec(self, fullname, path, target=None):
                if fullname != PKG and not fullname.startswith(PKG + "."):
                    return None
                base = os.path.join(REPO_SRC, *fullname.split("."))
                if os.path.isfile(os.path.join(base, "__init__.py")):
                    p = os.path.join(base, "__init__.py")
                    spec = importlib.util.spec_from_loader(fullname, Loader(p, True), origin=p, is_package=True)
                    spec.submodule_search_locations = [base]
                    spec.has_location = True
                    return spec
                if os.path.isfile(base + ".py"):
                    p = base + ".py"
                    spec = importlib.util.spec_from_loader(fullname, Loader(p, False), origin=p)
                    spec.has_location = True
                    return spec
                return None

        for n in list(sys.modules):
            if n == PKG or n.startswith(PKG + "."):
                del sys.modules[n]
        sys.dont_write_bytecode = True
        self.finder = Finder()
        sys.meta_path.insert(0, self.finder)
        self.root = importlib.import_module(PKG)
        for m in pkgutil.walk_packages(self.root.__path__, PKG + "."):
            importlib.import_module(m.name)

    def __getitem__(self, name):
        return sys.modules[PKG + ("." + name if name else "")]
