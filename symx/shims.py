"""Loads frequenz.channels from the current /repo working tree for symbolic execution.

The sources are compiled from disk on every run. They are instrumented only where Python
has no operator hook: `is` / `is not`, set displays and comprehensions, and
`case None/True/False`. Module imports of a few environment modules are redirected
(asyncio.wait's result order, collections.deque, datetime.timedelta, watchfiles).
"""
from __future__ import annotations

import ast
import asyncio
import builtins
import collections
import datetime
import enum
import importlib
import logging
import math
import os
import sys
import types

from . import core
from .core import (SymBool, SymFloat, SymInt, SymTimedelta, sx_is, sx_is_not,
                   sx_isinstance)
from .env import arranged

SRC = os.environ.get("SYMX_SRC", "/repo/src")
PKG = "frequenz.channels"


# ---- ordered sets with symbolic iteration order -------------------------------------
class _PermMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, set)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, set)


class PermSet(set, metaclass=_PermMeta):
    """A set whose iteration and pop order is an input (chosen when it matters)."""

    def __init__(self, it=()):
        super().__init__()
        self._ord = {}
        self._label = None
        self._its = 0
        for x in it:
            self.add(x)

    @classmethod
    def labelled(cls, it, label):
        s = cls(it)
        s._label = label
        return s

    def _order(self, full=True):
        items = list(self._ord)
        n = len(items)
        if n < 2:
            return items
        e = core.EX
        if e is None or e.dead:
            return items
        if e.perm is not None:
            return arranged(items, e.perm)
        if self._label is None:
            self._label = e.fresh_name("set")
        name = f"{self._label}.it{self._its}"
        self._its += 1
        out = []
        k = 0
        while len(items) > 1:
            i = e.choose(f"{name}.{k}", len(items))
            out.append(items.pop(i))
            k += 1
        return out + items

    def __iter__(self):
        return iter(self._order())

    def add(self, x):
        if x not in self._ord:
            self._ord[x] = None
            super().add(x)

    def discard(self, x):
        if x in self._ord:
            del self._ord[x]
            super().discard(x)

    def remove(self, x):
        if x not in self._ord:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not self._ord:
            raise KeyError("pop from an empty set")
        items = list(self._ord)
        x = items[0]
        if len(items) > 1:
            e = core.ex()
            if e.perm is not None:
                x = arranged(items, e.perm)[0]
            else:
                if self._label is None:
                    self._label = e.fresh_name("set")
                name = f"{self._label}.pop{self._its}"
                self._its += 1
                x = items[e.choose(name, len(items))]
        self.discard(x)
        return x

    def clear(self):
        self._ord.clear()
        super().clear()

    def copy(self):
        return PermSet(self._ord)

    __copy__ = copy

    def __contains__(self, x):
        return x in self._ord

    def __len__(self):
        return len(self._ord)

    @staticmethod
    def _items(o):
        return list(o._ord) if type(o) is PermSet else list(o)

    def update(self, *os_):
        for o in os_:
            for x in self._items(o):
                self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference_update(self, *os_):
        for o in os_:
            for x in self._items(o):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection_update(self, *os_):
        for o in os_:
            keep = set(self._items(o))
            for x in list(self._ord):
                if x not in keep:
                    self.discard(x)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def symmetric_difference_update(self, o):
        for x in self._items(o):
            if x in self:
                self.discard(x)
            else:
                self.add(x)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def union(self, *os_):
        s = PermSet(self._ord)
        s.update(*os_)
        return s

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __ror__(self, o):
        return PermSet(o).union(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def difference(self, *os_):
        s = PermSet(self._ord)
        s.difference_update(*os_)
        return s

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __rsub__(self, o):
        return PermSet(o).difference(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def intersection(self, *os_):
        s = PermSet(self._ord)
        s.intersection_update(*os_)
        return s

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset)) else NotImplemented

    __rand__ = __and__

    def symmetric_difference(self, o):
        s = PermSet(self._ord)
        s.symmetric_difference_update(o)
        return s

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, (set, frozenset)) else NotImplemented

    __rxor__ = __xor__

    def __reduce__(self):
        return (PermSet, (list(self._ord),))


# ---- deque with a possibly symbolic maxlen ------------------------------------------
class _DequeMeta(type):
    def __instancecheck__(cls, obj):
        return type(obj) is SymDeque or type.__instancecheck__(cls, obj) or isinstance(
            obj, collections.deque)


class SymDeque(metaclass=_DequeMeta):
    """collections.deque over a Python list; `maxlen` may be symbolic."""

    def __init__(self, iterable=(), maxlen=None):
        if maxlen is not None:
            if type(maxlen) is not SymInt and not isinstance(maxlen, int):
                raise TypeError("an integer is required")
            if maxlen < 0:
                raise ValueError("maxlen must be non-negative")
        self._l = []
        self._maxlen = maxlen
        for x in iterable:
            self.append(x)

    def __class_getitem__(cls, item):
        return types.GenericAlias(cls, item)

    @property
    def maxlen(self):
        return self._maxlen

    def append(self, x):
        self._l.append(x)
        if self._maxlen is not None and len(self._l) > self._maxlen:
            del self._l[0]

    def appendleft(self, x):
        self._l.insert(0, x)
        if self._maxlen is not None and len(self._l) > self._maxlen:
            del self._l[-1]

    def extend(self, it):
        for x in list(it):
            self.append(x)

    def extendleft(self, it):
        for x in list(it):
            self.appendleft(x)

    def pop(self):
        if not self._l:
            raise IndexError("pop from an empty deque")
        return self._l.pop()

    def popleft(self):
        if not self._l:
            raise IndexError("pop from an empty deque")
        return self._l.pop(0)

    def insert(self, i, x):
        if self._maxlen is not None and len(self._l) >= self._maxlen:
            raise IndexError("deque already at its maximum size")
        self._l.insert(i, x)

    def clear(self):
        self._l.clear()

    def rotate(self, n=1):
        if self._l:
            n = n % len(self._l)
            self._l[:] = self._l[-n:] + self._l[:-n] if n else self._l

    def remove(self, x):
        for i, y in enumerate(self._l):
            if sx_is(y, x) or y == x:
                del self._l[i]
                return
        raise ValueError("deque.remove(x): x not in deque")

    def index(self, x, *a):
        for i, y in enumerate(self._l):
            if sx_is(y, x) or y == x:
                return i
        raise ValueError("not in deque")

    def count(self, x):
        return sum(1 for y in self._l if sx_is(y, x) or y == x)

    def reverse(self):
        self._l.reverse()

    def copy(self):
        return SymDeque(self._l, self._maxlen)

    __copy__ = copy

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __iter__(self):
        n = len(self._l)
        i = 0
        while i < len(self._l):
            if len(self._l) != n:
                raise RuntimeError("deque mutated during iteration")
            yield self._l[i]
            i += 1

    def __reversed__(self):
        return reversed(list(self._l))

    def __contains__(self, x):
        for y in self._l:
            if sx_is(y, x) or y == x:
                return True
        return False

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError("sequence index must be integer, not 'slice'")
        return self._l[i]

    def __setitem__(self, i, v):
        self._l[i] = v

    def __delitem__(self, i):
        del self._l[i]

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        d = self.copy()
        d.extend(o)
        return d

    def __eq__(self, o):
        if type(o) is SymDeque:
            return list(self._l) == list(o._l)
        return NotImplemented

    __hash__ = None

    def __repr__(self):
        return f"deque({self._l!r})"


# ---- int / float constructors --------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, int)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            v = a[0]
            if type(v) is SymInt:
                return v
            if type(v) is SymFloat:
                return v.__trunc__()
        return int(*a, **k)


class IntShim(int, metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, float)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, float)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            v = a[0]
            if type(v) in (SymInt, SymFloat):
                return core.to_float(v)
        return float(*a, **k)


class FloatShim(float, metaclass=_FloatMeta):
    pass


class _TypeShimMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, type)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, type)


# ---- environment module proxies -------------------------------------------------------
class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


async def _wait(fs, *, timeout=None, return_when=asyncio.ALL_COMPLETED):
    done, pending = await asyncio.wait(fs, timeout=timeout, return_when=return_when)
    loop = asyncio.get_running_loop()
    seq = getattr(loop, "task_seq", None)

    def key(t):
        return seq(t) if seq is not None else 0
    e = core.ex()
    label = e.fresh_name("wait")
    return (PermSet.labelled(sorted(done, key=key), label + ".done"),
            PermSet.labelled(sorted(pending, key=key), label + ".pending"))


class Change(enum.IntEnum):
    added = 1
    modified = 2
    deleted = 3

    def raw_str(self):
        return self.name


AWATCH = {"impl": None}


def awatch(*paths, **kw):
    impl = AWATCH["impl"]
    if impl is None:
        raise core.Inconclusive("awatch used without an environment model")
    return impl(*paths, **kw)


def _fake_watchfiles():
    main = types.ModuleType("watchfiles.main")
    main.Change = Change
    main.FileChange = tuple[Change, str]
    main.awatch = awatch
    w = types.ModuleType("watchfiles")
    w.Change = Change
    w.awatch = awatch
    w.main = main

    class DefaultFilter:
        pass
    w.DefaultFilter = DefaultFilter
    w.BaseFilter = DefaultFilter
    w.PythonFilter = DefaultFilter
    return w, main


_WF, _WFM = _fake_watchfiles()


def _fsum(it):
    r = 0.0
    for x in it:
        r = r + x
    return r


PROXIES = {
    "asyncio": Proxy(asyncio, {"wait": _wait}),
    "asyncio.tasks": Proxy(asyncio.tasks, {"wait": _wait}),
    "collections": Proxy(collections, {"deque": SymDeque}),
    "datetime": Proxy(datetime, {"timedelta": SymTimedelta}),
    "math": Proxy(math, {
        "isclose": lambda *a, **k: (_ for _ in ()).throw(core.Inconclusive("isclose")),
        "floor": lambda x: x.__floor__() if type(x) in (SymInt, SymFloat) else math.floor(x),
        "ceil": lambda x: x.__ceil__() if type(x) in (SymInt, SymFloat) else math.ceil(x),
        "trunc": lambda x: x.__trunc__() if type(x) in (SymInt, SymFloat) else math.trunc(x),
    }),
    "watchfiles": _WF,
    "watchfiles.main": _WFM,
}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in PROXIES:
        if fromlist or "." not in name:
            return PROXIES[name]
        return PROXIES[name.split(".")[0]]
    if level == 0 and name == "watchfiles.main":
        return _WFM if fromlist else _WF
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS.update({
    "__import__": _import,
    "set": PermSet,
    "int": IntShim,
    "float": FloatShim,
    "isinstance": sx_isinstance,
    "__sx_is__": sx_is,
    "__sx_is_not__": sx_is_not,
    "__sx_set__": PermSet,
})


# ---- instrumentation ------------------------------------------------------------------
class Instrument(ast.NodeTransformer):
    """See the module docstring."""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            fn = "__sx_is__" if isinstance(node.ops[0], ast.Is) else "__sx_is_not__"
            return ast.copy_location(ast.Call(ast.Name(fn, ast.Load()),
                                              [node.left, node.comparators[0]], []), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()), [
            ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()), [
            ast.ListComp(node.elt, node.generators)], []), node)

    def visit_match_case(self, node):
        self.generic_visit(node)
        p = node.pattern
        if isinstance(p, ast.MatchSingleton):
            name = "__sx_m__"
            node.pattern = ast.MatchAs(None, name)
            g = ast.Call(ast.Name("__sx_is__", ast.Load()), [
                ast.Name(name, ast.Load()), ast.Constant(p.value)], [])
            node.guard = g if node.guard is None else ast.BoolOp(ast.And(), [g, node.guard])
        return node


_CODE = {}


def _code(path, name):
    c = _CODE.get(path)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Instrument().visit(tree))
        c = _CODE[path] = compile(tree, path, "exec", dont_inherit=True)
    return c


class Loader:
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__["__builtins__"] = BUILTINS
        exec(_code(self.path, module.__name__), module.__dict__)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + ".") and name != "frequenz":
            return None
        rel = os.path.join(SRC, *name.split("."))
        init = os.path.join(rel, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, Loader(init, True), origin=init,
                                                  is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        if os.path.isfile(rel + ".py"):
            return importlib.machinery.ModuleSpec(name, Loader(rel + ".py", False),
                                                  origin=rel + ".py")
        if os.path.isdir(rel):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None


def install():
    if not any(f is Finder for f in sys.meta_path):
        sys.meta_path.insert(0, Finder)
    logging.disable(logging.CRITICAL)


NAMES = ["frequenz.channels", "frequenz.channels.event", "frequenz.channels.timer",
         "frequenz.channels.file_watcher"]


class NS:
    """The public modules, as the scenarios see them."""

    def __init__(self, mods):
        self.ch, self.event, self.timer, self.file_watcher = mods


def load():
    install()
    for k in [k for k in sys.modules if k == "frequenz" or k.startswith("frequenz.")]:
        del sys.modules[k]
    return NS([importlib.import_module(n) for n in NAMES])


_PLAIN = (int, str, float, bytes, bool, type(None), types.FunctionType, types.ModuleType,
          types.BuiltinFunctionType, property, staticmethod, classmethod, logging.Logger,
          tuple, frozenset, types.GenericAlias, types.MemberDescriptorType,
          types.GetSetDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType,
          types.MappingProxyType, enum.Enum)


def stateful() -> list[str]:
    """Names of module or class level objects of the package that may carry state."""
    out = []
    seen = set()

    def scan(owner, d, depth=0):
        for k, v in list(d.items()):
            if k.startswith("__") and k.endswith("__") or k.startswith("_abc"):
                continue
            if k in ("_member_map_", "_value2member_map_", "_member_names_",
                     "_unhashable_values_", "_hashable_values_", "_sort_order_",
                     "_value_repr_", "_member_type_", "_new_member_", "_use_args_"):
                continue
            if isinstance(v, type):
                if getattr(v, "__module__", "").startswith(PKG) and id(v) not in seen:
                    seen.add(id(v))
                    scan(f"{owner}.{k}", vars(v), depth + 1)
                continue
            if isinstance(v, _PLAIN) or type(v).__module__ in ("typing", "types", "abc",
                                                               "__future__"):
                continue
            if type(v).__module__.startswith(PKG) and not getattr(v, "__dict__", None):
                continue
            out.append(f"{owner}.{k}")

    for name, m in list(sys.modules.items()):
        if name == PKG or name.startswith(PKG + "."):
            scan(name, vars(m))
    return out


def snapshot():
    """Identity snapshot of module and class attributes (detects rebinding)."""
    snap = []
    for name, m in sorted(sys.modules.items()):
        if name == PKG or name.startswith(PKG + "."):
            snap.append((name, {k: id(v) for k, v in vars(m).items()}))
            for k, v in vars(m).items():
                if isinstance(v, type) and v.__module__ == name:
                    snap.append((name + "." + k, {a: id(b) for a, b in vars(v).items()
                                                  if not a.startswith("_abc")}))
    return snap
