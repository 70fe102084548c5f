"""
Loads the current sources of /repo for symbolic execution.

Every module of the package is read from disk, transformed (see transform.py) and executed in a
private module table whose imports resolve numpy, scipy, numba and matplotlib to the symbolic
counterparts.  `fresh()` re-executes everything, so no state leaks from one path to the next.
"""

import builtins
import collections
import functools
import importlib
import math
import os
import sys
import types

import numpy as np

from . import core, npshim, runtime, spshim
from .core import Sym, SymNum, SymPInt, SymBV, U64, SymBool, Unsupported
from .transform import transform

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "HamiltonianPy"


# -- numba -----------------------------------------------------------------------------
class NumbaType:
    def __init__(self, name, ndim=0, args=None):
        self.name, self.ndim, self.args = name, ndim, args

    def __getitem__(self, idx):
        return NumbaType(self.name, len(idx) if isinstance(idx, tuple) else 1)

    def __call__(self, *args):
        if args and not builtins.all(isinstance(a, NumbaType) for a in args):
            return npshim.cast(args[0], np.dtype(self.name))
        return NumbaType("sig", args=(self, args))

    def dtype(self):
        try:
            return np.dtype({"intp": "int64", "boolean": "bool", "b1": "bool", "int_": "int64",
                             "uintp": "uint64", "float_": "float64"}.get(self.name, self.name))
        except TypeError:
            return None

    def convert(self, x):
        dt = self.dtype()
        if dt is None:
            return x
        if self.ndim:
            b = npshim.base(x)
            if b.ndim != self.ndim:
                raise TypeError("No matching definition for argument type(s)")
            return npshim.wrap(npshim.emap(lambda v: to_machine(v, dt), b), dt)
        return to_machine(x, dt)


def to_machine(v, dt):
    """value as it appears inside compiled code: fixed-width when symbolic"""
    if not isinstance(v, Sym):
        if dt == np.uint64 and isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            return U64(int(v) & (2 ** 64 - 1))
        return npshim._py(v) if not isinstance(v, complex) else v
    if dt.kind in "ui":
        if isinstance(v, SymBV):
            return SymBV(v.t, dt.kind == "i")
        r = SymBV.lift(v, dt.kind == "i")
        if r is not None:
            return SymBV(r.t, dt.kind == "i")
    return npshim.cast(v, dt)


def jit(*args, **kw):
    sig = None
    if args and isinstance(args[0], NumbaType):
        sig = args[0]
    elif args and callable(args[0]):
        return args[0]

    def deco(f):
        if sig is None or sig.args is None:
            return f
        ret, params = sig.args

        @functools.wraps(f)
        def g(*a):
            if len(a) != len(params):
                raise TypeError("not enough arguments")
            r = f(*[p.convert(x) for p, x in zip(params, a)])
            if ret.ndim and isinstance(r, np.ndarray):
                return npshim.wrap(npshim.base(r), ret.dtype())
            return r
        g.py_func = f
        return g
    return deco


class _Numba(types.ModuleType):
    def __init__(self):
        super().__init__("numba")
        self.jit = self.njit = self.vectorize = self.guvectorize = jit
        self.prange = runtime.sx_range
        self.types = self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return NumbaType(name)


NUMBA = _Numba()


# -- inert stand-in (plotting) ----------------------------------------------------------
class _Inert(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _InertObj()


class _InertObj:
    def __getattr__(self, name): return _InertObj()
    def __call__(self, *a, **k): return _InertObj()
    def __iter__(self): return iter((_InertObj(), _InertObj()))
    def __getitem__(self, i): return _InertObj()


# -- math / functools / itertools ----------------------------------------------------------
class _Proxy(types.ModuleType):
    """a real module with some names replaced"""

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__.update(over)

    def __getattr__(self, name):
        r = getattr(self.__dict__["_real"], name)
        return r

    @property
    def __all__(self):
        return [n for n in dir(self._real) if not n.startswith("_")]


def _m1(f, real):
    def g(x, *a):
        if isinstance(x, Sym) or builtins.any(isinstance(i, Sym) for i in a):
            return f(x, *a)
        return real(x, *a)
    return g


def _gcd(*a):
    return math.gcd(*[int(x) for x in a])


def _fcomb(tag, real):
    def f(n, k=None):
        if k is None:
            return runtime.sx_factorial(n)
        if isinstance(n, core.SymNum) and n.isint and not isinstance(k, Sym):
            if core.engine().decide(n < 0) or k < 0:
                raise ValueError("n must be a non-negative integer")
            t = core.engine().table("%s%d" % (tag, k), n, lambda i: real(i, k))
            if t is not None:
                return t
        return real(int(n), int(k))
    return f


_comb, _perm = _fcomb("comb", math.comb), _fcomb("perm", math.perm)
def _prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def _mhypot(*xs):
    return npshim.norm(npshim.array(list(xs)))


MATH = _Proxy(math, {
    "sin": _m1(npshim.sc_sin, math.sin), "cos": _m1(npshim.sc_cos, math.cos),
    "tan": _m1(npshim.sc_tan, math.tan), "sqrt": runtime.sx_msqrt, "floor": runtime.sx_floor,
    "ceil": runtime.sx_ceil, "factorial": runtime.sx_factorial, "comb": _m1(_comb, math.comb),
    "perm": _m1(_perm, math.perm), "fabs": _m1(lambda x: abs(x), math.fabs), "prod": _prod,
    "atan2": lambda y, x: npshim.sc_atan2(y, x), "gcd": _gcd,
    "trunc": _m1(core.sym_trunc, math.trunc), "hypot": _mhypot,
    "degrees": _m1(lambda x: x * (180 / math.pi), math.degrees),
    "radians": _m1(lambda x: x * (math.pi / 180), math.radians),
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        npshim._sb(abs(a - b) <= npshim.sc_max(rel_tol * npshim.sc_max(abs(a), abs(b)), abs_tol))
        if isinstance(a, Sym) or isinstance(b, Sym) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)),
    "isfinite": npshim.sc_isfinite, "isnan": npshim.sc_isnan,
    "pow": _m1(lambda a, b: a ** b, math.pow),
})


def _lru_cache(maxsize=128, typed=False):
    def deco(f):
        store = runtime.SymDict()

        @functools.wraps(f)
        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            if store.has(key) is not False and key in store:
                return store[key]
            v = f(*a, **k)
            store[key] = v
            return v
        g.cache_clear = store.clear
        return g
    if callable(maxsize) and not isinstance(maxsize, int):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


FUNCTOOLS = _Proxy(functools, {"lru_cache": _lru_cache, "cache": lambda f: _lru_cache()(f)})


def _counter(it=()):
    d = runtime._DD(int)
    for x in it:
        d[x] = d[x] + 1
    return d


COLLECTIONS = _Proxy(collections, {"Counter": _counter})


def _bisect(side):
    def f(a, x, lo=0, hi=None, **k):
        return npshim.searchsorted(a, x, side)
    return f


def make_modules():
    import scipy.sparse
    import scipy.sparse.linalg
    import scipy.spatial
    import scipy.spatial.distance
    import scipy.linalg
    import bisect
    import operator
    sp = _Proxy(scipy.sparse, dict(spshim.SPARSE))
    spl = _Proxy(scipy.sparse.linalg, {})
    sp.__dict__["linalg"] = spl
    dist = _Proxy(scipy.spatial.distance, dict(spshim.DISTANCE))
    spa = _Proxy(scipy.spatial, dict(spshim.SPATIAL))
    spa.__dict__["distance"] = dist
    la = _Proxy(scipy.linalg, {n: npshim._guard(f, n, scipy.linalg) for n, f in npshim.LINALG.items()
                               if hasattr(scipy.linalg, n)})
    sc = _Proxy(scipy, {"sparse": sp, "spatial": spa, "linalg": la})
    bis = _Proxy(bisect, {"bisect_left": _bisect("left"), "bisect_right": _bisect("right"),
                          "bisect": _bisect("right")})
    mods = {
        "numpy": npshim.NP, "numpy.linalg": npshim.NP.linalg,
        "scipy": sc, "scipy.sparse": sp, "scipy.sparse.linalg": spl, "scipy.spatial": spa,
        "scipy.spatial.distance": dist, "scipy.linalg": la, "numba": NUMBA, "numba.types": NUMBA,
        "math": MATH, "functools": FUNCTOOLS, "collections": COLLECTIONS, "bisect": bis,
    }
    return mods


STANDINS = {}       # module name -> object a harness has put in its place for this path
INERT = ("matplotlib", "mpl_toolkits", "mkl")
_CODE = {}          # path -> (mtime_ns, size, code)


def compiled(path, modname):
    st = os.stat(path)
    key = (path, modname)
    c = _CODE.get(key)
    if c is None or c[0] != (st.st_mtime_ns, st.st_size):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        c = _CODE[key] = ((st.st_mtime_ns, st.st_size), transform(src, path, modname))
    return c[1]


class SymWorld:
    """A private instance of the package, symbolically executed."""

    def __init__(self, root=None):
        self.root = root or REPO
        self.table = {}
        self.ext = make_modules()
        self.paths = {}         # extra modules: name -> file
        self.bi = dict(vars(builtins))
        self.bi["__import__"] = self.import_

    def fresh(self):
        self.table = {}
        STANDINS.clear()

    # -- locating -------------------------------------------------------------
    def find(self, name):
        if name in self.paths:
            return self.paths[name], False
        parts = name.split(".")
        if parts[0] != PKG:
            return None
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return (f, True) if os.path.exists(f) else (None, True)
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None

    def load(self, name):
        m = self.table.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            if name in self.table:
                return self.table[name]
        loc = self.find(name)
        if loc is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        path, ispkg = loc
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        m.__dict__["__builtins__"] = self.bi
        m.__dict__["__sx__"] = runtime
        self.table[name] = m
        try:
            if path:
                exec(compiled(path, name), m.__dict__)
        except BaseException:
            self.table.pop(name, None)
            raise
        if "." in name:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if name in STANDINS or top in STANDINS:
            if "." not in name or name not in STANDINS or fromlist:
                return STANDINS[name] if name in STANDINS else STANDINS[top]
            m = _Inert(top)
            setattr(m, name.rpartition(".")[2], STANDINS[name])
            return m
        if top in INERT:
            if fromlist or "." not in name:
                return _Inert(name)
            return _Inert(top)
        if name in self.ext:
            if fromlist or "." not in name:
                return self.ext[name]
            return self.ext[top]
        if top == PKG or name in self.paths:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, level)
