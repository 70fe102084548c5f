"""
Symbolic counterpart of numpy: an ndarray subclass holding symbolic scalars and
a module object standing in for `numpy` in the executed code.
"""

import builtins
import functools
import itertools
import math
import operator

import numpy as np
import z3

from . import core
from .core import (Sym, SymNum, SymBool, SymPInt, SymBV, SymComplex, Unsupported,
                   MergeAbort, engine, ite, s_and, s_or, s_not, is_sym, sym_sqrt)

OBJ = np.dtype(object)


# --------------------------------------------------------------------------
# scalar functions
def _f(x):
    """keep numpy float semantics for concrete division by zero etc."""
    return x


def sc_div(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all="ignore"):
            return _py(np.true_divide(a, b))
    return a / b


def sc_abs(x):
    return builtins.abs(x)


def sc_sqrt(x):
    if isinstance(x, Sym):
        return sym_sqrt(x)
    return _py(np.sqrt(x))


def _fallback1(name):
    fn = getattr(np, name)

    def g(x):
        if isinstance(x, Sym):
            if isinstance(x, SymNum) and x.is_const():
                return _py(fn(float(x.value())))
            raise Unsupported("numpy.%s of a symbolic value" % name)
        return _py(fn(x))
    return g


def sc_sin(x):
    return x.sin() if isinstance(x, SymNum) else (_fallback1("sin")(x))


def sc_cos(x):
    return x.cos() if isinstance(x, SymNum) else (_fallback1("cos")(x))


def sc_tan(x):
    return x.tan() if isinstance(x, SymNum) else (_fallback1("tan")(x))


def sc_exp(x):
    if isinstance(x, SymComplex) and core.x_iszero(x.re):
        s, c = engine().trig(SymNum.lift(x.im))
        return SymComplex(c, s)
    return _fallback1("exp")(x)


def sc_floor(x):
    return x.floor() if isinstance(x, SymNum) else _py(np.floor(x)) if not is_sym(x) else x


def sc_ceil(x):
    return x.ceil() if isinstance(x, SymNum) else _py(np.ceil(x)) if not is_sym(x) else x


def sc_trunc(x):
    return x.trunc() if isinstance(x, SymNum) else _py(np.trunc(x)) if not is_sym(x) else x


def sc_rint(x):
    return x.rint() if isinstance(x, SymNum) else _py(np.rint(x)) if not is_sym(x) else x


def sc_conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def sc_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    return ite(_sb(a >= b), a, b)


def sc_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    return ite(_sb(a <= b), a, b)


def _sb(x):
    return x if isinstance(x, SymBool) else bool(x)


def truthy(x):
    """SymBool/bool of a scalar without forking."""
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def sc_sign(x):
    if not is_sym(x):
        return _py(np.sign(x))
    return ite(_sb(x > 0), 1, ite(_sb(x < 0), -1, 0))


def sc_atan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return float(np.arctan2(y, x))
    return engine().atan2(y, x)


def sc_pow(a, b):
    if not is_sym(a) and not is_sym(b):
        return _py(np.power(np.asarray(a), np.asarray(b))) if not isinstance(a, int) or not isinstance(b, int) else a ** b
    return a ** b


def sc_isfinite(x):
    return True if is_sym(x) else bool(np.isfinite(x))


def sc_isnan(x):
    return False if is_sym(x) else bool(np.isnan(x))


def sc_isclose(a, b, rtol=1e-5, atol=1e-8):
    if not is_sym(a) and not is_sym(b):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    return _sb(abs(a - b) <= atol + rtol * abs(b))


def sc_and(a, b): return s_and(truthy(a), truthy(b))
def sc_or(a, b): return s_or(truthy(a), truthy(b))
def sc_not(a): return s_not(truthy(a))


def sc_xor(a, b):
    a, b = truthy(a), truthy(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return SymBool(z3.Xor(core.as_z3(a), core.as_z3(b)))


def sc_floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return _py(np.floor_divide(a, b))
    return a // b


def sc_mod(a, b):
    if not is_sym(a) and not is_sym(b):
        return _py(np.mod(a, b))
    return a % b


def sc_invert(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def _py(x):
    """numpy scalar -> python scalar (unsigned ints keep their type)"""
    if isinstance(x, np.unsignedinteger):
        return int(x)
    if isinstance(x, np.generic):
        return x.item()
    return x


UNARY = {
    "negative": operator.neg, "positive": lambda x: x,
    "absolute": sc_abs, "abs": sc_abs, "fabs": sc_abs, "sqrt": sc_sqrt,
    "square": lambda x: x * x, "sin": sc_sin, "cos": sc_cos, "tan": sc_tan,
    "exp": sc_exp, "floor": sc_floor, "ceil": sc_ceil, "trunc": sc_trunc,
    "fix": sc_trunc, "rint": sc_rint, "conjugate": sc_conj, "conj": sc_conj,
    "logical_not": sc_not, "invert": sc_invert, "bitwise_not": sc_invert,
    "sign": sc_sign, "isfinite": sc_isfinite, "isnan": sc_isnan,
    "isinf": lambda x: False if is_sym(x) else bool(np.isinf(x)),
    "deg2rad": lambda x: x * (math.pi / 180), "radians": lambda x: x * (math.pi / 180),
    "rad2deg": lambda x: x * (180 / math.pi), "degrees": lambda x: x * (180 / math.pi),
    "reciprocal": lambda x: 1 / x,
}
for _n in ("arctan", "arcsin", "arccos", "log", "log2", "log10", "cosh", "sinh", "tanh", "cbrt"):
    UNARY[_n] = _fallback1(_n)

BINARY = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
    "divide": sc_div, "true_divide": sc_div, "floor_divide": sc_floordiv,
    "remainder": sc_mod, "mod": sc_mod, "power": sc_pow, "float_power": sc_pow,
    "equal": operator.eq, "not_equal": operator.ne, "less": operator.lt,
    "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
    "logical_and": sc_and, "logical_or": sc_or, "logical_xor": sc_xor,
    "bitwise_and": operator.and_, "bitwise_or": operator.or_, "bitwise_xor": operator.xor,
    "left_shift": operator.lshift, "right_shift": operator.rshift,
    "maximum": sc_max, "minimum": sc_min, "fmax": sc_max, "fmin": sc_min,
    "arctan2": sc_atan2, "hypot": lambda a, b: sc_sqrt(a * a + b * b),
}

DUNDER = {
    "__add__": operator.add, "__sub__": operator.sub, "__mul__": operator.mul,
    "__truediv__": sc_div, "__floordiv__": sc_floordiv, "__mod__": sc_mod,
    "__pow__": sc_pow, "__and__": operator.and_, "__or__": operator.or_,
    "__xor__": operator.xor, "__lshift__": operator.lshift, "__rshift__": operator.rshift,
    "__lt__": operator.lt, "__le__": operator.le, "__gt__": operator.gt,
    "__ge__": operator.ge, "__eq__": operator.eq, "__ne__": operator.ne,
}


# --------------------------------------------------------------------------
def base(x):
    """Plain object ndarray (copy-free for SymArray) of anything array-like."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            return x
        return _toobj(x)
    if isinstance(x, (Sym, int, float, complex, bool, np.generic)):
        a = np.empty((), dtype=object)
        a[()] = _py(x) if not isinstance(x, np.unsignedinteger) else int(x)
        return a
    if hasattr(x, "toarray"):
        return base(x.toarray())
    return _nested(x)


def _toobj(x):
    r = np.empty(x.shape, dtype=object)
    if x.size:
        r[...] = x.astype(object)
    return r


def _nested(x):
    """nested sequences -> object ndarray"""
    if isinstance(x, np.ndarray):
        return base(x)
    if isinstance(x, (range, map, zip, filter)) or hasattr(x, "__next__"):
        raise Unsupported("array from an iterator")
    if isinstance(x, (list, tuple)) or (hasattr(x, "__len__") and hasattr(x, "__getitem__")
                                        and not isinstance(x, (str, bytes, dict))):
        items = [_nested(i) if isinstance(i, (list, tuple, np.ndarray)) else i for i in x]
        items = [i if isinstance(i, np.ndarray) else base(i) for i in items]
        if not items:
            return np.empty((0,), dtype=object)
        shp = items[0].shape
        for i in items:
            if i.shape != shp:
                raise ValueError(
                    "setting an array element with a sequence. The requested array has an "
                    "inhomogeneous shape")
        r = np.empty((len(items),) + shp, dtype=object)
        for k, i in enumerate(items):
            r[k] = i[()] if i.shape == () else i
        return r
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ
    if isinstance(x, (list, tuple)):
        for i in x:
            if has_sym(i):
                return True
    return False


def really_sym(x):
    """Does x contain a symbolic scalar (SymArray may be all concrete)?"""
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if not isinstance(x, SymArray) and x.dtype != OBJ:
            return False
        return builtins.any(isinstance(i, Sym) for i in x.view(np.ndarray).ravel())
    if isinstance(x, (list, tuple)):
        return builtins.any(really_sym(i) for i in x)
    return False


def wrap(a, dt=None):
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype != OBJ:
        a = _toobj(a)
    r = a.view(SymArray)
    r._sdt = dt
    return r


def out(a, dt=None):
    """0-d -> scalar, else SymArray"""
    if isinstance(a, np.ndarray) and a.shape == ():
        return a[()]
    if not isinstance(a, np.ndarray):
        return a
    return wrap(a, dt)


def emap(f, *arrs):
    arrs = np.broadcast_arrays(*[base(a) for a in arrs]) if len(arrs) > 1 else [base(arrs[0])]
    shp = arrs[0].shape
    r = np.empty(shp, dtype=object)
    its = [a.ravel() for a in arrs]
    rf = r.reshape(-1) if shp else None
    if shp == ():
        r[()] = f(*[a[()] for a in arrs])
        return r
    for k in range(its[0].size):
        rf[k] = f(*[i[k] for i in its])
    return r


def elementwise(op, arr, x, swap):
    f = DUNDER[op]
    if swap:
        return wrap(emap(lambda a: f(x, a), arr))
    return wrap(emap(lambda a: f(a, x), arr))


def ite_array(c, a, b):
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
        raise MergeAbort()
    return wrap(emap(lambda x, y: ite(c, x, y), a, b))


def try_concrete(a, dt=None):
    """all-concrete SymArray -> real ndarray, else itself"""
    if isinstance(a, SymArray) and not really_sym(a):
        bb = a.view(np.ndarray)
        d = dt or a.dtype
        if d == OBJ:
            return np.array(bb.tolist())
        return bb.astype(d)
    return a


# dtype handling ---------------------------------------------------------------
def infer_dtype(bb):
    k = 0
    for x in bb.ravel():
        if isinstance(x, (bool, np.bool_, SymBool)):
            k = builtins.max(k, 1)
        elif isinstance(x, SymBV):
            k = builtins.max(k, 2 if x.signed else 2)
        elif isinstance(x, (int, np.integer, SymPInt)) or (isinstance(x, SymNum) and x.isint):
            k = builtins.max(k, 2)
        elif isinstance(x, (float, np.floating, SymNum)):
            k = builtins.max(k, 3)
        elif isinstance(x, (complex, np.complexfloating, SymComplex)):
            k = builtins.max(k, 4)
        else:
            return OBJ
    return [np.dtype(float), np.dtype(bool), np.dtype(np.int64), np.dtype(float),
            np.dtype(complex)][k]


def cast(x, dt):
    """scalar x converted to numpy dtype dt"""
    if dt is None or dt == OBJ:
        return x
    k = dt.kind
    if isinstance(x, Sym):
        if k == "u" or k == "i":
            if isinstance(x, SymComplex):
                raise TypeError("can't convert complex to int")
            if isinstance(x, SymNum) and not x.isint:
                p = SymPInt.of_real(x)
                x = core.sym_trunc(x) if p is None else p
                if not isinstance(x, Sym):
                    return x
            if isinstance(x, SymBool):
                x = ite(x, 1, 0)
            if isinstance(x, SymPInt):
                bits = dt.itemsize * 8
                lo, hi = (0, (1 << bits) - 1) if k == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                if x.lo < lo or x.hi > hi:
                    if engine().decide(s_or(_sb(x < lo), _sb(x > hi))):
                        raise OverflowError("Python integer out of bounds for %s" % dt)
                if k == "u" or engine().prefer_bv:
                    return SymBV(x.ext(64), k == "i") if k == "u" else x
                return x
            if isinstance(x, SymBV):
                return SymBV(x.t, k == "i")
            if k == "u" and isinstance(x, SymNum):
                if engine().decide(s_or(_sb(x < 0), _sb(x > (1 << 8 * dt.itemsize) - 1))):
                    raise OverflowError("Python integer out of bounds for %s" % dt)
            return x
        if k == "f":
            if isinstance(x, SymComplex):
                raise TypeError("can't convert complex to float")
            if isinstance(x, SymPInt):
                return x.to_double()
            if isinstance(x, SymBV):
                return x.to_pint().to_double()
            if isinstance(x, SymBool):
                return SymNum.lift(x).to_real()
            return core.to_double(x)
        if k == "c":
            return SymComplex.lift(x)
        if k == "b":
            return truthy(x)
        return x
    if k == "u":
        xi = int(x)
        if xi < 0 or xi >= 1 << (8 * dt.itemsize):
            raise OverflowError("Python integer %d out of bounds for %s" % (xi, dt))
        return xi
    if k == "i":
        return int(x)
    if k == "f":
        return float(x)
    if k == "c":
        return complex(x)
    if k == "b":
        return bool(x)
    return x


def cast_array(bb, dt, drop=False):
    """drop: a numeric array is converted (imaginary parts are dropped), not a sequence of scalars (refused)"""
    if dt is None or dt == OBJ:
        return bb
    if drop and dt.kind in "fiu":
        return emap(lambda x: cast(x.real if isinstance(x, (SymComplex, complex, np.complexfloating)) else x, dt), bb)
    return emap(lambda x: cast(x, dt), bb)


def as_dtype(d):
    if d is None:
        return None
    if d is float:
        return np.dtype(float)
    if d is int:
        return np.dtype(np.int64)
    if d is complex:
        return np.dtype(complex)
    if d is bool:
        return np.dtype(bool)
    return np.dtype(d)


# --------------------------------------------------------------------------
class SymArray(np.ndarray):
    """object ndarray of (possibly symbolic) scalars."""
    __array_priority__ = 1000
    __hash__ = None

    def __array_finalize__(self, o):
        self._sdt = getattr(o, "_sdt", None)

    @property
    def dtype(self):
        if self._sdt is not None:
            return self._sdt
        return infer_dtype(self.view(np.ndarray))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        o = kw.pop("out", None)
        kw.pop("casting", None)
        dt = as_dtype(kw.pop("dtype", None))
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where=")
        if method == "__call__":
            if name == "matmul":
                r = matmul(*inputs)
            elif len(inputs) == 1 and name in UNARY:
                r = out(emap(UNARY[name], inputs[0]))
            elif len(inputs) == 2 and name in BINARY:
                r = out(emap(BINARY[name], inputs[0], inputs[1]))
            else:
                raise Unsupported("numpy ufunc %s on symbolic arrays" % name)
            if dt is not None and isinstance(r, np.ndarray):
                r = wrap(cast_array(base(r), dt), dt)
            if o is not None:
                t = o[0]
                if isinstance(t, SymArray) or t.dtype == OBJ:
                    t.view(np.ndarray)[...] = cast_array(base(r), t._sdt if isinstance(t, SymArray) else None)
                    return t
                # real array target of a symbolic in-place op
                return r
            return r
        if method == "reduce":
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            f = BINARY.get(name)
            if f is None:
                raise Unsupported("reduce of %s" % name)
            return _reduce(f, base(inputs[0]), axis, keep)
        if method == "outer":
            a, b = base(inputs[0]), base(inputs[1])
            return wrap(emap(BINARY[name], a.reshape(a.shape + (1,) * b.ndim), b))
        if method == "accumulate":
            bb = base(inputs[0])
            r = np.empty(bb.shape, dtype=object)
            acc = None
            for k in range(bb.shape[0]):
                acc = bb[k] if k == 0 else emap(BINARY[name], base(acc), base(bb[k]))
                r[k] = acc if not isinstance(acc, np.ndarray) or acc.shape else acc[()]
            return wrap(r)
        raise Unsupported("ufunc method %s" % method)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func.__name__)
        mod = getattr(func, "__module__", "") or ""
        if mod.startswith("numpy.linalg"):
            f = LINALG.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return _generic(func, args, kwargs)

    # indexing ----------------------------------------------------------------
    def __getitem__(self, idx):
        r = _getitem(self.view(np.ndarray), idx)
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r._sdt = self._sdt
        return r

    def __setitem__(self, idx, val):
        bb = self.view(np.ndarray)
        dt = self._sdt
        val = base(val) if isinstance(val, (np.ndarray, list, tuple)) else val
        if dt is not None:
            val = cast_array(val, dt, True) if isinstance(val, np.ndarray) else cast(val, dt)
        idx = _norm_index(bb, idx)
        if _sym_index(idx):
            return _set_sym(bb, idx, val)
        if isinstance(val, np.ndarray) and val.shape == ():
            val = val[()]
        bb[idx] = val

    def __iter__(self):
        bb = self.view(np.ndarray)
        if bb.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for k in range(bb.shape[0]):
            x = bb[k]
            if isinstance(x, np.ndarray):
                x = x.view(SymArray)
                x._sdt = self._sdt
            yield x

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).ravel()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __contains__(self, x):
        return bool(any_(emap(operator.eq, self, x)))

    # comparisons go through __array_ufunc__; python-level methods below
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum_(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k): return prod_(self, axis=axis)
    def mean(self, axis=None, **k): return mean_(self, axis=axis)
    def any(self, axis=None, **k): return any_(self, axis=axis)
    def all(self, axis=None, **k): return all_(self, axis=axis)
    def min(self, axis=None, **k): return min_(self, axis=axis)
    def max(self, axis=None, **k): return max_(self, axis=axis)
    def argmin(self, axis=None, **k): return argmin_(self, axis=axis)
    def argmax(self, axis=None, **k): return argmax_(self, axis=axis)
    def dot(self, o): return dot(self, o)
    def conj(self): return wrap(emap(sc_conj, self), self._sdt)
    def conjugate(self): return wrap(emap(sc_conj, self), self._sdt)
    def nonzero(self): return nonzero(self)
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def round(self, decimals=0, out=None): return around(self, decimals)
    def trace(self, *a, **k): return trace(self)
    def argsort(self, *a, **k): return argsort(self)
    def searchsorted(self, v, side="left", sorter=None): return searchsorted(self, v, side)

    def sort(self, axis=-1, **k):
        self.view(np.ndarray)[...] = base(sort_(self, axis))

    def astype(self, dtype, copy=True, **k):
        dt = as_dtype(dtype)
        return wrap(cast_array(self.view(np.ndarray).copy(), dt, True), dt)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def fill(self, v):
        self[...] = v

    def copy(self, order="C"):
        return wrap(self.view(np.ndarray).copy(), self._sdt)

    @property
    def real(self):
        return wrap(emap(lambda x: x.real, self))

    @property
    def imag(self):
        return wrap(emap(lambda x: x.imag, self))

    @property
    def T(self):
        r = self.view(np.ndarray).T.view(SymArray)
        r._sdt = self._sdt
        return r

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __repr__(self): return "<symarray %s>" % (self.shape,)
    __str__ = __repr__
    def __format__(self, s): return repr(self)

    def __deepcopy__(self, memo): return self.copy()


# index helpers ------------------------------------------------------------------
def _norm_index(bb, idx):
    """concretise boolean masks and shim arrays in an index"""
    if isinstance(idx, tuple):
        return tuple(_norm_index(bb, i) for i in idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, SymArray) or (isinstance(idx, np.ndarray) and idx.dtype == OBJ):
        b = base(idx)
        if b.size and builtins.any(isinstance(x, (bool, np.bool_, SymBool)) for x in b.ravel()):
            return np.array([bool(x) for x in b.ravel()], dtype=bool).reshape(b.shape)
        if not really_sym(b):
            return b.astype(int)
        return np.array([int(x) for x in b.ravel()], dtype=int).reshape(b.shape)
    if isinstance(idx, list):
        return [(_norm_index(bb, i) if not isinstance(i, Sym) else
                 (bool(i) if isinstance(i, SymBool) else int(i))) for i in idx]
    if isinstance(idx, slice):
        def c(v):
            return int(v) if isinstance(v, Sym) else v
        return slice(c(idx.start), c(idx.stop), c(idx.step))
    return idx


def _sym_index(idx):
    if isinstance(idx, Sym):
        return True
    if isinstance(idx, tuple):
        return builtins.any(isinstance(i, Sym) for i in idx)
    return False


def _bounds(i, n, axis=0):
    """non-negative in-range version of a symbolic index"""
    if isinstance(i, SymNum) and not i.isint:
        raise IndexError("only integers, slices (`:`), ... are valid indices")
    if bool(i < 0):
        i = i + n
        if bool(i < 0):
            raise IndexError("index is out of bounds for axis %d with size %d" % (axis, n))
    elif bool(i >= n):
        raise IndexError("index is out of bounds for axis %d with size %d" % (axis, n))
    return i


def _getitem(bb, idx):
    idx = _norm_index(bb, idx)
    if not _sym_index(idx):
        return bb[idx]
    tup = idx if isinstance(idx, tuple) else (idx,)
    pos = next(k for k, i in enumerate(tup) if isinstance(i, Sym))
    if builtins.any(i is None or i is Ellipsis for i in tup[:pos]):
        tup = tuple(int(i) if isinstance(i, Sym) else i for i in tup)
        return bb[tup]
    n = bb.shape[pos]
    i = _bounds(tup[pos], n, pos)
    if not isinstance(i, Sym):
        return _getitem(bb, tup[:pos] + (i,) + tup[pos + 1:])
    vals = [_getitem(bb, tup[:pos] + (k,) + tup[pos + 1:]) for k in range(n)]
    try:
        r = vals[-1]
        for k in range(n - 2, -1, -1):
            c = (i == k)
            r = ite(c, vals[k], r) if isinstance(c, SymBool) else (vals[k] if c else r)
        return r
    except MergeAbort:
        return vals[int(i)]


def _set_sym(bb, idx, val):
    tup = idx if isinstance(idx, tuple) else (idx,)
    if builtins.any(isinstance(i, slice) for i in tup) or len(tup) > bb.ndim or isinstance(val, np.ndarray):
        tup = tuple(int(_bounds(i, bb.shape[k], k)) if isinstance(i, Sym) else i for k, i in enumerate(tup))
        bb[tup] = val
        return
    lists = []
    for k, i in enumerate(tup):
        if isinstance(i, Sym):
            i = _bounds(i, bb.shape[k], k)
            lists.append([(j, i == j) for j in range(bb.shape[k])])
        else:
            lists.append([(i, True)])
    try:
        new = {}
        for combo in itertools.product(*lists):
            c = s_and(*[x[1] for x in combo])
            if c is False:
                continue
            key = tuple(x[0] for x in combo)
            new[key] = ite(c, val, bb[key]) if isinstance(c, SymBool) else val
    except MergeAbort:
        tup = tuple(int(i) if isinstance(i, Sym) else i for i in tup)
        bb[tup] = val
        return
    for k, v in new.items():
        bb[k] = v


# reductions -------------------------------------------------------------------------
def _reduce(f, bb, axis, keep=False, initial=None):
    if axis is None:
        xs = list(bb.ravel())
        if not xs:
            if initial is None:
                raise ValueError("zero-size array to reduction operation")
            r = initial
        else:
            r = functools.reduce(f, xs)
        if keep:
            a = np.empty((1,) * bb.ndim, dtype=object)
            a[...] = r
            return wrap(a)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([a % bb.ndim for a in axis], reverse=True):
            bb = base(_reduce(f, bb, ax, keep, initial))
        return out(bb)
    axis = int(axis) % bb.ndim
    m = np.moveaxis(bb, axis, 0)
    if m.shape[0] == 0:
        if initial is None:
            raise ValueError("zero-size array to reduction operation")
        r = np.empty(m.shape[1:], dtype=object)
        r[...] = initial
    else:
        r = m[0].copy() if isinstance(m[0], np.ndarray) else base(m[0])
        for k in range(1, m.shape[0]):
            r = emap(f, r, base(m[k]))
    if keep:
        r = np.expand_dims(r, axis)
    return out(r)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, **k):
    if not isinstance(a, np.ndarray) and hasattr(a, "__next__"):
        a = list(a)
    return _reduce(operator.add, base(a), axis, keepdims, initial)


def prod_(a, axis=None, **k):
    return _reduce(operator.mul, base(a), axis, False, 1)


def mean_(a, axis=None, **k):
    b = base(a)
    n = b.size if axis is None else b.shape[axis]
    return sum_(b, axis=axis) / n


def any_(a, axis=None, **k):
    return _reduce(sc_or, emap(truthy, a), axis, k.get("keepdims", False), False)


def all_(a, axis=None, **k):
    return _reduce(sc_and, emap(truthy, a), axis, k.get("keepdims", False), True)


def min_(a, axis=None, keepdims=False, **k): return _reduce(sc_min, base(a), axis, keepdims)
def max_(a, axis=None, keepdims=False, **k): return _reduce(sc_max, base(a), axis, keepdims)


def argmin_(a, axis=None, **k): return _arg(a, axis, lambda x, y: x < y)
def argmax_(a, axis=None, **k): return _arg(a, axis, lambda x, y: x > y)


def _arg(a, axis, better):
    b = base(a)
    if axis is None:
        xs = list(b.ravel())
        bi, bv = 0, xs[0]
        for k in range(1, len(xs)):
            c = better(xs[k], bv)
            if isinstance(c, SymBool):
                bi, bv = ite(c, k, bi), ite(c, xs[k], bv)
            elif c:
                bi, bv = k, xs[k]
        return bi
    m = np.moveaxis(b, axis, -1)
    r = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        r[i] = _arg(m[i], None, better)
    return wrap(r)


def cumsum(a, axis=None, **k):
    b = base(a)
    if axis is None:
        b = b.ravel()
        r = np.empty(b.shape, dtype=object)
        s = 0
        for i in range(b.size):
            s = b[i] if i == 0 else s + b[i]
            r[i] = s
        return wrap(r)
    return wrap(np.cumsum(b, axis=axis))


def nonzero(a):
    b = base(a)
    m = np.array([bool(x) for x in b.ravel()], dtype=bool).reshape(b.shape)
    return np.nonzero(m)


def where(c, *xy):
    if not xy:
        return nonzero(c)
    return out(emap(lambda cc, x, y: ite(truthy(cc), x, y) if isinstance(truthy(cc), SymBool)
                    else (x if cc else y), c, xy[0], xy[1]))


def _known_order(a, b):
    c = a <= b
    if isinstance(c, SymBool):
        c = engine().known(c.e)
        if c is None:
            raise MergeAbort()
    return -1 if c else 1


def net_sort(xs):
    """odd-even merge of scalars without forking (falls back to forks)."""
    xs = list(xs)
    n = len(xs)
    if not builtins.any(isinstance(x, Sym) for x in xs):
        return sorted(xs)
    if n > 40:
        return sorted(xs)
    if n > 8:
        # an order the path already fixes needs no network
        try:
            return sorted(xs, key=functools.cmp_to_key(_known_order))
        except MergeAbort:
            pass
    try:
        for i in range(n):
            for j in range(i % 2, n - 1, 2):
                a, b = xs[j], xs[j + 1]
                c = a <= b
                if isinstance(c, SymBool):
                    xs[j], xs[j + 1] = ite(c, a, b), ite(c, b, a)
                elif not c:
                    xs[j], xs[j + 1] = b, a
        return xs
    except MergeAbort:
        return sorted(xs)


def sort_(a, axis=-1, **k):
    b = base(a).copy()
    if b.ndim == 1:
        r = np.empty(b.shape, dtype=object)
        for i, x in enumerate(net_sort(b)):
            r[i] = x
        return wrap(r, getattr(a, "_sdt", None))
    m = np.moveaxis(b, axis, -1)
    for i in np.ndindex(*m.shape[:-1]):
        row = net_sort(m[i])
        for j, x in enumerate(row):
            m[i + (j,)] = x
    return wrap(b, getattr(a, "_sdt", None))


def argsort(a, axis=-1, **k):
    b = base(a)
    if b.ndim != 1:
        raise Unsupported("argsort of nd array")
    idx = sorted(range(b.size), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(b[i] < b[j]) else (1 if bool(b[i] > b[j]) else 0)))
    return np.array(idx, dtype=int)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if return_inverse or return_counts or axis is not None:
        raise Unsupported("np.unique options")
    xs = list(base(a).ravel())
    first = {}
    for i, x in enumerate(xs):
        k = (x.n.key(), x.d and x.d.key()) if isinstance(x, SymNum) else ("o", id(x)) if isinstance(x, Sym) else x
        first.setdefault(k, i)
    order = sorted(first.values(), key=functools.cmp_to_key(lambda i, j: -1 if bool(xs[i] < xs[j]) else 1))
    outl, oi = [], []
    for i in order:
        if not outl or not bool(xs[i] == outl[-1]):
            outl.append(xs[i])
            oi.append(i)
    r = np.empty((len(outl),), dtype=object)
    for i, x in enumerate(outl):
        r[i] = x
    r = wrap(r)
    return (r, np.array(oi, dtype=int)) if return_index else r


def insert(arr, obj, values, axis=None):
    b = base(arr)
    if b.ndim == 1 and isinstance(obj, int):
        vals = list(base(values).ravel())
        xs = list(b)
        xs[obj:obj] = vals
        return array(xs)
    return wrap(np.insert(b, obj, base(values), axis=axis))


def searchsorted(a, v, side="left", sorter=None):
    xs = list(base(a))
    if isinstance(v, (list, tuple, np.ndarray)):
        return wrap(emap(lambda q: searchsorted(a, q, side), v))
    if len(xs) > 8:             # bisection; a comparison that is not decided by the path forks
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool((xs[mid] < v) if side == "left" else (xs[mid] <= v)):
                lo = mid + 1
            else:
                hi = mid
        return lo
    n = 0
    for x in xs:
        c = (x < v) if side == "left" else (x <= v)
        if isinstance(c, SymBool):
            n = n + (SymPInt.from_bool(c) if engine().prefer_bv else SymNum.lift(c))
        elif c:
            n = n + 1
    return n


# linear algebra ----------------------------------------------------------------------
def dot(a, b, out=None):
    if hasattr(a, "_lazy"):
        return a.dot(b)
    if hasattr(b, "_lazy"):
        return b.__rmatmul__(a)
    a, b = base(a), base(b)
    if a.ndim == 0 or b.ndim == 0:
        return globals()["out"](emap(operator.mul, a, b))
    if a.ndim == 1 and b.ndim == 1:
        _dimcheck(a.shape[0], b.shape[0])
        return _dot1(a, b)
    if b.ndim == 1:
        _dimcheck(a.shape[-1], b.shape[0])
        r = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            r[i] = _dot1(a[i], b)
        return wrap(r)
    _dimcheck(a.shape[-1], b.shape[-2])
    bm = np.moveaxis(b, -2, -1)
    r = np.empty(a.shape[:-1] + bm.shape[:-1], dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*bm.shape[:-1]):
            r[i + j] = _dot1(a[i], bm[j])
    return wrap(r) if r.shape else r[()]


def _dimcheck(m, n):
    if m != n:
        raise ValueError("shapes not aligned: %d != %d" % (m, n))


def _dot1(x, y):
    s = 0
    for i in range(x.shape[0]):
        p = x[i] if not (not isinstance(x[i], Sym) and isinstance(x[i], (int, float)) and x[i] == 0) else 0
        if not isinstance(p, Sym) and isinstance(p, (int, float)) and p == 0:
            continue
        q = y[i]
        if not isinstance(q, Sym) and isinstance(q, (int, float)) and q == 0:
            continue
        s = s + p * q
    if not isinstance(s, Sym) and isinstance(s, int) and s == 0:
        s = 0.0 if builtins.any(not isinstance(v, (int, SymPInt, SymBV)) for v in list(x) + list(y)) else 0
    return s


def matmul(a, b, **k):
    if hasattr(a, "_lazy"):
        return a.dot(b)
    if hasattr(b, "_lazy"):
        return b.__rmatmul__(a)
    a0, b0 = base(a), base(b)
    if a0.ndim <= 2 and b0.ndim <= 2:
        return dot(a0, b0)
    if a0.ndim == 3 and b0.ndim <= 2:
        return wrap(np.array([base(dot(x, b0)) for x in a0], dtype=object))
    if b0.ndim == 3 and a0.ndim == 3:
        return wrap(np.array([base(dot(x, y)) for x, y in zip(a0, b0)], dtype=object))
    raise Unsupported("matmul of these ranks")


def vdot(a, b):
    a, b = base(a).ravel(), base(b).ravel()
    _dimcheck(a.shape[0], b.shape[0])
    return _dot1(emap(sc_conj, a), b)


def inner(a, b):
    a, b = base(a), base(b)
    if a.ndim == 1 and b.ndim == 1:
        return _dot1(a, b)
    return dot(a, b.T)


def outer(a, b, **k):
    a, b = base(a).ravel(), base(b).ravel()
    return wrap(emap(operator.mul, a[:, None], b[None, :]))


def kron(a, b):
    a, b = base(a), base(b)
    if a.ndim == 1 and b.ndim == 1:
        return wrap(np.array([x * y for x in a for y in b], dtype=object))
    r = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            r[i, j] = a[i // b.shape[0], j // b.shape[1]] * b[i % b.shape[0], j % b.shape[1]]
    return wrap(r)


def trace(a, *x, **k):
    a = base(a)
    s = 0
    for i in range(builtins.min(a.shape)):
        s = s + a[i, i]
    return s


def cross(a, b, **k):
    a, b = base(a), base(b)
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    if a.shape == (3,) and b.shape == (3,):
        return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    raise Unsupported("cross shapes")


def norm(x, ord=None, axis=None, keepdims=False):
    b = base(x)
    if b.ndim == 1 and axis in (None, 0, -1) and ord in (1, np.inf, -np.inf):
        a = emap(sc_abs, b)
        if ord == 1:
            return _reduce(operator.add, a, None, keepdims, 0.0)
        return max_(wrap(a)) if ord > 0 else min_(wrap(a))
    if ord not in (None, 2, "fro") and not (ord == "fro" and b.ndim == 1):
        raise Unsupported("norm order")
    sq = emap(lambda v: v.real * v.real + v.imag * v.imag
              if isinstance(v, (SymComplex, complex)) else v * v, b)
    if b.ndim == 2 and axis is None and ord == 2:
        raise Unsupported("spectral norm")
    s = _reduce(operator.add, sq, axis, keepdims, 0.0)
    if isinstance(s, np.ndarray):
        return wrap(emap(_rsqrt, s))
    return _rsqrt(s)


def _rsqrt(s):
    """square root of a sum of squares"""
    if isinstance(s, SymNum):
        return core.engine().sqrt(s, True)
    return sc_sqrt(s) if isinstance(s, Sym) else math.sqrt(s)


def det(a):
    a = base(a)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return _det([list(r) for r in a])


def _det(m):
    n = len(m)
    if n == 0:
        return 1.0
    if n == 1:
        return m[0][0]
    if n > 5:
        raise Unsupported("symbolic determinant too large")
    s = 0
    for j in range(n):
        if not isinstance(m[0][j], Sym) and m[0][j] == 0:
            continue
        c = m[0][j] * _det([r[:j] + r[j + 1:] for r in m[1:]])
        s = s + c if j % 2 == 0 else s - c
    return s


def adjugate(m):
    n = len(m)
    r = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            sub = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
            d = _det(sub)
            r[j][i] = d if (i + j) % 2 == 0 else -d
    return r


def solve(a, b):
    if not really_sym(a) and not really_sym(b):
        return np.linalg.solve(try_concrete(wrap(base(a))), try_concrete(wrap(base(b))))
    A, B = base(a), base(b)
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    m = [list(r) for r in A]
    if engine().abstract_solve:
        return _abstract_solve(m, B)
    d = _det(m)
    if isinstance(d, Sym):
        z = (d == 0)
        if isinstance(z, SymBool) and engine().decide(z):
            raise np.linalg.LinAlgError("Singular matrix")
        if z is True:
            raise np.linalg.LinAlgError("Singular matrix")
        if isinstance(d, SymNum):
            engine().note_nonzero(d.n)
    elif d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    adj = adjugate(m)
    if B.ndim == 1:
        num = dot(np.array(adj, dtype=object), B)
    else:
        num = dot(np.array(adj, dtype=object), B)
    eng = engine()
    keep = eng.div_check
    eng.div_check = False
    try:
        if isinstance(d, SymComplex) or isinstance(d, complex):
            dd = SymComplex.lift(d)
            den = core.x_add(core.x_mul(dd.re, dd.re), core.x_mul(dd.im, dd.im))
            cc = SymComplex(dd.re, -dd.im)
            return wrap(emap(lambda x: (lambda y: SymComplex(core.x_div(y.re, den), core.x_div(y.im, den)))(
                SymComplex.lift(x) * cc), num))
        return wrap(emap(lambda x: sc_div(x, d) if not isinstance(x, (int, float)) or x != 0 else 0.0, num))
    finally:
        eng.div_check = keep


def _vkey(v):
    """canonical key of a scalar"""
    if isinstance(v, (SymComplex, complex, np.complexfloating)):
        v = SymComplex.lift(v)
        k = _vkey(v.im)
        return ("c", _vkey(v.re), k) if k != ("0",) else _vkey(v.re)
    x = SymNum.lift(v)
    if x is None:
        raise Unsupported("key of %s" % type(v).__name__)
    if x.is_const():
        return (str(core._norm(core.Fraction(x.value()))),)
    return (x.n.key(), x.d.key() if x.d is not None else None)


def _abstract_solve(m, B):
    """the solution as unknowns which satisfy the equations (the system is taken to be regular)"""
    eng = engine()
    n = len(m)
    mk = tuple(_vkey(v) for r in m for v in r)

    def column(b):
        if all(not isinstance(v, Sym) and v == 0 for v in b):
            return [0.0] * n
        key = ("solve", mk, tuple(_vkey(v) for v in b))
        got = eng.defined.get(key)
        if got is not None:
            return got
        cplx = any(isinstance(v, (SymComplex, complex, np.complexfloating)) for r in m for v in r) or \
            any(isinstance(v, (SymComplex, complex, np.complexfloating)) for v in b)
        atoms, xs = [], []

        def fresh():
            t = z3.Real(eng.fresh_name("x"))
            a = eng.atom_for(t, False)
            atoms.append(a)
            return SymNum.from_term(t, False)
        for _ in range(n):
            xs.append(SymComplex(fresh(), fresh()) if cplx else fresh())

        def defn():
            for a in atoms:
                a.lazy = None
            for i in range(n):
                lhs = functools.reduce(core.x_add, [m[i][j] * xs[j] for j in range(n)]) if not cplx else \
                    functools.reduce(operator.add, [m[i][j] * xs[j] for j in range(n)])
                c = lhs == b[i]
                if c is False:
                    raise Unsupported("contradictory linear system")
                if c is not True:
                    eng.add(core.as_z3(c))
        for a in atoms:
            a.lazy = defn
        eng.defined[key] = xs
        return xs
    if B.ndim == 1:
        return wrap(np.array(column(list(B)) + [None], dtype=object)[:n])
    cols = [column(list(B[:, k])) for k in range(B.shape[1])]
    r = np.empty((n, len(cols)), dtype=object)
    for k, c in enumerate(cols):
        for i in range(n):
            r[i, k] = c[i]
    return wrap(r)


def inv(a):
    A = base(a)
    n = A.shape[0]
    return solve(A, np.identity(n).astype(object))


def multi_dot(arrays, **k):
    return functools.reduce(dot, list(arrays))


LINALG = {"norm": norm, "det": det, "solve": solve, "inv": inv, "multi_dot": multi_dot}


# construction -------------------------------------------------------------------------
def array(x, dtype=None, copy=True, ndmin=0, **k):
    dt = as_dtype(dtype)
    if isinstance(x, (map, zip, filter)) or (hasattr(x, "__next__")):
        return np.array(x, dtype=dt)
    if hasattr(x, "_lazy"):
        x = x.toarray()
    if isinstance(x, (range, set, dict)) or type(x).__name__ in ("dict_keys", "dict_values"):
        return np.array(x, dtype=dt)
    if isinstance(x, SymArray):
        b = x.view(np.ndarray)
        src = x._sdt
        if dt is not None and (src is None or dt != src):      # a dtype equals None when it is float64
            b = cast_array(b, dt, True)
        elif copy:
            b = b.copy()
        else:
            return x
        r = wrap(b, dt or src)
    elif has_sym(x):
        b = _nested(x) if not isinstance(x, Sym) else base(x)
        if not really_sym(b):
            if infer_dtype(b) == OBJ:
                r = np.array(x, dtype=dt)
            else:
                r = np.array(b.tolist(), dtype=dt)
        else:
            d = dt or infer_dtype(b)
            if isinstance(x, Sym) and False:
                return x
            r = wrap(cast_array(b, d), d)
    else:
        r = np.array(x, dtype=dt, copy=copy)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and (dtype is None or (isinstance(x, SymArray) and x._sdt is not None and x._sdt == as_dtype(dtype))):
        return x
    return array(x, dtype=dtype, copy=False)


def _shape(s):
    if isinstance(s, tuple) or isinstance(s, list):
        return tuple(int(i) if isinstance(i, Sym) else i for i in s)
    return (int(s),)


def _const(shape, v, dtype):
    dt = as_dtype(dtype) or np.dtype(float)
    a = np.empty(_shape(shape), dtype=object)
    a[...] = cast(v, dt)
    return wrap(a, dt)


def zeros(shape, dtype=None, order="C", **k): return _const(shape, 0, dtype)
def ones(shape, dtype=None, order="C", **k): return _const(shape, 1, dtype)
def empty(shape, dtype=None, order="C", **k): return _const(shape, 0, dtype)


def full(shape, v, dtype=None, **k):
    if dtype is None:
        dtype = infer_dtype(base(v))
    return _const(shape, v, dtype)


def _like(v):
    def f(a, dtype=None, **k):
        d = dtype or (a.dtype if isinstance(a, np.ndarray) else None)
        if d is None:
            d = infer_dtype(base(a))
        return _const(np.shape(a), v, d)
    return f


def full_like(a, v, dtype=None, **k):
    return _const(np.shape(a), v, dtype or a.dtype)


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


def eye(n, m=None, k=0, dtype=None, **kw):
    dt = as_dtype(dtype) or np.dtype(float)
    a = np.eye(int(n), None if m is None else int(m), int(k)).astype(dt)
    return wrap(_toobj(a), dt)


def diag(v, k=0):
    b = base(v)
    if b.ndim == 1:
        n = b.size + abs(k)
        a = np.empty((n, n), dtype=object)
        a[...] = 0.0
        for i in range(b.size):
            a[(i, i + k) if k >= 0 else (i - k, i)] = b[i]
        return wrap(a)
    return wrap(np.diag(b, k).copy())


def concatenate(arrs, axis=0, **k):
    arrs = list(arrs)
    if not has_sym(arrs):
        return np.concatenate(arrs, axis=axis)
    return wrap(np.concatenate([base(a) for a in arrs], axis=axis))


def _stack(fn):
    def f(arrs, *a, **k):
        arrs = list(arrs)
        if not has_sym(arrs):
            return fn(arrs, *a, **k)
        return wrap(fn([base(x) for x in arrs], *a, **k))
    return f


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(num, Sym):
        num = int(num)
    if not has_sym(a) and not has_sym(b):
        return np.linspace(a, b, num=num, endpoint=endpoint, dtype=dtype)
    div = (num - 1) if endpoint else num
    step = sc_div(b - a, div) if div > 0 else 0.0
    xs = [base(a + step * i) for i in range(num)]
    if endpoint and num > 1:
        xs[-1] = base(b)
    r = np.empty((num,) + xs[0].shape, dtype=object)
    for i, x in enumerate(xs):
        r[i] = x[()] if x.shape == () else x
    return wrap(r)


def arange(*a, **k):
    a = [int(x) if isinstance(x, Sym) else x for x in a]
    return np.arange(*a, **k)


def around(x, decimals=0, out=None):
    if not has_sym(x):
        return np.around(x, decimals)
    f = 10 ** decimals if decimals >= 0 else None

    def one(v):
        if not isinstance(v, Sym):
            return _py(np.around(v, decimals))
        if isinstance(v, SymComplex):
            return SymComplex(one(v.re), one(v.im))
        if f is None:
            return (v / 10 ** (-decimals)).rint() * 10 ** (-decimals)
        return v.rint() if f == 1 else (v * f).rint() / f
    return globals()["out"](emap(one, x))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return out(emap(lambda x, y: sc_isclose(x, y, rtol, atol), a, b))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return all_(emap(lambda x, y: sc_isclose(x, y, rtol, atol), a, b))


def array_equal(a, b, **k):
    a, b = base(a), base(b)
    if a.shape != b.shape:
        return False
    return all_(emap(operator.eq, a, b))


def real_(x): return x.real if hasattr(x, "real") else np.real(x)
def imag_(x): return x.imag if hasattr(x, "imag") else np.imag(x)


def isin(a, b, **k):
    xs = list(base(b).ravel())
    return out(emap(lambda v: s_or(*[_sb(v == x) for x in xs]), a))


def clip(a, lo, hi, **k):
    r = base(a)
    if lo is not None:
        r = emap(sc_max, r, lo)
    if hi is not None:
        r = emap(sc_min, r, hi)
    return out(r)


def diff(a, n=1, axis=-1, **k):
    b = base(a)
    return wrap(np.diff(b, n=n, axis=axis))


def count_nonzero(a, axis=None, **k):
    return _reduce(operator.add, emap(lambda x: ite(truthy(x), 1, 0) if is_sym(x) else int(bool(x)), a), axis, False, 0)


def flatnonzero(a): return nonzero(np.ravel(base(a)))[0]


def average(a, axis=None, **k):
    if k:
        raise Unsupported("average with weights")
    return mean_(a, axis)


def iscomplexobj(x):
    return infer_dtype(base(x)).kind == "c"


def array2string(x, *a, **k):
    return np.array2string(x, *a, **k) if not has_sym(x) else "<symarray>"


def ufunc_fn(name, f, nargs):
    real = getattr(np, name, None)
    if nargs == 1:
        def g(x, *a, **k):
            if hasattr(x, "_lazy"):
                return getattr(x, name)()
            if not has_sym(x):
                return real(x, *a, **k)
            return out(emap(f, x))
    else:
        def g(x, y, *a, **k):
            if not has_sym(x) and not has_sym(y):
                return real(x, y, *a, **k)
            return out(emap(f, x, y))
        g.reduce = lambda a, axis=0, **k: _reduce(f, base(a), axis) if has_sym(a) else real.reduce(a, axis=axis, **k)
        g.outer = lambda a, b: wrap(emap(f, base(a).reshape(base(a).shape + (1,) * base(b).ndim), b)) \
            if has_sym(a) or has_sym(b) else real.outer(a, b)
    g.__name__ = name
    return g


def _guard(fn, realname=None, mod=np):
    """use the symbolic version only when something symbolic is involved"""
    real = getattr(mod, realname or fn.__name__, None)

    @functools.wraps(fn)
    def g(*a, **k):
        if real is not None and not has_sym(a) and not has_sym(tuple(k.values())) \
                and not builtins.any(hasattr(x, "_lazy") for x in a):
            return real(*a, **k)
        return fn(*a, **k)
    return g


FUNCS = {
    "sum": sum_, "prod": prod_, "mean": mean_, "average": average, "any": any_, "all": all_,
    "min": min_, "max": max_, "amin": min_, "amax": max_, "argmin": argmin_, "argmax": argmax_,
    "cumsum": cumsum, "nonzero": nonzero, "where": where, "sort": sort_, "argsort": argsort,
    "unique": unique, "insert": insert, "searchsorted": searchsorted, "dot": dot,
    "matmul": matmul, "vdot": vdot, "inner": inner, "outer": outer, "kron": kron,
    "trace": trace, "cross": cross, "diag": diag, "around": around, "round": around,
    "round_": around, "isclose": isclose, "allclose": allclose, "array_equal": array_equal,
    "real": real_, "imag": imag_, "isin": isin, "in1d": isin, "clip": clip, "diff": diff,
    "count_nonzero": count_nonzero, "flatnonzero": flatnonzero, "iscomplexobj": iscomplexobj,
    "array2string": array2string, "alltrue": all_, "sometrue": any_, "full_like": full_like,
    "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(0),
    "concatenate": concatenate, "linspace": linspace,
    "vstack": _stack(np.vstack), "hstack": _stack(np.hstack), "stack": _stack(np.stack),
    "column_stack": _stack(np.column_stack), "dstack": _stack(np.dstack),
}


def _generic(func, args, kwargs):
    """shape-manipulating numpy functions work on object arrays directly"""
    anysym = [False]

    def conv(x):
        if isinstance(x, SymArray):
            c = try_concrete(x)
            if isinstance(c, SymArray):
                anysym[0] = True
                return c.view(np.ndarray)
            return c
        if isinstance(x, Sym):
            if isinstance(x, SymNum) and x.is_const():
                return float(x.value()) if not x.isint else x.value()
            anysym[0] = True
            return x
        if isinstance(x, (list, tuple)):
            return type(x)(conv(i) for i in x)
        return x
    a = [conv(x) for x in args]
    k = {n: conv(v) for n, v in kwargs.items()}
    if anysym[0]:
        name = getattr(func, "__name__", "?")
        if name not in SHAPE_FUNCS:
            raise Unsupported("numpy function %s on symbolic values" % name)
        r = func(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype == OBJ:
            return wrap(r)
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(i) if isinstance(i, np.ndarray) and i.dtype == OBJ else i for i in r)
        return r
    return func(*a, **k)


SHAPE_FUNCS = {
    "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "squeeze",
    "broadcast_to", "broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d", "tile", "repeat",
    "flip", "fliplr", "flipud", "roll", "rot90", "split", "array_split", "vsplit", "hsplit",
    "delete", "append", "take", "shape", "ndim", "size", "diagonal", "triu", "tril", "copyto",
    "meshgrid", "block", "resize", "may_share_memory", "shares_memory", "asanyarray",
    "ascontiguousarray", "isscalar", "copy", "ix_", "r_", "c_",
}


class _LinalgModule:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        f = LINALG.get(name)
        real = getattr(np.linalg, name)
        if f is not None:
            return _guard(f, name, np.linalg)
        if not callable(real):
            return real

        def g(*a, **k):
            return _generic(real, a, k)
        g.__name__ = name
        return g


class NPModule:
    """Stands for the module `numpy` inside the executed code."""

    def __init__(self):
        d = self.__dict__
        for n, f in UNARY.items():
            d[n] = ufunc_fn(n, f, 1)
        for n, f in BINARY.items():
            d[n] = ufunc_fn(n, f, 2)
        for n, f in FUNCS.items():
            d[n] = _guard(f, n)
        d["linalg"] = _LinalgModule()
        d["array"] = array
        d["asarray"] = asarray
        d["asanyarray"] = asarray
        d["ascontiguousarray"] = asarray
        for f in (zeros, ones, empty, full, identity, eye, arange, linspace, full_like):
            d[f.__name__] = f
        d["zeros_like"] = _like(0)
        d["ones_like"] = _like(1)
        d["empty_like"] = _like(0)
        d["__name__"] = "numpy"

    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, type) or not callable(real):
            return real

        def g(*a, **k):
            return _generic(real, a, k)
        g.__name__ = name
        return g


NP = NPModule()


# scalar type constructors: np.uint64(x) etc. ------------------------------------------
def np_scalar(tp):
    dt = np.dtype(tp)

    def g(*a):
        if a and isinstance(a[0], Sym):
            return cast(a[0], dt)
        if a and isinstance(a[0], SymArray):
            return a[0].astype(dt)
        return tp(*a)
    return g


NP_SCALARS = {t: np_scalar(t) for t in (
    np.uint64, np.int64, np.uint32, np.int32, np.float64, np.float32, np.complex128, np.bool_,
    np.uint8, np.int8, np.int16, np.uint16)}
