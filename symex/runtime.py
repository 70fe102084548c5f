"""Runtime support called by the transformed code (`__sx__`)."""

import builtins
import collections
import functools
import math
import numbers

import numpy as np
import operator

import z3

from . import core, npshim
from .core import (Sym, SymNum, SymBool, SymPInt, SymBV, SymComplex, Unsupported, MergeAbort,
                   engine, ite, s_and, s_or, s_not, UNDEF)
from .npshim import SymArray


# --------------------------------------------------------------------------
class SymHash(Sym):
    """Structural stand-in for the hash of something symbolic."""
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return struct_eq(self.val, o.val)
        if isinstance(o, KnownHash):
            return struct_eq(self.val, o.source)
        return False

    def __ne__(self, o):
        return s_not(self == o)

    __hash__ = None

    def _mix(self, tag, o, swap=False):
        a, b = (o, self) if swap else (self, o)
        return SymHash(("op", tag, a.val if isinstance(a, SymHash) else a,
                        b.val if isinstance(b, SymHash) else b))

    def __xor__(self, o): return self._mix("^", o)
    def __rxor__(self, o): return self._mix("^", o, True)
    def __add__(self, o): return self._mix("+", o)
    def __radd__(self, o): return self._mix("+", o, True)
    def __mul__(self, o): return self._mix("*", o)
    def __rmul__(self, o): return self._mix("*", o, True)
    def __mod__(self, o): return self._mix("%", o)
    def __and__(self, o): return self._mix("&", o)
    def __int__(self): raise Unsupported("value of a symbolic hash")
    __index__ = __int__


class KnownHash(int):
    """the hash of a concrete value, which can be compared with a symbolic one"""

    def __new__(cls, x):
        h = int.__new__(cls, hash(x))
        h.source = x
        return h

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return o == self
        return int.__eq__(self, o)

    def __ne__(self, o):
        return s_not(self == o) if isinstance(o, SymHash) else int.__ne__(self, o)

    __hash__ = int.__hash__


def struct_eq(a, b):
    """whether two values hash equally: equal ones, and -1 and -2"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return s_and(*[struct_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, SymHash) or isinstance(b, SymHash):
        return a == b
    r = (a == b)
    if builtins.all(isinstance(x, (SymNum, int, float)) for x in (a, b)):
        return s_or(r, s_and(a == -1, b == -2), s_and(a == -2, b == -1))
    return r if isinstance(r, SymBool) else bool(r)


def contains_sym(x):
    if isinstance(x, Sym):
        return not (isinstance(x, SymNum) and x.is_const())
    if isinstance(x, (tuple, list, frozenset)):
        return builtins.any(contains_sym(i) for i in x)
    return False


def sx_hash(x):
    if isinstance(x, (tuple, frozenset)):
        if isinstance(x, frozenset):
            return hash(x)
        hs = [sx_hash(i) for i in x]
        if builtins.any(isinstance(h, SymHash) for h in hs):
            return SymHash(tuple(h.val if isinstance(h, SymHash) else h.source if isinstance(h, KnownHash) else i
                                 for h, i in zip(hs, x)))
        return KnownHash(x)
    if isinstance(x, Sym):
        if isinstance(x, SymHash):
            return x
        if isinstance(x, SymNum) and x.is_const():
            return hash(x.value())
        return SymHash(x)
    if isinstance(x, (int, float, str, bytes, bool, type(None), np.generic, complex)):
        return hash(x)
    h = getattr(type(x), "__hash__", None)
    if h is None:
        raise TypeError("unhashable type: %r" % type(x).__name__)
    return h(x)


class SymSet:
    """set with symbolic elements (list, pairwise distinct on this path)"""

    def __init__(self, it=()):
        self.items = []
        for x in it:
            self.add(x)

    def _has(self, x):
        return s_or(*[veq(x, y) for y in self.items])

    def __contains__(self, x): return bool(self._has(x))

    def add(self, x):
        if not bool(self._has(x)):
            self.items.append(x)

    def discard(self, x):
        self.items = [y for y in self.items if not bool(veq(x, y))]

    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)

    def __len__(self): return len(self.items)
    def __iter__(self): return iter(list(self.items))
    def __bool__(self): return bool(self.items)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def isdisjoint(self, o):
        o = list(o)
        return s_not(s_or(*[veq(x, y) for x in self.items for y in o]))

    def issubset(self, o):
        o = list(o)
        return s_and(*[s_or(*[veq(x, y) for y in o]) for x in self.items])

    def issuperset(self, o):
        return s_and(*[self._has(y) for y in o])

    def intersection(self, *os):
        r = self.items
        for o in os:
            o = list(o)
            r = [x for x in r if bool(s_or(*[veq(x, y) for y in o]))]
        return mkset(r)

    def difference(self, *os):
        r = self.items
        for o in os:
            o = list(o)
            r = [x for x in r if not bool(s_or(*[veq(x, y) for y in o]))]
        return mkset(r)

    def union(self, *os):
        r = SymSet(self.items)
        r.update(*os)
        return r

    def symmetric_difference(self, o):
        o = mkset(o)
        return mkset(list(self.difference(o)) + list(SymSet(o).difference(self)))

    __and__ = __rand__ = intersection
    __or__ = __ror__ = union
    __sub__ = difference
    __xor__ = symmetric_difference
    def __rsub__(self, o): return SymSet(o).difference(self)
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def copy(self): return SymSet(self.items)
    def pop(self): return self.items.pop(0)
    def clear(self): self.items = []

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return NotImplemented
        if len(o) != len(self.items):
            return False
        return self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    __hash__ = None


def veq(a, b):
    """a == b as bool / SymBool, tuples merged"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return cmp("==", a, b)
    r = (a == b)
    if isinstance(r, SymBool):
        return r
    if r is NotImplemented:
        return False
    return bool(r)


def hashable_concrete(x):
    """True when x can live in a real dict/set"""
    h = sx_hash(x)
    return not isinstance(h, SymHash)


def mkset(it=()):
    items = list(it)
    if builtins.all(hashable_concrete(x) for x in items):
        return builtins.set(items)
    return SymSet(items)


class SymDict(dict):
    """
    Insertion-ordered mapping.  While every key is concrete it is an ordinary
    dict; lookups with symbolic keys compare against every key.
    """

    def __init__(self, *a, **k):
        super().__init__()
        self._sym = None            # list of [key, value] once symbolic
        if a:
            src = a[0]
            if isinstance(src, dict):
                for x, y in list(src.items()):
                    self[x] = y
            else:
                for x, y in src:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def _to_sym(self):
        if self._sym is None:
            self._sym = [[k, v] for k, v in super().items()]

    def _pairs(self):
        return self._sym if self._sym is not None else [[k, v] for k, v in super().items()]

    def _direct(self, k):
        return self._sym is None and hashable_concrete(k)

    def __setitem__(self, k, v):
        if self._direct(k):
            return super().__setitem__(k, v)
        self._to_sym()
        for p in self._sym:
            if bool(veq(p[0], k)):
                p[1] = v
                return
        self._sym.append([k, v])

    def _find(self, k):
        """list of (cond, value); conds are mutually exclusive"""
        return [(veq(p[0], k), p[1]) for p in self._pairs()]

    def __getitem__(self, k):
        if self._direct(k):
            return super().__getitem__(k)
        f = [(c, v) for c, v in self._find(k) if c is not False]
        present = s_or(*[c for c, _ in f])
        if not bool(present):
            raise KeyError(k)
        for c, v in f:
            if c is True:
                return v
        if len(f) == 1:
            return f[0][1]
        try:
            r = f[-1][1]
            for c, v in f[-2::-1]:
                r = ite(c, v, r)
            return r
        except MergeAbort:
            for c, v in f[:-1]:
                if bool(c):
                    return v
            return f[-1][1]

    def has(self, k):
        if self._direct(k):
            return super().__contains__(k)
        return s_or(*[c for c, _ in self._find(k)])

    def __contains__(self, k): return bool(self.has(k))

    def get(self, k, d=None):
        if self._direct(k):
            return super().get(k, d)
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def __delitem__(self, k):
        if self._direct(k):
            return super().__delitem__(k)
        self._to_sym()
        for i, p in enumerate(self._sym):
            if bool(veq(p[0], k)):
                del self._sym[i]
                return
        raise KeyError(k)

    def pop(self, k, *d):
        if self._direct(k):
            return super().pop(k, *d)
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def popitem(self, last=True):
        if self._sym is None:
            k = list(super().keys())[-1 if last else 0]
            return k, super().pop(k)
        return tuple(self._sym.pop(-1 if last else 0))

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        self[k] = v

    def keys(self): return KeysView(self)
    def values(self): return [p[1] for p in self._pairs()] if self._sym is not None else super().values()
    def items(self): return ItemsView([(p[0], p[1]) for p in self._pairs()]) if self._sym is not None else super().items()
    def __iter__(self): return iter([p[0] for p in self._pairs()])
    def __reversed__(self): return reversed([p[0] for p in self._pairs()])
    def __len__(self): return len(self._sym) if self._sym is not None else super().__len__()
    def __bool__(self): return len(self) > 0

    def update(self, *a, **k):
        for x in a:
            for kk, v in (x.items() if isinstance(x, dict) else x):
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def copy(self): return SymDict(self)
    def clear(self):
        super().clear()
        self._sym = None

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if self._sym is None and (not isinstance(o, SymDict) or o._sym is None):
            return dict.__eq__(self, o)
        return len(self) == len(o) and builtins.all(k in o and bool(o[k] == v) for k, v in self.items())

    __hash__ = None


class KeysView:
    def __init__(self, d): self.d = d
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def __contains__(self, k): return k in self.d
    def isdisjoint(self, o): return mkset(self.d).isdisjoint(o)
    def __and__(self, o): return mkset(self.d) & mkset(o)
    def __or__(self, o): return mkset(self.d) | mkset(o)
    def __sub__(self, o): return mkset(self.d) - mkset(o)
    def __eq__(self, o): return mkset(self.d) == mkset(o)
    def __reversed__(self): return reversed(self.d)
    __hash__ = None


class ItemsView(list):
    pass


def SymDefaultDict(factory=None, *a, **k):
    return _DD(factory, *a, **k)


class _DD(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __getitem__(self, k):
        if k in self:
            return super().__getitem__(k)
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


# --------------------------------------------------------------------------
class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        else:
            self.start, self.stop = a[0], a[1]
            self.step = a[2] if len(a) > 2 else 1
        if isinstance(self.step, Sym):
            self.step = int(self.step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        for k in ("start", "stop"):
            v = getattr(self, k)
            if isinstance(v, core.SymNum):
                r = core.num_range(v)
                if r is not None and r[1] - r[0] < 100:
                    setattr(self, k, int(v))
        i = self.start
        while bool(i < self.stop if self.step > 0 else i > self.stop):
            yield i
            i = i + self.step

    def guarded(self):
        """(value, condition) pairs covering every possible iteration"""
        eng = engine()
        i = self.start
        if isinstance(i, Sym):
            # iterate over the whole feasible window with concrete values
            lo = eng.lower_bound(i)
            if lo is None or abs(self.step) != 1 or self.step < 0:
                for x in self:
                    yield x, True
                return
            k = lo
            n = 0
            while True:
                c = (k < self.stop)
                if c is False or (isinstance(c, SymBool) and eng.known(c.e) is False):
                    return
                g = s_and(_sb(k >= i), _sb(c))
                yield k, g
                k += 1
                n += 1
                if n > 300:
                    raise Unsupported("unbounded symbolic loop")
        n = 0
        while True:
            c = (i < self.stop) if self.step > 0 else (i > self.stop)
            if isinstance(c, SymBool):
                k = eng.known(c.e)
                if k is False:
                    return
                yield i, (True if k else c)
            elif not c:
                return
            else:
                yield i, True
            i = i + self.step
            n += 1
            if n > 300:
                raise Unsupported("unbounded symbolic loop")

    def __len__(self):
        n = self.stop - self.start
        if self.step != 1:
            raise Unsupported("len of a stepped symbolic range")
        n = int(n)
        return max(n, 0)

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported("stepped symbolic range")
        return bool(s_and(_sb(x >= self.start), _sb(x < self.stop)))

    def __getitem__(self, i):
        return list(self)[i]


def _sb(x):
    return x if isinstance(x, SymBool) else bool(x)


# --------------------------------------------------------------------------
# builtin replacements
def sx_range(*a):
    if builtins.any(isinstance(x, Sym) for x in a):
        for x in a:
            if isinstance(x, SymNum) and not x.isint:
                raise TypeError("'float' object cannot be interpreted as an integer")
        return SymRange(*a)
    return range(*a)


INT_CLS = (int, np.integer, np.int64, np.uint64, numbers.Integral)
REAL_CLS = (float, np.floating, np.float64)


def kind_of(x):
    """emulated concrete type of a symbolic value"""
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymPInt):
        return int
    if isinstance(x, SymBV):
        return np.int64 if x.signed else np.uint64
    if isinstance(x, SymNum):
        return int if x.isint else float
    if isinstance(x, SymComplex):
        return complex
    if isinstance(x, SymHash):
        return int
    return type(x)


def sx_isinstance(x, cls):
    if isinstance(cls, tuple):
        return builtins.any(sx_isinstance(x, c) for c in cls)
    if cls is builtins.dict or cls is collections.OrderedDict:
        return isinstance(x, dict)
    if cls in (builtins.set, frozenset):
        return isinstance(x, (cls, SymSet)) if cls is set else isinstance(x, cls)
    if cls is builtins.range:
        return isinstance(x, (range, SymRange))
    if isinstance(x, Sym):
        t = kind_of(x)
        if not isinstance(cls, type) and hasattr(cls, "__args__"):
            return builtins.any(sx_isinstance(x, c) for c in cls.__args__)
        return issubclass(t, cls)
    return isinstance(x, cls)


def sx_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return kind_of(a[0])
    if len(a) == 1 and isinstance(a[0], SymArray):
        return np.ndarray
    if len(a) == 1 and isinstance(a[0], SymDict):
        return dict
    if len(a) == 1 and isinstance(a[0], SymSet):
        return set
    return type(*a)


def sx_int(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymNum):
            return core.sym_trunc(x)
        if isinstance(x, SymPInt):
            return x
        if isinstance(x, SymBV):
            return x.to_pint()
        if isinstance(x, SymBool):
            return ite(x, 1, 0)
        if isinstance(x, SymComplex):
            raise TypeError("int() argument must be ... not 'complex'")
        return int(x)
    if len(a) == 1 and isinstance(a[0], SymArray) and a[0].size == 1:
        return sx_int(a[0].item())
    return int(*a, **k)


def sx_float(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymComplex):
            raise TypeError("can't convert complex to float")
        return SymNum.lift(x).to_real()
    if len(a) == 1 and isinstance(a[0], SymArray) and a[0].size == 1:
        return sx_float(a[0].item())
    return float(*a)


def sx_complex(*a, **k):
    if builtins.any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return SymComplex.lift(a[0])
        return SymComplex.lift(a[0]) + SymComplex.lift(a[1]) * 1j
    return complex(*a, **k)


def sx_bool(*a):
    if a and isinstance(a[0], Sym):
        return npshim.truthy(a[0])
    return bool(*a)


def _minmax(real, pick):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not builtins.any(isinstance(x, Sym) for x in xs):
            return real(xs, **k)
        key = k.get("key")
        if key is not None:
            best = xs[0]
            for x in xs[1:]:
                if bool(key(x) < key(best)) if real is builtins.min else bool(key(x) > key(best)):
                    best = x
            return best
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r
    return f


sx_min = _minmax(builtins.min, npshim.sc_min)
sx_max = _minmax(builtins.max, npshim.sc_max)


def sx_sum(it, start=0):
    it = list(it)
    if not builtins.any(isinstance(x, (Sym, SymArray)) for x in it) and not isinstance(start, Sym):
        return sum(it, start)
    r = start
    for x in it:
        r = r + x
    return r


def sx_any(it):
    r = False
    for x in it:
        t = npshim.truthy(x) if not isinstance(x, np.ndarray) else bool(x)
        if t is True:
            return True
        r = s_or(r, t)
    return r


def sx_all(it):
    r = True
    for x in it:
        t = npshim.truthy(x) if not isinstance(x, np.ndarray) else bool(x)
        if t is False:
            return False
        r = s_and(r, t)
    return r


def sx_sorted(it, key=None, reverse=False):
    xs = list(it)
    if key is None and not reverse and builtins.all(
            isinstance(x, (Sym, int, float, np.number)) for x in xs) and \
            builtins.any(isinstance(x, Sym) for x in xs):
        return npshim.net_sort(xs)
    ks = [key(x) for x in xs] if key else xs
    order = sorted(range(len(xs)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(cmp("<", ks[i], ks[j])) else
        (1 if bool(cmp("<", ks[j], ks[i])) else 0)), reverse=reverse)
    return [xs[i] for i in order]


def sx_enumerate(it, start=0):
    if not isinstance(start, Sym):
        return enumerate(it, start)

    def gen():
        i = start
        for x in it:
            yield i, x
            i = i + 1
    return gen()


def sx_abs(x):
    if isinstance(x, np.ndarray):
        return npshim.NP.abs(x)
    return abs(x)


def sx_round(number, ndigits=None):
    x, n = number, ndigits
    if isinstance(x, Sym):
        return x.__round__(n) if n is not None else x.__round__()
    if isinstance(x, SymArray):
        return npshim.around(x, n or 0)
    return round(x, n) if n is not None else round(x)


def sx_pow(b, e, m=None):
    if m is not None:
        return pow(b, e, m)
    return b ** e


def sx_len(x):
    return len(x)


def sx_list(*a):
    return list(*a)


def sx_tuple(*a):
    return tuple(*a)


def sx_factorial(n):
    if not isinstance(n, Sym):
        return math.factorial(n)
    if isinstance(n, SymNum) and not n.isint:
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(n, SymNum):
        if core.engine().decide(n < 0):
            raise ValueError("factorial() not defined for negative values")
        t = core.engine().table("factorial", n, math.factorial)
        if t is not None:
            return t
    return math.factorial(int(n))


def sx_floor(x):
    return core.sym_floor(x) if isinstance(x, SymNum) else (x if isinstance(x, Sym) else math.floor(x))


def sx_ceil(x):
    return x.__ceil__() if isinstance(x, SymNum) else (x if isinstance(x, Sym) else math.ceil(x))


def sx_msqrt(x):
    return core.sym_sqrt(x) if isinstance(x, Sym) else math.sqrt(x)


def sx_str(*a, **k):
    return str(*a, **k)


def sx_divmod(a, b):
    return a // b, a % b


TABLE = {
    int: sx_int, float: sx_float, complex: sx_complex, bool: sx_bool, isinstance: sx_isinstance,
    set: mkset, dict: SymDict, collections.OrderedDict: SymDict, enumerate: sx_enumerate,
    range: sx_range, min: sx_min, max: sx_max, sum: sx_sum, abs: sx_abs, hash: sx_hash,
    round: sx_round, type: sx_type, any: sx_any, all: sx_all, sorted: sx_sorted,
    divmod: sx_divmod, pow: sx_pow, collections.defaultdict: SymDefaultDict,
    math.factorial: sx_factorial, math.floor: sx_floor, math.ceil: sx_ceil, math.sqrt: sx_msqrt,
}
TABLE_ID = {id(k): v for k, v in TABLE.items()}


def fn(f):
    return TABLE_ID.get(id(f), f)


def method(obj, name):
    if name == "sort" and isinstance(obj, list):
        def srt(key=None, reverse=False):
            if builtins.any(isinstance(x, Sym) or not isinstance(x, (int, float, str)) for x in obj):
                obj[:] = sx_sorted(obj, key, reverse)
            else:
                obj.sort(key=key, reverse=reverse)
        return srt
    f = getattr(obj, name)
    if isinstance(f, type) and f in npshim.NP_SCALARS:
        return npshim.NP_SCALARS[f]
    if name == "fromkeys":
        return lambda ks, v=None: SymDict([(k, v) for k in ks])
    return f


# --------------------------------------------------------------------------
# logic
def _speculate(cond, thunk):
    """value of thunk under the assumption cond; MergeAbort when it would fork"""
    eng = engine()
    eng.merge_guards.append(cond)
    n = len(eng.merge_guards)
    try:
        return thunk()
    except (MergeAbort, Exception):
        raise MergeAbort()
    finally:
        del eng.merge_guards[n - 1:]


def _simp(a):
    if isinstance(a, SymBool):
        e = z3.simplify(a.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    return a


def and_(a, thunk, simple):
    a = _simp(a)
    if isinstance(a, SymBool):
        if simple:
            try:
                b = _speculate(a.e, thunk)
                if isinstance(b, (bool, np.bool_, SymBool)):
                    return s_and(a, b)
            except MergeAbort:
                pass
        return thunk() if bool(a) else False
    return a and thunk()


def or_(a, thunk, simple):
    a = _simp(a)
    if isinstance(a, SymBool):
        if simple:
            try:
                b = _speculate(z3.Not(a.e), thunk)
                if isinstance(b, (bool, np.bool_, SymBool)):
                    return s_or(a, b)
            except MergeAbort:
                pass
        return True if bool(a) else thunk()
    return a or thunk()


def not_(a):
    if isinstance(a, SymBool):
        return s_not(a)
    if isinstance(a, Sym):
        return s_not(npshim.truthy(a))
    return not a


def ifexp(c, ta, tb):
    if isinstance(c, Sym) and not isinstance(c, SymBool):
        c = npshim.truthy(c)
    c = _simp(c)
    if isinstance(c, SymBool):
        k = engine().known(c.e) if engine().merge_guards else None
        if k is not None:
            return ta() if k else tb()
        try:
            a = _speculate(c.e, ta)
            b = _speculate(z3.Not(c.e), tb)
            return ite(c, a, b)
        except MergeAbort:
            pass
        return ta() if bool(c) else tb()
    return ta() if c else tb()


_OPS = {
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
}


def _plain_seq(x):
    return type(x) in (tuple, list)


def _deep_sym(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, list):
        return builtins.any(_deep_sym(i) for i in x)
    return False


def cmp(op, a, b):
    if op == "in":
        return contains(b, a)
    if op == "not in":
        return s_not(contains(b, a))
    if type(a) is type(b) and _plain_seq(a) and (_deep_sym(a) or _deep_sym(b)):
        if op == "==" or op == "!=":
            if len(a) != len(b):
                return op == "!="
            r = s_and(*[_sb2(cmp("==", x, y)) for x, y in zip(a, b)])
            return r if op == "==" else s_not(r)
        # lexicographic
        strict = op[0]
        n = builtins.min(len(a), len(b))
        if len(a) == len(b):
            tail = len(op) == 2
        else:
            tail = (len(a) < len(b)) == (strict == "<")
        r = tail
        for k in range(n - 1, -1, -1):
            e = _sb2(cmp("==", a[k], b[k]))
            if e is True:
                continue
            l = _sb2(cmp(strict, a[k], b[k]))
            r = s_or(l, s_and(e, r)) if e is not False else l
        return r
    return _OPS[op](a, b)


def _sb2(x):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def chain(ops, left, *rest):
    r = True
    a = left
    for op, t in zip(ops, rest):
        if r is True:
            b = t()
        else:
            try:
                b = _speculate(r.e, t)
            except MergeAbort:
                if not bool(r):
                    return False
                r = True
                b = t()
        if op == "is":
            c = a is b
        elif op == "is not":
            c = a is not b
        else:
            c = cmp(op, a, b)
        if isinstance(c, np.ndarray):
            if len(ops) > 1:
                c = bool(c)
            else:
                return c
        c = c if isinstance(c, SymBool) else (c if isinstance(c, Sym) else bool(c))
        r = s_and(r, npshim.truthy(c))
        if r is False:
            return False
        a = b
    return r


def contains(cont, x):
    if isinstance(cont, SymDict):
        return cont.has(x)
    if isinstance(cont, KeysView):
        return cont.d.has(x) if isinstance(cont.d, SymDict) else x in cont.d
    if isinstance(cont, SymSet):
        return cont._has(x)
    if isinstance(cont, (dict, set, frozenset)):
        if hashable_concrete(x):
            return x in cont
        return s_or(*[veq(x, y) for y in cont])
    if isinstance(cont, (list, tuple)):
        if isinstance(x, str) or not (_deep_sym(x) or _deep_sym(cont) or not isinstance(x, (int, float, tuple))):
            return x in cont
        return s_or(*[veq(x, y) for y in cont])
    if isinstance(cont, range) and isinstance(x, Sym):
        if len(cont) == 0:
            return False
        r = s_and(_sb(x >= min(cont[0], cont[-1])), _sb(x <= max(cont[0], cont[-1])))
        if abs(cont.step) != 1:
            r = s_and(r, _sb((x - cont.start) % abs(cont.step) == 0))
        return r
    return x in cont


# --------------------------------------------------------------------------
# merged conditionals
class _Merge:
    __slots__ = ("c", "depth")

    def __init__(self, c):
        self.c = c
        self.depth = len(engine().merge_guards)


def begin(c):
    if isinstance(c, Sym) and not isinstance(c, SymBool):
        c = npshim.truthy(c)
    c = _simp(c)
    if not isinstance(c, SymBool):
        return None
    if core.ENGINE is None or not core.ENGINE.merging:
        return None
    if engine().merge_guards and engine().known(c.e) is not None:
        return None
    return _Merge(c)


def enter(m, branch):
    g = engine().merge_guards
    del g[m.depth:]
    g.append(m.c.e if branch else z3.Not(m.c.e))


def leave(m):
    del engine().merge_guards[m.depth:]


abort = leave


def get(thunk):
    try:
        return thunk()
    except NameError:
        return UNDEF


MUTABLE = (list, dict, set)


def merge(m, s1, s2):
    out = []
    for a, b in zip(s1, s2):
        if a is UNDEF and b is UNDEF:
            out.append(UNDEF)
        elif a is UNDEF or b is UNDEF:
            raise MergeAbort()
        else:
            try:
                out.append(ite(m.c, a, b))
            except core.Unsupported:
                raise MergeAbort()
    return tuple(out)


ABORTS = (MergeAbort, Exception)

_IOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "MatMult": "matmul", "Div": "truediv", "FloorDiv": "floordiv",
         "Mod": "mod", "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitOr": "or", "BitXor": "xor",
         "BitAnd": "and"}
_PLAIN = {k: getattr(operator, {"or": "or_", "and": "and_"}.get(v, v)) for k, v in _IOPS.items()}
_INPLACE = {k: getattr(operator, "i" + v) for k, v in _IOPS.items()}


def iop(op, x, v):
    """x op= v for a name x"""
    if core.ENGINE is not None:
        if core.ENGINE.merge_guards and hasattr(type(x), "__i%s__" % _IOPS[op]):
            raise MergeAbort()          # a visible effect in a speculatively executed branch
        if isinstance(v, Sym) and isinstance(x, np.ndarray):
            r = _PLAIN[op](x, v)
            if isinstance(x, npshim.SymArray):
                x[...] = r
                return x
            return r
    return _INPLACE[op](x, v)


def issymrange(x): return isinstance(x, SymRange)
def guarded(x): return x.guarded()


def mkdict(pairs):
    return SymDict(pairs)


def mark(name):
    e = core.ENGINE
    if e is not None:
        e.stats.functions.add(name)
