"""The interface a harness sees: the same harness runs symbolically and on the real code."""

import re
from fractions import Fraction

import numpy as np
import z3

from . import core, npshim
from .core import (Sym, SymNum, SymBool, SymPInt, SymBV, SymComplex, Unsupported, s_and, s_or,
                   s_not, s_implies, s_iff)


_TOKEN = re.compile("\u27e6(\\d+)\u27e7")
_HOLE = "(\u27e6\\d+\u27e7|-?\\d+(?:\\.\\d+)?(?:e[-+]?\\d+)?|\\([-+.e\\dj]+\\)|[-+.e\\d]+j)"


class AssumeFailed(BaseException):
    pass


class Outcome:
    """result of a call that may raise"""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc
        self.ok = exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or (Exception,))


class _Base:
    def outcome(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as exc:            # noqa: engine control flow is BaseException
            return Outcome(exc=exc)

    def raises(self, types, fn, *a, label="raises", **k):
        o = self.outcome(fn, *a, **k)
        self.check(o.raised(*(types if isinstance(types, tuple) else (types,))), label)

    def real_vec(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def int_vec(self, name, n, lo, hi):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def grid_vec(self, name, n, lo, hi, den):
        return [self.grid("%s%d" % (name, i), lo, hi, den) for i in range(n)]

    def eq(self, a, b, label, tol=0):
        """a == b: exactly (ints), within tol (reals; concretely at least 1e-9 relative)"""
        self._eq(a, b, label, tol)

    def _eq(self, a, b, label, tol):
        for x in (a, b):
            if x is None or isinstance(x, (str, bool, np.bool_, SymBool)):
                if type(a) is str or a is None or b is None or type(b) is str:
                    self.check((a is b) if (a is None or b is None) else a == b, label)
                    return
        if hasattr(a, "toarray"):
            a = a.toarray()
        if hasattr(b, "toarray"):
            b = b.toarray()
        if _isseq(a) or _isseq(b):
            if not (_isseq(a) and _isseq(b)):
                self.check(False, label + ": shape")
                return
            sa, sb = _shape(a), _shape(b)
            if sa[0] != sb[0]:
                self.check(False, label + ": shape")
                return
            for x, y in zip(a, b):
                self._eq(x, y, label, tol)
            return
        self.check(self.close(a, b, tol), label)

    # -- modules ------------------------------------------------------------------
    def standin(self, name, obj, *users):
        """obj in place of the module called name, for the modules called users (to be imported afterwards)"""
        if self.sym:
            from . import loader
            loader.STANDINS[name] = obj
            return
        import importlib
        import sys
        top, _, leaf = name.rpartition(".")
        if top:
            setattr(importlib.import_module(top), leaf, obj)
        sys.modules[name] = obj
        for u in users:
            sys.modules.pop(u, None)

    # -- text ---------------------------------------------------------------------
    texts = None

    def text(self, fn, *a, **k):
        """the text fn() returns; numbers in it stay symbolic"""
        if self.texts is None:
            self.texts = []
        old, core.TEXT = core.TEXT, self.texts
        try:
            return fn(*a, **k)
        finally:
            core.TEXT = old

    def evaluate(self, text, names):
        """the value of an expression made by text()"""
        env = dict(names)
        for k in set(int(k) for k in _TOKEN.findall(text)):
            v, spec = self.texts[k]
            if spec:
                raise Unsupported("evaluating a formatted number")
            env["_t%d" % k] = v
        return eval(_TOKEN.sub(lambda m: "_t" + m.group(1), text), env)

    def scan(self, text, pattern):
        """the numbers at the places marked % when the text follows the pattern, else None"""
        m = re.fullmatch(_HOLE.join(re.escape(p) for p in pattern.split("%")), text)
        return None if m is None else [self._number(g) for g in m.groups()]

    def _number(self, g):
        m = _TOKEN.fullmatch(g)
        if m is None:
            g = g.strip()
            return int(g) if re.fullmatch(r"-?\d+", g) else complex(g) if "j" in g else float(g)
        v, spec = self.texts[int(m.group(1))]
        if re.fullmatch(r"[<>^]?\d*d?", spec):
            return v
        m = re.fullmatch(r"[<>^]?\d*(?:\.(\d+))?f", spec)
        if m is not None:
            return round(v, int(m.group(1) or 6))
        m = re.fullmatch(r"[<>^]?\d*(?:\.(\d+))?([eg])", spec)
        if m is None:
            raise Unsupported("format " + spec)
        # so many significant digits: find the decade of the number
        n = int(m.group(1) or 6)
        n = n + 1 if m.group(2) == "e" else max(n, 1)
        a = abs(v)
        if bool(a == 0):
            return 0
        for k in range(-8, 16):
            if bool(a < 10 ** (k + 1)):
                digits = n - 1 - k
                if digits >= 0:
                    return round(v * 1.0, digits)
                return round(v / 10 ** -digits) * 10 ** -digits
        raise Unsupported("format %s of a huge number" % spec)

    def near(self, a, b, tol):
        return self.close(a, b, tol)


def _isseq(x):
    if isinstance(x, np.ndarray):
        return x.ndim > 0
    return isinstance(x, (list, tuple))


def _shape(x):
    return x.shape if isinstance(x, np.ndarray) else (len(x),)


class SymCtx(_Base):
    sym = True

    def __init__(self, eng):
        self.eng = eng

    def _input(self, name, kind, term):
        if any(n == name for n, _, _ in self.eng.inputs):
            raise ValueError("duplicate input " + name)
        self.eng.inputs.append((name, kind, term))

    # -- inputs ---------------------------------------------------------------
    def int(self, name, lo, hi):
        if lo == hi:
            self._input(name, "int", z3.IntVal(lo))
            return lo
        t = z3.Int(name)
        self._input(name, "int", t)
        self.eng.add(z3.And(t >= lo, t <= hi))
        a = self.eng.atom_for(t, True)
        a.bound = float(max(abs(lo), abs(hi)))
        a.rng = (float(lo), float(hi))
        return SymNum(core.Poly.atom(a), None, True)

    def bint(self, name, lo, hi):
        w = SymPInt.width_for(lo, hi)
        t = z3.BitVec(name, w)
        self._input(name, "bint", t)
        self.eng.add(z3.And(t >= lo, t <= hi))
        return SymPInt(t, lo, hi)

    def u64(self, name, bits=64):
        if bits < 64:
            t = z3.BitVec(name, bits)
            self._input(name, "u64", t)
            return SymBV(z3.ZeroExt(64 - bits, t), False)
        t = z3.BitVec(name, 64)
        self._input(name, "u64", t)
        return SymBV(t, False)

    def pack(self, *parts):
        """64-bit value from (value, width) fields, the lowest first"""
        ts = []
        for v, w in parts:
            if w > 0:
                ts.append(z3.Extract(w - 1, 0, v.t) if isinstance(v, SymBV) else z3.BitVecVal(int(v), w))
        rest = 64 - sum(w for _, w in parts)
        if rest:
            ts.append(z3.BitVecVal(0, rest))
        return SymBV(z3.simplify(z3.Concat(*reversed(ts))), False)

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        self._input(name, "real", t)
        if lo is not None:
            self.eng.add(t >= z3.RealVal(str(Fraction(lo))))
        if hi is not None:
            self.eng.add(t <= z3.RealVal(str(Fraction(hi))))
        a = self.eng.atom_for(t, False)
        if lo is not None and hi is not None:
            a.bound = float(max(abs(lo), abs(hi)))
            a.rng = (float(lo), float(hi))
        return SymNum(core.Poly.atom(a), None, False)

    def grid(self, name, lo, hi, den):
        """k/den with integer k: a real whose arithmetic is exact"""
        k = self.int(name, lo * den, hi * den)
        return SymNum.lift(k).to_real() * Fraction(1, den)

    def complex(self, name, lo=None, hi=None):
        return SymComplex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def bool(self, name):
        t = z3.Bool(name)
        self._input(name, "bool", t)
        return SymBool(t)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        t = z3.Int(name)
        self._input(name, "int", t)
        self.eng.add(z3.And(t >= 0, t < len(options)))
        return options[self.eng.concretize(t)]

    def sincos(self, x):
        s, c = self.eng.trig(SymNum.lift(x).to_real())
        return s, c

    # -- logic ----------------------------------------------------------------
    def assume(self, c):
        self.eng.assume(_b(c))

    def check(self, c, label):
        self.eng.oblige(_b(c), label)

    def close(self, a, b, tol=0):
        if isinstance(a, (SymComplex, complex, np.complexfloating)) or \
                isinstance(b, (SymComplex, complex, np.complexfloating)):
            x, y = SymComplex.lift(a), SymComplex.lift(b)
            return s_and(self.close(x.re, y.re, tol), self.close(x.im, y.im, tol))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return _cclose(a, b, tol)
        if not tol:
            r = (a == b)
            return r if isinstance(r, SymBool) else bool(r)
        d = SymNum.lift(a) - SymNum.lift(b)
        if core.small(d, tol):
            return True
        if isinstance(d, SymNum):
            d = _prune(d, tol)
        return s_and(_b(d <= tol), _b(d >= -tol))

    def all(self, xs): return s_and(*[_b(x) for x in xs])
    def any(self, xs): return s_or(*[_b(x) for x in xs])
    def not_(self, x): return s_not(_b(x))
    def implies(self, a, b): return s_implies(_b(a), _b(b))
    def iff(self, a, b): return s_iff(_b(a), _b(b))

    def concrete(self, x):
        """case split over the values of an int"""
        return int(x)

    def count(self, conds):
        s = 0
        for c in conds:
            s = s + core.ite(_b(c), 1, 0)
        return s

    def is_real_dtype(self, a): return True


def _prune(d, tol):
    """drop float-noise monomials whose total is far below tol; the remaining claim is weaker by it"""
    if d.d is not None:
        return d
    atoms = core.engine().atoms
    keep, lost = {}, 0.0
    for m, c in d.n.d.items():
        t = abs(float(c))
        ok = t < tol * 1e-3
        for i, e in m:
            b = atoms[i].bound
            if b is None:
                ok = False
                break
            t *= b ** e
        if ok and t < tol * 1e-2:
            lost += t
            continue
        keep[m] = c
    if lost > tol * 0.5:
        return d
    return SymNum(core.Poly(keep), None, d.isint)


def _b(c):
    if isinstance(c, SymBool):
        return c
    if isinstance(c, Sym):
        return npshim.truthy(c)
    if isinstance(c, np.ndarray):
        raise TypeError("array condition")
    return bool(c)


def _cclose(a, b, tol):
    if isinstance(a, (int, bool, np.integer, np.bool_)) and isinstance(b, (int, bool, np.integer, np.bool_)):
        return int(a) == int(b)
    a, b = complex(a), complex(b)
    if a != a or b != b:
        return False
    return bool(abs(a - b) <= max(tol * 1.01, 1e-9 * (1 + abs(a) + abs(b))))


class RealCtx(_Base):
    sym = False

    def __init__(self, values):
        self.values = values
        self.failed = []
        self.passed = 0

    def _get(self, name, default=0):
        return self.values.get(name, default)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self._rng(int(self._get(name, lo)), lo, hi))

    def _rng(self, v, lo, hi):
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed()
        return v

    def bint(self, name, lo, hi):
        return int(self._rng(int(self._get(name, lo)), lo, hi))

    def u64(self, name, bits=64):
        return int(self._get(name))

    def pack(self, *parts):
        r, at = 0, 0
        for v, w in parts:
            if w > 0:
                r |= (int(v) & ((1 << w) - 1)) << at
                at += w
        return r

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name, lo if lo is not None else 0))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def grid(self, name, lo, hi, den):
        return self.int(name, lo * den, hi * den) / den

    def complex(self, name, lo=None, hi=None):
        return complex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def sincos(self, x):
        return float(np.sin(x)), float(np.cos(x))

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        if isinstance(c, np.ndarray) and c.size != 1:
            raise TypeError("array condition")
        if bool(c):
            self.passed += 1
        else:
            self.failed.append(label)

    def close(self, a, b, tol=0):
        return _cclose(a, b, tol)

    def all(self, xs): return all([bool(x) for x in xs])
    def any(self, xs): return any([bool(x) for x in xs])
    def not_(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def concrete(self, x): return int(x)
    def count(self, conds): return sum(1 for c in conds if c)


# -- models -> values --------------------------------------------------------------------
def extract(model, inputs):
    vals = {}
    for name, kind, t in inputs:
        v = model.eval(t, model_completion=True)
        if kind == "bool":
            vals[name] = bool(z3.is_true(v))
        elif kind == "bint":
            vals[name] = v.as_signed_long()
        elif kind == "u64":
            vals[name] = v.as_long()
        elif kind == "int":
            vals[name] = v.as_long() if z3.is_int_value(v) else 0
        else:
            f = core.z3_fraction(v)
            vals[name] = float(f) if f is not None else 0.0
    return vals
