"""
Core of the symbolic executor: exact polynomial arithmetic over solver atoms,
symbolic Python values, path exploration by re-execution, obligations.

Nothing in here knows anything about HamiltonianPy.
"""

import time
from fractions import Fraction
from math import isinf, isnan

import numpy as np
import z3


# --------------------------------------------------------------------------
# control flow of the executor: BaseException so that the code under test
# cannot swallow it with `except Exception`
class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class MergeAbort(BaseException):
    """A speculative (merged) region cannot be merged; fall back to forking."""


class Unsupported(BaseException):
    """The executor cannot model an operation; the path is inconclusive."""


class OutOfBudget(BaseException):
    pass


ENGINE = None


def engine():
    if ENGINE is None:
        raise Unsupported("no engine")
    return ENGINE


# --------------------------------------------------------------------------
# exact polynomials over atoms
def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Atom:
    __slots__ = ("idx", "term", "isint", "sq", "key", "sqrt_of", "bound", "rng", "lazy", "ite")

    def __init__(self, idx, term, isint):
        self.idx = idx
        self.term = term          # z3 term
        self.isint = isint
        self.sq = None            # Poly: replacement for atom**2
        self.sqrt_of = None       # (num, den) when the atom is sqrt(num/den)
        self.bound = None         # float bound of |atom| when known
        self.rng = None           # (lo, hi) when known
        self.ite = None           # (condition, value, value) of a conditional term
        self.lazy = None          # adds the defining constraint, called when the solver first sees the atom


class Poly:
    __slots__ = ("d", "_z")

    def __init__(self, d):
        self.d = d
        self._z = None

    # constructors -----------------------------------------------------
    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((a.idx, 1),): 1})

    # queries -----------------------------------------------------------
    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const_value(self):
        return self.d.get((), 0)

    def is_zero(self):
        return not self.d

    def single_atom(self):
        """(coefficient, Atom) when the poly is c*atom, else None."""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if len(m) == 1 and m[0][1] == 1:
                return c, engine().atoms[m[0][0]]
        return None

    def __eq__(self, other):
        return self.d == other.d

    __hash__ = None

    # arithmetic --------------------------------------------------------
    def add(self, o):
        if not self.d:
            return o
        if not o.d:
            return self
        r = dict(self.d)
        for m, c in o.d.items():
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s = _norm(s + c)
                if s:
                    r[m] = s
                else:
                    del r[m]
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.d.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.d.items()})

    def mul(self, o):
        if not self.d or not o.d:
            return Poly({})
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        if len(self.d) * len(o.d) > 60000:
            raise Unsupported("polynomial too large")
        atoms = engine().atoms
        r = {}
        todo = []
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mono_mul(m1, m2)
                c = _norm(c1 * c2)
                red = None
                for i, e in m:
                    if e >= 2 and atoms[i].sq is not None:
                        red = i
                        break
                if red is None:
                    s = r.get(m)
                    if s is None:
                        r[m] = c
                    else:
                        s = _norm(s + c)
                        if s:
                            r[m] = s
                        else:
                            del r[m]
                else:
                    todo.append((m, c, red))
        res = Poly(r)
        for m, c, i in todo:
            rest = []
            for j, e in m:
                if j == i:
                    if e > 2:
                        rest.append((j, e - 2))
                else:
                    rest.append((j, e))
            res = res.add(Poly({tuple(rest): c}).mul(atoms[i].sq))
        return res

    # z3 -----------------------------------------------------------------
    def z(self, real):
        """z3 term; integer sort when `real` is false."""
        if self._z is None:
            self._z = {}
        t = self._z.get(real)
        if t is not None:
            return t
        atoms = engine().atoms
        # clear denominators: keeps the numbers the solver sees small
        terms = []
        for m, c in self.d.items():
            fs = []
            for i, e in m:
                a = atoms[i]
                at = a.term
                if a.lazy is not None:
                    f, a.lazy = a.lazy, None
                    f()
                if real and a.isint:
                    at = z3.ToReal(at)
                fs += [at] * e
            if real:
                cz = z3.RealVal(str(c))
            else:
                if type(c) is Fraction:
                    raise Unsupported("fractional coefficient in integer term")
                cz = z3.IntVal(c)
            if not fs:
                terms.append(cz)
            else:
                p = fs[0] if len(fs) == 1 else z3.Product(*fs)
                terms.append(p if c == 1 else cz * p)
        if not terms:
            t = z3.RealVal(0) if real else z3.IntVal(0)
        elif len(terms) == 1:
            t = terms[0]
        else:
            t = z3.Sum(*terms)
        self._z[real] = t
        return t

    def int_valued(self):
        """All atoms and coefficients integer."""
        atoms = engine().atoms
        for m, c in self.d.items():
            if type(c) is Fraction:
                return False
            for i, _ in m:
                if not atoms[i].isint:
                    return False
        return True

    def key(self):
        return tuple(sorted((m, str(c)) for m, c in self.d.items()))

    def cleared(self):
        """An integer-coefficient positive multiple (same sign)."""
        l = 1
        for c in self.d.values():
            if type(c) is Fraction:
                q = c.denominator
                a, b = l, q
                while b:
                    a, b = b, a % b
                l = l // a * q
        return self if l == 1 else self.scale(l)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


ONE = Poly({(): 1})


# --------------------------------------------------------------------------
TEXT = None         # while a harness asks for text: the values written into it, as (value, format)


def text_token(v, plain, spec=""):
    """the text of a symbolic value: opaque, but the value can be found again"""
    if TEXT is None:
        return plain
    TEXT.append((v, spec))
    return "\u27e6%d\u27e7" % (len(TEXT) - 1)


class Sym:
    """Base class of every symbolic scalar."""
    __slots__ = ()
    __array_ufunc__ = None          # ndarray (op) Sym  ->  Sym.__rop__(ndarray)


def is_sym(x):
    return isinstance(x, Sym)


def _arr(op, arr, x, swap):
    """Elementwise op between an ndarray and a scalar."""
    from . import npshim
    return npshim.elementwise(op, arr, x, swap)


def num_const(x):
    """Exact value of a concrete number or None."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if isinf(x) or isnan(x):
            raise Unsupported("inf/nan in symbolic arithmetic")
        return _norm(Fraction(x))
    return None


class SymNum(Sym):
    """Symbolic int (Python semantics) or real number, kept as num/den."""
    __slots__ = ("n", "d", "isint", "_log2")

    def __init__(self, n, d=None, isint=False):
        self.n = n
        self.d = d
        self.isint = isint

    # -- construction -----------------------------------------------------
    @staticmethod
    def lift(x):
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            return SymNum.from_term(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), True)
        if isinstance(x, SymPInt):
            return x.to_num()
        if isinstance(x, SymBV):
            return x.to_num()
        c = num_const(x)
        if c is None:
            return None
        return SymNum(Poly.const(c), None,
                      not isinstance(x, (float, np.floating, Fraction)))

    @staticmethod
    def from_term(t, isint):
        return SymNum(Poly.atom(engine().atom_for(t, isint)), None, isint)

    @staticmethod
    def make(n, d, isint):
        if d is not None and d.is_const():
            n = n.scale(_norm(Fraction(1) / d.const_value()))
            d = None
        if d is not None and not n.d:
            d = None                    # 0/d; that d is not zero was checked at the division
        if d is not None and engine().algebra:
            from .algebra import cancel
            n, d = cancel(n, d)
            if d.is_const():
                return SymNum.make(n, d, isint)
        if isint and d is None and n.is_const():
            c = n.const_value()
            if type(c) is int:
                return c
        return SymNum(n, d, isint)

    def is_const(self):
        return self.d is None and self.n.is_const()

    def value(self):
        return self.n.const_value()

    # -- z3 ----------------------------------------------------------------
    def z(self):
        if self.isint:
            return self.n.z(False)
        if self.d is None:
            return self.n.z(True)
        return self.n.z(True) / self.d.z(True)

    def zr(self):
        if self.d is None:
            return self.n.z(True)
        return self.n.z(True) / self.d.z(True)

    # -- arithmetic ---------------------------------------------------------
    def _bin(self, o, f, name, swap=False):
        if isinstance(o, np.ndarray):
            return _arr(name, o, self, not swap)
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            a = SymComplex.lift(self)
            b = SymComplex.lift(o)
            if swap:
                a, b = b, a
            return getattr(a, name)(b)
        b = SymNum.lift(o)
        if b is None:
            return NotImplemented
        a = self
        if swap:
            a, b = b, a
        return f(a, b)

    @staticmethod
    def _add(a, b):
        isint = a.isint and b.isint
        if a.d is None and b.d is None:
            return SymNum.make(a.n.add(b.n), None, isint)
        if a.d is not None and b.d is not None and a.d.d == b.d.d:
            return SymNum.make(a.n.add(b.n), a.d, isint)
        ad = a.d or ONE
        bd = b.d or ONE
        return SymNum.make(a.n.mul(bd).add(b.n.mul(ad)), ad.mul(bd), isint)

    @staticmethod
    def _sub(a, b):
        return SymNum._add(a, SymNum(b.n.neg(), b.d, b.isint))

    @staticmethod
    def _mul(a, b):
        isint = a.isint and b.isint
        n = a.n.mul(b.n)
        if a.d is None and b.d is None:
            return SymNum.make(n, None, isint)
        if n.is_zero():
            return SymNum.make(n, None, isint)
        # cheap cancellation
        an, ad, bn, bd = a.n, a.d, b.n, b.d
        if bd is not None and an.d == bd.d:
            return SymNum.make(bn, ad, isint)
        if ad is not None and bn.d == ad.d:
            return SymNum.make(an, bd, isint)
        ad = ad or ONE
        bd = bd or ONE
        return SymNum.make(n, ad.mul(bd), isint)

    @staticmethod
    def _rounded_div(a, b):
        """/ of the language: exact, or with the rounding error of a double when the case asks for it"""
        q = SymNum._truediv(a, b)
        eng = engine()
        if not eng.fp_div or not isinstance(q, SymNum):
            return q
        if a.is_const() and b.is_const() or a.n.d == b.n.d and a.d is None and b.d is None:
            return q
        e = z3.Real(eng.fresh_name("round"))
        z = q.zr()
        u = z3.RealVal("1/9007199254740992")
        eng.add(z3.And(e <= z3.If(z >= 0, z, -z) * u, -e <= z3.If(z >= 0, z, -z) * u))
        return q + SymNum.from_term(e, False)

    @staticmethod
    def _truediv(a, b):
        if b.is_const():
            c = b.value()
            if c == 0:
                raise ZeroDivisionError("division by zero")
            return SymNum.make(a.n.scale(_norm(Fraction(1) / Fraction(c))),
                               a.d, False)
        eng = engine()
        if eng.div_check and not eng.nonzero_known(b.n):
            if eng.decide(b.n_cmp(0, "==")):
                raise ZeroDivisionError("division by zero")
            eng.note_nonzero(b.n)
        if a.d is None and b.d is None and a.n.d == b.n.d:
            return SymNum(ONE, None, False)
        # a.n*b.d / (a.d*b.n); a single sqrt atom in the denominator is
        # rationalised: 1/r = r/r^2
        n = a.n if b.d is None else a.n.mul(b.d)
        d = b.n if a.d is None else a.d.mul(b.n)
        s = d.single_atom()
        if s is not None and s[1].sq is not None:
            n = n.mul(d)
            d = d.mul(d)
        return SymNum.make(n, d, False)

    def n_cmp(self, c, op):
        """numerator compared with 0 (used for denominators)."""
        return _cmp_poly(self.n, op, self.isint)

    @staticmethod
    def _floordiv(a, b):
        if a.isint and b.isint:
            if b.is_const():
                c = b.value()
                if c == 0:
                    raise ZeroDivisionError("integer division by zero")
                if c > 0:
                    return SymNum.from_term(a.z() / z3.IntVal(c), True)
                # floor(a/c) = floor(-a/-c), z3 int division by positive floors
                return SymNum.from_term((-a.z()) / z3.IntVal(-c), True)
            if engine().decide(_cmp_poly(b.n, "==", True)):
                raise ZeroDivisionError("integer division by zero")
            if engine().decide(_cmp_poly(b.n, ">", True)):
                return SymNum.from_term(a.z() / b.z(), True)
            return SymNum.from_term((-a.z()) / (-b.z()), True)
        q = SymNum._truediv(a, b)
        return SymNum.lift(sym_floor(q)).to_real()

    @staticmethod
    def _mod(a, b):
        if a.isint and b.isint and b.is_const() and b.value() > 0:
            return SymNum.from_term(a.z() % z3.IntVal(b.value()), True)
        q = SymNum._floordiv(a, b)
        r = a - SymNum.lift(q) * b
        return r

    def to_real(self):
        return SymNum(self.n, self.d, False)

    def __add__(self, o): return self._bin(o, SymNum._add, "__add__")
    def __radd__(self, o): return self._bin(o, SymNum._add, "__add__", True)
    def __sub__(self, o): return self._bin(o, SymNum._sub, "__sub__")
    def __rsub__(self, o): return self._bin(o, SymNum._sub, "__sub__", True)
    def __mul__(self, o): return self._bin(o, SymNum._mul, "__mul__")
    def __rmul__(self, o): return self._bin(o, SymNum._mul, "__mul__", True)
    def __truediv__(self, o): return self._bin(o, SymNum._rounded_div, "__truediv__")
    def __rtruediv__(self, o): return self._bin(o, SymNum._rounded_div, "__truediv__", True)
    def __floordiv__(self, o): return self._bin(o, SymNum._floordiv, "__floordiv__")
    def __rfloordiv__(self, o): return self._bin(o, SymNum._floordiv, "__floordiv__", True)
    def __mod__(self, o): return self._bin(o, SymNum._mod, "__mod__")
    def __rmod__(self, o): return self._bin(o, SymNum._mod, "__mod__", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self): return SymNum(self.n.neg(), self.d, self.isint)
    def __pos__(self): return self

    def __abs__(self):
        if self.is_const():
            return SymNum.make(Poly.const(abs(self.value())), None, self.isint)
        if sqrt_info(self) is not None:
            return self
        c = self >= 0
        if isinstance(c, bool):
            return self if c else -self
        e = engine()
        if e.algebra:
            return self if e.decide(c) else -self
        if self.d is None and not self.isint and all(len(m) <= 1 and all(k == 1 for _, k in m) for m in self.n.d):
            r = poly_range(self.n)
            if r is not None:
                # one unknown for |x| and |-x|, defined when the solver first sees it
                p = self.n
                q = p.neg()
                if str(q.key()) < str(p.key()):
                    p = q
                x = SymNum(p, None, False)
                return e.define_real(("abs", p.key()), (0.0, max(-r[0], r[1])),
                                     lambda t: t == z3.If(x.zr() >= 0, x.zr(), -x.zr()))
        known = e.known(c.e)
        if known is not None:
            return self if known else -self
        return ite(c, self, -self)

    def __pow__(self, k):
        if isinstance(k, np.ndarray):
            return _arr("__pow__", k, self, True)
        if isinstance(k, (float, np.floating)) and float(k) == 0.5:
            return self.sqrt()
        if isinstance(k, (float, np.floating)) and float(k).is_integer():
            k = int(k)
        if isinstance(k, SymNum) and k.isint:
            k = int(k)
        if not isinstance(k, (int, np.integer)):
            raise Unsupported("power with symbolic or fractional exponent")
        k = int(k)
        if k < 0:
            return 1 / (self ** (-k))
        r = 1 if self.isint else SymNum(ONE, None, False)
        b = self
        while k:
            if k & 1:
                r = b * r
            k >>= 1
            if k:
                b = b * b
        return r

    def __rpow__(self, b):
        if isinstance(b, (int, np.integer)) and self.isint:
            return b ** int(self)
        raise Unsupported("symbolic exponent")

    # -- comparisons --------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr({"<": "__lt__", "<=": "__le__", ">": "__gt__",
                         ">=": "__ge__", "==": "__eq__", "!=": "__ne__"}[op],
                        o, self, True)
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            if op in ("==", "!="):
                return SymComplex.lift(self)._eq(SymComplex.lift(o), op)
            return NotImplemented
        if isinstance(o, (float, np.floating)) and isinf(float(o)):
            pos = float(o) > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos,
                    "==": False, "!=": True}[op]
        if isinstance(o, (SymPInt, SymBV)):
            o = o.to_num()
        b = SymNum.lift(o)
        if b is None:
            return NotImplemented
        return compare(self, b, op)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        return truth(self != 0)

    def __hash__(self):
        if self.isint or self.is_const():
            return hash(self.__int__()) if self.isint else hash(self.value())
        raise Unsupported("hash of a symbolic real")

    # -- conversions ---------------------------------------------------------
    def __int__(self):
        if self.isint:
            if self.is_const():
                return self.value()
            r = num_range(self)
            if r is not None:
                import math
                if math.ceil(r[0]) == math.floor(r[1]):
                    return math.floor(r[1])
            return engine().concretize(self.z(), rng=r)
        if self.is_const():
            return int(self.value())
        t = sym_trunc(self)
        return t if isinstance(t, int) else int(t)

    def __index__(self):
        if not self.isint:
            raise TypeError("not an integer")
        return int(self)

    def __float__(self):
        if self.is_const():
            return float(self.value())
        if self.isint:
            return float(int(self))
        raise Unsupported("float() of a symbolic real")

    def __complex__(self):
        return complex(float(self))

    def __trunc__(self): return sym_trunc(self)
    def __floor__(self): return sym_floor(self)
    def __ceil__(self): return -(-self).__floor__() if not self.isint else self
    def floor(self): return _keepreal(sym_floor(self))
    def ceil(self): return _keepreal(self.__ceil__())
    def trunc(self): return _keepreal(sym_trunc(self))
    def rint(self): return _keepreal(sym_rint(self))

    def __round__(self, nd=None):
        if nd is None:
            return sym_rint(self)
        if self.isint:
            return self
        k = 10 ** int(nd)
        return _keepreal(sym_rint(self * k)) / k

    def round(self, decimals=0, out=None):
        return self.__round__(decimals)

    @property
    def real(self): return self

    @property
    def imag(self): return 0 if self.isint else 0.0

    def conjugate(self): return self
    conj = conjugate

    def is_integer(self):
        if self.isint:
            return True
        return self == sym_floor(self)

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic int")

    def sqrt(self): return sym_sqrt(self)
    def sin(self): return engine().trig(self)[0]
    def cos(self): return engine().trig(self)[1]

    def tan(self):
        s, c = engine().trig(self)
        return s / c

    def __repr__(self):
        return text_token(self, "<sym>")

    __str__ = __repr__

    def __format__(self, spec):
        return text_token(self, "<sym>", spec)

    # bit operations on mathematical ints: concretise
    def __lshift__(self, o):
        return int(self) << int(o)

    def __rlshift__(self, o):
        if type(o) is int and self.isint and self.d is None:
            p = engine().pow2(self)
            if p is not None:
                return p * o
        return o << int(self)

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o): return int(self) | int(o)
    __ror__ = __or__
    def __xor__(self, o): return int(self) ^ int(o)
    __rxor__ = __xor__


def _keepreal(x):
    if isinstance(x, int):
        return float(x)
    return x.to_real()


def sqrt_info(a):
    """(positive coefficient, num, den) when a == c*sqrt(num/den), c > 0."""
    if a.d is not None:
        return None
    s = a.n.single_atom()
    if s is None or s[1].sqrt_of is None or s[0] <= 0:
        return None
    return s[0], s[1].sqrt_of


def compare(a, b, op):
    # sqrt against constant or sqrt: compare squares
    ia, ib = sqrt_info(a), sqrt_info(b)
    if ia is not None and (ib is not None or b.is_const()):
        if ib is None and b.value() < 0:
            return op in (">", ">=", "!=")
        return compare(_sq(a, ia), _sq(b, ib), op)
    if ib is not None and a.is_const():
        if a.value() < 0:
            return op in ("<", "<=", "!=")
        return compare(_sq(a, None), _sq(b, ib), op)
    isint = a.isint and b.isint
    if a.d is None and b.d is None:
        return _cmp_poly(a.n.sub(b.n), op, isint)
    ad = a.d or ONE
    bd = b.d or ONE
    if a.d is not None and b.d is not None and a.d.d == b.d.d:
        num, den = a.n.sub(b.n), ad
    else:
        num, den = a.n.mul(bd).sub(b.n.mul(ad)), ad.mul(bd)
    if op in ("==", "!="):
        return _cmp_poly(num, op, isint)
    sg = engine().sign_known(den)
    if sg == 0:
        return _cmp_poly(num.mul(den), op, isint)
    return _cmp_poly(num if sg > 0 else num.neg(), op, isint)


def _sq(x, info):
    if info is None:
        c = x.value()
        return SymNum(Poly.const(c * c), None, False)
    c, (n, d) = info
    return SymNum.make(n.scale(_norm(Fraction(c) * c)), d, False)


def poly_range(p):
    """float (lo, hi) enclosing the values of p, from the ranges of its atoms; None if unknown"""
    atoms = engine().atoms
    lo = hi = mag = 0.0
    for m, c in p.d.items():
        a = b = float(c)
        for i, e in m:
            at = atoms[i]
            r = at.rng
            if r is None:
                if at.bound is None:
                    return None
                r = (-at.bound, at.bound)
            if e % 2 == 0:
                x, y = abs(r[0]) ** e, abs(r[1]) ** e
                u, v = (0.0 if r[0] <= 0 <= r[1] else min(x, y)), max(x, y)
            else:
                u, v = r[0] ** e, r[1] ** e
            ps = (a * u, a * v, b * u, b * v)
            a, b = min(ps), max(ps)
        lo += a
        hi += b
        mag += max(abs(a), abs(b))
    mag *= 1e-9
    return lo - mag, hi + mag


def num_range(x):
    """float enclosure of a number, or None"""
    if not isinstance(x, Sym):
        return (float(x), float(x))
    if not isinstance(x, SymNum):
        return None
    r = poly_range(x.n)
    if r is None or x.d is None:
        return r
    q = poly_range(x.d)
    if q is None or q[0] <= 0 <= q[1]:
        return None
    ps = [a / b for a in r for b in q]
    return min(ps), max(ps)


def _cmp_poly(p, op, isint):
    """p (op) 0 as bool or SymBool."""
    if p.is_const():
        c = p.const_value()
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                "==": c == 0, "!=": c != 0}[op]
    r = poly_range(p)
    if r is not None:
        if r[0] > 0:
            return op in (">", ">=", "!=")
        if r[1] < 0:
            return op in ("<", "<=", "!=")
    p = p.cleared()
    real = not (isint or p.int_valued())
    t = p.z(real)
    zero = z3.RealVal(0) if real else z3.IntVal(0)
    if op == "<":
        e = t < zero
    elif op == "<=":
        e = t <= zero
    elif op == ">":
        e = t > zero
    elif op == ">=":
        e = t >= zero
    elif op == "==":
        e = t == zero
    else:
        e = t != zero
    return SymBool(e)


def sym_floor(x):
    if not isinstance(x, SymNum):
        import math
        return math.floor(x)
    if x.isint:
        return x
    if x.is_const():
        import math
        return math.floor(x.value())
    if x.d is None and x.n.int_valued():
        return SymNum(x.n, None, True)
    if x.d is None:
        # floor(I + R) = I + floor(R) for the integer-valued part I
        atoms = engine().atoms
        ip = {m: c for m, c in x.n.d.items()
              if type(c) is not Fraction and all(atoms[i].isint for i, _ in m)}
        if ip and len(ip) < len(x.n.d):
            rest = SymNum(Poly({m: c for m, c in x.n.d.items() if m not in ip}), None, False)
            return SymNum(Poly(ip), None, True) + sym_floor(rest)
    r = num_range(x)
    if r is not None:
        import math
        r = (math.floor(r[0]), math.floor(r[1]))
        if r[0] == r[1]:
            return r[0]
    # definitional: k integer with k <= x < k+1
    return engine().define_int("fl", x, lambda k: z3.And(
        as_z3(k <= x), as_z3(x < k + 1)), r)


def to_double(x):
    """an integer converted to the nearest double (ties to even), as a real; exact up to 2**53"""
    if isinstance(x, SymPInt):
        return x.to_double()
    if not x.isint or x.d is not None:
        return x.to_real()
    eng = engine()
    b = eng.int_bound(x)
    if b is None or b <= 1 << 53 or b >= 1 << 80 or not eng.decide(s_or(SymBool(as_z3(x > 1 << 53)), SymBool(as_z3(x < -(1 << 53))))):
        return x.to_real()

    def defn(r):
        zx, zr = x.z(), r.z()
        ax, ar = z3.If(zx >= 0, zx, -zx), z3.If(zx >= 0, zr, -zr)
        out = []
        for e in range(53, b.bit_length() + 1):
            q = 1 << (e - 52)
            d = z3.If(ar >= ax, ar - ax, ax - ar)
            out.append(z3.Implies(z3.And(ax >= 1 << e, ax < 1 << (e + 1)), z3.And(
                ar % q == 0, 2 * d <= q, z3.Implies(2 * d == q, ar % (2 * q) == 0))))
        return z3.And(*out)
    return eng.define_int("dbl", x, defn, (-2 * b, 2 * b)).to_real()


def sym_trunc(x):
    if not isinstance(x, SymNum):
        return int(x)
    if x.isint:
        return x
    if x.is_const():
        return int(x.value())
    if x.d is None and x.n.int_valued():
        return SymNum(x.n, None, True)
    pos = x >= 0
    if isinstance(pos, bool):
        return sym_floor(x) if pos else -sym_floor(-x)
    kn = engine().known(pos.e)
    if kn is not None:
        return sym_floor(x) if kn else -sym_floor(-x)
    return engine().define_int("tr", x, lambda k: z3.If(
        pos.e,
        z3.And(as_z3(k <= x), as_z3(x < k + 1)),
        z3.And(as_z3(k >= x), as_z3(x > k - 1))))


def sym_rint(x):
    """round half to even"""
    if not isinstance(x, SymNum):
        return round(x)
    if x.isint:
        return x
    if x.is_const():
        return round(Fraction(x.value()))
    if x.d is None and x.n.int_valued():
        return SymNum(x.n, None, True)
    h = Fraction(1, 2)
    r = num_range(x)
    if r is not None:
        import math
        r = (math.floor(r[0] + 0.5 - 1e-12), math.floor(r[1] + 0.5 + 1e-12))
        if r[0] == r[1]:
            return r[0]

    def defn(k):
        even = (k.z() % z3.IntVal(2)) == 0
        return z3.And(as_z3(k - h <= x), as_z3(x <= k + h),
                      z3.Or(z3.And(as_z3(k - h < x), as_z3(x < k + h)), even))
    return engine().define_int("ri", x, defn, r)


def as_z3(b):
    if isinstance(b, SymBool):
        return b.e
    return z3.BoolVal(bool(b))


def sym_sqrt(x):
    if isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
        import math
        if x < 0:
            raise Unsupported("sqrt of negative")
        return math.sqrt(x)
    if isinstance(x, SymPInt):
        x = x.to_num()
    return engine().sqrt(x)


# --------------------------------------------------------------------------
class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def make(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def __bool__(self):
        return engine().decide(self)

    @staticmethod
    def _z(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return _arr("__and__", o, self, True)
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        z = self._z(o)
        if z is None:
            return NotImplemented
        return SymBool(z3.And(self.e, z))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return _arr("__or__", o, self, True)
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        z = self._z(o)
        if z is None:
            return NotImplemented
        return SymBool(z3.Or(self.e, z))
    __ror__ = __or__

    def __xor__(self, o):
        z = self._z(o)
        if z is None:
            if isinstance(o, (int, SymNum, SymPInt, SymBV)):
                return SymPInt.from_bool(self) ^ o
            return NotImplemented
        return SymBool(z3.Xor(self.e, z))
    __rxor__ = __xor__

    def __invert__(self): return SymBool(z3.Not(self.e))
    def logical_not(self): return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        z = self._z(o)
        if z is None:
            return SymNum.lift(self) == o
        return SymBool(self.e == z)

    def __ne__(self, o):
        z = self._z(o)
        if z is None:
            return SymNum.lift(self) != o
        return SymBool(self.e != z)

    def __lt__(self, o): return SymNum.lift(self) < o
    def __le__(self, o): return SymNum.lift(self) <= o
    def __gt__(self, o): return SymNum.lift(self) > o
    def __ge__(self, o): return SymNum.lift(self) >= o
    def __add__(self, o): return SymNum.lift(self) + o
    def __radd__(self, o): return o + SymNum.lift(self)
    def __sub__(self, o): return SymNum.lift(self) - o
    def __rsub__(self, o): return o - SymNum.lift(self)
    def __mul__(self, o): return SymNum.lift(self) * o
    def __rmul__(self, o): return o * SymNum.lift(self)
    def __neg__(self): return -SymNum.lift(self)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __hash__(self): return hash(bool(self))
    def __float__(self): return float(bool(self))
    def __repr__(self): return "<symbool>"
    __str__ = __repr__


def truth(x):
    return x if isinstance(x, bool) else bool(x)


def s_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


def s_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))


def s_not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def s_implies(a, b):
    return s_or(s_not(a), b)


def s_iff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    return SymBool(as_z3(a) == as_z3(b))


# --------------------------------------------------------------------------
class SymPInt(Sym):
    """
    Python int as a bit-vector that never overflows: the width grows with the
    value interval [lo, hi].
    """
    __slots__ = ("t", "lo", "hi", "log2")

    def __init__(self, t, lo, hi, log2=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.log2 = log2

    @staticmethod
    def width_for(lo, hi):
        w = max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(),
                hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1
        if w > 640:
            raise Unsupported("symbolic int too wide")
        return w

    @staticmethod
    def const(v):
        return SymPInt(z3.BitVecVal(v, SymPInt.width_for(v, v)), v, v)

    @staticmethod
    def lift(x):
        if isinstance(x, SymPInt):
            return x
        if isinstance(x, SymBool):
            return SymPInt.from_bool(x)
        if isinstance(x, (bool, np.bool_, int, np.integer)):
            return SymPInt.const(int(x))
        if isinstance(x, SymBV):
            return x.to_pint()
        return None

    @staticmethod
    def from_bool(b):
        return SymPInt(z3.If(b.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    @property
    def w(self):
        return self.t.size()

    def ext(self, w):
        k = w - self.t.size()
        if k == 0:
            return self.t
        if k < 0:
            return z3.Extract(w - 1, 0, self.t)
        return z3.SignExt(k, self.t) if self.lo < 0 else z3.ZeroExt(k, self.t)

    @staticmethod
    def _mk(t, lo, hi, log2=None):
        t = z3.simplify(t) if lo == hi else t
        if lo == hi:
            return lo
        w = SymPInt.width_for(lo, hi)
        if t.size() > w:
            t = z3.Extract(w - 1, 0, t)
        return SymPInt(t, lo, hi, log2)

    def _bin(self, o, f, name, swap=False):
        if isinstance(o, np.ndarray):
            return _arr(name, o, self, not swap)
        if isinstance(o, SymBV):
            a = SymBV.lift(self, True)
            return getattr(o if swap else a, name)(a if swap else o)
        if isinstance(o, (float, np.floating, complex, SymNum, SymComplex)):
            a = self.to_num()
            return getattr(o if swap else a, name)(a if swap else o) \
                if isinstance(o, Sym) or not swap else \
                getattr(a, "__r" + name[2:])(o)
        b = SymPInt.lift(o)
        if b is None:
            return NotImplemented
        return f(b, self) if swap else f(self, b)

    @staticmethod
    def _add(a, b):
        lo, hi = a.lo + b.lo, a.hi + b.hi
        w = SymPInt.width_for(lo, hi)
        w = max(w, a.w, b.w)
        return SymPInt._mk(a.ext(w) + b.ext(w), lo, hi)

    @staticmethod
    def _sub(a, b):
        lo, hi = a.lo - b.hi, a.hi - b.lo
        w = max(SymPInt.width_for(lo, hi), a.w, b.w)
        return SymPInt._mk(a.ext(w) - b.ext(w), lo, hi)

    @staticmethod
    def _mul(a, b):
        vals = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(vals), max(vals)
        w = max(SymPInt.width_for(lo, hi), a.w, b.w)
        return SymPInt._mk(a.ext(w) * b.ext(w), lo, hi)

    @staticmethod
    def _shl(a, b):
        if b.lo < 0:
            if engine().decide(SymBool(b.t < 0)):
                raise ValueError("negative shift count")
            b = SymPInt(b.t, 0, b.hi)
        if b.hi > 300:
            raise Unsupported("shift too large")
        vals = [a.lo << b.lo, a.lo << b.hi, a.hi << b.lo, a.hi << b.hi]
        lo, hi = min(vals), max(vals)
        w = max(SymPInt.width_for(lo, hi), a.w, b.w)
        log2 = None
        if a.lo == a.hi == 1:
            log2 = b
        return SymPInt._mk(a.ext(w) << b.ext(w), lo, hi, log2)

    @staticmethod
    def _shr(a, b):
        if b.lo < 0:
            if engine().decide(SymBool(b.t < 0)):
                raise ValueError("negative shift count")
            b = SymPInt(b.t, 0, b.hi)
        w = max(a.w, b.w)
        lo = (a.lo >> b.hi) if a.lo >= 0 else (a.lo >> b.lo)
        hi = (a.hi >> b.lo) if a.hi >= 0 else -1
        if a.lo >= 0:
            t = z3.LShR(a.ext(w), b.ext(w))
        else:
            t = a.ext(w) >> b.ext(w)
        return SymPInt._mk(t, lo, hi)

    @staticmethod
    def _and(a, b):
        w = max(a.w, b.w)
        if a.lo >= 0 and b.lo >= 0:
            lo, hi = 0, min(a.hi, b.hi)
        elif a.lo >= 0:
            lo, hi = 0, a.hi
        elif b.lo >= 0:
            lo, hi = 0, b.hi
        else:
            m = max(a.w, b.w) - 1
            lo, hi = -(1 << m), (1 << m) - 1
        return SymPInt._mk(a.ext(w) & b.ext(w), lo, hi)

    @staticmethod
    def _or(a, b):
        w = max(a.w, b.w)
        if a.lo >= 0 and b.lo >= 0:
            lo = max(a.lo, b.lo)
            hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return SymPInt._mk(a.ext(w) | b.ext(w), lo, hi)

    @staticmethod
    def _xor(a, b):
        w = max(a.w, b.w)
        if a.lo >= 0 and b.lo >= 0:
            lo = 0
            hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return SymPInt._mk(a.ext(w) ^ b.ext(w), lo, hi)

    @staticmethod
    def _nonneg(a, b):
        if a.lo < 0 or b.lo < 0:
            raise Unsupported("division of negative bit-vector ints")

    @staticmethod
    def _floordiv(a, b):
        SymPInt._nonneg(a, b)
        if b.log2 is not None:
            return SymPInt._shr(a, SymPInt.lift(b.log2))
        if b.lo == b.hi and b.lo > 0 and b.lo & (b.lo - 1) == 0:
            return SymPInt._shr(a, SymPInt.const(b.lo.bit_length() - 1))
        if b.lo == 0 and engine().decide(SymBool(b.t == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        w = max(a.w, b.w)
        return SymPInt._mk(z3.UDiv(a.ext(w), b.ext(w)), 0,
                           a.hi // max(b.lo, 1))

    @staticmethod
    def _mod(a, b):
        if b.lo == b.hi and b.lo > 0 and b.lo & (b.lo - 1) == 0:
            return SymPInt._and(a, SymPInt.const(b.lo - 1))
        SymPInt._nonneg(a, b)
        if b.log2 is not None:
            return SymPInt._and(a, SymPInt.lift(SymPInt._sub(b, SymPInt.const(1))))
        if b.lo == 0 and engine().decide(SymBool(b.t == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        w = max(a.w, b.w)
        return SymPInt._mk(z3.URem(a.ext(w), b.ext(w)), 0, b.hi - 1)

    def __add__(self, o): return self._bin(o, self._add, "__add__")
    def __radd__(self, o): return self._bin(o, self._add, "__add__", True)
    def __sub__(self, o): return self._bin(o, self._sub, "__sub__")
    def __rsub__(self, o): return self._bin(o, self._sub, "__sub__", True)
    def __mul__(self, o): return self._bin(o, self._mul, "__mul__")
    def __rmul__(self, o): return self._bin(o, self._mul, "__mul__", True)
    def __lshift__(self, o): return self._bin(o, self._shl, "__lshift__")
    def __rlshift__(self, o): return self._bin(o, self._shl, "__lshift__", True)
    def __rshift__(self, o): return self._bin(o, self._shr, "__rshift__")
    def __rrshift__(self, o): return self._bin(o, self._shr, "__rshift__", True)
    def __and__(self, o): return self._bin(o, self._and, "__and__")
    def __rand__(self, o): return self._bin(o, self._and, "__and__", True)
    def __or__(self, o): return self._bin(o, self._or, "__or__")
    def __ror__(self, o): return self._bin(o, self._or, "__or__", True)
    def __xor__(self, o): return self._bin(o, self._xor, "__xor__")
    def __rxor__(self, o): return self._bin(o, self._xor, "__xor__", True)
    def __floordiv__(self, o): return self._bin(o, self._floordiv, "__floordiv__")
    def __rfloordiv__(self, o): return self._bin(o, self._floordiv, "__floordiv__", True)
    def __mod__(self, o): return self._bin(o, self._mod, "__mod__")
    def __rmod__(self, o): return self._bin(o, self._mod, "__mod__", True)
    def __truediv__(self, o): return self.to_num() / (o.to_num() if isinstance(o, SymPInt) else o)
    def __rtruediv__(self, o): return o / self.to_num()

    def __neg__(self): return 0 - self
    def __pos__(self): return self
    def __invert__(self): return -1 - self
    def __abs__(self): return self if self.lo >= 0 else ite(self >= 0, self, -self)

    def __pow__(self, k):
        k = int(k)
        r = 1
        for _ in range(k):
            r = self * r
        return r

    def __rpow__(self, b):
        if isinstance(b, int) and b == 2:
            return 1 << self
        return b ** int(self)

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr({"<": "__lt__", "<=": "__le__", ">": "__gt__",
                         ">=": "__ge__", "==": "__eq__", "!=": "__ne__"}[op],
                        o, self, True)
        if isinstance(o, SymBV):
            return SymBV.lift(self, True)._cmp(o, op)
        if isinstance(o, (float, np.floating, SymNum, complex, SymComplex)):
            if isinstance(o, (float, np.floating)) and float(o).is_integer():
                o = int(o)
            else:
                return self.to_num()._cmp(o, op)
        b = SymPInt.lift(o)
        if b is None:
            return NotImplemented
        a = self
        if op in ("<", "<=") and (a.hi < b.lo or (op == "<=" and a.hi <= b.lo)):
            return True
        if op in ("<", "<=") and (a.lo > b.hi or (op == "<" and a.lo >= b.hi)):
            return False
        if op in (">", ">="):
            return b._cmp(a, "<" if op == ">" else "<=")
        if op in ("==", "!=") and (a.hi < b.lo or a.lo > b.hi):
            return op == "!="
        w = max(a.w, b.w)
        x, y = a.ext(w), b.ext(w)
        e = {"<": lambda: x < y, "<=": lambda: x <= y,
             "==": lambda: x == y, "!=": lambda: x != y}[op]()
        return SymBool.make(z3.simplify(e) if a.lo == a.hi and b.lo == b.hi else e)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self): return truth(self != 0)
    def __hash__(self): return hash(int(self))

    def __int__(self):
        v = engine().concretize(self.t, signed=True)
        return v

    __index__ = __int__
    def __float__(self): return float(int(self))
    def __trunc__(self): return self
    def __floor__(self): return self
    def __round__(self, n=None): return self

    def to_num(self):
        return SymNum.from_term(
            z3.BV2Int(self.t, is_signed=self.lo < 0), True)

    def to_double(self):
        """the double nearest to this integer (ties to even), as a real"""
        if self.lo < -(1 << 53):
            raise Unsupported("large negative int to float")
        if self.hi <= 1 << 53:
            return self.to_num().to_real()
        top = self.hi.bit_length()
        w = top + 2
        v = self.ext(w)
        r = v
        for e in range(53, top):
            # 2**e <= v < 2**(e+1): multiples of 2**(e-52)
            k = e - 52
            half = z3.BitVecVal((1 << (k - 1)) - 1, w)
            odd = z3.ZeroExt(w - 1, z3.Extract(k, k, v))
            q = (v + half + odd) & z3.BitVecVal(((1 << w) - 1) ^ ((1 << k) - 1), w)
            r = z3.If(v >= z3.BitVecVal(1 << e, w), q, r)
        return SymPInt(z3.simplify(r), self.lo, 1 << top).to_num().to_real()

    @staticmethod
    def of_real(x):
        """the integer whose value as a real this is, or None"""
        at = x.n.single_atom() if x.d is None else None
        if at is None or at[0] != 1 or not z3.is_app_of(at[1].term, z3.Z3_OP_BV2INT):
            return None
        t = at[1].term.arg(0)
        return SymPInt(z3.ZeroExt(1, t), 0, (1 << t.size()) - 1)

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def conjugate(self): return self

    def bit_length(self):
        if self.lo < 0:
            raise Unsupported("bit_length of negative")
        w = self.w
        r = SymPInt.const(0)
        n = self.hi.bit_length()
        t = z3.BitVecVal(0, 16)
        for i in range(n):
            t = z3.If(z3.Extract(i, i, self.t) == 1, z3.BitVecVal(i + 1, 16), t)
        return SymPInt._mk(t, 0, n)

    def bit_count(self):
        if self.lo < 0:
            raise Unsupported("bit_count of negative")
        n = self.hi.bit_length()
        r = 0
        for i in range(n):
            r = r + SymPInt(z3.ZeroExt(1, z3.Extract(i, i, self.t)), 0, 1)
        return r

    def __repr__(self): return text_token(self, "<symint>")
    __str__ = __repr__
    def __format__(self, s): return text_token(self, "<symint>", s)


# --------------------------------------------------------------------------
class U64(int):
    """a concrete unsigned 64-bit value inside compiled code (it stays unsigned among its own kind)"""
    __slots__ = ()


def _u64op(name):
    f = getattr(int, name)

    def op(self, o):
        r = f(self, o)
        return U64(r & (2 ** 64 - 1)) if isinstance(o, U64) and r is not NotImplemented else r
    return op


for _n in ("add", "sub", "mul", "and", "or", "xor", "lshift", "rshift", "floordiv", "mod"):
    setattr(U64, "__%s__" % _n, _u64op("__%s__" % _n))


class SymBV(Sym):
    """Fixed-width (64-bit) integer with numba/numpy arithmetic."""
    __slots__ = ("t", "signed")

    def __init__(self, t, signed):
        self.t = t
        self.signed = signed

    W = 64

    @staticmethod
    def lift(x, signed=True):
        if isinstance(x, SymBV):
            return x
        if isinstance(x, SymBool):
            return SymBV(z3.If(x.e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), signed)
        if isinstance(x, SymPInt):
            return SymBV(x.ext(64), signed)
        if isinstance(x, (U64, np.unsignedinteger)):
            return SymBV(z3.BitVecVal(int(x), 64), False)
        if isinstance(x, (bool, int, np.integer, np.bool_)):
            return SymBV(z3.BitVecVal(int(x), 64), signed)
        if isinstance(x, SymNum) and x.isint:
            return SymBV(z3.Int2BV(x.z(), 64), signed)
        return None

    def _bin(self, o, f, name, swap=False):
        if isinstance(o, np.ndarray):
            return _arr(name, o, self, not swap)
        if isinstance(o, (float, np.floating, complex, np.complexfloating, SymComplex)) or \
                (isinstance(o, SymNum) and not o.isint):
            a = self.to_num().to_real()
            if isinstance(o, Sym):
                return getattr(o if swap else a, name)(a if swap else o)
            return getattr(a, ("__r" + name[2:]) if swap else name)(o)
        b = SymBV.lift(o, True)
        if b is None:
            return NotImplemented
        a = self
        if swap:
            a, b = b, a
        signed = a.signed or b.signed
        t = f(a, b, signed)
        if z3.is_bv_value(a.t) and z3.is_bv_value(b.t):
            t = z3.simplify(t)
        return SymBV(t, signed)

    def __add__(self, o): return self._bin(o, lambda a, b, s: a.t + b.t, "__add__")
    def __radd__(self, o): return self._bin(o, lambda a, b, s: a.t + b.t, "__add__", True)
    def __sub__(self, o): return self._bin(o, lambda a, b, s: a.t - b.t, "__sub__")
    def __rsub__(self, o): return self._bin(o, lambda a, b, s: a.t - b.t, "__sub__", True)
    def __mul__(self, o): return self._bin(o, lambda a, b, s: a.t * b.t, "__mul__")
    def __rmul__(self, o): return self._bin(o, lambda a, b, s: a.t * b.t, "__mul__", True)
    def __and__(self, o): return self._bin(o, lambda a, b, s: a.t & b.t, "__and__")
    def __rand__(self, o): return self._bin(o, lambda a, b, s: a.t & b.t, "__and__", True)
    def __or__(self, o): return self._bin(o, lambda a, b, s: a.t | b.t, "__or__")
    def __ror__(self, o): return self._bin(o, lambda a, b, s: a.t | b.t, "__or__", True)
    def __xor__(self, o): return self._bin(o, lambda a, b, s: a.t ^ b.t, "__xor__")
    def __rxor__(self, o): return self._bin(o, lambda a, b, s: a.t ^ b.t, "__xor__", True)
    def __lshift__(self, o): return self._bin(o, lambda a, b, s: a.t << b.t, "__lshift__")
    def __rlshift__(self, o): return self._bin(o, lambda a, b, s: a.t << b.t, "__lshift__", True)

    @staticmethod
    def _shr(a, b, s):
        return (a.t >> b.t) if s else z3.LShR(a.t, b.t)

    def __rshift__(self, o): return self._bin(o, self._shr, "__rshift__")
    def __rrshift__(self, o): return self._bin(o, self._shr, "__rshift__", True)

    @staticmethod
    def _div(a, b, s):
        if engine().decide(SymBool(b.t == 0)):
            raise ZeroDivisionError("division by zero")
        if not s:
            return z3.UDiv(a.t, b.t)
        q = a.t / b.t
        r = z3.SRem(a.t, b.t)
        return z3.If(z3.And(r != 0, (r < 0) != (b.t < 0)), q - 1, q)

    @staticmethod
    def _modf(a, b, s):
        if engine().decide(SymBool(b.t == 0)):
            raise ZeroDivisionError("modulo by zero")
        if not s:
            return z3.URem(a.t, b.t)
        return a.t % b.t      # bvsmod: sign follows divisor

    def __floordiv__(self, o): return self._bin(o, self._div, "__floordiv__")
    def __rfloordiv__(self, o): return self._bin(o, self._div, "__floordiv__", True)
    def __mod__(self, o): return self._bin(o, self._modf, "__mod__")
    def __rmod__(self, o): return self._bin(o, self._modf, "__mod__", True)
    def __truediv__(self, o): return self.to_num() / (o.to_num() if isinstance(o, (SymBV, SymPInt)) else o)
    def __rtruediv__(self, o): return o / self.to_num()

    def __neg__(self): return SymBV(-self.t, True)
    def __pos__(self): return self
    def __invert__(self): return SymBV(~self.t, self.signed)
    def __abs__(self): return SymBV(z3.If(self.t < 0, -self.t, self.t), True) if self.signed else self

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr({"<": "__lt__", "<=": "__le__", ">": "__gt__",
                         ">=": "__ge__", "==": "__eq__", "!=": "__ne__"}[op],
                        o, self, True)
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, SymNum):
            return self.to_num()._cmp(o, op)
        b = SymBV.lift(o, True)
        if b is None:
            return NotImplemented
        x, y = self.t, b.t
        # numba compares mixed signedness as signed after a sign check; the
        # values here are below 2**63 except for unsigned operands
        if op == "==":
            return SymBool.make(x == y)
        if op == "!=":
            return SymBool.make(x != y)
        if self.signed and b.signed:
            e = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        elif not self.signed and not b.signed:
            e = {"<": z3.ULT(x, y), "<=": z3.ULE(x, y),
                 ">": z3.UGT(x, y), ">=": z3.UGE(x, y)}[op]
        else:
            # exact comparison of a signed and an unsigned value
            X = z3.SignExt(1, x) if self.signed else z3.ZeroExt(1, x)
            Y = z3.SignExt(1, y) if b.signed else z3.ZeroExt(1, y)
            e = {"<": X < Y, "<=": X <= Y, ">": X > Y, ">=": X >= Y}[op]
        return SymBool.make(e)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self): return truth(self != 0)
    def __hash__(self): return hash(int(self))

    def __int__(self):
        return engine().concretize(self.t, signed=self.signed)

    __index__ = __int__
    def __float__(self): return float(int(self))

    def to_num(self):
        return SymNum.from_term(z3.BV2Int(self.t, is_signed=self.signed), True)

    def to_pint(self):
        if self.signed:
            return SymPInt(self.t, -(1 << 63), (1 << 63) - 1)
        return SymPInt(z3.ZeroExt(1, self.t), 0, (1 << 64) - 1)

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def conjugate(self): return self
    def __repr__(self): return text_token(self, "<symbv>")
    __str__ = __repr__
    def __format__(self, s): return text_token(self, "<symbv>", s)


# --------------------------------------------------------------------------
class SymComplex(Sym):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def lift(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymComplex(float(x.real), float(x.imag))
        if isinstance(x, (SymPInt, SymBV)):
            x = x.to_num()
        if isinstance(x, (Sym, int, float, np.number, Fraction)):
            return SymComplex(x, 0.0)
        return None

    def _bin(self, o, f, name, swap=False):
        if isinstance(o, np.ndarray):
            return _arr(name, o, self, not swap)
        b = SymComplex.lift(o)
        if b is None:
            return NotImplemented
        return f(b, self) if swap else f(self, b)

    @staticmethod
    def _add(a, b): return SymComplex(x_add(a.re, b.re), x_add(a.im, b.im))

    @staticmethod
    def _sub(a, b): return SymComplex(x_sub(a.re, b.re), x_sub(a.im, b.im))

    @staticmethod
    def _mul(a, b):
        return SymComplex(x_sub(x_mul(a.re, b.re), x_mul(a.im, b.im)),
                          x_add(x_mul(a.re, b.im), x_mul(a.im, b.re)))

    @staticmethod
    def _div(a, b):
        if x_iszero(b.im):
            return SymComplex(x_div(a.re, b.re), x_div(a.im, b.re))
        den = x_add(x_mul(b.re, b.re), x_mul(b.im, b.im))
        n = SymComplex._mul(a, SymComplex(b.re, x_neg(b.im)))
        return SymComplex(x_div(n.re, den), x_div(n.im, den))

    def __add__(self, o): return self._bin(o, self._add, "__add__")
    def __radd__(self, o): return self._bin(o, self._add, "__add__", True)
    def __sub__(self, o): return self._bin(o, self._sub, "__sub__")
    def __rsub__(self, o): return self._bin(o, self._sub, "__sub__", True)
    def __mul__(self, o): return self._bin(o, self._mul, "__mul__")
    def __rmul__(self, o): return self._bin(o, self._mul, "__mul__", True)
    def __truediv__(self, o): return self._bin(o, self._div, "__truediv__")
    def __rtruediv__(self, o): return self._bin(o, self._div, "__truediv__", True)
    def __neg__(self): return SymComplex(x_neg(self.re), x_neg(self.im))
    def __pos__(self): return self

    def __pow__(self, k):
        k = int(k)
        r = SymComplex(1.0, 0.0)
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else 1 / r

    def __abs__(self):
        return sym_sqrt(SymNum.lift(x_add(x_mul(self.re, self.re), x_mul(self.im, self.im))))

    def _eq(self, o, op):
        e = s_and(x_eq(self.re, o.re), x_eq(self.im, o.im))
        return e if op == "==" else s_not(e)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return _arr("__eq__", o, self, True)
        o = SymComplex.lift(o)
        if o is None:
            return False
        return self._eq(o, "==")

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return _arr("__ne__", o, self, True)
        o = SymComplex.lift(o)
        if o is None:
            return True
        return self._eq(o, "!=")

    def __bool__(self): return truth(self != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic complex")

    def conjugate(self): return SymComplex(self.re, x_neg(self.im))
    conj = conjugate

    @property
    def real(self): return self.re

    @property
    def imag(self): return self.im

    def __complex__(self): return complex(float(self.re), float(self.im))
    def __repr__(self): return text_token(self, "<symcomplex>")
    __str__ = __repr__
    def __format__(self, s): return text_token(self, "<symcomplex>", s)


def _exact(x):
    """keep concrete floats exact in mixed arithmetic"""
    return x


def x_iszero(x):
    if isinstance(x, SymNum):
        return x.n.is_zero()
    return not isinstance(x, Sym) and x == 0


def _ex(x):
    if isinstance(x, Sym):
        return x
    return SymNum.lift(x)


def x_add(a, b):
    if x_iszero(a):
        return b
    if x_iszero(b):
        return a
    return _ex(a) + b


def x_sub(a, b):
    if x_iszero(b):
        return a
    if x_iszero(a):
        return x_neg(b)
    return _ex(a) - b


def x_mul(a, b):
    if x_iszero(a) or x_iszero(b):
        return 0.0
    return _ex(a) * b


def x_div(a, b):
    if x_iszero(a) and not x_iszero(b):
        return 0.0
    return _ex(a) / b


def x_neg(a): return -a


def x_eq(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return bool(a == b)
    r = (a == b)
    return r


# --------------------------------------------------------------------------
UNDEF = object()


def ite(c, a, b):
    """if-then-else over values; raises MergeAbort when not expressible."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import npshim
        return npshim.ite_array(c, a, b)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return SymBool(z3.If(c.e, as_z3(a), as_z3(b)))
    if isinstance(a, SymComplex) or isinstance(b, SymComplex) or \
            isinstance(a, (complex, np.complexfloating)) or \
            isinstance(b, (complex, np.complexfloating)):
        x, y = SymComplex.lift(a), SymComplex.lift(b)
        if x is None or y is None:
            raise MergeAbort()
        return SymComplex(ite(c, x.re, y.re), ite(c, x.im, y.im))
    if isinstance(a, SymBV) or isinstance(b, SymBV) or \
            isinstance(a, np.unsignedinteger) or isinstance(b, np.unsignedinteger):
        x, y = SymBV.lift(a, True), SymBV.lift(b, True)
        if x is None or y is None:
            raise MergeAbort()
        return SymBV(z3.If(c.e, x.t, y.t), x.signed or y.signed)
    if isinstance(a, SymPInt) or isinstance(b, SymPInt) or (
            isinstance(a, int) and isinstance(b, int) and engine().prefer_bv):
        x, y = SymPInt.lift(a), SymPInt.lift(b)
        if x is not None and y is not None:
            if x.lo == x.hi == y.lo == y.hi:
                return x.lo
            w = max(x.w, y.w)
            return SymPInt(z3.If(c.e, x.ext(w), y.ext(w)),
                           min(x.lo, y.lo), max(x.hi, y.hi))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if type(a) is type(b) and a == b:
            return a
        raise MergeAbort()
    x, y = SymNum.lift(a), SymNum.lift(b)
    if x is None or y is None:
        if type(a) is type(b) and not isinstance(a, Sym):
            try:
                if isinstance(a, (int, float)) and a == b:
                    return a
            except Exception:
                pass
        raise MergeAbort()
    if x.isint != y.isint:
        x, y = x.to_real(), y.to_real()
    if x.d is None and y.d is None and x.n.d == y.n.d:
        return a
    isint = x.isint
    if not isint:
        r, q = num_range(x), num_range(y)
        if r is not None and q is not None:
            eng = engine()
            eng._keep.append(c.e)
            key = ("ite", c.e.get_id(), x.n.key(), x.d and x.d.key(), y.n.key(), y.d and y.d.key())
            v = eng.define_real(key, (min(r[0], q[0]), max(r[1], q[1])),
                                lambda t: t == z3.If(c.e, x.zr(), y.zr()))
            at = v.n.single_atom()
            if at is not None:
                at[1].ite = (c, x, y)
            return v
    return SymNum.from_term(z3.If(c.e, x.z(), y.z()), isint)


def z3_fraction(v):
    """Fraction of a z3 numeral (algebraic numbers are approximated), else None."""
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_bv_value(v):
            return Fraction(v.as_long())
    except z3.Z3Exception:
        pass
    return None


def trig_key(x):
    """Key of an angle; float noise in the coefficients is rounded away."""
    x = SymNum.lift(x)
    return (tuple(sorted((m, "%.10g" % float(c)) for m, c in x.n.d.items())),
            None if x.d is None else
            tuple(sorted((m, "%.10g" % float(c)) for m, c in x.d.d.items())))


def small(x, tol):
    """|x| <= tol by bounding every monomial (sound, incomplete)."""
    if not isinstance(x, Sym):
        return abs(x) <= tol
    if not isinstance(x, SymNum) or x.d is not None:
        return False
    atoms = engine().atoms
    s = 0.0
    for m, c in x.n.d.items():
        t = abs(float(c))
        for i, e in m:
            b = atoms[i].bound
            if b is None:
                return False
            t *= b ** e
        s += t
        if s > tol:
            return False
    return True


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.obligations = 0
        self.trivial = 0
        self.discharged = 0
        self.queries = 0
        self.solver_time = 0.0
        self.inconclusive = []
        self.replayed = 0
        self.replay_skipped = 0
        self.spurious = []
        self.complete = True
        self.functions = set()
        self.samples = []
        self.labels = {}

    def as_dict(self):
        d = dict(self.__dict__)
        d["functions"] = sorted(self.functions)
        return d


class Engine:
    """Depth-first exploration by re-execution with decision prefixes."""

    def __init__(self, deadline, timeout_ms=20000, branch_timeout_ms=4000,
                 logic=None, max_paths=100000, prefer_bv=False, fp_div=False,
                 div_check=True):
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.logic = logic
        self.max_paths = max_paths
        self.prefer_bv = prefer_bv
        self.fp_div = fp_div
        self.div_check = div_check
        self.stats = Stats()
        self.atoms = []
        self.atom_ids = {}
        self._keep = []
        self.merge_guards = []
        self.solver = None
        self.merging = True
        self.algebra = False
        self.abstract_solve = False
        self.on_unknown = None
        self.on_unsupported = None

    # -- atoms ------------------------------------------------------------------
    def atom_for(self, term, isint):
        key = term.get_id()
        a = self.atom_ids.get(key)
        if a is None:
            a = Atom(len(self.atoms), term, isint)
            self.atoms.append(a)
            self.atom_ids[key] = a
        return a

    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return "%s!%d" % (base, k)

    def const(self, name, sort):
        return z3.Const(name, sort)

    def pow2(self, x):
        """2**x for an integer x of small known range: an atom defined pointwise, with ordering lemmas"""
        b = self.int_bound(x)
        if b is None:
            return None
        if b > 200:
            return None
        if self.decide(x < 0):
            raise ValueError("negative shift count")
        c = int(x.n.d.get((), 0))
        if c > 0 and len(x.n.d) > 1:
            # 2**(y + c) with y >= 0 is a multiple of 2**y, which keeps differences of powers linear
            y = x - c
            if self.known(y.z() >= 0):
                return self.pow2(y) * (1 << c)
        key = frozenset(x.n.d.items())
        got = self.pow2s.get(key)
        if got is None:
            z = x.z()
            a = z3.Int(self.fresh_name("pow2"))
            self.add(z3.And([z3.Implies(z == k, a == (1 << k)) for k in range(b + 1)] + [a >= 1, a <= (1 << b), z <= b]))
            for y, c in self.pow2s.get("pow2", []):
                c = c.z()
                self.add(z3.And(z3.Implies(z < y, 2 * a <= c), z3.Implies(y < z, 2 * c <= a), (y == z) == (a == c)))
            r = SymNum.from_term(a, True)
            self.atom_for(a, True).bound = float(1 << b)
            self.pow2s.setdefault("pow2", []).append((z, r))
            got = self.pow2s[key] = r
        return got

    def int_bound(self, x):
        """a concrete bound of |x| for an integer polynomial, or None"""
        b = 0
        for m, c in x.n.d.items():
            t = abs(int(c))
            for i, e in m:
                if self.atoms[i].bound is None:
                    return None
                t *= int(self.atoms[i].bound) ** e
            b += t
        return b

    def table(self, tag, x, f, limit=400):
        """f(x) for an integer x >= 0 of small known range: an atom defined pointwise; None when not small"""
        b = self.int_bound(x) if x.d is None else None
        if b is None or b > limit:
            return None
        key = (tag, frozenset(x.n.d.items()))
        got = self.pow2s.get(key)
        if got is None:
            z = x.z()
            a = z3.Int(self.fresh_name(tag))
            vs = [f(k) for k in range(b + 1)]
            self.add(z3.And([z3.Implies(z == k, a == v) for k, v in enumerate(vs)] + [a >= min(vs), a <= max(vs)]))
            got = self.pow2s[key] = SymNum.from_term(a, True)
            self.atom_for(a, True).bound = float(max(map(abs, vs)))
        return got

    def define_int(self, tag, x, defn, rng=None):
        key = (tag, None if x.d is None else x.d.key(), x.n.key())
        k = self.defined.get(key)
        if k is None:
            t = z3.Int(self.fresh_name(tag))
            k = SymNum.from_term(t, True)
            self.defined[key] = k
            at = self.atom_for(t, True)
            if rng is not None:
                at.rng = (float(rng[0]), float(rng[1]))
                at.bound = float(max(abs(rng[0]), abs(rng[1])))
            at.lazy = lambda: self.add(defn(k))
        return k

    def define_real(self, key, rng, defn):
        """an atom defined by a constraint which the solver sees only when it sees the atom"""
        v = self.defined.get(key)
        if v is None:
            t = z3.Real(self.fresh_name(key[0]))
            v = SymNum.from_term(t, False)
            self.defined[key] = v
            at = self.atom_for(t, False)
            if rng is not None:
                at.rng = rng
                at.bound = max(abs(rng[0]), abs(rng[1]))
            at.lazy = lambda: self.add(defn(t))
        return v

    def sqrt(self, x, nonneg=False):
        if x.is_const():
            v = x.value()
            if v < 0:
                raise Unsupported("sqrt of a negative number")
            f = Fraction(v)
            from math import isqrt
            a, b = isqrt(f.numerator), isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return SymNum(Poly.const(Fraction(a, b)), None, False)
        else:
            # c * m^2 with c a square
            if x.d is None and len(x.n.d) == 1:
                (m, c), = x.n.d.items()
                if c > 0 and all(e % 2 == 0 for _, e in m):
                    r = self.sqrt(SymNum(Poly.const(c), None, False))
                    h = SymNum(Poly({tuple((i, e // 2) for i, e in m): 1}), None, False)
                    return abs(h) * r
            neg = False if nonneg else x < 0
            if not isinstance(neg, bool):
                if self.known(neg.e) is not False and self.decide(neg):
                    raise Unsupported("sqrt of a possibly negative number")
            elif neg:
                raise Unsupported("sqrt of a negative number")
        # normalise: pull out constant content so that equal arguments share
        n = x.n if x.d is None else x.n.mul(x.d)
        if self.algebra:
            from .algebra import square_part
            f, g = square_part(n)
            if not f.is_const():
                r = self.sqrt(SymNum(g, None, False), True) * abs(SymNum(f, None, False))
                return r if x.d is None else self.over(r, abs(SymNum(x.d, None, False)))
        key = tuple(sorted((m, str(c)) for m, c in n.d.items()))
        t = self.sqrts.get(key)
        if t is None:
            t = z3.Real(self.fresh_name("sqrt"))
            self.sqrts[key] = t
            a = self.atom_for(t, False)
            a.lazy = lambda: self.add(z3.And(t >= 0, t * t == SymNum(n, None, False).zr()))
            a.sq = n
            a.sqrt_of = (n, None)
            r = poly_range(n)
            if r is not None:
                a.rng = (0.0 if r[0] <= 0 else r[0] ** 0.5 * (1 - 1e-9), max(r[1], 0.0) ** 0.5 * (1 + 1e-9))
                a.bound = a.rng[1]
        r = SymNum(Poly.atom(self.atom_for(t, False)), None, False)
        if x.d is not None:
            # sqrt(n/d) = sqrt(n*d)/|d|
            return self.over(r, abs(SymNum(x.d, None, False)))
        return r

    def over(self, a, b):
        """a / b, where b is known not to vanish"""
        keep = self.div_check
        self.div_check = False
        try:
            return a / b
        finally:
            self.div_check = keep

    def trig(self, x):
        import math
        if not isinstance(x, SymNum):
            return math.sin(x), math.cos(x)
        if x.is_const():
            v = float(x.value())
            return math.sin(v), math.cos(v)
        xr = x.to_real()
        if xr.d is None:
            for m in xr.n.d:
                for i, e in m:
                    at = self.atoms[i]
                    if e == 1 and (at.ite is not None or z3.is_app_of(at.term, z3.Z3_OP_ITE)):
                        return self._trig_ite(xr, i, at)
        flip = False
        # odd/even symmetry: canonical sign of the leading coefficient
        p = xr.n
        m0 = max(p.d)
        if p.d[m0] < 0:
            flip = True
            xr = -xr
        key = trig_key(xr)
        sc = self.trigs.get(key)
        if sc is None:
            s = z3.Real(self.fresh_name("sin"))
            c = z3.Real(self.fresh_name("cos"))
            self.add(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
            sa = self.atom_for(s, False)
            ca = self.atom_for(c, False)
            sa.bound = ca.bound = 1.0
            sa.sq = ONE.sub(Poly({((ca.idx, 2),): 1}))
            sc = (SymNum(Poly.atom(sa), None, False), SymNum(Poly.atom(ca), None, False))
            self.trigs[key] = sc
            self.trig_args.append((xr, sc))
        s, c = sc
        return (-s if flip else s), c

    def _trig_ite(self, x, i, at):
        """sin and cos of an angle that contains a conditional term"""
        out = []
        t = at.term
        if at.ite is not None:
            b = at.ite[0]
            branches = at.ite[1:]
        else:
            b = SymBool(t.arg(0))
            branches = []
            for br in (t.arg(1), t.arg(2)):
                v = z3_fraction(br)
                branches.append(SymNum(Poly.const(v), None, False) if v is not None
                                else SymNum.from_term(br, at.isint))
        for br in branches:
            if br.d is not None:
                br = SymNum.from_term(br.zr(), False)
            q = br.n
            r = Poly({})
            for m, c in x.n.d.items():
                if (i, 1) in m:
                    r = r.add(Poly({tuple(f for f in m if f[0] != i): c}).mul(q))
                else:
                    r = r.add(Poly({m: c}))
            out.append(self.trig(SymNum(r, None, False)))
        (s0, c0), (s1, c1) = out
        return ite(b, s0, s1), ite(b, c0, c1)

    def register_trig(self, x, s, c):
        """sin(x) = s and cos(x) = c, given as values."""
        self.trigs[trig_key(x)] = (s, c)

    def atan2(self, y, x):
        """Angle of the vector (x, y) in (-pi, pi]."""
        import math
        y, x = SymNum.lift(y).to_real(), SymNum.lift(x).to_real()
        key = ("atan2", trig_key(y), trig_key(x))
        r = self.defined.get(key)
        if r is not None:
            return r
        zy, zx = as_z3(y == 0), as_z3(x == 0)
        if self.decide(SymBool(z3.And(zy, zx))):
            r = self.defined[key] = SymNum(Poly.const(0), None, False)
            return r
        t = z3.Real(self.fresh_name("angle"))
        pi = z3.RealVal(str(Fraction(math.pi)))
        half = pi / 2
        py, ny, px, nx = as_z3(y > 0), as_z3(y < 0), as_z3(x > 0), as_z3(x < 0)
        self.add(z3.And(
            z3.Implies(z3.And(zy, px), t == 0), z3.Implies(z3.And(zy, nx), t == pi),
            z3.Implies(z3.And(zx, py), t == half), z3.Implies(z3.And(zx, ny), t == -half),
            z3.Implies(z3.And(px, py), z3.And(t > 0, t < half)),
            z3.Implies(z3.And(nx, py), z3.And(t > half, t < pi)),
            z3.Implies(z3.And(px, ny), z3.And(t < 0, t > -half)),
            z3.Implies(z3.And(nx, ny), z3.And(t < -half, t > -pi))))
        a = self.atom_for(t, False)
        a.bound = 3.2
        r = SymNum(Poly.atom(a), None, False)
        h = self.sqrt(SymNum.lift(x * x + y * y).to_real())
        self.note_nonzero(h.n)
        # fresh sine and cosine with the defining products: keeps terms polynomial
        s = z3.Real(self.fresh_name("asin"))
        c = z3.Real(self.fresh_name("acos"))
        sa, ca = self.atom_for(s, False), self.atom_for(c, False)
        sa.bound = ca.bound = 1.0
        sa.sq = ONE.sub(Poly({((ca.idx, 2),): 1}))
        sn, cn = SymNum(Poly.atom(sa), None, False), SymNum(Poly.atom(ca), None, False)
        self.add(z3.And(s * s + c * c == 1, as_z3(sn * h == y), as_z3(cn * h == x)))
        self.register_trig(r, sn, cn)
        self.defined[key] = r
        return r

    def lower_bound(self, i):
        """A concrete lower bound of a symbolic int, or None."""
        if isinstance(i, SymPInt):
            lo = i.lo
        elif isinstance(i, SymBV):
            if i.signed and self.known(as_z3(i >= 0)) is not True:
                return None
            lo = 0
        else:
            if self.known(as_z3(i >= 0)) is not True:
                return None
            lo = 0
        for _ in range(70):
            c = (i >= lo + 1)
            if c is True or (isinstance(c, SymBool) and self.known(c.e) is True):
                lo += 1
            else:
                break
        return lo

    def hint_min(self, xs):
        """Index of the smallest value under some model of the path (a hint)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "h":
                raise Unsupported("non-deterministic re-execution")
            self.pos += 1
            self.decisions.append(d)
            return d[1]
        r = 0
        if self.sat() == "sat":
            m = self.solver.model()
            vals = []
            for x in xs:
                if isinstance(x, Sym):
                    v = m.eval(SymNum.lift(x).zr(), model_completion=True)
                    vals.append(z3_fraction(v))
                else:
                    vals.append(Fraction(x))
            if all(v is not None for v in vals):
                r = min(range(len(vals)), key=lambda k: vals[k])
        self.decisions.append(("h", r))
        self.pos += 1
        return r

    # -- path state --------------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.atoms = []
        self.atom_ids = {}
        self._keep = []
        self.decisions = []
        self.pc = []
        self.names = {}
        self.defined = {}
        self.sqrts = {}
        self.trigs = {}
        self.pow2s = {}
        self.trig_args = []
        self.pending = []
        self.inputs = []
        self.merge_guards = []
        self.signs = {}
        self.nonzeros = []
        self.kcache = {}
        self.solver = z3.Solver() if self.logic is None else z3.SolverFor(self.logic)
        self.solver.set("timeout", self.branch_timeout_ms)
        self.fresh = True          # nothing new since prefix was replayed

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def _tick(self):
        if time.time() > self.deadline:
            raise OutOfBudget()

    def sat(self, *extra, timeout=None):
        """'sat' / 'unsat' / 'unknown' of pc + extra, with the incremental solver."""
        self._tick()
        t0 = time.time()
        rem = max(200, int((self.deadline - t0) * 1000))
        self.solver.set("timeout", min(timeout or self.branch_timeout_ms, rem))
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        return str(r)

    # -- branching ------------------------------------------------------------------
    def known(self, e):
        """True/False when pc decides e (cheaply), else None."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = (e.get_id(), len(self.pc), len(self.merge_guards))
        if k in self.kcache:
            return self.kcache[k][0]
        g = list(self.merge_guards)
        r = None
        if self.sat(*(g + [z3.Not(e)]), timeout=1500) == "unsat":
            r = True
        elif self.sat(*(g + [e]), timeout=1500) == "unsat":
            r = False
        self.kcache[k] = (r, e)
        return r

    def sign_known(self, poly):
        key = tuple(sorted((m, str(c)) for m, c in poly.d.items()))
        s = self.signs.get(key)
        if s:
            return s
        if poly.is_const():
            c = poly.const_value()
            return (c > 0) - (c < 0)
        e = _cmp_poly(poly, ">", False)
        if isinstance(e, bool):
            return 1 if e else 0
        k = self.known(e.e)
        s = 0
        if k is True:
            s = 1
        else:
            e2 = _cmp_poly(poly, "<", False)
            if isinstance(e2, SymBool) and self.known(e2.e) is True:
                s = -1
        if s:
            self.signs[key] = s
        return s

    def nonzero_known(self, poly):
        return any(poly.d == q.d for q in self.nonzeros)

    def note_nonzero(self, poly):
        self.nonzeros.append(poly)

    def decide(self, b):
        """Truth value of a SymBool on this path (forks)."""
        if isinstance(b, bool):
            return b
        e = z3.simplify(b.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.merge_guards:
            k = self.known(e)
            if k is None:
                raise MergeAbort()
            return k
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            v = d[1]
            if d[0] != "b":
                raise Unsupported("non-deterministic re-execution")
            if d[2]:
                self.add(e if v else z3.Not(e))
            self.decisions.append(d)
            return v
        self._tick()
        rt = self.sat(e)
        if rt == "unsat":
            v, forced = False, True
        else:
            rf = self.sat(z3.Not(e))
            if rf == "unsat":
                v, forced = True, True
            else:
                v, forced = True, False
        if forced:
            # implied by pc: record so that re-execution does not re-check
            d = ("b", v, False)
        else:
            self.stats.branches += 1
            d = ("b", v, True)
            self.stack.append(self.decisions + [("b", not v, True)])
            self.add(e if v else z3.Not(e))
        self.decisions.append(d)
        self.pos += 1
        return v

    def concretize(self, t, signed=False, rng=None):
        """Case split over all feasible values of an int / bit-vector term."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_bv_value(t):
            return t.as_signed_long() if signed else t.as_long()
        if self.merge_guards:
            raise MergeAbort()
        isbv = z3.is_bv(t)

        def lit(v):
            return z3.BitVecVal(v, t.size()) if isbv else z3.IntVal(v)

        excl = ()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "v":
                raise Unsupported("non-deterministic re-execution")
            self.pos += 1
            if d[1] is not None:
                self.add(t == lit(d[1]))
                self.decisions.append(d)
                return d[1]
            excl = d[2]
            for v in excl:
                self.add(t != lit(v))
        else:
            self.pos += 1
        self._tick()
        if len(excl) > 4096:
            raise Unsupported("too many values in a case split")
        r = self.sat()
        if r == "unsat":
            raise PathAbort()
        if r != "sat":
            import math
            left = [] if rng is None or rng[1] - rng[0] > 64 else \
                [v for v in range(math.ceil(rng[0]), math.floor(rng[1]) + 1) if v not in excl]
            if not left:
                raise Unsupported("solver unknown while enumerating values")
            # undecided: every remaining value of the enclosing range counts as feasible
            v = left[0]
            if len(left) > 1:
                self.stats.branches += 1
                self.stack.append(self.decisions + [("v", None, excl + (v,))])
            self.decisions.append(("v", v, excl))
            self.add(t == lit(v))
            return v
        mv = self.solver.model().eval(t, model_completion=True)
        v = mv.as_long() if not (isbv and signed) else mv.as_signed_long()
        self.stats.branches += 1
        self.stack.append(self.decisions + [("v", None, excl + (v,))])
        self.decisions.append(("v", v, excl))
        self.add(t == lit(v))
        return v

    # -- assumptions and obligations ----------------------------------------------
    def assume(self, c):
        if isinstance(c, SymBool):
            self.flush()
            e = z3.simplify(c.e)
            if z3.is_true(e):
                return
            if z3.is_false(e):
                raise PathAbort()
            self.add(e)
            if self.pos >= len(self.prefix) and self.sat() == "unsat":
                raise PathAbort()
        elif not c:
            self.flush()
            raise PathAbort()

    def oblige(self, c, label):
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if not isinstance(c, SymBool):
            if c:
                self.stats.trivial += 1
                self.stats.discharged += 1
                return
            e = z3.BoolVal(False)
        else:
            e = z3.simplify(c.e)
            if z3.is_true(e):
                self.stats.trivial += 1
                self.stats.discharged += 1
                return
        self.pending.append((e, label))

    def flush(self):
        pend, self.pending = self.pending, []
        if not pend:
            return
        # all at once, then one by one
        es = [e for e, _ in pend]
        conj = es[0] if len(es) == 1 else z3.And(*es)
        r, m = self.prove(conj)
        if r == "unsat":
            self.stats.discharged += len(pend)
            return
        for e, label in pend:
            r, m = self.prove(e)
            if r == "unsat":
                self.stats.discharged += 1
            elif r == "sat":
                if not self.on_cex(self, e, label, m):
                    # spurious: not reproduced on the real code
                    self.stats.spurious.append(label)
            elif not (self.on_unknown and self.on_unknown(self, e, label)):
                self.stats.inconclusive.append("solver unknown: " + label)

    def prove(self, e, extra=()):
        """Is pc /\\ not e satisfiable?  -> (verdict, model)"""
        r, m = self.query(list(extra) + [z3.Not(e)])
        return r, m

    def query(self, extra, timeout=None):
        self._tick()
        to = min(timeout or self.timeout_ms, max(300, int((self.deadline - time.time()) * 1000)))
        t0 = time.time()
        try:
            if self.logic == "QF_BV":
                s = z3.Then("simplify", "propagate-values", "solve-eqs",
                            "bit-blast", "sat").solver()
                s.set("timeout", to)
                s.add(*self.pc)
                s.add(*extra)
                r = s.check()
                return str(r), (s.model() if r == z3.sat else None)
            s = self.solver
            s.set("timeout", min(to, 6000))
            s.push()
            s.add(*extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            if r == z3.unknown and to > 300:
                for mk in (lambda: z3.SolverFor("QF_NRA"), lambda: z3.SimpleSolver(),
                           lambda: z3.Then("simplify", "purify-arith", "smt").solver()):
                    left = to - int((time.time() - t0) * 1000)
                    if left < 200:
                        break
                    s2 = mk()
                    s2.set("timeout", max(200, left // 2))
                    s2.add(*self.pc)
                    s2.add(*extra)
                    self.stats.queries += 1
                    try:
                        r = s2.check()
                    except z3.Z3Exception:
                        r = z3.unknown
                    if r != z3.unknown:
                        m = s2.model() if r == z3.sat else None
                        break
            return str(r), m
        finally:
            self.stats.queries += 1
            self.stats.solver_time += time.time() - t0

    # -- driver -------------------------------------------------------------------
    def explore(self, body, on_cex, on_path, on_exception):
        """
        body(): runs the harness once on the current path.
        on_cex(engine, expr, label, model) -> True when reproduced.
        on_path(engine): called at the end of each complete path.
        on_exception(engine, exc) -> True when it is a reproduced violation.
        """
        global ENGINE
        self.on_cex = on_cex
        self.stack = [[]]
        self.stop = False
        prev = ENGINE
        ENGINE = self
        try:
            while self.stack and not self.stop:
                if self.stats.paths >= self.max_paths:
                    self.stats.complete = False
                    self.stats.inconclusive.append("path limit")
                    break
                prefix = self.stack.pop()
                self.begin(prefix)
                try:
                    try:
                        body()
                        self.flush()
                        self.stats.paths += 1
                        on_path(self)
                    except PathAbort:
                        self.stats.aborted += 1
                        self.stats.obligations -= len(self.pending)
                    except MergeAbort:
                        self.stats.complete = False
                        self.stats.inconclusive.append("merge abort escaped")
                        self.merge_guards = []
                        if self.on_unsupported is not None:
                            self.on_unsupported(self)
                    except OutOfBudget:
                        raise
                    except Unsupported as exc:
                        self.stats.complete = False
                        self.stats.inconclusive.append("unsupported: %s" % (exc,))
                        self.merge_guards = []
                        self.flush()
                        if self.on_unsupported is not None:
                            self.on_unsupported(self)
                    except RecursionError as exc:
                        self.stats.complete = False
                        self.stats.inconclusive.append("recursion limit")
                    except Exception as exc:
                        self.merge_guards = []
                        self.flush()
                        self.stats.paths += 1
                        if not on_exception(self, exc):
                            self.stats.complete = False
                            self.stats.inconclusive.append(
                                "unreproduced exception: %s: %s"
                                % (type(exc).__name__, str(exc)[:200]))
                except OutOfBudget:
                    self.stats.complete = False
                    self.stats.inconclusive.append("time budget")
                    break
                except z3.Z3Exception as exc:
                    self.stats.complete = False
                    self.stats.inconclusive.append("z3: %s" % str(exc)[:200])
        finally:
            ENGINE = prev
        return self.stats
