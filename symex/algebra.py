"""Exact simplification of rational functions: common factors cancelled, squares drawn out of square roots."""
import time
from fractions import Fraction

from . import core
from .core import Poly, SymNum

LIMIT = 4000          # terms


def _qq(c):
    from sympy import QQ
    c = Fraction(c)
    return QQ(c.numerator, c.denominator)


def _ring(*polys):
    from sympy import ring, QQ
    ids = sorted({i for p in polys for m in p.d for i, _ in m})
    if not ids:
        return None
    R, *_ = ring(["x%d" % i for i in ids], QQ)
    pos = {i: k for k, i in enumerate(ids)}

    def to(p):
        d = {}
        for m, c in p.d.items():
            e = [0] * len(ids)
            for i, k in m:
                e[pos[i]] += k
            d[tuple(e)] = _qq(c)
        return R.from_dict(d)

    def back(q):
        d = {}
        for e, c in q.terms():
            m = tuple((ids[k], n) for k, n in enumerate(e) if n)
            d[m] = core._norm(Fraction(int(c.numerator), int(c.denominator)))
        return Poly(d)
    return R, to, back


def _reduce(p):
    """apply the relations of the atoms after a division"""
    r = Poly({})
    for m, c in p.d.items():
        t = Poly({(): c})
        for i, e in m:
            for _ in range(e):
                t = t.mul(Poly({((i, 1),): 1}))
        r = r.add(t)
    return r


def rationalise(n, d):
    """square-root atoms common to all monomials of the denominator move to the numerator"""
    atoms = core.engine().atoms
    while True:
        ms = list(d.d)
        common = None
        for m in ms:
            s = {i for i, e in m if e % 2 and atoms[i].sq is not None}
            common = s if common is None else common & s
            if not common:
                return n, d
        a = Poly({((min(common), 1),): 1})
        n, d = n.mul(a), d.mul(a)


def cancel(n, d):
    n, d = rationalise(n, d)
    if n.is_zero() or d.is_const() or len(n.d) > LIMIT or len(d.d) > LIMIT:
        return n, d
    if n.is_const() and len(d.d) > 1:
        return n, d
    r = _ring(n, d)
    if r is None:
        return n, d
    R, to, back = r
    t0 = time.time()
    g, p, q = to(n).cofactors(to(d))
    core.engine().stats.algebra = getattr(core.engine().stats, "algebra", 0.0) + time.time() - t0
    c = q.LC
    if c != 1:
        p, q = p.quo_ground(c), q.quo_ground(c)
    return back(p), back(q)


def square_part(n):
    """(f, g) with n == f*f*g"""
    if n.is_const() or len(n.d) > LIMIT:
        return Poly.const(1), n
    R, to, back = _ring(n)
    c, fs = to(n).sqf_list()
    f, g = R.one, R.one * c
    for p, e in fs:
        f = f * p ** (e // 2)
        if e % 2:
            g = g * p
    return back(f), back(g)
