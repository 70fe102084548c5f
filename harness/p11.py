"""P11: coordinates are identified to the configured number of decimals only."""
import numpy as np
import HamiltonianPy.bond as bond_module
import HamiltonianPy.quantumoperator.quantumstate as state_module
from HamiltonianPy.bond import Bond
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.constant import CREATION
from HamiltonianPy.quantumoperator.particlesystem import AoC, NumberOperator
from HamiltonianPy.quantumoperator.quantumstate import SiteID, StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator

KMAX = 200000


def coord(ctx, tag, prec, kmax=KMAX):
    """(cell, value) with the value at least 2% of a cell away from the cell's ends"""
    sign = ctx.choice(tag + "sign", [1, -1])
    k = ctx.int(tag + "k", 0, kmax)
    f = ctx.real(tag + "f", 0.02, 0.98)
    return sign * k, sign * (k + f) / 10 ** prec


def coords(ctx, tag, d, prec, kmax=KMAX):
    cs = [coord(ctx, "%s%d" % (tag, i), prec, kmax) for i in range(d)]
    return [c for c, _ in cs], [x for _, x in cs]


def build(kind, x):
    if kind == "site":
        return SiteID(x)
    if kind == "state":
        return StateID(x, 1, 2)
    if kind == "aoc":
        return AoC(CREATION, x, 1, 2)
    if kind == "number":
        return NumberOperator(x, 1, 2)
    if kind == "spin":
        return SpinOperator("z", x)
    if kind == "bond":
        return Bond(x, [0.0] * len(x))
    if kind == "bond1":
        return Bond([0.0] * len(x), x)
    return Bond(x, [7.0] * len(x), directional=False)


def set_precision(kind, p):
    (bond_module if "bond" in kind else state_module).set_float_point_precision(precision=p)


def cells(ctx, kind, d, precs, kmax=KMAX):
    p = ctx.choice("precision", precs)
    if p is not None:
        set_precision(kind, p)
    else:
        p = 4
    ca, xa = coords(ctx, "a", d, p, kmax)
    cb, xb = coords(ctx, "b", d, p, kmax)
    a, b = build(kind, xa), build(kind, xb)
    same = ctx.all([i == j for i, j in zip(ca, cb)])
    eq = a == b
    ctx.check(ctx.implies(same, eq), "same cell: equal")
    ctx.check(ctx.implies(eq, same), "different cells: different")
    ctx.check(ctx.iff(a != b, ctx.not_(eq)), "!=")
    ctx.check(ctx.implies(same, hash(a) == hash(b)), "same cell: same hash")
    if "bond" not in kind:
        t = IndexTable([a])
        o = ctx.outcome(t, b)
        if o.ok:
            ctx.check(same, "table finds only equal objects")
            ctx.check(o.value == 0, "table entry")
        else:
            ctx.check(ctx.not_(same), "table finds equal objects")
        ctx.check(len(a.coordinate) == d and len(a.site) == d, "reported dimension")
        ctx.check(ctx.all([u == v for u, v in zip(a.coordinate, xa)]), "reported coordinate")
        ctx.check(ctx.all([u == v for u, v in zip(a.site, xa)]), "reported site")
        ctx.check(ctx.all([u == v for u, v in zip(b.coordinate, xb)]), "reported coordinate")
    else:
        e = a.endpoints[1 if kind == "bond1" else 0]
        ctx.check(ctx.all([u == v for u, v in zip(e, xa)]), "reported endpoint")


def history(ctx, kind, precs):
    """changing the precision between constructions"""
    p = ctx.choice("p", precs)
    q = ctx.choice("q", [x for x in precs if x != p])
    fine, coarse = max(p, q), min(p, q)
    s = 10 ** (fine - coarse)
    cs, xs = [], []
    for t in "ab":
        sign = ctx.choice(t + "sign", [1, -1])
        big, small = ctx.int(t + "K", 0, 300), ctx.int(t + "r", 0, s - 1)
        frac = ctx.real(t + "f", 0.02, 0.98)
        cs.append((sign * big, sign * small, big, small))
        xs.append(sign * (big * s + small + frac) / 10 ** fine)
    x, y = [xs[0], 0.5], [xs[1], 0.5]

    def same(prec):
        (ka, ra, _, _), (kb, rb, _, _) = cs
        return ka == kb if prec == coarse else ctx.all([ka == kb, ra == rb])

    set_precision(kind, p)
    a, b = build(kind, x), build(kind, y)
    e0, h0, g0 = (a == b), hash(a), hash(b)
    ctx.check(ctx.iff(e0, same(p)), "identity at the first precision")
    set_precision(kind, q)
    ctx.check(ctx.iff(a == b, e0), "identity of existing objects kept")
    ctx.check(ctx.all([hash(a) == h0, hash(b) == g0]), "hash of existing objects kept")
    c, d = build(kind, x), build(kind, y)
    ctx.check(ctx.iff(c == d, same(q)), "identity at the second precision")
    set_precision(kind, p)
    u, v = build(kind, x), build(kind, y)
    ctx.check(ctx.all([u == a, v == b, hash(u) == h0, hash(v) == g0]), "back at the first precision")
    ctx.check(ctx.iff(c == d, same(q)), "identity of the second generation kept")
    if "bond" not in kind:
        t = IndexTable([a])
        set_precision(kind, q)
        ctx.check(t(a) == 0, "table lookup survives a precision change")
        ctx.check(ctx.iff(ctx.outcome(t, b).ok, same(p)), "table lookup survives a precision change")
        ctx.check(ctx.all([i == j for i, j in zip(a.coordinate, x)]), "coordinate")
    else:
        ctx.check(ctx.all([i == j for i, j in zip(build(kind, x).endpoints[1 if kind == "bond1" else 0], x)]),
                  "endpoint")


def containers(ctx, kind, d):
    """lists, tuples and arrays of the same numbers give the same object"""
    ca, x = coords(ctx, "a", d, 4)
    a, b, c = build(kind, list(x)), build(kind, tuple(x)), build(kind, np.array(x))
    ctx.check(ctx.all([a == b, b == c, hash(a) == hash(b), hash(b) == hash(c)]), "container does not matter")
    n = ctx.int_vec("n", d, -40, 40)
    a, b, c = build(kind, list(n)), build(kind, [1.0 * i for i in n]), build(kind, np.array(n))
    ctx.check(ctx.all([a == b, b == c, hash(a) == hash(b), hash(b) == hash(c)]), "int or float does not matter")


def default_restored(ctx, kind):
    """calling the setter without argument gives the documented default of four decimals"""
    set_precision(kind, ctx.choice("p", [0, 1, 6]))
    (bond_module if "bond" in kind else state_module).set_float_point_precision()
    ca, xa = coords(ctx, "a", 1, 4)
    cb, xb = coords(ctx, "b", 1, 4)
    ctx.check(ctx.iff(build(kind, xa) == build(kind, xb), ca[0] == cb[0]), "default precision is 4")


CASES = []
KINDS = ("site", "state", "aoc", "number", "spin", "bond", "bond1", "ubond")
for kind in KINDS:
    for d in (1, 2, 3):
        CASES.append(dict(name="cells-%s-%d" % (kind, d), fn="cells",
                          args=dict(kind=kind, d=d, precs=[None, 4] if d == 3 else [None, 0, 1, 2, 3, 4, 5, 6]),
                          bounds="dimension %d, |coordinate| < 2e5 cells, >= 2%% of a cell from cell ends; precision "
                                 "default and 0..6" % d))
        CASES.append(dict(name="small-%s-%d" % (kind, d), fn="cells",
                          args=dict(kind=kind, d=d, precs=[None, 0, 2, 6] if d == 1 else [None], kmax=2 if d < 3 else 1),
                          bounds="dimension %d, up to 3 cells on either side of zero, >= 2%% of a cell from cell ends" % d))
    CASES.append(dict(name="history-" + kind, fn="history", args=dict(kind=kind, precs=[1, 2, 3, 4, 6]),
                      opts=dict(budget=30),
                      bounds="precision p, q, p with p != q in {1,2,3,4,6}; coordinates up to 300 coarse cells"))
    CASES.append(dict(name="containers-" + kind, fn="containers", args=dict(kind=kind, d=2), bounds="dimension 2"))
    CASES.append(dict(name="default-" + kind, fn="default_restored", args=dict(kind=kind), bounds="dimension 1"))
