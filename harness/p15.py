"""P15: bond enumeration is complete and free of duplicates."""
from itertools import product

import numpy as np

import lat as L
from HamiltonianPy.lattice import Lattice
from HamiltonianPy.quantumoperator import SiteID
from p14 import GAP, TOL, separate, true_distances

NEAR = 1e-6


def earlier(ctx, lat, kind, n):
    """what has been asked before on the same object"""
    if kind == "farther":
        lat.bonds(n + 1)
    elif kind == "nearer":
        lat.bonds(max(n - 1, 0), only=False, fold=True)
    elif kind == "distance":
        lat.neighbor_distance(n + 2)
    elif kind == "another":
        L.use_another(lat)
    elif kind == "sites":
        lat.getIndex(lat.points[0] + lat.vectors[0], fold=True)


def ends(bond):
    p, q = bond.endpoints
    return list(p), list(q)


def same(ctx, u, v):
    return ctx.all([ctx.close(a, b, NEAR) for a, b in zip(u, v)])


def inside(ctx, intra, pts):
    """bonds within the cluster: between cluster points"""
    for b in intra:
        p, q = ends(b)
        ctx.check(ctx.any([same(ctx, p, x) for x in pts]), "first endpoint of an intra-cluster bond")
        ctx.check(ctx.any([same(ctx, q, x) for x in pts]), "second endpoint of an intra-cluster bond")


def wanted(ctx, d, dist, n, only):
    if only:
        return ctx.all([d >= dist[n] - TOL, d <= dist[n] + TOL])
    return ctx.all([d > TOL, d <= dist[n] + TOL])


def represents(ctx, bond, u, v, shift):
    """the bond is the pair u, v + shift, or the same pair translated: u - shift, v"""
    p, q = ends(bond)
    back = [a - b for a, b in zip(u, shift)]
    there = L.add(v, shift)
    return ctx.any([ctx.all([same(ctx, p, u), same(ctx, q, there)]), ctx.all([same(ctx, p, v), same(ctx, q, back)])])


def folding(ctx, inter, folded, pts, classes):
    """folded bonds against the bonds themselves; classes: the translations which occur"""
    ctx.check(len(inter) == len(folded), "as many folded bonds")
    for b in folded:
        p, q = ends(b)
        ctx.check(ctx.any([same(ctx, p, x) for x in pts]), "first endpoint of a folded bond")
        ctx.check(ctx.any([same(ctx, q, x) for x in pts]), "second endpoint of a folded bond")
        ctx.check(b.directional == inter[0].directional, "folding keeps the kind of bond")
    for u in pts:
        for v in pts:
            n0 = ctx.count([ctx.all([same(ctx, ends(b)[0], u), same(ctx, ends(b)[1], v)]) for b in folded])
            n1 = ctx.count([ctx.all([same(ctx, ends(b)[0], u),
                                     ctx.any([same(ctx, ends(b)[1], L.add(v, s)) for s in classes])]) for b in inter])
            ctx.check(n0 == n1, "folding replaces the outside endpoint only")


def bundled(ctx, which, size, N, R, history, parts):
    """concrete geometry; the pair of points, the translation numbers, the order, the options and the history are arbitrary"""
    lat = L.make(which, size)
    pts, vs, m = L.floats(lat.points), L.floats(lat.vectors), lat.space_dim
    n = ctx.concrete(ctx.int("n", 1, N))
    only = ctx.choice("only", [True, False])
    earlier(ctx, lat, ctx.choice("history", history), n)
    dist = [lat.neighbor_distance(k) for k in range(n + 1)]
    intra, inter = lat.bonds(n, only=only)
    part = ctx.choice("part", parts)
    if part == "ends":
        inside(ctx, intra, pts)
        for b in inter:
            p, q = ends(b)
            ctx.check(ctx.any([same(ctx, p, x) for x in pts]), "an inter-cluster bond starts in the cluster")
            ctx.check(ctx.not_(ctx.any([same(ctx, q, x) for x in pts])), "an inter-cluster bond leaves the cluster")
        for b in list(intra) + list(inter):
            ctx.check(wanted(ctx, b.getLength(), dist, n, only), "length of a bond")
        return
    if part == "fold":
        shifts = [L.combine(t, vs, m) for t in product(*[range(-R, R + 1)] * len(vs))]
        again, folded = lat.bonds(n, only=only, fold=True)
        ctx.check(len(again) == len(intra), "folding keeps the intra-cluster bonds")
        for b in intra:
            ctx.check(ctx.count([ctx.all([same(ctx, ends(b)[0], ends(c)[0]), same(ctx, ends(b)[1], ends(c)[1])])
                                 for c in again]) == 1, "folding keeps the intra-cluster bonds")
        if inter or folded:
            folding(ctx, inter, folded, pts, shifts)
        ids = {SiteID(p) for p in pts}
        for b in folded:
            for p in b.endpoints:
                ctx.check(SiteID(p) in ids, "the ends of a folded bond are sites of the cluster")
        return
    i = ctx.concrete(ctx.int("i", 0, len(pts) - 1))
    j = ctx.concrete(ctx.int("j", 0, len(pts) - 1))
    ctx.assume(i <= j)
    t = [ctx.int("t%d" % k, -R, R) for k in range(len(vs))]
    t[1:] = [ctx.concrete(x) for x in t[1:]]
    shift = L.combine(t, vs, m)
    d2 = 0
    for a, b, c in zip(pts[i], pts[j], shift):
        d2 = d2 + (a - b - c) * (a - b - c)
    if only:
        hit = ctx.all([d2 >= max(dist[n] - TOL, 0) ** 2, d2 <= (dist[n] + TOL) ** 2])
    else:
        hit = ctx.all([d2 >= TOL ** 2, d2 <= (dist[n] + TOL) ** 2])
    home = ctx.all([x == 0 for x in t])
    here = ctx.count([represents(ctx, b, pts[i], pts[j], shift) for b in intra])
    out = ctx.count([represents(ctx, b, pts[i], pts[j], shift) for b in inter])
    ctx.check(ctx.implies(home, ctx.any([ctx.all([hit, here == 1, out == 0]), ctx.all([ctx.not_(hit), here == 0, out == 0])])),
              "pairs of cluster points")
    ctx.check(ctx.implies(ctx.not_(home), ctx.any([ctx.all([hit, here == 0, out == 1]),
                                                   ctx.all([ctx.not_(hit), here == 0, out == 0])])),
              "pairs of a cluster point and an outside site")


def onsite(ctx, which, size):
    lat = L.make(which, size)
    pts = L.floats(lat.points)
    only, fold = ctx.choice("only", [True, False]), ctx.choice("fold", [True, False])
    earlier(ctx, lat, ctx.choice("history", ["none", "farther", "distance"]), 1)
    intra, inter = lat.bonds(0, only=only, fold=fold)
    ctx.check(not inter, "no on-site bond leaves the cluster")
    ctx.check(len(intra) == len(pts), "one on-site bond per point")
    for x in pts:
        ctx.check(ctx.count([ctx.all([same(ctx, ends(b)[0], x), same(ctx, ends(b)[1], x)]) for b in intra]) == 1,
                  "on-site bond")


def examine(ctx, lat, pts, vs, n, R, history):
    """symbolic geometry: every pair with translation numbers -R..R"""
    m = len(pts[0])
    only = ctx.choice("only", [True, False])
    earlier(ctx, lat, ctx.choice("history", history), n)
    dist = [lat.neighbor_distance(k) for k in range(n + 1)]
    intra, inter = lat.bonds(n, only=only)
    inside(ctx, intra, pts)
    total = 0
    seen = set()
    shifts = []
    for t in product(*[range(-r, r + 1) for r in R]):
        shift = L.combine(t, vs, m)
        shifts.append(shift)
        for i in range(len(pts)):
            for j in range(len(pts)):
                if (tuple(-x for x in t), j, i) in seen:
                    continue
                seen.add((t, i, j))
                if i == j and not any(t):
                    continue
                d = [a - b - c for a, b, c in zip(pts[i], pts[j], shift)]
                d = abs(d[0]) if m == 1 else np.linalg.norm(np.array(d))
                k = ctx.count([represents(ctx, b, pts[i], pts[j], shift) for b in (inter if any(t) else intra)])
                hit = wanted(ctx, d, dist, n, only)
                ctx.check(ctx.any([ctx.all([hit, k == 1]), ctx.all([ctx.not_(hit), k == 0])]),
                          "inter-cluster bonds" if any(t) else "intra-cluster bonds")
                total = total + k
    ctx.check(total == len(intra) + len(inter), "no other bonds")
    again, folded = lat.bonds(n, only=only, fold=True)
    ctx.check(len(again) == len(intra), "folding keeps the intra-cluster bonds")
    folding(ctx, inter, folded, pts, shifts)


def line(ctx, offsets, period, N, R, history):
    x = [0.0] + [ctx.real("x%d" % k, lo, hi) for k, (lo, hi) in enumerate(offsets)]
    n = ctx.concrete(ctx.int("n", 1, N))
    separate(ctx, true_distances(ctx, [[v] for v in x], [[period]], [R]), (N + 1) * period)
    lat = Lattice(np.array([[v] for v in x]), np.array([[period]]))
    examine(ctx, lat, [[v] for v in x], [[period]], n, [R], history)


def plane(ctx, kind, lo, hi, size, N, R, reach):
    b = ctx.real("b", lo, hi)
    n = ctx.concrete(ctx.int("n", 1, N))
    pts, vs = {"rect": ([[0.0, 0.0]], [[1.0, 0.0], [0.0, b]]), "oblique": ([[0.0, 0.0]], [[1.0, 0.0], [b, 1.0]]),
               "basis": ([[0.0, 0.0], [0.0, b]], [[1.0, 0.0], [0.0, 1.0]])}[kind]
    separate(ctx, true_distances(ctx, pts, vs, R), reach)
    big = [L.add(p, L.combine(t, vs, 2)) for t in product(*[range(s) for s in size]) for p in pts]
    vs = [[s * x for x in v] for s, v in zip(size, vs)]
    lat = Lattice(np.array(big), np.array(vs))
    examine(ctx, lat, big, vs, n, R, ["none"])


CASES = []
for k, (off, period, N, R, history) in enumerate([
        ([], 1.0, 3, 5, ["none", "farther", "nearer"]), ([(0.1, 0.9)], 1.0, 2, 4, ["none"]),
        ([(0.6, 0.9)], 1.0, 3, 4, ["farther"]), ([(1.1, 1.4)], 1.0, 2, 5, ["none"])]):
    CASES.append(dict(name="line-%d" % k, fn="line", args=dict(offsets=off, period=period, N=N, R=R, history=history),
                      opts=dict(budget=120), bounds="chain of period %s, further points in %s, orders 1..%d" % (period, off, N)))
for kind, lo, hi, size, N, R, reach in [("rect", 1.15, 1.18, (1, 1), 3, (3, 3), 2.2),
                                        ("rect", 1.15, 1.18, (2, 1), 2, (3, 3), 2.2),
                                        ("oblique", 0.12, 0.15, (1, 1), 2, (3, 3), 2.2)]:
    CASES.append(dict(name="plane-%s-%s-%dx%d" % (kind, lo, *size), fn="plane",
                      args=dict(kind=kind, lo=lo, hi=hi, size=size, N=N, R=R, reach=reach),
                      opts=dict(budget=120), bounds="%s lattice, parameter in [%s, %s], cut into %s cells" % (kind, lo, hi, size)))
for which, size, N, R in [
        ("chain", (1,), 3, 6), ("chain", (3,), 3, 3), ("square", (1, 1), 4, 4), ("square", (2, 2), 2, 2),
        ("triangle", (1, 1), 3, 3), ("triangle", (3, 1), 2, 2), ("honeycomb", (1, 1), 4, 3), ("honeycomb", (2, 1), 2, 2),
        ("kagome", (1, 1), 2, 2), ("cubic", (1, 1, 1), 2, 2), ("z", None, 1, 1), ("cross", None, 2, 1),
        ("benzene", None, 2, 2), ("skew", None, 2, 5), ("skew1", None, 3, 10), ("flat", None, 5, 6), ("spread", None, 2, 4),
        ("ladder", None, 3, 3), ("wire", None, 3, 4), ("layer", None, 2, 3), ("bcc", None, 2, 2), ("fcc", None, 2, 3),
        ("ortho1", None, 3, 3), ("ortho2", None, 3, 3), ("ortho3", None, 3, 3), ("triclinic", None, 2, 2), ("slab", None, 2, 3),
        ("dimer", None, 4, 4), ("ichain", None, 4, 4), ("isquare", None, 3, 3), ("iskew", None, 3, 3), ("mixed", None, 4, 4), ("mixed2", None, 2, 3), ("mixed3", None, 2, 3), ("tenth", None, 6, 3), ("tenth4", None, 5, 3), ("tenths", None, 3, 3)]:
    name = "%s-%s" % (which, "x".join(map(str, size or ())))
    CASES.append(dict(name="all-" + name, fn="bundled",
                      args=dict(which=which, size=size, N=N, R=R, history=["none"], parts=["pairs"]), opts=dict(budget=120),
                      bounds="%s, orders 1..%d, translation numbers -%d..%d" % (name, N, R, R)))
    CASES.append(dict(name="fold-" + name, fn="bundled",
                      args=dict(which=which, size=size, N=N, R=R, history=["none", "farther", "nearer", "distance", "sites", "another"],
                                parts=["ends", "fold"]), opts=dict(budget=120),
                      bounds="%s, orders 1..%d, after other queries" % (name, N)))
    CASES.append(dict(name="onsite-" + name, fn="onsite", args=dict(which=which, size=size), opts=dict(budget=60),
                      bounds="%s, on-site bonds" % name))
for which, size, N, R in [("square", (1, 1), 3, 3), ("honeycomb", (1, 1), 3, 2), ("chain", (2,), 4, 4)]:
    CASES.append(dict(name="later-%s" % which, fn="bundled",
                      args=dict(which=which, size=size, N=N, R=R, history=["farther", "nearer", "distance", "another"], parts=["pairs"]),
                      opts=dict(budget=120), bounds="%s, orders 1..%d, after other queries" % (which, N)))
for which, size, N, R in [("chain", (1,), 9, 11), ("chain", (10,), 7, 1), ("square", (1, 1), 9, 5), ("square", (4, 3), 2, 1),
                          ("honeycomb", (3, 2), 2, 1), ("triangle", (4, 1), 2, 4), ("kagome", (2, 2), 2, 1), ("cubic", (1, 1, 1), 5, 3),
                          ("dimer", None, 10, 8)]:
    name = "%s-%s" % (which, "x".join(map(str, size or ())))
    CASES.append(dict(name="large-" + name, fn="bundled",
                      args=dict(which=which, size=size, N=N, R=R, history=["none"], parts=["pairs", "ends", "fold"]),
                      opts=dict(budget=120), bounds="%s, orders 1..%d, translation numbers -%d..%d" % (name, N, R, R)))
