"""P14: the nth neighbour distance is the nth smallest distance in the lattice."""
from itertools import product

import numpy as np

import lat as L
from HamiltonianPy.lattice import Lattice

TOL = 0.6e-4            # distances are reported with four digits
GAP = 1e-3


def root(ctx, sq):
    return np.sqrt(sq)


def true_distances(ctx, pts, vs, R):
    """all |p_i - p_j + translation|, translation numbers -R..R, one of each pair of opposites"""
    m = len(pts[0])
    out = []
    seen = set()
    for t in product(*[range(-r, r + 1) for r in R]):
        shift = L.combine(t, vs, m)
        for i in range(len(pts)):
            for j in range(len(pts)):
                if (tuple(-x for x in t), j, i) in seen:
                    continue
                seen.add((t, i, j))
                d = [a - b + c for a, b, c in zip(pts[i], pts[j], shift)]
                if m == 1:
                    out.append(abs(d[0]))
                else:
                    out.append(np.linalg.norm(np.array(d)))
    return out


def examine(ctx, lat, dists, N, orders):
    order = ctx.choice("order", orders)
    got = {}
    for n in order:
        v = lat.neighbor_distance(n)
        if n in got:
            ctx.check(v == got[n], "the same value every time")
        got[n] = v
    ns = sorted(got)
    top = got[ns[-1]]
    if 0 in got:
        ctx.check(got[0] == 0, "0 for n = 0")
    for n in ns:
        if n:
            ctx.check(ctx.any([ctx.close(got[n], d, TOL) for d in dists]), "a distance of the lattice")
    for a, b in zip(ns, ns[1:]):
        ctx.check(got[a] < got[b], "strictly increasing")
    if ns == list(range(N + 1)):
        for d in dists:
            ctx.check(ctx.any([d > top + TOL] + [ctx.close(got[n], d, TOL) for n in ns]), "no distance skipped")


def separate(ctx, dists, reach):
    """distances are well separated: distinct ones differ by more than the rounding"""
    ds = [d for d in dists]
    for i, a in enumerate(ds):
        for b in ds[:i]:
            ctx.assume(ctx.any([a > reach, b > reach, ctx.close(a, b, 1e-9), a - b >= GAP, b - a >= GAP]))


def line(ctx, offsets, period, span, N, R):
    """points on a line: the first at 0, the others anywhere in their interval"""
    x = [0.0] + [ctx.real("x%d" % k, lo, hi) for k, (lo, hi) in enumerate(offsets)]
    d = true_distances(ctx, [[v] for v in x], [[period]], [R])
    separate(ctx, d, (N + 1) * period)
    for a in range(len(x)):
        for b in range(a):
            ctx.assume(ctx.any([x[a] - x[b] >= GAP, x[b] - x[a] >= GAP]))
    lat = Lattice(np.array([[v] for v in x]), np.array([[period]]))
    examine(ctx, lat, d, N, [list(range(N + 1)), [N] + list(range(N + 1))])


def plane(ctx, kind, lo, hi, size, N, R, reach):
    """a family of two-dimensional lattices with one free parameter, cut into a cluster of the given size"""
    b = ctx.real("b", lo, hi)
    if kind == "rect":
        pts, vs = [[0.0, 0.0]], [[1.0, 0.0], [0.0, b]]
    elif kind == "oblique":
        pts, vs = [[0.0, 0.0]], [[1.0, 0.0], [b, 1.0]]
    elif kind == "basis":
        pts, vs = [[0.0, 0.0], [0.0, b]], [[1.0, 0.0], [0.0, 1.0]]
    d = true_distances(ctx, pts, vs, R)
    separate(ctx, d, reach)
    m = 2
    big = [L.add(p, L.combine(t, vs, m)) for t in product(*[range(s) for s in size]) for p in pts]
    lat = Lattice(np.array(big), np.array([[s * x for x in v] for s, v in zip(size, vs)]))
    examine(ctx, lat, d, N, [list(range(N + 1))])


def bundled(ctx, which, size, N, R, another=False):
    """a lattice of the database (or CUSTOM): the pair of points and the translation numbers are arbitrary"""
    lat = L.make(which, size)
    pts, vs, m = L.floats(lat.points), L.floats(lat.vectors), lat.space_dim
    order = ctx.choice("order", [list(range(N + 1)), [N] + list(range(N)), [1, 0, N, 1] + list(range(N))])
    got = {}
    if another:
        L.use_another(lat)
    for n in order:
        v = lat.neighbor_distance(n)
        if n in got:
            ctx.check(v == got[n], "the same value every time")
        elif another:
            L.use_another(lat)
        got[n] = v
    ctx.check(got[0] == 0, "0 for n = 0")
    for n in range(N):
        ctx.check(got[n] < got[n + 1], "strictly increasing")
    i = ctx.concrete(ctx.int("i", 0, len(pts) - 1))
    j = ctx.concrete(ctx.int("j", 0, len(pts) - 1))
    t = [ctx.int("t%d" % k, -R, R) for k in range(len(vs))]
    if len(vs) > 1:
        t[1:] = [ctx.concrete(x) for x in t[1:]]
    d2 = 0
    for a, b, c in zip(pts[i], pts[j], L.combine(t, vs, m)):
        d2 = d2 + (a - b + c) * (a - b + c)
    # the distance is one of those reported, or greater than all of them
    hits = [ctx.all([d2 >= max(got[n] - TOL, 0) ** 2, d2 <= (got[n] + TOL) ** 2]) for n in range(N + 1)]
    ctx.check(ctx.any([d2 > (got[N] + TOL) ** 2] + hits), "no distance skipped")


def occurs(ctx, which, size, N, R):
    """every reported distance is the distance of two sites"""
    lat = L.make(which, size)
    pts, vs, m = L.floats(lat.points), L.floats(lat.vectors), lat.space_dim
    n = ctx.concrete(ctx.int("n", 0, N))
    got = lat.neighbor_distance(n)
    found = []
    for i, p in enumerate(pts):
        for q in pts[i:]:
            for t in product(*[range(-R, R + 1)] * len(vs)):
                d2 = sum((a - b + c) ** 2 for a, b, c in zip(p, q, L.combine(t, vs, m)))
                found.append(abs(d2 ** 0.5 - got) <= TOL)
    ctx.check(any(found), "a distance of the lattice")


CASES = []
for k, (off, period, N, R) in enumerate([([], 1.0, 4, 8), ([(0.1, 0.9)], 1.0, 3, 6), ([(0.1, 1.9)], 1.0, 3, 9),
                                         ([(-1.9, 1.9)], 2.0, 3, 6)]):
    CASES.append(dict(name="line-%d" % k, fn="line", args=dict(offsets=off, period=period, span=3, N=N, R=R),
                      opts=dict(budget=120), bounds="chain of period %s, further points in %s" % (period, off)))
for kind, lo, hi, size, N, R, reach in [("rect", 1.15, 1.18, (1, 1), 3, (4, 4), 2.2),
                                        ("rect", 1.15, 1.18, (3, 1), 2, (4, 4), 2.2),
                                        ("oblique", 0.12, 0.15, (1, 1), 2, (4, 4), 2.2),
                                        ("basis", 0.22, 0.24, (1, 1), 2, (3, 3), 1.9)]:
    CASES.append(dict(name="plane-%s-%s-%dx%d" % (kind, lo, *size), fn="plane",
                      args=dict(kind=kind, lo=lo, hi=hi, size=size, N=N, R=R, reach=reach),
                      opts=dict(budget=120), bounds="%s lattice, parameter in [%s, %s], cut into %s cells" % (kind, lo, hi, size)))
for which, size, N, R in [
        ("chain", (3,), 6, 8), ("square", (1, 1), 9, 5), ("square", (3, 2), 6, 3), ("triangle", (1, 1), 8, 5),
        ("triangle", (4, 1), 4, 4), ("honeycomb", (1, 1), 7, 4), ("honeycomb", (2, 2), 4, 2), ("kagome", (1, 1), 5, 3),
        ("cubic", (1, 1, 1), 5, 3), ("star", None, 3, 2), ("z", None, 4, 2), ("cross", None, 4, 2), ("benzene", None, 4, 2),
        ("skew", None, 5, 6), ("skew1", None, 6, 8), ("flat", None, 7, 8), ("spread", None, 5, 6), ("ladder", None, 6, 6),
        ("wire", None, 5, 6), ("layer", None, 5, 4), ("bcc", None, 4, 3), ("fcc", None, 4, 4), ("ortho1", None, 5, 4),
        ("ortho2", None, 5, 4), ("ortho3", None, 5, 4), ("triclinic", None, 4, 3), ("slab", None, 4, 4), ("dimer", None, 6, 8), ("ichain", None, 6, 5), ("isquare", None, 5, 4), ("iskew", None, 5, 4), ("mixed", None, 6, 5), ("mixed2", None, 4, 4), ("mixed3", None, 4, 4),
        ("tenth", None, 8, 4), ("tenths", None, 4, 4),
        ("chain", (1,), 30, 33), ("square", (2, 2), 20, 5), ("triangle", (1, 1), 16, 8), ("honeycomb", (3, 2), 5, 1), ("chain", (12,), 20, 3)]:
    a = dict(which=which, size=size, N=N, R=R)
    name = "%s-%s" % (which, "x".join(map(str, size or ())))
    CASES.append(dict(name="all-" + name, fn="bundled", args=a, opts=dict(budget=60),
                      bounds="%s, orders up to %d, translation numbers -%d..%d" % (which, N, R, R)))
    CASES.append(dict(name="occurs-" + name, fn="occurs", args=a, opts=dict(budget=60),
                      bounds="%s, orders up to %d" % (which, N)))

for which, size, N, R in [("chain", (3,), 4, 3), ("square", (1, 1), 4, 3), ("honeycomb", (1, 1), 4, 3), ("cubic", (1, 1, 1), 3, 2),
                          ("ladder", None, 4, 4), ("dimer", None, 5, 6)]:
    CASES.append(dict(name="another-%s" % which, fn="bundled", args=dict(which=which, size=size, N=N, R=R, another=True), opts=dict(budget=60),
                      bounds="%s, orders up to %d, another lattice used before and in between" % (which, N)))
