"""P16: lattice construction validates its input and gives the dual reciprocal vectors."""
from math import pi

import numpy as np

from HamiltonianPy.lattice import Lattice
import HamiltonianPy.lattice.lattice as latmod


def dot(u, v):
    s = 0
    for a, b in zip(u, v):
        s = s + a * b
    return s


def gram_det(vs):
    g = [[dot(u, v) for v in vs] for u in vs]
    if len(g) == 1:
        return g[0][0]
    if len(g) == 2:
        return g[0][0] * g[1][1] - g[0][1] * g[1][0]
    (a, b, c), (d, e, f), (h, i, j) = g
    return a * (e * j - f * i) - b * (d * j - f * h) + c * (d * i - e * h)


def normals(vs, m):
    """vectors spanning the complement of span(vs), without square roots"""
    if len(vs) == m:
        return []
    if m == 2:
        return [[-vs[0][1], vs[0][0]]]
    if len(vs) == 2:
        u, v = vs
        return [[u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]]
    x, y, z = vs[0]
    return [[-y, x, 0], [-z, 0, x], [0, -z, y]]


def dual(ctx, k, m, shape, npoint):
    """shape: full (every component free) or lower (row i has only the components up to i + m - k)"""
    vs = [[ctx.real("a%d%d" % (i, j), -3, 3) if shape == "full" or j <= i + m - k else 0.0 for j in range(m)]
          for i in range(k)]
    ctx.assume(gram_det(vs) >= 1 / 4)
    for i in range(k):
        for j in range(i):
            ctx.assume(dot([a - b for a, b in zip(vs[i], vs[j])], [a - b for a, b in zip(vs[i], vs[j])]) >= 1 / 16)
    pts = [[float(2 * i * (j + 1)) for j in range(m)] for i in range(npoint)]
    lat = Lattice(np.array(pts), np.array(vs), name="L")
    bs = lat.bs
    ctx.check(bs.shape == (k, m), "as many reciprocal vectors as translations")
    for i in range(k):
        for j in range(k):
            ctx.check(ctx.close(dot(bs[i], vs[j]), 2 * pi if i == j else 0, 1e-6), "b_i . a_j = 2 pi delta_ij")
        for n in normals(vs, m):
            ctx.check(ctx.close(dot(bs[i], n), 0, 1e-6), "reciprocal vectors lie in the span of the translations")
    ctx.check(ctx.all([lat.point_num == npoint, lat.space_dim == m, lat.trans_dim == k, lat.name == "L"]), "counts")
    got = lat.vectors
    for i in range(k):
        for j in range(m):
            ctx.check(got[i, j] == vs[i][j], "vectors as given")
    got = lat.points
    for i in range(npoint):
        for j in range(m):
            ctx.check(got[i, j] == pts[i][j], "points as given")


WHOLE = {1: [[[1]], [[-3]], [[7]]], 2: [[[1, 0], [0, 1]], [[2, 1], [-1, 3]], [[0, -2], [5, 1]]],
         3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 1, 0], [-1, 3, 1], [0, 1, 4]], [[0, 0, 3], [1, 1, 0], [1, -1, 1]]]}


def whole(ctx, m):
    """points and vectors given as integers, or one of them"""
    vs = ctx.choice("vs", WHOLE[m])[:ctx.concrete(ctx.int("k", 1, m))]
    n = ctx.concrete(ctx.int("n", 1, 3))
    off = [ctx.concrete(ctx.int("p%d" % j, -1, 1)) for j in range(m)]
    pts = [[o + i * (j + 1) for j, o in enumerate(off)] for i in range(n)]
    kinds = ctx.choice("kinds", [(int, int), (int, float), (float, int)])
    lat = Lattice(np.array(pts, dtype=kinds[0]), np.array(vs, dtype=kinds[1]))
    for i, b in enumerate(lat.bs):
        for j, v in enumerate(vs):
            ctx.check(ctx.close(dot(b, v), 2 * pi if i == j else 0, 1e-9), "b_i . a_j = 2 pi delta_ij")
        for w in normals(vs, m):
            ctx.check(ctx.close(dot(b, w), 0, 1e-9), "reciprocal vectors lie in the span of the translations")
    ctx.eq([list(p) for p in lat.points], pts, "points as given")
    ctx.eq([list(v) for v in lat.vectors], vs, "vectors as given")
    ctx.raises(ValueError, lambda: Lattice(np.array(pts + pts[:1], dtype=kinds[0]), np.array(vs, dtype=kinds[1])),
               label="ValueError for duplicate points")


def construct(ctx, pts, vs):
    return ctx.outcome(lambda: Lattice(np.array(pts), np.array(vs)))


def points_duplicate(ctx, m, n, precision):
    """n points in m dimensions, any coordinates: rejected exactly when two of them coincide"""
    if precision is not None:
        latmod.set_float_point_precision(precision)
    tol = 10.0 ** -(4 if precision is None else precision)
    try:
        pts = [[float(3 * i + 3)] * m for i in range(n)]
        a, b = ctx.choice("at", [(0, 1), (1, 0)] if n == 2 else [(0, 1), (n - 1, n - 2), (0, n - 1), (n - 1, n // 3)])
        p = pts[a] = ctx.real_vec("p", m, -1, 1)
        q = pts[b] = ctx.real_vec("q", m, -1, 1)
        vs = [[100.0 if i == j else 0.0 for j in range(m)] for i in range(m)]
        o = construct(ctx, pts, vs)
        d2 = dot([a - b for a, b in zip(p, q)], [a - b for a, b in zip(p, q)])
        if o.ok:
            ctx.check(d2 >= tol * tol * 0.999, "no duplicate point accepted")
            got = o.value.points
            for i in range(n):
                for j in range(m):
                    ctx.check(got[i, j] == pts[i][j], "points as given")
        else:
            ctx.check(o.raised(ValueError), "ValueError for duplicate points")
            ctx.check(d2 <= tol * tol * 1.001, "distinct points are not rejected")
    finally:
        latmod.set_float_point_precision(4)


def vectors_duplicate(ctx, m):
    p, q = ctx.real_vec("p", m, -1, 1), ctx.real_vec("q", m, -1, 1)
    if m > 1:
        # independence fails gradually; keep clear of it except for (near) coincidence
        area = p[0] * q[1] - p[1] * q[0]
        d2 = dot([a - b for a, b in zip(p, q)], [a - b for a, b in zip(p, q)])
        ctx.assume(ctx.any([area * area >= 1 / 100, d2 <= 0.9e-8]))
        ctx.assume(dot(p, p) >= 1 / 16)
    vs = [p, q]
    o = construct(ctx, [[0.0] * m], vs)
    if o.ok:
        ctx.check(area * area >= 1 / 100, "no duplicate vector accepted")
    else:
        ctx.check(o.raised(ValueError), "ValueError for duplicate vectors")
        ctx.check(d2 <= 1.001e-8, "distinct vectors are not rejected")


def vectors_triple(ctx, precision):
    """three translation vectors of which any two are nearly equal or not"""
    if precision is not None:
        latmod.set_float_point_precision(precision)
    tol = 10.0 ** -(4 if precision is None else precision)
    try:
        p, q = ctx.real_vec("p", 3, -1, 1), ctx.real_vec("q", 3, -1, 1)
        area = p[0] * q[1] - p[1] * q[0]
        d2 = dot([a - b for a, b in zip(p, q)], [a - b for a, b in zip(p, q)])
        ctx.assume(ctx.any([ctx.all([area * area >= 1 / 4, d2 >= 1.1 * tol * tol]), d2 <= 0.9 * tol * tol]))
        ctx.assume(dot(p, p) >= 1 / 16)
        i, j = ctx.choice("at", [(0, 1), (1, 2), (2, 0), (0, 2), (1, 0)])
        vs = [[0.0, 0.0, 5.0] for _ in range(3)]
        vs[i], vs[j] = p, q
        o = construct(ctx, [[0.0] * 3], vs)
        if o.ok:
            ctx.check(d2 >= tol * tol, "no duplicate vector accepted")
        else:
            ctx.check(o.raised(ValueError), "ValueError for duplicate vectors")
            ctx.check(d2 <= tol * tol, "distinct vectors are not rejected")
    finally:
        latmod.set_float_point_precision(4)


def shapes(ctx, values):
    """every combination of dimensions 1..5 and numbers of vectors 1..5"""
    m = ctx.concrete(ctx.int("space", 1, 5))
    w = ctx.concrete(ctx.int("vector_space", 1, 5))
    k = ctx.concrete(ctx.int("vectors", 1, 5))
    n = ctx.concrete(ctx.int("points", 1, 3))
    x = ctx.real("x", 1, 2) if values else 1.0
    pts = [[x * i + j for j in range(m)] for i in range(n)]
    vs = [[10 * x if i == j else 0.0 * x for j in range(w)] for i in range(k)]
    if k > w:
        for i in range(w, k):
            vs[i][0] = 10 * x + i
    o = construct(ctx, pts, vs)
    valid = m <= 3 and w == m and k <= m
    ctx.check(o.ok == valid, "accepted exactly when the dimensions fit")
    if not valid:
        ctx.check(o.raised(ValueError), "ValueError for dimensions which do not fit")
    else:
        ctx.check(ctx.all([o.value.space_dim == m, o.value.trans_dim == k, o.value.point_num == n]), "dimensions")


CASES = []
for k, m in [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]:
    for shape in ("full", "lower"):
        if shape == "lower" and k < 2:
            continue
        for npoint in (1, 2):
            CASES.append(dict(name="dual-%d-%d-%s-%d" % (k, m, shape, npoint), fn="dual",
                              args=dict(k=k, m=m, shape=shape, npoint=npoint), opts=dict(budget=60),
                              bounds="%d translations in %d dimensions, components in [-3, 3], Gram determinant >= 1/4"
                                     % (k, m)))
for m in (1, 2, 3):
    for n in (2, 3, 12):
        for precision in (None,) if n > 3 else (None, 1, 3):
            CASES.append(dict(name="points-%d-%d-%s" % (m, n, precision), fn="points_duplicate",
                              args=dict(m=m, n=n, precision=precision), opts=dict(budget=60),
                              bounds="%d points in %d dimensions, coordinates in [-1, 1]" % (n, m)))
for m in (2, 3):
    CASES.append(dict(name="vectors-%d" % m, fn="vectors_duplicate", args=dict(m=m), opts=dict(budget=60),
                      bounds="two vectors, components in [-1, 1], either nearly equal or clearly independent"))
for precision in (None, 1, 3):
    CASES.append(dict(name="vectors-triple-%s" % precision, fn="vectors_triple", args=dict(precision=precision), opts=dict(budget=60),
                      bounds="three vectors in any order, two with components in [-1, 1], nearly equal or independent"))
for m in (1, 2, 3):
    CASES.append(dict(name="whole-%d" % m, fn="whole", args=dict(m=m), opts=dict(budget=60),
                      bounds="three choices of integer vectors in %d dimensions, 1..3 integer points" % m))
CASES.append(dict(name="shapes", fn="shapes", args=dict(values=False), opts=dict(budget=60, witnesses=400),
                  bounds="space, vector dimension and vector count 1..5, 1..3 points"))
CASES.append(dict(name="shapes-real", fn="shapes", args=dict(values=True), opts=dict(budget=60),
                  bounds="space, vector dimension and vector count 1..5, 1..3 points, scale in [1, 2]"))
