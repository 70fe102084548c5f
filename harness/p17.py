"""P17: generated and special clusters tile the lattice they are cut from; reciprocal data of the database."""
from itertools import product

import numpy as np

import HamiltonianPy.lattice as H
import lat as L

NEAR = 1e-6
CELLS = {"chain": "CHAIN_CELL", "square": "SQUARE_CELL", "triangle": "TRIANGLE_CELL", "honeycomb": "HONEYCOMB_CELL",
         "kagome": "KAGOME_CELL", "cubic": "CUBIC_CELL"}
# names, constants, parent lattice, number of sites
SPECIAL = [
    (["square_cross", "square_12", "cross"], "SQUARE_CROSS", "square", 12),
    (["square_z", "z"], "SQUARE_Z", "square", 10),
    (["square_s", "s"], "SQUARE_S", "square", 10),
    (["triangle_star", "triangle_13", "star", "SD"], "TRIANGLE_STAR", "triangle", 13),
    (["honeycomb_benzene", "honeycomb_6", "benzene"], "HONEYCOMB_BENZENE", "honeycomb", 6),
    (["honeycomb_diphenyl", "honeycomb_10", "diphenyl"], "HONEYCOMB_DIPHENYL", "honeycomb", 10),
    (["honeycomb_gear", "honeycomb_24", "gear"], "HONEYCOMB_GEAR", "honeycomb", 24),
]
# the unit cells themselves, by their definition (nearest-neighbour distance of the underlying Bravais lattice is 1)
S3 = 3 ** 0.5
PARENT = {
    "chain": ([[0.0]], [[1.0]]),
    "square": ([[0.0, 0.0]], [[1.0, 0.0], [0.0, 1.0]]),
    "triangle": ([[0.0, 0.0]], [[1.0, 0.0], [0.5, S3 / 2]]),
    "honeycomb": ([[0.0, -0.5 / S3], [0.0, 0.5 / S3]], [[1.0, 0.0], [0.5, S3 / 2]]),
    "kagome": ([[0.0, 0.0], [0.25, S3 / 4], [0.5, 0.0]], [[1.0, 0.0], [0.5, S3 / 2]]),
    "cubic": ([[0.0, 0.0, 0.0]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
}


def const(prefix, what):
    return np.array(getattr(H, prefix + "_" + what))


def integers(ctx, x, vectors, label):
    """coordinates in the basis of the vectors, which must be integers"""
    c = np.linalg.solve(np.array(vectors).T, np.array(x))
    r = [int(round(float(v))) for v in c]
    ctx.check(all(abs(float(v) - k) < NEAR for v, k in zip(c, r)), label)
    return r


def det(M):
    if len(M) == 1:
        return M[0][0]
    if len(M) == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** k * M[0][k] * det([r[:k] + r[k + 1:] for r in M[1:]]) for k in range(len(M)))


def solves(n, M):
    """numerators of the coordinates of the integer vector n in the rows of M (Cramer); they must be divisible by det M"""
    return [det([list(n) if r == k else list(M[r]) for r in range(len(M))]) for k in range(len(M))]


def origin(cells, vectors, point, others):
    """the position of the parent lattice for which all points of the cluster are on it"""
    for c in cells:
        o = [a - b for a, b in zip(point, c)]
        if all(sublattice(cells, vectors, [a - b for a, b in zip(q, o)]) is not None for q in others):
            return o
    return None


def sublattice(cells, vectors, x):
    for k, c in enumerate(cells):
        r = np.linalg.solve(np.array(vectors).T, np.array(x) - np.array(c))
        if np.max(np.abs(r - np.rint(r))) < NEAR:
            return k, [int(v) for v in np.rint(r)]
    return None


def tiles(ctx, lat, parent, reach):
    """every parent site, the translation numbers being arbitrary, is one cluster point plus one cluster translation"""
    cells, vectors = PARENT[parent]
    pts, vs = L.floats(lat.points), L.floats(lat.vectors)
    M = [integers(ctx, v, vectors, "translation vectors of the cluster are lattice vectors") for v in vs]
    D = det(M)
    ctx.check(abs(D) * len(cells) == len(pts), "one site per site")
    o = origin(cells, vectors, pts[0], pts)
    ctx.check(o is not None, "the points are sites of the parent lattice")
    where = [sublattice(cells, vectors, [a - b for a, b in zip(p, o)]) for p in pts]
    # any integer is a multiple of |D| plus a remainder
    n = []
    for k in range(len(vectors)):
        r = ctx.concrete(ctx.int("r%d" % k, 0, abs(D) - 1))
        n.append(ctx.int("q%d" % k, -reach, reach) * abs(D) + r)
    for c in range(len(cells)):
        hits = []
        for k, at in where:
            if k == c:
                num = solves([a - b for a, b in zip(n, at)], M)
                hits.append(ctx.all([x % abs(D) == 0 for x in num]))
        ctx.check(ctx.count(hits) == 1, "exactly one cluster point and translation")


def special(ctx, k):
    names, prefix, parent, size = SPECIAL[k]
    name = ctx.choice("name", names)
    lat = H.special_cluster(name)
    ctx.check(lat.point_num == size, "number of points")
    ctx.eq([list(p) for p in lat.points], [list(p) for p in const(prefix, "POINTS")], "published points")
    ctx.eq([list(p) for p in lat.vectors], [list(p) for p in const(prefix, "AS")], "published translation vectors")
    tiles(ctx, lat, parent, 200)


def generated(ctx, which, limits):
    """numbers of cells up to the limits (or the given ones); the cell and the point of the cell are arbitrary"""
    n = [m[0] if isinstance(m, tuple) else ctx.concrete(ctx.int("n%d" % k, 1, m)) for k, m in enumerate(limits)]
    prefix = CELLS[which]
    cells, vectors = PARENT[which]
    ctx.eq([list(p) for p in const(prefix, "POINTS")], cells, "unit cell", tol=1e-12)
    ctx.eq([list(p) for p in const(prefix, "AS")], vectors, "unit-cell vectors", tol=1e-12)
    lat = H.lattice_generator(which, *n)
    d = len(vectors)
    eff = n[:d]
    total = len(cells)
    for m in eff:
        total *= m
    ctx.check(lat.point_num == total, "number of points")
    pts = L.floats(lat.points)
    ctx.check(len(pts) == total, "number of points")
    ctx.eq([list(v) for v in lat.vectors], [[m * x for x in v] for m, v in zip(eff, vectors)], "translation vectors", tol=1e-9)
    k = [ctx.int("k%d" % i, 0, m - 1) for i, m in enumerate(eff)]
    shift = L.combine(k, vectors, len(vectors[0]))
    for c in cells:
        x = L.add(c, shift)
        ctx.check(ctx.count([ctx.all([ctx.close(a, b, NEAR) for a, b in zip(x, p)]) for p in pts]) == 1, "cell point translated")
    tiles(ctx, lat, which, 200)


def unknown(ctx):
    name = ctx.choice("name", ["", "CHAIN", "Square", "cross", "hexagon", "chain ", "square_z", "honeycomb_6", "cell"])
    ctx.raises(KeyError, lambda: H.lattice_generator(name, ctx.concrete(ctx.int("n", 1, 2))), label="KeyError for an unknown lattice")
    name = ctx.choice("special", ["", "CROSS", "chain", "square", "sd", "Z", "gear ", "triangle_12", "honeycomb_"])
    ctx.raises(KeyError, lambda: H.special_cluster(name), label="KeyError for an unknown cluster")


# prefix -> {points: (number of points, number of reciprocal vectors equally near, is half a reciprocal vector)}
ZONE = {
    "CHAIN_CELL": {"ES": (2, 1, True)},
    "SQUARE_CELL": {"XS": (4, 1, True), "MS": (4, 3, True)},
    "SQUARE_Z": {"XS": (4, 1, True), "MS": (4, 3, True)},
    "SQUARE_S": {"XS": (4, 1, True), "MS": (4, 3, True)},
    "SQUARE_CROSS": {},
    "HONEYCOMB_DIPHENYL": {},
    "CUBIC_CELL": {"XS": (6, 1, True), "MS": (12, 3, True), "KS": (8, 7, True)},
}
for _p in ["TRIANGLE_CELL", "HONEYCOMB_CELL", "KAGOME_CELL", "TRIANGLE_STAR", "HONEYCOMB_BENZENE", "HONEYCOMB_GEAR"]:
    ZONE[_p] = {"MS": (6, 1, True), "KS": (6, 2, False)}


def zone(ctx, prefix, R):
    A, B = L.floats(const(prefix, "AS")), L.floats(const(prefix, "BS"))
    for i, b in enumerate(B):
        for j, a in enumerate(A):
            ctx.eq(sum(x * y for x, y in zip(a, b)), 2 * np.pi if i == j else 0.0, "dual vectors", tol=1e-9)
    ctx.eq(list(const(prefix, "GAMMA")), [0.0] * len(A), "centre of the zone")
    kinds = ZONE[prefix]
    if not kinds:
        return
    kind = ctx.choice("kind", sorted(kinds))
    number, near, half = kinds[kind]
    ks = L.floats(const(prefix, kind))
    ctx.check(len(ks) == number, "number of points")
    i = ctx.concrete(ctx.int("i", 0, len(ks) - 1))
    k = ks[i]
    for q in ks[:i]:
        ctx.check(max(abs(a - b) for a, b in zip(k, q)) > 1e-3, "different points")
    # no reciprocal vector is nearer than the origin
    n = [ctx.int("n%d" % j, -R, R) for j in range(len(B))]
    n[1:] = [ctx.concrete(x) for x in n[1:]]
    G = L.combine(n, B, len(B))
    g2, gk = 0, 0
    for x, y in zip(G, k):
        g2, gk = g2 + x * x, gk + x * y
    ctx.check(gk <= g2 / 2 + 1e-9, "within the first zone")
    # and exactly as many are at the same distance as meet at such a point
    same, doubled = 0, False
    for t in product(range(-R, R + 1), repeat=len(B)):
        if any(t):
            g = L.combine(t, B, len(B))
            if abs(sum(x * y for x, y in zip(g, k)) - sum(x * x for x in g) / 2) < 1e-6:
                same += 1
            if max(abs(x - 2 * y) for x, y in zip(g, k)) < 1e-6:
                doubled = True
    ctx.check(same == near, "kind of point")
    ctx.check(doubled == half, "middle point")


CASES = []
for k in range(len(SPECIAL)):
    CASES.append(dict(name="special-%s" % SPECIAL[k][0][-1], fn="special", args=dict(k=k), opts=dict(budget=60),
                      bounds="all names; every parent site with translation numbers up to 200 times the number of cells"))
for which, limits, deep in [("chain", (6, 2, 2), (12, 2, 2)), ("square", (3, 3, 2), (6, 6, 1)), ("triangle", (3, 3, 1), (5, 5, 1)),
                            ("honeycomb", (3, 2, 1), (5, 4, 1)), ("kagome", (2, 3, 1), (4, 4, 1)), ("cubic", (2, 2, 2), (3, 3, 3))]:
    CASES.append(dict(name="generated-" + which, fn="generated", args=dict(which=which, limits=limits), opts=dict(budget=90),
                      bounds="numbers of cells up to %s, translation numbers of sites up to 200 times the number of cells" % (limits,)))
    CASES.append(dict(name="more-" + which, fn="generated", args=dict(which=which, limits=deep), opts=dict(budget=90),
                      tier="thorough", bounds="numbers of cells up to %s" % (deep,)))
for which, size in [("chain", (25,)), ("square", (9, 2)), ("square", (1, 11)), ("triangle", (7, 2)), ("honeycomb", (6, 1)),
                    ("honeycomb", (2, 7)), ("kagome", (5, 2)), ("kagome", (1, 6)), ("cubic", (5, 1, 2)), ("cubic", (1, 3, 4))]:
    CASES.append(dict(name="large-%s-%s" % (which, "x".join(map(str, size))), fn="generated",
                      args=dict(which=which, limits=tuple((k,) for k in size)), opts=dict(budget=90),
                      bounds="%s cells, translation numbers of sites up to 200 times the number of cells" % (size,)))
CASES.append(dict(name="unknown", fn="unknown", args={}, opts=dict(budget=60), bounds="names outside the documented ones"))
for prefix in ZONE:
    R = 2 if prefix.startswith("CUBIC") else 4
    CASES.append(dict(name="zone-%s" % prefix.lower(), fn="zone", args=dict(prefix=prefix, R=R), opts=dict(budget=60),
                      bounds="all published points; reciprocal vectors with numbers -%d..%d" % (R, R)))
