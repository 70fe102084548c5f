"""P23: point location relative to lines and convex polygons is geometrically right."""
import numpy as np

from HamiltonianPy.line2d import Line2D, Location as On
from HamiltonianPy.polygon import Location as At, Polygon
import HamiltonianPy.lattice as H

EPS = 1e-6      # points are on a line or at least this far from it
FORMS = {"list": list, "tuple": tuple, "array": np.array}


# -- lines ------------------------------------------------------------------------------------
def points(ctx, kind, R, least, whole=False):
    """whole: integers"""
    number, zero, R = (ctx.int, 0, int(R)) if whole else (ctx.real, 0.0, R)
    x0, y0 = number("x0", -R, R), number("y0", -R, R)
    dx = zero if kind == "vertical" else number("dx", -R, R)
    dy = zero if kind == "horizontal" else number("dy", -R, R)
    for d, flat in ((dx, "vertical"), (dy, "horizontal")):
        if kind != flat:
            ctx.assume(ctx.any([d >= least, d <= -least]))
    return x0, y0, dx, dy


def line(ctx, kind, R, least, whole=False):
    x0, y0, dx, dy = points(ctx, kind, R, least, whole)
    form = FORMS[ctx.choice("form", sorted(FORMS))]
    ln = Line2D(form([x0, y0]), form([x0 + dx, y0 + dy]))
    ctx.check(bool(ln.IsHorizontal) == (kind == "horizontal"), "IsHorizontal")
    ctx.check(bool(ln.IsVertical) == (kind == "vertical"), "IsVertical")
    x, y = ctx.real("x", -2 * R, 2 * R), ctx.real("y", -2 * R, 2 * R)
    if kind == "horizontal":
        h = y - y0
        low, high = On.BELOW, On.ABOVE
    elif kind == "vertical":
        h = x - x0
        low, high = On.LEFT, On.RIGHT
    else:
        h = (y - y0) * dx - dy * (x - x0)
        if bool(dx < 0):
            h = -h
        low, high = On.BELOW, On.ABOVE
    ctx.assume(ctx.any([h == 0, h >= EPS, h <= -EPS]))
    got = ln.LocationRelation(form([x, y]))
    if got is On.ON:
        ctx.check(h == 0, "on the line")
    elif got is low:
        ctx.check(h < 0, "below or left of the line")
    elif got is high:
        ctx.check(h > 0, "above or right of the line")
    else:
        ctx.check(False, "a side of the line")


def steep(ctx, kind):
    """lines close to the vertical or to the horizontal without being either"""
    x0, y0 = ctx.real("x0", -1.0, 1.0), ctx.real("y0", -1.0, 1.0)
    small, large = ctx.real("small", 1e-4, 0.05), ctx.real("large", 0.05, 1.0)
    small = small if ctx.choice("sign", [1, -1]) > 0 else -small
    dx, dy = (small, large) if kind == "steep" else (large, small)
    ln = Line2D([x0, y0], [x0 + dx, y0 + dy])
    ctx.check(not ln.IsHorizontal, "IsHorizontal")
    ctx.check(not ln.IsVertical, "IsVertical")
    x, y = ctx.real("x", -2.0, 2.0), ctx.real("y", -2.0, 2.0)
    h = (y - y0) * dx - dy * (x - x0)
    if bool(dx < 0):
        h = -h
    ctx.assume(ctx.any([h == 0, h >= EPS, h <= -EPS]))
    got = ln.LocationRelation([x, y])
    want = On.ON if bool(h == 0) else On.ABOVE if bool(h > 0) else On.BELOW
    ctx.check(got is want, "the side of the line")
    q = ln(x)
    ctx.check(ctx.all([q[0] == x, ctx.close((q[1] - y0) * dx, (x - x0) * dy, 1e-6)]), "a point of the line")


def tolerance(ctx, kind, R, least, lo, hi):
    """an explicit tolerance"""
    x0, y0, dx, dy = points(ctx, kind, R, least)
    t = ctx.real("tol", lo, hi)
    ln = Line2D([x0, y0], [x0 + dx, y0 + dy], tol=t)
    ctx.check(bool(ln.IsHorizontal) == (kind == "horizontal"), "IsHorizontal")
    ctx.check(bool(ln.IsVertical) == (kind == "vertical"), "IsVertical")
    x, y = ctx.real("x", -2 * R, 2 * R), ctx.real("y", -2 * R, 2 * R)
    low, high = (On.LEFT, On.RIGHT) if kind == "vertical" else (On.BELOW, On.ABOVE)
    # how far the point is off the line, along x for vertical lines and along y for others
    off = x - x0 if kind == "vertical" else y - y0 - dy / dx * (x - x0)
    got = ln.LocationRelation([x, y], tol=t)
    ctx.check(ctx.implies(ctx.all([off <= 0.999 * t, off >= -0.999 * t]), got is On.ON), "on the line to the tolerance")
    ctx.check(ctx.implies(off >= 1.001 * t, got is high), "above or right of the line")
    ctx.check(ctx.implies(off <= -1.001 * t, got is low), "below or left of the line")


def coordinate(ctx, kind, R, least, whole=False):
    x0, y0, dx, dy = points(ctx, kind, R, least, whole)
    ln = Line2D([x0, y0], [x0 + dx, y0 + dy])
    k = ctx.real("known", -2 * R, 2 * R)
    which = ctx.choice("which", ["x", "y", "default"])
    call = ctx.choice("call", ["Coordinate", "call"])
    f = ln.Coordinate if call == "Coordinate" else ln
    g = (lambda: f(k)) if which == "default" else (lambda: f(k, which=which))
    if (kind, which) in (("horizontal", "y"), ("vertical", "x"), ("vertical", "default")):
        ctx.raises(RuntimeError, g, label="RuntimeError for an undetermined coordinate")
        return
    x, y = g()
    ctx.check((y if which == "y" else x) == k, "the known coordinate")
    ctx.eq((y - y0) * dx - (x - x0) * dy, 0.0, "a point of the line", tol=1e-6)


def factory(ctx, kind, R, least, n, whole=False):
    x0, y0, dx, dy = points(ctx, kind, R, least, whole)
    ln = Line2D([x0, y0], [x0 + dx, y0 + dy])
    r = ctx.real_vec("r", n, -3.0, 3.0)
    ctx.eq([list(p) for p in ln.PointsFactory(list(r))], [[x0 + t * dx, y0 + t * dy] for t in r], "points of the given ratios",
           tol=1e-9)
    ps = ln.PointsFactory()
    ctx.check(len(ps) == 101, "default ratios")
    for j in (0, 1, 50, 100):
        ctx.eq(list(ps[j]), [x0 + j * dx / 100, y0 + j * dy / 100], "default ratios", tol=1e-9)


def same_point(ctx, R):
    x0, y0 = ctx.real("x0", -R, R), ctx.real("y0", -R, R)
    x1, y1 = ctx.real("x1", -R, R), ctx.real("y1", -R, R)
    same = ctx.all([x0 == x1, y0 == y1])
    far = ctx.any([x1 - x0 >= EPS, x0 - x1 >= EPS, y1 - y0 >= EPS, y0 - y1 >= EPS])
    ctx.assume(ctx.any([same, far]))
    o = ctx.outcome(lambda: Line2D([x0, y0], (x1, y1)))
    ctx.check(ctx.iff(o.ok, ctx.not_(same)), "identical points are rejected")
    if not o.ok:
        ctx.check(o.raised(ValueError), "with ValueError")


# -- polygons -----------------------------------------------------------------------------------
S3 = 3 ** 0.5
SHAPES = {
    "triangle": [[0.0, 0.0], [2.0, 0.5], [0.5, 1.5]],
    "thin": [[-1.0, -1.0], [3.0, 0.0], [2.75, 0.25]],
    "right": [[0.0, 0.0], [1.0, 0.0], [0.0, 2.0]],
    "square": [[-1.0, -1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0]],
    "diamond": [[0.0, -1.0], [2.0, 0.0], [0.0, 1.0], [-2.0, 0.0]],
    "kite": [[0.0, 0.0], [1.5, 0.25], [2.0, 2.0], [0.25, 1.0]],
    "penta": [[0.0, 0.0], [2.0, -0.5], [3.0, 1.0], [1.5, 2.5], [-0.5, 1.5]],
    "hexagon": [[1.0, 0.0], [0.5, S3 / 2], [-0.5, S3 / 2], [-1.0, 0.0], [-0.5, -S3 / 2], [0.5, -S3 / 2]],
    "octagon": [[1.0, -2.0], [2.0, -1.0], [2.0, 1.0], [1.0, 2.0], [-1.0, 2.0], [-2.0, 1.0], [-2.0, -1.0], [-1.0, -2.0]],
    "sixteen": [[4.0, 0.0], [3.75, 1.5], [3.0, 2.75], [1.5, 3.5], [0.0, 3.75], [-1.5, 3.5], [-3.0, 2.75], [-3.75, 1.5],
                [-4.0, 0.0], [-3.75, -1.5], [-3.0, -2.75], [-1.5, -3.5], [0.0, -3.75], [1.5, -3.5], [3.0, -2.75], [3.75, -1.5]],
    "zone": "TRIANGLE_CELL_KS",
    "zone-s": "SQUARE_S_MS",
    "zone-star": "TRIANGLE_STAR_KS",
}


def shape(name):
    v = SHAPES[name]
    if isinstance(v, str):
        v = np.array(getattr(H, v)).tolist()
        # going around the centre
        v.sort(key=lambda p: np.arctan2(p[1], p[0]))
    return v


def side(p, u, v):
    """positive to the left of u -> v"""
    return (v[0] - u[0]) * (p[1] - u[1]) - (v[1] - u[1]) * (p[0] - u[0])


def turned(vs, k, back):
    vs = vs[k:] + vs[:k]
    return vs[::-1] if back else vs


def where(ctx, vs, kind, lo, hi):
    """a point of the given kind; vs counter-clockwise"""
    n = len(vs)
    if kind == "corner":
        return list(vs[ctx.concrete(ctx.int("k", 0, n - 1))]), At.CORNER
    if kind in ("edge", "beyond"):
        k = ctx.concrete(ctx.int("k", 0, n - 1))
        u, v = vs[k], vs[(k + 1) % n]
        t = ctx.real("t", 0.001, 0.999) if kind == "edge" else ctx.real("t", -4.0, 5.0)
        if kind == "beyond":
            ctx.assume(ctx.any([t <= -0.001, t >= 1.001]))
        return [a + t * (b - a) for a, b in zip(u, v)], At.BOUNDARY if kind == "edge" else At.OUTSIDE
    p = [ctx.real("x", lo, hi), ctx.real("y", lo, hi)]
    hs = [side(p, vs[k], vs[(k + 1) % n]) for k in range(n)]
    if kind == "inside":
        for h in hs:
            ctx.assume(h >= EPS)
        return p, At.INSIDE
    ctx.assume(ctx.any([h <= -EPS for h in hs]))
    for h in hs:
        ctx.assume(ctx.any([h >= EPS, h <= -EPS]))
    return p, At.OUTSIDE


def locate(ctx, vs, kind, ref, lo, hi, turns, form="list"):
    p, want = where(ctx, vs, kind, lo, hi)
    k, back = ctx.choice("turned", turns)
    g = Polygon(np.array(turned(vs, k, back)))
    ctx.check(g.vertices_num == len(vs), "number of vertices")
    f = FORMS[form]
    got = g.LocationRelation(f(p), f(ref))
    ctx.check(got is want, "%s point" % want.name.lower())


def polygon_tolerance(ctx, name, kind, tol):
    """an explicit tolerance: points clearly farther than it from everything else"""
    vs = shape(name)
    n = len(vs)
    ref = [sum(v[j] for v in vs) / n for j in (0, 1)]
    lo, hi = min(min(v) for v in vs) - 2, max(max(v) for v in vs) + 2
    if kind == "corner":
        u = vs[ctx.concrete(ctx.int("k", 0, n - 1))]
        e = [ctx.real("ex", -tol, tol), ctx.real("ey", -tol, tol)]
        ctx.assume(e[0] * e[0] + e[1] * e[1] <= 0.99 * tol * tol)
        p, want = [a + b for a, b in zip(u, e)], At.CORNER
    elif kind == "edge":
        k = ctx.concrete(ctx.int("k", 0, n - 1))
        u, v = vs[k], vs[(k + 1) % n]
        t = ctx.real("t", 0.0, 1.0)
        p, want = [a + t * (b - a) for a, b in zip(u, v)], At.BOUNDARY
        others = [j for j in range(n) if j != k]
    else:
        p = [ctx.real("x", lo, hi), ctx.real("y", lo, hi)]
        want = At.INSIDE if kind == "inside" else At.OUTSIDE
        others = range(n)
    if kind != "corner":
        hs = []
        for j in others:
            u, v = vs[j], vs[(j + 1) % n]
            h = side(p, u, v)
            # clear of the line along x and along y
            m = 1.01 * tol * max(abs(v[0] - u[0]), abs(v[1] - u[1]))
            ctx.assume(h >= m if kind != "outside" else ctx.any([h >= m, h <= -m]))
            hs.append(h)
        if kind == "outside":
            ctx.assume(ctx.any([h < 0 for h in hs]))
        for v in vs:
            ctx.assume((p[0] - v[0]) * (p[0] - v[0]) + (p[1] - v[1]) * (p[1] - v[1]) >= 1.01 * tol * tol)
    k, back = ctx.choice("turned", [(0, False), (1, True)])
    g = Polygon(np.array(turned(vs, k, back)), tol=tol)
    got = g.LocationRelation(p, ref, tol=tol)
    ctx.check(got is want, "%s point" % want.name.lower())


def interior(ctx, vs, lo, hi, margin):
    r = [ctx.real("rx", lo, hi), ctx.real("ry", lo, hi)]
    for k in range(len(vs)):
        ctx.assume(side(r, vs[k], vs[(k + 1) % len(vs)]) >= margin)
    return r


def polygon(ctx, name, kind, refs):
    """a fixed polygon: the point and (refs) the interior reference point are arbitrary"""
    vs = shape(name)
    lo, hi = min(min(v) for v in vs) - 2, max(max(v) for v in vs) + 2
    if refs:
        ref = interior(ctx, vs, lo, hi, 1e-3)
    else:
        ref = [sum(v[j] for v in vs) / len(vs) for j in (0, 1)]
    n = len(vs)
    turns = [(0, False)] if refs else [(0, False), (1, False), (n - 1, True), (0, True)]
    locate(ctx, vs, kind, ref, lo, hi, turns, ctx.choice("form", sorted(FORMS)) if not refs else "array")


def family(ctx, name, kind):
    """polygons with free parameters"""
    if name == "rectangle":
        w, h = ctx.real("w", 0.5, 3.0), ctx.real("h", 0.5, 3.0)
        vs = [[0.0, 0.0], [w, 0.0], [w, h], [0.0, h]]
        ref = [w / 2, h / 4]
    elif name == "triangle":
        a, b = ctx.real("a", -1.0, 2.0), ctx.real("b", 0.5, 2.0)
        vs = [[-1.0, 0.0], [1.0, 0.0], [a, b]]
        ref = [a / 2, b / 2]
    elif name == "shear":
        a = ctx.real("a", -1.0, 1.0)
        vs = [[0.0, 0.0], [2.0, 0.0], [2.0 + a, 1.0], [a, 1.0]]
        ref = [1 + a / 2, 0.5]
    elif name == "tilted":
        a = ctx.real("a", -0.75, 0.75)
        vs = [[0.0, 0.0], [2.0, a], [2.0, 2.0 + a], [0.0, 2.0]]
        ref = [1.0, 1 + a / 2]
    for j, c in enumerate(vs):
        for d in vs[:j]:
            # sides are parallel to an axis or clearly not
            for q in (0, 1):
                ctx.assume(ctx.any([c[q] == d[q], c[q] - d[q] >= 0.01, d[q] - c[q] >= 0.01]))
    locate(ctx, vs, kind, ref, -4.0, 5.0, [(0, False), (1, True)])


def duplicates(ctx, n):
    i = ctx.concrete(ctx.int("i", 0, n - 1))
    j = ctx.concrete(ctx.int("j", 0, n - 1))
    ctx.assume(i < j)
    vs = [[ctx.real("x%d" % k, -2.0, 2.0), ctx.real("y%d" % k, -2.0, 2.0)] for k in range(n)]
    vs[j] = list(vs[i])
    ctx.raises(ValueError, lambda: Polygon(np.array(vs)), label="ValueError for duplicate vertices")


CASES = []


def case(name, fn, args, bounds, tier=None, **o):
    opts = dict(budget=90)
    opts.update(o)
    CASES.append(dict(name=name, fn=fn, args=args, opts=opts, bounds=bounds, **({"tier": tier} if tier else {})))


for kind in ("horizontal", "vertical", "slanted"):
    a = dict(kind=kind, R=3.0, least=0.05)
    case("line-" + kind, "line", a, "any line of this kind through points within 3 (components at least 0.05), any point")
    case("coordinate-" + kind, "coordinate", a, "any line of this kind, any known coordinate")
    case("factory-" + kind, "factory", dict(a, n=3), "any line of this kind, three arbitrary ratios")
    a = dict(kind=kind, R=5, least=1, whole=True)
    case("line-whole-" + kind, "line", a, "any line of this kind through integer points within 10, any point")
    case("coordinate-whole-" + kind, "coordinate", a, "any line of this kind through integer points, any known coordinate")
    case("factory-whole-" + kind, "factory", dict(a, n=3), "any line of this kind through integer points, three arbitrary ratios")
for kind in ("steep", "flat"):
    case("line-" + kind, "steep", dict(kind=kind), "lines with components in [0.0001, 0.05] and [0.05, 1], any point")
for kind in ("horizontal", "vertical", "slanted"):
    case("tolerance-" + kind, "tolerance", dict(kind=kind, R=3.0, least=0.25, lo=1e-6, hi=0.2),
         "any line of this kind (components at least 0.25), any tolerance in [1e-6, 0.2], any point")
for name in ("triangle", "square", "kite", "penta"):
    for kind in ("corner", "edge", "inside", "outside"):
        case("tolerance-%s-%s" % (name, kind), "polygon_tolerance", dict(name=name, kind=kind, tol=0.05),
             "%s, tolerance 0.05: any %s point clear of the other lines" % (name, kind))
case("same-point", "same_point", dict(R=2.0), "any two points, equal or differing by at least 1e-6")
for name in SHAPES:
    for kind in ("corner", "edge", "beyond", "inside", "outside"):
        case("%s-%s" % (name, kind), "polygon", dict(name=name, kind=kind, refs=False),
             "%s: any %s point, both orientations, three starts" % (name, kind))
for name in ("triangle", "right", "square", "kite", "penta", "zone"):
    for kind in ("edge", "beyond", "inside", "outside"):
        case("ref-%s-%s" % (name, kind), "polygon", dict(name=name, kind=kind, refs=True),
             "%s: any %s point, any interior reference point" % (name, kind))
for name in ("rectangle", "triangle", "shear", "tilted"):
    for kind in ("corner", "edge", "beyond", "inside", "outside"):
        case("family-%s-%s" % (name, kind), "family", dict(name=name, kind=kind),
             "%s with free parameters, any %s point" % (name, kind))
for n in (3, 4):
    case("duplicates-%d" % n, "duplicates", dict(n=n), "%d vertices anywhere, two of them equal" % n)
