"""P22: rotation matrices are exact proper or improper rotations."""
import math

import numpy as np

import HamiltonianPy.rotation3d as R3

PI = math.pi
TOL = 1e-9
UNIT = {"X": [1.0, 0.0, 0.0], "Y": [0.0, 1.0, 0.0], "Z": [0.0, 0.0, 1.0]}


def rodrigues(n, r, s, c):
    """r * r times the rotation about n (of length r) by the angle with sine s and cosine c, counter-clockwise"""
    x, y, z = n
    cross = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
    return [[(c * r * r if i == j else 0) + s * r * cross[i][j] + (1 - c) * n[i] * n[j] for j in range(3)] for i in range(3)]


def product(*ms):
    m = ms[0]
    for k in ms[1:]:
        m = [[sum(m[i][l] * k[l][j] for l in range(3)) for j in range(3)] for i in range(3)]
    return m


def minus(m):
    return [[-x for x in r] for r in m]


def rows(ctx, m):
    ctx.check(np.shape(m) == (3, 3), "a 3x3 matrix")
    return [list(r) for r in m]


def angle(ctx, name, deg, R, whole=False):
    """an arbitrary angle: the number to be passed, its sine and cosine"""
    t = ctx.int(name, -int(R), int(R)) if whole else ctx.real(name, -R, R)
    s, c = ctx.sincos(t * PI / 180 if deg else t)
    return t, s, c


def options(ctx):
    """how the two options are given"""
    kw = {}
    deg, inv = ctx.choice("deg", [None, False, True]), ctx.choice("inversion", [None, False, True])
    if deg is not None:
        kw["deg"] = deg
    if inv is not None:
        kw["inversion"] = inv
    return kw, bool(deg), bool(inv)


def isometry(ctx, m, inv):
    """orthogonal, with the right determinant"""
    for i in range(3):
        for j in range(i, 3):
            ctx.eq(sum(m[i][k] * m[j][k] for k in range(3)), 1.0 if i == j else 0.0, "orthogonal", tol=TOL)
    (a, b, c), (d, e, f), (g, h, i) = m
    ctx.eq(a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g), -1.0 if inv else 1.0, "determinant", tol=TOL)


def about(ctx, which, R, whole=False):
    """about a coordinate axis, by any angle"""
    kw, deg, inv = options(ctx)
    t, s, c = angle(ctx, "theta", deg, R, whole)
    m = rows(ctx, getattr(R3, "Rotation" + which)(t, **kw))
    want = rodrigues(UNIT[which], 1, s, c)
    ctx.eq(m, minus(want) if inv else want, "rotation by the angle", tol=TOL)
    isometry(ctx, m, inv)
    ctx.eq(m, rows(ctx, R3.RotationGeneral(UNIT[which], t, **kw)), "same as about the vector", tol=TOL)
    if deg:
        m2 = rows(ctx, getattr(R3, "Rotation" + which)(t * PI / 180, inversion=inv))
        ctx.eq(m, m2, "degrees and radians", tol=TOL)


def vector(ctx, zero, lo, hi, R, signs, form):
    """about any vector; zero: which components vanish"""
    kw, deg, inv = options(ctx)
    t, s, c = angle(ctx, "theta", deg, R)
    n = [0.0 if k in zero else sg * ctx.real("n%d" % k, lo, hi) for k, sg in enumerate(signs)]
    sq = sum(x * x for x in n)
    ctx.assume(sq >= 1e-18)
    # on the polar axis or clearly off it (the neighbourhood of the pole: see `pole`)
    ctx.assume(ctx.any([ctx.all([n[0] == 0, n[1] == 0]), n[0] * n[0] + n[1] * n[1] >= 1e-12 * n[2] * n[2]]))
    m = rows(ctx, R3.RotationGeneral({"list": list, "tuple": tuple, "array": np.array}[form](n), t, **kw))
    r = np.sqrt(sq)
    want = rodrigues(n, r, s, c)
    if inv:
        want = minus(want)
    for i in range(3):
        for j in range(3):
            ctx.eq(m[i][j] * r * r / sq, want[i][j] / sq, "rotation about the vector", tol=TOL)
    fixed = [sum(m[i][k] * n[k] for k in range(3)) / r for i in range(3)]
    ctx.eq(fixed, [(-x if inv else x) / r for x in n], "the axis is fixed", tol=TOL)


def scaled(ctx, direction, R, lo, hi, whole=False):
    """about a given direction, the length of the vector being arbitrary"""
    kw, deg, inv = options(ctx)
    t, s, c = angle(ctx, "theta", deg, R, whole)
    k = ctx.int("length", lo, hi) if whole else ctx.real("length", lo, hi)
    n = [x * k for x in direction]
    m = rows(ctx, R3.RotationGeneral(np.array(n) if whole else n, t, **kw))
    sq = sum(x * x for x in n)
    want = rodrigues(n, np.sqrt(sq), s, c)
    ctx.eq(m, [[(-x if inv else x) / sq for x in row] for row in want], "rotation about the vector", tol=1e-6)


def pole(ctx, a, b, up, R, reach):
    """nearly along the z-axis, off it by any small amount"""
    inv = ctx.choice("inversion", [False, True])
    t, s, c = angle(ctx, "theta", False, R)
    e = ctx.real("e", 0.0, reach)
    m = rows(ctx, R3.RotationGeneral((a * e, b * e, up), t, inversion=inv))
    # the rotation about the z-axis is within reach, component by component
    want = [[c, -s * up, 0.0], [s * up, c, 0.0], [0.0, 0.0, 1.0]]
    ctx.eq(m, minus(want) if inv else want, "close to the rotation about the z-axis", tol=20 * reach)


def angles(ctx, R, whole=False):
    """the axis given by two angles"""
    kw, deg, inv = options(ctx)
    t, s, c = angle(ctx, "theta", deg, R, whole)
    a, sa, ca = angle(ctx, "alpha", deg, R, whole)
    b, sb, cb = angle(ctx, "beta", deg, R, whole)
    m = rows(ctx, R3.RotationGeneral((a, b), t, **kw))
    want = rodrigues([sb * ca, sb * sa, cb], 1, s, c)
    ctx.eq(m, minus(want) if inv else want, "rotation about the direction", tol=TOL)


def euler(ctx, R, whole=False):
    kw, deg, inv = options(ctx)
    a, sa, ca = angle(ctx, "alpha", deg, R, whole)
    b, sb, cb = angle(ctx, "beta", deg, R, whole)
    g, sg, cg = angle(ctx, "gamma", deg, R, whole)
    m = rows(ctx, R3.RotationEuler(a, b, g, **kw))
    z, y = UNIT["Z"], UNIT["Y"]
    want = product(rodrigues(z, 1, sa, ca), rodrigues(y, 1, sb, cb), rodrigues(z, 1, sg, cg))
    ctx.eq(m, minus(want) if inv else want, "composition", tol=TOL)
    parts = [np.array(R3.RotationZ(a, deg=deg)), np.array(R3.RotationY(b, deg=deg)), np.array(R3.RotationZ(g, deg=deg))]
    got = rows(ctx, np.matmul(np.matmul(parts[0], parts[1]), parts[2]))
    ctx.eq(m, minus(got) if inv else got, "composition of the single rotations", tol=TOL)


def nothing(ctx):
    """the zero vector, whatever its type"""
    t = ctx.real("theta", -7.0, 7.0)
    z = ctx.choice("zero", [0, 0.0])
    form = ctx.choice("form", [list, tuple, np.array])
    ctx.raises(ValueError, lambda: R3.RotationGeneral(form([z, z, z]), t), label="ValueError for the zero vector")


NAMED = [(n + str(d), UNIT[n[1]], d) for n in ("RX", "RY", "RZ") for d in (30, 45, 60, 90, 180, 270)]
NAMED += [("R111_%d" % d, [3 ** -0.5] * 3, d) for d in (60, 120, 180, 240, 300)]


def constants(ctx):
    """named rotations, applied to any vector"""
    name, n, d = ctx.choice("name", NAMED)
    v = ctx.real_vec("v", 3, -10.0, 10.0)
    m = rows(ctx, getattr(R3, name))
    c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
    dot = sum(a * b for a, b in zip(n, v))
    cross = [n[1] * v[2] - n[2] * v[1], n[2] * v[0] - n[0] * v[2], n[0] * v[1] - n[1] * v[0]]
    want = [c * a + s * b + (1 - c) * dot * e for a, b, e in zip(v, cross, n)]
    ctx.eq([sum(m[i][k] * v[k] for k in range(3)) for i in range(3)], want, name, tol=1e-7)


def others(ctx):
    v = ctx.real_vec("v", 3, -10.0, 10.0)
    x, y, z = v
    name, want = ctx.choice("name", [("E", [x, y, z]), ("INVERSION", [-x, -y, -z]), ("AP0", [x, z, y]), ("AP1", [z, y, x]),
                                     ("AP2", [y, x, z])])
    m = rows(ctx, getattr(R3, name))
    ctx.eq([sum(m[i][k] * v[k] for k in range(3)) for i in range(3)], want, name, tol=TOL)


CASES = []


def case(name, fn, args, bounds, tier=None, **o):
    opts = dict(budget=90, merging=False)
    opts.update(o)
    CASES.append(dict(name=name, fn=fn, args=args, opts=opts, bounds=bounds, **({"tier": tier} if tier else {})))


for w in "XYZ":
    case("about-" + w, "about", dict(which=w, R=1000.0), "any angle in [-1000, 1000] radians or degrees, with and without inversion")
ALL = "any angle in [-1000, 1000], with and without degrees and inversion"
for zero in ((), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
    case("vector-%s" % "".join(map(str, zero)), "vector",
         dict(zero=list(zero), lo=-5.0, hi=5.0, R=1000.0, signs=[1, 1, 1], form="list" if len(zero) == 1 else "array" if zero else "tuple"),
         "vectors with components in [-5, 5] and norm at least 1e-9, components %s zero; %s" % (zero, ALL))
for d in ([1, 0, 0], [0, 0, 1], [0, 0, -1], [1, 1, 1], [3, 4, 0], [2, -1, 2], [0, 3, -4]):
    for lo, hi, tag in ((1e-9, 1e-6, "tiny"), (1.0, 1e8, "large")):
        case("scaled-%s-%s" % ("_".join(map(str, d)), tag), "scaled", dict(direction=d, R=1000.0, lo=lo, hi=hi),
             "direction %s, lengths in [%g, %g]; %s" % (d, lo, hi, ALL))
for a, b, up in ((3.0, 4.0, 1.0), (-4.0, 3.0, -1.0)):
    case("pole-%d" % up, "pole", dict(a=a, b=b, up=up, R=10.0, reach=1e-4), "axis off the z-axis by up to 5e-4, to within 2e-3")
case("angles", "angles", dict(R=1000.0), "any two angles for the axis; " + ALL)
case("euler", "euler", dict(R=1000.0), "any three angles; " + ALL)
WHOLE = "any whole angle in [-1000, 1000], with and without degrees and inversion"
for w in "XYZ":
    case("about-whole-" + w, "about", dict(which=w, R=1000, whole=True), WHOLE)
for d in ([1, 0, 0], [0, 0, -1], [1, 1, 1], [3, 4, 0], [2, -1, 2]):
    case("scaled-whole-%s" % "_".join(map(str, d)), "scaled", dict(direction=d, R=1000, lo=1, hi=1000, whole=True),
         "direction %s, whole lengths in [1, 1000]; %s" % (d, WHOLE))
case("angles-whole", "angles", dict(R=1000, whole=True), "any two whole angles for the axis; " + WHOLE)
case("euler-whole", "euler", dict(R=1000, whole=True), "any three whole angles; " + WHOLE)
case("zero", "nothing", {}, "the zero vector, any angle")
case("constants", "constants", {}, "all named rotations, any vector")
case("others", "others", {}, "E, INVERSION and the transpositions, any vector")
