"""P12: bonds."""
import numpy as np
from HamiltonianPy.bond import Bond
from HamiltonianPy.quantumoperator.quantumstate import SiteID

PI = np.pi


def pts(ctx, tag, d, hi=3):
    return ctx.grid_vec(tag, d, -hi, hi, 4)


def same(ctx, p, q):
    return ctx.all([a == b for a, b in zip(p, q)])


def identity(ctx, d, whole=False):
    """equality, hash and flags of two bonds on four arbitrary points"""
    p0, p1, q0, q1 = (ctx.int_vec(t, d, -3, 3) if whole and t != "Q" else pts(ctx, t, d) for t in ("p", "P", "q", "Q"))
    dp, dq = ctx.choice("dp", [True, False]), ctx.choice("dq", [True, False])
    a, b = Bond(p0, p1, directional=dp), Bond(q0, q1, directional=dq)
    ordered = ctx.all([same(ctx, p0, q0), same(ctx, p1, q1)])
    crossed = ctx.all([same(ctx, p0, q1), same(ctx, p1, q0)])
    if dp != dq:
        want = False
    elif dp:
        want = ordered
    else:
        want = ctx.any([ordered, crossed])
    eq = a == b
    ctx.check(ctx.iff(eq, want), "equality")
    ctx.check(ctx.iff(a != b, ctx.not_(want)), "inequality")
    ctx.check(ctx.iff(b == a, want), "symmetric")
    ctx.check(ctx.implies(want, hash(a) == hash(b)), "equal bonds hash equally")
    ctx.check(a.directional is dp and b.directional is dq, "directional attribute")
    e0, e1 = a.endpoints
    ctx.check(ctx.all([same(ctx, e0, p0), same(ctx, e1, p1)]), "endpoints")
    ctx.check(Bond(p0, p1) == Bond(p0, p1, directional=True), "directed by default")
    # flip / opposite
    if dp:
        f = a.flip()
        g0, g1 = f.endpoints
        ctx.check(ctx.all([same(ctx, g0, p1), same(ctx, g1, p0)]), "flip swaps the endpoints")
        ctx.check(f.directional is True, "flip is directed")
        ctx.check(ctx.all([f.flip() == a, hash(f.flip()) == hash(a)]), "flip twice")
        ctx.check(ctx.iff(a.oppositeTo(b), f == b), "opposite iff equal to the flip")
        ctx.check(ctx.iff(a.oppositeTo(b), ctx.all([dq, crossed])), "opposite iff reversed endpoints")
        ctx.check(ctx.iff(a == f, same(ctx, p0, p1)), "equal to its flip only when degenerate")
        ctx.raises(TypeError, a.oppositeTo, (p1, p0), label="opposite to a non-bond")
    else:
        for name, call in (("flip", a.flip), ("oppositeTo", lambda: a.oppositeTo(b)),
                           ("getDisplace", a.getDisplace), ("getAzimuth", a.getAzimuth),
                           ("getAzimuth radian", lambda: a.getAzimuth(radian=True))):
            ctx.raises(NotImplementedError, call, label="undirected " + name)


def foreign(ctx, d):
    """bonds have no order, and a bond never equals anything else"""
    p0, p1, q0, q1 = (pts(ctx, t, d) for t in ("p", "P", "q", "Q"))
    a = Bond(p0, p1, directional=ctx.choice("dp", [True, False]))
    b = Bond(q0, q1, directional=ctx.choice("dq", [True, False]))
    for name, call in (("<", lambda: a < b), ("<=", lambda: a <= b), (">", lambda: a > b), (">=", lambda: a >= b)):
        ctx.raises(TypeError, call, label="no order: %s" % name)
    for other in ((p0, p1), a.endpoints, 0, "bond", None, SiteID(p0)):
        ctx.check(ctx.all([ctx.not_(a == other), ctx.not_(other == a), a != other]), "unequal to other objects")


def cell(ctx, tag, d, kmax):
    """(cells, coordinates): each coordinate anywhere inside its cell of 0.0001"""
    ks, xs = [], []
    for i in range(d):
        k = ctx.int("%sk%d" % (tag, i), 0, kmax)
        f = ctx.real("%sf%d" % (tag, i), 0.02, 0.98)
        ks.append(k)
        xs.append((k + f) / 10000)
    return ks, xs


def digits(ctx, d, kmax):
    """endpoints are identified by their cells alone, digits beyond them decide nothing"""
    (c0, p0), (c1, p1), (e0, q0), (e1, q1) = (cell(ctx, t, d, kmax) for t in ("p", "P", "q", "Q"))
    dp = ctx.choice("dp", [False, True])
    a, b = Bond(p0, p1, directional=dp), Bond(q0, q1, directional=dp)
    want = ctx.all([same(ctx, c0, e0), same(ctx, c1, e1)])
    if not dp:
        want = ctx.any([want, ctx.all([same(ctx, c0, e1), same(ctx, c1, e0)])])
    ctx.check(ctx.iff(a == b, want), "equality of cells")
    ctx.check(ctx.iff(a != b, ctx.not_(want)), "inequality of cells")
    ctx.check(ctx.implies(want, hash(a) == hash(b)), "equal cells hash equally")
    if dp:
        ctx.check(ctx.iff(a.oppositeTo(b), ctx.all([same(ctx, c0, e1), same(ctx, c1, e0)])), "opposite cells")


def far(ctx, d, scale, off):
    """long bonds with nearly equal ends: points 1/64 apart are different points, however far away"""
    def point(tag):
        return [off[i] + ctx.grid("%s%d" % (tag, i), 0, scale, 64) for i in range(d)]

    p0, p1 = point("p"), [x + 4096 for x in point("P")]
    q0, q1 = p0, [x + 4096 for x in point("Q")]
    which = ctx.choice("shared", ["first", "second", "crossed"])
    if which == "second":
        p0, p1, q0, q1 = p1, p0, q1, q0
    if which == "crossed":
        q0, q1 = q1, q0
    dp, dq = ctx.choice("dp", [True, False]), ctx.choice("dq", [True, False])
    a, b = Bond(p0, p1, directional=dp), Bond(q0, q1, directional=dq)
    ordered = ctx.all([same(ctx, p0, q0), same(ctx, p1, q1)])
    crossed = ctx.all([same(ctx, p0, q1), same(ctx, p1, q0)])
    want = False if dp != dq else ordered if dp else ctx.any([ordered, crossed])
    ctx.check(ctx.iff(a == b, want), "equality")
    ctx.check(ctx.iff(a != b, ctx.not_(want)), "inequality")
    ctx.check(ctx.implies(want, hash(a) == hash(b)), "equal bonds hash equally")
    if dp:
        ctx.check(ctx.iff(a.oppositeTo(b), ctx.all([dq, crossed])), "opposite iff reversed endpoints")
        if dq:
            ctx.check(ctx.iff(b.oppositeTo(a), crossed), "opposite the other way round")
        dr = a.getDisplace()
        for i in range(d):
            ctx.check(dr[i] == p1[i] - p0[i], "displacement is second minus first")


def length(ctx, d, directional, whole=False):
    vec = ctx.int_vec if whole else ctx.real_vec
    p0, p1 = vec("p", d, -5, 5), vec("q", d, -5, 5)
    b = Bond(p0, p1, directional=directional)
    L = b.getLength()
    sq = sum((y - x) * (y - x) for x, y in zip(p0, p1))
    ctx.check(L >= 0, "length is not negative")
    ctx.check(ctx.close(L * L, sq, 1e-9), "length is the Euclidean distance")
    ctx.check(ctx.close(Bond(p1, p0, directional=directional).getLength(), L, 1e-9), "length is symmetric")
    n = ctx.choice("nd", [0, 3, 6])
    r = b.getLength(ndigits=n)
    ctx.check(ctx.all([r - L <= 0.501 * 10.0 ** -n, L - r <= 0.501 * 10.0 ** -n]), "rounded length")
    if directional:
        dr = b.getDisplace()
        ctx.check(len(dr) == d, "displacement dimension")
        for i in range(d):
            ctx.check(ctx.close(dr[i], p1[i] - p0[i], 1e-9), "displacement is second minus first")
        rr = b.getDisplace(ndigits=n)
        for i in range(d):
            ctx.check(ctx.all([rr[i] - dr[i] <= 0.501 * 10.0 ** -n, dr[i] - rr[i] <= 0.501 * 10.0 ** -n]),
                      "rounded displacement")
        ctx.check(ctx.close(b.flip().getLength(), L, 1e-9), "length of the flip")


def azimuth(ctx, d, radian, whole=False):
    p0 = ctx.int_vec("p", d, -5, 5) if whole else ctx.real_vec("p", d, -5, 5)
    dr = ctx.int_vec("d", d, -4, 4) if whole else ctx.grid_vec("d", d, -4, 4, 8)
    p1 = [a + b for a, b in zip(p0, dr)]
    ctx.assume(ctx.any([c != 0 for c in dr]))
    b = Bond(p0, p1)
    if radian is None:
        got, unit = b.getAzimuth(), PI / 180
    else:
        got = b.getAzimuth(radian=radian)
        unit = 1.0 if radian else PI / 180
    L = b.getLength()
    T = 1e-9
    if d == 1:
        s, c = ctx.sincos(got * unit)
        ctx.check(ctx.close(c * L, dr[0], T), "direction")
        ctx.check(ctx.all([got * unit <= PI + T, got * unit >= -PI - T]), "range")
    elif d == 2:
        s, c = ctx.sincos(got * unit)
        ctx.check(ctx.all([ctx.close(c * L, dr[0], T), ctx.close(s * L, dr[1], T)]), "direction")
        ctx.check(ctx.all([got * unit <= PI + T, got * unit >= -PI - T]), "range")
    else:
        al, be = got[0], got[1]
        ctx.check(len(got) == 2, "two angles in 3D")
        sa, ca = ctx.sincos(al * unit)
        sb, cb = ctx.sincos(be * unit)
        ctx.check(ctx.close(ca * L, dr[2], T), "polar angle, z")
        h = sa * L
        ctx.check(ctx.close(h * cb, dr[0], T), "azimuth, x")
        ctx.check(ctx.close(h * sb, dr[1], T), "azimuth, y")
        ctx.check(ctx.all([al * unit <= PI + T, al * unit >= -T]), "polar range")
        ctx.check(ctx.all([be * unit <= PI + T, be * unit >= -PI - T]), "azimuth range")
    n = ctx.choice("nd", [0, 4])
    r = b.getAzimuth(radian=bool(radian), ndigits=n)
    for x, y in (zip(r, got) if d == 3 else [(r, got)]):
        ctx.check(ctx.all([x - y <= 0.501 * 10.0 ** -n, y - x <= 0.501 * 10.0 ** -n]), "rounded azimuth")


CASES = []
for d in (1, 2, 3):
    CASES.append(dict(name="foreign-%d" % d, fn="foreign", args=dict(d=d),
                      bounds="two bonds on any four points in [-3,3]^%d" % d))
    CASES.append(dict(name="identity-%d" % d, fn="identity", args=dict(d=d),
                      bounds="two bonds, four points with coordinates k/4 in [-3,3], dimension %d" % d))
    CASES.append(dict(name="far-%d" % d, fn="far", args=dict(d=d, scale=0.25, off=[512, -1024, 0][:d]),
                      bounds="two bonds sharing an end, about 4096 long, the other ends within 1/4 of each other, dimension %d" % d))
    CASES.append(dict(name="digits-%d" % d, fn="digits", args=dict(d=d, kmax=(3, 2, 1)[d - 1]),
                      bounds="two bonds, four points anywhere inside cells 0..%d of 0.0001, dimension %d" % ((3, 2, 1)[d - 1], d)))
    for di in (True, False):
        CASES.append(dict(name="length-%d-%s" % (d, di), fn="length", args=dict(d=d, directional=di),
                          bounds="two points with real coordinates in [-5,5], dimension %d" % d))
    for r in (True, False, None):
        CASES.append(dict(name="azimuth-%d-%s" % (d, r), fn="azimuth", args=dict(d=d, radian=r),
                          bounds="real start point, displacement k/8 in [-4,4], dimension %d" % d))
for d in (1, 2, 3):
    CASES.append(dict(name="identity-whole-%d" % d, fn="identity", args=dict(d=d, whole=True),
                      bounds="two bonds, three integer points and one with coordinates k/4, in [-3,3], dimension %d" % d))
    CASES.append(dict(name="length-whole-%d" % d, fn="length", args=dict(d=d, directional=True, whole=True),
                      bounds="two points with integer coordinates in [-5,5], dimension %d" % d))
    CASES.append(dict(name="azimuth-whole-%d" % d, fn="azimuth", args=dict(d=d, radian=d == 1, whole=True),
                      bounds="integer start point, integer displacement in [-4,4], dimension %d" % d))
