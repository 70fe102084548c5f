"""P18: k-paths visit every anchor, sample linearly and scale with the segment length."""
import numpy as np

from HamiltonianPy.lattice import KPath

NEAR = 1e-9
EDGE = 1e-6         # distance kept from lengths which are rounded to either side


def length(ctx, u, v):
    d = [b - a for a, b in zip(u, v)]
    nz = [x for x in d if not (not hasattr(x, "n") and x == 0)]
    if len(nz) == 1:
        return abs(nz[0])
    return np.linalg.norm(np.array(d))


def examine(ctx, pts, loop, min_num, how, lengths=None):
    """compare the path with the anchors; lengths: of the segments"""
    stops = list(pts) + ([pts[0]] if loop else [])
    arrays = [np.array(p) for p in pts]
    if how == "path only":
        ks = KPath(arrays, min_num=min_num, loop=loop, return_indices=False)
        _, idx = KPath(arrays, min_num=min_num, loop=loop)
    elif how == "defaults":
        ks, idx = KPath(arrays, min_num) if loop else KPath(arrays, min_num, False)
    else:
        ks, idx = KPath(points=arrays, min_num=min_num, loop=loop, return_indices=True)
    idx = [ctx.concrete(k) for k in idx]
    ctx.check(len(idx) == len(stops), "an index for every anchor")
    ctx.check(idx[0] == 0, "starts at the first anchor")
    ctx.check(len(ks) == idx[-1] + 1, "ends at the last anchor")
    for k, p in zip(idx, stops):
        ctx.eq(list(ks[k]), list(p), "anchor at its index", tol=NEAR)
    nums = [b - a for a, b in zip(idx, idx[1:])]
    least = None
    for x in lengths:
        if least is None:
            least = x
        else:
            least = x if bool(x < least) else least
    for n, x, u, v, k0 in zip(nums, lengths, stops, stops[1:], idx):
        ctx.check(n >= 1, "every segment is sampled")
        ctx.check(ctx.all([n * least <= min_num * x + NEAR, min_num * x <= (n + 1) * least + NEAR]), "points in proportion to the length")
        ctx.check(ctx.implies(x <= least, n == min_num), "points of the shortest segment")
        for i in range(n):
            ctx.eq(list(ks[k0 + i]), [a + (b - a) * i / n for a, b in zip(u, v)], "equally spaced on the segment", tol=NEAR)


def apart(ctx, lengths, min_num):
    """lengths for which rounding down the ratio is not a matter of the last digit"""
    for i, x in enumerate(lengths):
        ctx.assume(x >= 1e-3)
        for y in lengths[:i]:
            for a, b in ((x, y), (y, x)):
                r = min_num * a / b
                f = r - np.floor(r)
                ctx.assume(ctx.any([a == b, ctx.all([f >= EDGE, f <= 1 - EDGE])]))


def axis(ctx, steps, dim, loop, nums, lo, hi, how, whole=False):
    """anchors which are moved along one coordinate at a time, by arbitrary amounts"""
    min_num = ctx.concrete(ctx.int("min_num", *nums))
    p = [ctx.int("o%d" % j, -2, 2) if whole else ctx.real("o%d" % j, -2.0, 2.0) for j in range(dim)]
    pts, lengths = [list(p)], []
    size = {}
    for name, j, sign in steps:
        if name not in size:
            size[name] = ctx.int(name, lo, hi) if whole else ctx.real(name, lo, hi)
        p = list(p)
        p[j] = p[j] + sign * size[name]
        pts.append(p)
        lengths.append(size[name])
    if loop:
        # the last step closes the path
        pts.pop()
    if not whole:
        apart(ctx, [size[n] for n in size], min_num)
    examine(ctx, pts, loop, min_num, ctx.choice("how", how), lengths)


def right(ctx, loop, num, lo, hi, dim):
    """a right triangle in the plane (or in space): the hypotenuse takes part in a loop"""
    a, b = ctx.real("a", lo, hi), ctx.real("b", lo, hi)
    z = [0.5] * (dim - 2)
    pts = [[0.0, 0.0] + z, [a, 0.0] + z, [a, b] + z]
    lengths = [a, b]
    if loop:
        lengths.append(np.sqrt(a * a + b * b))
    apart(ctx, lengths, num)
    examine(ctx, pts, loop, num, "keywords", lengths)


def line(ctx, num, dim, lo, hi):
    """two anchors anywhere"""
    d = [ctx.real("d%d" % j, lo, hi) for j in range(dim)]
    o = [ctx.real("o%d" % j, -1.0, 1.0) for j in range(dim)]
    loop = ctx.choice("loop", [False, True])
    s = 0
    for x in d:
        s = s + x * x
    ctx.assume(s >= 1e-4)
    r = np.sqrt(s)
    examine(ctx, [o, L_add(o, d)], loop, num, "keywords", [r, r] if loop else [r])


def L_add(u, v):
    return [a + b for a, b in zip(u, v)]


def shortest(ctx, nums, lo, hi):
    """in doubles: the shortest segment has exactly the requested number of points"""
    x = ctx.real("x", lo, hi)
    min_num = ctx.concrete(ctx.int("min_num", *nums))
    o, e = np.array([0.0, 0.0]), np.array([x, 0.0])
    loop = ctx.choice("loop", [False, True])
    _, idx = KPath([o, e], min_num=min_num, loop=loop)
    ctx.check(ctx.all([b - a == min_num for a, b in zip(idx, idx[1:])]), "points of the shortest segment")


def counts(ctx, nums, lo, hi):
    """many different numbers of points: the anchors stay at their indices and the points equally spaced"""
    x = ctx.real("x", lo, hi)
    num = ctx.choice("num", list(nums))
    loop = ctx.choice("loop", [False, True])
    pts = [[0.25, 0.0], [0.25, x]]
    stops = pts + ([pts[0]] if loop else [])
    ks, idx = KPath([np.array(p) for p in pts], min_num=num, loop=loop)
    idx = [ctx.concrete(k) for k in idx]
    ctx.check(idx == [num * i for i in range(len(stops))], "indices of the anchors")
    ctx.check(len(ks) == idx[-1] + 1, "number of points")
    for k, p in zip(idx, stops):
        ctx.eq(list(ks[k]), p, "anchor at its index", tol=NEAR)
    for k in {1 % num, num // 2, num - 1}:
        ctx.eq(list(ks[k]), [0.25, x * k / num], "equally spaced", tol=NEAR)


def identical(ctx, dim, n, loop):
    """two anchors in a row coincide (the last and the first only matter in a loop)"""
    pts = [[ctx.real("p%d%d" % (i, j), -1.0, 1.0) for j in range(dim)] for i in range(n)]
    k = ctx.concrete(ctx.int("k", 0, n - 1))
    ctx.assume(True if (loop or k < n - 1) else False)
    nxt = (k + 1) % n
    pts[nxt] = list(pts[k])
    # the other anchors differ from their neighbours
    ctx.raises(ValueError, lambda: KPath([np.array(p) for p in pts], min_num=2, loop=loop), label="ValueError for identical anchors")


def endpoints(ctx):
    """without a loop the first and last anchors may coincide"""
    a, b = ctx.real("a", 0.5, 1.0), ctx.real("b", 0.5, 1.0)
    apart(ctx, [a, b], 3)
    pts = [[0.0, 0.0], [a, 0.0], [a, b], [a, 0.0], [0.0, 0.0]]
    examine(ctx, pts, False, 3, "keywords", [a, b, b, a])


CASES = []


def case(name, fn, args, bounds, tier=None, **o):
    opts = dict(budget=90)
    opts.update(o)
    CASES.append(dict(name=name, fn=fn, args=args, opts=opts, bounds=bounds, **({"tier": tier} if tier else {})))


HOW = ["keywords", "defaults", "path only"]
for name, steps, dim, loop, nums, lo, hi in [
        ("one", [("a", 0, 1)], 2, False, (1, 6), 0.25, 4.0),
        ("two", [("a", 0, 1), ("b", 1, 1)], 2, False, (1, 4), 0.5, 2.0),
        ("back", [("a", 0, 1), ("b", 0, -1)], 2, False, (1, 3), 0.5, 1.5),
        ("rectangle", [("a", 0, 1), ("b", 1, 1), ("a", 0, -1), ("b", 1, -1)], 2, True, (1, 3), 0.5, 1.6),
        ("rectangle-open", [("a", 0, -1), ("b", 1, 1), ("a", 0, 1)], 2, False, (1, 3), 0.5, 1.6),
        ("space", [("a", 0, 1), ("b", 1, 1), ("c", 2, -1)], 3, False, (1, 2), 0.5, 1.2),
        ("there-and-back", [("a", 1, 1), ("a", 1, -1)], 3, True, (1, 4), 0.5, 2.0)]:
    case("axis-" + name, "axis", dict(steps=steps, dim=dim, loop=loop, nums=nums, lo=lo, hi=hi, how=HOW),
         "segments %s of lengths in [%s, %s], min_num in %s, any origin" % (steps, lo, hi, nums))
for name, steps, dim, loop, nums, hi in [
        ("two", [("a", 0, 1), ("b", 1, 1)], 2, False, (1, 3), 7),
        ("rectangle", [("a", 0, 1), ("b", 1, 1), ("a", 0, -1), ("b", 1, -1)], 2, True, (1, 3), 5),
        ("space", [("a", 0, 1), ("b", 1, 1), ("c", 2, -1)], 3, False, (1, 2), 5)]:
    case("whole-" + name, "axis", dict(steps=steps, dim=dim, loop=loop, nums=nums, lo=1, hi=hi, how=["keywords"], whole=True),
         "segments %s of whole lengths 1..%d, min_num in %s, whole origin" % (steps, hi, nums))
STAIRS = [("ab"[i % 2], i % 2, 1) for i in range(9)]
AROUND = [("a", 0, 1), ("b", 1, 1), ("a", 0, 1), ("b", 1, 1), ("a", 0, -1), ("b", 1, -1), ("a", 0, -1), ("b", 1, -1)]
for name, steps, loop in [("stairs", STAIRS, False), ("around", AROUND, True)]:
    case("long-" + name, "axis", dict(steps=steps, dim=2, loop=loop, nums=(1, 3), lo=0.6, hi=1.4, how=["keywords"]),
         "paths of %d segments with lengths in [0.6, 1.4], min_num 1..3, any origin" % len(steps))
for loop, num, lo, hi, dim in [(False, 2, 0.5, 1.5, 2), (True, 1, 0.8, 1.2, 2), (True, 2, 0.8, 1.2, 3)]:
    case("right-%d-%d-%s" % (dim, num, loop), "right", dict(loop=loop, num=num, lo=lo, hi=hi, dim=dim),
         "right triangle with legs in [%s, %s], min_num %d" % (lo, hi, num))
for num, dim in [(1, 2), (4, 2), (3, 3)]:
    case("line-%d-%d" % (dim, num), "line", dict(num=num, dim=dim, lo=-2.0, hi=2.0), "two anchors anywhere, min_num %d" % num)
case("shortest", "shortest", dict(nums=(46, 50), lo=0.01, hi=2.0), "segment in [0.01, 2], min_num 46..50, with rounding of the quotient",
     fp_div=True)
for a, b in ((1, 32), (33, 64), (65, 96), (97, 128)):
    case("counts-%d" % b, "counts", dict(nums=range(a, b + 1), lo=0.01, hi=2.0), "segment in [0.01, 2], min_num %d..%d" % (a, b))
for dim, n, loop in [(2, 2, True), (2, 3, False), (2, 3, True), (3, 2, False)]:
    case("identical-%d-%d-%s" % (dim, n, loop), "identical", dict(dim=dim, n=n, loop=loop), "any anchors, one equal to the next")
case("endpoints", "endpoints", {}, "first and last anchors of an open path coincide")
