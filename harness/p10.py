"""P10: comparison, equality, hashing, derivation."""
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_OTYPES
from HamiltonianPy.quantumoperator.particlesystem import AoC, NumberOperator
from HamiltonianPy.quantumoperator.quantumstate import SiteID, StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator


def coords(ctx, tag, d, real):
    if real:
        return [ctx.real("%sx%d" % (tag, i), -3, 3) for i in range(d)]
    return [ctx.grid("%sx%d" % (tag, i), -3, 3, 4) for i in range(d)]


def make(ctx, kind, tag, d, real=True, otypes=SPIN_OTYPES):
    """(object, key attributes)"""
    x = coords(ctx, tag, d, real)
    if kind == "site":
        return SiteID(x), dict(x=x)
    if kind == "spin":
        t = ctx.choice(tag + "t", otypes)
        return SpinOperator(t, x), dict(x=x, t=t)
    s, b = ctx.int(tag + "s", 0, 3), ctx.int(tag + "b", 0, 3)
    if kind == "state":
        return StateID(x, s, b), dict(x=x, s=s, b=b)
    if kind == "number":
        return NumberOperator(x, s, b), dict(x=x, s=s, b=b)
    t = ctx.choice(tag + "t", [CREATION, ANNIHILATION])
    return AoC(t, x, s, b), dict(x=x, s=s, b=b, t=t)


def near_zero(ctx, kind, d):
    """objects within a few units of the precision from the origin, on either side"""
    import cells as K
    (ca, xa), (cb, xb) = K.point(ctx, "a", d, 5), K.point(ctx, "b", d, 5)
    same = K.same(ctx, ca, cb)
    if kind == "site":
        a, b = SiteID(xa), SiteID(xb)
    elif kind == "spin":
        ta, tb = ctx.choice("ta", ("x", "m")), ctx.choice("tb", ("x", "m"))
        a, b = SpinOperator(ta, xa), SpinOperator(tb, xb)
        ctx.check(ctx.iff(a.same_site(b), same), "same_site")
        ctx.check(ctx.iff(b.same_site(a), same), "same_site symmetric")
        same = ctx.all([same, ta == tb])
    elif kind == "aoc":
        ta, tb = ctx.choice("ta", [CREATION, ANNIHILATION]), ctx.choice("tb", [CREATION, ANNIHILATION])
        a, b = AoC(ta, xa), AoC(tb, xb)
        ctx.check(ctx.iff(a.same_state(b), same), "same_state")
        ctx.check(ctx.iff(b.same_state(a), same), "same_state symmetric")
        same = ctx.all([same, ta == tb])
    else:
        a, b = (StateID(xa), StateID(xb)) if kind == "state" else (NumberOperator(xa), NumberOperator(xb))
    ctx.check(ctx.iff(a == b, same), "equal iff in the same cell")
    ctx.check(ctx.iff(a != b, ctx.not_(same)), "!=")
    ctx.check(ctx.implies(same, ctx.all([a <= b, a >= b, ctx.not_(a < b), ctx.not_(a > b)])), "order of equal objects")
    ctx.check(ctx.implies(ctx.not_(same), ctx.count([a < b, b < a]) == 1), "different objects are ordered")
    ctx.check(ctx.implies(same, hash(a) == hash(b)), "equal objects hash equally")


def lexi(ctx, pairs):
    """(less, equal) of two key tuples given as [(a, b), ...]"""
    less, eq = False, True
    for a, b in pairs:
        less = ctx.any([less, ctx.all([eq, a < b])])
        eq = ctx.all([eq, a == b])
    return less, eq


def pair(ctx, kind, d):
    a, _ = make(ctx, kind, "a", d)
    b, _ = make(ctx, kind, "b", d)
    lt, eq, gt = a < b, a == b, a > b
    ctx.check(ctx.count([lt, eq, gt]) == 1, "exactly one of <, ==, >")
    ctx.check(ctx.iff(a <= b, ctx.any([lt, eq])), "<= is < or ==")
    ctx.check(ctx.iff(a >= b, ctx.any([gt, eq])), ">= is > or ==")
    ctx.check(ctx.iff(a != b, ctx.not_(eq)), "!= is not ==")
    ctx.check(ctx.iff(b > a, lt), "b > a iff a < b")
    ctx.check(ctx.iff(b < a, gt), "b < a iff a > b")
    ctx.check(ctx.iff(b == a, eq), "== symmetric")
    ctx.check(ctx.iff(b <= a, ctx.any([gt, eq])), "b <= a")
    ctx.check(ctx.implies(eq, hash(a) == hash(b)), "equal objects hash equally")
    ctx.check(ctx.all([a == a, a <= a, a >= a, ctx.not_(a != a), ctx.not_(a < a)]), "reflexive")


KINDS = ["site", "state", "aoc", "number", "spin"]


def foreign(ctx, kind, other):
    """objects of different kinds are never equal and have no order"""
    a, _ = make(ctx, kind, "a", 2, otypes=("x", "p"))
    if other in KINDS:
        b, _ = make(ctx, other, "b", 2, otypes=("x", "p"))
    else:
        b = {"int": ctx.int("b", -2, 2), "str": "x", "none": None, "tuple": (0, 1), "list": [1, 0]}[other]
    for p, q in ((a, b), (b, a)):
        ctx.check(ctx.not_(p == q), "different kinds are not equal")
        ctx.check(p != q, "different kinds differ")
        for rel in (lambda: p < q, lambda: p <= q, lambda: p > q, lambda: p >= q):
            ctx.raises(TypeError, rel, label="no order between different kinds")


def triple(ctx, kind, d, otypes=SPIN_OTYPES):
    a, _ = make(ctx, kind, "a", d, otypes=otypes)
    b, _ = make(ctx, kind, "b", d, otypes=otypes)
    c, _ = make(ctx, kind, "c", d, otypes=otypes)
    ctx.check(ctx.implies(ctx.all([a < b, b < c]), a < c), "< transitive")
    ctx.check(ctx.implies(ctx.all([a <= b, b <= c]), a <= c), "<= transitive")
    ctx.check(ctx.implies(ctx.all([a == b, b == c]), a == c), "== transitive")
    ctx.check(ctx.implies(ctx.all([a == b, b < c]), a < c), "< respects ==")


def semantic(ctx, kind, d):
    """the documented order, on coordinates exactly representable at the default precision"""
    a, ka = make(ctx, kind, "a", d, real=False)
    b, kb = make(ctx, kind, "b", d, real=False)
    keys = list(zip(ka["x"], kb["x"]))
    if "s" in ka:
        keys += [(ka["s"], kb["s"]), (ka["b"], kb["b"])]
    less, eq = lexi(ctx, keys)
    if kind == "aoc":
        if ka["t"] != kb["t"]:
            less, eq = ka["t"] == CREATION, False
        elif ka["t"] == ANNIHILATION:
            less = ctx.not_(ctx.any([less, eq]))
    if kind == "spin":
        eq = ctx.all([eq, ka["t"] == kb["t"]])
        ctx.check(ctx.iff(a == b, eq), "equal iff same type and site")
        ctx.check(ctx.iff(a.same_site(b), lexi(ctx, keys)[1]), "same_site")
        return
    ctx.check(ctx.iff(a == b, eq), "equal iff all attributes equal")
    ctx.check(ctx.iff(a < b, less), "documented order")
    if kind == "aoc":
        ctx.check(ctx.iff(a.same_state(b), lexi(ctx, keys)[1]), "same_state")


def attrs(o):
    r = {"x": o.coordinate}
    for n, k in (("t", "otype"), ("s", "spin"), ("b", "orbit")):
        if hasattr(o, k):
            r[n] = getattr(o, k)
    return r


def derive(ctx, kind, d):
    o, k = make(ctx, kind, "a", d, real=False)
    new = make(ctx, kind, "n", d, real=False)[1]
    names = [n for n in ("t", "x", "s", "b") if n in k]
    kwname = {"t": "otype", "x": "site", "s": "spin", "b": "orbit"}
    change = ctx.choice("change", [tuple(n for i, n in enumerate(names) if m >> i & 1) for m in range(2 ** len(names))])
    before = attrs(o)
    r = o.derive(**{kwname[n]: new[n] for n in change})
    got = attrs(r)
    ctx.check(type(r) is type(o), "derived type")
    for n in names:
        want = new[n] if n in change else k[n]
        if n == "x":
            ctx.check(len(got["x"]) == d, "derived dimension")
            ctx.check(ctx.all([p == q for p, q in zip(got["x"], want)]), "derived site")
        else:
            ctx.check(got[n] == want, "derived " + kwname[n])
    # the attributes and the identity agree: the derived object equals a directly built one
    if kind == "aoc":
        direct = AoC(got["t"], got["x"], got["s"], got["b"])
    elif kind == "number":
        direct = NumberOperator(got["x"], got["s"], got["b"])
    else:
        direct = SpinOperator(got["t"], got["x"])
    ctx.check(ctx.all([r == direct, hash(r) == hash(direct)]), "derived object equals a directly built one")
    ctx.check(ctx.all([p == q for p, q in zip(o.coordinate, k["x"])]), "original site kept")
    if "s" in k:
        ctx.check(ctx.all([o.spin == k["s"], o.orbit == k["b"]]), "original spin and orbit kept")


def classes(ctx, d):
    """every creation operator precedes every annihilation operator; sorting is consistent"""
    x, y = coords(ctx, "a", d, True), coords(ctx, "b", d, True)
    c = AoC(CREATION, x, ctx.int("s0", 0, 3), ctx.int("b0", 0, 3))
    a = AoC(ANNIHILATION, y, ctx.int("s1", 0, 3), ctx.int("b1", 0, 3))
    ctx.check(ctx.all([c < a, c <= a, a > c, a >= c, c != a, ctx.not_(a < c), ctx.not_(c == a)]),
              "creation precedes annihilation")
    ctx.check(ctx.iff(c.same_state(a), c.state == a.state), "same_state")
    ctx.check(ctx.iff(a.same_state(c), c.state == a.state), "same_state symmetric")
    ctx.check(ctx.implies(c.state == a.state, hash(c.state) == hash(a.state)), "state hash")
    p, q = StateID(x, c.spin, c.orbit), StateID(y, a.spin, a.orbit)
    ctx.check(ctx.all([p == c.state, q == a.state]), "operator state")


CASES = []
for kind in ("site", "state", "aoc", "number", "spin"):
    for d in (1, 2, 3):
        CASES.append(dict(name="pair-%s-%d" % (kind, d), fn="pair", args=dict(kind=kind, d=d),
                          bounds="two objects, dimension %d, real coordinates in [-3,3], spin/orbit 0..3" % d))
        CASES.append(dict(name="semantic-%s-%d" % (kind, d), fn="semantic", args=dict(kind=kind, d=d),
                          bounds="two objects, dimension %d, coordinates k/4 in [-3,3], spin/orbit 0..3" % d))
        CASES.append(dict(name="triple-%s-%d" % (kind, d), fn="triple", opts=dict(budget=20, witnesses=6),
                          args=dict(kind=kind, d=d, **({"otypes": ("x", "z", "m")} if kind == "spin" else {})),
                          bounds="three objects, dimension %d" % d))
for kind in ("aoc", "number", "spin"):
    CASES.append(dict(name="derive-" + kind, fn="derive", args=dict(kind=kind, d=2),
                      bounds="every subset of the attributes changed; coordinates k/4, spin/orbit 0..3"))
CASES.append(dict(name="creation-first", fn="classes", args=dict(d=2), bounds="real coordinates in [-3,3]"))
for kind in ("site", "state", "aoc", "number", "spin"):
    for d in (1, 2):
        CASES.append(dict(name="near-zero-%s-%d" % (kind, d), fn="near_zero", args=dict(kind=kind, d=d),
                          bounds="up to 5 cells of 0.0001 on either side of the origin, digits beyond them arbitrary"))
for i, k in enumerate(KINDS):
    for o in KINDS[i + 1:] + ["int", "str", "none", "tuple", "list"]:
        CASES.append(dict(name="foreign-%s-%s" % (k, o), fn="foreign", args=dict(kind=k, other=o), opts=dict(budget=20),
                          bounds="any objects of these two kinds"))
