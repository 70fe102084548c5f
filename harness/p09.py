"""P09: IndexTable is a bijection onto consecutive integers."""
import fermion as F
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.particlesystem import AoC, NumberOperator
from HamiltonianPy.quantumoperator.quantumstate import SiteID, StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator

OTYPES = ("x", "y", "z", "p", "m")


def objects(ctx, kind, n):
    if kind == "int":
        return [ctx.int("o%d" % i, -8, 8) for i in range(n)]
    if kind == "state":
        return [StateID([ctx.int("x%d" % i, -2, 2)], ctx.int("s%d" % i, 0, 1), ctx.int("b%d" % i, 0, 2))
                for i in range(n)]
    return [AoC(ctx.int("t%d" % i, 0, 1), [ctx.int("x%d" % i, -2, 2)], ctx.int("s%d" % i, 0, 1))
            for i in range(n)]


def many(ctx, kind, n, b=None):
    """distinct objects at given offsets from one symbolic number, in a scrambled order"""
    b = ctx.int("b", -40, 40) if b is None else b
    offsets = [(7 * k + 3) % n - n // 2 for k in range(n)]
    if kind == "int":
        return [b + 3 * k for k in offsets]
    if kind == "state":
        return [StateID([b + k // 4, 0], k % 2, k // 2 % 2) for k in offsets]
    return [AoC(k % 2, [b + k // 4, 0], k // 2 % 2) for k in offsets]


def bijection(ctx, kind, n, start=None, large=False):
    if large:
        obs = many(ctx, kind, n)
    else:
        obs = objects(ctx, kind, n)
        F.distinct(ctx, obs)
    if start == "sym":
        st = ctx.int("start", -5, 5)
        t = IndexTable(obs, start=st)
    else:
        st = 0
        t = IndexTable(obs)
    ctx.check(len(t) == n, "len")
    ctx.check(t.object_type is type(obs[0]), "object_type")
    pairs = list(t)
    ctx.check(len(pairs) == n, "iteration length")
    ind, obj = list(t.indices()), list(t.objects())
    ctx.check(len(ind) == n and len(obj) == n, "view lengths")
    for i in range(n):
        ctx.check(t(obs[i]) == st + i, "index of object")
        ctx.check(t.query_index(obs[i]) == st + i, "query_index")
        ctx.check(t.query_object(st + i) == obs[i], "object of index")
        ctx.check(pairs[i][0] == st + i, "iteration index")
        ctx.check(pairs[i][1] == obs[i], "iteration object")
        ctx.check(ind[i] == st + i, "indices view")
        ctx.check(obj[i] == obs[i], "objects view")
    # unknown
    q = ctx.int("q", -9, n + 5)
    o = ctx.outcome(t.query_object, q)
    inside = ctx.all([q >= st, q < st + n])
    if o.ok:
        ctx.check(inside, "query_object accepted an unknown index")
        ctx.check(t(o.value) == q, "index(object(q)) == q")
    else:
        ctx.check(ctx.not_(inside), "query_object refused a known index")
        ctx.check(o.raised(KeyError), "unknown index raises KeyError")
    ctx.raises(TypeError, t.query_object, "0", label="index of wrong type")
    ctx.raises(TypeError, t.query_object, 0.0, label="index of wrong type (float)")
    ctx.raises(TypeError, t, "0", label="object of wrong type")
    ctx.raises(TypeError, t, 0.5, label="object of wrong type (float)")


def unknown(ctx, kind, n):
    obs = objects(ctx, kind, n + 1)
    for i in range(n):
        for j in range(i):
            ctx.assume(obs[i] != obs[j])
    x = obs.pop()
    t = IndexTable(obs)
    o = ctx.outcome(t, x)
    known = ctx.any([x == y for y in obs])
    if o.ok:
        ctx.check(known, "unknown object has an index")
        ctx.check(t.query_object(o.value) == x, "object(index(x)) == x")
    else:
        ctx.check(ctx.not_(known), "known object refused")
        ctx.check(o.raised(KeyError), "unknown object raises KeyError")


def reject(ctx, kind, n):
    """duplicates are rejected, and only duplicates"""
    obs = objects(ctx, kind, n)
    dup = ctx.any([obs[i] == obs[j] for i in range(n) for j in range(i)])
    o = ctx.outcome(IndexTable, obs)
    if o.ok:
        ctx.check(ctx.not_(dup), "duplicate accepted")
    else:
        ctx.check(dup, "distinct objects rejected")
        ctx.check(o.raised(ValueError), "duplicate raises ValueError")


def reject_large(ctx, kind, n):
    """the same for many objects: one of them is moved onto another or next to all of them"""
    b = ctx.int("b", -40, 40)
    obs = many(ctx, kind, n, b)
    i = ctx.choice("i", [0, 1, n // 2, n - 2, n - 1])
    j = ctx.choice("j", [k for k in range(n) if k != i])
    if ctx.choice("same", [True, False]):
        # an equal object, not the same one
        obs[i] = many(ctx, kind, n, b)[j]
    o = ctx.outcome(IndexTable, obs, **ctx.choice("start", [{}, {"start": 7}]))
    dup = ctx.any([obs[i] == x for k, x in enumerate(obs) if k != i])
    if o.ok:
        ctx.check(ctx.not_(dup), "duplicate accepted")
    else:
        ctx.check(dup, "distinct objects rejected")
        ctx.check(o.raised(ValueError), "duplicate raises ValueError")


def mixed(ctx, kind, n):
    obs = objects(ctx, kind, n)
    for i in range(n):
        for j in range(i):
            ctx.assume(obs[i] != obs[j])
    where = ctx.choice("where", range(1, n + 1))
    odd = ctx.choice("odd", ["str", 0.25, None])
    obs.insert(where, odd)
    st = ctx.int("start", -5, 5)
    ctx.raises(TypeError, IndexTable, obs, start=st, label="mixed types")


def methods(ctx, n):
    """the objects' own lookups: getIndex, getStateIndex, getSiteIndex"""
    st = ctx.int("start", -5, 5)
    xs = [ctx.int("x%d" % i, -2, 2) for i in range(n)]
    ss = [ctx.int("s%d" % i, 0, 1) for i in range(n)]
    bs = [ctx.int("b%d" % i, 0, 1) for i in range(n)]
    ts = [ctx.int("t%d" % i, 0, 1) for i in range(n)]
    kind = ctx.choice("kind", ["SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"])
    make = {"SiteID": lambda i: SiteID([xs[i], 1]),
            "StateID": lambda i: StateID([xs[i], 1], ss[i], bs[i]),
            "AoC": lambda i: AoC(ts[i], [xs[i], 1], ss[i], bs[i]),
            "NumberOperator": lambda i: NumberOperator([xs[i], 1], ss[i], bs[i]),
            "SpinOperator": lambda i: SpinOperator(OTYPES[i % 5], [xs[i], 1])}[kind]
    obs = [make(i) for i in range(n)]
    states = [StateID([xs[i], 1], ss[i], bs[i]) for i in range(n)]
    if kind in ("SiteID", "SpinOperator"):
        F.distinct(ctx, xs)
    else:
        F.distinct(ctx, states)
    table = IndexTable(obs, start=st)
    for i in range(n):
        ctx.check(obs[i].getIndex(table) == st + i, "getIndex")
        ctx.check(make(i).getIndex(table) == st + i, "getIndex of an equal object")
    if kind in ("AoC", "NumberOperator"):
        table = IndexTable(states[::-1], start=st)
        for i in range(n):
            ctx.check(obs[i].getStateIndex(table) == st + n - 1 - i, "getStateIndex")
    elif kind == "SpinOperator":
        table = IndexTable([SiteID([xs[i], 1]) for i in reversed(range(n))], start=st)
        for i in range(n):
            ctx.check(obs[i].getSiteIndex(table) == st + n - 1 - i, "getSiteIndex")
    # an object which is not in the table
    o = ctx.outcome(make(0).getIndex, IndexTable(obs[1:], start=st))
    ctx.check(o.raised(KeyError), "getIndex of an unknown object raises KeyError")


CASES = [
    dict(name="methods", fn="methods", args=dict(n=3),
         bounds="3 objects of each of five kinds, site in [-2,2], spin, orbit, type 0..1, start in [-5,5]"),
    dict(name="bijection-int", fn="bijection", args=dict(kind="int", n=4, start="sym"),
         bounds="4 symbolic ints in [-8,8], start in [-5,5], query in [-9,9]"),
    dict(name="bijection-int-nostart", fn="bijection", args=dict(kind="int", n=3), bounds="3 ints, default start"),
    dict(name="bijection-state", fn="bijection", args=dict(kind="state", n=3, start="sym"),
         bounds="3 states, site in [-2,2], spin 0..1, orbit 0..2"),
    dict(name="bijection-aoc", fn="bijection", args=dict(kind="aoc", n=3, start="sym"), bounds="3 AoC"),
    dict(name="unknown-int", fn="unknown", args=dict(kind="int", n=3), bounds="3 ints + query"),
    dict(name="unknown-state", fn="unknown", args=dict(kind="state", n=2), bounds="2 states + query"),
    dict(name="unknown-aoc", fn="unknown", args=dict(kind="aoc", n=2), bounds="2 AoC + query"),
    dict(name="reject-int", fn="reject", args=dict(kind="int", n=4), bounds="4 ints"),
    dict(name="reject-state", fn="reject", args=dict(kind="state", n=3), bounds="3 states"),
    dict(name="reject-aoc", fn="reject", args=dict(kind="aoc", n=2), bounds="2 AoC"),
    dict(name="mixed", fn="mixed", args=dict(kind="int", n=3), bounds="3 ints with one odd object anywhere"),
    dict(name="bijection-int-6", fn="bijection", args=dict(kind="int", n=6, start="sym"), tier="thorough",
         bounds="6 ints"),
    dict(name="bijection-state-5", fn="bijection", args=dict(kind="state", n=5, start="sym"), tier="thorough",
         bounds="5 states"),
]
for kind, n in (("int", 40), ("state", 24), ("aoc", 24)):
    CASES.append(dict(name="reject-%s-large" % kind, fn="reject_large", args=dict(kind=kind, n=n if kind == "int" else 12),
                      bounds="%d objects at fixed distances from one symbolic number, two of them equal or none" % (n if kind == "int" else 12)))
    CASES.append(dict(name="bijection-%s-large" % kind, fn="bijection", args=dict(kind=kind, n=n, start="sym", large=True),
                      bounds="%d distinct objects at fixed distances from one symbolic number" % n))
