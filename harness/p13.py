"""P13: any site is decomposed uniquely into a cluster point plus a lattice vector."""
import numpy as np

import lat as L
from HamiltonianPy.lattice import Lattice
import HamiltonianPy.lattice.lattice as latmod

NEAR = 0.4e-4


def answers(ctx, lat, pts, site, i, t, shift, label):
    """every query about pts[i] + shift, where the translation numbers are t (and shift may include a tiny error)"""
    m = lat.space_dim
    o = ctx.outcome(lambda: lat.decompose(np.array(site)))
    ctx.check(o.ok, label + ": decomposed")
    if o.ok:
        p, dR = o.value
        ctx.eq(list(p), pts[i], label + ": cluster point")
        ctx.eq(list(dR), shift, label + ": translation", tol=1e-9)
    o = ctx.outcome(lambda: lat.getIndex(np.array(site), fold=True))
    ctx.check(o.ok, label + ": folded index")
    if o.ok:
        ctx.check(o.value == i, label + ": folded index value")
    home = ctx.all([x == 0 for x in t])
    o = ctx.outcome(lambda: lat.getIndex(np.array(site)))
    if o.ok:
        ctx.check(home, label + ": only cluster points have an index")
        ctx.check(o.value == i, label + ": index")
    else:
        ctx.check(ctx.all([ctx.not_(home), o.raised(KeyError)]), label + ": KeyError outside the cluster")
    ctx.check(ctx.iff(bool(lat.in_cluster(np.array(site))), home), label + ": in_cluster")


def translations(ctx, which, size, R, eps, queries=1, another=False, whole=False):
    """pts[i] + translation (+ error below the tolerance), i and the translation arbitrary"""
    if another:         # made and used before, or made before and used in between
        lat = L.make(which, size)
        L.use_another(lat)
        lat = L.make(which, size) if ctx.choice("new", [True, False]) else lat
        if queries > 1:
            lat.getIndex(lat.points[0] + lat.vectors[0], fold=True)
    else:
        lat = L.make(which, size)
    pts, vs, m = L.floats(lat.points), L.floats(lat.vectors), lat.space_dim
    for q in range(queries):
        if another and q:
            L.use_another(lat)
        i = ctx.concrete(ctx.int("i%d" % q, 0, len(pts) - 1))
        t = [ctx.int("t%d%d" % (q, k), -R, R) for k in range(len(vs))]
        t = [ctx.concrete(x) for x in t]
        shift = L.combine(t, vs, m)
        if eps:
            shift = L.add(shift, [ctx.real("e%d%d" % (q, j), -NEAR, NEAR) for j in range(m)])
        site = L.add(pts[i], shift)
        if whole and all(float(x).is_integer() for x in site):      # given as integers
            site = [int(x) for x in site]
        answers(ctx, lat, pts, site, i, t, shift, "query %d" % q)
    for i, p in enumerate(pts):
        ctx.eq(list(lat.getSite(i)), p, "site of an index")
        ctx.check(lat.getIndex(lat.getSite(i)) == i, "index of the site of an index")


def off(ctx, which, size, R, reach, before=False):
    """displaced off the lattice by more than the tolerance (before: after asking for the site nearby)"""
    lat = L.make(which, size)
    pts, vs, m = L.floats(lat.points), L.floats(lat.vectors), lat.space_dim
    i = ctx.concrete(ctx.int("i", 0, len(pts) - 1))
    t = [ctx.concrete(ctx.int("t%d" % k, -R, R)) for k in range(len(vs))]
    e = [ctx.real("e%d" % j, -reach, reach) for j in range(m)]
    s = 0
    for x in e:
        s = s + x * x
    ctx.assume(s >= 1.02e-8)
    there = L.combine(t, vs, m)
    if before:
        answers(ctx, lat, pts, L.add(pts[i], there), i, t, there, "before")
    site = L.add(L.add(pts[i], there), e)
    ctx.raises(RuntimeError, lambda: lat.decompose(np.array(site)), label="RuntimeError off the lattice")
    ctx.raises(KeyError, lambda: lat.getIndex(np.array(site)), label="KeyError off the lattice")
    o = ctx.outcome(lambda: lat.getIndex(np.array(site), fold=True))
    ctx.check(o.raised(RuntimeError, KeyError), "no folded index off the lattice")
    ctx.check(not lat.in_cluster(np.array(site)), "not in the cluster")
    if before:
        answers(ctx, lat, pts, L.add(pts[i], there), i, t, there, "after")


def line(ctx, n, R, period, span):
    """n points anywhere on a line, distinct modulo the period"""
    x = [ctx.real("x%d" % k, -span, span) for k in range(n)]
    for a in range(n):
        for b in range(a):
            # distinct sites of the infinite chain
            for k in range(-int(2 * span / period) - 1, int(2 * span / period) + 2):
                d = x[a] - x[b] - k * period
                ctx.assume(ctx.any([d >= 0.001, d <= -0.001]))
    lat = Lattice(np.array([[v] for v in x]), np.array([[period]]))
    t = ctx.int("t", -R, R)
    i = ctx.concrete(ctx.int("i", 0, n - 1))
    answers(ctx, lat, [[v] for v in x], [x[i] + t * period], i, [t], [t * period], "line")


CASES = []


def case(name, fn, args, bounds, tier=None, **o):
    opts = dict(budget=60)
    opts.update(o)
    CASES.append(dict(name=name, fn=fn, args=args, opts=opts, bounds=bounds, **({"tier": tier} if tier else {})))


for which, size, R, eps in [
        ("chain", (1,), 6, True), ("chain", (3,), 5, True), ("square", (1, 1), 4, True), ("square", (2, 2), 2, True),
        ("triangle", (1, 1), 3, True), ("triangle", (2, 1), 3, True), ("honeycomb", (1, 1), 3, True), ("honeycomb", (2, 2), 2, False),
        ("kagome", (1, 1), 3, True), ("cubic", (1, 1, 1), 2, True), ("cross", None, 2, False), ("z", None, 2, False),
        ("s", None, 2, False), ("star", None, 2, False), ("benzene", None, 2, True), ("diphenyl", None, 2, False),
        ("gear", None, 1, False), ("skew", None, 2, True), ("skew1", None, 2, True), ("flat", None, 2, True), ("spread", None, 3, True),
        ("ladder", None, 5, True), ("wire", None, 5, True), ("layer", None, 2, True), ("bcc", None, 1, True), ("fcc", None, 2, True),
        ("ortho2", None, 2, True), ("triclinic", None, 1, True), ("slab", None, 2, True),
        ("dimer", None, 8, True), ("ichain", None, 5, True), ("isquare", None, 2, True), ("iskew", None, 2, True), ("mixed", None, 4, True), ("mixed2", None, 2, True), ("mixed3", None, 2, True), ("tenth", None, 6, True), ("tenths", None, 2, True)]:
    case("far-%s-%s" % (which, "x".join(map(str, size or ()))), "translations",
         dict(which=which, size=size, R=R, eps=eps),
         "all points, translation numbers -%d..%d%s" % (R, R, ", errors within the tolerance" if eps else ""))
for which, size, R in [("chain", (2,), 6), ("square", (1, 2), 3), ("cubic", (1, 1, 1), 2), ("honeycomb", (1, 1), 2), ("bcc", None, 2),
                       ("dimer", None, 6), ("ichain", None, 6), ("isquare", None, 3)]:
    case("whole-%s" % which, "translations", dict(which=which, size=size, R=R, eps=False, queries=1, whole=True),
         "sites with integer coordinates given as integers, all points, translation numbers -%d..%d" % (R, R))
for which, size, R, reach in [("chain", (2,), 4, 0.45), ("square", (1, 1), 2, 0.01), ("triangle", (1, 1), 2, 0.01),
                              ("honeycomb", (1, 1), 1, 0.01), ("dimer", None, 3, 0.3), ("ichain", None, 3, 0.4), ("isquare", None, 1, 0.01), ("ladder", None, 3, 0.01),
                              ("cubic", (1, 1, 1), 1, 0.01), ("skew1", None, 1, 0.01)]:
    case("off-%s" % which, "off", dict(which=which, size=size, R=R, reach=reach),
         "all points, translation numbers -%d..%d, offsets up to %s and above the tolerance" % (R, R, reach))
for which, size, R, reach in [("chain", (2,), 4, 0.45), ("square", (1, 1), 3, 0.01), ("honeycomb", (1, 1), 2, 0.01),
                              ("cubic", (1, 1, 1), 2, 0.01), ("square", (1, 1), 2, 0.001), ("dimer", None, 4, 0.002)]:
    case("off-again-%s-%s" % (which, reach), "off", dict(which=which, size=size, R=R, reach=reach, before=True),
         "the site itself, then a point up to %s and above the tolerance from it, then the site again; "
         "all points, translation numbers -%d..%d" % (reach, R, R))
for which, size, R in [("chain", (2,), 4), ("square", (1, 1), 2), ("honeycomb", (1, 1), 1), ("skew1", None, 1)]:
    case("twice-%s" % which, "translations", dict(which=which, size=size, R=R, eps=False, queries=2),
         "two successive queries, translation numbers -%d..%d each" % (R, R))
for which, size, R, queries in [("chain", (1,), 5, 1), ("chain", (4,), 5, 1), ("square", (1, 1), 3, 1), ("square", (2, 2), 2, 1),
                                ("triangle", (2, 1), 2, 1), ("honeycomb", (1, 1), 2, 1), ("kagome", (1, 1), 2, 1), ("cubic", (1, 1, 1), 2, 1),
                                ("ladder", None, 4, 1), ("layer", None, 2, 1), ("dimer", None, 6, 1), ("benzene", None, 1, 1),
                                ("chain", (3,), 3, 2), ("honeycomb", (1, 1), 1, 2)]:
    case("another-%s-%s-%d" % (which, "x".join(map(str, size or ())), queries), "translations",
         dict(which=which, size=size, R=R, eps=False, queries=queries, another=True),
         "another lattice has been used; %d queries, translation numbers -%d..%d" % (queries, R, R))
for n, R, period, span in [(1, 6, 1.0, 2.0), (2, 3, 1.0, 1.0), (2, 2, 1.5, 2.0), (3, 1, 2.0, 1.0)]:
    case("line-%d-%s" % (n, period), "line", dict(n=n, R=R, period=period, span=span),
         "%d points anywhere within -%s..%s, period %s, translation numbers -%d..%d" % (n, span, span, period, R, R))

for which, size, R in [("chain", (1,), 100), ("chain", (12,), 8), ("square", (1, 1), 9), ("square", (4, 3), 2),
                       ("dimer", None, 60), ("honeycomb", (4, 4), 1), ("cubic", (1, 1, 1), 4), ("cubic", (2, 2, 2), 1)]:
    case("wide-%s-%s" % (which, "x".join(map(str, size or ()))), "translations", dict(which=which, size=size, R=R, eps=False),
         "all points, translation numbers -%d..%d" % (R, R))
