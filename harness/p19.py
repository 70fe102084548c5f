"""P19: objects are isolated from the arrays they are given and hand out."""
import numpy as np

import fermion as F
from HamiltonianPy.bond import Bond
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.lattice import KPath, Lattice, lattice_generator, special_cluster
import HamiltonianPy.lattice as database
from HamiltonianPy.line2d import Line2D
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_MATRICES
import HamiltonianPy.quantumoperator.constant as constants
from HamiltonianPy.quantumoperator.particlesystem import AoC, NumberOperator, ParticleTerm
from HamiltonianPy.quantumoperator.quantumstate import SiteID, StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction, SpinOperator
import HamiltonianPy.rotation3d as rot

FORMS = {"array": np.array, "list": list}


def plain(x):
    """a copy of an answer in lists and scalars"""
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def same(ctx, a, b, label):
    """two answers made of lists, numbers and objects which can be compared"""
    ctx.check(ctx.all(pairs(a, b)), label)


def pairs(a, b):
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return [False]
        r = []
        for x, y in zip(a, b):
            r += pairs(x, y)
        return r
    if a is None or b is None:
        return [a is b]
    return [a == b]


def spoil(ctx, a, tag, value=None):
    """overwrite one entry of an array or a list (of any depth); the position is arbitrary, the value too"""
    v = ctx.real(tag + ":v", -5.0, 5.0) if value is None else value
    if isinstance(a, np.ndarray):
        idx = tuple(ctx.concrete(ctx.int("%s:%d" % (tag, d), 0, n - 1)) for d, n in enumerate(a.shape))
        if ctx.sym and value is None and type(a) is np.ndarray and a.dtype != object:
            # an array of plain numbers cannot hold an arbitrary one
            ctx.assume(v == 2.71875)
            v = 2.71875
        a[idx] = v
        return
    k = ctx.concrete(ctx.int(tag + ":k", 0, len(a) - 1))
    if isinstance(a[k], (list, np.ndarray)):
        spoil(ctx, a[k], tag + "'", value)
    else:
        a[k] = v


# -- sites, states, operators -----------------------------------------------------------------
SITED = {
    "site": SiteID,
    "state": lambda x: StateID(x, 1, 2),
    "aoc": lambda x: AoC(CREATION, x, 1, 2),
    "number": lambda x: NumberOperator(x, 1, 2),
    "spin": lambda x: SpinOperator("x", x),
}


def sited_answers(o):
    r = [list(o.coordinate), plain(o.site), repr(type(o))]
    if isinstance(o, SpinOperator):
        r += [plain(o.matrix()), o.otype]
    if isinstance(o, (AoC, NumberOperator, StateID)):
        r += [o.spin, o.orbit]
    if isinstance(o, AoC):
        r += [o.otype]
    return r


def sited(ctx, kind, dims):
    d = ctx.choice("dim", dims)
    x = ctx.grid_vec("x", d, -3, 3, 8)
    given = FORMS[ctx.choice("form", sorted(FORMS))](x)
    o = SITED[kind](given)
    twin = SITED[kind](tuple(x))
    table = IndexTable([o])
    before, h = sited_answers(o), hash(o)
    same(ctx, plain(given), list(x), "argument kept")
    spoil(ctx, given, "given")
    a = o.site
    spoil(ctx, a, "site")
    if kind == "spin":
        spoil(ctx, o.matrix(), "matrix")
    if kind in ("aoc", "number"):
        spoil(ctx, o.state.site, "state")
    same(ctx, sited_answers(o), before, "answers kept")
    ctx.check(ctx.all([o == twin, ctx.not_(o != twin), hash(o) == h, hash(twin) == h]), "identity kept")
    ctx.check(ctx.all([table(o) == 0, table(twin) == 0]), "found in a table")
    same(ctx, sited_answers(SITED[kind](tuple(x))), before, "an object built later")


# -- bonds ------------------------------------------------------------------------------------
def bond_answers(b):
    r = [plain(b.endpoints), b.getLength(), b.directional]
    if b.directional:
        r += [plain(b.getDisplace()), plain(b.flip().endpoints)]
    return r


def bond(ctx, dim, directional):
    p, q = ctx.grid_vec("p", dim, -3, 3, 8), ctx.grid_vec("q", dim, -3, 3, 8)
    form = FORMS[ctx.choice("form", sorted(FORMS))]
    g0, g1 = form(p), form(q)
    b = Bond(g0, g1, directional=directional)
    twin = Bond(tuple(p), tuple(q), directional=directional)
    before, h = bond_answers(b), hash(b)
    same(ctx, [plain(g0), plain(g1)], [list(p), list(q)], "arguments kept")
    spoil(ctx, [g0, g1][ctx.choice("which", [0, 1])], "given")
    e = b.endpoints
    spoil(ctx, e[ctx.choice("end", [0, 1])], "endpoint")
    if directional:
        spoil(ctx, b.getDisplace(), "displace")
        f = b.flip()
        spoil(ctx, f.endpoints[ctx.choice("fend", [0, 1])], "flipped")
        ctx.check(ctx.all([f.flip() == b, b.oppositeTo(f)]), "flipped bond kept")
    same(ctx, bond_answers(b), before, "answers kept")
    ctx.check(ctx.all([b == twin, hash(b) == h, hash(twin) == h]), "identity kept")


def azimuth(ctx):
    d = [1.0, 1.0, 1.0]
    b = Bond([0.0] * 3, d)
    a = plain(b.getAzimuth())
    spoil(ctx, b.getAzimuth(), "azimuth")
    same(ctx, plain(b.getAzimuth()), a, "azimuth kept")


# -- lines and polygons -----------------------------------------------------------------------
def line(ctx):
    p, w = ctx.real_vec("p", 2, -3, 3), ctx.real("w", 0.5, 2.0)
    q = [p[0] + w, p[1] + 2 * w]
    form = FORMS[ctx.choice("form", sorted(FORMS))]
    g0, g1 = form(p), form(q)
    ln = Line2D(g0, g1)
    r = FORMS[ctx.choice("rform", sorted(FORMS))]([0.0, 0.5, 1.0])
    x = ctx.real("x", -5, 5)
    pt = form([p[0] + ctx.choice("px", [0.0, 1.0]), p[1]])
    keep = plain(pt)

    def answers():
        return [plain(ln.PointsFactory(r)), plain(ln(x, which="x")), ln.IsHorizontal, ln.IsVertical,
                ln.LocationRelation(pt)]
    before = answers()
    same(ctx, [plain(g0), plain(g1), plain(r), plain(pt)], [list(p), list(q), [0.0, 0.5, 1.0], keep], "arguments kept")
    spoil(ctx, [g0, g1][ctx.choice("which", [0, 1])], "given")
    spoil(ctx, ln.PointsFactory(r), "points")
    if ctx.choice("default", [False, True]):
        a = ln.PointsFactory()
        a[0, 0] = a[100, 1] = 7.0
    same(ctx, answers(), before, "answers kept")


def polygon(ctx):
    w, h = ctx.real("w", 0.5, 3.0), ctx.real("h", 0.5, 3.0)
    V = [[0.0, 0.0], [w, 0.0], [w, h], [0.0, h]]
    form = ctx.choice("form", ["array", "list"])
    g = np.array(V) if form == "array" else [list(v) for v in V]
    P = Polygon(g)
    pt, ref = np.array([w / 4, h / 4]), np.array([w / 2, h / 2])
    before = [plain(P.vertices), P.vertices_num]
    at = P.LocationRelation(pt, ref)
    same(ctx, [plain(g), plain(pt), plain(ref)], [V, [w / 4, h / 4], [w / 2, h / 2]], "arguments kept")
    spoil(ctx, g, "given")
    spoil(ctx, P.vertices, "vertices")
    same(ctx, [plain(P.vertices), P.vertices_num], before, "vertices kept")
    ctx.check(P.LocationRelation(pt, ref) is at, "location kept")


# -- lattices ---------------------------------------------------------------------------------
def lattice_answers(ctx, lat, site, depth):
    r = [plain(lat.points), plain(lat.vectors), plain(lat.bs), lat.point_num, lat.space_dim, lat.trans_dim]
    for i in range(len(r[0])):
        r.append(plain(lat.getSite(i)))
    r.append(lat.getIndex(np.array(site), fold=True))
    r.append(plain(lat.decompose(np.array(site))))
    r.append(bool(lat.in_cluster(np.array(site))))
    for n in range(depth):
        r.append(lat.neighbor_distance(n))
        intra, inter = lat.bonds(n)
        for bs in (intra, inter or []):
            r.append(len(bs))
            r.append(sorted(plain(b.endpoints) for b in bs) if all(type(z) is float for b in bs for e in b.endpoints for z in e) else 0)
    return r


HAND = ["points", "vectors", "bs", "getSite", "decompose", "bonds", "fold"]


def lattice(ctx, which, size, depth, early):
    """bundled lattices and clusters of the user: every accessor's result overwritten"""
    import lat as L
    lat = L.make(which, size)
    pts, vs = L.floats(lat.points), L.floats(lat.vectors)
    t = [ctx.choice("t", [-1, 2])] + [1] * (len(vs) - 1)
    site = L.add(pts[-1], L.combine(t, vs, lat.space_dim))
    if early:
        # answers before anything is handed out come from a twin, so that no query fills a cache first
        before = lattice_answers(ctx, L.make(which, size), site, depth)
    else:
        before = lattice_answers(ctx, lat, site, depth)
    acc = ctx.choice("accessor", HAND)
    if acc in ("points", "vectors", "bs"):
        spoil(ctx, getattr(lat, acc), "handed")
    elif acc == "getSite":
        spoil(ctx, lat.getSite(ctx.choice("k", range(len(pts)))), "handed")
    elif acc == "decompose":
        g = np.array(site)
        p, dR = lat.decompose(g)
        spoil(ctx, [p, dR][ctx.choice("part", [0, 1])], "handed")
        same(ctx, plain(g), list(site), "argument kept")
    else:
        intra, inter = lat.bonds(ctx.choice("n", range(depth)), fold=acc == "fold")
        bs = intra + (inter or [])
        if bs:
            spoil(ctx, bs[ctx.concrete(ctx.int("b", 0, min(len(bs), 3) - 1))].endpoints[ctx.choice("end", [0, 1])], "handed")
        if ctx.choice("empty the lists", [False, True]):
            del intra[:]
            if inter:
                del inter[:]
    same(ctx, lattice_answers(ctx, lat, site, depth), before, "answers kept")
    same(ctx, lattice_answers(ctx, L.make(which, size), site, depth), before, "a lattice built later")


def given_lattice(ctx, n, dim, depth):
    """the arrays given to the constructor are overwritten, before or after the first queries"""
    d = [ctx.real("d%d" % j, -0.125, 0.125) for j in range(dim)]
    P = [[0.0] * dim] + [[0.5 * (k + 1) / n + z for z in d] for k in range(n - 1)]
    A = [[2.0 if j == k else 0.25 * (j < k) for j in range(dim)] for k in range(dim)]
    gp, gv = np.array(P), np.array(A)
    lat = Lattice(gp, gv)
    same(ctx, [plain(gp), plain(gv)], [P, A], "arguments kept")
    twin = Lattice(np.array(P), np.array(A))
    q = np.array([x + y + z for x, y, z in zip(P[-1], A[0], A[-1])])

    def answers(x):
        r = [plain(x.points), plain(x.vectors), plain(x.bs), [plain(x.getSite(i)) for i in range(n)]]
        r += [x.getIndex(q, fold=True), plain(x.decompose(q))]
        if depth:
            r += [x.neighbor_distance(k) for k in range(depth)]
        return r
    if ctx.choice("queried before", [False, True]):
        answers(lat)
    spoil(ctx, [gp, gv][ctx.choice("which", [0, 1])], "given")
    same(ctx, answers(lat), answers(twin), "answers kept")


def bundled(ctx, names):
    """the published tables of the database"""
    which, var = ctx.choice("which", names)
    tables = [getattr(database, v) for v in var]
    before = [plain(t) for t in tables]
    lat = lattice_generator(*which) if isinstance(which, tuple) else special_cluster(which)
    spoil(ctx, getattr(lat, ctx.choice("acc", ["points", "vectors", "bs"])), "handed")
    p, dR = lat.decompose(lat.getSite(0))
    spoil(ctx, p, "decomposed")
    for v, x in zip(var, before):
        same(ctx, plain(getattr(database, v)), x, "published table kept")
    lat = lattice_generator(*which) if isinstance(which, tuple) else special_cluster(which)
    same(ctx, plain(lat.points), before[0], "a cluster built later")


def kpath(ctx):
    d = [ctx.real("d%d" % j, 0.5, 1.5) for j in range(2)]
    pts = [[0.0, 0.0], [d[0], 0.0], [d[0], d[0]]]
    form = ctx.choice("form", ["list of arrays", "array"])
    g = np.array(pts) if form == "array" else [np.array(p) for p in pts]
    a, i = KPath(g, min_num=2, loop=False)
    ref, idx = plain(a), list(i)
    same(ctx, plain(g), pts, "anchors kept")
    spoil(ctx, a, "path")
    same(ctx, plain(g), pts, "anchors kept when the path is overwritten")
    b, j = KPath(g, min_num=2, loop=False)
    same(ctx, [plain(b), list(j)], [ref, idx], "same path again")
    keep = plain(b)
    spoil(ctx, g, "anchors")
    same(ctx, plain(b), keep, "path kept when the anchors are overwritten")


# -- rotations --------------------------------------------------------------------------------
def rotation(ctx):
    names = [n for n in rot.__all__ if not n.startswith("Rotation")]
    before = [plain(getattr(rot, n)) for n in names]
    th = ctx.real("th", -7.0, 7.0)
    axis = ctx.choice("axis", [[0.0, 0.0, 1.0], [1.0, 1.0, 1.0], [0.0, 3.0, 4.0]])
    g = FORMS[ctx.choice("form", sorted(FORMS))](list(axis))
    inv = ctx.choice("inversion", [False, True])
    kind = ctx.choice("kind", ["X", "Y", "Z", "General", "Euler"])

    def build():
        if kind == "General":
            return rot.RotationGeneral(g, th, inversion=inv)
        if kind == "Euler":
            return rot.RotationEuler(th, 0.0, 0.0, inversion=inv)
        return getattr(rot, "Rotation" + kind)(th, inversion=inv)
    M = build()
    keep = plain(M)
    same(ctx, plain(g), list(axis), "axis kept")
    spoil(ctx, M, "matrix")
    same(ctx, plain(build()), keep, "same rotation again")
    for n, x in zip(names, before):
        same(ctx, plain(getattr(rot, n)), x, "constants kept")


def spin_constants(ctx):
    """overwriting, in place and through products, what matrix() and matrix_repr() return"""
    before = {t: plain(SPIN_MATRICES[t]) for t in "xyzpm"}
    named = {n: plain(getattr(constants, n)) for n in ("SPIN_X", "SPIN_Y", "SPIN_Z", "SPIN_P", "SPIN_M")}
    t = ctx.choice("type", "xyzpm")
    o = SpinOperator(t, [0.0])
    table = IndexTable([SiteID([0.0]), SiteID([1.0])])
    m = o.matrix()
    how = ctx.choice("how", ["entry", "scale", "add", "matrix_repr", "interaction", "one spin"])
    if how == "entry":
        spoil(ctx, m, "m")
    elif how == "scale":
        m *= 3.0
    elif how == "add":
        m += 1.0
    elif how == "one spin":
        r = o.matrix_repr(IndexTable([SiteID([0.0])]))
        r *= 2.0
    elif how == "matrix_repr":
        r = o.matrix_repr(table)
        r *= 2.0
    else:
        s = SpinInteraction([o, SpinOperator(ctx.choice("other", "xz"), [1.0])], coeff=2.0)
        r = s.matrix_repr(table)
        keep = plain(r)
        r *= 2.0
        same(ctx, plain(s.matrix_repr(table)), keep, "matrix of the interaction")
    for k in "xyzpm":
        same(ctx, plain(SPIN_MATRICES[k]), before[k], "shared matrices kept")
        same(ctx, plain(SpinOperator(k, [0.0]).matrix()), before[k], "matrices of other operators")
    for n in named:
        same(ctx, plain(getattr(constants, n)), named[n], "named constants kept")


# -- containers -------------------------------------------------------------------------------
def table(ctx):
    n = 4
    xs = [ctx.grid("x%d" % k, 2 * k, 2 * k + 1, 4) for k in range(n)]
    objs = [SiteID([x, 0.0]) for x in xs]
    g = list(objs)
    T = IndexTable(g, start=ctx.choice("start", [0, 3]))
    s = ctx.concrete(T(objs[0]))

    def answers():
        return [len(T), [T(o) for o in objs], [T.query_object(s + k) for k in range(n)],
                [list(z) for z in T], list(T.indices()), list(T.objects())]
    before = answers()
    k = ctx.concrete(ctx.int("k", 0, n - 1))
    what = ctx.choice("what", ["replace", "remove", "append", "reverse"])
    if what == "replace":
        g[k] = SiteID([100.0, 0.0])
    elif what == "remove":
        del g[k]
    elif what == "append":
        g.append(SiteID([100.0, 0.0]))
    else:
        g.reverse()
    v = list(T.objects())
    del v[k]
    w = list(T)
    w.reverse()
    same(ctx, answers(), before, "answers kept")


def term(ctx, kind):
    """lists of operators"""
    x = ctx.grid_vec("x", 2, -3, 3, 4)
    if kind == "fermion":
        ops = [AoC(CREATION, x), AoC(ANNIHILATION, [7.0, 7.0])]
        other = AoC(ANNIHILATION, [9.0, 9.0])
        build = ParticleTerm
    else:
        ops = [SpinOperator("x", x), SpinOperator("p", [7.0, 7.0])]
        other = SpinOperator("z", [9.0, 9.0])
        build = SpinInteraction
    g = list(ops)
    t = build(g, coeff=ctx.real("c", -2, 2))
    twin = build(tuple(ops), coeff=t.coeff)
    ctx.check(len(g) == 2 and all(a is b for a, b in zip(g, ops)), "argument kept")
    before = [t.components, t.coeff]
    k = ctx.concrete(ctx.int("k", 0, 1))
    what = ctx.choice("what", ["replace", "remove", "append", "reverse"])
    if what == "replace":
        g[k] = other
    elif what == "remove":
        del g[k]
    elif what == "append":
        g.append(other)
    else:
        g.reverse()
    ctx.check(ctx.all([a == b for a, b in zip(t.components, before[0])] + [len(t.components) == 2, t.coeff == before[1]]), "term kept")
    got = ctx.outcome(lambda: t.components.__setitem__(0, other))
    ctx.check(ctx.all([a == b for a, b in zip(t.components, before[0])] + [len(t.components) == 2]), "components cannot be replaced")
    d, e = t.dagger(), twin.dagger()
    ctx.check(ctx.all([len(d.components) == len(e.components)] + [a == b for a, b in zip(d.components, e.components)]), "dagger kept")


def space(ctx, kind):
    """lists of states and returned bases"""
    n = 3
    st = [2, 0, 3]
    g = list(st)
    num = ctx.choice("number", [-1, 0, 1, 2])
    if kind == "simple":
        H = SimpleHilbertSpace(g, num)
    else:
        H = HilbertSpace([g, num], [[4, 1], 1])
    cont = ctx.choice("container", ["array", "list", "tuple"])
    sort = ctx.choice("sort", [True, False])

    def answers():
        r = [sorted(plain(H.base_vectors(container=cont, sort=sort)))]
        r += [sorted(plain(H.base_vectors()))]
        if kind == "simple":
            r += [list(H.single_particle_states), H.state_number, H.particle_number]
        else:
            r += [H.subspace_number, plain(H.subspace_specifiers)]
        return r
    before = answers()
    if ctx.choice("spoil", ["given", "bases"]) == "given":
        spoil(ctx, g, "given", value=7)
    else:
        b = H.base_vectors(container=cont, sort=sort)
        if cont != "tuple":
            spoil(ctx, b, "bases", value=63)
    same(ctx, answers(), before, "answers kept")


def bases(ctx):
    """bases given to the matrix functions, and the matrices they return"""
    states = [StateID([float(k)]) for k in range(3)]
    T = IndexTable(states)
    rb = ctx.choice("right", [[1, 2, 4], [3, 5, 6], list(range(8))])
    g, h = np.array(rb, dtype=np.uint64), np.array(rb, dtype=np.uint64)
    c = ctx.real("c", -2, 2)
    i, j = ctx.choice("i", range(3)), ctx.choice("j", range(3))
    t = ParticleTerm([AoC(CREATION, [float(i)]), AoC(ANNIHILATION, [float(j)])], coeff=c)
    M = t.matrix_repr(T, g, left_bases=h)
    keep = plain(M)
    ctx.check(ctx.all([int(a) == b for a, b in zip(g, rb)] + [int(a) == b for a, b in zip(h, rb)]), "bases kept")
    if ctx.choice("spoil", ["matrix", "bases"]) == "matrix":
        M *= 2.0
        same(ctx, plain(t.matrix_repr(T, h)), keep, "matrix again")
    else:
        g[0] = 0
        h[0] = 0
        same(ctx, plain(M), keep, "matrix kept")


CASES = []


def case(name, fn, bounds, tier=None, _o=None, **args):
    o = dict(budget=90)
    o.update(_o or {})
    CASES.append(dict(name=name, fn=fn, args=args, opts=o, bounds=bounds, **({"tier": tier} if tier else {})))


for k in sorted(SITED):
    case("sited-" + k, "sited", "1 to 3 coordinates in multiples of 1/8 of +-3; one entry of the given list or array, of "
         "the returned coordinates (and of the matrix) overwritten with any number within +-5", kind=k, dims=[1, 2, 3])
for d in (1, 2, 3):
    for f in (True, False):
        case("bond-%d%s" % (d, "" if f else "u"), "bond", "coordinates in multiples of 1/8 within +-3", dim=d, directional=f)
case("azimuth", "azimuth", "a 3d bond")
case("line", "line", "any rising line within +-3")
case("polygon", "polygon", "rectangles of sides 0.5..3")
for which, size, depth, early, tier in [
        ("chain", (2,), 3, False, None), ("chain", (1,), 3, True, None), ("square", (1, 2), 3, True, None),
        ("honeycomb", (1, 1), 3, False, None), ("kagome", (1, 1), 2, True, None), ("cubic", (1, 1, 1), 2, False, None),
        ("ladder", None, 2, True, None), ("skew", None, 2, False, None), ("triangle", (2, 2), 3, True, "thorough"),
        ("square", (2, 2), 4, False, "thorough"), ("wire", None, 3, False, "thorough"), ("benzene", None, 3, True, "thorough")]:
    case("lattice-%s%s" % (which, "".join(map(str, size or ()))), "lattice", "every accessor, "
         "one entry of its result overwritten with any number within +-5; %d neighbour orders" % (depth - 1), tier,
         which=which, size=size, depth=depth, early=early)
for n, dim, depth in [(1, 1, 0), (2, 1, 2), (2, 2, 0), (3, 2, 0), (2, 3, 0)]:
    case("given-%d-%dd" % (n, dim), "given_lattice", "%d points with an arbitrary displacement, one entry of the given arrays overwritten" % n,
         n=n, dim=dim, depth=depth)
case("bundled", "bundled", "cells and special clusters of the database", names=[
    (("chain", 1), ["CHAIN_CELL_POINTS", "CHAIN_CELL_AS"]), (("square", 1, 1), ["SQUARE_CELL_POINTS", "SQUARE_CELL_AS"]),
    (("honeycomb", 1, 1), ["HONEYCOMB_CELL_POINTS", "HONEYCOMB_CELL_AS"]), ("cross", ["SQUARE_CROSS_POINTS", "SQUARE_CROSS_AS"]),
    ("benzene", ["HONEYCOMB_BENZENE_POINTS", "HONEYCOMB_BENZENE_AS"])])
case("kpath", "kpath", "three anchors, 2 points on the shortest segment")
case("rotation", "rotation", "any angle, three axes, every constructor")
case("spin-constants", "spin_constants", "every operator type")
case("table", "table", "4 objects, any position")
case("term-fermion", "term", "two operators", kind="fermion")
case("term-spin", "term", "two operators", kind="spin")
case("space-simple", "space", "three states", kind="simple")
case("space-multi", "space", "three states and two states", kind="multi")
case("bases", "bases", "three states")
