"""P31: the textual forms of objects."""
import numpy as np
from HamiltonianPy.bond import Bond
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.line2d import Line2D
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_OTYPES
from HamiltonianPy.quantumoperator.factory import CoulombFactory, CPFactory, HoppingFactory
from HamiltonianPy.quantumoperator.particlesystem import AoC, NumberOperator, ParticleTerm
from HamiltonianPy.quantumoperator.quantumstate import SiteID, StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction, SpinOperator

C, A = CREATION, ANNIHILATION
NAMES = dict(Bond=Bond, HilbertSpace=HilbertSpace, SimpleHilbertSpace=SimpleHilbertSpace, Line2D=Line2D, AoC=AoC,
             NumberOperator=NumberOperator, SiteID=SiteID, StateID=StateID, SpinOperator=SpinOperator,
             CREATION=CREATION, ANNIHILATION=ANNIHILATION)


def point(ctx, tag, d, num):
    if num == "int":
        return ctx.int_vec(tag, d, -30, 30)
    if num == "real":
        return ctx.real_vec(tag, d, -5, 5)
    if num == "large":
        return ctx.real_vec(tag, d, -900, 900)
    # numbers of different types
    return [ctx.int("%s%d" % (tag, i), -3, 3) if i % 2 else ctx.grid("%s%d" % (tag, i), -3, 3, 8) for i in range(d)]


def same(ctx, p, q):
    p, q = list(p), list(q)
    return len(p) == len(q) and ctx.all([a == b for a, b in zip(p, q)])


def thing(ctx, kind, tag, d, num):
    """an object, and its attributes"""
    x = point(ctx, tag + "x", d, num)
    if kind == "site":
        return SiteID(x), lambda o: (o.coordinate,)
    if kind == "spin":
        t = ctx.choice(tag + "t", SPIN_OTYPES)
        return SpinOperator(t, x), lambda o: (o.coordinate, o.otype)
    s, o = ctx.int(tag + "s", 0, 12), ctx.int(tag + "o", 0, 12)
    at = lambda o: (o.coordinate, o.spin, o.orbit)
    if kind == "state":
        return StateID(x, s, o), at
    if kind == "number":
        return NumberOperator(x, s, o), at
    return AoC(ctx.choice(tag + "t", [C, A]), x, s, o), lambda o: (o.coordinate, o.spin, o.orbit, o.otype)


def official(ctx, kind, d, num):
    """the official representation is an expression for an equal object"""
    o, attributes = thing(ctx, kind, "a", d, num)
    for name, fn in (("repr", lambda: repr(o)), ("str", lambda: str(o)), ("format", lambda: "{0}".format(o))):
        t = ctx.text(fn)
        ctx.check(isinstance(t, str), name + " is text")
        r = ctx.outcome(ctx.evaluate, t, NAMES)
        ctx.check(r.ok, name + " is an expression")
        if r.ok:
            p = r.value
            ctx.check(type(p) is type(o), name + ": class")
            ctx.check(p == o, name + ": equal object")
            ctx.check(hash(p) == hash(o), name + ": equal hash")
            for u, v in zip(attributes(p), attributes(o)):
                ctx.check(same(ctx, u, v) if isinstance(u, tuple) else u == v, name + ": attributes")
    # objects with different names are told apart
    q, _ = thing(ctx, kind, "b", d, num)
    r = ctx.outcome(ctx.evaluate, ctx.text(lambda: repr(q)), NAMES)
    ctx.check(r.ok and ctx.iff(r.value == o, q == o), "the representation tells objects apart")


def bond(ctx, d, num):
    p, q = point(ctx, "p", d, num), point(ctx, "q", d, num)
    di = ctx.choice("directional", [True, False])
    b = Bond(p, q, directional=di)
    r = ctx.outcome(ctx.evaluate, ctx.text(lambda: repr(b)), NAMES)
    ctx.check(r.ok, "repr is an expression")
    if r.ok:
        ctx.check(isinstance(r.value, Bond), "class")
        ctx.check(r.value == b, "equal bond")
        ctx.check(r.value.directional is di, "directed as the bond")
        e0, e1 = r.value.endpoints
        ctx.check(ctx.all([same(ctx, e0, p), same(ctx, e1, q)]), "endpoints in order")


def line(ctx, num):
    p, q = point(ctx, "p", 2, num), point(ctx, "q", 2, num)
    ctx.assume(ctx.any([(p[i] - q[i]) * (p[i] - q[i]) >= 0.01 for i in range(2)]))
    l = Line2D(p, q)
    r = ctx.outcome(ctx.evaluate, ctx.text(lambda: repr(l)), NAMES)
    ctx.check(r.ok, "repr is an expression")
    if r.ok:
        ctx.check(isinstance(r.value, Line2D), "class")
        r0, r1 = r.value.endpoints if hasattr(r.value, "endpoints") else (r.value._p0, r.value._p1)
        ctx.check(ctx.all([same(ctx, r0, p), same(ctx, r1, q)]), "end points in order")


def formula(ctx, which):
    """the formula of a line is satisfied by its points"""
    p = ctx.grid_vec("p", 2, -3, 3, 4)
    dx = 0 if which == "vertical" else ctx.choice("dx", [1, -2, 0.5])
    dy = 0 if which == "horizontal" else ctx.int("dy", -3, 3)
    if which != "horizontal":
        ctx.assume(dy != 0)
    q = [p[0] + dx, p[1] + dy]
    t = ctx.text(lambda: str(Line2D(p, q)))
    if which == "horizontal":
        v = ctx.scan(t, "y = %")
        ctx.check(v is not None, "form")
        if v is not None:
            ctx.check(ctx.close(v[0], p[1], 6e-5), "height")
    elif which == "vertical":
        v = ctx.scan(t, "x = %")
        ctx.check(v is not None, "form")
        if v is not None:
            ctx.check(ctx.close(v[0], p[0], 6e-5), "position")
    else:
        v = ctx.scan(t, "y = %x + %")
        ctx.check(v is not None, "form")
        if v is not None:
            ctx.check(ctx.close(v[0] * dx, dy, 2e-4), "slope")
            ctx.check(ctx.close(v[1] * dx, p[1] * dx - p[0] * dy, 2e-4), "intercept")


def space(ctx, sizes, kind):
    """sizes: the number of states of each subspace; kind: how the subspaces are specified"""
    b = ctx.int("b", 0, 40)
    specs, k = [], 0
    for i, n in enumerate(sizes):
        states = [b + 2 * (k + j) for j in ([n - 2, n - 1] + list(range(n - 3, -1, -1)) if n > 1 else [0])]
        k += n
        specs.append((states if i % 2 else tuple(states), ctx.choice("m%d" % i, list(range(-1, n + 1)))))
    if kind == "simple":
        s = SimpleHilbertSpace(*specs[0])
        t = ctx.text(lambda: repr(s))
        r = ctx.outcome(ctx.evaluate, t, NAMES)
        ctx.check(r.ok, "repr is an expression")
        if r.ok:
            ctx.check(type(r.value) is SimpleHilbertSpace, "class")
            ctx.check(same(ctx, r.value.single_particle_states, specs[0][0]), "states in order")
            ctx.check(r.value.particle_number == s.particle_number, "number of particles")
        lines = ctx.text(lambda: str(s)).split("\n")
        v = ctx.scan(lines[0], "The number of particle: %")
        ctx.check(v is not None and v[0] == s.particle_number, "number of particles described")
        v = ctx.scan(lines[1], "The number of single-particle state: %")
        ctx.check(v is not None and v[0] == sizes[0], "number of states described")
        r = ctx.outcome(ctx.evaluate, lines[-1].strip(), {})
        ctx.check(r.ok and same(ctx, r.value, specs[0][0]), "states described")
        return
    s = HilbertSpace(*specs)
    lines = ctx.text(lambda: str(s)).split("\n")
    ctx.check(len(lines) == 2 + len(specs), "one line for each subspace")
    v = ctx.scan(lines[0], "subspace number: %")
    ctx.check(v is not None and v[0] == len(specs), "number of subspaces")
    for l, (u, m) in zip(lines[2:], s.subspace_specifiers):
        r = ctx.outcome(ctx.evaluate, l.strip(), {})
        ctx.check(r.ok and same(ctx, r.value[0], u) and r.value[1] == m, "specifier")
    r = ctx.outcome(ctx.evaluate, ctx.text(lambda: repr(s)), NAMES)
    ctx.check(r.ok, "repr is an expression")
    if r.ok:
        ctx.check(type(r.value) is HilbertSpace, "class")
        got = r.value.subspace_specifiers
        ctx.check(len(got) == len(specs), "number of subspaces")
        for (u, m), (v, n) in zip(got, s.subspace_specifiers):
            ctx.check(same(ctx, u, v), "states in order")
            ctx.check(m == n, "number of particles")
        for (u, m), (v, n) in zip(got, specs):
            ctx.check(same(ctx, u, v), "the states given")


def table(ctx, kind, n, start):
    """the description of a table lists every object with its index"""
    b = ctx.int("b", -9, 9)
    obs = []
    for i in range(n):
        x = [b + (7 * i) % n, ctx.int("y%d" % i, -2, 2)]
        obs.append({"site": lambda: SiteID(x), "state": lambda: StateID(x, i % 2, 3 - i), "aoc": lambda: AoC(i % 2, x, i)}[kind]())
    st = ctx.choice("start", start)
    lines = ctx.text(lambda: str(IndexTable(obs, start=st) if st is not None else IndexTable(obs))).split("\n")
    ctx.check(len(lines) == n + 2, "a heading and one line for each object")
    for i, o in enumerate(obs):
        if i + 2 < len(lines):
            head, _, rest = lines[i + 2].partition(" ")
            ctx.check(head == str(i + (st or 0)), "index")
            r = ctx.outcome(ctx.evaluate, rest.strip(), NAMES)
            ctx.check(r.ok, "an expression")
            if r.ok:
                ctx.check(ctx.all([type(r.value) is type(o), r.value == o]), "object of the index")


def listing(ctx, which):
    """the description of a term gives its coefficient and its operators in order"""
    c = ctx.complex("c", -3, 3) if which.endswith("z") else ctx.real("c", -3, 3)
    x, y = ctx.int_vec("x", 2, -2, 2), ctx.int_vec("y", 2, -2, 2)
    which = which.rstrip("z")
    t = {"hop": lambda: HoppingFactory(x, y, spin0=ctx.int("s", 0, 3), orbit1=ctx.int("o", 0, 3), coeff=c),
         "cp": lambda: CPFactory(x, coeff=c), "coulomb": lambda: CoulombFactory(x, y, spin1=ctx.int("s", 0, 3), coeff=c),
         "three": lambda: ParticleTerm([AoC(C, x), AoC(A, y, 3, ctx.int("o", 0, 3)), AoC(C, y)], c), "empty": lambda: ParticleTerm((), c),
         "spin": lambda: SpinInteraction([SpinOperator("p", x), SpinOperator("y", y), SpinOperator("m", x)], c)}[which]()
    lines = ctx.text(lambda: str(t)).split("\n")
    v = ctx.scan(lines[0], "The coefficient of this term: %")
    ctx.check(v is not None, "coefficient")
    if v is not None:
        ctx.check(ctx.close(v[0], c, 1e-9), "coefficient of the term")
    ctx.check(len(lines) == 2 + len(t.components), "one line for each operator")
    for l, o in zip(lines[2:], t.components):
        r = ctx.outcome(ctx.evaluate, l.strip(), NAMES)
        ctx.check(r.ok, "an expression")
        if r.ok:
            ctx.check(ctx.all([type(r.value) is type(o), r.value == o]), "operators in order")


def rounded(ctx, got, want, n):
    """got is want to n decimals"""
    ctx.check(ctx.all([got - want <= 0.5001 * 10.0 ** -n, want - got <= 0.5001 * 10.0 ** -n]), "rounded coordinate")
    f = got * 10 ** n
    ctx.check(ctx.close(f, round(f), 1e-6), "no more digits than asked for")


def site_latex(ctx, d, num, mode, before=False):
    """before: other forms have been asked for before"""
    x = point(ctx, "x", d, num)
    s = SiteID(x)
    if before:
        for kw in ({}, {"ndigits": 1}, {"site_index": 5}, {"site_index": IndexTable([s], start=3)}):
            ctx.text(lambda: s.tolatex(**kw))
        ctx.text(lambda: str(s))
    if mode == "index":
        k = ctx.int("k", 0, 99)
        v = ctx.scan(ctx.text(lambda: s.tolatex(site_index=k)), "%")
        ctx.check(v is not None and v[0] == k, "the given index")
        v = ctx.scan(ctx.text(lambda: s.tolatex(site_index=np.int64(7))), "%")
        ctx.check(v is not None and v[0] == 7, "an index which is a numpy integer")
        return
    if mode == "table":
        y, z = point(ctx, "y", d, num), point(ctx, "z", d, num)
        others = [SiteID(y), SiteID(z)]
        ctx.assume(ctx.all([ctx.not_(others[0] == s), ctx.not_(others[1] == s), ctx.not_(others[0] == others[1])]))
        st = ctx.int("start", 0, 9)
        t = IndexTable([others[0], s, others[1]], start=st)
        v = ctx.scan(ctx.text(lambda: s.tolatex(site_index=t)), "%")
        ctx.check(v is not None and v[0] == st + 1, "the index in the table")
        return
    n = ctx.choice("n", [None, 0, 1, 2, 6])
    v = ctx.scan(ctx.text(lambda: s.tolatex(**({} if n is None else {"ndigits": n}))), "(" + ",".join("%" * d) + ")")
    ctx.check(v is not None, "form")
    if v is not None:
        for a, b in zip(v, x):
            rounded(ctx, a, b, 4 if n is None else n)


def state_latex(ctx, kind, half, orbit, mode, low=0, before=False, num="real"):
    """kind: state, aoc, number; mode: how the site is shown"""
    x = point(ctx, "x", 2, num if mode == "plain" else "int")
    s, o = ctx.int("s", low, 3), ctx.int("o", 0, 12)
    ot = ctx.choice("t", [C, A]) if kind == "aoc" else None
    obj = {"state": lambda: StateID(x, s, o), "aoc": lambda: AoC(ot, x, s, o), "number": lambda: NumberOperator(x, s, o)}[kind]()
    kw, want = {}, []
    if before:
        for w in ({}, {"ndigits": 1, "spin_one_half": half is False, "suppress_orbit": orbit is False},
                  {"site_index": IndexTable([SiteID(x)], start=3)}, {"site_index": 5, "suppress_orbit": orbit is False}):
            ctx.text(lambda: obj.tolatex(**w))
        ctx.text(lambda: str(obj))
    if half is not None:
        kw["spin_one_half"] = half
    if orbit is not None:
        kw["suppress_orbit"] = orbit
    if mode == "index":
        k = ctx.int("k", 0, 99)
        kw["site_index"] = k
        where = "%"
    elif mode == "table":
        k = ctx.choice("k", [0, 1])
        other = SiteID([x[0] + 1, x[1]])
        kw["site_index"] = IndexTable([other, SiteID(x)] if k else [SiteID(x), other])
        where = "%"
    else:
        where = "(%,%)"
        n = ctx.choice("n", [None, 2])
        if n is not None:
            kw["ndigits"] = n
    text = ctx.text(lambda: obj.tolatex(**kw))
    frame = {"state": "@", "aoc": "$c_{@}^{\\dagger}$" if ot == C else "$c_{@}$", "number": "$n_{@}$"}[kind]
    dollar = "$" if kind == "state" else ""
    arrows = [dollar + "\\downarrow" + dollar, dollar + "\\uparrow" + dollar]
    tail = ",%" if orbit is False else ""
    found = None
    for form, value in ((arrows[0], 0), (arrows[1], 1), ("%", None)):
        v = ctx.scan(text, frame.replace("@", where + "," + form + tail))
        if v is not None:
            found = value
            break
    ctx.check(v is not None, "form")
    if v is None:
        return
    if mode == "plain":
        for a, b in zip(v[:2], x):
            rounded(ctx, a, b, 4 if n is None else n)
    else:
        ctx.check(v[0] == k, "index of the site")
    at = 2 if mode == "plain" else 1
    if half is False:
        ctx.check(found is None, "the spin is a number")
    if found is None:
        ctx.check(v[at] == s, "spin")
        if half is not False:
            ctx.check(ctx.all([s != 0, s != 1]), "arrows for spin one half")
        at += 1
    else:
        ctx.check(s == found, "down is 0, up is 1")
    if orbit is False:
        ctx.check(v[at] == o, "orbit")
    ctx.check(len(v) == at + (orbit is False), "nothing else")


def term_latex(ctx, which, ck, before=False):
    c = ctx.complex("c", -3, 3) if ck == "complex" else ctx.int("c", -3, 3) if ck == "int" else ctx.real("c", -3, 3)
    xs = [ctx.int_vec("x", 2, -2, 2), ctx.int_vec("y", 2, -2, 2)]
    ctx.assume(ctx.any([a != b for a, b in zip(*xs)]))
    kw, where, sites = {}, "(%,%)", None
    use = ctx.choice("table", [False, True])
    if use:
        sites = IndexTable([SiteID(xs[1]), SiteID(xs[0])])
        where = "%"
    k = ctx.choice("ops", [(0,), (0, 1), (1, 0), (0, 1, 0), (1, 1, 0, 0)])
    if which == "spin":
        t = SpinInteraction([SpinOperator(SPIN_OTYPES[(2 * i + j) % 5], xs[j]) for i, j in enumerate(k)], c)
        form = "".join("S_{@}^{%s}" % o.otype for o in t.components)
        pos = [o.coordinate for o in t.components]
        tail = []
    else:
        t = ParticleTerm([AoC((C, A, A)[(i + j) % 3], xs[j], 2 + i, 5) for i, j in enumerate(k)], c)
        form = "".join("c_{@,%}" + ("^{\\dagger}" if o.otype == C else "") for o in t.components)
        pos = [o.coordinate for o in t.components]
        tail = [2 + i for i in range(len(k))]
    if before:
        other = IndexTable([SiteID(xs[0]), SiteID(xs[1])], start=5)
        for f in (lambda: t.tolatex(other), lambda: t.tolatex(ndigits=1), lambda: str(t)):
            ctx.text(f)
    text = ctx.text(lambda: t.tolatex(sites) if use else t.tolatex())
    v = ctx.scan(text, "$%" + form.replace("@", where) + "$")
    ctx.check(v is not None, "coefficient, then the operators in order")
    if v is None:
        return
    ctx.check(ctx.close(v[0], c, 1e-9), "coefficient")
    at = 1
    for i, p in enumerate(pos):
        if use:
            ctx.check(ctx.iff(v[at] == 0, same(ctx, p, xs[1])), "index of the site")
            ctx.check(ctx.iff(v[at] == 1, same(ctx, p, xs[0])), "index of the site")
            at += 1
        else:
            ctx.check(ctx.all([v[at] == p[0], v[at + 1] == p[1]]), "coordinates of the site")
            at += 2
        if tail:
            ctx.check(v[at] == tail[i], "spin")
            at += 1


CASES = []


def case(name, fn, bounds, opts={}, **args):
    CASES.append(dict(name=name, fn=fn, args=args, opts=dict(opts), bounds=bounds))


NUMS = {"int": "whole coordinates up to 30", "real": "real coordinates in [-5,5]", "mixed": "coordinates k/8 and whole ones in [-3,3]"}
for kind in ("site", "state", "aoc", "number", "spin"):
    for d in (1, 2, 3):
        for num in NUMS:
            if (d, num) != (1, "mixed"):
                case("official-%s-%d-%s" % (kind, d, num), "official", "dimension %d, %s, spins and orbits up to 12" % (d, NUMS[num]),
                     kind=kind, d=d, num=num)
for d in (1, 2, 3):
    for num in NUMS:
        case("bond-%d-%s" % (d, num), "bond", "dimension %d, %s" % (d, NUMS[num]), d=d, num=num)
for num in NUMS:
    case("line-" + num, "line", "points at least 0.1 apart, %s" % NUMS[num], num=num)
for w in ("horizontal", "vertical", "inclined"):
    case("formula-" + w, "formula", "first point k/4 in [-3,3]^2, differences up to 3", which=w)
for sizes in ([1], [2], [5]):
    case("simple-%d" % sizes[0], "space", "%d states, any number of particles" % sizes[0], sizes=sizes, kind="simple")
for sizes in ([1], [3], [2, 1], [1, 2, 1]):
    case("space-" + "-".join(map(str, sizes)), "space", "subspaces of %s states, any numbers of particles" % sizes, sizes=sizes, kind="whole")
for kind in ("site", "state", "aoc"):
    for n in (1, 4):
        case("table-%s-%d" % (kind, n), "table", "%d objects, first index 0, 5 or -1" % n, kind=kind, n=n, start=[None, 5, -1])
for w in ("hop", "hopz", "cp", "cpz", "coulomb", "coulombz", "three", "threez", "empty", "emptyz", "spin", "spinz"):
    case("listing-" + w, "listing", "any coefficient in [-3,3], whole coordinates in [-2,2]", which=w)
for d in (1, 2, 3):
    for num in NUMS:
        for mode in ("plain", "index", "table"):
            case("site-latex-%d-%s-%s" % (d, num, mode), "site_latex", "dimension %d, %s" % (d, NUMS[num]), d=d, num=num, mode=mode)
for d in (1, 2, 3):
    case("site-latex-%d-large" % d, "site_latex", "dimension %d, real coordinates in [-900,900]" % d, d=d, num="large", mode="plain")
for kind in ("state", "aoc", "number"):
    case("latex-large-" + kind, "state_latex", "real coordinates in [-900,900], spins 0..3, orbits 0..12",
         kind=kind, half=None, orbit=None, mode="plain", num="large")
for kind in ("site", "state", "aoc", "number", "spin"):
    case("official-%s-2-large" % kind, "official", "real coordinates in [-900,900], spins and orbits up to 12", kind=kind, d=2, num="large")
case("bond-2-large", "bond", "real coordinates in [-900,900]", d=2, num="large")
for kind in ("state", "aoc", "number"):
    for half in (None, True, False):
        for orbit in (None, True, False):
            for mode in ("plain", "index", "table"):
                case("latex-%s-%s-%s-%s" % (kind, half, orbit, mode), "state_latex", "coordinates in the plane, spins 0..3, orbits 0..12",
                     kind=kind, half=half, orbit=orbit, mode=mode)
for w in ("particle", "spin"):
    for ck in ("int", "real", "complex"):
        case("term-latex-%s-%s" % (w, ck), "term_latex", "1-4 operators on two sites, any coefficient in [-3,3]", which=w, ck=ck)
for mode in ("plain", "index", "table"):
    case("site-again-2-real-" + mode, "site_latex", "dimension 2, other forms before", d=2, num="real", mode=mode, before=True)
    for kind in ("state", "aoc", "number"):
        for half, orbit in ((None, None), (False, False), (True, False)):
            case("again-%s-%s-%s-%s" % (kind, half, orbit, mode), "state_latex", "other forms before",
                 kind=kind, half=half, orbit=orbit, mode=mode, before=True)
for w in ("particle", "spin"):
    case("term-again-" + w, "term_latex", "1-4 operators on two sites, other forms before", which=w, ck="real", before=True)
