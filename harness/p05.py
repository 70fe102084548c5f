"""P05: products of numbers, operators and terms."""
import numpy as np

from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_OTYPES
from HamiltonianPy.quantumoperator.factory import CPFactory, CoulombFactory, HoppingFactory
from HamiltonianPy.quantumoperator.particlesystem import AoC, NumberOperator, ParticleTerm
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction, SpinOperator

C, A = CREATION, ANNIHILATION
# number types other than Python's own
NUMBERS = [np.complex64(1 + 2j), np.complex128(2 - 1j), np.float32(0.5), np.float64(-2), np.int64(3), np.int8(-1), True]
GROUPS = {2: [(0, 1)], 3: [((0, 1), 2), (0, (1, 2))],
          4: [(((0, 1), 2), 3), ((0, (1, 2)), 3), ((0, 1), (2, 3)), (0, ((1, 2), 3)), (0, (1, (2, 3)))]}


def num(ctx, name, kind):
    if kind == "int":
        return ctx.int(name, -3, 3)
    if kind == "real":
        return ctx.real(name, -3, 3)
    if kind == "numpy":
        return ctx.choice(name, NUMBERS)
    return ctx.complex(name, -3, 3)


def aoc(ctx, name):
    return AoC(ctx.choice(name + "t", [C, A]), ctx.int_vec(name + "x", 2, -2, 2), ctx.int(name + "s", 0, 1),
               ctx.int(name + "o", 0, 1))


def operand(ctx, k, name):
    """-> (object, its components, its coefficient)"""
    if k in ("int", "real", "complex", "numpy"):
        c = num(ctx, name, k)
        return c, [], c
    if k == "aoc":
        a = aoc(ctx, name)
        return a, [a], 1
    if k == "number":
        x, s, o = ctx.int_vec(name + "x", 2, -2, 2), ctx.int(name + "s", 0, 1), ctx.int(name + "o", 0, 1)
        return NumberOperator(x, s, o), [AoC(C, x, s, o), AoC(A, x, s, o)], 1
    c = ctx.complex(name + "c", -3, 3)
    if k == "term":
        ops = [aoc(ctx, name + "a"), aoc(ctx, name + "b")]
        return ParticleTerm(ops, c), ops, c
    if k == "term3":
        ops = [aoc(ctx, name + "a"), aoc(ctx, name + "b"), aoc(ctx, name + "c")]
        return ParticleTerm(ops, c), ops, c
    if k == "empty":
        return ParticleTerm((), c), [], c
    x, y = ctx.int_vec(name + "x", 2, -2, 2), ctx.int_vec(name + "y", 2, -2, 2)
    if k == "hop":
        return HoppingFactory(x, y, coeff=c), [AoC(C, x), AoC(A, y)], c
    if k == "cp":
        return CPFactory(x, spin=1, coeff=c), [AoC(C, x, 1), AoC(A, x, 1)], c
    return CoulombFactory(x, y, spin1=1, coeff=c), [AoC(C, x), AoC(A, x), AoC(C, y, 1), AoC(A, y, 1)], c


def build(tree, objs):
    if isinstance(tree, tuple):
        return build(tree[0], objs) * build(tree[1], objs)
    return objs[tree]


def snapshot(o):
    return (list(o.components), o.coeff) if hasattr(o, "components") else None


def untouched(ctx, objs, snaps):
    for o, s in zip(objs, snaps):
        if s is not None:
            ctx.check(len(o.components) == len(s[0]), "operand length")
            for a, b in zip(o.components, s[0]):
                ctx.check(a == b, "operand's operators unchanged")
            ctx.eq(o.coeff, s[1], "operand's coefficient unchanged")


def particle(ctx, kinds):
    objs, parts, coeff = [], [], 1
    for i, k in enumerate(kinds):
        o, p, c = operand(ctx, k, "q%d" % i)
        objs.append(o)
        parts += p
        coeff = coeff * c
    snaps = [snapshot(o) for o in objs]
    for tree in GROUPS[len(kinds)]:
        t = build(tree, objs)
        ctx.check(isinstance(t, ParticleTerm), "%s: a term" % (tree,))
        ctx.check(len(t.components) == len(parts), "%s: number of operators" % (tree,))
        for a, b in zip(t.components, parts):
            ctx.check(a == b, "%s: operators in order" % (tree,))
        ctx.eq(t.coeff, coeff, "%s: coefficient" % (tree,), 1e-9)
        ctx.check(t.check_compatibility(), "%s: compatible" % (tree,))
        t.coeff = 11  # the product is a term of its own
        untouched(ctx, objs, snaps)
    untouched(ctx, objs, snaps)


def spin_operand(ctx, k, name, otypes):
    if k in ("int", "real", "complex", "numpy"):
        c = num(ctx, name, k)
        return c, [], c

    def one(n):
        return SpinOperator(ctx.choice(n + "t", otypes), [ctx.int(n + "x", -1, 1), 0])
    if k == "op":
        a = one(name)
        return a, [a], 1
    c = ctx.complex(name + "c", -3, 3)
    ops = [one(name + "ab"[i]) for i in range(int(k[-1]))]
    return SpinInteraction(ops, c), ops, c


def spin(ctx, kinds, otypes=("x", "z", "p")):
    objs, parts, coeff = [], [], 1
    for i, k in enumerate(kinds):
        o, p, c = spin_operand(ctx, k, "q%d" % i, otypes)
        objs.append(o)
        parts += p
        coeff = coeff * c
    snaps = [snapshot(o) for o in objs]
    n = len(parts)
    # stable sort by site: the position of operator i
    pos = [ctx.count([p.site_id < parts[i].site_id for p in parts]) +
           ctx.count([p.site_id == parts[i].site_id for p in parts[:i]]) for i in range(n)]
    for tree in GROUPS[len(kinds)]:
        t = build(tree, objs)
        ctx.check(isinstance(t, SpinInteraction), "%s: an interaction" % (tree,))
        ctx.check(len(t.components) == n, "%s: number of operators" % (tree,))
        ctx.eq(t.coeff, coeff, "%s: coefficient" % (tree,), 1e-9)
        for i in range(n):
            for k in range(n):
                ctx.check(ctx.implies(pos[i] == k, t.components[k] == parts[i]),
                          "%s: sorted by site, order on a site kept" % (tree,))
        t.coeff = 11  # the product is an interaction of its own
        untouched(ctx, objs, snaps)
    untouched(ctx, objs, snaps)


def spin_long(ctx, sites):
    """many operators at given distances from one symbolic site (None: anywhere near), in halves"""
    b = ctx.int("b", -20, 20)
    ots = ["x", "y", "z", "p", "m"]
    ops = [SpinOperator(ots[(3 * i) % 5], [b + (ctx.int("x%d" % i, 0, 4) if k is None else k), 0]) for i, k in enumerate(sites)]
    c, d = ctx.complex("c", -3, 3), ctx.complex("d", -3, 3)
    n, half = len(ops), len(ops) // 2
    whole = SpinInteraction(ops, c)
    parts = SpinInteraction(ops[:half], c) * SpinInteraction(ops[half:], d)
    single = d
    for o in ops:
        single = single * o
    pos = [ctx.count([p.site_id < ops[i].site_id for p in ops]) +
           ctx.count([p.site_id == ops[i].site_id for p in ops[:i]]) for i in range(n)]
    for t, coeff in ((whole, c), (parts, c * d), (single, d)):
        ctx.check(len(t.components) == n, "number of operators")
        ctx.eq(t.coeff, coeff, "coefficient", 1e-9)
        for i in range(n):
            for k in range(n):
                ctx.check(ctx.implies(pos[i] == k, t.components[k] == ops[i]), "sorted by site, order on a site kept")


def number_products(ctx, left, right):
    """a number operator stands for creation times annihilation on its state"""
    x, s, o = ctx.int_vec("x", 2, -2, 2), ctx.int("s", 0, 1), ctx.int("o", 0, 1)
    n = NumberOperator(x, s, o)
    cd, a = AoC(C, x, s, o), AoC(A, x, s, o)
    l, _, _ = operand(ctx, left, "l")
    r, _, _ = operand(ctx, right, "r")
    for got, want, label in ((l * n, l * (cd * a), "left"), (n * r, (cd * a) * r, "right"),
                             (l * n * r, l * (cd * a) * r, "both"), (n * n, (cd * a) * (cd * a), "square")):
        ctx.check(len(got.components) == len(want.components), label + ": length")
        for p, q in zip(got.components, want.components):
            ctx.check(p == q, label + ": operators")
        ctx.eq(got.coeff, want.coeff, label + ": coefficient", 1e-9)
    t = n.toterm()
    ctx.check(ctx.all([len(t.components) == 2, t.components[0] == cd, t.components[1] == a]), "toterm operators")
    ctx.eq(t.coeff, 1, "toterm coefficient")


def wrong(ctx):
    a = AoC(C, [0, 0])
    s = SpinOperator("x", [0, 0])
    t, u = ParticleTerm([a], 2.0), SpinInteraction([s], 2.0)
    for x in (a, t, NumberOperator([0, 0])):
        for y in ("x", None, s, u):
            ctx.raises(TypeError, lambda: x * y, label="product with something else")
            ctx.raises(TypeError, lambda: y * x, label="product with something else")


P = [("aoc", "aoc", "aoc"), ("number", "aoc", "complex"), ("complex", "term", "number"), ("real", "aoc", "term"),
     ("hop", "hop", "aoc"), ("cp", "coulomb", "int"), ("aoc", "number", "number"), ("term", "int", "term3"),
     ("number", "int", "number"), ("empty", "aoc", "real"), ("coulomb", "term", "cp"), ("int", "real", "aoc"),
     ("hop", "complex", "number"), ("aoc", "int", "aoc"), ("hop", "number", "coulomb"), ("real", "cp", "aoc"),
     ("aoc", "real"), ("complex", "hop"), ("cp", "cp"), ("coulomb", "complex"), ("aoc", "coulomb"),
     ("int", "aoc", "complex", "number"), ("aoc", "term", "hop", "aoc"), ("term", "real", "number", "aoc"),
     ("number", "aoc", "aoc", "int"), ("aoc", "aoc", "aoc", "aoc"), ("real", "coulomb", "int", "cp")]
S = [("op", "op"), ("complex", "op"), ("op", "int"), ("op", "op", "op"), ("real", "s2", "op"),
     ("op", "s2", "int"), ("op", "int", "op"), ("s1", "op", "s1"), ("int", "op", "op", "s1")]
CASES = [dict(name="particle-" + "-".join(k), fn="particle", args=dict(kinds=k),
              bounds="every operand kind as named, sites in [-2,2]^2, spins and orbits 0..1, coefficients in [-3,3], "
                     "all groupings") for k in P]
CASES += [dict(name="spin-" + "-".join(k), fn="spin", args=dict(kinds=k),
               bounds="operators of types x, z, p on sites -1..1, all groupings") for k in S]
for k in (("numpy", "aoc"), ("aoc", "numpy"), ("numpy", "hop"), ("coulomb", "numpy"), ("numpy", "number"), ("number", "numpy"),
          ("term", "numpy", "cp"), ("numpy", "empty", "real"), ("aoc", "numpy", "aoc")):
    CASES.append(dict(name="particle-" + "-".join(k), fn="particle", args=dict(kinds=k),
                      bounds="numbers of %d other types; other operands arbitrary, all groupings" % len(NUMBERS)))
for k in (("numpy", "op"), ("op", "numpy"), ("s2", "numpy"), ("numpy", "s1"), ("op", "numpy", "op")):
    CASES.append(dict(name="spin-" + "-".join(k), fn="spin", args=dict(kinds=k, otypes=("x", "p")),
                      bounds="numbers of %d other types; operators of types x, p on sites -1..1, all groupings" % len(NUMBERS)))
for k in (("s2", "complex", "s2"), ("op", "real", "s2", "op")):
    CASES.append(dict(name="spin-" + "-".join(k), fn="spin", args=dict(kinds=k, otypes=("p",)), opts=dict(budget=40),
                      bounds="operators of type p on sites -1..1, all groupings"))
    CASES.append(dict(name="spin3-" + "-".join(k), fn="spin", args=dict(kinds=k, otypes=("x", "p")), tier="thorough",
                      opts=dict(budget=600), bounds="operators of types x, p on sites -1..1, all groupings"))
for sites in ([3, 1, 1, 0, 2, 3, 0, 2], [5, 4, 3, 2, 1, 0, 5, 4, 3, 2, 1, 0], [0, 0, None, 0, 0, 1, 0], [2, 0, 2, 0, 2, 0, 2, 0, 2, 1]):
    CASES.append(dict(name="spin-long-" + "".join("x" if k is None else str(k) for k in sites), fn="spin_long", args=dict(sites=sites),
                      opts=dict(budget=40), bounds="operators at %s from one symbolic site (None: 0..4)" % sites))
for l, r in (("aoc", "term"), ("complex", "aoc"), ("hop", "real"), ("coulomb", "int"), ("number", "cp")):
    CASES.append(dict(name="number-%s-%s" % (l, r), fn="number_products", args=dict(left=l, right=r),
                      bounds="any state, any such operands"))
CASES.append(dict(name="wrong", fn="wrong", bounds="fixed wrongly typed operands"))
