"""P02: hopping, number and Coulomb shortcuts equal the general matrix."""
import numpy as np
import fermion as F
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION
from HamiltonianPy.quantumoperator.factory import (CPFactory, CoulombFactory, HoppingFactory, HubbardFactory,
                                                   PairingFactory)
from HamiltonianPy.quantumoperator.particlesystem import NumberOperator, ParticleTerm
from HamiltonianPy.quantumoperator.quantumstate import StateID


def make(ctx, which, c):
    """(term, states)"""
    p, q = StateID([0, 0], 1, 2), StateID([1, 0], 0, 1)
    kw0 = dict(spin0=1, orbit0=2)
    if which == "cp":
        return CPFactory([0, 0], spin=1, orbit=2, coeff=c), [p]
    if which == "hop":
        return HoppingFactory([0, 0], [1, 0], spin0=1, spin1=0, orbit0=2, orbit1=1, coeff=c), [p, q]
    if which == "hop-same":
        return HoppingFactory([0, 0], [0, 0], spin0=1, orbit0=2, coeff=c), [p]
    if which == "hop-spin":
        return HoppingFactory([0, 0], [0, 0], spin1=0, orbit1=2, coeff=c, **kw0), [p, StateID([0, 0], 0, 2)]
    if which == "hop-orbit":
        return HoppingFactory([0, 0], [0, 0], orbit1=0, coeff=c, **kw0), [p, StateID([0, 0], 1, 0)]
    if which in ("hop-near", "coulomb-near"):         # one state, its coordinates given twice within the precision
        k, m = ctx.choice("near", [(5, 6), (-3, 2), (3277, 3278), (-6554, -6555), (3, 3)])
        x, y = [k / 32768, 0.25], [m / 32768, ctx.choice("y", [0.25, 0.25 + 2.0 ** -14])]
        if which == "hop-near":
            return HoppingFactory(x, y, spin0=1, orbit0=2, coeff=c), [StateID(x, 1, 2)]
        return CoulombFactory(x, y, spin0=1, spin1=1, orbit0=2, orbit1=2, coeff=c), [StateID(x, 1, 2)]
    if which == "coulomb":
        return CoulombFactory([0, 0], [1, 0], spin1=0, orbit1=1, coeff=c, **kw0), [p, q]
    if which == "coulomb-same":
        return CoulombFactory([0, 0], [0, 0], spin1=1, orbit1=2, coeff=c, **kw0), [p]
    if which == "hubbard":
        return HubbardFactory([0, 0], orbit=2, coeff=c), [p, StateID([0, 0], 0, 2)]
    if which == "pair-h":
        return PairingFactory([0, 0], [1, 0], spin1=0, orbit1=1, coeff=c, **kw0), [p, q]
    return PairingFactory([0, 0], [1, 0], spin1=0, orbit1=1, coeff=c, which="p", **kw0), [p, q]


NEAR = ["hop-near", "coulomb-near"]
ALL = ["cp", "hop", "hop-same", "hop-spin", "hop-orbit", "coulomb", "coulomb-same", "hubbard", "pair-h", "pair-p"]


def matrices(ctx, which, d, bits, dl=0, cplx=False, triplet=False):
    c = ctx.complex("c", -4, 4) if cplx else ctx.real("c", 1, 4)
    t, states = make(ctx, which, c)
    idx = F.indices(ctx, len(states), bits)
    F.distinct(ctx, idx)
    table = F.Table(states, idx)
    where = dict(zip(range(len(states)), idx))
    spec = []
    for aoc in t.components:
        k = next(i for i, s in enumerate(states) if s == aoc.state)
        spec.append((where[k], aoc.otype))
    right = F.basis(ctx, "r", d, bits)
    left = F.basis(ctx, "l", dl, bits) if dl else None
    kw = {} if left is None else {"left_bases": F.arr(left)}
    ra = F.arr(right)
    general = ParticleTerm(t.components, c)
    ctx.check(t.check_compatibility(), "classification is compatible")
    ctx.check(general.classification == "general", "default classification")
    if triplet:
        # the triplet form of the shortcut carries the same entries as its matrix
        a = ctx.outcome(lambda: t.matrix_repr(table, ra, to_csr=False, **kw))
        b = ctx.outcome(lambda: general.matrix_repr(table, ra, to_csr=False, **kw))
        ctx.check(a.ok == b.ok, "same outcome")
        if a.ok and b.ok:
            (ea, (ia, ja)), (eb, (ib, jb)) = a.value, b.value
            ctx.eq(ea, eb, "triplet entries")
            ctx.eq(ia, ib, "triplet rows")
            ctx.eq(ja, jb, "triplet columns")
        return
    a = F.check_matrix(ctx, lambda: t.matrix_repr(table, ra, **kw), spec, right,
                       right if left is None else left, bits, c, which)
    b = ctx.outcome(lambda: general.matrix_repr(table, ra, **kw))
    ctx.check(a.ok == b.ok, "same outcome as the general term")
    if a.ok and b.ok:
        ctx.eq(a.value, b.value, "same matrix as the general term")


def shortcut(ctx, which, d, bits, dl=0, cplx=False):
    """the same matrices against the textbook action, for every index up to 63"""
    c = ctx.complex("c", -4, 4) if cplx else ctx.real("c", 1, 4)
    t, states = make(ctx, which, c)
    idx = F.indices(ctx, len(states), bits)
    F.distinct(ctx, idx)
    table = F.Table(states, idx)
    right = F.basis(ctx, "r", d, bits)
    left = F.basis(ctx, "l", dl, bits) if dl else right
    kw = {"left_bases": F.arr(left)} if dl else {}
    ra = F.arr(right)
    kind = t.classification
    img = []
    for v in right:
        if kind == "hopping":
            a, b = idx
            odd = False
            for pos in range(bits):
                x = ctx.all([F.bit(v, pos), ctx.any([ctx.all([a < pos, pos < b]), ctx.all([b < pos, pos < a])])])
                odd = ctx.any([ctx.all([odd, ctx.not_(x)]), ctx.all([ctx.not_(odd), x])])
            img.append((ctx.all([ctx.not_(F.bit(v, a)), F.bit(v, b)]), v ^ (1 << a) ^ (1 << b), odd))
        else:
            img.append((ctx.all([F.bit(v, i) for i in idx]), v, False))
    miss = ctx.any([ctx.all([alive, ctx.not_(ctx.any([w == x for w in left]))]) for alive, x, _ in img])
    o = ctx.outcome(lambda: t.matrix_repr(table, ra, **kw))
    if not o.ok:
        ctx.check(o.raised(KeyError), "only KeyError is raised")
        ctx.check(miss, "KeyError although every image is present")
        return
    ctx.check(ctx.not_(miss), "matrix although an image is missing")
    ctx.check(o.value.shape == (len(left), d), "shape")
    D = o.value.toarray()
    for j, (alive, x, odd) in enumerate(img):
        for r, w in enumerate(left):
            hit = ctx.all([alive, w == x])
            ctx.check(ctx.all([ctx.implies(ctx.not_(hit), ctx.close(D[r, j], 0)),
                               ctx.implies(ctx.all([hit, odd]), ctx.close(D[r, j], -1 * c)),
                               ctx.implies(ctx.all([hit, ctx.not_(odd)]), ctx.close(D[r, j], c))]), "entry")


def history(ctx, which, bits):
    """two terms of one kind side by side, each through two tables"""
    c0, c1 = ctx.real("c0", 1, 4), ctx.real("c1", -4, -1)
    (t0, states), (t1, _) = make(ctx, which, c0), make(ctx, which, c1)
    for k, (t, c) in enumerate(((t0, c0), (t1, c1), (t0, c0), (t1, c1))):
        idx = [ctx.bint("%di%d" % (k // 2, j), 0, bits - 1) for j in range(len(states))] if k % 2 == 0 else idx
        if k % 2 == 0:
            F.distinct(ctx, idx)
            table = F.Table(states, idx)
            right = F.basis(ctx, "%dr" % (k // 2), 2 - k // 2, bits)
            ra = F.arr(right)
            spec = [(idx[next(i for i, s in enumerate(states) if s == a.state)], a.otype) for a in t.components]
        F.check_matrix(ctx, lambda: t.matrix_repr(table, ra), spec, right, right, bits, c, "use %d" % k)


def number(ctx, d, bits):
    """NumberOperator.matrix_repr is the diagonal of occupations"""
    s = StateID([0, 0], 1, 2)
    i, = F.indices(ctx, 1, bits)
    table = F.Table([s], [i])
    right = F.basis(ctx, "r", d, bits)
    n = NumberOperator([0, 0], 1, 2)
    ra = F.arr(right)
    M = n.matrix_repr(table, ra)
    ctx.check(M.shape == (d, d), "shape")
    D = M.toarray()
    for r in range(d):
        for c in range(d):
            if r != c:
                ctx.check(ctx.close(D[r, c], 0), "off-diagonal")
            else:
                o = F.bit(right[c], i)
                ctx.check(ctx.all([ctx.implies(o, ctx.close(D[c, c], 1)),
                                   ctx.implies(ctx.not_(o), ctx.close(D[c, c], 0))]), "occupation")
    entries, (rows, cols) = n.matrix_repr(table, ra, to_csr=False)
    ctx.check(ctx.count([F.bit(v, i) for v in right]) == len(entries), "triplet length")
    for e, r, c in zip(entries, rows, cols):
        ctx.check(ctx.all([ctx.close(e, 1), r == c, c >= 0, c < d]), "triplet")
        ctx.check(ctx.any([ctx.all([c == k, F.bit(right[k], i)]) for k in range(d)]), "triplet column occupied")


def classification(ctx, fine=False):
    """symbolic sites, spins and orbits: the label of a hopping term says whether the states coincide"""
    if fine:        # several coordinates per cell of the precision
        x, y = ([ctx.grid(n, -8 / 32768, 8 / 32768, 32768), 0.25] for n in "xy")
    else:
        x, y = ctx.grid_vec("x", 2, -1, 1, 2), ctx.grid_vec("y", 2, -1, 1, 2)
    s0, s1 = ctx.int("s0", 0, 2), ctx.int("s1", 0, 2)
    o0, o1 = ctx.int("o0", 0, 2), ctx.int("o1", 0, 2)
    if fine:
        same = StateID(x, s0, o0) == StateID(y, s1, o1)
        ctx.check(ctx.implies(same, ctx.all([ctx.close(x[0], y[0], 2e-4), s0 == s1, o0 == o1])), "one cell")
    else:
        same = ctx.all([x[0] == y[0], x[1] == y[1], s0 == s1, o0 == o1])
    c = ctx.real("c", -2, 2)
    h = HoppingFactory(x, y, spin0=s0, spin1=s1, orbit0=o0, orbit1=o1, coeff=c)
    ctx.check(h.check_compatibility(), "hopping compatible")
    ctx.check(ctx.implies(h.classification == "hopping", ctx.not_(same)), "hopping label only for distinct states")
    ctx.check(ctx.implies(h.classification == "number", same), "number label only for equal states")
    u = CoulombFactory(x, y, spin0=s0, spin1=s1, orbit0=o0, orbit1=o1, coeff=c)
    n = CPFactory(x, spin=s0, orbit=o0, coeff=c)
    w = HubbardFactory(x, orbit=o0, coeff=c)
    p = PairingFactory(x, y, spin0=s0, spin1=s1, orbit0=o0, orbit1=o1, coeff=c, which=ctx.choice("w", ["h", "p"]))
    for t, name in ((u, "Coulomb"), (n, "number"), (w, "Hubbard"), (p, "pairing")):
        ctx.check(t.check_compatibility(), name + " compatible")
        ctx.check(t.classification in ("general", "hopping", "number", "Coulomb"), "known classification")
    ts = [h, u, n, w, p, h.components[0], NumberOperator(y, s1, o1)]
    i = ctx.choice("i", range(5))
    for b in ts:
        for r in (ts[i] * b, b * ts[i]):
            ctx.check(isinstance(r, ParticleTerm) and r.classification == "general", "a product is general")
    ctx.check((2 * ts[i]).check_compatibility() and (ts[i] * 2).check_compatibility(), "multiple compatible")
    ctx.check(ts[i].dagger().check_compatibility(), "dagger compatible")


def compatibility(ctx, label):
    """check_compatibility itself: true exactly when the operators have the labelled shape"""
    n = ctx.choice("n", [1, 2, 3, 4])
    ot = [ctx.choice("t%d" % i, [CREATION, ANNIHILATION]) for i in range(n)]
    xs = [ctx.int("x%d" % i, 0, 2) for i in range(n)]
    ops = [F.AoC(t, [x, 0], 0) for t, x in zip(ot, xs)]
    t = ParticleTerm(ops, classification=label)
    C, A = CREATION, ANNIHILATION
    if label == "general":
        want = True
    elif label == "hopping":
        want = n == 2 and ot == [C, A] and (xs[0] != xs[1])
    elif label == "number":
        want = n == 2 and ot == [C, A] and (xs[0] == xs[1])
    else:
        want = n == 4 and ot == [C, A, C, A] and ctx.all([xs[0] == xs[1], xs[2] == xs[3]])
    ctx.check(ctx.iff(t.check_compatibility(), want), "check_compatibility")


def lifted(ctx, which, n, number, shift, places, wide=False, csr=False):
    """many basis vectors on an arbitrary background (fermion.Lifted), shortcut and general term"""
    L = F.Lifted(ctx, n, number, shift)
    c = ctx.real("c", 1, 4)
    t, states = make(ctx, which, c)
    where = ctx.choice("places", places)[:len(states)]
    table = F.Table(states, [shift + k for k in where])
    spec = [(a.otype, where[next(i for i, s in enumerate(states) if s == a.state)]) for a in t.components]
    general = ParticleTerm(t.components, c)
    for u, label in ((t, "shortcut "), (general, "general ")):
        L.check(lambda **kw: u.matrix_repr(table, **kw), [o for o, _ in spec], [k for _, k in spec], c, wide, csr, label)


BV = dict(budget=40, prefer_bv=True)
CASES = []
for w in ALL:
    CASES.append(dict(name="%s-8" % w, fn="matrices", args=dict(which=w, d=2, bits=8), opts=BV,
                      bounds="every index 0..7; 2 ascending 8-bit vectors; real coefficient"))
    CASES.append(dict(name="%s-8-d4" % w, fn="matrices", args=dict(which=w, d=4, bits=8), tier="thorough",
                      opts=dict(BV, tbudget=1200), bounds="every index 0..7; 4 ascending 8-bit vectors"))
    CASES.append(dict(name="%s-8-left" % w, fn="matrices", args=dict(which=w, d=2, bits=8, dl=3, cplx=True), opts=BV,
                      bounds="every index 0..7; 2 right and 3 left 8-bit vectors; complex coefficient"))
    CASES.append(dict(name="%s-8-narrow" % w, fn="matrices", args=dict(which=w, d=3, bits=8, dl=1), opts=BV,
                      bounds="every index 0..7; 3 right and a single left 8-bit vector"))
    CASES.append(dict(name="%s-8-wide" % w, fn="matrices", args=dict(which=w, d=1, bits=8, dl=4), opts=BV,
                      bounds="every index 0..7; a single right and 4 left 8-bit vectors"))
    CASES.append(dict(name="%s-8-triplet" % w, fn="matrices", args=dict(which=w, d=2, bits=8, dl=2, triplet=True),
                      opts=BV, bounds="triplet form; 2 right and 2 left vectors"))
    CASES.append(dict(name="%s-history" % w, fn="history", args=dict(which=w, bits=4), opts=BV,
                      bounds="two such terms, two tables and bases one after the other, 4 bit"))
    for tag, n, num, shift, wide, csr in (("8", 8, None, 20, False, False), ("7-top", 7, 3, 57, False, False),
                                          ("5-wide", 5, 2, 11, True, True)):
        if w[:4] in ("pair", "coul", "hubb"):
            n = min(n, 5 if w == "coulomb-same" else 6)
        CASES.append(dict(name="%s-lifted-%s" % (w, tag), fn="lifted", opts=BV,
                          args=dict(which=w, n=n, number=num, shift=shift, places=[(0, n - 1), (n - 2, 1), (3, 2)], wide=wide, csr=csr),
                          bounds="%s of states %d..%d on an arbitrary 64-bit background%s" % (
                              "every occupation" if num is None else "%d particles" % num, shift, shift + n - 1,
                              ", all left vectors" if wide else "")))
    if w.startswith("pair"):
        continue
    CASES.append(dict(name="%s-64" % w, fn="shortcut", args=dict(which=w, d=2 if w[:3] != "hop" else 1, bits=64),
                      opts=dict(BV, tbudget=900), bounds="every index 0..63; 1-2 64-bit vectors (image may be missing)"))
    left64 = w[:3] == "hop" and w != "hop-same"
    CASES.append(dict(name="%s-64-left" % w, fn="shortcut", args=dict(which=w, d=1, bits=64 if left64 else 12, dl=1),
                      opts=dict(BV, tbudget=900), bounds="one right and one left vector of 64 bits (hopping) or 12 bits"))
    CASES.append(dict(name="%s-64-d2" % w, fn="shortcut", args=dict(which=w, d=2, bits=64, dl=2, cplx=True),
                      tier="thorough", opts=dict(BV, tbudget=1800, timeout_ms=200000),
                      bounds="2 right and 2 left 64-bit vectors, complex coefficient"))
CASES += [
    dict(name="number-64", fn="number", args=dict(d=2, bits=64), opts=BV, bounds="index 0..63; 2 64-bit vectors"),
    dict(name="number-8", fn="number", args=dict(d=5, bits=8), opts=BV, bounds="index 0..7; 5 8-bit vectors"),
    dict(name="classification", fn="classification", bounds="sites k/2 in [-1,1]^2, spins and orbits 0..2"),
    dict(name="classification-fine", fn="classification", args=dict(fine=True),
         bounds="sites 2^-15 apart, several in one cell of the precision; spins and orbits 0..2"),
]
for lab in ("general", "hopping", "number", "Coulomb"):
    CASES.append(dict(name="compatible-" + lab, fn="compatibility", args=dict(label=lab),
                      bounds="1..4 operators of any type on sites 0..2"))

for w in NEAR:
    CASES.append(dict(name="%s-8" % w, fn="matrices", args=dict(which=w, d=2, bits=8), opts=BV,
                      bounds="sites which differ below the precision; every index 0..7; 2 ascending 8-bit vectors"))
    CASES.append(dict(name="%s-8-left" % w, fn="matrices", args=dict(which=w, d=2, bits=8, dl=2, cplx=True), opts=BV,
                      bounds="sites which differ below the precision; 2 right and 2 left 8-bit vectors"))
