"""P04: Hermitian conjugation is an exact adjoint."""
import numpy as np
import cells as K
import fermion as F
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_OTYPES
from HamiltonianPy.quantumoperator.factory import (CPFactory, CoulombFactory, HoppingFactory, HubbardFactory,
                                                   PairingFactory)
from HamiltonianPy.quantumoperator.particlesystem import AoC, NumberOperator, ParticleTerm
from HamiltonianPy.quantumoperator.quantumstate import SiteID
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction, SpinOperator

C, A = CREATION, ANNIHILATION
# number types other than Python's own
NUMBERS = [np.complex64(1 + 2j), np.complex128(2 - 1j), np.clongdouble(-1j), np.float32(0.5), np.float64(-2), np.int64(3),
           np.uint8(200), True]
FLIP = {"x": "x", "y": "y", "z": "z", "p": "m", "m": "p"}


def coeff(ctx, kind):
    if kind == "complex":
        return ctx.complex("c", -4, 4)
    if kind == "real":
        return ctx.real("c", -4, 4)
    if kind == "numpy":
        return ctx.choice("c", NUMBERS)
    return ctx.int("c", -4, 4)


def conj(c):
    return c.conjugate()


def aoc(ctx, tag):
    return AoC(ctx.choice(tag + "t", [C, A]), ctx.grid_vec(tag + "x", 2, -2, 2, 4), ctx.int(tag + "s", 0, 2),
               ctx.int(tag + "o", 0, 2))


def operators(ctx):
    a, b = aoc(ctx, "a"), aoc(ctx, "b")
    d = a.dagger()
    ctx.check(d.otype == (A if a.otype == C else C), "type flipped")
    ctx.check(ctx.all([d.state == a.state, d.spin == a.spin, d.orbit == a.orbit]), "state kept")
    ctx.check(ctx.all([u == v for u, v in zip(d.coordinate, a.coordinate)]), "site kept")
    ctx.check(ctx.all([d.dagger() == a, hash(d.dagger()) == hash(a)]), "dagger twice")
    ctx.check(ctx.iff(a.conjugate_of(b), b == d), "conjugate iff equal to the dagger")
    ctx.check(ctx.iff(b.conjugate_of(a), a.conjugate_of(b)), "conjugation is symmetric")
    ctx.check(ctx.not_(a == d), "an operator differs from its dagger")
    n = NumberOperator(ctx.grid_vec("nx", 2, -2, 2, 4), ctx.int("ns", 0, 2), ctx.int("no", 0, 2))
    ctx.check(n.dagger() == n, "number operators are Hermitian")


def digits(ctx, d, spin):
    """sites are identified by their cells, the digits beyond the precision decide nothing"""
    (ca, xa), (cb, xb) = K.point(ctx, "a", d, 9), K.point(ctx, "b", d, 9)
    same = K.same(ctx, ca, cb)
    if spin:
        types = SPIN_OTYPES if d == 1 else ("z", "p", "m")
        ta, tb = ctx.choice("ta", types), ctx.choice("tb", types)
        a, b = SpinOperator(ta, xa), SpinOperator(tb, xb)
        want = ctx.all([same, FLIP[ta] == tb])
        ctx.check(ctx.iff(a.same_site(b), same), "same site")
        ctx.check(ctx.iff(a.dagger().same_site(b), same), "same site of the dagger")
        t = SpinInteraction([a, b], 2.0).dagger().dagger()
        u = SpinInteraction([a, b], 2.0)
    else:
        ta, tb = ctx.choice("ta", [C, A]), ctx.choice("tb", [C, A])
        (sa, oa), (sb, ob) = [(ctx.int(k + "s", 0, 1), ctx.int(k + "o", 0, 1)) for k in "ab"]
        a, b = AoC(ta, xa, sa, oa), AoC(tb, xb, sb, ob)
        state = ctx.all([same, sa == sb, oa == ob])
        want = ctx.all([state, ta != tb])
        ctx.check(ctx.iff(a.same_state(b), state), "same state")
        ctx.check(ctx.iff(a.dagger().same_state(b), state), "same state of the dagger")
        t = ParticleTerm([a, b], 2.0).dagger().dagger()
        u = ParticleTerm([a, b], 2.0)
    ctx.check(ctx.iff(a.dagger() == b, want), "equal to the dagger")
    ctx.check(ctx.iff(a.conjugate_of(b), want), "conjugate")
    ctx.check(ctx.iff(b.conjugate_of(a), want), "conjugate, reversed")
    ctx.check(ctx.implies(want, hash(a.dagger()) == hash(b)), "hash of the dagger")
    ctx.check(ctx.all([p == q for p, q in zip(t.components, u.components)]), "dagger twice")


def spin_operators(ctx):
    a = SpinOperator(ctx.choice("t", SPIN_OTYPES), ctx.grid_vec("x", 2, -2, 2, 4))
    b = SpinOperator(ctx.choice("u", SPIN_OTYPES), ctx.grid_vec("y", 2, -2, 2, 4))
    d = a.dagger()
    ctx.check(d.otype == FLIP[a.otype], "type")
    ctx.check(ctx.all([d.site_id == a.site_id, d.same_site(a)]), "site kept")
    ctx.check(d.dagger() == a, "dagger twice")
    ctx.check(ctx.iff(a.conjugate_of(b), b == d), "conjugate iff equal to the dagger")
    ctx.check(ctx.iff(b.conjugate_of(a), a.conjugate_of(b)), "conjugation is symmetric")
    M, D = a.matrix(), d.matrix()
    for i in range(2):
        for j in range(2):
            ctx.check(ctx.close(D[i, j], np.conj(M[j, i])), "2x2 matrix")


def term_form(ctx, n, ck, spin, sites=None):
    """components reversed and flipped, coefficient conjugated, twice gives the original"""
    c = coeff(ctx, ck)
    if sites is not None:
        # many operators at given distances from one symbolic site (None: anywhere near)
        n, b = len(sites), ctx.int("b", -20, 20)
        xs = [b + (ctx.int("x%d" % i, 0, 3) if k is None else k) for i, k in enumerate(sites)]
        if spin:
            ops = [SpinOperator("pxmzypp"[i % 7], [x, 0]) for i, x in enumerate(xs)]
        else:
            ops = [AoC((C, A, A)[i % 3], [x], i % 2) for i, x in enumerate(xs)]
        t = (SpinInteraction if spin else ParticleTerm)(ops, c)
    elif spin:
        # distinct or equal sites in any order
        ops = [SpinOperator(ctx.choice("t%d" % i, ("x", "p", "m")), [ctx.int("x%d" % i, 0, 2), 0]) for i in range(n)]
        t = SpinInteraction(ops, c)
    else:
        ops = [AoC(ctx.choice("t%d" % i, [C, A]), [ctx.int("x%d" % i, 0, 2)], ctx.int("s%d" % i, 0, 1))
               for i in range(n)]
        t = ParticleTerm(ops, c)
    comps = list(t.components)
    d = t.dagger()
    dc = list(d.components)
    ctx.check(len(dc) == n, "number of operators")
    ctx.eq(d.coeff, conj(c), "coefficient conjugated")
    if not spin:
        for u, v in zip(dc, reversed(comps)):
            ctx.check(u == v.dagger(), "reversed and flipped")
    else:
        # reversed, then kept sorted by site: per site the order is reversed
        for k in range(n):
            for m in range(k):
                ctx.check(dc[m].site_id <= dc[k].site_id, "sorted by site")
        rev = [o.dagger() for o in reversed(comps)]
        for i, o in enumerate(rev):
            # position of o: operators on smaller sites, plus earlier ones on the same site
            pos = ctx.count([p.site_id < o.site_id for p in rev]) + ctx.count(
                [p.site_id == o.site_id for p in rev[:i]])
            for k in range(n):
                ctx.check(ctx.implies(pos == k, dc[k] == o), "reversed per site")
    dd = d.dagger()
    ctx.eq(dd.coeff, c, "coefficient after two daggers")
    ctx.check(len(dd.components) == n, "length after two daggers")
    for u, v in zip(dd.components, comps):
        ctx.check(u == v, "dagger twice")
    for u, v in zip(t.components, comps):
        ctx.check(u == v, "original kept")
    ctx.eq(t.coeff, c, "original coefficient kept")
    d.coeff = dd.coeff = 11
    ctx.eq(t.coeff, c, "the conjugate is a term of its own")


def particle_term(which, c):
    s = [F.state(k) for k in range(3)]
    kw = dict(spin0=s[0].spin, spin1=s[1].spin, orbit0=s[0].orbit, orbit1=s[1].orbit, coeff=c)
    if which == "hop":
        return HoppingFactory(s[0].coordinate, s[1].coordinate, **kw)
    if which == "coulomb":
        return CoulombFactory(s[0].coordinate, s[1].coordinate, **kw)
    if which == "cp":
        return CPFactory(s[0].coordinate, spin=s[0].spin, orbit=s[0].orbit, coeff=c)
    if which == "pair":
        return PairingFactory(s[0].coordinate, s[1].coordinate, which="p", **kw)
    return ParticleTerm([F.op(C if w[0] == "C" else A, int(w[1])) for w in which.split()], c)


def matrix(ctx, which, d, dl, bits):
    """matrix of the dagger = conjugate transpose, for arbitrary bases on which both are defined"""
    c = ctx.complex("c", -4, 4)
    t = particle_term(which, c)
    idx = F.indices(ctx, 3, bits)
    F.distinct(ctx, idx)
    table = F.Table([F.state(k) for k in range(3)], idx)
    right = F.basis(ctx, "r", d, bits)
    ra = F.arr(right)
    if dl:
        la = F.arr(F.basis(ctx, "l", dl, bits))
        a = ctx.outcome(lambda: t.matrix_repr(table, ra, left_bases=la))
        b = ctx.outcome(lambda: t.dagger().matrix_repr(table, la, left_bases=ra))
    else:
        a = ctx.outcome(lambda: t.matrix_repr(table, ra))
        b = ctx.outcome(lambda: t.dagger().matrix_repr(table, ra))
        dl = d
    if a.ok and b.ok:
        M, D = a.value.toarray(), b.value.toarray()
        ctx.check(D.shape == (d, dl), "shape")
        ctx.eq(D, [[conj(M[r, k]) for r in range(dl)] for k in range(d)], "matrix of the dagger", 1e-9)


def spin_matrix(ctx, N, n, otypes):
    c = ctx.complex("c", -4, 4)
    table = IndexTable([SiteID([i, 0]) for i in range(N)])
    ops = [SpinOperator(ctx.choice("t%d" % i, otypes), [ctx.choice("x%d" % i, range(N)), 0]) for i in range(n)]
    t = SpinInteraction(ops, c)
    M, D = t.matrix_repr(table).toarray(), t.dagger().matrix_repr(table).toarray()
    k = 2 ** N
    ctx.check(D.shape == (k, k), "shape")
    ctx.eq(D, [[conj(M[r, s]) for r in range(k)] for s in range(k)], "matrix of the dagger", 1e-9)
    if n == 1:
        a, b = ops[0].matrix_repr(table).toarray(), ops[0].dagger().matrix_repr(table).toarray()
        ctx.eq(b, [[conj(a[r, s]) for r in range(k)] for s in range(k)], "operator matrix of the dagger", 1e-9)


BV = dict(budget=40, prefer_bv=True)
def own(ctx, which):
    """the conjugate of a term which may equal its conjugate is still a term of its own"""
    c = ctx.complex("c", -3, 3) if which[-1] == "z" else ctx.real("c", -3, 3)
    x, y = [ctx.int("x", 0, 1)], [ctx.int("y", 0, 1)]
    t = {"cp": lambda: CPFactory(x, coeff=c), "hop": lambda: HoppingFactory(x, y, coeff=c),
         "coulomb": lambda: CoulombFactory(x, y, coeff=c), "empty": lambda: ParticleTerm((), c),
         "spin": lambda: SpinInteraction([SpinOperator("x", x + [0]), SpinOperator("z", y + [0])], c)}[which.rstrip("z")]()
    d = t.dagger()
    ctx.eq(d.coeff, conj(c), "coefficient conjugated")
    d.coeff = 11
    ctx.eq(t.coeff, c, "the conjugate is a term of its own")
    ctx.eq(t.dagger().coeff, conj(c), "conjugated again")
    t.coeff = 12
    ctx.eq(d.coeff, 11, "and keeps its own coefficient")


CASES = [dict(name="operators", fn="operators", bounds="sites k/4 in [-2,2]^2, spins and orbits 0..2"),
         dict(name="digits-particle", fn="digits", args=dict(d=1, spin=False), bounds="sites up to 10 cells of 0.0001, digits beyond them arbitrary"),
         dict(name="digits-particle-2", fn="digits", args=dict(d=2, spin=False), bounds="sites up to 10 cells of 0.0001, digits beyond them arbitrary"),
         dict(name="digits-spin", fn="digits", args=dict(d=1, spin=True), bounds="sites up to 10 cells of 0.0001, digits beyond them arbitrary"),
         dict(name="digits-spin-2", fn="digits", opts=dict(budget=60), args=dict(d=2, spin=True), bounds="sites up to 10 cells of 0.0001, digits beyond them arbitrary"),
         dict(name="spin-operators", fn="spin_operators", bounds="all types, sites k/4 in [-2,2]^2")]
for n in (1, 2, 3, 4):
    for ck in ("complex", "real", "int"):
        if n < 3 or ck == "complex":
            CASES.append(dict(name="term-%d-%s" % (n, ck), fn="term_form", args=dict(n=n, ck=ck, spin=False),
                              bounds="%d operators, sites 0..2, spins 0..1" % n))
    CASES.append(dict(name="spin-term-%d" % n, fn="term_form", args=dict(n=n, ck="complex", spin=True),
                      opts=dict(budget=30), **({"tier": "thorough"} if n > 3 else {}),
                      bounds="%d spin operators of types x, p, m on sites 0..2" % n))
for n in (0, 1, 2):
    for spin in (False, True):
        CASES.append(dict(name="%sterm-%d-numpy" % ("spin-" if spin else "", n), fn="term_form",
                          args=dict(n=n, ck="numpy", spin=spin), opts=dict(budget=30),
                          bounds="%d operators, a coefficient of %d other number types" % (n, len(NUMBERS))))
for sites in ([3, 1, 1, 0, 2, 3, 0, 2], [5, 4, 3, 2, 1, 0, 5, 4, 3, 2, 1, 0], [0, 0, None, 0, 0, 1, 0]):
    for spin in (False, True):
        CASES.append(dict(name="long-%s%s" % ("spin-" if spin else "", "".join("x" if k is None else str(k) for k in sites)), fn="term_form",
                          args=dict(n=0, ck="complex", spin=spin, sites=sites), opts=dict(budget=40),
                          bounds="operators at %s from one symbolic site (None: 0..3)" % sites))
for w in ("hop", "coulomb", "cp", "pair", "C0", "A1", "A0 C1", "C0 A1 A2", "C0 C1 A2 A0", "A0 A1 C2"):
    CASES.append(dict(name="matrix-" + w.replace(" ", ""), fn="matrix", args=dict(which=w, d=2, dl=2, bits=6), opts=BV,
                      bounds="every three distinct indices < 6; two arbitrary bases of 2 vectors; complex coefficient"))
for w in ("hop", "coulomb", "cp"):
    CASES.append(dict(name="matrix-own-" + w, fn="matrix", args=dict(which=w, d=3, dl=0, bits=6), opts=BV,
                      bounds="every three distinct indices < 6; one basis of 3 vectors; complex coefficient"))
for N, n, ot in ((1, 1, SPIN_OTYPES), (3, 1, SPIN_OTYPES), (2, 2, SPIN_OTYPES), (3, 2, ("y", "p")), (2, 3, ("x", "y", "m"))):
    CASES.append(dict(name="spin-matrix-%d-%d" % (N, n), fn="spin_matrix", args=dict(N=N, n=n, otypes=ot),
                      bounds="%d spins, %d operators of types %s on any sites, complex coefficient" % (N, n, ot)))
for w in ("cp", "cpz", "hop", "hopz", "coulomb", "coulombz", "empty", "emptyz", "spin", "spinz"):
    CASES.append(dict(name="own-" + w, fn="own", args=dict(which=w), bounds="any coefficient in [-3,3], sites 0 and 1"))
