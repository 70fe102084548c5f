"""P03: operator matrices compose and satisfy the fermion algebra."""
import numpy as np
import fermion as F
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION
from HamiltonianPy.quantumoperator.particlesystem import NumberOperator, ParticleTerm
from HamiltonianPy.quantumoperator.factory import CoulombFactory, HoppingFactory

C, A = CREATION, ANNIHILATION


def closed(ctx, bits, n=2):
    """
    A basis closed under the operators of n states at symbolic indices i0 < i1 < ...:
    a symbolic background with these bits in all 2^n configurations, ascending.
    """
    idx = F.indices(ctx, n, bits)
    for a, b in zip(idx, idx[1:]):
        ctx.assume(a < b)
    v = ctx.u64("v", bits)
    for i in idx:
        ctx.assume(ctx.not_(F.bit(v, i)))
    basis = []
    for m in range(2 ** n):
        w = v
        for k in range(n):
            if m >> k & 1:
                w = w ^ (1 << idx[k])
        basis.append(w)
    table = F.Table([F.state(k) for k in range(n)], idx)
    return table, F.arr(basis), 2 ** n


def mat(x, table, basis):
    return x.matrix_repr(table, basis).toarray()


def mul(a, b):
    n = len(a)
    return [[sum(a[i, k] * b[k, j] for k in range(n)) for j in range(n)] for i in range(n)]


def car(ctx, bits):
    table, basis, n = closed(ctx, bits)
    ci, di, cj, dj = F.op(A, 0), F.op(C, 0), F.op(A, 1), F.op(C, 1)
    M = {k: mat(o, table, basis) for k, o in (("ci", ci), ("di", di), ("cj", cj), ("dj", dj))}

    def anti(x, y):
        p, q = mul(M[x], M[y]), mul(M[y], M[x])
        return [[p[r][c] + q[r][c] for c in range(n)] for r in range(n)]

    I = np.identity(n).tolist()
    Z = np.zeros((n, n)).tolist()
    for x, y, want in (("ci", "di", I), ("cj", "dj", I), ("ci", "dj", Z), ("cj", "di", Z), ("ci", "cj", Z),
                       ("di", "dj", Z), ("ci", "ci", Z), ("di", "di", Z), ("cj", "cj", Z), ("dj", "dj", Z)):
        ctx.eq(anti(x, y), want, "anticommutator {%s,%s}" % (x, y))
    ctx.eq(mat(NumberOperator([0, 0], 0, 0), table, basis), mul(M["di"], M["ci"]), "number is c+ c")
    ctx.eq(M["di"], M["ci"].T, "creation is the transpose of annihilation")


def term(ctx, which, c):
    """a term on states 0, 1 (2) with coefficient c"""
    o = {"C0": (C, 0), "A0": (A, 0), "C1": (C, 1), "A1": (A, 1), "C2": (C, 2), "A2": (A, 2)}
    s = [F.state(k) for k in range(2)]
    if which == "hop":
        return HoppingFactory(s[0].coordinate, s[1].coordinate, spin0=s[0].spin, spin1=s[1].spin,
                              orbit0=s[0].orbit, orbit1=s[1].orbit, coeff=c)
    if which == "coulomb":
        return CoulombFactory(s[0].coordinate, s[1].coordinate, spin0=s[0].spin, spin1=s[1].spin,
                              orbit0=s[0].orbit, orbit1=s[1].orbit, coeff=c)
    return ParticleTerm([F.op(*o[k]) for k in which.split()], c)


TERMS = ["C0", "A1", "C0 A1", "A1 C0", "C1 C0", "A0 C0", "C0 A0 C1", "hop", "coulomb"]


def products(ctx, bits, left, n=2, rights=TERMS):
    table, basis, _ = closed(ctx, bits, n)
    c1, c2 = ctx.real("c1", -3, 3), ctx.complex("c2", -3, 3)
    t1 = term(ctx, left, c1)
    t2 = term(ctx, ctx.choice("right", rights), c2)
    M1, M2 = mat(t1, table, basis), mat(t2, table, basis)
    ctx.eq(mat(t1 * t2, table, basis), mul(M1, M2), "matrix of a product of terms", 1e-9)
    ctx.eq(mat(t2 * t1, table, basis), mul(M2, M1), "matrix of a product of terms", 1e-9)


def words(ctx, bits, what):
    """long words of operators on two states: the matrix of the word is the product of the matrices"""
    table, basis, n = closed(ctx, bits)
    o = {"C": F.op(C, 0), "A": F.op(A, 0), "c": F.op(C, 1), "a": F.op(A, 1)}
    M = {k: mat(x, table, basis) for k, x in o.items()}
    w = ctx.choice("word", what)
    z = ctx.real("z", 1, 3)
    P = np.identity(n)
    for k in w:
        P = np.array(mul(P, M[k]))
    t = ParticleTerm([o[k] for k in w], z)
    ctx.eq(mat(t, table, basis), z * P, "word", 1e-9)
    # the same, multiplied up from the right
    u = z
    for k in reversed(w):
        u = o[k] * u
    ctx.eq(mat(u, table, basis), z * P, "multiplied up", 1e-9)
    half = len(w) // 2
    left, right = ParticleTerm([o[k] for k in w[:half]], 2.0), ParticleTerm([o[k] for k in w[half:]], z)
    ctx.eq(mat(left * right, table, basis), 2.0 * z * P, "two halves", 1e-9)


def mixed(ctx, bits, which):
    """products with bare operators, number operators and numbers; scaling"""
    table, basis, n = closed(ctx, bits)
    c, z = ctx.real("c", -3, 3), ctx.complex("z", -3, 3)
    t = term(ctx, which, c)
    M = mat(t, table, basis)
    for k, o in (("C0", F.op(C, 0)), ("A1", F.op(A, 1)), ("N1", NumberOperator([1, 0], 1, 0))):
        O = mat(o, table, basis)
        ctx.eq(mat(t * o, table, basis), mul(M, O), "term * " + k, 1e-9)
        ctx.eq(mat(o * t, table, basis), mul(O, M), k + " * term", 1e-9)
    for s in (z, 2, -0.5):
        W = [[s * M[r, k] for k in range(n)] for r in range(n)]
        ctx.eq(mat(s * t, table, basis), W, "number * term", 1e-9)
        ctx.eq(mat(t * s, table, basis), W, "term * number", 1e-9)
    base = mat(ParticleTerm(t.components, 1.0), table, basis)
    ctx.eq(M, [[c * base[r, k] for k in range(n)] for r in range(n)], "linear in the coefficient", 1e-9)
    u = ParticleTerm(t.components, c, classification=t.classification)
    over = u.matrix_repr(table, basis, coeff=z).toarray()
    ctx.eq(over, [[z * base[r, k] for k in range(n)] for r in range(n)], "coefficient given to matrix_repr", 1e-9)
    u = ParticleTerm(t.components, c, classification=t.classification)
    u.coeff = z
    ctx.eq(mat(u, table, basis), [[z * base[r, k] for k in range(n)] for r in range(n)], "coefficient set", 1e-9)
    a, b = F.op(C, 1), F.op(A, 0)
    Ma, Mb = mat(a, table, basis), mat(b, table, basis)
    ctx.eq(mat(a * b, table, basis), mul(Ma, Mb), "operator * operator")
    ctx.eq(mat(z * a, table, basis), [[z * Ma[r, k] for k in range(n)] for r in range(n)], "number * operator", 1e-9)
    ctx.eq(mat(b * z, table, basis), [[z * Mb[r, k] for k in range(n)] for r in range(n)], "operator * number", 1e-9)


def compose(ctx, d, bits, dl, dm, terms):
    """right -> middle -> left with three arbitrary bases"""
    idx = F.indices(ctx, 2, bits)
    F.distinct(ctx, idx)
    table = F.Table([F.state(0), F.state(1)], idx)
    t1, t2 = term(ctx, terms[0], 2.0), term(ctx, terms[1], -3.0)
    right, mid, left = F.basis(ctx, "r", d, bits), F.basis(ctx, "m", dm, bits), F.basis(ctx, "l", dl, bits)
    ra, ma, la = F.arr(right), F.arr(mid), F.arr(left)
    a = ctx.outcome(lambda: t2.matrix_repr(table, ra, left_bases=ma))
    b = ctx.outcome(lambda: t1.matrix_repr(table, ma, left_bases=la))
    if not (a.ok and b.ok):
        return
    p = ctx.outcome(lambda: (t1 * t2).matrix_repr(table, ra, left_bases=la))
    ctx.check(p.ok, "product defined when the factors are")
    if p.ok:
        A2, B2 = a.value.toarray(), b.value.toarray()
        want = [[sum(B2[r, k] * A2[k, c] for k in range(dm)) for c in range(d)] for r in range(dl)]
        ctx.eq(p.value, want, "composition through an intermediate basis", 1e-9)


BV = dict(budget=40, prefer_bv=True)
CASES = [dict(name="car-10", fn="car", args=dict(bits=10), opts=BV, bounds="every i < j < 10, any 10-bit background"),
         dict(name="car-64", fn="car", args=dict(bits=64), opts=dict(BV, tbudget=1800, timeout_ms=60000),
              tier="thorough", bounds="every i < j < 64, any 64-bit background")]
for w in TERMS:
    CASES.append(dict(name="product-%s" % w.replace(" ", ""), fn="products", args=dict(bits=5, left=w), opts=BV,
                      bounds="every i < j < 5, any 5-bit background; symbolic coefficients"))
    CASES.append(dict(name="mixed-%s" % w.replace(" ", ""), fn="mixed", args=dict(bits=5, which=w), opts=BV,
                      bounds="every i < j < 5, any 5-bit background"))
CASES.append(dict(name="three-states", fn="products", opts=BV,
                  args=dict(bits=4, left="C0 A2", n=3, rights=["C2 A1", "C1 A0 C2"]),
                  bounds="three states, indices < 4, complete 3-state space over any background"))
for name, what in (("powers", ("CA" * 2, "CA" * 3, "AC" * 3, "CAC")),
                   ("odd-powers", ("ACA", "CACAC", "ACACA", "cacac")),
                   ("zero", ("CC", "CACC", "CACACAA", "aCca" + "CC")),
                   ("interlaced", ("CaCaAcAc"[:6], "CcAaCA", "cCAaCcAa", "aCAcaCA", "CAcaCAca", "CcACaA", "AcCaAC"))):
    CASES.append(dict(name="words-" + name, fn="words", args=dict(bits=4, what=what), opts=BV,
                      bounds="the words %s; every i < j < 4, any 4-bit background; symbolic coefficient" % " ".join(what)))
for k, ts in enumerate([("C0 A1", "C1 A0"), ("C0", "A1"), ("hop", "C1 A0"), ("coulomb", "hop")]):
    CASES.append(dict(name="compose-%d" % k, fn="compose", args=dict(d=1, bits=8, dl=2, dm=2, terms=ts), opts=BV,
                      bounds="1, 2 and 2 arbitrary 8-bit basis vectors"))
for w in TERMS:
    CASES.append(dict(name="product-%s-9" % w.replace(" ", ""), fn="products", args=dict(bits=9, left=w),
                      opts=dict(BV, tbudget=1200, timeout_ms=60000), tier="thorough",
                      bounds="every i < j < 9, any 9-bit background; symbolic coefficients"))
