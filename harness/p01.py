"""P01: matrices of operator products are the Jordan-Wigner action."""
import numpy as np
import fermion as F
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION
from HamiltonianPy.quantumoperator.particlesystem import ParticleTerm


def setup(ctx, otypes, d, bits, dl, same_states=False):
    n = len(otypes)
    idx = F.indices(ctx, n, bits)
    if same_states:
        # operators may act on the same state: state k carries index idx[k]; pattern chosen below
        pat = ctx.choice("pattern", same_states)
    else:
        pat = list(range(n))
        F.distinct(ctx, idx)
    states = [F.state(k) for k in range(n)]
    table = F.Table(states, idx)
    ops = [F.op(t, k) for t, k in zip(otypes, pat)]
    spec = [(idx[k], t) for t, k in zip(otypes, pat)]
    if same_states:
        F.distinct(ctx, [idx[k] for k in sorted(set(pat))])
    right = F.basis(ctx, "r", d, bits)
    left = F.basis(ctx, "l", dl, bits) if dl else None
    return table, ops, spec, right, left


def product(ctx, otypes, d, bits, dl=0, coeff="one", patterns=False):
    table, ops, spec, right, left = setup(ctx, otypes, d, bits, dl, patterns)
    if coeff == "one":
        c = 1.0
    elif coeff == "real":
        c = ctx.real("c", -4, 4)
    else:
        c = ctx.complex("c", -4, 4)
    t = ParticleTerm(ops, c)
    kw = {} if left is None else {"left_bases": F.arr(left)}
    ra = F.arr(right)
    F.check_matrix(ctx, lambda: t.matrix_repr(table, ra, **kw), spec, right,
                   right if left is None else left, bits, c, "term")


def single(ctx, otype, d, bits, dl=0):
    """AoC.matrix_repr"""
    table, ops, spec, right, left = setup(ctx, [otype], d, bits, dl)
    kw = {} if left is None else {"left_bases": F.arr(left)}
    ra = F.arr(right)
    F.check_matrix(ctx, lambda: ops[0].matrix_repr(table, ra, **kw), spec, right,
                   right if left is None else left, bits, 1, "aoc")


def triplet(ctx, otypes, d, bits, dl=0):
    """to_csr=False lists exactly the non-zeros of the matrix"""
    table, ops, spec, right, left = setup(ctx, otypes, d, bits, dl)
    c = ctx.real("c", 1, 4)
    t = ParticleTerm(ops, c)
    kw = {} if left is None else {"left_bases": F.arr(left)}
    left = right if left is None else left
    ra = F.arr(right)
    o = ctx.outcome(lambda: t.matrix_repr(table, ra, to_csr=False, **kw))
    miss = F.image_missing(ctx, spec, right, left, bits)
    if not o.ok:
        ctx.check(o.raised(KeyError), "only KeyError")
        ctx.check(miss, "KeyError although every image is present")
        return
    ctx.check(ctx.not_(miss), "triplet although an image is missing")
    entries, (rows, cols) = o.value
    k = len(entries)
    ctx.check(len(rows) == k and len(cols) == k, "triplet lengths")
    for j in range(d):
        alive, img, odd = F.apply(ctx, spec, right[j], bits)
        here = [cols[q] == j for q in range(k)]
        ctx.check(ctx.count(here) == ctx.count([alive]), "one entry per surviving column")
        for q in range(k):
            ok = []
            for r in range(len(left)):
                ok.append(ctx.implies(rows[q] == r, left[r] == img))
            ctx.check(ctx.implies(here[q], ctx.all([rows[q] >= 0, rows[q] < len(left)] + ok)), "row")
            ctx.check(ctx.implies(ctx.all([here[q], odd]), ctx.close(entries[q], -1 * c)), "entry odd")
            ctx.check(ctx.implies(ctx.all([here[q], ctx.not_(odd)]), ctx.close(entries[q], c)), "entry even")
    for q in range(k):
        ctx.check(ctx.all([cols[q] >= 0, cols[q] < d]), "column range")


def closed(ctx, otypes, n):
    """the complete space of n states: every image is present"""
    idx = F.indices(ctx, len(otypes), n)
    states = [F.state(k) for k in range(len(otypes))]
    table = F.Table(states, idx)
    ops = [F.op(t, k) for k, t in enumerate(otypes)]
    right = list(range(2 ** n))
    M = ParticleTerm(ops, -1.5).matrix_repr(table, np.arange(2 ** n, dtype=np.uint64))
    F.spec_matrix(ctx, list(zip(idx, otypes)), right, right, n, M, -1.5, "closed space")


def history(ctx, otypes, bits, single=False):
    """one term asked for several bases through several tables, and the matrices kept"""
    n = len(otypes)
    states = [F.state(k) for k in range(n)]
    ops = [F.op(t, k) for k, t in enumerate(otypes)]
    t = ops[0] if single else ParticleTerm(ops, 2.5)
    c = 1 if single else 2.5
    kept = []
    for k, (d, dl) in enumerate(((2, 0), (1, 2), (2, 0))):
        idx = [ctx.bint("%di%d" % (k, j), 0, bits - 1) for j in range(n)]
        F.distinct(ctx, idx)
        table = F.Table(states, idx)
        right = F.basis(ctx, "%dr" % k, d, bits)
        left = F.basis(ctx, "%dl" % k, dl, bits) if dl else right
        kw = {"left_bases": F.arr(left)} if dl else {}
        ra = F.arr(right)
        spec = list(zip(idx, otypes))
        o = F.check_matrix(ctx, lambda: t.matrix_repr(table, ra, **kw), spec, right, left, bits, c, "use %d" % k)
        if o.ok:
            kept.append((spec, right, left, o.value))
    for spec, right, left, M in kept:
        F.spec_matrix(ctx, spec, right, left, bits, M, c, "kept")


def changed(ctx, otypes, n, where):
    """the matrix, and then the array of basis vectors, are changed in place before asking again"""
    places = ctx.choice("places", where)
    states = [F.state(k) for k in range(len(otypes))]
    table = F.Table(states, list(places))
    single = len(otypes) == 1
    ops = [F.op(t, k) for k, t in enumerate(otypes)]
    term, c = (ops[0], 1) if single else (None, ctx.real("c", -4, -1))
    if not single:
        term = ParticleTerm(ops, c)
    right = list(range(2 ** n))
    ra = np.arange(2 ** n, dtype=np.uint64)
    spec = list(zip(places, otypes))
    for k in range(4):
        if k == 2:
            ra += 2 ** n
            right = [2 ** n + x for x in right]
        kw = {"left_bases": ra} if k % 2 else {}
        M = term.matrix_repr(table, ra, **kw)
        F.spec_matrix(ctx, spec, right, right, n + 1, M, c, "use %d" % k)
        M *= 3


def lifted(ctx, otypes, n, number, shift, where, wide=False, csr=False):
    """many basis vectors on an arbitrary background"""
    L = F.Lifted(ctx, n, number, shift)
    places = ctx.choice("places", where)
    states = [F.state(k) for k in range(n)]
    table = F.Table(states, [shift + k for k in range(n)])
    c = ctx.real("c", 1, 4)
    t = ParticleTerm([F.op(o, k) for o, k in zip(otypes, places)], c)
    L.check(lambda **kw: t.matrix_repr(table, **kw), otypes, places, c, wide, csr)


C, A = CREATION, ANNIHILATION
BV = dict(budget=40, prefer_bv=True)
P2 = [(0, 1), (0, 0)]
P3 = [(0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0)]
P4 = [(0, 1, 2, 3), (0, 0, 1, 1), (0, 1, 1, 0), (0, 1, 0, 1), (0, 1, 2, 0), (0, 0, 0, 0)]


def name(ts):
    return "".join("C" if t == C else "A" for t in ts)


CASES = [
    dict(name="aoc-C-64", fn="single", args=dict(otype=C, d=2, bits=64, dl=2), opts=BV,
         bounds="every index 0..63; 2 right and 2 left 64-bit basis vectors"),
    dict(name="aoc-A-64", fn="single", args=dict(otype=A, d=2, bits=64, dl=2), opts=BV,
         bounds="every index 0..63; 2 right and 2 left 64-bit basis vectors"),
    dict(name="aoc-C-8", fn="single", args=dict(otype=C, d=3, bits=8, dl=3), opts=BV,
         bounds="index 0..7; 3 right and 3 left 8-bit basis vectors"),
    dict(name="aoc-A-8-narrow", fn="single", args=dict(otype=A, d=3, bits=8, dl=1), opts=BV,
         bounds="index 0..7; 3 right and a single left 8-bit basis vector"),
    dict(name="aoc-A-8-own", fn="single", args=dict(otype=A, d=4, bits=8), opts=BV,
         bounds="index 0..7; 4 8-bit basis vectors"),
]
for ts in ([C, A], [A, C], [C, C], [A, A]):
    CASES.append(dict(name="pair-%s-8" % name(ts), fn="product", opts=BV,
                      args=dict(otypes=ts, d=3, bits=8, patterns=P2, coeff="real"),
                      bounds="2 operators, equal or distinct states with index 0..7; 3 8-bit basis vectors"))
    CASES.append(dict(name="pair-%s-8-left" % name(ts), fn="product", opts=BV,
                      args=dict(otypes=ts, d=2, bits=8, dl=3, patterns=P2, coeff="complex"),
                      bounds="2 operators, index 0..7; 2 right, 3 left 8-bit vectors; complex coefficient"))
    CASES.append(dict(name="pair-%s-8-narrow" % name(ts), fn="product", opts=BV,
                      args=dict(otypes=ts, d=3, bits=8, dl=1, patterns=P2), bounds="index 0..7; 3 right vectors, a single left one"))
    CASES.append(dict(name="pair-%s-8-wide" % name(ts), fn="product", opts=BV,
                      args=dict(otypes=ts, d=1, bits=8, dl=4, patterns=P2), bounds="index 0..7; a single right vector, 4 left ones"))
    CASES.append(dict(name="trip-%s-8-narrow" % name(ts), fn="triplet", opts=BV,
                      args=dict(otypes=ts, d=3, bits=8, dl=1), bounds="triplet form; 3 right vectors, a single left one"))
    CASES.append(dict(name="trip-%s-8" % name(ts), fn="triplet", opts=BV,
                      args=dict(otypes=ts, d=2, bits=8, dl=2), bounds="triplet form; 2 + 2 8-bit vectors"))
for ts in ([C, A], [A, A]):
    CASES.append(dict(name="history-" + name(ts), fn="history", args=dict(otypes=ts, bits=4), opts=BV,
                      bounds="one term, three tables and bases one after the other, 4 bit"))
CASES.append(dict(name="history-C", fn="history", args=dict(otypes=[C], bits=5, single=True), opts=BV,
                  bounds="one operator, three tables and bases one after the other, 5 bit"))
for ts in ([C, A], [A, C], [C, C], [A, A]):
    CASES.append(dict(name="pair-%s-64" % name(ts), fn="product", opts=dict(BV, budget=60, timeout_ms=55000),
                      args=dict(otypes=ts, d=1, bits=64, dl=2, coeff="real"),
                      bounds="every pair of distinct indices 0..63; 1 right and 2 left 64-bit basis vectors"))
    CASES.append(dict(name="pair-%s-64-d2" % name(ts), fn="product", opts=dict(BV, tbudget=900), tier="thorough",
                      args=dict(otypes=ts, d=2, bits=64, dl=2, coeff="real"),
                      bounds="every pair of distinct indices 0..63; 2 right and 2 left 64-bit basis vectors"))
for ts in ([C, A, C], [A, C, A], [A, A, C]):
    CASES.append(dict(name="cubic-%s-8" % name(ts), fn="product", opts=BV,
                      args=dict(otypes=ts, d=2, bits=8, patterns=P3), bounds="3 operators on 1..3 states; 8 bit"))
for ts in ([C, C, A, A], [C, A, C, A], [A, C, A, C], [A, A, C, C]):
    CASES.append(dict(name="quart-%s-8" % name(ts), fn="product", opts=BV,
                      args=dict(otypes=ts, d=2, bits=8, patterns=P4, coeff="real"),
                      bounds="4 operators on 1..4 states; 2 8-bit basis vectors"))
CASES += [
    dict(name="quart-CCAA-12", fn="product", args=dict(otypes=[C, C, A, A], d=1, bits=12, dl=1),
         opts=dict(BV, budget=60, tbudget=900), bounds="4 operators, indices 0..11; 12-bit vectors"),
    dict(name="quart-CCAA-64", fn="product", args=dict(otypes=[C, C, A, A], d=1, bits=64, dl=1), tier="thorough",
         opts=dict(BV, tbudget=1500, timeout_ms=300000), bounds="4 operators, indices 0..63; 64-bit vectors"),
    dict(name="trip-CACA-8", fn="triplet", args=dict(otypes=[C, A, C, A], d=2, bits=8), opts=BV,
         bounds="triplet form, 4 operators; 8 bit"),
    dict(name="hop-d4", fn="product", args=dict(otypes=[C, A], d=4, bits=5, coeff="real"), opts=BV,
         bounds="4 5-bit basis vectors"),
    dict(name="single-d5", fn="single", args=dict(otype=A, d=5, bits=6), opts=BV, bounds="5 6-bit basis vectors"),
    dict(name="closed-CA-4", fn="closed", args=dict(otypes=[C, A], n=4), opts=BV,
         bounds="the whole 4-state space, every pair of indices"),
    dict(name="closed-ACCA-3", fn="closed", args=dict(otypes=[A, C, C, A], n=3), opts=BV,
         bounds="the whole 3-state space, every four indices"),
    dict(name="closed-ACCA-4", tier="thorough", fn="closed", args=dict(otypes=[A, C, C, A], n=4), opts=BV,
         bounds="the whole 4-state space, every four indices"),
    dict(name="changed-C-3", fn="changed", args=dict(otypes=[C], n=3, where=[(0,), (1,), (2,)]), opts=BV,
         bounds="the whole 3-state space; matrix and basis array changed in place between uses"),
    dict(name="changed-CA-3", fn="changed", args=dict(otypes=[C, A], n=3, where=[(0, 1), (2, 0), (1, 1)]), opts=BV,
         bounds="the whole 3-state space; matrix and basis array changed in place between uses"),
    dict(name="changed-CCAA-3", fn="changed", args=dict(otypes=[C, C, A, A], n=3, where=[(0, 1, 2, 0), (2, 1, 1, 0)]), opts=BV,
         bounds="the whole 3-state space; matrix and basis array changed in place between uses"),
    dict(name="six-CACACA-6", fn="product", args=dict(otypes=[C, A] * 3, d=2, bits=6), opts=dict(BV, budget=60),
         bounds="6 operators on distinct states; 6 bit"),
    dict(name="six-CACACA-6-again", opts=dict(BV, budget=60), bounds="6 operators on one to three states; 6 bit",
         fn="product", args=dict(otypes=[C, A] * 3, d=2, bits=6, patterns=[(0,) * 6, (0, 1, 0, 0, 1, 0), (0, 0, 1, 1, 2, 2)])),
    dict(name="six-ACACCA-6-again", opts=dict(BV, budget=60), bounds="6 operators on one or two states; 6 bit",
         fn="product", args=dict(otypes=[A, C, A, C, C, A], d=1, bits=6, dl=1, patterns=[(0,) * 6, (0, 1, 1, 0, 1, 0)])),
    dict(name="five-CACAC-8-again", opts=dict(BV, budget=60), bounds="5 operators on one or two states; 8 bit",
         fn="product", args=dict(otypes=[C, A, C, A, C], d=2, bits=8, dl=2, patterns=[(0,) * 5, (0, 0, 1, 0, 0)])),
    dict(name="ten-CA-6-again", opts=dict(BV, budget=60), bounds="10 operators on one or two states; 6 bit",
         fn="product", args=dict(otypes=[C, A] * 5, d=2, bits=6, patterns=[(0,) * 10, (0, 0, 1, 1) * 2 + (0, 0)])),
    dict(name="general-64-thorough", fn="product", args=dict(otypes=[C, C, A, A], d=2, bits=64, dl=2, coeff="complex"),
         tier="thorough", opts=dict(BV, tbudget=3000, timeout_ms=120000), bounds="4 operators, 64-bit"),
    dict(name="pair-CA-64-thorough", fn="product", args=dict(otypes=[C, A], d=3, bits=64, dl=3, coeff="complex"),
         tier="thorough", opts=dict(BV, tbudget=3000, timeout_ms=120000), bounds="2 operators, 64-bit, 3+3 vectors"),
    dict(name="hop-d8-thorough", fn="product", args=dict(otypes=[C, A], d=8, bits=10, coeff="real"), tier="thorough",
         opts=dict(BV, tbudget=3000), bounds="8 10-bit basis vectors"),
]
CASES += [
    dict(name="lifted-CA-8", fn="lifted", args=dict(otypes=[C, A], n=8, number=None, shift=20, where=[(7, 0), (1, 4), (2, 3)]),
         opts=BV, bounds="256 basis vectors: every occupation of states 20..27 on an arbitrary 64-bit background"),
    dict(name="lifted-CCAA-8", fn="lifted", args=dict(otypes=[C, C, A, A], n=8, number=3, shift=9, where=[(7, 0, 3, 5), (1, 2, 6, 4)], csr=True),
         opts=BV, bounds="56 basis vectors: three particles on states 9..16 on an arbitrary 64-bit background"),
    dict(name="lifted-CA-56", fn="lifted", args=dict(otypes=[A, C], n=8, number=4, shift=56, where=[(7, 0), (3, 4)]),
         opts=BV, bounds="70 basis vectors: four particles on states 56..63, arbitrary occupation of all lower ones"),
    dict(name="lifted-C-7", fn="lifted", args=dict(otypes=[C], n=7, number=3, shift=3, where=[(6,), (0,), (3,)]),
         opts=BV, bounds="35 right and 35 left basis vectors of different particle number"),
    dict(name="lifted-ACC-6-wide", fn="lifted", args=dict(otypes=[A, C, C], n=6, number=2, shift=10, where=[(5, 2, 0), (2, 2, 3)], wide=True, csr=True),
         opts=BV, bounds="15 right and 64 left basis vectors"),
    dict(name="lifted-CA-8-thorough", fn="lifted", tier="thorough",
         args=dict(otypes=[C, A], n=8, number=None, shift=28, where=[(i, j) for i in range(8) for j in range(8)]),
         opts=dict(BV, tbudget=1500), bounds="256 basis vectors, every pair of 8 states"),
]
