"""P30: the model Hamiltonian assembled from a lattice is the one its geometry defines."""
from itertools import combinations

import numpy as np

import fermion as F
import lat as L
from HamiltonianPy.GreenFunction import GFSolverExactSingle
from HamiltonianPy.hilbertspace import base_vectors
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.lattice import Lattice
from HamiltonianPy.quantumoperator import (AoC, CPFactory, CoulombFactory, HeisenbergFactory, HoppingFactory,
                                           HubbardFactory, IsingFactory, PairingFactory, SiteID, SpinInteraction,
                                           StateID)
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_DOWN, SPIN_UP

TOL = 1e-9


# geometry, from the points and the translation vectors alone -----------------------------------------------------
CACHE = {}


def shells(cluster, nth, fold):
    key = (repr(L.floats(cluster.points)), repr(L.floats(cluster.vectors)), nth, fold)
    if key not in CACHE:
        CACHE[key] = count_shells(cluster, nth, fold)
    return CACHE[key]


def count_shells(cluster, nth, fold):
    """a[i][j] = number of translations R with |p_i - p_j - R| equal to the nth distance of the infinite lattice"""
    pts, vec = L.floats(cluster.points), L.floats(cluster.vectors)
    n, m, R = len(pts), len(pts[0]), 6 if len(pts) == 1 else 3
    ts = [[]]
    for _ in vec:
        ts = [t + [k] for t in ts for k in range(-R, R + 1)]
    dist = {}
    for i in range(n):
        for j in range(n):
            for t in ts:
                r = L.combine(t, vec, m)
                d = sum((pts[i][k] - pts[j][k] - r[k]) ** 2 for k in range(m)) ** 0.5
                dist.setdefault(round(d, 3), []).append((i, j, any(t)))
    d = sorted(dist)[nth]
    a = [[0] * n for _ in range(n)]
    for i, j, moved in dist[d]:
        if fold or not moved:
            a[i][j] += 1
    return a


# the second-quantised Hamiltonian on occupation patterns ---------------------------------------------------------
def act(ops, p):
    """ops = [(index, 'c' or 'a')], leftmost first -> (sign, image) or None"""
    sign = 1
    for idx, o in reversed(ops):
        if (p >> idx & 1) == (o == "c"):
            return None
        sign *= (-1) ** bin(p % (1 << idx)).count("1")
        p ^= 1 << idx
    return sign, p


def oracle(terms, basis):
    """{(row, column): value} of the sum of coeff * product"""
    where = {p: k for k, p in enumerate(basis)}
    M = {}
    for ops, c in terms:
        for col, p in enumerate(basis):
            r = act(ops, p)
            if r is not None:
                key = where[r[1]], col
                M[key] = M.get(key, 0) + r[0] * c
    return M


def compare(ctx, H, want, n, label):
    ctx.check(H.shape == (n, n), label + ": shape")
    D = H.toarray()
    for col in range(n):
        ctx.check(ctx.all([ctx.close(D[r, col], want.get((r, col), 0), TOL) for r in range(n)]), label + ": column")
        ctx.check(ctx.all([ctx.close(D[r, col], np.conj(D[col, r]), TOL) for r in range(col + 1)]),
                  label + ": Hermitian")


def sector(groups):
    """ascending occupation patterns with the given number in each group of indices"""
    out = [0]
    for g, k in groups:
        out = [p + sum(1 << i for i in chosen) for p in out for chosen in combinations(list(g), k)]
    return sorted(out)


def cluster_of(which, size):
    return L.make(which, size)


def bonds_of(cluster, nth, fold):
    intra, inter = cluster.bonds(nth, fold=fold)
    return intra + inter if fold else intra


ORDERS = ("site", "spin", "reversed")


def states_of(cluster, spins, order):
    pts = [p for p in cluster.points]
    if order == "site":
        return [(i, s) for i in range(len(pts)) for s in spins]
    if order == "spin":
        return [(i, s) for s in spins for i in range(len(pts))]
    return [(i, s) for i in reversed(range(len(pts))) for s in spins]


def setup(cluster, spins, order):
    labels = states_of(cluster, spins, order)
    table = IndexTable(StateID(site=cluster.points[i], spin=s) for i, s in labels)
    index = {x: k for k, x in enumerate(labels)}
    return table, index


def add(total, term, table, basis, how, onsite=False):
    """the contribution of a term and its Hermitian conjugate (on-site terms are their own)"""
    M = term.matrix_repr(table, basis)
    total = total + M
    if onsite:
        return total
    if how == "getH":
        return total + M.getH()
    return total + term.dagger().matrix_repr(table, basis)


def hopping(ctx, which, size, numbers, nths=(1,), folds=(False, True), orders=ORDERS, spinful=False):
    """tight binding with symbolic hopping and potentials, in a sector of fixed particle number"""
    cluster = cluster_of(which, size)
    nth, fold, order = ctx.choice("nth", nths), ctx.choice("fold", folds), ctx.choice("order", orders)
    n = cluster.point_num
    t = ctx.real("t", -3, 3)
    mu = ctx.real_vec("mu", n, -3, 3)
    table, index = setup(cluster, (0,), order)
    number = ctx.choice("number", numbers)
    basis = base_vectors((list(range(n)), number))
    patterns = sector([(range(n), number)])
    ctx.check(ctx.all([len(basis) == len(patterns)] + [b == p for b, p in zip(basis, patterns)]), "basis")
    how = ctx.choice("how", ["getH", "dagger"])
    H = 0.0
    for b in bonds_of(cluster, nth, fold):
        p0, p1 = b.endpoints
        H = add(H, HoppingFactory(p0, p1, coeff=t), table, basis, how)
    for i in range(n):
        H = add(H, CPFactory(cluster.points[i], coeff=mu[i]), table, basis, how, onsite=True)
    a = shells(cluster, nth, fold)
    terms = [([(index[i, 0], "c"), (index[j, 0], "a")], a[i][j] * t) for i in range(n) for j in range(n) if a[i][j]]
    terms += [([(index[i, 0], "c"), (index[i, 0], "a")], mu[i]) for i in range(n)]
    compare(ctx, H, oracle(terms, patterns), len(patterns), "tight binding")


def hubbard(ctx, which, size, up, down, folds=(False, True), orders=ORDERS):
    """extended Hubbard model in a sector of fixed numbers of both spins"""
    cluster = cluster_of(which, size)
    fold, order = ctx.choice("fold", folds), ctx.choice("order", orders)
    n = cluster.point_num
    t, U, V, mu = (ctx.real(x, -3, 3) for x in ("t", "U", "V", "mu"))
    spins = (SPIN_DOWN, SPIN_UP)
    table, index = setup(cluster, spins, order)
    group = {s: [table(StateID(site=p, spin=s)) for p in cluster.points] for s in spins}
    basis = base_vectors([group[SPIN_UP], up], [group[SPIN_DOWN], down])
    patterns = sector([([index[i, SPIN_UP] for i in range(n)], up), ([index[i, SPIN_DOWN] for i in range(n)], down)])
    ctx.check(ctx.all([len(basis) == len(patterns)] + [b == p for b, p in zip(basis, patterns)]), "basis")
    terms_list = [HubbardFactory(site=p, coeff=U / 2) for p in cluster.points]
    for s in spins:
        terms_list += [CPFactory(p, spin=s, coeff=mu / 2) for p in cluster.points]
    for b in bonds_of(cluster, 1, fold):
        p0, p1 = b.endpoints
        for s in spins:
            terms_list.append(HoppingFactory(p0, p1, spin0=s, coeff=t))
            for q in spins:
                terms_list.append(CoulombFactory(p0, p1, spin0=s, spin1=q, coeff=V / 2))
    H = 0.0
    for x in terms_list:
        H += x.matrix_repr(table, basis)
    H += H.getH()
    a = shells(cluster, 1, fold)
    terms = []
    for i in range(n):
        u, d = index[i, SPIN_UP], index[i, SPIN_DOWN]
        terms.append(([(u, "c"), (u, "a"), (d, "c"), (d, "a")], U))
        terms += [([(k, "c"), (k, "a")], mu) for k in (u, d)]
        for j in range(n):
            for s in spins:
                if a[i][j]:
                    terms.append(([(index[i, s], "c"), (index[j, s], "a")], a[i][j] * t))
                for q in spins:
                    if a[i][j]:
                        x, y = index[i, s], index[j, q]
                        terms.append(([(x, "c"), (x, "a"), (y, "c"), (y, "a")], a[i][j] * V / 2))
    compare(ctx, H, oracle(terms, patterns), len(patterns), "Hubbard")


def pairing(ctx, which, size, fold):
    """superconducting chain: hopping, pairing with a complex amplitude and potential on the complete space"""
    cluster = cluster_of(which, size)
    n = cluster.point_num
    t, mu, D = ctx.real("t", -3, 3), ctx.real("mu", -3, 3), ctx.complex("D", -3, 3)
    order = ctx.choice("order", ("site", "reversed"))
    which = ctx.choice("which", ("h", "p"))
    table, index = setup(cluster, (0,), order)
    basis = base_vectors(n)
    patterns = list(range(2 ** n))
    ctx.check(ctx.all([len(basis) == len(patterns)] + [b == p for b, p in zip(basis, patterns)]), "basis")
    H, terms = 0.0, []
    pts = L.floats(cluster.points)
    o = "a" if which == "h" else "c"
    for b in bonds_of(cluster, 1, fold):
        p0, p1 = b.endpoints
        H = add(H, HoppingFactory(p0, p1, coeff=t), table, basis, "dagger")
        H = add(H, PairingFactory(p0, p1, coeff=D, which=which), table, basis, "dagger")
        # pairing has a direction: it is taken from the bond
        i, j = (index[[k for k in range(n) if max(abs(x - y) for x, y in zip(pts[k], p)) < 1e-6][0], 0]
                for p in (L.floats([p0])[0], L.floats([p1])[0]))
        terms.append(([(i, o), (j, o)], D))
        terms.append(([(j, "a" if o == "c" else "c"), (i, "a" if o == "c" else "c")], np.conj(D)))
    for p in cluster.points:
        H = add(H, CPFactory(p, coeff=mu), table, basis, "dagger", onsite=True)
    a = shells(cluster, 1, fold)
    terms += [([(index[i, 0], "c"), (index[j, 0], "a")], a[i][j] * t) for i in range(n) for j in range(n) if a[i][j]]
    terms += [([(k, "c"), (k, "a")], mu) for k in range(n)]
    compare(ctx, H, oracle(terms, patterns), 2 ** n, "pairing")


def geometry(ctx, n, dim, size, den):
    """the geometry is symbolic: n points anywhere on a grid in a periodic cell, open or folded"""
    xs = [[0.0] * dim]
    for i in range(1, n):
        xs.append(ctx.grid_vec("x%d" % i, dim, 0 if dim == 1 else -1, size if dim == 1 else 1, den))
    if dim == 1 and n == 3:
        ctx.assume(xs[1][0] < xs[2][0])
    fold = ctx.choice("fold", (False, True))
    vec = [[size if i == j else 0.0 for j in range(dim)] for i in range(dim)]
    shifts = [[]]
    for _ in range(dim):
        shifts = [s + [k] for s in shifts for k in (-1, 0, 1)]

    def d2(i, j, s):
        return sum((xs[i][k] - xs[j][k] - size * s[k]) ** 2 for k in range(dim))
    zero = [0] * dim
    all2 = [(i, j, s, d2(i, j, s)) for i in range(n) for j in range(n) for s in shifts if i != j or s != zero]
    for i, j, s, d in all2:
        if i < j:
            ctx.assume(d > 0.01)
    cluster = Lattice(np.array(xs), np.array(vec))
    t = ctx.real("t", -3, 3)
    table = IndexTable(StateID(site=p) for p in cluster.points)
    basis = base_vectors((list(range(n)), 1))
    bonds = bonds_of(cluster, 1, fold)
    H = 0.0
    for b in bonds:
        p0, p1 = b.endpoints
        H = add(H, HoppingFactory(p0, p1, coeff=t), table, basis, "getH")
    least = [ctx.all([d <= e for _, _, _, e in all2]) for _, _, _, d in all2]
    if not bonds:
        ctx.check(ctx.all([ctx.not_(x) for (i, j, s, _), x in zip(all2, least) if fold or s == zero]), "no bond at all")
        return
    D = H.toarray()
    for i in range(n):
        for j in range(n):
            count = sum(ctx.count([x]) for (k, l, s, _), x in zip(all2, least) if (k, l) == (i, j) and (fold or s == zero))
            ctx.check(ctx.close(D[i, j], t * count, TOL), "tight binding on symbolic geometry")


def window(ctx, which, size, number, fold, shift):
    """the table starts at some index, and the states outside of the cluster are occupied or not"""
    cluster = cluster_of(which, size)
    n = cluster.point_num
    t, V = ctx.complex("t", -3, 3), ctx.real("V", -3, 3)
    table = IndexTable([StateID(site=p) for p in cluster.points], start=shift)
    space = F.Lifted(ctx, n, number, shift)
    patterns = space.patterns
    basis = space.vectors(patterns)
    H, terms = 0.0, []
    pts = L.floats(cluster.points)
    for b in bonds_of(cluster, 1, fold):
        p0, p1 = b.endpoints
        H = add(H, HoppingFactory(p0, p1, coeff=t), table, basis, "dagger")
        H = add(H, CoulombFactory(p0, p1, coeff=V), table, basis, "dagger", onsite=True)
        i, j = ([k for k in range(n) if max(abs(x - y) for x, y in zip(pts[k], L.floats([p])[0])) < 1e-6][0]
                for p in (p0, p1))
        terms += [([(i, "c"), (j, "a")], t), ([(j, "c"), (i, "a")], np.conj(t)),
                  ([(i, "c"), (i, "a"), (j, "c"), (j, "a")], V)]
    compare(ctx, H, oracle(terms, patterns), len(patterns), "window")


# spins -----------------------------------------------------------------------------------------------------------
def heisenberg(ctx, which, size, folds=(False, True)):
    cluster = cluster_of(which, size)
    fold = ctx.choice("fold", folds)
    n = cluster.point_num
    J, K = ctx.real("J", -3, 3), ctx.real("K", -3, 3)
    how = ctx.choice("how", ["terms", "functions", "images"])
    order = ctx.choice("order", ("site", "reversed"))
    place = list(range(n)) if order == "site" else list(reversed(range(n)))       # place[k] = point of index k
    index = {k: i for i, k in enumerate(place)}
    table = IndexTable(SiteID(site=cluster.points[k]) for k in place)
    H = 0.0
    if how == "terms":
        for b in bonds_of(cluster, 1, fold):
            p0, p1 = b.endpoints
            for x in HeisenbergFactory(p0, p1, coeff=J):
                H += x.matrix_repr(table)
            H += IsingFactory(p0, p1, "z", coeff=K).matrix_repr(table)
    else:
        intra, inter = cluster.bonds(1, fold=(how == "functions"))
        for b in (intra + inter if fold else intra):
            i, j = (index[cluster.getIndex(p, fold=True)] for p in b.endpoints)
            H += SpinInteraction.matrix_function([(i, "z"), (j, "z")], total_spin=n, coeff=(J + K) / 2)
            H += SpinInteraction.matrix_function([(i, "p"), (j, "m")], total_spin=n, coeff=J / 2)
        H += H.getH()
    a = shells(cluster, 1, fold)
    want = {}

    def put(r, c, v):
        want[r, c] = want.get((r, c), 0) + v
    for i in range(n):
        for j in range(i, n):
            m = a[i][j] if i != j else a[i][i] // 2
            x, y = index[i], index[j]
            for c in range(2 ** n if m else 0):
                sx, sy = (c >> x & 1) * 2 - 1, (c >> y & 1) * 2 - 1
                put(c, c, m * (J + K) * sx * sy / 4)
                if i != j and sx != sy:
                    put(c ^ (1 << x) ^ (1 << y), c, m * J / 2)
    compare(ctx, H, want, 2 ** n, "Heisenberg")
    # conserved: no element between different total spins
    D = H.toarray()
    ctx.check(ctx.all([ctx.close(D[r, c], 0) for r in range(2 ** n) for c in range(2 ** n)
                       if bin(r).count("1") != bin(c).count("1")]), "total spin is conserved")


def free(ctx, n, orbitals, number):
    """free electrons on a ring: the Green function of the many-body problem is the one-particle resolvent"""
    cluster = cluster_of("chain", (n,))
    t = ctx.real("t", -2, 2)
    omega, eta = ctx.real("omega", -4, 4), ctx.real("eta", 0.05, 1)
    table = IndexTable(StateID(site=p) for p in cluster.points)
    a = shells(cluster, 1, True)
    # one particle in an eigenstate of h, not normalised so that its components are exact
    if orbitals is None:            # any eigenstate: the potentials which make it one
        wave = [1] + [ctx.real("w%d" % i, 0.25, 2) for i in range(1, n)]
        energy = ctx.real("energy", -2, 2)
        mu = [energy - sum(a[i][j] * t * wave[j] for j in range(n)) / wave[i] for i in range(n)]
    else:
        wave = ctx.choice("orbital", orbitals)
        mu = [ctx.real("mu", -2, 2)] * n
        energy = mu[0] + sum(a[0][j] * t * wave[j] for j in range(n)) / wave[0]
    norm = sum(x ** 2 for x in wave)
    terms = [CPFactory(p, coeff=m / 2) for p, m in zip(cluster.points, mu)]
    for b in bonds_of(cluster, 1, True):
        p0, p1 = b.endpoints
        terms.append(HoppingFactory(p0, p1, coeff=t))

    def matrix(basis):
        M = 0.0
        for x in terms:
            M += x.matrix_repr(table, basis)
        M += M.getH()
        return M.toarray()
    h = [[a[i][j] * t + (mu[i] if i == j else 0) for j in range(n)] for i in range(n)]
    states = [base_vectors([list(range(n)), m]) for m in range(number - 1, number + 2)]
    GS = np.array([1.0 * x for x in wave])
    Cs = [AoC(CREATION, site=p) for p in cluster.points]
    As = [AoC(ANNIHILATION, site=p) for p in cluster.points]
    up = {C: C.matrix_repr(table, states[1], left_bases=states[2]).dot(GS) for C in Cs}
    down = {A: A.matrix_repr(table, states[1], left_bases=states[0]).dot(GS) for A in As}
    z = omega + 1j * eta
    H0, H2 = matrix(states[0]), matrix(states[2])
    row = ctx.choice("row", range(n))
    G = []
    for j in range(n):
        G.append(GFSolverExactSingle(omega, As[row], Cs[j], energy, H2, up, eta=eta, sign="-")
                 + GFSolverExactSingle(omega, Cs[j], As[row], energy, H0, down, eta=eta, sign="+"))
    for c in range(n):
        got = sum(G[j] * ((z if j == c else 0) - h[j][c]) for j in range(n))
        ctx.check(ctx.close(got, norm if c == row else 0, 1e-7), "Green function times (z - h) is the identity")


CASES = []
for which, size, numbers, nths in (
        ("chain", (4,), (1, 2), (1, 2)), ("chain", (6,), (3,), (1,)), ("chain", (1,), (1,), (1, 2)),
        ("chain", (2,), (1, 2), (1, 2, 3)), ("square", (2, 2), (1, 2), (1, 2)), ("square", (3, 2), (1, 2), (1, 2)),
        ("triangle", (2, 2), (1, 2), (1, 2)), ("triangle", (3, 1), (1,), (1, 2, 3)), ("honeycomb", (2, 1), (1, 2), (1, 2)),
        ("kagome", (1, 1), (1, 2), (1, 2)), ("cubic", (2, 2, 1), (1,), (1, 2)), ("cross", None, (1, 2), (1, 2)),
        ("z", None, (1,), (1, 2)), ("s", None, (1,), (1, 2)), ("star", None, (1,), (1, 2, 3)),
        ("benzene", None, (1, 3), (1, 2)), ("diphenyl", None, (1,), (1, 2)), ("gear", None, (1,), (1, 2)),
        ("ladder", None, (1,), (1,)), ("bcc", None, (1,), (1, 2)), ("ortho2", None, (1,), (1, 2, 3)), ("triclinic", None, (1,), (1, 2)), ("dimer", None, (1,), (1, 2)),
        ("skew1", None, (1,), (1, 2)), ("ichain", None, (1,), (1, 2)), ("isquare", None, (1,), (1, 2)), ("mixed", None, (1,), (1, 2)), ("mixed3", None, (1,), (1,)), ("tenth", None, (1,), (1, 2, 3, 4, 5)), ("tenth4", None, (1, 2), (1, 2, 3, 4)), ("tenths", None, (1,), (1, 2))):
    CASES.append(dict(name="hopping-%s%s" % (which, "" if size is None else "-" + "x".join(map(str, size))), fn="hopping",
                      args=dict(which=which, size=size, numbers=numbers, nths=nths),
                      bounds="every t, mu_i; particles %s, neighbours %s, open and folded, three orders of the indices"
                             % (numbers, nths)))
for which, size, up, down in (("chain", (4,), 2, 2), ("chain", (2,), 1, 1), ("square", (2, 2), 1, 2), ("triangle", (3, 1), 1, 1),
                              ("honeycomb", (1, 1), 1, 1), ("kagome", (1, 1), 1, 2)):
    CASES.append(dict(name="hubbard-%s-%s" % (which, "x".join(map(str, size))), fn="hubbard",
                      args=dict(which=which, size=size, up=up, down=down),
                      bounds="every t, U, V, mu; %d up, %d down, open and folded, three orders of the indices" % (up, down)))
for which, size, fold in (("chain", (3,), False), ("chain", (4,), True), ("square", (2, 2), True), ("triangle", (3, 1), False)):
    CASES.append(dict(name="pairing-%s-%s" % (which, "x".join(map(str, size))), fn="pairing",
                      args=dict(which=which, size=size, fold=fold), bounds="every t, mu, complex pairing amplitude"))
for which, size in (("chain", (4,)), ("chain", (2,)), ("square", (2, 2)), ("triangle", (2, 2)), ("kagome", (1, 1)), ("cross", None)):
    if which == "cross":
        continue
    CASES.append(dict(name="heisenberg-%s-%s" % (which, "x".join(map(str, size))), fn="heisenberg",
                      args=dict(which=which, size=size), bounds="every J and Ising anisotropy, open and folded, three ways"))
for which, size, number, fold, shift in (("chain", (3,), 1, True, 58), ("square", (2, 2), 2, True, 30),
                                         ("kagome", (1, 1), 1, False, 0)):
    CASES.append(dict(name="window-%s-%s" % (which, "x".join(map(str, size))), fn="window", opts=dict(prefer_bv=True, budget=60),
                      args=dict(which=which, size=size, number=number, fold=fold, shift=shift),
                      bounds="64-bit vectors, indices from %d, every background, complex hopping, repulsion" % shift))
CASES += [
    dict(name="geometry-2-1", fn="geometry", args=dict(n=2, dim=1, size=2.0, den=16),
         bounds="2 points on a grid of 1/16 in a cell of length 2"),
    dict(name="geometry-3-1", fn="geometry", args=dict(n=3, dim=1, size=2.0, den=4),
         opts=dict(budget=120), bounds="3 points on a grid of 1/4 in a cell of length 2"),
]
CASES += [
    dict(name="free-2", fn="free", args=dict(n=2, orbitals=((1, 1), (1, -1)), number=1), opts=dict(algebra=True),
         bounds="every t, mu, omega, eta; either orbital"),
    dict(name="free-3", fn="free", args=dict(n=3, orbitals=((1, 1, 1), (1, -1, 0), (-1, -1, 2)), number=1), opts=dict(budget=60, algebra=True),
         bounds="every t, mu, omega, eta; three orbitals"),
    dict(name="free-2-any", fn="free", args=dict(n=2, orbitals=None, number=1), opts=dict(budget=60, algebra=True),
         bounds="every t, omega, eta, every eigenstate with components of one sign and its potentials"),
]
