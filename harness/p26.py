"""P26: the fermion representation of spins reproduces the spin matrices."""
from itertools import permutations

import fermion as F
import spin as S
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_DOWN, SPIN_UP
from HamiltonianPy.quantumoperator.particlesystem import ParticleTerm
from HamiltonianPy.quantumoperator.quantumstate import StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction, SpinOperator

TOL = 1e-9
SPIN = {0: SPIN_UP, 1: SPIN_DOWN}       # bit value 0 means spin up


def coordinates(N):
    return [[(k * 5) % 7, k] for k in range(N)]


def setting(ctx, N, bits, perms):
    """
    The 2N states of N sites at symbolic indices in any order, and the ascending basis of all occupations
    with one fermion per site; -> (table, basis, the spin configuration of each basis vector, the
    ordering sign of each configuration)
    """
    xs = coordinates(N)
    slots = [(k, b) for k in range(N) for b in (0, 1)]          # (site, spin bit)
    order = ctx.choice("order", perms)
    pos = [ctx.bint("p%d" % k, 0, bits - 1) for k in range(2 * N)]
    for a, b in zip(pos, pos[1:]):
        ctx.assume(a < b)
    rank = {slots[s]: r for r, s in enumerate(order)}
    table = F.Table([StateID(xs[k], SPIN[b]) for k, b in slots], [pos[rank[s]] for s in slots])
    confs = sorted(range(1 << N), key=lambda m: sum(1 << rank[(k, m >> k & 1)] for k in range(N)))
    basis = []
    for m in confs:
        v = 0
        for k in range(N):
            v = v | (1 << pos[rank[(k, m >> k & 1)]])
        basis.append(v)
    # the state c+(site 0) c+(site 1) ...|0> is this sign times the occupation vector
    sign = {}
    for m in confs:
        r = [rank[(k, m >> k & 1)] for k in range(N)]
        sign[m] = (-1) ** sum(1 for i in range(N) for j in range(i) if r[j] > r[i])
    return table, F.arr(basis), confs, sign


def conserving(ctx, t, label):
    ctx.check(isinstance(t, ParticleTerm), label + ": a particle term")
    for o in t.components:
        n = ctx.count([ctx.all([p.coordinate == o.coordinate, p.otype == CREATION]) for p in t.components])
        m = ctx.count([ctx.all([p.coordinate == o.coordinate, p.otype == ANNIHILATION]) for p in t.components])
        ctx.check(n == m, label + ": particle number conserved on every site")
        ctx.check(ctx.any([o.spin == SPIN_UP, o.spin == SPIN_DOWN]), label + ": spin")
        ctx.check(o.orbit == 0, label + ": orbit")


def sum_matrix(ctx, terms, table, basis, n):
    D = [[0] * n for _ in range(n)]
    for t in terms:
        M = t.matrix_repr(table, basis).toarray()
        for r in range(n):
            for c in range(n):
                D[r][c] = D[r][c] + M[r, c]
    return D


def expect(ctx, D, confs, sign, mats, N, coeff, label):
    for a, r in enumerate(confs):
        for b, c in enumerate(confs):
            w = 1
            for k in range(N):
                x, y = r >> k & 1, c >> k & 1
                w = w * (mats[k][x][y] if k in mats else (1 if x == y else 0))
            ctx.check(ctx.close(D[a][b], coeff * w * sign[r] * sign[c], TOL), label)


def operator(ctx, N, bits, perms):
    table, basis, confs, sign = setting(ctx, N, bits, perms)
    i, ot = ctx.choice("i", range(N)), ctx.choice("t", ("x", "y", "z", "p", "m"))
    o = SpinOperator(ot, coordinates(N)[i])
    terms = o.Schwinger()
    for t in terms:
        conserving(ctx, t, "operator")
        for a in t.components:
            ctx.check(a.coordinate == o.coordinate, "on the operator's site")
    expect(ctx, sum_matrix(ctx, terms, table, basis, 1 << N), confs, sign, {i: S.S2[ot]}, N, 1, "operator's matrix")


def interaction(ctx, N, n, bits, perms, otypes):
    table, basis, confs, sign = setting(ctx, N, bits, perms)
    idx = [ctx.choice("i%d" % k, range(N)) for k in range(n)]
    ots = [ctx.choice("t%d" % k, otypes) for k in range(n)]
    c = ctx.complex("coeff", -4, 4)
    xs = coordinates(N)
    inter = SpinInteraction([SpinOperator(t, xs[i]) for i, t in zip(idx, ots)], c)
    before = list(inter.components)
    terms = inter.Schwinger()
    for t in terms:
        conserving(ctx, t, "interaction")
        ctx.check(len(t.components) == 2 * n, "two fermion operators per spin operator")
    expect(ctx, sum_matrix(ctx, terms, table, basis, 1 << N), confs, sign, S.per_site(list(zip(idx, ots))), N, c,
           "interaction's matrix")
    ctx.eq(inter.coeff, c, "coefficient kept")
    ctx.check(ctx.all([a == b for a, b in zip(inter.components, before)]), "operators kept")


def anywhere(ctx, d):
    """the terms of an operator on a symbolic site"""
    x = ctx.grid_vec("x", d, -3, 3, 4)
    ot = ctx.choice("t", ("x", "y", "z", "p", "m"))
    terms = SpinOperator(ot, x).Schwinger()
    total = [[0, 0], [0, 0]]
    for t in terms:
        conserving(ctx, t, "operator")
        ctx.check(len(t.components) == 2, "two operators")
        cr, an = t.components
        ctx.check(cr.otype == CREATION and an.otype == ANNIHILATION, "creation then annihilation")
        for o in (cr, an):
            ctx.check(ctx.all([a == b for a, b in zip(o.coordinate, x)]), "site")
        r, c = (0 if o.spin == SPIN_UP else 1 for o in (cr, an))
        total[r][c] = total[r][c] + t.coeff
    ctx.eq(total, S.S2[ot], "coefficients", TOL)


def again(ctx, n):
    """every call gives terms of its own"""
    xs = [ctx.int_vec("x%d" % k, 1, -2, 2) for k in range(n or 1)]
    ots = [ctx.choice("t%d" % k, ("x", "y", "z", "p", "m")[k:k + 4]) for k in range(n or 1)]
    ops = [SpinOperator(t, x) for t, x in zip(ots, xs)]
    o = SpinInteraction(ops, ctx.complex("c", -4, 4)) if n else ops[0]
    first = o.Schwinger()
    before = [(list(t.components), t.coeff) for t in first]
    for t in first:
        t.coeff = 7
    way = ctx.choice("way", ["clear", "reverse", "none"])
    if way == "clear":
        del first[:]
    elif way == "reverse":
        first.reverse()

    def same(terms, label):
        ctx.check(len(terms) == len(before), label + ": number of terms")
        for t, (components, coeff) in zip(terms, before):
            ctx.check(len(t.components) == len(components), label + ": number of operators")
            ctx.check(ctx.all([a == b for a, b in zip(t.components, components)]), label + ": operators")
            ctx.eq(t.coeff, coeff, label + ": coefficient")
    same(o.Schwinger(), "again")
    if n:
        # a changed coefficient is that of all terms
        o.coeff = 2 * o.coeff
        before = [(comps, 2 * c) for comps, c in before]
        same(o.Schwinger(), "changed coefficient")
        same(SpinInteraction(ops, o.coeff).Schwinger(), "an equal interaction")
    else:
        same(SpinOperator(ots[0], xs[0]).Schwinger(), "an equal operator")


CASES = []
for n in (0, 1, 2):
    CASES.append(dict(name="again-%d" % n, fn="again", args=dict(n=n),
                      bounds="every type, sites in [-2,2]; returned terms and list changed between the calls"))
BV = dict(budget=60, prefer_bv=True, tbudget=900)
P1, P2 = list(permutations(range(2))), list(permutations(range(4)))
SOME2 = [P2[k] for k in (0, 7, 9, 16, 22)]
SOME3 = [(0, 1, 2, 3, 4, 5), (0, 2, 4, 1, 3, 5), (5, 2, 0, 3, 1, 4)]
for d in (1, 2, 3):
    CASES.append(dict(name="anywhere-%d" % d, fn="anywhere", args=dict(d=d), bounds="every type, sites k/4 in [-3,3]^%d" % d))
CASES += [
    dict(name="operator-1", fn="operator", args=dict(N=1, bits=64, perms=P1), opts=BV,
         bounds="one site, any two indices < 64, every type"),
    dict(name="operator-2", fn="operator", args=dict(N=2, bits=6, perms=P2), opts=BV,
         bounds="two sites, any four indices < 6 in any order, every type"),
    dict(name="interaction-1-2", fn="interaction", args=dict(N=1, n=2, bits=16, perms=P1, otypes=("x", "y", "z", "p", "m")),
         opts=BV, bounds="one site, two operators of every type, any indices < 16"),
    dict(name="interaction-2-2", fn="interaction", args=dict(N=2, n=2, bits=6, perms=SOME2, otypes=("y", "p")), opts=BV,
         bounds="two sites, two operators of types y, p on any sites; any four indices < 6 in five orders"),
    dict(name="interaction-2-2-z", fn="interaction", args=dict(N=2, n=2, bits=6, perms=SOME2[:2], otypes=("x", "z", "m")), opts=BV,
         bounds="two sites, two operators of types x, z, m on any sites; any four indices < 6 in two orders"),
    dict(name="interaction-2-3", fn="interaction", args=dict(N=2, n=3, bits=5, perms=SOME2[:2], otypes=("p", "m")), opts=BV,
         bounds="two sites, three operators of types p, m on any sites; any four indices < 5 in two orders"),
    dict(name="interaction-3-2", fn="interaction", args=dict(N=3, n=2, bits=6, perms=SOME3, otypes=("y",)), opts=BV,
         bounds="three sites, two operators of type y; three orders of the six states"),
    dict(name="interaction-2-2-all", fn="interaction", args=dict(N=2, n=2, bits=6, perms=P2, otypes=("x", "y", "z", "p", "m")),
         opts=BV, tier="thorough", bounds="two sites, two operators of every type on any sites; any four indices < 6 in any order"),
    dict(name="interaction-3-3", fn="interaction", args=dict(N=3, n=3, bits=7, perms=SOME3, otypes=("y", "p")),
         opts=BV, tier="thorough", bounds="three sites, three operators of types y, p; any indices < 7 in three orders"),
]
