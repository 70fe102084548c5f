"""P25: a spin interaction's matrix is the product of its operators."""
import numpy as np
import spin as S
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.factory import HeisenbergFactory, IsingFactory, TwoSpinTermFactory
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction, SpinOperator

TOL = 1e-9


def operators(ctx, N, n, otypes):
    s = S.sites(N)
    idx = [ctx.choice("i%d" % k, range(N)) for k in range(n)]
    ots = [ctx.choice("t%d" % k, otypes) for k in range(n)]
    return [SpinOperator(t, s[i].coordinate) for i, t in zip(idx, ots)], list(zip(idx, ots))


def product(ctx, N, n, otypes, how):
    """every entry, operators on equal or different sites in any order"""
    ops, spec = operators(ctx, N, n, otypes)
    c = ctx.complex("coeff", -4, 4)
    r, q = S.index_in(ctx, "r", N), S.index_in(ctx, "c", N)
    t = S.table(N)
    mats = S.per_site(spec)
    if how == "static":
        M = SpinInteraction.matrix_function(spec, N, c)
    elif how == "default":
        c = 1
        M = SpinInteraction.matrix_function(spec, N)
    elif how == "override":
        c0 = ctx.real("coeff0", -4, 4)
        M = SpinInteraction(ops, c0).matrix_repr(t, coeff=c)
    elif how == "mul":
        x = c
        for o in ops:
            x = x * o
        M = x.matrix_repr(t)
    elif how == "real":
        c = ctx.real("rcoeff", -4, 4)
        M = SpinInteraction(ops, c).matrix_repr(t)
    elif how == "int":
        c = ctx.int("icoeff", -4, 4)
        M = SpinInteraction(ops, c).matrix_repr(t)
    else:
        M = SpinInteraction(ops, c).matrix_repr(t)
    ctx.check(M.shape == (1 << N, 1 << N), "shape")
    S.tensor_entry(ctx, mats, r, q, N, M[r, q], c, "matrix", TOL)


def composed(ctx, N, n, otypes):
    """dense: the matrix equals coefficient times the product of the operators' own matrices"""
    ops, spec = operators(ctx, N, n, otypes)
    c, c2 = ctx.complex("coeff", -4, 4), ctx.real("coeff2", -4, 4)
    t = S.table(N)
    P = np.identity(1 << N)
    for o in ops:
        P = np.dot(P, o.matrix_repr(t).toarray())
    term = SpinInteraction(ops, c)
    M = term.matrix_repr(t).toarray()
    ctx.eq(M, c * P, "product of the operators", TOL)
    ctx.eq(term.matrix_repr(t, coeff=c2).toarray(), c2 * P, "overridden coefficient", TOL)
    fresh = SpinInteraction(ops, c)
    half = SpinInteraction(ops[:1], c2)
    ctx.eq((half * fresh).matrix_repr(t).toarray(), np.dot(half.matrix_repr(t).toarray(), M), "product of terms", TOL)


def factories(ctx, N, which):
    """J S_i.S_j, J Sa_i Sa_j, J Sa_i Sb_j, entry by entry"""
    s = S.sites(N)
    i, j = ctx.choice("i", range(N)), ctx.choice("j", range(N))
    J = ctx.real("J", -4, 4)
    r, q = S.index_in(ctx, "r", N), S.index_in(ctx, "c", N)
    t = S.table(N)
    x, y = s[i].coordinate, s[j].coordinate
    if which == "heisenberg":
        terms = HeisenbergFactory(x, y, coeff=J)
        parts = [("x", "x"), ("y", "y"), ("z", "z")]
    elif which == "ising":
        a = ctx.choice("a", "xyz")
        terms, parts = [IsingFactory(x, y, a, coeff=J)], [(a, a)]
    else:
        a, b = ctx.choice("a", "xyz"), ctx.choice("b", "xyz")
        terms, parts = [TwoSpinTermFactory(x, y, a, b, coeff=J)], [(a, b)]
    total = 0
    for u in terms:
        total = total + u.matrix_repr(t)[r, q]
    # the sum over parts of products of 2x2 elements, on the bits of i and j
    mask = (1 << i) | (1 << j)
    rest = ((1 << N) - 1) ^ mask
    same = (r & rest) == (q & rest)
    ctx.check(ctx.implies(ctx.not_(same), ctx.close(total, 0, TOL)), "identity on the other spins")
    sel = sorted({i, j})
    for rb in range(1 << len(sel)):
        for cb in range(1 << len(sel)):
            w, conds = 0, [same]
            for a, b in parts:
                p = 1
                mats = S.per_site([(i, a), (j, b)])
                for k, m in enumerate(sel):
                    p = p * mats[m][rb >> k & 1][cb >> k & 1]
                w = w + p
            for k, m in enumerate(sel):
                conds += [S.bit(r, m) == (rb >> k & 1), S.bit(q, m) == (cb >> k & 1)]
            ctx.check(ctx.implies(ctx.all(conds), ctx.close(total, J * w, TOL)), "matrix element")


def history(ctx, sizes, n, otypes):
    """the same interaction asked for systems of several sizes and through several tables"""
    low = min(sizes)
    base = S.sites(max(sizes))
    idx = [ctx.choice("i%d" % k, range(low)) for k in range(n)]
    ots = [ctx.choice("t%d" % k, otypes) for k in range(n)]
    c = ctx.complex("coeff", -4, 4)
    term = SpinInteraction([SpinOperator(t, base[i].coordinate) for i, t in zip(idx, ots)], c)
    kept = []
    for k, N in enumerate(sizes):
        for turn, back in enumerate((False, True)):
            order = base[:N]
            if back:
                order.reverse()
            where = [N - 1 - i if back else i for i in idx]
            mats = S.per_site(list(zip(where, ots)))
            r, q = S.index_in(ctx, "r%d%d" % (k, turn), N), S.index_in(ctx, "c%d%d" % (k, turn), N)
            M = term.matrix_repr(IndexTable(order))
            ctx.check(M.shape == (1 << N, 1 << N), "shape")
            S.tensor_entry(ctx, mats, r, q, N, M[r, q], c, "matrix", TOL)
            kept.append((mats, r, q, N, M))
    for mats, r, q, N, M in kept:
        S.tensor_entry(ctx, mats, r, q, N, M[r, q], c, "matrix kept", TOL)


def changed(ctx, sizes, n, otypes):
    """matrices which the caller changes in place between one question and the next"""
    low = min(sizes)
    base = S.sites(max(sizes))
    idx = [ctx.choice("i%d" % k, range(low)) for k in range(n)]
    ots = [ctx.choice("t%d" % k, otypes) for k in range(n)]
    static = ctx.choice("static", (False, True))
    c = ctx.real("coeff", -4, 4)
    term = SpinInteraction([SpinOperator(t, base[i].coordinate) for i, t in zip(idx, ots)], c)
    mats = S.per_site(list(zip(idx, ots)))
    for k, N in enumerate(sizes):
        for again in (0, 1):
            r, q = S.index_in(ctx, "r%d%d" % (k, again), N), S.index_in(ctx, "c%d%d" % (k, again), N)
            if static:
                M = SpinInteraction.matrix_function(list(zip(idx, ots)), N, c)
            else:
                M = term.matrix_repr(S.table(N))
            ctx.check(M.shape == (1 << N, 1 << N), "shape")
            S.tensor_entry(ctx, mats, r, q, N, M[r, q], c, "matrix", TOL)
            if again:
                M /= 4
            else:
                M *= 3


ALL, CASES = ("x", "y", "z", "p", "m"), []
BV = dict(budget=60, prefer_bv=True, tbudget=900)


def case(N, n, otypes, how="term", tier=None):
    c = dict(name="product-%d-%d-%s-%s" % (N, n, "".join(otypes), how), fn="product",
             args=dict(N=N, n=n, otypes=otypes, how=how), opts=BV,
             bounds="%d spins; %d operators of types %s on any spins; every entry" % (N, n, otypes))
    if tier:
        c["tier"] = tier
    CASES.append(c)


case(1, 1, ALL)
case(1, 2, ALL)
case(2, 2, ALL)
case(3, 2, ALL)
case(4, 2, ("y", "p"))
case(6, 2, ("y", "m"))
case(8, 2, ("y",))
case(10, 2, ("p",))
case(12, 1, ("y", "p"))
case(12, 2, ("m",), tier="thorough")
case(8, 2, ("x", "y", "p"), tier="thorough")
case(1, 3, ("x", "y", "p"))
case(2, 3, ("x", "y", "p"))
case(3, 3, ("y", "m"))
case(4, 3, ("p",))
case(4, 3, ("p", "y"), tier="thorough")
case(3, 3, ("x", "z", "m"), tier="thorough")
case(2, 4, ("y", "p"))
case(3, 4, ("p", "z"), tier="thorough")
case(5, 3, ("y",))
case(5, 0, ("x",))
for how in ("static", "default", "override", "mul", "real", "int"):
    case(3, 2, ("y", "p"), how)
    case(2, 3, ("z", "p"), how)
for N, n, ot in ((1, 2, ALL), (2, 2, ("x", "y", "m")), (2, 3, ("y", "p")), (3, 2, ("y", "p"))):
    CASES.append(dict(name="composed-%d-%d" % (N, n), fn="composed", args=dict(N=N, n=n, otypes=ot), opts=dict(budget=40),
                      bounds="%d spins, %d operators of types %s, whole matrices" % (N, n, ot)))
for w in ("heisenberg", "ising", "twospin"):
    for N in (2, 3, 5):
        CASES.append(dict(name="factory-%s-%d" % (w, N), fn="factories", args=dict(N=N, which=w), opts=BV,
                          bounds="%d spins, any two (or the same) spins, every entry, real coupling" % N))
    CASES.append(dict(name="factory-%s-8" % w, fn="factories", args=dict(N=8, which=w), opts=BV, tier="thorough",
                      bounds="8 spins, any two (or the same) spins, every entry, real coupling"))
for sizes, n, ots in (((2, 3, 2), 2, ("y", "p")), ((3, 2), 1, ALL), ((2, 4), 2, ("z", "m")), ((3,), 3, ("p",))):
    CASES.append(dict(name="history-%s-%d" % ("-".join(map(str, sizes)), n), fn="history", args=dict(sizes=sizes, n=n, otypes=ots),
                      opts=BV, bounds="one interaction of %d operators, systems of %s spins in two orders each" % (n, sizes)))
for sizes, n, ots in (((2, 3), 2, ("y", "p")), ((3, 2), 1, ALL), ((1, 2), 2, ("z", "x")), ((2,), 3, ("p", "z"))):
    CASES.append(dict(name="changed-%s-%d" % ("-".join(map(str, sizes)), n), fn="changed", args=dict(sizes=sizes, n=n, otypes=ots),
                      opts=BV, bounds="one interaction of %d operators, systems of %s spins, each matrix changed in place "
                      "before the next is asked for" % (n, sizes)))
