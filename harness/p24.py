"""P24: a spin operator's matrix acts on exactly its own spin."""
import numpy as np
import spin as S
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.constant import SIGMA_MATRICES, SPIN_MATRICES
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator


def embed(ctx, N, otypes):
    """every entry of the 2^N x 2^N matrix, for every spin"""
    i = ctx.choice("i", range(N))
    ot = ctx.choice("type", otypes)
    r, c = S.index_in(ctx, "r", N), S.index_in(ctx, "c", N)
    site = S.sites(N)[i]
    o = SpinOperator(ot, site.coordinate)
    M = o.matrix_repr(S.table(N))
    ctx.check(M.shape == (1 << N, 1 << N), "shape")
    S.tensor_entry(ctx, {i: S.S2[ot]}, r, c, N, M[r, c], 1, "matrix")
    F = SpinOperator.matrix_function((i, ot), N)
    ctx.check(F.shape == (1 << N, 1 << N), "static shape")
    ctx.check(ctx.close(F[r, c], M[r, c]), "static function agrees")


def algebra(ctx):
    """the 2x2 matrices"""
    site = ctx.grid_vec("x", 2, -3, 3, 4)
    m = {t: SpinOperator(t, site).matrix() for t in "xyzpm"}
    for t in "xyzpm":
        ctx.eq(m[t], S.S2[t], "S" + t)
        ctx.eq(SPIN_MATRICES[t], S.S2[t], "constant S" + t)
        ctx.eq(SIGMA_MATRICES[t], [[2 * x for x in row] for row in S.S2[t]], "constant sigma " + t)

    def comm(a, b):
        return np.dot(a, b) - np.dot(b, a)
    for a, b, c in ("xyz", "yzx", "zxy"):
        ctx.eq(comm(m[a], m[b]), 1j * m[c], "[S%s, S%s] = i S%s" % (a, b, c))
    ctx.eq(m["p"], m["x"] + 1j * m["y"], "S+")
    ctx.eq(m["m"], m["x"] - 1j * m["y"], "S-")
    # bit value 0 is spin up
    ctx.eq(SpinOperator("z", site).matrix()[0, 0], 0.5, "state 0 is up")
    # a combination with symbolic weights is what it should be
    a, b, c = ctx.real_vec("w", 3, -2, 2)
    n = a * m["x"] + b * m["y"] + c * m["z"]
    n2 = np.dot(n, n)
    q = (a * a + b * b + c * c) * 0.25
    ctx.eq(n2, [[q, 0], [0, q]], "(w.S)^2 = |w|^2/4", 1e-12)


def whole(ctx, N):
    """dense matrices: completeness of the algebra in the N-spin space"""
    i, j = ctx.choice("i", range(N)), ctx.choice("j", range(N))
    t = S.table(N)
    s = S.sites(N)

    def mat(k, ot):
        return SpinOperator(ot, s[k].coordinate).matrix_repr(t).toarray()
    for a, b, c in ("xyz", "yzx", "zxy"):
        A, B = mat(i, a), mat(j, b)
        k = np.dot(A, B) - np.dot(B, A)
        ctx.eq(k, 1j * mat(i, c) if i == j else 0 * k, "commutator in the N-spin space")


def history(ctx, sizes):
    """the same operators asked for systems of several sizes, one after the other"""
    ot = ctx.choice("type", ("x", "y", "z", "p", "m"))
    i = ctx.choice("i", range(max(sizes)))
    kept = []
    for k, N in enumerate(sizes):
        r, c = S.index_in(ctx, "r%d" % k, N), S.index_in(ctx, "c%d" % k, N)
        # the spin's position counted from the first and from the last spin
        for j in sorted({i, N - 1 - i}):
            if 0 <= j < N:
                M = SpinOperator(ot, S.sites(N)[j].coordinate).matrix_repr(S.table(N))
                ctx.check(M.shape == (1 << N, 1 << N), "shape")
                S.tensor_entry(ctx, {j: S.S2[ot]}, r, c, N, M[r, c], 1, "matrix")
                kept.append((M, j, r, c, N))
    for M, j, r, c, N in kept:
        S.tensor_entry(ctx, {j: S.S2[ot]}, r, c, N, M[r, c], 1, "matrix kept")


def tables(ctx, N):
    """one operator asked through tables which number the spins differently"""
    ot = ctx.choice("type", ("x", "y", "z", "p", "m"))
    s = S.sites(N)
    o = SpinOperator(ot, s[0].coordinate)
    for k, j in enumerate([0, N - 1, 1, 0]):
        order = s[1:]
        order.insert(j, s[0])
        r, c = S.index_in(ctx, "r%d" % k, N), S.index_in(ctx, "c%d" % k, N)
        M = o.matrix_repr(IndexTable(order))
        S.tensor_entry(ctx, {j: S.S2[ot]}, r, c, N, M[r, c], 1, "matrix")


def changed(ctx, sizes):
    """matrices which the caller changes in place between one question and the next"""
    ot = ctx.choice("type", ("x", "y", "z", "p", "m"))
    i = ctx.choice("i", range(max(sizes)))
    static = ctx.choice("static", (False, True))
    n = 0
    for N in sizes:
        for j in sorted({i, N - 1 - i}):
            if not 0 <= j < N:
                continue
            for again in (False, True):
                n += 1
                r, c = S.index_in(ctx, "r%d" % n, N), S.index_in(ctx, "c%d" % n, N)
                if static:
                    M = SpinOperator.matrix_function((j, ot), N)
                else:
                    M = SpinOperator(ot, S.sites(N)[j].coordinate).matrix_repr(S.table(N))
                ctx.check(M.shape == (1 << N, 1 << N), "shape")
                S.tensor_entry(ctx, {j: S.S2[ot]}, r, c, N, M[r, c], 1, "matrix")
                if again:
                    M /= 4
                else:
                    M *= 3


CASES = [dict(name="algebra", fn="algebra", bounds="any site; real weights in [-2,2]")]
for N in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16):
    CASES.append(dict(name="embed-%d" % N, fn="embed", args=dict(N=N, otypes=("x", "y", "z", "p", "m")),
                      opts=dict(budget=60, prefer_bv=True),
                      bounds="%d spins: every spin, every type, every entry of the matrix" % N))
for N in (15, 18, 20):
    CASES.append(dict(name="embed-%d" % N, fn="embed", args=dict(N=N, otypes=("x", "y", "z", "p", "m")), tier="thorough",
                      opts=dict(budget=60, tbudget=900, prefer_bv=True),
                      bounds="%d spins: every spin, every type, every entry of the matrix" % N))
for N in (1, 2, 3):
    CASES.append(dict(name="whole-%d" % N, fn="whole", args=dict(N=N), bounds="%d spins, all commutators" % N))
for sizes in ((2, 3, 4, 2), (4, 3, 2), (1, 3), (3, 1), (5, 2, 5)):
    CASES.append(dict(name="history-" + "-".join(map(str, sizes)), fn="history", args=dict(sizes=sizes),
                      opts=dict(budget=60, prefer_bv=True), bounds="systems of %s spins one after the other" % (sizes,)))
for sizes in ((1, 2), (3, 2), (2, 3, 4)):
    CASES.append(dict(name="changed-" + "-".join(map(str, sizes)), fn="changed", args=dict(sizes=sizes),
                      opts=dict(budget=60, prefer_bv=True),
                      bounds="systems of %s spins, each matrix changed in place before the next is asked for" % (sizes,)))
for N in (2, 3, 5):
    CASES.append(dict(name="tables-%d" % N, fn="tables", args=dict(N=N), opts=dict(budget=60, prefer_bv=True),
                      bounds="one operator, four tables of %d spins" % N))
