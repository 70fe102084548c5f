"""P27: quantum averages and total-spin quantities."""
import numpy as np
import spin as S
from HamiltonianPy.averages import QuantumAverages, TotalSpinAverages, TotalSpinMatrices
from HamiltonianPy.tools.TotalSpin import TotalSpin
from scipy.sparse import csr_matrix

TOL = 1e-9


def conj(x):
    return x.conjugate()


def vector(ctx, name, n, kind):
    """a non-zero vector"""
    if kind == "complex":
        v = [ctx.complex("%s%d" % (name, i), -3, 3) for i in range(n)]
        sq = sum(x.real * x.real + x.imag * x.imag for x in v)
    elif kind == "int":
        v = [ctx.int("%s%d" % (name, i), -3, 3) for i in range(n)]
        sq = sum(x * x for x in v)
    elif kind == "few":
        # two arbitrary components (the last and another one), the others given
        v = [float((5 * i + 2) % 7 - 3) / 4 for i in range(n)]
        v = [x if i % 3 else x * 1j for i, x in enumerate(v)]
        for i in (n - 1, n // 3):
            v[i] = ctx.complex("%s%d" % (name, i), -3, 3)
        sq = sum(abs(x) ** 2 if isinstance(x, (float, complex)) else x.real * x.real + x.imag * x.imag for x in v)
    else:
        v = ctx.real_vec(name, n, -3, 3)
        sq = sum(x * x for x in v)
    ctx.assume(sq >= 0.01)
    return v, sq


def ket_of(v, shape):
    k = np.array(v)
    return k.reshape((len(v), 1)) if shape == "column" else k


def scalar(x):
    return x[0] if hasattr(x, "shape") and x.shape == (1,) else x


def average(ctx, n, kind, mk, shape, sparse):
    """<k|O|k>/<k|k> for any non-zero state and any operator"""
    v, sq = vector(ctx, "k", n, kind)
    if mk == "complex":
        m = [[ctx.complex("m%d%d" % (i, j), -3, 3) for j in range(n)] for i in range(n)]
    elif mk == "hermitian":
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            m[i][i] = ctx.real("m%d%d" % (i, i), -3, 3)
            for j in range(i):
                m[i][j] = ctx.complex("m%d%d" % (i, j), -3, 3)
                m[j][i] = conj(m[i][j])
    elif mk == "few":
        m = [[float((3 * i + 5 * j) % 11 - 5) for j in range(n)] for i in range(n)]
        m[n - 1][1], m[n // 2][n - 1] = ctx.complex("m0", -3, 3), ctx.complex("m1", -3, 3)
    else:
        m = [[ctx.real("m%d%d" % (i, j), -3, 3) for j in range(n)] for i in range(n)]
    O = np.array(m)
    if sparse:
        O = csr_matrix(O)
    ket = ket_of(v, shape)
    got = QuantumAverages(ket, O)
    want = 0
    for i in range(n):
        for j in range(n):
            want = want + conj(v[i]) * m[i][j] * v[j]
    ctx.check(ctx.close(got * sq, want, TOL), "average")
    if mk == "hermitian":
        ctx.check(ctx.close(got.imag, 0, TOL), "real for Hermitian operators")
    ctx.eq(ket_of(v, shape), ket, "state unchanged")
    # independent of norm and phase
    z = ctx.complex("z", -2, 2)
    ctx.assume(z.real * z.real + z.imag * z.imag >= 0.01)
    again = QuantumAverages(ket * z, O)
    ctx.check(ctx.close(again * sq, want, TOL), "independent of norm and phase")



def matrices(ctx, N):
    """every entry of the three total-spin matrices, of both implementations"""
    r, q = S.index_in(ctx, "r", N), S.index_in(ctx, "c", N)
    for f in (TotalSpinMatrices, TotalSpin):
        ms = f(N)
        ctx.check(len(ms) == 3, "three matrices")
        for M, kind, unit in zip(ms, "xyz", (1, 1j, 1)):
            ctx.check(M.shape == (1 << N, 1 << N), "shape")
            got = M[r, q] * unit
            hit = []
            for i in range(N):
                if kind == "z":
                    continue
                one = (r ^ q) == (1 << i)
                hit.append(one)
                for b in (0, 1):
                    ctx.check(ctx.implies(ctx.all([one, S.bit(r, i) == b]), ctx.close(got, S.S2[kind][b][1 - b], TOL)),
                              "S" + kind + ": one flipped spin")
            if kind == "z":
                up = ctx.count([S.bit(r, i) == 0 for i in range(N)])
                ctx.check(ctx.implies(r == q, ctx.close(got * 2, 2 * up - N, TOL)), "Sz: diagonal")
                ctx.check(ctx.implies(r != q, ctx.close(got, 0)), "Sz: off the diagonal")
            else:
                ctx.check(ctx.implies(ctx.not_(ctx.any(hit)), ctx.close(got, 0)), "S" + kind + ": elsewhere")


def total(ctx, N, kind, shape):
    """total-spin averages = averages of the total-spin matrices and of S^2"""
    n = 1 << N
    v, sq = vector(ctx, "k", n, kind)
    calc = TotalSpinAverages(N)
    ket = ket_of(v, shape)
    s2, sx, sy, sz = calc(ket)
    ctx.eq(ket_of(v, shape), ket, "state unchanged")
    acts, squares = {}, 0
    for name in "xyz":
        w = [0] * n
        for c in range(n):
            for i in range(N):
                for b in (0, 1):
                    m = S.S2[name][b][c >> i & 1]
                    if m != 0:
                        r = (c & ~(1 << i)) | (b << i)
                        w[r] = w[r] + m * v[c]
        acts[name] = w
        squares = squares + sum(conj(x) * x for x in w)
    for name, got in (("x", sx), ("y", sy), ("z", sz)):
        want = sum(conj(a) * b for a, b in zip(v, acts[name]))
        ctx.check(ctx.close(got * sq, want, TOL), "total S" + name)
    ctx.check(ctx.close(s2 * sq, squares, TOL), "total S^2")
    again = calc(ket)
    for a, b in zip(again, (s2, sx, sy, sz)):
        ctx.check(ctx.close(a, b, TOL), "same answer again")


def history(ctx, sizes):
    """several calculators side by side"""
    calcs = [TotalSpinAverages(N) for N in sizes]
    for n, k in enumerate(list(range(len(sizes))) + [0]):
        N = sizes[k]
        for name, f in (("a", TotalSpinMatrices), ("b", TotalSpin)):
            r, q = S.index_in(ctx, "r%s%d" % (name, n), N), S.index_in(ctx, "c%s%d" % (name, n), N)
            M = f(N)[2]
            ctx.check(M.shape == (1 << N, 1 << N), "shape")
            up = ctx.count([S.bit(r, i) == 0 for i in range(N)])
            ctx.check(ctx.implies(r == q, ctx.close(M[r, q] * 2, 2 * up - N, TOL)), "Sz: diagonal")
        v, sq = vector(ctx, "k%d" % n, 1 << N, "real")
        s2, sx, sy, sz = calcs[k](np.array(v))
        want = sum((N - 2 * bin(i).count("1")) * 0.5 * x * x for i, x in enumerate(v))
        ctx.check(ctx.close(sz * sq, want, TOL), "total Sz")


def changed(ctx, sizes):
    """total-spin matrices which the caller changes in place between one question and the next"""
    n = 0
    for N in sizes:
        for again in (False, True):
            for f in (TotalSpinMatrices, TotalSpin):
                n += 1
                r, q = S.index_in(ctx, "r%d" % n, N), S.index_in(ctx, "c%d" % n, N)
                mx, my, mz = f(N)
                up = ctx.count([S.bit(r, i) == 0 for i in range(N)])
                flip = ctx.count([S.bit(r, i) != S.bit(q, i) for i in range(N)])
                ctx.check(ctx.implies(r == q, ctx.close(mz[r, q] * 2, 2 * up - N, TOL)), "Sz: diagonal")
                ctx.check(ctx.implies(flip == 1, ctx.close(mx[r, q] * 2, 1, TOL)), "Sx: one flipped spin")
                ctx.check(ctx.implies(flip == 1, ctx.close(abs(my[r, q]) * 2, 1, TOL)), "Sy: one flipped spin")
                for M in (mx, my, mz):
                    if again:
                        M /= 4
                    else:
                        M *= 3


def reused(ctx, N):
    """one state array which is changed in place between the questions"""
    n = 1 << N
    calc = TotalSpinAverages(N)
    O = csr_matrix(np.diag([float(i * i % 5 - 1) for i in range(n)]))
    ket = np.array(ctx.real_vec("k", n, -3, 3))
    ctx.assume(sum(x * x for x in ket) >= 0.01)
    for turn in range(3):
        v = list(ket)
        sq = sum(x * x for x in v)
        s2, sx, sy, sz = calc(ket)
        want = sum((N - 2 * bin(i).count("1")) * 0.5 * x * x for i, x in enumerate(v))
        ctx.check(ctx.close(sz * sq, want, TOL), "total Sz")
        got = QuantumAverages(ket, O)
        ctx.check(ctx.close(got * sq, sum((i * i % 5 - 1) * x * x for i, x in enumerate(v)), TOL), "average")
        ket *= -2
        if turn == 0:
            ket[0], ket[n - 1] = v[n - 1], v[0]
            ket[0] += 4         # keeps the state away from zero
            ctx.assume(sum(x * x for x in ket) >= 0.01)


def wrong(ctx):
    n = ctx.int("n", -2, 0)
    ctx.raises(AssertionError, lambda: TotalSpinMatrices(n), label="spin number")
    ctx.raises(AssertionError, lambda: TotalSpinAverages(n), label="spin number")
    ctx.raises(AssertionError, lambda: TotalSpinMatrices(2.0), label="spin number")


CASES = []
for n, kind, mk, shape, sparse in (
        (2, "complex", "complex", "flat", False), (2, "complex", "hermitian", "column", True),
        (3, "complex", "hermitian", "flat", False), (3, "real", "complex", "flat", True), (2, "int", "real", "flat", False),
        (3, "complex", "complex", "column", False), (4, "real", "real", "flat", True), (1, "complex", "complex", "flat", False),
        (4, "complex", "hermitian", "flat", True), (20, "few", "few", "flat", True), (33, "few", "few", "column", False)):
    CASES.append(dict(name="average-%d-%s-%s-%s-%s" % (n, kind, mk, shape, "sparse" if sparse else "dense"), fn="average",
                      args=dict(n=n, kind=kind, mk=mk, shape=shape, sparse=sparse), opts=dict(budget=40),
                      bounds="%d-dimensional %s states, %s operators, entries in [-3,3]" % (n, kind, mk)))
for N in (1, 2, 3, 4, 6, 8, 10):
    CASES.append(dict(name="matrices-%d" % N, fn="matrices", args=dict(N=N), opts=dict(budget=60, prefer_bv=True),
                      bounds="%d spins, every entry" % N))
CASES.append(dict(name="matrices-12", fn="matrices", args=dict(N=12), opts=dict(budget=60, tbudget=900, prefer_bv=True),
                  tier="thorough", bounds="12 spins, every entry"))
for N, kind, shape in ((1, "complex", "flat"), (1, "real", "column"), (2, "complex", "flat"), (2, "int", "flat"),
                       (2, "complex", "column"), (3, "real", "flat")):
    CASES.append(dict(name="total-%d-%s-%s" % (N, kind, shape), fn="total", args=dict(N=N, kind=kind, shape=shape),
                      opts=dict(budget=40), bounds="%d spins, every non-zero %s state with entries in [-3,3]" % (N, kind)))
for N, shape in ((4, "flat"), (5, "column"), (6, "flat")):
    CASES.append(dict(name="total-%d-few-%s" % (N, shape), fn="total", args=dict(N=N, kind="few", shape=shape),
                      opts=dict(budget=60), bounds="%d spins, two arbitrary components, the others given" % N))
CASES.append(dict(name="total-3-complex-flat", fn="total", args=dict(N=3, kind="complex", shape="flat"), tier="thorough",
                  opts=dict(budget=60, tbudget=900), bounds="3 spins, every non-zero complex state"))
for N in (1, 2):
    CASES.append(dict(name="reused-%d" % N, fn="reused", args=dict(N=N), opts=dict(budget=60),
                      bounds="%d spins, every real state, changed in place twice" % N))
CASES.append(dict(name="wrong", fn="wrong", bounds="spin numbers -2..0"))
for sizes in ((2, 1, 3), (1, 2), (3, 2)):
    CASES.append(dict(name="history-" + "-".join(map(str, sizes)), fn="history", args=dict(sizes=sizes),
                      opts=dict(budget=40), bounds="systems of %s spins one after the other, every non-zero real state" % (sizes,)))
for sizes in ((1,), (2, 1, 3)):
    CASES.append(dict(name="changed-" + "-".join(map(str, sizes)), fn="changed", args=dict(sizes=sizes),
                      opts=dict(budget=60, prefer_bv=True),
                      bounds="systems of %s spins, each matrix changed in place before the next is asked for" % (sizes,)))
