"""P20: the Krylov projection."""
import numpy as np
from scipy.sparse import csr_matrix

from HamiltonianPy.lanczos import KrylovRepresentation, MultiKrylov, set_threshold

TOL = 1e-9
ZERO = 1e-4  # documented threshold


def conj(x):
    return np.conj(x)


def hermitian(ctx, n, kind, pattern, R=2.0):
    """a Hermitian matrix; pattern: the positions (i <= j) which may differ from zero"""
    m = [[0 if kind == "int" else 0.0] * n for _ in range(n)]
    for i, j, *value in pattern:
        if value:
            m[i][j] = m[j][i] = value[0]
        elif i == j:
            m[i][i] = ctx.int("m%d%d" % (i, i), -2, 2) if kind == "int" else ctx.real("m%d%d" % (i, i), -R, R)
        elif kind == "int":
            m[i][j] = m[j][i] = ctx.int("m%d%d" % (i, j), -2, 2)
        elif kind == "complex":
            m[i][j] = ctx.complex("m%d%d" % (i, j), -R, R)
            m[j][i] = conj(m[i][j])
        else:
            m[i][j] = m[j][i] = ctx.real("m%d%d" % (i, j), -R, R)
    return m


def build(m, form):
    return csr_matrix(np.array(m)) if form == "sparse" else np.array(m)


def vec(ctx, tag, spec, R=2.0):
    """spec: per component 0 (zero), 'r' (any real), 'c' (any complex), or "*5" (5 times an arbitrary positive length)"""
    out, t = [], None
    for k, s in enumerate(spec):
        if s == "r":
            out.append(ctx.real("%s%d" % (tag, k), -R, R))
        elif isinstance(s, str) and s[0] == "*":
            if t is None:
                t = ctx.real(tag + "len", 0.01, R)
            out.append(t * complex(s[1:]) if "j" in s else t * int(s[1:]))
        elif s == "c":
            out.append(ctx.complex("%s%d" % (tag, k), -R, R))
        else:
            out.append(s)
    return out


def norm2(v):
    return sum(abs2(x) for x in v)


def abs2(x):
    return (x * conj(x)).real


def inner(a, b):
    return sum(conj(x) * y for x, y in zip(a, b))


def mul(m, v):
    return [sum(m[i][j] * v[j] for j in range(len(v))) for i in range(len(m))]


def verify(ctx, m, v0, others, kmax, T, P):
    """the whole specification of one representation"""
    n = len(v0)
    size = np.shape(T)[0]
    ctx.check(np.shape(T) == (size, size), "a square representation")
    ctx.check(1 <= size <= min(kmax, n), "dimension at most the requested and the whole space")
    ctx.check(set(P) == set(others) | set(("unit", i) for i in range(n)), "one representation for each vector")
    for key in P:
        ctx.check(np.shape(P[key]) == (size,), "representation of a vector has the dimension")
    kets = [[conj(P["unit", i][k]) for i in range(n)] for k in range(size)]
    # real, symmetric, tridiagonal
    for i in range(size):
        for j in range(size):
            ctx.eq(T[i][j], T[j][i], "symmetric", tol=TOL)
            ctx.check(not np.iscomplexobj(T[i][j]), "real")
            if abs(i - j) > 1:
                ctx.eq(T[i][j], 0.0, "tridiagonal", tol=TOL)
    # the basis
    r = np.sqrt(norm2(v0))
    ctx.eq([x * r for x in kets[0]], v0, "first vector is the normalised start vector", tol=TOL)
    for i in range(size):
        for j in range(i, size):
            ctx.eq(inner(kets[i], kets[j]), 1.0 if i == j else 0.0, "orthonormal", tol=TOL)
    images = [mul(m, k) for k in kets]
    for i in range(size):
        for j in range(size):
            ctx.eq(T[i][j], inner(kets[i], images[j]), "representation of the matrix", tol=TOL)
    for j in range(size):
        rest = [images[j][i] - sum(T[k][j] * kets[k][i] for k in range(size) if abs(k - j) <= 1) for i in range(n)]
        if j < size - 1:
            ctx.eq(rest, [0.0] * n, "the space grows by applying the matrix", tol=TOL)
            ctx.check(T[j + 1][j] > 0, "positive off-diagonal")
        elif size < kmax:
            ctx.check(np.sqrt(norm2(rest)) <= 1.01 * ZERO, "stops early only when the space is exhausted")
    for key in others:
        for k in range(size):
            ctx.eq(P[key][k], inner(kets[k], others[key]), "representation of a vector", tol=TOL)


def single(ctx, n, kind, pattern, start, other, dims, form):
    m = hermitian(ctx, n, kind, pattern)
    v0 = vec(ctx, "v", start)
    w = vec(ctx, "w", other)
    ctx.assume(norm2(v0) >= 1e-6)
    kmax = ctx.choice("kmax", dims)
    M, s = build(m, form), np.array(v0)
    vectors = {"w": np.array(w)}
    for i in range(n):
        vectors["unit", i] = np.array([1.0 if k == i else 0.0 for k in range(n)])
    T, P = KrylovRepresentation(M, vectors, s, **({} if kmax is None else {"krylov_space_dim": kmax}))
    kmax = kmax or 200
    verify(ctx, m, v0, {"w": w}, kmax, T, P)
    # nothing was modified
    D = M.toarray() if form == "sparse" else M
    for i in range(n):
        ctx.eq(list(D[i]), m[i], "the matrix is not modified")
    ctx.eq(list(s), v0, "the start vector is not modified")
    ctx.eq(list(vectors["w"]), w, "the vectors are not modified")
    ctx.check(len(vectors) == n + 1, "the collection of vectors is not modified")


def zero(ctx, n, kind):
    """start vectors at and around the threshold"""
    e = ctx.real("m", -2.0, 2.0)
    m = [[e if i == j else 0.0 for j in range(n)] for i in range(n)]
    v0 = [ctx.complex("v%d" % k, -2e-4, 2e-4) if kind == "complex" else ctx.real("v%d" % k, -2e-4, 2e-4) for k in range(n)]
    size = norm2(v0)
    out = ctx.outcome(lambda: KrylovRepresentation(np.array(m), {"v": np.array(v0)}, np.array(v0), krylov_space_dim=2))
    if out.ok:
        ctx.check(size > (ZERO * (1 - 1e-9)) ** 2, "a vanishing start vector is refused")
    else:
        ctx.check(out.raised(ValueError), "ValueError")
        ctx.check(size <= (ZERO * (1 + 1e-9)) ** 2, "only a vanishing start vector is refused")


def threshold(ctx):
    """the limit below which a vector counts as vanishing, as chosen by the user"""
    lim = ctx.choice("limit", [0.0, 1e-8, 0.25, 1.0])
    a, b, c = ctx.real("a", -2.0, 2.0), ctx.real("b", -2.0, 2.0), ctx.real("c", -2.0, 2.0)
    x = ctx.real("x", 0.0, 2.0)
    M = np.array([[a, b], [b, c]])
    set_threshold(lim)
    try:
        out = ctx.outcome(lambda: KrylovRepresentation(M, {"v": np.array([x, 0.0])}, np.array([x, 0.0])))
    finally:
        set_threshold()
    if not out.ok:
        ctx.check(out.raised(ValueError), "ValueError")
        ctx.check(x <= lim * (1 + 1e-9), "only a vanishing start vector is refused")
        return
    ctx.check(x >= lim * (1 - 1e-9), "a vanishing start vector is refused")
    T, P = out.value
    if np.shape(T)[0] == 1:
        ctx.check(ctx.all([b <= lim * (1 + 1e-9), -b <= lim * (1 + 1e-9)]), "stops early only when the space is exhausted")
    else:
        ctx.check(np.shape(T) == (2, 2), "two dimensions")
        ctx.check(ctx.any([b >= lim * (1 - 1e-9), -b >= lim * (1 - 1e-9)]), "stops when the space is exhausted")
        ctx.eq(T[0][1] * T[0][1], b * b, "off-diagonal", tol=TOL)


def multi(ctx, n, kind, pattern, starts, dims, form):
    """several start vectors: each as if alone"""
    m = hermitian(ctx, n, kind, pattern)
    vs = []
    for k, s in enumerate(starts):
        if s == "parallel":
            f = ctx.choice("f", [1.0, -2.0, 1j, -1j, -1.0])
            vs.append([f * x for x in vs[0]])
        else:
            vs.append(vec(ctx, "v%d_" % k, s))
    for v in vs:
        ctx.assume(norm2(v) >= 1e-6)
    kmax = ctx.choice("kmax", dims)
    M = build(m, form)
    vectors = {("key", k): np.array(v) for k, v in enumerate(vs)}
    Ts, Ps = MultiKrylov(M, vectors, krylov_space_dim=kmax)
    ctx.check(set(Ts) == set(vectors) and set(Ps) == set(vectors), "one space for each vector")
    for k, v in enumerate(vs):
        T, P = KrylovRepresentation(M, vectors, v0=vectors["key", k], krylov_space_dim=kmax)
        a, b = Ts["key", k], Ps["key", k]
        ctx.check(np.shape(a) == np.shape(T) and set(b) == set(P), "same shape as alone")
        for i in range(np.shape(T)[0]):
            ctx.eq(list(a[i]), list(T[i]), "same matrix as alone", tol=TOL)
        for key in P:
            ctx.eq(list(b[key]), list(P[key]), "same vectors as alone", tol=TOL)
    for k, v in enumerate(vs):
        ctx.eq(list(vectors["key", k]), v, "the vectors are not modified")


CASES = []


def case(name, fn, bounds, tier=None, opts={}, **args):
    CASES.append(dict(name=name, fn=fn, args=args, opts=dict(dict(budget=60, merging=False, algebra=True), **opts), bounds=bounds,
                      **({"tier": tier} if tier else {})))


def tri(n):
    return [(i, i) for i in range(n)] + [(i, i + 1) for i in range(n - 1)]


def full(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


E = "entries in [-2, 2], dimension %d; "
for kind in ("real", "complex"):
    s = kind[0]
    case("one-" + kind, "single", E % 1 + "any %s vectors" % kind, n=1, kind=kind, pattern=[[0, 0]], start=[s], other=[s],
         dims=[1, 2, 200], form="dense")
    for form in ("dense", "sparse"):
        case("two-%s-%s" % (kind, form), "single", E % 2 + "%s Hermitian matrix, start along an axis" % kind, n=2, kind=kind,
             pattern=full(2), start=[s, 0], other=["c", "c"], dims=[1, 2, 200], form=form)
        case("three-%s-%s" % (kind, form), "single", E % 3 + "%s tridiagonal matrix, start along an axis" % kind, n=3, kind=kind,
             pattern=tri(3), start=[s, 0, 0], other=["c", "c", "c"], dims=[1, 2, 3, 200], form=form)
    case("two-%s-34" % kind, "single", E % 2 + "start along (3, 4)", n=2, kind=kind, pattern=full(2), start=["*3", "*4"], other=["r", "c"],
         dims=[1, 2, 3], form="dense")
case("two-any", "single", E % 2 + "any real start", n=2, kind="real", pattern=full(2), start=["r", "r"], other=["r", "c"],
     dims=[1, 2, 3], form="dense")
case("two-i", "single", E % 2 + "start along (3, 4i)", n=2, kind="complex", pattern=full(2), start=["*3", "*4j"], other=["c", "c"],
     dims=[1, 2, 3], form="dense")
case("three-full", "single", E % 3 + "start along an axis", n=3, kind="real", pattern=full(3), start=["r", 0, 0],
     other=["r", "r", "r"], dims=[1, 2, 3], form="dense")
case("three-middle", "single", E % 3 + "start at the middle of a chain", n=3, kind="real", pattern=tri(3), start=[0, "r", 0],
     other=["r", "r", "r"], dims=[1, 2, 3, 5], form="dense")
case("blocks", "single", E % 4 + "two decoupled blocks", n=4, kind="real", pattern=[[0, 0], [1, 1], [0, 1], [2, 2], [3, 3], [2, 3]],
     start=["r", 0, 0, 0], other=["r", "c", "r", "c"], dims=[1, 2, 3, 4], form="sparse")
case("diagonal", "single", E % 3 + "diagonal matrix, start along (1, 2, 2)", n=3, kind="real", pattern=[[0, 0], [1, 1], [2, 2]],
     start=["*1", "*2", "*2"], other=["r", "r", "r"], dims=[1, 2, 3], form="dense")
for n in (1, 2, 3):
    for kind in ("real", "complex"):
        case("zero-%d-%s" % (n, kind), "zero", "start vectors with components up to 2e-4, dimension %d" % n, n=n, kind=kind)
case("threshold", "threshold", "chosen limits 0, 1e-8, 1/4 and 1; real symmetric matrices of dimension 2")
case("four", "single", E % 4 + "real chain, start at its end", n=4, kind="real", pattern=tri(4), start=["r", 0, 0, 0],
     other=["r", "c", "r", "c"], dims=[1, 2, 3, 4, 200], form="sparse")
case("fork", "single", E % 5 + "a chain of three with two branches at its end", n=5, kind="real",
     pattern=[[0, 0], [0, 1], [1, 2], [2, 3], [2, 4]], start=["r", 0, 0, 0, 0], other=["r", 0, 0, "c", "r"], dims=[2, 3, 4], form="sparse")
case("three-complex-full", "single", E % 3 + "complex Hermitian, start along an axis", n=3, kind="complex", pattern=full(3),
     start=["c", 0, 0], other=["c", "c", "c"], dims=[1, 2], form="dense")
case("two-complex-any", "single", E % 2 + "complex Hermitian, any start with real first component", n=2, kind="complex", pattern=full(2),
     start=["r", "c"], other=["c", "r"], dims=[1], form="dense")
case("four-full", "single", E % 4 + "real symmetric, start along an axis", n=4, kind="real", pattern=full(4),
     start=["r", 0, 0, 0], other=["r", 0, 0, "r"], dims=[1, 2], form="dense")
case("multi-axes", "multi", E % 2 + "two start vectors along the axes", n=2, kind="complex", pattern=full(2),
     starts=[["c", 0], [0, "c"]], dims=[1, 2, 200], form="dense")
case("multi-three", "multi", E % 3 + "two start vectors", n=3, kind="real", pattern=tri(3),
     starts=[["c", 0, 0], [0, 0, "c"]], dims=[1, 2], form="sparse")


def chain(n, symbolic):
    """a chain of n sites with hopping 1 or 2 and levels 0, 1, -1, ..; the named entries are arbitrary"""
    p = [(i, i, float(i % 3 - 1)) for i in range(n)] + [(i, i + 1, 1.0 + i % 2) for i in range(n - 1)]
    return [(q[0], q[1]) if (q[0], q[1]) in symbolic else q for q in p]


case("chain-8", "single", E % 8 + "a chain with an arbitrary level in the middle", n=8, kind="real", pattern=chain(8, [(3, 3)]),
     start=["r"] + [0] * 7, other=["r"] + [0] * 6 + ["c"], dims=[5, 8, 200], form="sparse")
case("chain-8-hop", "single", E % 8 + "a chain with an arbitrary hopping in the middle", n=8, kind="real", pattern=chain(8, [(3, 4)]),
     start=["*2"] + [0] * 7, other=["r"] + [0] * 6 + ["c"], dims=[8, 9], form="dense")
case("chain-14", "single", E % 14 + "a chain with an arbitrary level near its end", n=14, kind="real", pattern=chain(14, [(10, 10)]),
     start=["*2"] + [0] * 13, other=[0] * 13 + ["c"], dims=[12, 200], form="sparse")
case("chain-14-last", "single", E % 14 + "a chain with an arbitrary last level", n=14, kind="real", pattern=chain(14, [(13, 13)]),
     start=["*2"] + [0] * 13, other=[0] * 13 + ["c"], dims=[14], form="sparse")
case("chain-26", "single", E % 26 + "a chain with an arbitrary last level, default dimension", n=26, kind="real", pattern=chain(26, [(25, 25)]),
     start=["*2"] + [0] * 25, other=[0] * 25 + ["c"], dims=[None], form="sparse")
for form in ("dense", "sparse"):
    case("two-complex-real-start-" + form, "single", E % 2 + "complex Hermitian, real start along an axis, real and complex vectors", n=2,
         kind="complex", pattern=full(2), start=["r", 0], other=["r", "c"], dims=[1, 2, 200], form=form)
    case("three-complex-real-start-" + form, "single", E % 3 + "complex Hermitian chain, real start along an axis, real vectors", n=3,
         kind="complex", pattern=tri(3), start=[0, 0, "r"], other=["r", "r", "r"], dims=[1, 2, 3, 200], form=form)
case("multi-real-starts", "multi", E % 2 + "complex Hermitian, one real and one complex start vector", n=2, kind="complex", pattern=full(2),
     starts=[["r", 0], [0, "c"]], dims=[1, 2], form="dense")
case("two-complex-integer-start", "single", E % 2 + "complex Hermitian, start along (2, 0) in integers", n=2, kind="complex", pattern=full(2),
     start=[2, 0], other=[1, 3], dims=[1, 2], form="dense")
case("two-real-integer-start", "single", E % 2 + "real symmetric, start along (0, 2) in integers", n=2, kind="real", pattern=full(2),
     start=[0, 2], other=[1, 3], dims=[1, 2], form="dense")
for kind in ("real", "complex"):
    case("multi-parallel-" + kind, "multi", E % 2 + "a start vector along an axis, a multiple of it and another one", n=2, kind=kind,
         pattern=full(2), starts=[[kind[0], 0], "parallel", [0, "r"]], dims=[1, 2], form="dense")
case("multi-parallel-34", "multi", E % 2 + "a start vector along (3, 4i) and a multiple of it", n=2, kind="complex", pattern=full(2),
     starts=[["*3", "*4j"], "parallel"], dims=[2], form="sparse")
for form in ("dense", "sparse"):
    case("two-whole-" + form, "single", E % 2 + "integer matrix, start and other vectors in integers", n=2, kind="int", pattern=full(2),
         start=[0, 2], other=[1, 3], dims=[1, 2, 200], form=form)
    case("three-whole-" + form, "single", E % 3 + "integer tridiagonal matrix, start and other vectors in integers", n=3, kind="int",
         pattern=tri(3), start=[3, 0, 0], other=[1, 3, -1], dims=[1, 2, 3, 200], form=form)
case("multi-whole", "multi", E % 2 + "integer matrix and start vectors", n=2, kind="int", pattern=full(2), starts=[[1, 0], [0, -3]],
     dims=[1, 2], form="dense")
case("three-whole-full", "single", E % 3 + "integer matrix, start along an axis", n=3, kind="int", pattern=full(3),
     start=[1, 0, 0], other=[1, 3, -1], dims=[1, 2], form="dense")
