"""P21: Green functions."""
import numpy as np

import HamiltonianPy.GreenFunction as G
from HamiltonianPy.lanczos import MultiKrylov
from HamiltonianPy.quantumoperator import AoC, SpinOperator, CREATION, ANNIHILATION

TOL = 1e-7


def conj(x):
    return np.conj(x)


def operators(ctx, kind, n):
    """some operators whose adjoints are other ones (or themselves), with the keys of all adjoints"""
    if kind == "fermion":
        ops = [AoC(ANNIHILATION, site=(k, 0), spin=k % 2) if k != 1 else AoC(CREATION, site=(k, 0)) for k in range(n)]
    elif kind == "spin":
        ops = [SpinOperator(("p", "m", "x")[k % 3], site=(k, 0)) for k in range(n)]
    else:                       # the same site throughout: adjoints coincide with other operators
        ops = [SpinOperator(("p", "m", "z")[k % 3], site=(0, 0)) for k in range(n)]
    return ops


def states(ctx, ops, dim, kinds, R=2.0):
    """one arbitrary vector for every operator and every adjoint"""
    out, k = {}, 0
    for op in ops:
        for key in (op, op.dagger()):
            if key in out:
                continue
            kind = kinds[k % len(kinds)]
            if kind == "r":
                v = ctx.real_vec("s%d_" % k, dim, -R, R)
            elif kind == "i":
                v = [ctx.int("s%d_%d" % (k, i), -2, 2) for i in range(dim)]
            else:
                v = [ctx.complex("s%d_%d" % (k, i), -R, R) for i in range(dim)]
            out[key] = np.array(v)
            k += 1
    return out


def hermitian(ctx, n, kind, R=2.0):
    m = [[0 if kind == "int" else 0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if kind == "int":
                m[i][j] = m[j][i] = ctx.int("h%d%d" % (i, j), -2, 2)
            elif i == j:
                m[i][i] = ctx.real("h%d%d" % (i, i), -R, R)
            elif kind == "complex":
                m[i][j] = ctx.complex("h%d%d" % (i, j), -R, R)
                m[j][i] = conj(m[i][j])
            elif kind == "real":
                m[i][j] = m[j][i] = ctx.real("h%d%d" % (i, j), -R, R)
    return m


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def resolvent(h, z, e, sign, bra, ket):
    """numerator and denominator of <bra| (z + sign (h - e))^-1 |ket>, by Cramer's rule"""
    n = len(h)
    m = [[(z - sign * e if i == j else 0.0) + sign * h[i][j] for j in range(n)] for i in range(n)]
    num = 0.0
    for i in range(n):
        c = [[ket[r] if j == i else m[r][j] for j in range(n)] for r in range(n)]
        num = num + conj(bra[i]) * det(c)
    return num, det(m)


def solved(h, z, e, sign, bra, ket):
    """the same, by solving the system of equations"""
    n = len(h)
    m = np.array([[(z - sign * e if i == j else 0.0) + sign * h[i][j] for j in range(n)] for i in range(n)])
    x = np.linalg.solve(m, np.array(list(ket)))
    return sum(conj(bra[i]) * x[i] for i in range(n)), 1.0


RULES = {"cramer": resolvent, "solve": solved}


def freq(ctx, name="omega", kind=None):
    return ctx.int(name, -4, 4) if kind == "int" else ctx.real(name, -4.0, 4.0)


def same(ctx, got, parts, label):
    """got equals the sum of the fractions"""
    den = 1.0
    for _, d in parts:
        den = den * d
    want = 0.0
    for k, (n, _) in enumerate(parts):
        t = n
        for j, (_, d) in enumerate(parts):
            if j != k:
                t = t * d
        want = want + t
    ctx.check(ctx.close(got * den, want, TOL), label)


def setup(ctx, dim, kind, ops, kinds, eta=True):
    h = hermitian(ctx, dim, kind)
    s = states(ctx, ops, dim, kinds)
    e = ctx.int("GE", -3, 3) if kind == "int" else ctx.real("GE", -3.0, 3.0)
    kw = {"eta": ctx.int("eta", 1, 2) if kind == "int" else ctx.real("eta", 0.01, 1.0)} if eta else {}
    return h, s, e, kw


def single(ctx, dim, kind, what, kinds, eta=True, rule="cramer"):
    """one pair of operators, from the definition"""
    A, B = operators(ctx, what, 2)
    h, s, e, kw = setup(ctx, dim, kind, (A, B), kinds, eta)
    w = freq(ctx, kind=kind)
    sign = ctx.choice("sign", ["+", "-", None])
    z = w + 1j * kw.get("eta", 0.01)
    if sign:
        kw["sign"] = sign
    H = np.array(h)
    got = G.GFSolverExactSingle(w, A, B, e, H, s, **kw)
    num = RULES[rule](h, z, e, -1 if sign == "-" else 1, s[A.dagger()], s[B])
    same(ctx, got, [num], "definition")
    for i in range(dim):
        ctx.eq(list(H[i]), h[i], "the matrix is not modified")


def retarded(ctx, dim, kind, what, kinds, eta=True, rule="cramer"):
    A, B = operators(ctx, what, 2)
    h, s, e, kw = setup(ctx, dim, kind, (A, B), kinds, eta)
    w = freq(ctx, kind=kind)
    sign = ctx.choice("sign", ["+", "-", None])
    z = w + 1j * kw.get("eta", 0.01)
    if sign:
        kw["sign"] = sign
    got = G.RGFSolverExactSingle(w, A, B, e, np.array(h), s, **kw)
    p = RULES[rule](h, z, e, -1, s[A.dagger()], s[B])
    q = RULES[rule](h, z, e, 1, s[B.dagger()], s[A])
    if sign == "-":
        q = (-q[0], q[1])
    same(ctx, got, [p, q], "definition of the retarded function")


def shape(ctx, got, structure, As, Bs, count):
    """the entries of a many-operator result: (a, b) -> values"""
    if structure == "dict":
        ctx.check(len(got) == len(As) * len(Bs), "one entry per pair")
        out = {(i, j): got[(A, B)] for i, A in enumerate(As) for j, B in enumerate(Bs)}
    else:
        ctx.check(np.shape(got) == (len(As), len(Bs), count), "shape of the array")
        out = {(i, j): got[i, j] for i in range(len(As)) for j in range(len(Bs))}
    for v in out.values():
        ctx.check(np.shape(v) == (count,), "one value for each frequency")
    return out


def arguments(ctx):
    kw = {}
    sign, structure = ctx.choice("sign", ["+", "-", None]), ctx.choice("structure", ["array", "dict", None])
    if sign:
        kw["sign"] = sign
    if structure:
        kw["structure"] = structure
    return kw, structure


def multiple(ctx, dim, kind, what, kinds, na, nb, nw, ret):
    """many operators: entry by entry the same as one pair"""
    ops = operators(ctx, what, max(na, nb) + 1)
    As, Bs = ops[:na], ops[1:1 + nb]
    h, s, e, kw = setup(ctx, dim, kind, ops, kinds)
    extra, structure = arguments(ctx)
    ws = [freq(ctx, "omega%d" % k, kind) for k in range(nw)]
    H = np.array(h)
    many, one = (G.RGFSolverExactMultiple, G.RGFSolverExactSingle) if ret else (G.GFSolverExactMultiple, G.GFSolverExactSingle)
    got = shape(ctx, many(np.array(ws), As, Bs, e, H, s, **kw, **extra), structure, As, Bs, nw)
    extra.pop("structure", None)
    for (i, j), values in got.items():
        for k, w in enumerate(ws):
            ctx.check(ctx.close(values[k], one(w, As[i], Bs[j], e, H, s, **kw, **extra), TOL), "same as the single solver")


def krylov(ctx, dim, kind, what, kinds, ret):
    """the Krylov forms and the exact forms, the Krylov space being complete"""
    A, B = operators(ctx, what, 2)
    h, s, e, kw = setup(ctx, dim, kind, (A, B), kinds)
    if dim > 1:
        # every vector starts at an axis, whose neighbours it reaches
        pass
    for v in s.values():
        ctx.assume(sum((x * conj(x)).real for x in v) >= 1e-2)
    H = np.array(h)
    sign = ctx.choice("sign", ["+", "-", None])
    if sign:
        kw["sign"] = sign
    w = freq(ctx, kind=kind)
    Ms, Vs = MultiKrylov(H, s, krylov_space_dim=dim)
    for key in s:
        ctx.assume(np.shape(Ms[key]) == (dim, dim))
    exact, lanczos = (G.RGFSolverExactSingle, G.RGFSolverLanczosSingle) if ret else (G.GFSolverExactSingle, G.GFSolverLanczosSingle)
    ctx.check(ctx.close(lanczos(w, A, B, e, Ms, Vs, **kw), exact(w, A, B, e, H, s, **kw), TOL), "Krylov and exact solvers agree")


def projected(ctx, ops, sizes, kind, kinds):
    """arbitrary projections, one space for every operator and every adjoint"""
    Ms, Vs = {}, {}
    keys = []
    for op in ops:
        for key in (op, op.dagger()):
            if key not in keys:
                keys.append(key)
    for k, key in enumerate(keys):
        n = sizes[k % len(sizes)]
        m = [[0.0] * n for _ in range(n)]
        for i in range(n):
            m[i][i] = ctx.real("a%d_%d" % (k, i), -2.0, 2.0)
            if i:
                m[i][i - 1] = m[i - 1][i] = ctx.real("b%d_%d" % (k, i), 0.0, 2.0)
        Ms[key] = np.array(m)
        Vs[key] = {}
        for l, other in enumerate(keys):
            if other == key:
                v = [ctx.real("n%d" % k, 0.0, 2.0)] + [0.0] * (n - 1)
            elif kinds[(k + l) % len(kinds)] == "r":
                v = ctx.real_vec("p%d_%d_" % (k, l), n, -2.0, 2.0)
            else:
                v = [ctx.complex("p%d_%d_%d" % (k, l, i), -2.0, 2.0) for i in range(n)]
            Vs[key][other] = np.array(v)
    return Ms, Vs


def within(ctx, what, sizes, kinds, ret, rule="cramer"):
    """the Krylov forms from the definition, in the projected space"""
    A, B = operators(ctx, what, 2)
    Ms, Vs = projected(ctx, (A, B), sizes, "real", kinds)
    e, kw = ctx.real("GE", -3.0, 3.0), {"eta": ctx.real("eta", 0.01, 1.0)}
    w = freq(ctx)
    sign = ctx.choice("sign", ["+", "-", None])
    if sign:
        kw["sign"] = sign
    z = w + 1j * kw["eta"]

    def term(a, b, sg):
        return RULES[rule]([list(r) for r in Ms[b]], z, e, sg, list(Vs[b][a.dagger()]), list(Vs[b][b]))
    if ret:
        got = G.RGFSolverLanczosSingle(w, A, B, e, Ms, Vs, **kw)
        p, q = term(A, B, -1), term(B, A, 1)
        same(ctx, got, [p, (-q[0], q[1]) if sign == "-" else q], "definition of the retarded function")
    else:
        got = G.GFSolverLanczosSingle(w, A, B, e, Ms, Vs, **kw)
        same(ctx, got, [term(A, B, -1 if sign == "-" else 1)], "definition")


def krylov_multiple(ctx, what, sizes, kinds, na, nb, nw, ret):
    ops = operators(ctx, what, max(na, nb) + 1)
    As, Bs = ops[:na], ops[1:1 + nb]
    Ms, Vs = projected(ctx, ops, sizes, "real", kinds)
    e, kw = ctx.real("GE", -3.0, 3.0), {"eta": ctx.real("eta", 0.01, 1.0)}
    extra, structure = arguments(ctx)
    ws = [freq(ctx, "omega%d" % k) for k in range(nw)]
    many, one = (G.RGFSolverLanczosMultiple, G.RGFSolverLanczosSingle) if ret else \
        (G.GFSolverLanczosMultiple, G.GFSolverLanczosSingle)
    got = shape(ctx, many(np.array(ws), As, Bs, e, Ms, Vs, **kw, **extra), structure, As, Bs, nw)
    extra.pop("structure", None)
    for (i, j), values in got.items():
        for k, w in enumerate(ws):
            ctx.check(ctx.close(values[k], one(w, As[i], Bs[j], e, Ms, Vs, **kw, **extra), TOL), "same as the single solver")


CASES = []


def case(name, fn, bounds, tier=None, opts={}, **args):
    CASES.append(dict(name=name, fn=fn, args=args, opts=dict(dict(budget=60, merging=False, algebra=True), **opts),
                      bounds=bounds + "; frequencies in [-4, 4], broadening in [0.01, 1], energies in [-3, 3], entries in [-2, 2]",
                      **({"tier": tier} if tier else {})))


ABSTRACT = dict(abstract_solve=True, algebra=False)
SOLVE = "; solutions of linear systems as unknowns"
for what in ("fermion", "spin", "same"):
    for dim in (1, 2):
        for kind in ("real", "complex") if dim > 1 else ("real",):
            case("single-%s-%d-%s" % (what, dim, kind), "single", "%s operators, %s Hamiltonian of dimension %d" % (what, kind, dim),
                 dim=dim, kind=kind, what=what, kinds="cr")
    case("retarded-%s-1" % what, "retarded", "%s operators, Hamiltonian of dimension 1" % what, dim=1, kind="real", what=what, kinds="cr")
    for dim, kind in ((2, "real"), (2, "complex"), (3, "real"), (3, "complex"), (4, "real")):
        for fn in ("single", "retarded"):
            case("%s-solve-%s-%d-%s" % (fn, what, dim, kind), fn,
                 "%s operators, %s Hamiltonian of dimension %d%s" % (what, kind, dim, SOLVE),
                 dim=dim, kind=kind, what=what, kinds="cr", rule="solve", opts=ABSTRACT)
for fn in ("single", "retarded"):
    case("default-eta-%s" % fn, fn, "default broadening", dim=1, kind="real", what="fermion", kinds="cr", eta=False)
    case("default-eta-%s-solve" % fn, fn, "default broadening" + SOLVE, dim=3, kind="real", what="fermion", kinds="cr", eta=False,
         rule="solve", opts=ABSTRACT)
for ret in (False, True):
    r = "-r" if ret else ""
    for what in ("fermion", "spin", "same"):
        for na, nb, nw, dim in ((1, 1, 1, 1), (2, 1, 2, 2), (1, 2, 1, 3), (2, 2, 3, 2), (3, 2, 2, 2)):
            case("multiple%s-%s-%d%d%d" % (r, what, na, nb, nw), "multiple",
                 "%d by %d operators, %d frequencies, dimension %d%s" % (na, nb, nw, dim, SOLVE),
                 dim=dim, kind="real", what=what, kinds="cr", na=na, nb=nb, nw=nw, ret=ret, opts=ABSTRACT)
            case("krylov-multiple%s-%s-%d%d%d" % (r, what, na, nb, nw), "krylov_multiple",
                 "%d by %d operators, %d frequencies, projected spaces of dimensions 1, 2 and 3%s" % (na, nb, nw, SOLVE),
                 what=what, sizes=[2, 3, 1], kinds="cr", na=na, nb=nb, nw=nw, ret=ret, opts=ABSTRACT)
        for sizes in ([1], [1, 2], [2, 1]) if not ret or what == "same" else ([1], [1, 2]):
            case("within%s-%s-%s" % (r, what, "".join(map(str, sizes))), "within", "projected spaces of dimensions %s" % sizes,
                 what=what, sizes=sizes, kinds="cr", ret=ret)
        for sizes in ([2], [3, 1], [2, 3, 1, 4]):
            case("within%s-solve-%s-%s" % (r, what, "".join(map(str, sizes))), "within",
                 "projected spaces of dimensions %s%s" % (sizes, SOLVE), what=what, sizes=sizes, kinds="cr", ret=ret, rule="solve",
                 opts=ABSTRACT)
    for what in ("fermion", "same"):
        case("krylov%s-%s-1" % (r, what), "krylov", "dimension 1", dim=1, kind="real", what=what, kinds="cr", ret=ret)
case("krylov-2", "krylov", "dimension 2, diagonal Hamiltonian, complete space", dim=2, kind="diagonal", what="same", kinds="r", ret=False)
for fn in ("single", "retarded"):
    case("%s-solve-large" % fn, fn, "fermion operators, complex Hamiltonian of dimension 9" + SOLVE,
         dim=9, kind="complex", what="fermion", kinds="cr", rule="solve", opts=ABSTRACT)
for ret in (False, True):
    r = "-r" if ret else ""
    case("multiple%s-large" % r, "multiple", "4 by 3 operators, 14 frequencies, dimension 3" + SOLVE,
         dim=3, kind="real", what="fermion", kinds="cr", na=4, nb=3, nw=14, ret=ret, opts=ABSTRACT)
    case("within%s-large" % r, "within", "projected spaces of dimensions 7 and 8" + SOLVE, what="fermion", sizes=[7, 8], kinds="cr", ret=ret,
         rule="solve", opts=ABSTRACT)
    case("krylov-multiple%s-large" % r, "krylov_multiple", "3 by 4 operators, 12 frequencies, projected spaces of dimensions 3 to 5" + SOLVE,
         what="fermion", sizes=[3, 4, 5], kinds="cr", na=3, nb=4, nw=12, ret=ret, opts=ABSTRACT)
for what in ("fermion", "same"):
    for fn in ("single", "retarded"):
        case("%s-whole-%s" % (fn, what), fn, "%s operators, Hamiltonian of dimension 2, everything in integers%s" % (what, SOLVE),
             dim=2, kind="int", what=what, kinds="i", rule="solve", opts=ABSTRACT)
    for ret in (False, True):
        case("multiple%s-whole-%s" % ("-r" if ret else "", what), "multiple",
             "2 by 2 operators, 2 frequencies, dimension 2, everything in integers" + SOLVE, dim=2, kind="int", what=what, kinds="i",
             na=2, nb=2, nw=2, ret=ret, opts=ABSTRACT)
