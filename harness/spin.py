"""Shared pieces of the spin harnesses: the 2x2 matrices by definition and the tensor-product oracle."""
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.quantumstate import SiteID

H = 0.5
# row, column 0 is spin up, 1 is spin down
S2 = {"x": [[0, H], [H, 0]], "y": [[0, -H * 1j], [H * 1j, 0]], "z": [[H, 0], [0, -H]],
      "p": [[0, 1], [0, 0]], "m": [[0, 0], [1, 0]]}


def sites(N):
    """N sites, listed in a table in an order different from their own"""
    return [SiteID([(k * 7) % 16, k % 2]) for k in range(N)]


def table(N):
    return IndexTable(sites(N))


def mul2(a, b):
    return [[sum(a[r][k] * b[k][c] for k in range(2)) for c in range(2)] for r in range(2)]


def per_site(ops):
    """{index: 2x2 product in the order written} of ops = [(index, otype), ...]"""
    out = {}
    for i, ot in ops:
        out[i] = mul2(out[i], S2[ot]) if i in out else S2[ot]
    return out


def index_in(ctx, name, N):
    return ctx.bint(name, 0, (1 << N) - 1)


def bit(v, i):
    return (v >> i) & 1


def tensor_entry(ctx, mats, r, c, N, value, coeff, label, tol=0):
    """obligations: value is entry (r, c) of coeff times the tensor product of mats (identity elsewhere)"""
    mask = 0
    for i in mats:
        mask |= 1 << i
    rest = ((1 << N) - 1) ^ mask
    same = (r & rest) == (c & rest)
    ctx.check(ctx.implies(ctx.not_(same), ctx.close(value, 0)), label + ": identity on the other spins")
    sel = sorted(mats)
    for rb in range(1 << len(sel)):
        for cb in range(1 << len(sel)):
            w = 1
            conds = [same]
            for k, i in enumerate(sel):
                w = w * mats[i][rb >> k & 1][cb >> k & 1]
                conds += [bit(r, i) == (rb >> k & 1), bit(c, i) == (cb >> k & 1)]
            ctx.check(ctx.implies(ctx.all(conds), ctx.close(value, coeff * w, tol)), label + ": matrix element")
