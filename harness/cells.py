"""Coordinates which carry digits beyond the configured precision (four decimals)."""


def cell(ctx, tag, kmax=300, sign=True):
    """(cell, value): the value lies anywhere inside its cell of 0.0001, 2% away from the cell's ends"""
    s = ctx.choice(tag + "sign", [1, -1]) if sign else 1
    k = ctx.int(tag + "k", 0, kmax)
    f = ctx.real(tag + "f", 0.02, 0.98)
    return s * k, s * (k + f) / 10000


def point(ctx, tag, d, kmax=300, sign=True):
    cs = [cell(ctx, "%s%d" % (tag, i), kmax, sign) for i in range(d)]
    return [c for c, _ in cs], [x for _, x in cs]


def same(ctx, a, b):
    return ctx.all([i == j for i, j in zip(a, b)])
