"""P07: basis enumeration lists every allowed occupation exactly once."""
from itertools import combinations

import fermion as F
import numpy as np
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace, base_vectors


def states_of(ctx, tag, n, bits, order):
    """n distinct states; order: 'any' or 'up' (ascending)"""
    s = [ctx.int("%s%d" % (tag, i), 0, bits - 1) for i in range(n)]
    if order == "up":
        for a, b in zip(s, s[1:]):
            ctx.assume(a < b)
    return s


def wrap(kind, s):
    return set(s) if kind == "set" else tuple(s) if kind == "tuple" else list(s)


def allowed(groups):
    """the occupation integers of the space, from its definition; groups = [(states, number)]"""
    vs = [0]
    for states, num in groups:
        part = [sum(1 << s for k, s in enumerate(states) if m >> k & 1) for m in range(2 ** len(states))
                if num < 0 or bin(m).count("1") == num]
        vs = [v + w for v in vs for w in part]
    return vs


def verify(ctx, kets, groups, sort, label):
    want = allowed(groups)
    ctx.check(len(kets) == len(want), label + ": number of vectors")
    for i, k in enumerate(kets):
        ctx.check(ctx.any([k == w for w in want]), label + ": only allowed occupations")
        if sort:
            if i:
                ctx.check(kets[i - 1] < k, label + ": ascending, each once")
        else:
            ctx.check(ctx.all([k != m for m in kets[:i]]), label + ": each once")


def container(ctx, got, name, label):
    if name == "array":
        ctx.check(isinstance(got, np.ndarray), label + ": array")
        ctx.check(got.dtype == np.dtype("uint64"), label + ": dtype")
        ctx.check(got.ndim == 1, label + ": one-dimensional")
    else:
        ctx.check(isinstance(got, list if name == "list" else tuple), label + ": " + name)


def same(ctx, a, b, label):
    ctx.check(len(a) == len(b), label + ": length")
    for x, y in zip(a, b):
        ctx.check(x == y, label)


def spaces(ctx, sizes, bits, order, kind, nums=None, sort=True):
    """one or several subspaces with symbolic states"""
    groups, seen = [], []
    for g, n in enumerate(sizes):
        s = states_of(ctx, "g%ds" % g, n, bits, order)
        num = ctx.choice("g%dn" % g, range(-1, n + 1)) if nums is None else nums[g]
        groups.append((s, num))
        seen += s
    F.distinct(ctx, seen)
    specs = [(wrap(kind, s), num) for s, num in groups]
    hs = HilbertSpace(*specs)
    cont = ctx.choice("container", ["array", "list", "tuple"])
    kw = {} if sort is None else dict(sort=sort)
    got = hs.base_vectors(container=cont, **kw)
    container(ctx, got, cont, "class")
    verify(ctx, got, groups, sort is not False, "class")
    f = base_vectors(*specs, container=cont, **kw)
    container(ctx, f, cont, "function")
    if sort is not False:
        same(ctx, f, got, "function and class agree")
    else:
        verify(ctx, f, groups, False, "function")
    same(ctx, hs(container=cont, **kw), got, "calling the space")
    if len(sizes) == 1:
        simple = SimpleHilbertSpace(specs[0][0], specs[0][1])
        g = simple.base_vectors(container=cont, **kw)
        container(ctx, g, cont, "simple class")
        if sort is not False:
            same(ctx, g, got, "simple and general class agree")
        else:
            verify(ctx, g, groups, False, "simple class")
        same(ctx, simple(container=cont, **kw), g, "calling the simple space")
    d = hs.base_vectors()
    container(ctx, d, "array", "defaults")
    if sort is not False:
        same(ctx, d, got, "defaults")
    again = hs.base_vectors(container=cont, **kw)
    same(ctx, again, got, "asking twice")


def counted(ctx, n):
    """an integer specification means the states 0 .. n-1"""
    num = ctx.choice("num", list(range(-2, n + 1)) + [None])
    groups = [(list(range(n)), -1 if num is None else num)]
    s = SimpleHilbertSpace(n) if num is None else SimpleHilbertSpace(n, num)
    h = HilbertSpace(n) if num is None else HilbertSpace((n, num))
    f = base_vectors(n) if num is None else base_vectors([n, num])
    a = s.base_vectors()
    verify(ctx, a, groups, True, "simple class")
    same(ctx, h.base_vectors(), a, "class")
    same(ctx, f, a, "function")


def lifted(ctx, groups, order, cont="array"):
    """larger spaces: the states are given offsets from one symbolic state"""
    top = max(k for part, _ in groups for k in part)
    s = ctx.int("s", 0, 63 - top)
    patterns = [0]
    for part, num in groups:
        sums = [sum(1 << k for k in c) for m in ([num] if num >= 0 else range(len(part) + 1)) for c in combinations(part, m)]
        patterns = [p + q for p in patterns for q in sums]
    patterns.sort()
    specs = [([s + k for k in (reversed(part) if order == "down" else part)], num) for part, num in groups]
    got = [HilbertSpace(*specs).base_vectors(container=cont), base_vectors(*specs, container=cont)]
    if len(specs) == 1:
        got.append(SimpleHilbertSpace(*specs[0]).base_vectors(container=cont))
    for kets in got:
        container(ctx, kets, cont, "lifted")
        ctx.check(len(kets) == len(patterns), "number of vectors")
        for k, p in zip(kets, patterns):
            ctx.check(k == (p << s), "the vector of this rank")


def history(ctx, bits, cont):
    """several spaces side by side; a result which the caller changes is the caller's"""
    a = states_of(ctx, "a", 2, bits, "any")
    b = states_of(ctx, "b", 1, bits, "any")
    F.distinct(ctx, a + b)
    groups = [[(a, 1)], [(a, -1)], [(a, 1), (b, -1)], [(b, -1), (a, 1)], [(a, 2)]]
    hs = [HilbertSpace(*[(tuple(s), n) for s, n in g]) for g in groups]
    simple = SimpleHilbertSpace(tuple(a), 1)
    for turn in range(2):
        for h, g in zip(hs, groups):
            got = h.base_vectors(container=cont)
            verify(ctx, got, g, True, "turn %d" % turn)
            f = base_vectors(*[(tuple(s), n) for s, n in g], container=cont)
            same(ctx, f, got, "function and class agree")
            if cont == "list":
                del got[:]
                f.reverse()
            elif cont == "array":
                got *= 0
                f *= 0
        for sort in (True, False, True, False):
            got = simple.base_vectors(container=cont, sort=sort)
            verify(ctx, got, groups[0], sort, "simple, turn %d" % turn)
            if cont == "list":
                del got[:]
            elif cont == "array":
                got *= 0


CASES = []
BV = dict(budget=60, tbudget=600)


def case(sizes, bits, order, kind, tier=None, **kw):
    name = "-".join(["x".join(map(str, sizes)), str(bits), order, kind] + [str(kw[k]) for k in sorted(kw)])
    c = dict(name=name.replace(" ", ""), fn="spaces", args=dict(sizes=sizes, bits=bits, order=order, kind=kind, **kw), opts=BV,
             bounds="subspaces of %s states, %s, every distinct index < %d, every particle number" % (
                 sizes, "listed ascending" if order == "up" else "in any order", bits))
    if tier:
        c["tier"] = tier
    CASES.append(c)


case((1,), 64, "any", "tuple")
case((2,), 64, "any", "list")
case((2,), 64, "any", "tuple", sort=False)
case((3,), 64, "any", "tuple")
case((3,), 64, "up", "list")
case((3,), 64, "any", "list", sort=False)
case((2,), 64, "any", "set")
case((4,), 64, "up", "tuple")
case((1, 1), 64, "any", "tuple")
case((2, 1), 64, "any", "list")
case((2, 2), 64, "up", "tuple", nums=(1, 1))
case((2, 2), 64, "up", "tuple", nums=(-1, 1))
case((1, 2), 64, "any", "tuple", sort=False)
case((1, 1, 1), 64, "any", "tuple", nums=(-1, 1, -1))
case((4,), 64, "any", "tuple", nums=(2,))
case((4,), 64, "any", "list", nums=(3,))
case((2, 2), 64, "any", "tuple", nums=(1, 1))
case((3, 2), 64, "any", "tuple", nums=(1, 1))
case((5,), 64, "up", "tuple", nums=(2,))
case((6,), 64, "up", "tuple", nums=(1,))
case((4,), 64, "any", "tuple", tier="thorough")
case((2, 2), 64, "any", "tuple", tier="thorough")
case((3, 1), 64, "any", "tuple", tier="thorough")
case((6,), 64, "up", "tuple", nums=(3,), tier="thorough")
case((5,), 64, "up", "tuple", tier="thorough")
for n in (1, 2, 3, 4, 5):
    CASES.append(dict(name="counted-%d" % n, fn="counted", args=dict(n=n), opts=BV,
                      bounds="%d states numbered from 0, every particle number from -2" % n))
for cont in ("list", "array", "tuple"):
    CASES.append(dict(name="history-" + cont, fn="history", args=dict(bits=16, cont=cont), opts=BV,
                      bounds="five spaces over three states < 16, asked twice each, results changed in between"))
for tag, groups, order in (("8", [(range(8), -1)], "up"), ("10-4", [(range(10), 4)], "down"), ("30-1", [(range(0, 60, 2), 1)], "down"),
                           ("30-29", [(range(0, 60, 2), 29)], "up"), ("6+6", [(range(0, 12, 2), 2), (range(1, 12, 2), 3)], "down"),
                           ("2x6", [((2 * k + 1, 2 * k), 1) for k in range(6)], "up"), ("5+4", [(range(4, 9), -1), (range(4), 2)], "up"),
                           ("12-6", [(range(12), 6)], "up"), ("17-2", [(range(17), 2)], "down")):
    CASES.append(dict(name="lifted-" + tag, fn="lifted", args=dict(groups=[(tuple(p), n) for p, n in groups], order=order), opts=BV,
                      bounds="states %s (and particle numbers) above every lowest state that fits 64 bits" % groups))
