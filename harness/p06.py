"""P06: normal ordering."""
import HamiltonianPy.quantumoperator.particlesystem as P
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION
from HamiltonianPy.quantumoperator.particlesystem import AoC, ParticleTerm

SwapError = getattr(P, "SwapFermionError", Exception)


def normal(ctx, types, hi, full=False, container=list, given=None):
    n = len(types)
    if given is not None:
        # most operators at given distances from one symbolic site, None: anywhere
        b = ctx.int("b", -20, 20)
        ops = [AoC(t, [b + k if k is not None else b + ctx.int("x%d" % i, 0, hi)]) for i, (t, k) in enumerate(zip(types, given))]
    elif full:
        ops = [AoC(t, [ctx.int("x%d" % i, 0, hi)], ctx.int("s%d" % i, 0, 1), ctx.int("o%d" % i, 0, 1))
               for i, t in enumerate(types)]
    else:
        ops = [AoC(t, [ctx.int("x%d" % i, 0, hi)]) for i, t in enumerate(types)]
    seq = container(ops)
    bad = ctx.any([ops[i].state == ops[j].state for i in range(n) for j in range(i + 1, n)
                   if types[i] == ANNIHILATION and types[j] == CREATION])
    o = ctx.outcome(ParticleTerm.normalize, seq)
    ctx.check(len(seq) == n and all(a is b for a, b in zip(seq, ops)), "given sequence unchanged")
    if not o.ok:
        ctx.check(o.raised(SwapError), "swap error")
        ctx.check(bad, "swap error although no annihilation has to pass its own creation")
        return
    ctx.check(ctx.not_(bad), "annihilation moved past the creation of the same state")
    res, swaps = o.value
    res = list(res)
    ctx.check(len(res) == n, "length")
    # the required order
    nc = sum(1 for t in types if t == CREATION)
    for k, a in enumerate(res):
        ctx.check(a.otype == (CREATION if k < nc else ANNIHILATION), "creations first")
    for k in range(n - 1):
        if k + 1 < nc:
            ctx.check(res[k].state <= res[k + 1].state, "creations ascend")
        elif k >= nc:
            ctx.check(res[k].state >= res[k + 1].state, "annihilations descend")
    # a permutation
    for i in range(n):
        ctx.check(ctx.count([r == ops[i] for r in res]) == ctx.count([p == ops[i] for p in ops]), "permutation")
    # parity: number of pairs out of order; with a repeated operator the product is zero
    inv = []
    for i in range(n):
        for j in range(i + 1, n):
            if types[i] != types[j]:
                if types[i] == ANNIHILATION:
                    inv.append(True)
            elif types[i] == CREATION:
                inv.append(ops[i].state > ops[j].state)
            else:
                inv.append(ops[i].state < ops[j].state)
    repeated = ctx.any([ops[i].state == ops[j].state for i in range(n) for j in range(i) if types[i] == types[j]])
    odd = False
    for c in inv:
        odd = ctx.any([ctx.all([odd, ctx.not_(c)]), ctx.all([ctx.not_(odd), c])])
    ctx.check(swaps >= 0, "count is not negative")
    ctx.check(ctx.any([repeated, ctx.iff(swaps % 2 == 1, odd)]), "parity of the swap count")


CASES = []


def seqs(n):
    return [[CREATION if m >> i & 1 else ANNIHILATION for i in range(n)] for m in range(2 ** n)]


def label(ts):
    return "".join("C" if t == CREATION else "A" for t in ts)


for n in (1, 2, 3, 4):
    for ts in seqs(n):
        CASES.append(dict(name="order-" + label(ts), fn="normal", args=dict(types=ts, hi=3), opts=dict(budget=30),
                          bounds="%d operators, states 0..3" % n))
for ts in ([CREATION, ANNIHILATION, CREATION], [ANNIHILATION, ANNIHILATION], [CREATION, CREATION],
           [ANNIHILATION, CREATION]):
    CASES.append(dict(name="order-full-" + label(ts), fn="normal", args=dict(types=ts, hi=1, full=True),
                      opts=dict(budget=30), bounds="%d operators, site, spin and orbit in 0..1" % len(ts)))
    CASES.append(dict(name="order-tuple-" + label(ts), fn="normal", args=dict(types=ts, hi=3, container=tuple),
                      bounds="given as a tuple"))
C, A = CREATION, ANNIHILATION
for ts in ([C, A, C, A, C], [A, A, C, C, A], [A, C, A, C, A], [C, C, C, C, C], [A, A, A, A, A], [A, A, A, C, C]):
    CASES.append(dict(name="order-" + label(ts), fn="normal", args=dict(types=ts, hi=4), tier="thorough",
                      opts=dict(tbudget=1200), bounds="5 operators, states 0..4"))

for ts, given in (([C, A] * 4, [3, 5, 6, 7, 1, 2, 4, 0]), ([A, A, A, A, C, C, C, C], [0, 1, 2, 3, 7, 6, 5, 4]),
                  ([C, A, A, C, A, C, C, A, C, A], [9, 1, 8, 2, 7, 3, 6, 4, 5, 0]), ([A] * 9, [4, 1, 7, 0, 8, 3, 2, 6, 5]),
                  ([C] * 9, [4, 1, 7, 0, 8, 3, 2, 6, 5]), ([C, A] * 4, [3, None, 6, 7, 1, 2, 4, 0]),
                  ([A, C, C, A, C, A], [2, 5, None, 4, 1, 3]), ([C, A] * 6, [0, 11, 1, 10, 2, 9, 3, 8, 4, 7, 5, 6])):
    CASES.append(dict(name="long-%s-%s" % (label(ts), "".join("x" if k is None else "%x" % k for k in given)), fn="normal",
                      args=dict(types=ts, hi=len(ts), given=given), opts=dict(budget=60),
                      bounds="%d operators at %s from one symbolic site (None: anywhere)" % (len(ts), given)))
