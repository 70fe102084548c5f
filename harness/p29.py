"""P29: permutation and combination counts are exact integers."""
from math import comb, factorial, perm

from HamiltonianPy.tools.PandC import Combination, Permutation


def exact(ctx, o, want, label):
    ctx.check(o.ok, label + ": no exception")
    if o.ok:
        ctx.check(isinstance(o.value, int), label + ": an integer")
        ctx.check(o.value == want, label)


def counts(ctx, k, hi, how):
    """n is symbolic, k as named"""
    n = ctx.int("n", k, hi)
    kw = {} if how == "default" else dict(repeat=False)
    exact(ctx, ctx.outcome(lambda: Permutation(n, k, **kw)), perm(n, k), "permutations")
    exact(ctx, ctx.outcome(lambda: Combination(n, k, **kw)), comb(n, k), "combinations")


def repeated(ctx, k, hi):
    n = ctx.int("n", max(k, 1), hi)
    exact(ctx, ctx.outcome(lambda: Permutation(n, k, repeat=True)), n ** k, "permutations with repetition")
    exact(ctx, ctx.outcome(lambda: Combination(n, k, repeat=True)), comb(n + (k - 1), k), "combinations with repetition")


def recurrence(ctx, hi):
    """Pascal's rule, n and k both arbitrary"""
    n, k = ctx.int("n", 1, hi), ctx.int("k", 1, hi)
    ctx.assume(k < n)
    k = ctx.concrete(k)
    ctx.check(Combination(n, k) == Combination(n - 1, k - 1) + Combination(n - 1, k), "Pascal's rule")
    ctx.check(Permutation(n, k) == Permutation(n, k - 1) * (n - k + 1), "falling factorial")
    ctx.check(Permutation(n, k) == Combination(n, k) * factorial(k), "permutations are orderings of combinations")


def wrong(ctx):
    n, k = ctx.int("n", -3, 6), ctx.int("k", -3, 8)
    valid = ctx.all([n >= 0, k >= 0, k <= n])
    for f in (Permutation, Combination):
        o = ctx.outcome(lambda: f(n, k))
        if o.ok:
            ctx.check(valid, "accepted only valid counts")
        else:
            ctx.check(ctx.all([o.raised(AssertionError), ctx.not_(valid)]), "rejected only invalid counts")


CASES = []
for k in range(0, 31):
    tier = {} if k <= 16 or k in (20, 25) else {"tier": "thorough"}
    CASES.append(dict(name="counts-%d" % k, fn="counts", args=dict(k=k, hi=40, how="default" if k % 3 else "keyword"),
                      opts=dict(budget=60, fp_div=True), bounds="%d <= n <= 40" % k, **tier))
    if k <= 12 or tier:
        CASES.append(dict(name="repeated-%d" % k, fn="repeated", args=dict(k=k, hi=30), opts=dict(budget=60, fp_div=True),
                          bounds="%d <= n <= 30" % k, **tier))
for k, hi in ((1, 150), (2, 150), (3, 150), (6, 150), (10, 150), (18, 80)):
    CASES.append(dict(name="many-%d" % k, fn="counts", args=dict(k=k, hi=hi, how="default"), opts=dict(budget=60, fp_div=True),
                      bounds="%d <= n <= %d" % (k, hi)))
CASES.append(dict(name="recurrence", fn="recurrence", args=dict(hi=12), opts=dict(budget=60, fp_div=True),
                  bounds="1 <= k < n <= 12"))
CASES.append(dict(name="wrong", fn="wrong", opts=dict(budget=60), bounds="n in -3..6, k in -3..8"))
