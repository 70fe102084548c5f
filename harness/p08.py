"""P08: only valid Hilbert-space specifications are accepted, and consistently."""
import HamiltonianPy.hilbertspace as module
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace, base_vectors


def wrap(kind, s):
    return set(s) if kind == "set" else tuple(s) if kind == "tuple" else list(s)


def outcomes(ctx, simple_args, spec):
    """the three interfaces on one specification"""
    return (ctx.outcome(lambda: SimpleHilbertSpace(*simple_args)), ctx.outcome(lambda: HilbertSpace(spec)),
            ctx.outcome(lambda: base_vectors(spec)))


def agree(ctx, outs, valid):
    for o, name in zip(outs, ("simple class", "class", "function")):
        if o.ok:
            ctx.check(valid, name + ": accepted although invalid")
        else:
            ctx.check(o.raised(ValueError), name + ": only ValueError")
            ctx.check(ctx.not_(valid), name + ": rejected although valid")


def predicate(ctx, spec, valid):
    """the stand-alone predicate, while the module has one"""
    f = getattr(module, "is_valid_subspace_specifier", None)
    if f is not None:
        ctx.check(ctx.iff(f(spec), valid), "predicate")


def standard(ctx, outs, states, num, ordered=True):
    simple, hs, _ = outs
    forms = []
    if simple.ok:
        s = simple.value
        forms.append((s.single_particle_states, s.particle_number))
        ctx.check(s.state_number == len(states), "state_number")
    if hs.ok:
        ctx.check(hs.value.subspace_number == 1, "subspace_number")
        forms.append(tuple(hs.value.subspace_specifiers[0]))
    for got, p in forms:
        ctx.check(isinstance(got, tuple), "states reported as a tuple")
        ctx.check(len(got) == len(states), "number of states")
        ctx.check(p == num, "particle number")
        for i, g in enumerate(got):
            ctx.check(g == states[i] if ordered else ctx.any([g == s for s in states]), "states")


def integer(ctx):
    n = ctx.int("n", -3, 6)
    outs = outcomes(ctx, (n,), n)
    agree(ctx, outs, n > 0)
    predicate(ctx, n, n > 0)
    if outs[1].ok:
        standard(ctx, outs, list(range(ctx.concrete(n))), -1)
    p = ctx.int("p", -3, 8)
    outs = outcomes(ctx, (n, p), [n, p])
    agree(ctx, outs, ctx.all([n > 0, p <= n]))
    predicate(ctx, [n, p], ctx.all([n > 0, p <= n]))
    if outs[1].ok:
        standard(ctx, outs, list(range(ctx.concrete(n))), p)


def collection(ctx, size, kind, outer):
    s = ctx.int_vec("s", size, -2, 70 if size else 0)
    p = ctx.int("p", -2, size + 2)
    if kind == "set":
        for i in range(size):
            for j in range(i):
                ctx.assume(s[i] != s[j])
    states = wrap(kind, s)
    spec = (states, p) if outer == "tuple" else [states, p]
    simple = ctx.outcome(lambda: SimpleHilbertSpace(states, p))
    hs = ctx.outcome(lambda: HilbertSpace(spec))
    fn = ctx.outcome(lambda: base_vectors(spec, container="list"))
    distinct = ctx.all([s[i] != s[j] for i in range(size) for j in range(i)])
    valid = ctx.all([size > 0, distinct, p <= size] + [x >= 0 for x in s])
    agree(ctx, (simple, hs, fn), valid)
    predicate(ctx, spec, valid)
    standard(ctx, (simple, hs, fn), s, p, ordered=kind != "set")


def several(ctx, sizes, ints, hi=9):
    """overlapping subspaces are rejected by both interfaces"""
    groups = [ctx.int_vec("g%ds" % g, n, 0, hi) for g, n in enumerate(sizes)]
    for s in groups:
        for i in range(len(s)):
            for j in range(i):
                ctx.assume(s[i] != s[j])
    nums = [ctx.int("g%dn" % g, -1 if hi > 5 else 1, n) for g, n in enumerate(sizes)]
    specs = [(tuple(s), n) for s, n in zip(groups, nums)]
    if ints:
        m = ctx.int("m", 1, 3)
        specs.insert(ctx.choice("where", range(len(specs) + 1)), m)
    overlap = ctx.any([x == y for i in range(len(groups)) for j in range(i) for x in groups[i] for y in groups[j]])
    if ints:
        overlap = ctx.any([overlap] + [x < m for s in groups for x in s])
    hs = ctx.outcome(lambda: HilbertSpace(*specs))
    fn = ctx.outcome(lambda: base_vectors(*specs, container="list"))
    for o, name in ((hs, "class"), (fn, "function")):
        if o.ok:
            ctx.check(ctx.not_(overlap), name + ": overlap accepted")
        else:
            ctx.check(o.raised(ValueError), name + ": only ValueError")
            ctx.check(overlap, name + ": disjoint subspaces rejected")
    if hs.ok:
        ctx.check(hs.value.subspace_number == len(specs), "subspace_number")
        if not ints:
            for (states, p), s, n in zip(hs.value.subspace_specifiers, groups, nums):
                ctx.check(ctx.all([len(states) == len(s), p == n] + [a == b for a, b in zip(states, s)]),
                          "standard form")


BAD = [("string", "4"), ("none", None), ("float", 4.0), ("empty", ()), ("one", (4,)), ("three", (4, 2, 1)),
       ("float-number", (4, 2.0)), ("string-number", (4, "2")), ("none-number", (4, None)),
       ("float-number-list", ((0, 1, 2), 1.0)), ("string-number-list", [(0, 1, 2), "1"]),
       ("none-number-list", [(0, 1, 2), None]), ("string-states", ("ab", 1)), ("float-states", ((0, 1.0), 1)),
       ("string-state", ((0, "1"), 1)), ("none-state", ((0, None), 1)), ("nested", (((0, 1), 2), 1)),
       ("dict-states", ({0: 1}, 1)), ("range", (range(3), 1)), ("repeated", ((3, 3), 1)), ("repeated-list", [[1, 0, 1], -1]),
       ("negative", ((0, -1), 1)), ("zero", (0, 0)), ("no-states", ((), 0)), ("no-states-list", ([], -1))]


def malformed(ctx, name):
    """wrong kinds of specification, alone and next to a valid one"""
    spec = dict(BAD)[name]
    k = ctx.int("k", 90, 95)
    predicate(ctx, spec, False)
    for args in ((spec,), ((tuple([k]), 1), spec), (spec, [[k], -1])):
        ctx.raises(ValueError, lambda: HilbertSpace(*args), label="class")
        ctx.raises(ValueError, lambda: base_vectors(*args, container="list"), label="function")
    if isinstance(spec, (tuple, list)) and len(spec) == 2:
        ctx.raises(ValueError, lambda: SimpleHilbertSpace(*spec), label="simple class")
    elif not isinstance(spec, (tuple, list)):
        ctx.raises(ValueError, lambda: SimpleHilbertSpace(spec), label="simple class")


CASES = [dict(name="integer", fn="integer", bounds="states -3..6, particle number -3..8")]
for size in (0, 1, 2, 3):
    for kind in ("tuple", "list", "set"):
        for outer in ("tuple", "list"):
            CASES.append(dict(name="collection-%d-%s-%s" % (size, kind, outer), fn="collection",
                              args=dict(size=size, kind=kind, outer=outer), opts=dict(budget=40),
                              bounds="%d states in -2..70, particle number -2..%d" % (size, size + 2)))
for sizes in ((1, 1), (2, 1), (1, 1, 1), (2, 2)):
    CASES.append(dict(name="several-" + "x".join(map(str, sizes)), fn="several", args=dict(sizes=sizes, ints=False),
                      opts=dict(budget=40), bounds="states 0..9, every particle number"))
for sizes in ((1,), (1, 1)):
    CASES.append(dict(name="several-int-" + "x".join(map(str, sizes)), fn="several", args=dict(sizes=sizes, ints=True, hi=9 if len(sizes) == 1 else 4),
                      opts=dict(budget=40), bounds="a subspace of 1..3 numbered states next to states 0..9 (0..4)"))
CASES += [dict(name="malformed-" + n, fn="malformed", args=dict(name=n), bounds="fixed malformed specification next to "
               "any valid one") for n, _ in BAD]
