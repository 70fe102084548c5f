"""P28: term factories build exactly the documented operator strings."""
from HamiltonianPy.quantumoperator.constant import ANNIHILATION, CREATION, SPIN_DOWN, SPIN_UP
from HamiltonianPy.quantumoperator.factory import (Annihilator, CPFactory, CoulombFactory, Creator, HeisenbergFactory,
                                                   HoppingFactory, HubbardFactory, IsingFactory, PairingFactory,
                                                   TwoSpinTermFactory)
from HamiltonianPy.quantumoperator.particlesystem import AoC, ParticleTerm
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction, SpinOperator

C, A = CREATION, ANNIHILATION


def site(ctx, name, d):
    x = ctx.grid_vec(name, d, -2, 2, 4)
    return ctx.choice(name + "kind", [tuple, list])(x) if d == 2 else x


def coeff(ctx, kind):
    return {"real": ctx.real, "complex": ctx.complex, "int": ctx.int}[kind]("c", -5, 5)


def optional(ctx, kw, key, name, hi=2):
    """maybe pass the keyword; -> its value or None when left out"""
    if not ctx.choice(name + "?", [True, False]):
        return None
    v = ctx.int(name, 0, hi)
    kw[key] = v
    return v


def default(v, d):
    return d if v is None else v


def same_op(ctx, o, otype, x, spin, orbit, label):
    ctx.check(isinstance(o, AoC), label + ": a creation/annihilation operator")
    ctx.check(o.otype == otype, label + ": type")
    ctx.check(ctx.all([a == b for a, b in zip(o.coordinate, x)]), label + ": site")
    ctx.check(len(o.coordinate) == len(x), label + ": dimension")
    ctx.check(o.spin == spin, label + ": spin")
    ctx.check(o.orbit == orbit, label + ": orbit")


def term(ctx, t, ops, c, classes, label):
    ctx.check(isinstance(t, ParticleTerm), label + ": a particle term")
    ctx.check(len(t.components) == len(ops), label + ": number of operators")
    for o, want in zip(t.components, ops):
        same_op(ctx, o, *want, label)
    ctx.eq(t.coeff, c, label + ": coefficient")
    ctx.check(t.classification in classes, label + ": classification")
    ctx.check(t.check_compatibility(), label + ": compatible")


def single(ctx, d):
    x = site(ctx, "x", d)
    for f, otype in ((Creator, C), (Annihilator, A)):
        kw = {}
        s, o = optional(ctx, kw, "spin", "spin%d" % otype), optional(ctx, kw, "orbit", "orbit%d" % otype)
        same_op(ctx, f(x, **kw), otype, x, default(s, 0), default(o, 0), f.__name__)
    s, o = ctx.int("s", 0, 3), ctx.int("o", 0, 3)
    same_op(ctx, Creator(x, s, o), C, x, s, o, "positional creator")
    same_op(ctx, Annihilator(x, s, o), A, x, s, o, "positional annihilator")


def cp(ctx, d, ck):
    x, kw = site(ctx, "x", d), {}
    s, o = optional(ctx, kw, "spin", "s"), optional(ctx, kw, "orbit", "o")
    c = 1
    if ctx.choice("c?", [True, False]):
        c = kw["coeff"] = coeff(ctx, ck)
    s, o = default(s, 0), default(o, 0)
    term(ctx, CPFactory(x, **kw), [(C, x, s, o), (A, x, s, o)], c, ("number", "general"), "number")


def hopping(ctx, d, ck):
    x, y, kw = site(ctx, "x", d), site(ctx, "y", d), {}
    s0, s1 = optional(ctx, kw, "spin0", "s0"), optional(ctx, kw, "spin1", "s1")
    o0, o1 = optional(ctx, kw, "orbit0", "o0"), optional(ctx, kw, "orbit1", "o1")
    c = 1
    if ctx.choice("c?", [True, False]):
        c = kw["coeff"] = coeff(ctx, ck)
    s0, o0 = default(s0, 0), default(o0, 0)
    s1, o1 = default(s1, s0), default(o1, o0)
    t = HoppingFactory(x, y, **kw)
    term(ctx, t, [(C, x, s0, o0), (A, y, s1, o1)], c, ("hopping", "number", "general"), "hopping")
    coincide = ctx.all([a == b for a, b in zip(x, y)] + [s0 == s1, o0 == o1])
    ctx.check(ctx.iff(t.classification == "number", coincide), "a number term exactly when the states coincide")


def near(ctx, d):
    """coordinates which differ below the precision are those of one state"""
    x, y = ([ctx.grid(n, -8 / 32768, 8 / 32768, 32768)] + [0.5] * (d - 1) for n in "xy")
    s0, s1 = ctx.int("s0", 0, 1), ctx.int("s1", 0, 1)
    c = ctx.complex("c", -5, 5)
    t = HoppingFactory(x, y, spin0=s0, spin1=s1, coeff=c)
    term(ctx, t, [(C, x, s0, 0), (A, y, s1, 0)], c, ("hopping", "number", "general"), "hopping")
    ctx.check(ctx.iff(t.classification == "number", AoC(C, x, s0).same_state(AoC(A, y, s1))),
              "a number term exactly when the states coincide")


def pairing(ctx, d, ck, which):
    x, y, kw = site(ctx, "x", d), site(ctx, "y", d), {}
    vals = [default(optional(ctx, kw, k, k), 0) for k in ("spin0", "spin1", "orbit0", "orbit1")]
    if which is not None:
        kw["which"] = which
    c = 1
    if ctx.choice("c?", [True, False]):
        c = kw["coeff"] = coeff(ctx, ck)
    s0, s1, o0, o1 = vals
    ot = C if which in ("p", "particle") else A
    term(ctx, PairingFactory(x, y, **kw), [(ot, x, s0, o0), (ot, y, s1, o1)], c, ("general",), "pairing")


def hubbard(ctx, d, ck):
    x, kw = site(ctx, "x", d), {}
    o = default(optional(ctx, kw, "orbit", "o"), 0)
    c = 1
    if ctx.choice("c?", [True, False]):
        c = kw["coeff"] = coeff(ctx, ck)
    U, D = SPIN_UP, SPIN_DOWN
    ctx.check(U != D, "spin up differs from spin down")
    term(ctx, HubbardFactory(x, **kw), [(C, x, U, o), (A, x, U, o), (C, x, D, o), (A, x, D, o)], c,
         ("Coulomb", "general"), "Hubbard")


def coulomb(ctx, d, ck):
    x, y, kw = site(ctx, "x", d), site(ctx, "y", d), {}
    vals = [default(optional(ctx, kw, k, k), 0) for k in ("spin0", "spin1", "orbit0", "orbit1")]
    c = 1
    if ctx.choice("c?", [True, False]):
        c = kw["coeff"] = coeff(ctx, ck)
    s0, s1, o0, o1 = vals
    term(ctx, CoulombFactory(x, y, **kw), [(C, x, s0, o0), (A, x, s0, o0), (C, y, s1, o1), (A, y, s1, o1)], c,
         ("Coulomb", "general"), "Coulomb")


def same_spin(ctx, t, pairs, c, label):
    """pairs = [(type, site), (type, site)] as documented; kept sorted by site"""
    ctx.check(isinstance(t, SpinInteraction), label + ": an interaction")
    ctx.check(len(t.components) == 2, label + ": two operators")
    ctx.eq(t.coeff, c, label + ": coefficient", 1e-12)
    a, b = [SpinOperator(ot, x) for ot, x in pairs]
    p, q = t.components
    swap = b.site_id < a.site_id
    ctx.check(ctx.implies(swap, ctx.all([p == b, q == a])), label + ": operators (second site first)")
    ctx.check(ctx.implies(ctx.not_(swap), ctx.all([p == a, q == b])), label + ": operators")


def spin_terms(ctx, which, d, ck):
    x, y, kw = site(ctx, "x", d), site(ctx, "y", d), {}
    c = 1
    if ctx.choice("c?", [True, False]):
        c = kw["coeff"] = coeff(ctx, ck)
    if which == "heisenberg":
        ts = HeisenbergFactory(x, y, **kw)
        ctx.check(len(ts) == 3, "three terms")
        for t, (a, b, f) in zip(ts, (("z", "z", 1), ("p", "m", 2), ("m", "p", 2))):
            same_spin(ctx, t, [(a, x), (b, y)], c / f, "Heisenberg " + a + b)
    elif which == "ising":
        a = ctx.choice("alpha", ["x", "y", "z"])
        same_spin(ctx, IsingFactory(x, y, a, **kw), [(a, x), (a, y)], c, "Ising")
        for bad in ("p", "m", "w"):
            ctx.raises(AssertionError, lambda: IsingFactory(x, y, bad, **kw), label="Ising type")
    else:
        a, b = ctx.choice("alpha", ["x", "y", "z"]), ctx.choice("beta", ["x", "y", "z"])
        same_spin(ctx, TwoSpinTermFactory(x, y, a, b, **kw), [(a, x), (b, y)], c, "two-spin term")


CASES = []
B = "sites k/4 in [-2,2]^%d, spins and orbits 0..2 or left out, coefficient in [-5,5] or left out"
for d in (1, 2, 3):
    CASES.append(dict(name="single-%d" % d, fn="single", args=dict(d=d), bounds=B % d))
    for ck in (("complex",) if d != 2 else ("complex", "real", "int")):
        for f in ("cp", "hopping", "hubbard", "coulomb"):
            CASES.append(dict(name="%s-%d-%s" % (f, d, ck), fn=f, args=dict(d=d, ck=ck), bounds=B % d))
        for w in ("heisenberg", "ising", "twospin"):
            CASES.append(dict(name="%s-%d-%s" % (w, d, ck), fn="spin_terms", args=dict(which=w, d=d, ck=ck), bounds=B % d))
    CASES.append(dict(name="near-%d" % d, fn="near", args=dict(d=d), bounds="sites 2^-15 apart, several in one cell of the precision"))
    for w in (None, "h", "hole", "p", "particle"):
        CASES.append(dict(name="pairing-%d-%s" % (d, w), fn="pairing", args=dict(d=d, ck="complex", which=w), bounds=B % d))
