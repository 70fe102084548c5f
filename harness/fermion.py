"""Shared pieces of the fermion harnesses: symbolic index tables, bases and the Jordan-Wigner oracle."""
import numpy as np
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.constant import CREATION
from HamiltonianPy.quantumoperator.particlesystem import AoC
from HamiltonianPy.quantumoperator.quantumstate import StateID


class Table(IndexTable):
    """an index table whose indices are chosen by the harness"""

    def __init__(self, states, indices):
        IndexTable.__init__(self, states)
        self._chosen = list(zip(states, indices))

    def query_index(self, key):
        if not isinstance(key, StateID):
            raise TypeError("not a state")
        for s, i in self._chosen:
            if s == key:
                return i
        raise KeyError(key)

    __call__ = query_index

    def query_object(self, index):
        for s, i in self._chosen:
            if i == index:
                return s
        raise KeyError(index)


def state(k):
    return StateID([k, 0], k % 2, k // 3)


def op(otype, k):
    return AoC(otype, [k, 0], k % 2, k // 3)


def indices(ctx, n, bits, lo=0):
    return [ctx.bint("i%d" % k, lo, bits - 1) for k in range(n)]


def distinct(ctx, xs):
    for i in range(len(xs)):
        for j in range(i):
            ctx.assume(xs[i] != xs[j])


def basis(ctx, name, d, bits):
    vs = [ctx.u64("%s%d" % (name, i), bits) for i in range(d)]
    for a, b in zip(vs, vs[1:]):
        ctx.assume(a < b)
    return vs


def arr(vs):
    return np.array(vs, dtype=np.uint64)


def bit(v, i):
    """bit i of v"""
    return ((v >> i) & 1) == 1


def apply(ctx, ops, v, bits):
    """
    Jordan-Wigner action of the product `ops` = [(index, otype), ...] (leftmost first) on the occupation
    integer v: (alive, image, odd), the three possibly symbolic.
    """
    alive, odd = True, False
    for idx, otype in reversed(ops):
        occ = bit(v, idx)
        alive = ctx.all([alive, ctx.not_(occ) if otype == CREATION else occ])
        for pos in range(bits):
            c = ctx.all([bit(v, pos), pos < idx])
            odd = ctx.any([ctx.all([odd, ctx.not_(c)]), ctx.all([ctx.not_(odd), c])])
        v = v ^ (1 << idx)
    return alive, v, odd


def spec_matrix(ctx, ops, right, left, bits, M, coeff, label, tol=0):
    """obligations: M is coeff times the JW matrix; returns nothing"""
    ctx.check(M.shape == (len(left), len(right)), label + ": shape")
    D = M.toarray()
    for j in range(len(right)):
        alive, img, odd = apply(ctx, ops, right[j], bits)
        for r in range(len(left)):
            hit = ctx.all([alive, left[r] == img])
            v = D[r, j]
            ctx.check(ctx.all([
                ctx.implies(ctx.not_(hit), ctx.close(v, 0)),
                ctx.implies(ctx.all([hit, odd]), ctx.close(v, -1 * coeff, tol)),
                ctx.implies(ctx.all([hit, ctx.not_(odd)]), ctx.close(v, coeff, tol))]), label + ": entry")


def image_missing(ctx, ops, right, left, bits):
    out = []
    for j in range(len(right)):
        alive, img, _ = apply(ctx, ops, right[j], bits)
        out.append(ctx.all([alive, ctx.not_(ctx.any([l == img for l in left]))]))
    return ctx.any(out)


def check_matrix(ctx, call, ops, right, left, bits, coeff, label):
    """call() -> matrix, or KeyError exactly when an image is missing"""
    o = ctx.outcome(call)
    miss = image_missing(ctx, ops, right, left, bits)
    if o.ok:
        ctx.check(ctx.not_(miss), label + ": returned although an image is missing")
        spec_matrix(ctx, ops, right, left, bits, o.value, coeff, label)
    else:
        ctx.check(o.raised(KeyError), label + ": only KeyError is raised")
        ctx.check(miss, label + ": KeyError although every image is present")
    return o


class Lifted:
    """
    many basis vectors: the complete space (or a number sector) of the n states shift .. shift+n-1, everything
    below and above them an arbitrary constant background
    """

    def __init__(self, ctx, n, number, shift):
        self.ctx, self.n, self.number, self.shift = ctx, n, number, shift
        self.patterns = [p for p in range(2 ** n) if number is None or bin(p).count("1") == number]
        self.lo = ctx.u64("lo", shift) if shift else 0
        self.hi = ctx.u64("hi", 64 - shift - n) if shift + n < 64 else 0

    def vectors(self, patterns):
        return arr([self.ctx.pack((self.lo, self.shift), (p, self.n), (self.hi, 64 - self.shift - self.n))
                    for p in patterns])

    def check(self, call, otypes, places, c, wide=False, csr=False, label=""):
        """call(right_bases=.., left_bases=.., to_csr=..) is c times the product of the operators at the places"""
        ctx = self.ctx
        gain = sum(1 if o == CREATION else -1 for o in otypes)
        rows, kw = self.patterns, {}
        if wide or (self.number is not None and gain):
            rows = [p for p in range(2 ** self.n) if wide or bin(p).count("1") == self.number + gain]
            kw = {"left_bases": self.vectors(rows)}
        flips = False
        if len(otypes) % 2:
            for pos in range(self.shift):
                b = bit(self.lo, pos)
                flips = ctx.any([ctx.all([flips, ctx.not_(b)]), ctx.all([b, ctx.not_(flips)])])
        want = {}
        for j, p in enumerate(self.patterns):
            odd, alive = 0, True
            for o, k in reversed(list(zip(otypes, places))):
                alive = alive and (p >> k) % 2 == (o != CREATION)
                odd += bin(p % 2 ** k).count("1")
                p ^= 1 << k
            if alive:
                want[j] = rows.index(p), odd % 2

        def entry(e, odd):
            sign = ctx.not_(flips) if odd else flips
            return ctx.all([ctx.implies(sign, ctx.close(e, -1 * c)), ctx.implies(ctx.not_(sign), ctx.close(e, c))])
        out = call(right_bases=self.vectors(self.patterns), to_csr=csr, **kw)
        if csr:
            ctx.check(out.shape == (len(rows), len(self.patterns)), label + "shape")
            D = out.toarray()
            for j in range(len(self.patterns)):
                i, odd = want.get(j, (None, 0))
                ctx.check(ctx.all([entry(D[r, j], odd) if r == i else ctx.close(D[r, j], 0)
                                   for r in range(len(rows))]), label + "column")
            return
        entries, (row, col) = out
        ctx.check(len(entries) == len(row) == len(col) == len(want), label + "number of entries")
        for e, r, j in zip(entries, row, col):
            j = ctx.concrete(j)
            ctx.check(j in want, label + "surviving column")
            i, odd = want.pop(j)
            ctx.check(ctx.all([r == i, entry(e, odd)]), label + "entry")
