"""Shared pieces of the lattice harnesses."""
from fractions import Fraction

import numpy as np

from HamiltonianPy.lattice import Lattice, lattice_generator, special_cluster

SQ3 = 3 ** 0.5

# name -> (points, vectors): clusters which are not in the database
CUSTOM = {
    "skew": ([[0.0, 0.0], [0.5, 0.25]], [[1.0, 0.0], [3.0, 1.0]]),
    "skew1": ([[0.0, 0.0]], [[1.0, 0.0], [-4.0, 1.0]]),
    "flat": ([[0.0, 0.0], [1.0, 0.0]], [[2.0, 0.0], [0.0, 0.25]]),
    "spread": ([[0.0, 0.0], [5.0, 3.0]], [[2.0, 0.0], [0.0, 2.0]]),
    "ladder": ([[0.0, 0.0], [0.0, 1.0]], [[1.0, 0.0]]),
    "wire": ([[0.0, 0.0, 0.0], [0.0, 0.5, 0.25]], [[1.0, 1.0, 0.0]]),
    "layer": ([[0.0, 0.0, 0.0], [0.5, 0.5, 0.75]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]),
    "bcc": ([[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
    "fcc": ([[0.0, 0.0, 0.0]], [[0.0, 0.5, 0.5], [0.5, 0.0, 0.5], [0.5, 0.5, 0.0]]),
    # coordinates which are not exact binary fractions: sums and differences of them are rounded
    "tenth": ([[0.1 * i] for i in range(5)], [[0.5]]),
    "tenth4": ([[0.1 * i] for i in range(4)], [[0.4]]),
    "tenths": ([[0.1, 0.2], [0.3, 0.7], [0.6, 0.1]], [[0.7, 0.0], [0.1, 0.9]]),
    "ortho1": ([[0.0, 0.0, 0.0]], [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 3.0]]),
    "ortho2": ([[0.0, 0.0, 0.0]], [[2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 3.0]]),
    "ortho3": ([[0.0, 0.0, 0.0]], [[3.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 1.0]]),
    "triclinic": ([[0.0, 0.0, 0.0], [0.5, 0.5, 0.75]], [[1.0, 0.0, 0.0], [0.25, 1.5, 0.0], [0.125, 0.5, 1.25]]),
    "slab": ([[0.0, 0.0, 0.0], [0.0, 0.0, 0.75]], [[0.0, 1.0, 0.5], [1.5, 0.25, 0.0]]),
    "dimer": ([[0.0], [0.75]], [[2.0]]),
    # coordinates which are given as integers
    "ichain": ([[0], [1]], [[3]]),
    "isquare": ([[0, 0], [1, 0], [1, 1]], [[2, 0], [0, 3]]),
    "mixed": ([[0.0], [0.25], [0.625]], [[1]]),
    "mixed2": ([[0.0, 0.0], [0.5, 0.25]], [[1, 0], [0, 2]]),
    "mixed3": ([[0, 0], [1, 0]], [[1.5, 0.25], [0.0, 2.5]]),
    "iskew": ([[0, 0], [1, 2]], [[2, 1], [-1, 3]]),
}


def make(which, size=None):
    if which in CUSTOM:
        p, v = CUSTOM[which]
        return Lattice(np.array(p), np.array(v), name=which)
    if size is not None:
        return lattice_generator(which, *size)
    return special_cluster(which)


def use_another(lat):
    """put every question to another lattice of the same shape"""
    other = Lattice(0.75 * lat.points + 0.125, 1.5 * lat.vectors, name=lat.name)
    other.neighbor_distance(2)
    other.bonds(1, fold=True)
    other.getIndex(other.points[-1] + other.vectors[0], fold=True)
    other.in_cluster(other.points[0])
    return other


def combine(t, vectors, m):
    """integer combination of the translation vectors (componentwise, so that it may be symbolic)"""
    r = []
    for j in range(m):
        s = 0
        for ti, v in zip(t, vectors):
            s = s + ti * float(v[j])
        r.append(s)
    return r


def add(u, v):
    return [a + b for a, b in zip(u, v)]


def floats(a):
    return [[float(x) for x in row] for row in a]
