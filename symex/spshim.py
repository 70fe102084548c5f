"""Symbolic counterparts of the scipy pieces: sparse matrices, k-d trees, distances."""

import operator

import numpy as np
import scipy.sparse as sp
import scipy.spatial as spat
import scipy.spatial.distance as spd
import z3

from . import core, npshim
from .core import (Sym, SymNum, SymBool, SymPInt, SymBV, SymComplex, Unsupported, engine, ite,
                   s_and, s_or, is_sym)
from .npshim import base, wrap, has_sym, really_sym, emap


def _iszero(v):
    if isinstance(v, Sym):
        if isinstance(v, SymNum):
            return v.n.is_zero()
        if isinstance(v, SymComplex):
            return core.x_iszero(v.re) and core.x_iszero(v.im)
        return False
    return v == 0


def _eq(a, b):
    """a == b as bool/SymBool"""
    r = (a == b)
    return r if isinstance(r, SymBool) else bool(r)


def _ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return ite(c, a, b)


class Rows:
    """the rows of a matrix at one moment; never changes"""
    __slots__ = ("make", "cache")

    def __init__(self, make):
        self.make = make
        self.cache = {}

    def __call__(self, r):
        if not isinstance(r, Sym):
            s = self.cache.get(r)
            if s is None:
                s = self.cache[r] = self.make(r)
            return s
        return self.make(r)


class LazyMat:
    """
    A matrix given by its rows: support(r) lists (col, value) pairs whose sum is
    row r.  Dimensions, row and column may be symbolic.
    """
    _lazy = True
    __array_ufunc__ = None
    __array_priority__ = 2000
    ndim = 2
    format = "csr"

    def __init__(self, shape, support, dtype=None):
        self.shape = shape
        self.support = support if isinstance(support, Rows) else Rows(support)
        self._dt = dtype

    # -- access -------------------------------------------------------------
    def entry(self, r, c):
        s = 0.0
        for col, v in self.support(r):
            k = _eq(col, c)
            if k is False:
                continue
            t = v if k is True else _ite(k, v, 0.0)
            s = t if (not isinstance(s, Sym) and s == 0) else s + t
        return s

    def dims(self):
        return tuple(int(d) for d in self.shape)

    def toarray(self, *a, **k):
        n, m = self.dims()
        r = np.empty((n, m), dtype=object)
        r[...] = 0.0
        for i in range(n):
            for col, v in self.support(i):
                if isinstance(col, Sym):
                    for j in range(m):
                        c = _eq(col, j)
                        if c is False:
                            continue
                        t = _ite(c, v, 0.0)
                        r[i, j] = t if (not is_sym(r[i, j]) and r[i, j] == 0) else r[i, j] + t
                else:
                    r[i, col] = v if (not is_sym(r[i, col]) and r[i, col] == 0) else r[i, col] + v
        w = wrap(r)
        if not really_sym(r):
            return npshim.try_concrete(w)
        return w

    todense = toarray

    @property
    def A(self): return self.toarray()

    def tocsr(self, *a, **k): return self
    tocsc = tocoo = tolil = asformat = tobsr = todia = tocsr
    def copy(self): return LazyMat(self.shape, self.support, self._dt)
    def eliminate_zeros(self): pass
    def sum_duplicates(self): pass
    def sort_indices(self): pass
    def prune(self): pass

    @property
    def dtype(self):
        return self._dt or np.dtype(float)

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        return self._map(lambda v: npshim.cast(v, dt) if dt.kind in "fc" else v, dt)

    @property
    def nnz(self):
        a = self.toarray()
        return int(sum(1 for x in base(a).ravel() if not _iszero(x)))

    def _map(self, f, dt=None):
        rows = self.support
        return LazyMat(self.shape, lambda r: [(c, f(v)) for c, v in rows(r)], dt or self._dt)

    def __getitem__(self, idx):
        if isinstance(idx, tuple) and len(idx) == 2 and not any(isinstance(i, (slice, list, np.ndarray)) for i in idx):
            return self.entry(*idx)
        return self.toarray()[idx]

    def getrow(self, i): return from_dense(base(self.toarray())[i:i + 1])
    def getcol(self, j): return from_dense(base(self.toarray())[:, j:j + 1])

    # -- arithmetic -----------------------------------------------------------
    def __neg__(self): return self._map(operator.neg)

    def _scal(self, o):
        if isinstance(o, (Sym, int, float, complex, np.number)):
            return self._map(lambda v: 0.0 if _iszero(v) else _mul(o, v))
        return None

    def __mul__(self, o):
        r = self._scal(o)
        if r is not None:
            return r
        return self.dot(o)

    def __imul__(self, o):
        r = self._scal(o)
        if r is None:
            return self.dot(o)
        self.support, self._dt = r.support, r._dt
        return self

    def __itruediv__(self, o):
        r = self / o
        if r is NotImplemented:
            return r
        self.support, self._dt = r.support, r._dt
        return self

    def __rmul__(self, o):
        r = self._scal(o)
        if r is not None:
            return r
        return self.__rmatmul__(o)

    def __truediv__(self, o):
        if isinstance(o, (Sym, int, float, complex, np.number)):
            return self._map(lambda v: 0.0 if _iszero(v) else _lift(v) / o)
        return NotImplemented

    def _addsub(self, o, sign):
        if not hasattr(o, "_lazy"):
            if isinstance(o, np.ndarray):
                d = base(self.toarray())
                return wrap(d + base(o) if sign > 0 else d - base(o))
            if isinstance(o, (int, float)) and o == 0:
                return self
            if sp.issparse(o):
                o = from_any(o)
            else:
                raise Unsupported("sparse + scalar")
        def chk(a, b):
            e = _eq(a, b)
            if e is not True and not bool(e):
                raise ValueError("inconsistent shapes")
        chk(self.shape[0], o.shape[0])
        chk(self.shape[1], o.shape[1])
        mine, theirs = self.support, o.support
        if sign > 0:
            return LazyMat(self.shape, lambda r: mine(r) + theirs(r))
        return LazyMat(self.shape, lambda r: mine(r) + [(c, -v) for c, v in theirs(r)])

    def __add__(self, o): return self._addsub(o, 1)
    def __radd__(self, o):
        if isinstance(o, np.ndarray):
            return wrap(base(o) + base(self.toarray()))
        return self._addsub(o, 1)
    def __sub__(self, o): return self._addsub(o, -1)
    def __rsub__(self, o): return (-self)._addsub(o, 1)

    def dot(self, o):
        if isinstance(o, (Sym, int, float, complex, np.number)):
            return self * o
        if sp.issparse(o):
            o = from_any(o)
        if hasattr(o, "_lazy"):
            e = _eq(self.shape[1], o.shape[0])
            if e is not True and not bool(e):
                raise ValueError("dimension mismatch")

            mine, theirs = self.support, o.support

            def sup(r):
                res = []
                for k, v in mine(r):
                    for c, w in theirs(k):
                        p = _mul(v, w)
                        if not _iszero(p):
                            res.append((c, p))
                return res
            return LazyMat((self.shape[0], o.shape[1]), sup)
        return npshim.dot(base(self.toarray()), base(o))

    def __matmul__(self, o): return self.dot(o)

    def __rmatmul__(self, o):
        if sp.issparse(o):
            return from_any(o).dot(self)
        return npshim.dot(base(o), base(self.toarray()))

    def __pow__(self, k):
        r = self
        for _ in range(int(k) - 1):
            r = r.dot(self)
        return r

    def multiply(self, o):
        if isinstance(o, (Sym, int, float, complex, np.number)):
            return self * o
        b = base(o.toarray()) if hasattr(o, "toarray") else base(o)
        return from_dense(emap(operator.mul, base(self.toarray()), b))

    # -- structure --------------------------------------------------------------
    def transpose(self, *a, **k):
        n, m = self.dims()
        d = base(self.toarray())
        return from_dense(d.T)

    @property
    def T(self): return self.transpose()

    def conj(self, *a, **k): return self._map(npshim.sc_conj)
    conjugate = conj

    def getH(self): return self.transpose().conj()

    @property
    def H(self): return self.getH()

    @property
    def real(self): return self._map(lambda v: v.real)

    @property
    def imag(self): return self._map(lambda v: v.imag)

    def diagonal(self, *a):
        n, m = self.dims()
        return npshim.array([self.entry(i, i) for i in range(min(n, m))])

    def trace(self):
        d = 0
        for v in self.diagonal():
            d = d + v
        return d

    def sum(self, axis=None): return npshim.sum_(self.toarray(), axis=axis)
    def nonzero(self): return npshim.nonzero(self.toarray())

    def __abs__(self): return from_dense(emap(abs, base(self.toarray())))

    def __ne__(self, o):
        return from_dense(emap(operator.ne, base(self.toarray()), base(o.toarray() if hasattr(o, "toarray") else o)))

    def __eq__(self, o):
        return from_dense(emap(operator.eq, base(self.toarray()), base(o.toarray() if hasattr(o, "toarray") else o)))

    __hash__ = None

    @property
    def data(self):
        raise Unsupported("raw data of a sparse matrix")

    indices = indptr = data

    def __repr__(self): return "<symsparse>"
    __str__ = __repr__


def _lift(v):
    if isinstance(v, Sym):
        return v
    if isinstance(v, (complex, np.complexfloating)):
        return SymComplex.lift(v)
    return v


def _mul(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a * b
    return a * b


def from_dense(d):
    d = base(d)
    if d.ndim == 1:
        d = d.reshape(1, -1)
    n, m = d.shape

    def sup(r):
        if isinstance(r, Sym):
            row = npshim._getitem(d, (r,)) if not isinstance(r, SymNum) or r.isint else None
            row = base(row)
        else:
            row = d[r]
        return [(j, row[j]) for j in range(m) if not _iszero(row[j])]
    return LazyMat((n, m), sup)


def from_triples(vals, rows, cols, shape):
    vals, rows, cols = list(base(vals)), list(base(rows)), list(base(cols))
    n = len(vals)
    if len(rows) != n or len(cols) != n:
        raise ValueError("row, column, and data array must all be the same length")
    for idx, dim, what in ((rows, shape[0], "row"), (cols, shape[1], "column")):
        for i in idx:
            bad = s_or(_b(i < 0), _b(i >= dim))
            if bad is not False and bool(bad):
                raise ValueError("%s index out of bounds" % what)

    def sup(r):
        res = []
        for v, i, j in zip(vals, rows, cols):
            c = _eq(i, r)
            if c is False:
                continue
            res.append((j, v if c is True else _ite(c, v, 0.0)))
        return res
    return LazyMat(shape, sup)


def _b(x):
    return x if isinstance(x, SymBool) else bool(x)


def from_any(x):
    if hasattr(x, "_lazy"):
        return x
    if sp.issparse(x):
        x = x.tocoo()
        return from_triples(x.data.astype(object), x.row.astype(object), x.col.astype(object), x.shape)
    return from_dense(x)


def csr_matrix(arg, shape=None, dtype=None, copy=False):
    if hasattr(arg, "_lazy"):
        return arg.copy()
    if isinstance(arg, tuple):
        if len(arg) == 2 and isinstance(arg[1], (tuple, list)) and len(arg[1]) == 2:
            data, (rows, cols) = arg
            if shape is None:
                shape = (int(npshim.max_(rows)) + 1, int(npshim.max_(cols)) + 1)
            return from_triples(data, rows, cols, shape)
        if len(arg) == 2:
            return LazyMat(arg, lambda r: [])
        if len(arg) == 3:
            data, indices, indptr = (list(base(a)) for a in arg)
            indptr = [int(i) for i in indptr]
            rows = []
            for i in range(len(indptr) - 1):
                rows += [i] * (indptr[i + 1] - indptr[i])
            if shape is None:
                shape = (len(indptr) - 1, int(npshim.max_(indices)) + 1)
            return from_triples(np.array(data, dtype=object), np.array(rows, dtype=object),
                                np.array(indices, dtype=object), shape)
    return from_any(arg)


def identity(n, dtype=None, format=None):
    return LazyMat((n, n), lambda r: [(r, 1.0)])


def eye(m, n=None, k=0, dtype=None, format=None):
    if n is not None or k:
        return from_dense(np.eye(int(m), n, k))
    return identity(m)


def kron(a, b, format=None):
    a, b = from_any(a), from_any(b)
    br, bc = b.shape
    asup, bsup = a.support, b.support

    def sup(r):
        res = []
        bs = bsup(r % br)
        for ka, va in asup(r // br):
            for kb, vb in bs:
                v = _mul(va, vb)
                if not _iszero(v):
                    res.append((ka * bc + kb, v))
        return res
    return LazyMat((a.shape[0] * br, a.shape[1] * bc), sup)


def diags(d, offsets=0, shape=None, format=None, dtype=None):
    if not isinstance(offsets, int):
        offs = list(offsets)
        ds = [list(base(x)) for x in d]
    else:
        offs = [offsets]
        ds = [list(base(d))] if not (isinstance(d, list) and len(d) == 1 and hasattr(d[0], "__len__")) else [list(base(d[0]))]
    n = len(ds[0]) + abs(offs[0]) if shape is None else int(shape[0])
    r = np.empty((n, n), dtype=object)
    r[...] = 0.0
    for x, o in zip(ds, offs):
        for i in range(n - abs(o)):
            r[(i, i + o) if o >= 0 else (i - o, i)] = x[i if len(x) > 1 else 0]
    return from_dense(r)


def vstack(blocks, format=None, dtype=None):
    return from_dense(np.vstack([base(from_any(b).toarray()) for b in blocks]))


def hstack(blocks, format=None, dtype=None):
    return from_dense(np.hstack([base(from_any(b).toarray()) for b in blocks]))


def issparse(x):
    return hasattr(x, "_lazy") or sp.issparse(x)


SPARSE = {
    "csr_matrix": csr_matrix, "csc_matrix": csr_matrix, "coo_matrix": csr_matrix,
    "csr_array": csr_matrix, "coo_array": csr_matrix, "csc_array": csr_matrix,
    "lil_matrix": csr_matrix, "identity": identity, "eye": eye, "kron": kron, "diags": diags,
    "issparse": issparse, "isspmatrix": issparse, "vstack": vstack, "hstack": hstack,
    "spmatrix": LazyMat,
}


# --------------------------------------------------------------------------
def _sq(x, y):
    s = 0
    for a, b in zip(x, y):
        d = a - b
        s = s + d * d
    return s


def _dist(x, y):
    if len(x) == 1:
        return npshim.sc_abs(x[0] - y[0])
    return npshim._rsqrt(_sq(x, y))


def cdist(a, b, metric="euclidean", **k):
    if not really_sym(a) and not really_sym(b):
        return spd.cdist(_real(a), _real(b), metric)
    if metric not in ("euclidean", "sqeuclidean"):
        raise Unsupported("cdist metric")
    A, B = base(a), base(b)
    r = np.empty((A.shape[0], B.shape[0]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[0]):
            r[i, j] = _dist(A[i], B[j]) if metric == "euclidean" else _sq(A[i], B[j])
    return wrap(r)


def pdist(a, metric="euclidean", **k):
    if not really_sym(a):
        return spd.pdist(_real(a), metric)
    if metric not in ("euclidean", "sqeuclidean"):
        raise Unsupported("pdist metric")
    A = base(a)
    n = A.shape[0]
    xs = [_dist(A[i], A[j]) if metric == "euclidean" else _sq(A[i], A[j])
          for i in range(n) for j in range(i + 1, n)]
    r = np.empty((len(xs),), dtype=object)
    for i, x in enumerate(xs):
        r[i] = x
    return wrap(r)


def squareform(x, **k):
    b = base(x)
    if b.ndim == 2:
        return wrap(np.array([b[i, j] for i in range(len(b)) for j in range(i + 1, len(b))], dtype=object))
    n = int(round((1 + (1 + 8 * b.size) ** 0.5) / 2))
    r = np.empty((n, n), dtype=object)
    r[...] = 0.0
    it = iter(b)
    for i in range(n):
        for j in range(i + 1, n):
            r[i, j] = r[j, i] = next(it)
    return wrap(r) if has_sym(x) else spd.squareform(x)


def _real(a):
    a = npshim.try_concrete(a) if isinstance(a, npshim.SymArray) else np.asarray(a)
    return a


def _candidates(sq):
    """indices which the ranges of the values do not rule out as the minimum"""
    rs = []
    for s in sq:
        if isinstance(s, Sym):
            s = core.SymNum.lift(s)
            rs.append(core.poly_range(s.n) if s.d is None else None)
        else:
            rs.append((float(s) * (1 - 1e-9), float(s) * (1 + 1e-9)))
    tops = [r[1] for r in rs if r is not None]
    if not tops:
        return list(range(len(sq))), rs
    top = min(tops)
    return [j for j, r in enumerate(rs) if r is None or r[0] <= top], rs


def _least(sq, order, rs, line):
    """the distance to and the index of the nearest point as defined unknowns, no case split"""
    eng = engine()
    cs = [SymNum.lift(sq[j]) for j in order]
    key = tuple(c.n.key() for c in cs)
    lo = max(min(rs[j][0] for j in order), 0.0) ** 0.5 * (1 - 1e-9)
    hi = min(rs[j][1] for j in order) ** 0.5 * (1 + 1e-9)

    def dist(t):
        if line is not None:
            zs = [core.SymNum.lift(line[j]).zr() for j in order]
            zs = [z3.If(z >= 0, z, -z) for z in zs]
            return z3.And(z3.Or(*[t == z for z in zs]), *[t <= z for z in zs])
        zs = [c.zr() for c in cs]
        return z3.And(t >= 0, z3.Or(*[t * t == z for z in zs]), *[t * t <= z for z in zs])

    def index(t):
        zs = [c.zr() for c in cs] if line is None else \
            [z3.If(z >= 0, z, -z) for z in [core.SymNum.lift(line[j]).zr() for j in order]]
        return z3.Or(*[z3.And(t == j, *[zs[k] <= z for z in zs]) for k, j in enumerate(order)])
    d = eng.define_real(("near",) + key, (lo, hi), dist)
    ik = ("nearest",) + key + tuple(order)
    i = eng.defined.get(ik)
    if i is None:
        t = z3.Int(eng.fresh_name("nearest"))
        i = SymNum.from_term(t, True)
        eng.defined[ik] = i
        at = eng.atom_for(t, True)
        at.rng = (float(min(order)), float(max(order)))
        at.bound = at.rng[1]
        at.lazy = lambda: eng.add(index(t))
    return d, i


class KDTree:
    def __init__(self, data, *a, **k):
        self.data = data
        self._sym = really_sym(data)
        if not self._sym:
            r = np.asarray(_real(data))
            self._real = spat.cKDTree(r)
            self.n, self.m = r.shape
            self._pts = base(r)
        else:
            self._pts = base(data)
            self.n, self.m = self._pts.shape

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf, workers=1, **kw):
        if not self._sym and not really_sym(x):
            return self._real.query(_real(x), k=k, eps=eps, p=p,
                                    distance_upper_bound=distance_upper_bound, workers=workers)
        if k != 1 or p != 2 or distance_upper_bound != np.inf:
            raise Unsupported("k-d tree query options")
        b = base(x)
        if b.ndim == 1:
            return self._nearest(b)
        d = np.empty(b.shape[:-1], dtype=object)
        i = np.empty(b.shape[:-1], dtype=object)
        for ix in np.ndindex(*b.shape[:-1]):
            d[ix], i[ix] = self._nearest(b[ix])
        return wrap(d), wrap(i)

    def _nearest(self, q):
        """forks on which data point is nearest (linear comparisons)"""
        sq = [_sq(q, p) for p in self._pts]
        if not any(isinstance(s, Sym) for s in sq):
            k = min(range(len(sq)), key=lambda j: sq[j])
            return _dist(q, self._pts[k]), k
        eng = engine()
        order, rs = _candidates(sq)
        if len(order) == 1:
            return _dist(q, self._pts[order[0]]), order[0]
        lo = min(r[0] for r in rs if r is not None)
        if lo > 1e-4 and all(r is not None for r in rs):
            return _least(sq, order, rs, [q[0] - p[0] for p in self._pts] if self.m == 1 else None)
        best = order[eng.hint_min([sq[j] for j in order])]
        # is the hinted candidate the minimum?  otherwise scan
        c = s_and(*[_b(sq[best] <= sq[j]) for j in order if j != best])
        if bool(c):
            return _dist(q, self._pts[best]), best
        cur = order[0]
        for j in order[1:]:
            if bool(sq[j] < sq[cur]):
                cur = j
        return _dist(q, self._pts[cur]), cur

    def query_pairs(self, r, p=2.0, eps=0, output_type="set"):
        if not self._sym and not isinstance(r, Sym):
            return self._real.query_pairs(r, p=p, eps=eps, output_type=output_type)
        res = []
        for i in range(self.n):
            for j in range(i + 1, self.n):
                if bool(_dist(self._pts[i], self._pts[j]) <= r):
                    res.append((i, j))
        return set(res) if output_type == "set" else np.array(res).reshape(-1, 2)

    def query_ball_point(self, x, r, p=2.0, eps=0, **kw):
        if not self._sym and not isinstance(r, Sym) and not really_sym(x):
            return self._real.query_ball_point(_real(x), r, p=p, eps=eps, **kw)
        b = base(x)
        if b.ndim == 1:
            return [j for j in range(self.n) if bool(_dist(b, self._pts[j]) <= r)]
        o = np.empty(b.shape[:-1], dtype=object)
        for ix in np.ndindex(*b.shape[:-1]):
            o[ix] = [j for j in range(self.n) if bool(_dist(b[ix], self._pts[j]) <= r)]
        return o

    def __getattr__(self, n):
        if "_real" in self.__dict__:
            return getattr(self._real, n)
        raise Unsupported("k-d tree method " + n)


DISTANCE = {"cdist": cdist, "pdist": pdist, "squareform": squareform}
SPATIAL = {"cKDTree": KDTree, "KDTree": KDTree}
