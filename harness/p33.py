"""P33: the drawings of lattices and of the Brillouin zone."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

R3 = 3 ** 0.5
CELLS = {"square": ([(0, 0)], [(1, 0), (0, 1)], 1),
         "triangle": ([(0, 0)], [(1, 0), (0.5, R3 / 2)], 1),
         "honeycomb": ([(0, 0), (0, 1 / R3)], [(1, 0), (0.5, R3 / 2)], 1 / R3),
         "kagome": ([(0, 0), (0.25, R3 / 4), (0.5, 0)], [(1, 0), (0.5, R3 / 2)], 0.5)}
USER = ("HamiltonianPy.lattice.lattice", "HamiltonianPy.lattice", "HamiltonianPy.tools.Draw2DLattice", "HamiltonianPy.tools.BrillouinZone")
ALIAS = {"c": "color", "ms": "markersize", "lw": "linewidth", "ls": "linestyle"}


class Anything:
    """what the drawing asks for and does not matter"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


class Axes(Anything):
    def __init__(self):
        self.points, self.lines, self.point_style, self.line_style = [], [], [], []
        self.xlim, self.ylim = (-6.0, 10.0), (-3.0, 5.0)

    def plot(self, x, y, *fmt, **kw):
        if fmt:
            kw = dict({"marker": next((c for c in "o.,s^v*xD+" if c in fmt[0]), None),
                       "linestyle": next((c for c in ("--", "-.", "-", ":") if c in fmt[0]), "None")}, **kw)
        kw = {ALIAS.get(k, k): v for k, v in kw.items()}
        x, y = np.array(x), np.array(y)
        if x.ndim < 2:
            x, y = np.reshape(x, (-1, 1)), np.reshape(y, (-1, 1))
        if kw.get("marker") not in (None, "", "None", "none"):
            self.points += [(x[i, j], y[i, j]) for i in range(x.shape[0]) for j in range(x.shape[1])]
            self.point_style.append(kw)
        if kw.get("linestyle", "-") not in ("", "None", "none", " ") and x.shape[0] > 1:
            self.lines += [[(x[i, j], y[i, j]) for i in range(x.shape[0])] for j in range(x.shape[1])]
            self.line_style.append(kw)

    def scatter(self, x, y, **kw):
        self.points += list(zip(x, y))
        self.point_style.append({ALIAS.get(k, k): v for k, v in kw.items()})

    def add_collection(self, c, *a, **k):
        self.lines += [[tuple(p) for p in line] for line in c.get_segments()]

    def add_line(self, l, *a, **k):
        self.lines.append(list(zip(*l.get_data())))

    def get_xlim(self): return self.xlim
    def get_ylim(self): return self.ylim

    def set_xlim(self, *a, left=None, right=None):
        self.xlim = (left, right) if not a else tuple(a) if len(a) == 2 else tuple(a[0])

    def set_ylim(self, *a, bottom=None, top=None):
        self.ylim = (bottom, top) if not a else tuple(a) if len(a) == 2 else tuple(a[0])


class Plt(Anything):
    def __init__(self):
        self.canvas, self.files, self.shown = Axes(), [], 0

    def show(self, *a, **k):
        self.shown += 1

    def figure(self, *a, **k):
        f = Anything()
        f.savefig, f.show = self.savefig, self.show
        f.add_subplot = f.gca = f.subplots = f.add_axes = self.gca
        return f

    gcf = figure

    def gca(self, *a, **k):
        return self.canvas

    axes = subplot = gca

    def subplots(self, *a, **k):
        return self.figure(), self.canvas

    def plot(self, *a, **k):
        self.canvas.plot(*a, **k)

    def scatter(self, *a, **k):
        self.canvas.scatter(*a, **k)

    def savefig(self, name, *a, **k):
        self.files.append(os.path.abspath(str(name)))


def draw(ctx, *args, **kw):
    plt = Plt()
    ctx.standin("matplotlib.pyplot", plt, *USER)
    from HamiltonianPy.tools.Draw2DLattice import show
    return plt, ctx.outcome(show, *args, **kw)


def position(which, p, i, j):
    points, (a, b), _ = CELLS[which]
    return [points[p][k] + i * a[k] + j * b[k] for k in (0, 1)]


def near(ctx, p, q):
    return ctx.all([p[k] - q[k] <= 1e-9 for k in (0, 1)] + [q[k] - p[k] <= 1e-9 for k in (0, 1)])


def lattice(ctx, which, nmax, short=False, link=False):
    n0, n1 = ctx.choice("n0", list(range(nmax + 1))), ctx.choice("n1", list(range(nmax + 1)))
    if link:
        ctx.assume(n0 + n1 > 0)
    kw = {"link": True} if link else {} if ctx.choice("default", [True, False]) else {"link": False}
    plt, o = draw(ctx, which[0] if short else which, n0, n1, save=False, **kw)
    ctx.check(o.ok, "drawn")
    if not o.ok:
        return
    ctx.check(not plt.files, "nothing is saved")
    cell, _, d = CELLS[which]
    drawn = plt.canvas.points
    ctx.check(len(drawn) == (2 * n0 + 1) * (2 * n1 + 1) * len(cell), "number of sites")
    i, j = ctx.int("i", -n0, n0), ctx.int("j", -n1, n1)
    for p in range(len(cell)):
        ctx.check(ctx.count([near(ctx, position(which, p, i, j), q) for q in drawn]) == 1, "every site once")
    lines = plt.canvas.lines
    if not link:
        ctx.check(not lines, "no bonds")
        return
    # the pairs of cells and points at the nearest-neighbor distance
    near_pairs = []
    for p in range(len(cell)):
        for q in range(len(cell)):
            for x in (-1, 0, 1):
                for y in (-1, 0, 1):
                    u, v = position(which, p, 0, 0), position(which, q, x, y)
                    if (p, 0, 0) < (q, x, y) and abs((u[0] - v[0]) ** 2 + (u[1] - v[1]) ** 2 - d * d) < 1e-6:
                        near_pairs.append((p, q, x, y))
    total = sum(max(0, 2 * n0 + 1 - abs(x)) * max(0, 2 * n1 + 1 - abs(y)) for p, q, x, y in near_pairs)
    if len(cell) == 1:
        # (p, 0, 0) < (q, x, y) already keeps one of each pair
        pass
    else:
        total = sum(max(0, 2 * n0 + 1 - abs(x)) * max(0, 2 * n1 + 1 - abs(y))
                    for p, q, x, y in near_pairs if p < q or (p == q and (x, y) > (0, 0)))
    ctx.check(all(len(l) == 2 for l in lines), "segments")
    ctx.check(len(lines) == total, "number of bonds")
    p, q, x, y = ctx.choice("pair", [b for b in near_pairs if b[0] < b[1] or (b[2], b[3]) > (0, 0)])
    ctx.assume(ctx.all([i + x <= n0, i + x >= -n0, j + y <= n1, j + y >= -n1]))
    u, v = position(which, p, i, j), position(which, q, i + x, j + y)
    ctx.check(ctx.count([ctx.any([ctx.all([near(ctx, a, u), near(ctx, b, v)]), ctx.all([near(ctx, a, v), near(ctx, b, u)])])
                         for a, b in lines]) == 1, "every pair of nearest neighbors once")


def style(ctx, link):
    mc, lc = ctx.choice("mc", [None, "red"]), ctx.choice("lc", [None, "blue"])
    ms, lw = ctx.int("ms", 1, 20), ctx.real("lw", 0.5, 9)
    ls = ctx.choice("ls", [None, "dashed"])
    trim = ctx.choice("trim", [None, False, True])
    kw = {k: v for k, v in (("mc", mc), ("lc", lc), ("ls", ls), ("trim", trim)) if v is not None}
    before = Axes()
    plt, o = draw(ctx, "square", 1, 1, ms=ms, lw=lw, link=link, save=False, **kw)
    ctx.check(o.ok, "drawn")
    if not o.ok:
        return
    a = plt.canvas
    for s in a.point_style:
        ctx.check(s.get("color") == (mc or "black") and s.get("markersize") == ms, "style of the sites")
    for s in a.line_style:
        ctx.check(ctx.all([s.get("color") == (lc or "gray"), s.get("linewidth") == lw, s.get("linestyle") == (ls or "solid")]), "style of the bonds")
    f = 0.5 if trim else 1
    for got, was in ((a.xlim, before.xlim), (a.ylim, before.ylim)):
        ctx.check(tuple(got) == (was[0] * f, was[1] * f), "trimmed when asked for")


def saving(ctx, which):
    short = ctx.choice("short", [True, False])
    name = ctx.choice("name", [None, "figure.png"])
    where = ctx.choice("where", ["here", "made", "slash", "new", "deep"])
    save = ctx.choice("save", [None, True])
    n = ctx.int("n", 0, 1)
    d = tempfile.mkdtemp(prefix="p33")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        path = {"here": "", "made": d, "slash": d + "/", "new": os.path.join(d, "figures"), "deep": os.path.join(d, "a", "b") + "/"}[where]
        kw = {k: v for k, v in (("save", save), ("name", name)) if v is not None}
        if path:
            kw["path"] = path
        plt, o = draw(ctx, which[0] if short else which, n, 1, **kw)
        ctx.check(o.ok, "drawn")
        ctx.check(os.path.isdir(path or d), "the directory is made")
        ctx.check(plt.files == [os.path.join(os.path.realpath(path or d), name or which + ".pdf")]
                  or plt.files == [os.path.join(os.path.abspath(path or d), name or which + ".pdf")], "saved in the directory under the name")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def unknown(ctx):
    which = ctx.choice("which", ["", "x", "Square", "cubic", "sq", "kagom"])
    plt, o = draw(ctx, which, ctx.int("n", 0, 1), 1, save=False)
    ctx.check(o.raised(KeyError), "unknown names are refused")


class Hexagonal:
    """the vectors and the points of the module; where it names none, those of the lattice of unit length"""

    def __init__(self, module):
        self.As = getattr(module, "As", [[1.0, 0.0], [0.5, R3 / 2]])
        self.Bs = getattr(module, "Bs", [[2 * np.pi, -2 * np.pi / R3], [0.0, 4 * np.pi / R3]])
        p = 2 * np.pi
        self.Ks = getattr(module, "Ks", [[p * x / 3, p * y / R3] for x, y in ((-2, 0), (-1, 1), (1, 1), (2, 0), (1, -1), (-1, -1))])
        self.Ms = getattr(module, "Ms", [[p * x / 2, p * y / R3 / 2] for x, y in ((-1, 1), (0, 2), (1, 1), (1, -1), (0, -2), (-1, -1))])


def zone(ctx):
    """the figure of the hexagonal Brillouin zone"""
    plt = Plt()
    ctx.standin("matplotlib.pyplot", plt, *USER)
    import HamiltonianPy.tools.BrillouinZone as module
    Z = Hexagonal(module)
    for i in (0, 1):
        for j in (0, 1):
            ctx.check(ctx.close(sum(Z.As[i][k] * Z.Bs[j][k] for k in (0, 1)), 2 * np.pi * (i == j), 1e-9), "reciprocal vectors")
    around = [[i * Z.Bs[0][k] + j * Z.Bs[1][k] for k in (0, 1)] for i in (-1, 0, 1) for j in (-1, 0, 1) if i or j]
    k = ctx.real_vec("k", 2, -8, 8)
    # |k - g|^2 - |k|^2
    closer = [g[0] * g[0] + g[1] * g[1] - 2 * (g[0] * k[0] + g[1] * k[1]) for g in around]
    inside, outside = ctx.all([c >= 1e-6 for c in closer]), ctx.any([c <= -1e-6 for c in closer])
    cross = []
    corners = [[float(c) for c in p] for p in Z.Ks]
    for i in range(6):
        p, q = corners[i], corners[(i + 1) % 6]
        cross.append((q[0] - p[0]) * (k[1] - p[1]) - (q[1] - p[1]) * (k[0] - p[0]))
    hexagon = ctx.any([ctx.all([c <= 0 for c in cross]), ctx.all([c >= 0 for c in cross])])
    ctx.check(ctx.implies(inside, hexagon), "the K points are the corners of the zone")
    ctx.check(ctx.implies(outside, ctx.not_(hexagon)), "the K points are the corners of the zone")
    ctx.check(len(Z.Ms) == 6, "six M points")
    for i in range(6):
        ctx.check(ctx.count([near(ctx, [(corners[i][c] + corners[(i + 1) % 6][c]) / 2 for c in (0, 1)], m) for m in Z.Ms]) == 1,
                  "the M points are the middles of the edges")
    # every drawn line is a perpendicular bisector
    t = ctx.real("t", 0, 1)
    ctx.check(len(plt.canvas.lines) == 8, "lines of the zone")
    for p, q in plt.canvas.lines:
        x = [p[c] + t * (q[c] - p[c]) for c in (0, 1)]
        dist = [g[0] * g[0] + g[1] * g[1] - 2 * (g[0] * x[0] + g[1] * x[1]) for g in around]
        ctx.check(ctx.any([ctx.all([v <= 1e-6, v >= -1e-6]) for v in dist]), "lines of equal distance")
    g = ctx.choice("g", around + [[0.0, 0.0]])
    ctx.check(ctx.count([near(ctx, g, p) for p in plt.canvas.points]) >= 1, "the reciprocal lattice is drawn")
    for p in list(Z.Ks) + list(Z.Ms):
        ctx.check(ctx.count([near(ctx, p, q) for q in plt.canvas.points]) == 1, "the points are drawn")


def cluster(ctx, d, k, n):
    """Lattice.show marks the points of every cluster within the scope; all coordinates symbolic"""
    plt = Plt()
    ctx.standin("matplotlib.pyplot", plt, *USER)
    from HamiltonianPy.lattice.lattice import Lattice
    points = [[3 * i + ctx.grid("p%d%d" % (i, c), -1, 1, 8) if c == 0 else ctx.grid("p%d%d" % (i, c), -1, 1, 8) for c in range(d)]
              for i in range(n)]
    vectors = [[(12 if c == i else 0) + ctx.grid("v%d%d" % (i, c), -1, 1, 8) for c in range(d)] for i in range(k)]
    cell = Lattice(np.array(points), np.array(vectors), name="some")
    scope = ctx.choice("scope", [None, 0, 1, 2])
    save = ctx.choice("save", [None, False, True])
    kw = {a: b for a, b in (("scope", scope), ("savefig", save)) if b is not None}
    scope = scope or 0
    dir_, cwd = tempfile.mkdtemp(prefix="p33"), os.getcwd()
    try:
        os.chdir(dir_)
        with contextlib.redirect_stdout(io.StringIO()):
            o = ctx.outcome(cell.show, **kw)
        here = os.getcwd()
    finally:
        os.chdir(cwd)
        shutil.rmtree(dir_)
    ctx.check(o.ok, "drawn")
    if not o.ok:
        return
    if save:
        ctx.check(plt.files == [os.path.join(here, "some,scope=%d.png" % scope)], "saved under the name of the cluster")
    else:
        ctx.check(plt.shown == 1 and not plt.files, "displayed")
    drawn = plt.canvas.points
    ctx.check(len(drawn) == n * (2 * scope + 1) ** k, "number of points")
    i = ctx.choice("i", range(n))
    r = [ctx.choice("r%d" % j, [t for t in (-scope, 0, scope) if scope or not t][:1 if not scope else 3]) for j in range(k)]
    want = [points[i][c] + sum(r[j] * vectors[j][c] for j in range(k)) for c in range(d)] + [0] * (2 - d)
    ctx.check(ctx.count([near(ctx, want, q) for q in drawn]) == 1, "every point once")
    for lim in (plt.canvas.xlim, plt.canvas.ylim):
        ctx.check(lim[1] - lim[0] == 16.0, "square window")
    ctx.check(plt.canvas.xlim[0] + plt.canvas.xlim[1] == 4.0 and plt.canvas.ylim[0] + plt.canvas.ylim[1] == 2.0, "window about the centre")


def first_zone(ctx, form, scaled):
    """ShowFirstBZ for any translation vectors"""
    plt = Plt()
    ctx.standin("matplotlib.pyplot", plt, *USER)
    from HamiltonianPy.lattice.lattice import ShowFirstBZ
    a = {"any": lambda: [ctx.grid_vec("a", 2, 1, 4, 4), [ctx.grid("u", -2, 0, 4), ctx.grid("v", 1, 4, 4)]],
         "diagonal": lambda: [[ctx.grid("u", 1, 4, 8), 0.0], [0.0, ctx.grid("v", 1, 4, 8)]],
         "skewed": lambda: [[1.0, 0.0], [ctx.grid("u", -3, 3, 8), 2.0]],
         "left": lambda: [[0.5, ctx.grid("u", 1, 3, 8)], [1.0, 0.25]]}[form]()
    det = a[0][0] * a[1][1] - a[0][1] * a[1][0]
    f = ctx.choice("scale", [0.5, 1, 2, 3]) if scaled else 1
    o = ctx.outcome(ShowFirstBZ, np.array(a), **({"scale": f} if scaled else {}))
    ctx.check(o.ok, "drawn")
    if not o.ok:
        return
    ctx.check(plt.shown == 1, "displayed")
    # reciprocal vectors times the determinant / 2 pi
    b = [[a[1][1], -a[1][0]], [-a[0][1], a[0][0]]]
    w = 2 * np.pi
    drawn, lines = plt.canvas.points, plt.canvas.lines
    ctx.check(len(drawn) == 9 and len(lines) == 8, "nine points, eight lines")

    def at(p, q):
        return ctx.all([ctx.close(p[c] * det, q[c] * w, 1e-7) for c in (0, 1)])
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            g = [i * b[0][c] + j * b[1][c] for c in (0, 1)]
            ctx.check(ctx.count([at(p, g) for p in drawn]) == 1, "reciprocal points")
            if i or j:
                ends = [[(g[0] / 2 + s * f * -g[1]), (g[1] / 2 + s * f * g[0])] for s in (1, -1)]
                ctx.check(ctx.count([ctx.any([ctx.all([at(p, ends[0]), at(q, ends[1])]), ctx.all([at(p, ends[1]), at(q, ends[0])])])
                                     for p, q in lines]) == 1, "perpendicular bisectors")


CASES = []
for d, k, n in ((1, 1, 1), (1, 1, 3), (2, 1, 2), (2, 2, 1), (2, 2, 3)):
    CASES.append(dict(name="cluster-%d-%d-%d" % (d, k, n), fn="cluster", args=dict(d=d, k=k, n=n),
                      bounds="%d symbolic points, %d symbolic vectors in dimension %d, scope 0..2" % (n, k, d)))
for form in ("any", "diagonal", "skewed", "left"):
    for scaled in (False, True):
        CASES.append(dict(name="first-zone-%s-%s" % (form, scaled), fn="first_zone", args=dict(form=form, scaled=scaled),
                          bounds="translation vectors with symbolic components"))
for w in CELLS:
    for short in (False, True):
        CASES.append(dict(name="sites-%s%s" % (w, "-short" if short else ""), fn="lattice", args=dict(which=w, nmax=2, short=short),
                          bounds="0..2 cells to every side, every site"))
    CASES.append(dict(name="bonds-" + w, fn="lattice", args=dict(which=w, nmax=2 if w in ("square", "triangle") else 1, link=True),
                      bounds="0..2 cells to every side (1 for honeycomb and kagome), every pair of neighbors"))
    CASES.append(dict(name="saving-" + w, fn="saving", args=dict(which=w), bounds="every form of the directory and the name"))
for link in (False, True):
    CASES.append(dict(name="style-%s" % link, fn="style", args=dict(link=link), bounds="sizes 1..20, widths [0.5,9]"))
CASES.append(dict(name="unknown", fn="unknown", bounds="unknown names"))
CASES.append(dict(name="zone", fn="zone", bounds="any wave vector in [-8,8]^2"))
