"""P32: colour escape sequences."""
from HamiltonianPy.tools.colorprint import color_print, coloring

LONG = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
SHORT = "krgybmcw"
RGB = [(0, 0, 0), (255, 0, 0), (0, 255, 0), (255, 255, 0), (0, 0, 255), (255, 0, 255), (0, 255, 255), (255, 255, 255)]
ESC = "\x1b["
LO, HI = -20, 300


def within(ctx, x, *ranges):
    return ctx.any([ctx.all([a <= x, x <= b]) for a, b in ranges])


def colour(ctx, tag, scheme, form, ground, few):
    """-> (the argument, whether it is acceptable, the pattern of its sequence, the numbers in it)"""
    fg = ground == "fg"
    if form == "none":
        return None, True, "", []
    if form == "name":
        k = ctx.choice(tag + "k", [4, 7] if few else range(8))
        a = [LONG[k], SHORT[k], LONG[k].upper(), SHORT[k].upper()][ctx.choice(tag + "f", [0, 3] if few else range(4))]
        if scheme == 4:
            return a, True, ESC + "%m", [(30 if fg else 40) + k]
        if scheme == 8:
            return a, True, ESC + "%;5;%m", [38 if fg else 48, k]
        return a, True, ESC + "%;2;%;%;%m", [38 if fg else 48, *RGB[k]]
    if form == "unknown":
        return ctx.choice(tag + "u", ["", "orange", "bl", "blackk", "p", "1"]), False, "", []
    if form == "hex":
        k = ctx.choice(tag + "h", [("#000000", 0, 0, 0), ("#0180ff", 1, 128, 255), ("#FF7f10", 255, 127, 16), ("#a0B1c2", 160, 177, 194)])
        return k[0], True, ESC + "%;2;%;%;%m", [38 if fg else 48, *k[1:]]
    if scheme in (4, 8):
        c = ctx.int(tag + "c", LO, HI)
        if scheme == 8:
            return c, within(ctx, c, (0, 255)), ESC + "%;5;%m", [38 if fg else 48, c]
        d = 0 if fg else 10
        return c, within(ctx, c, (30 + d, 37 + d), (90 + d, 97 + d)), ESC + "%m", [c]
    c = ctx.int_vec(tag + "c", 3, LO, HI)
    ok = ctx.all([within(ctx, x, (0, 255)) for x in c])
    return (c if form == "list" else tuple(c)), ok, ESC + "%;2;%;%;%m", [38 if fg else 48, *c]


def paint(ctx, scheme, fg, bg, call="coloring", before=False):
    """before: the sequences of other schemes, grounds and weights have been asked for before"""
    if before:
        for sc, cs in ((4, ["red", "w"]), (8, ["red", 7, 15, "w"]), (24, ["red", (1, 2, 3), "#010203", "w"])):
            for c in cs:
                coloring("x", fg=c, color_scheme=sc), coloring("x", bg=c, bold=True, color_scheme=sc)
        coloring("so me"), coloring("so me", bold=True)
    s = scheme if scheme in (4, 8) else 8 if scheme is None else 24
    f, fok, fpat, fnum = colour(ctx, "f", s, fg, "fg", bg != "none")
    b, bok, bpat, bnum = colour(ctx, "b", s, bg, "bg", fg != "none")
    bold = ctx.choice("bold", [None, True, False])
    kw = {} if bold is None else {"bold": bold}
    if scheme is not None:
        kw["color_scheme"] = scheme
    if call == "coloring":
        o = ctx.outcome(lambda: ctx.text(lambda: coloring("so me", fg=f, bg=b, **kw)))
    else:
        class Sink:
            got = ""

            def write(self, text):
                self.got += text

            def flush(self):
                pass
        k = ctx.int("k", -9, 9)

        def printed():
            sink = Sink()
            color_print("so", k, sep="_", end="|", file=sink, fg=f, bg=b, **kw)
            return sink.got
        o = ctx.outcome(lambda: ctx.text(printed))
    want = ctx.all([fok, bok])
    if not o.ok:
        ctx.check(o.raised(ValueError), "ValueError")
        ctx.check(ctx.not_(want), "supported colours are accepted")
        return
    ctx.check(want, "unsupported colours are refused")
    body = "so me" if call == "coloring" else "so_%"
    pat = fpat + bpat + (ESC + "1m" if bold else "") + body + ESC + "0m" + ("" if call == "coloring" else "|")
    v = ctx.scan(o.value, pat)
    ctx.check(v is not None, "foreground, background, bold, the text, reset")
    if v is not None:
        num = fnum + bnum + ([] if call == "coloring" else [k])
        ctx.check(len(v) == len(num) and ctx.all([x == y for x, y in zip(v, num)]), "codes")


def scheme(ctx):
    """only the documented schemes"""
    n = ctx.int("n", -30, 30)
    o = ctx.outcome(lambda: coloring("text", fg="red", color_scheme=n))
    if o.ok:
        ctx.check(ctx.any([n == 4, n == 8, n == 24]), "unknown schemes are refused")
    else:
        ctx.check(o.raised(ValueError), "ValueError")
        ctx.check(ctx.all([n != 4, n != 8, n != 24]), "known schemes are accepted")
    ctx.raises(ValueError, coloring, "text", fg="red", color_scheme="RGBA", label="unknown name of a scheme")


CASES = [dict(name="scheme", fn="scheme", bounds="schemes -30..30")]
FORMS = {4: ["none", "name", "unknown", "int"], 8: ["none", "name", "unknown", "int"],
         24: ["none", "name", "unknown", "hex", "list", "tuple"]}
for sc in (4, 8, None, 24, "rgb"):
    forms = FORMS[8 if sc is None else 24 if sc == "rgb" else sc]
    for a in forms:
        for b in forms:
            if sc in (None, "rgb") and a == b == "unknown":
                continue
            if forms.index(a) > 2 and forms.index(b) > 2 and a != b:
                continue
            if "name" in (a, b) and sc in (None, "rgb"):
                continue
            CASES.append(dict(name="%s-%s-%s" % (sc, a, b), fn="paint", args=dict(scheme=sc, fg=a, bg=b),
                              bounds="codes %d..%d, every standard name" % (LO, HI)))
for sc, a, b in ((4, "int", "none"), (8, "none", "int"), (8, "name", "int"), (24, "list", "none"), ("rgb", "none", "tuple"), (None, "int", "int")):
    CASES.append(dict(name="print-%s-%s-%s" % (sc, a, b), fn="paint", args=dict(scheme=sc, fg=a, bg=b, call="print"),
                      bounds="codes %d..%d" % (LO, HI)))
for sc, a, b in ((4, "name", "name"), (8, "name", "int"), (8, "int", "int"), (24, "name", "tuple"), (24, "list", "name")):
    CASES.append(dict(name="again-%s-%s-%s" % (sc, a, b), fn="paint", args=dict(scheme=sc, fg=a, bg=b, before=True),
                      bounds="codes %d..%d, after other calls" % (LO, HI)))
