"""C30: the marks of a drawing are where the optics says."""
import collections
import math

from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, rel
from .c25 import KINDS, expectedLines, generic, mkset, paths, sameLines, screen, segments, sets, split
from .paths import objective

INF = float("inf")
OBJECT, IMAGE, FOV1, FOV2, OWN = (0.11, 0.2, 0.3), (0.4, 0.51, 0.6), (0.7, 0.11, 0.82), (0.9, 0.12, 0.33), (0.31, 0.62, 0.93)
GREY, BLACK, YELLOW = (0.7, 0.7, 0.7), (0.0, 0.0, 0.0), (0.75, 0.75, 0.0)


class Shape:
    """ a patch of the drawing: its extent in the units of the axes """

    def __init__(self, p, ax):
        self.color = tuple(float(x) for x in p.get_edgecolor()[:3])
        self.visible = p.get_visible()
        v = (p.get_transform() - ax.transData).transform(p.get_path().vertices)
        self.v = [(float(a), float(b)) for a, b in v]
        xs, ys = [a for a, b in self.v], [b for a, b in self.v]
        self.x0, self.x1, self.y0, self.y1 = min(xs), max(xs), min(ys), max(ys)
        self.x = (self.x0 + self.x1) / 2

    def up(self):
        """ an arrow upwards has its head (its widest part) above its middle """
        w = max(abs(a - self.x) for a, b in self.v)
        head = [b for a, b in self.v if abs(a - self.x) > 0.9 * w]
        return sum(head) / len(head) > (self.y0 + self.y1) / 2

    def __repr__(self):
        return "x %.6g to %.6g, y %.6g to %.6g%s" % (self.x0, self.x1, self.y0, self.y1, "" if self.visible else " (hidden)")


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(b))


def read(fig, path=None):
    """ what a figure shows """
    from matplotlib.patches import PathPatch
    ax = fig.axes[0]
    out = dict(shapes=[Shape(p, ax) for p in ax.patches if isinstance(p, PathPatch)],
               texts=sorted(t.get_text() for t in list(ax.texts) + [a for a in ax.artists if hasattr(a, "get_text")] if t.get_text().strip()),
               marks=sorted(float(l.get_xdata()[0]) for l in ax.lines if l.get_marker() == "o" and len(l.get_xdata()) == 1),
               markHeights=[float(l.get_ydata()[0]) for l in ax.lines if l.get_marker() == "o" and len(l.get_xdata()) == 1],
               arrows=[p for p in ax.patches if not isinstance(p, PathPatch)], ylim=ax.get_ylim(), title=ax.get_title(), lines=list(ax.lines))
    if path is not None:
        out["labels"] = [(l.text, float(l.x)) for l in path.figure.labels if l.text]
        out["points"] = [(l.text, float(l.x)) for l in path.figure.points]
    return out


def color(shapes, c):
    return [s for s in shapes if all(abs(a - b) < 2e-3 for a, b in zip(s.color, c))]


def sameArrows(got, want, what):
    """ got: shapes; want: (x, half size with its sign) """
    left = list(got)
    check(len(got) == len(want), "{0}: {1} drawn, {2} expected: {3} / {4}", what, len(got), len(want), got, want)
    for x, h in want:
        hit = [s for s in left if near(s.x, x) and near(s.y1, abs(h)) and near(s.y0, -abs(h))]
        check(hit, "{0}: none at {1} with a half size of {2}; left: {3}", what, x, h, left)
        if abs(h) > 1e-6:
            up = [s for s in hit if s.up() == (h > 0)]
            check(up, "{0} at {1}: drawn {2}", what, x, "upside down" if h > 0 else "upright")
            hit = up
        left.remove(hit[0])


def focalPoints(elements):
    """ focal points of the lenses and mirrors: [(label, position)], in the order of the elements, numbered """
    import raytracing as rt
    out, z, index = [], 0.0, 0
    physical = sum(1 for e in elements if type(e) is not rt.Space)
    for e in elements:
        known = isinstance(e, (rt.Lens, rt.CurvedMirror, rt.ThickLens, rt.CompoundLens, rt.Objective))
        if known and e.C != 0 and e.hasPower:
            index += 1
            F1 = z + e.D / e.C                  # comes out parallel
            F2 = z + e.L - e.A / e.C            # a parallel ray crosses the axis
            names = ["F_f", "F_b"]
            if isinstance(e, rt.Objective) and not e.isFlipped:     # its back is where its back aperture is
                names.reverse()
            for name, F in zip(names, (F1, F2)):
                out.append((name + ("_%d" % index if physical > 1 else ""), F))
        z += e.L
    return out


def plain(text):
    return text.replace("$", "").replace("{", "").replace("}", "")


def isFocal(text):
    return plain(text).startswith(("F_f", "F_b"))


# ----------------------------------------------------------------------- paths

@st.composite
def pathCases(draw):
    kinds = KINDS + ["ap", "lens", "mat", "axicon"]
    e = draw(paths(maxSize=6, kinds=kinds, nested=1))
    lv = optics.leaves(dict(k="group", e=e))
    if optics.backIndex(lv) == 1.0 and draw(st.integers(0, 5)) == 0:
        o = draw(objective())
        e = e + [o, dict(k="space", d=draw(gen.num(1, 20)), n=1.0, D=None)]
        if draw(st.booleans()):
            e.append(dict(k="compound", e=draw(gen.sequence(1, 4, n=1.0, kinds=["iface", "space"], endAir=True, growth=1e3))))
    where = -1.0 if generic(e) else 0.5
    given = draw(st.lists(sets(e, where, small=True), max_size=2))
    for s in given:
        s["label"] = draw(st.sampled_from([None, "source"]))
        s["own"] = draw(st.booleans())
    return dict(e=e, sets=given, flags={k: draw(st.integers(0, 4)) > 0 for k in ("showPointsOfInterest", "showPointsOfInterestLabels", "showElementLabels", "showObject", "showImages")},
                pupil=draw(st.booleans()), only=draw(st.sampled_from([None, True, True, False])), limit=draw(st.sampled_from([None, True, False])), height=draw(st.sampled_from([None, None, 4.0, 25.0])),
                labels=draw(st.lists(st.sampled_from(["", "lens", "L1"]), min_size=8, max_size=8)), interactive=draw(st.booleans()))


def runPath(c):
    import raytracing as rt
    def make(es):
        return rt.ImagingPath([optics.build(s) for s in es])
    path, fresh = make(c["e"]), make(c["e"])
    if not optics.isLinear(optics.leaves(dict(k="group", e=c["e"]))):
        raise Skip("not linear")
    for el, label in zip(path.elements, c["labels"]):
        el.label = label
    if c["height"] is not None:
        path.objectHeight = c["height"]
    for k, v in c["flags"].items():
        setattr(path, k, v)
    path.showEntrancePupil = c["pupil"]
    path.design(objectColor=OBJECT, imageColor=IMAGE, FOVColors=[FOV1, FOV2])
    given = []
    for s in c["sets"]:
        r = mkset(s)
        if s["k"] in ("object", "lamp", "lamprandom"):
            r.label = s["label"]
            if s["k"] == "object":
                r.color = OWN if s["own"] else None
        given.append(r)
    kw = dict(interactive=c["interactive"])
    if given:
        kw["raysList"] = given
    if c["only"] is not None:
        kw["onlyPrincipalAndAxialRays"] = c["only"]
    if c["limit"] is not None:
        kw["limitObjectToFieldOfView"] = c["limit"]
    with screen() as figs:
        import matplotlib.pyplot as plt
        old, got = plt.show, []
        def show(*a, **k):
            got.append(read(plt.gcf(), path))
            old()
        plt.show = show
        try:
            path.display(**kw)
        finally:
            plt.show = old
        check(len(got) == 1, "{0} figures", len(got))
        got = got[0]

    tags = ["nt"]
    flags = c["flags"]
    stop, field = fresh.apertureStop(), fresh.fieldStop()
    hasStop = stop.z is not None
    principal, axial = (fresh.principalRay(), fresh.axialRay()) if hasStop else (None, None)
    # the object
    height, note = (c["height"] or path.objectHeight), ""
    if c["limit"] or (c["limit"] is None and c["height"] is None):
        fov, size = fresh.fieldOfView(), fresh.imageSize()
        if fov != INF:
            height = fov
            note = "FOV: {0:.2f}".format(fov)
        if size != INF:
            note += " Image size: {0:.2f}".format(size)
    onlyPrincipal = c["only"] is not False and principal is not None
    showFOV = not given and onlyPrincipal
    lamp = any(s["k"].startswith("lamp") for s in c["sets"])
    hasObject = any(s["k"] == "object" for s in c["sets"])

    def images(x, h):
        if x == 0:
            return [(z, m * h) for z, m in make(c["e"]).intermediateConjugates()]
        after, before = split(c["e"], x)
        return [(x + z, m * h) for z, m in make(after).intermediateConjugates()] + [(x - z, m * h) for z, m in make(before).intermediateConjugates()]

    objects = [(s["z"], r.yMax, bool(s["own"])) for s, r in zip(c["sets"], given) if s["k"] == "object"]
    if not objects:
        objects = [(0.0, height / 2, False)]
    for own in (False, True):
        here = [(z, h) for z, h, o in objects if o == own]
        wantObjects = here if flags["showObject"] else []
        wantImages = [i for z, h in here for i in images(z, h)] if flags["showImages"] else []
        if own:
            shapes = color(got["shapes"], OWN)
            sameArrows(shapes, wantObjects + wantImages, "objects and images of that colour")
        else:
            shapes = color(got["shapes"], OBJECT) + color(got["shapes"], IMAGE)
            sameArrows(color(got["shapes"], OBJECT), wantObjects, "objects")
            sameArrows(color(got["shapes"], IMAGE), wantImages, "images")
        if not lamp:
            for s in shapes:
                check(s.visible == (not showFOV), "an object or image is {0}", "shown" if s.visible else "hidden")
        if wantImages:
            tags.append("images")
    # the field of view
    want = [(0.0, principal.y)] if principal is not None else []
    sameArrows(color(got["shapes"], FOV1), want, "field of view")
    sameArrows(color(got["shapes"], FOV2), images(0, principal.y) if principal is not None else [], "images of the field of view")
    for s in color(got["shapes"], FOV1) + color(got["shapes"], FOV2):
        check(s.visible == showFOV, "the field of view is {0}", "shown" if s.visible else "hidden")
    # lamps
    for s, r in zip(c["sets"], given):
        if s["k"].startswith("lamp"):
            ok = [p for p in color(got["shapes"], YELLOW) if near(p.x, s["z"]) and near(p.y1, r.yMax) and near(p.y0, -r.yMax)]
            check(ok, "no lamp of height {0} at {1}: {2}", 2 * r.yMax, s["z"], color(got["shapes"], YELLOW))
            tags.append("lamp")
    nlamps = sum(1 for s in c["sets"] if s["k"].startswith("lamp"))
    check(len(color(got["shapes"], YELLOW)) == nlamps, "{0} lamps drawn, {1} given", len(color(got["shapes"], YELLOW)), nlamps)

    # the elements
    bars, names, boxes, lenses = [], [], [], []
    tallest, z = 0.0, 0.0
    for s, el, given_ in zip(c["e"], make(c["e"]).elements, list(c["labels"]) + [""] * 20):
        inner = [(z, el, s, given_)]
        if s["k"] in ("group", "2f", "4f") or (s["k"] == "compound" and not any(x["k"] == "iface" for x in s["e"])):     # drawn by their elements
            inner, zz = [], z
            for x in el.elements:
                inner.append((zz, x, None, x.label))
                zz += x.L
        for zz, x, spec, label in inner:
            D = x.apertureDiameter
            if isinstance(x, rt.Space):
                continue
            if isinstance(x, rt.Lens):
                lenses.append((zz, D))
            elif type(x) is rt.Matrix:
                boxes.append((zz, zz + x.L, D))
            if isinstance(x, (rt.Lens, rt.Aperture)) or type(x) is rt.Matrix:
                if D != INF:
                    bars.append((zz, zz + x.L, D / 2))
            names.append(label or "")
        z += el.L
    black = color(got["shapes"], BLACK)
    for zz, D in lenses:
        hit = [p for p in black if near(p.x, zz) and near(p.y0, -p.y1) and (near(p.y1, D / 2) if D != INF else p.y1 > 0)]
        check(hit, "no lens of diameter {0} drawn at {1}: {2}", D, zz, black)
    for z1, z2, D in boxes:
        hit = [p for p in black if near(p.x0, z1) and near(p.x1, z2) and near(p.y0, -p.y1) and (near(p.y1, D / 2) if D != INF else p.y1 > 0)]
        check(hit, "no box of diameter {0} drawn from {1} to {2}: {3}", D, z1, z2, black)
        if z1 > 0 and z2 > z1:
            tags.append("box")
    grey = color(got["shapes"], GREY)
    for z1, z2, h in bars:
        hit = [p for p in grey if near(p.y1, h) and near(p.y0, -h) and (near(p.x0, z1) and near(p.x1, z2) if z2 > z1 else near(p.x, z1))]
        check(hit, "no aperture of diameter {0} drawn from {1} to {2}: {3}", 2 * h, z1, z2, grey)
    pupil = fresh.entrancePupil()
    drawn = pupil.z is not None and math.isfinite(pupil.z) and math.isfinite(pupil.diameter)
    if c["pupil"] and drawn:
        hit = [p for p in grey if near(p.x, pupil.z) and near(p.y1, pupil.diameter / 2) and near(p.y0, -pupil.diameter / 2)]
        check(hit, "no entrance pupil of diameter {0} drawn at {1}: {2}", pupil.diameter, pupil.z, grey)
        tags.append("entrance pupil")
    twin = make(c["e"])
    with screen():
        other = []
        old = plt.show
        plt.show = lambda *a, **k: other.append(read(plt.gcf()))
        try:
            twin.showEntrancePupil = False
            twin.display(rays=rt.Rays([rt.Ray(0, 0)]))
        finally:
            plt.show = old
    more = len(grey) - len(color(other[0]["shapes"], GREY))
    check(more == (1 if c["pupil"] and drawn else 0), "{0} more bars drawn for the entrance pupil", more)
    # nothing out of the frame
    for s in black:
        check(s.y1 <= got["ylim"][1] * (1 + 1e-9) or any(near(s.x, zz) for zz, D in lenses if D == INF), "an element is taller than the drawing: {0}, {1}", s, got["ylim"])
    check(near(got["ylim"][0], -got["ylim"][1]), "the drawing is not centered on the axis: {0}", got["ylim"])

    # the points
    F = focalPoints(fresh.elements)
    marks = [x for _, x in F] if flags["showPointsOfInterest"] else []
    z = 0.0
    for s, el in zip(c["e"], fresh.elements):
        if s["k"] == "objective":
            marks += [z + el.D / el.C, z + el.L - el.A / el.C]
            tags.append("objective")
        z += el.L
    for x in marks:
        check(any(near(x, m, 6e-4) for m in got["marks"]), "no mark at the focal point at {0}: {1}", x, got["marks"])
    for m in got["marks"]:
        check(any(near(x, m, 6e-4) for x in marks), "a mark at {0}; focal points: {1}", m, marks)
    check(all(y == 0 for y in got["markHeights"]), "marks out of the axis: {0}", got["markHeights"])
    texts = collections.Counter()
    for t in got["texts"]:
        texts.update([plain(x) for x in t.split(", ")] if isFocal(t) else [t])
    wanted = collections.Counter()
    if flags["showPointsOfInterest"]:
        if flags["showPointsOfInterestLabels"]:
            wanted.update(name for name, x in F)
        wanted.update((["AS"] if hasStop else []) + (["FS"] if field.z is not None else []))
    if flags["showElementLabels"]:
        wanted.update(n for n in names if n.strip())
    wanted.update(r.label for s, r in zip(c["sets"], given) if s["k"].startswith("lamp") and r.label)
    if flags["showObject"]:
        wanted.update(r.label for s, r in zip(c["sets"], given) if s["k"] == "object" and r.label)
    if note.strip():
        wanted[note] += 1
    texts = collections.Counter({k.strip(): v for k, v in texts.items()})
    wanted = collections.Counter({k.strip(): v for k, v in wanted.items()})
    check(texts == wanted, "labels of the drawing: {0}; expected {1}", dict(texts - wanted), dict(wanted - texts))
    if flags["showPointsOfInterest"]:
        for name, at in (("AS", stop.z), ("FS", field.z)):
            if at is not None:
                xs = [x for t, x in got["labels"] if t == name]
                check(len(xs) == 1 and near(xs[0], at), "{0} at {1}, expected at {2}", name, xs, at)
                tags.append(name)
        if flags["showPointsOfInterestLabels"]:
            placed = [(plain(t), x) for text, x in got["points"] if text for t in text.split(", ")]
            for name, x in F:
                check(any(t == name and near(at, x, 6e-4) for t, at in placed), "{0} expected at {1}: {2}", name, x, placed)
                tags.append("focal points")
    return sorted(set(tags))


# -------------------------------------------------------------------- elements

ELEMENTS = ["lens", "lens", "mirror", "iface", "thick", "slab", "ap", "mat", "mat", "doublet", "singlet", "objective"]


@st.composite
def elementCases(draw):
    k = draw(st.sampled_from(ELEMENTS))
    s = draw(objective()) if k == "objective" else draw(gen.element(n=1.0, kinds=[k], dia=gen.diameter(0.5)))
    return dict(s=s, label=draw(st.sampled_from(["", "my lens"])), again=draw(st.booleans()))


def runElement(c):
    import raytracing as rt
    s = c["s"]
    o = optics.build(s)
    o.label = c["label"]
    before = [(n, getattr(o, n)) for n in ("A", "B", "C", "D", "L", "label", "frontVertex", "backVertex", "apertureDiameter")]
    for times in range(2 if c["again"] else 1):
        with screen() as figs:
            import matplotlib.pyplot as plt
            old, got = plt.show, []
            plt.show = lambda *a, **k: (got.append(read(plt.gcf())), old())
            try:
                o.display()
            finally:
                plt.show = old
        check(len(got) == 1, "{0} figures", len(got))
        got = got[0]
    check([(n, getattr(o, n)) for n, v in before] == before, "the element is changed by displaying it")
    lv = optics.leaves(s)
    m = optics.total(lv).m
    A, C, D, L = m[0], m[2], m[3], optics.length(lv)
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    marks, lines, texts, spans = [], [], [], []
    fv, bv = optics.vertices(lv)
    if s["k"] == "mat":
        fv, bv = s.get("fv"), s.get("bv")
    if s["k"] == "objective":       # from its back aperture to its front
        fv, bv = (s["wd"], L) if s["flip"] % 2 else (0.0, L - s["wd"])
    if c["label"]:
        texts.append(c["label"])
    if L != 0:
        for v, t in ((fv, "V_f"), (bv, "V_b")):
            if v is not None:
                marks.append(v)
                texts.append(t)
    if o.hasPower:
        F1, F2 = D / C, L - A / C
        P1, P2 = -(n1 / n2 - D) / C, L + (1 - A) / C
        marks += [F1, F2, P1, P2]
        lines = [P1, P2]
        texts += ["P_f", "P_b", "EFL = %.1f" % (P1 - F1), "EFL = %.1f" % (F2 - P2)]
        spans += [(P1, F1), (P2, F2)]
        if fv is not None:
            texts.append("FFL = %.1f" % (fv - F1))
            spans.append((fv, F1))
        if bv is not None:
            texts.append("BFL = %.1f" % (F2 - bv))
            spans.append((bv, F2))
        tags = ["nt", s["k"]]
    else:
        tags = ["no power"]
    tol = 1e-6
    for x in marks:
        check(any(near(x, g, 6e-4) for g in got["marks"]), "no mark at {0}: {1}", x, got["marks"])
    internal = s["k"] == "objective"    # which marks its inside as well
    if not internal:
        for g in got["marks"]:
            check(any(near(x, g, 6e-4) for x in marks), "a mark at {0}; expected {1}", g, marks)
    planes = sorted(float(l.get_xdata()[0]) for l in got["lines"] if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1])
    check(len(planes) == len(lines) and all(near(a, b, tol) for a, b in zip(planes, sorted(lines))), "principal planes drawn at {0}, expected at {1}", planes, sorted(lines))
    ends = []
    for p in got["arrows"]:
        (xa, _), (xb, _) = p._posA_posB
        ends.append((float(xa), float(xb)))
    check(len(ends) == len(spans), "{0} focal lengths drawn, {1} expected", len(ends), len(spans))
    for a, b in spans:
        hit = [e for e in ends if near(e[0], a, tol) and near(e[1], b, tol)]
        check(hit, "no focal length drawn from {0} to {1}: {2}", a, b, ends)
        ends.remove(hit[0])
    gotTexts = [plain(t) for t in got["texts"] if not isFocal(t)]
    focal = [x for t in got["texts"] if isFocal(t) for x in plain(t).split(", ")]
    near0 = lambda t: t.replace("-0.0", "0.0")
    want = sorted(texts)

    def agrees(a, b):
        if "= " in a and "= " in b and a.split("= ")[0] == b.split("= ")[0]:
            x, y = float(a.split("= ")[1]), float(b.split("= ")[1])
            return abs(x - y) <= 0.1001 + 1e-9 * abs(y)
        return a == b
    left = list(gotTexts)
    for t in want:
        hit = [g for g in left if g == t] or [g for g in left if agrees(g, t)]
        check(hit, "no label {0}: {1}", t, sorted(gotTexts))
        left.remove(hit[0])
    check(not left, "labels {0} not expected", left)
    if s["k"] in ("lens", "mirror", "thick"):
        check(sorted(focal) == (["F_b", "F_f"] if o.hasPower else []), "focal points labelled: {0}", focal)
    return tags


# -------------------------------------------------------------- beams, cavities

@st.composite
def beamCases(draw):
    kind = draw(st.sampled_from(["path", "path", "cavity"]))
    lam = draw(gen.num(3e-4, 2e-3, 6))
    if kind == "cavity":
        d = draw(gen.num(10, 200))
        g = draw(st.lists(gen.num(-1.2, 1.2), min_size=2, max_size=2))
        R = [round(d / (1 - x), 3) if abs(1 - x) > 1e-3 else None for x in g]
        return dict(kind=kind, d=d, R=R, lam=lam, comments=draw(st.sampled_from([None, "hello"])))
    e = draw(gen.sequence(1, 5, kinds=["space", "space", "lens", "mirror", "slab", "2f", "ap"], dia=gen.diameter(0.3), nested=0, n=1.0, growth=300, maxd=100))
    lv = optics.leaves(dict(k="group", e=e))
    if optics.length(lv) == 0:
        e.append(dict(k="space", d=draw(gen.num(1, 100)), n=optics.backIndex(lv), D=None))
    size = lambda: [draw(gen.num(0.01, 3)), draw(st.one_of(st.none(), gen.signed(10, 500)))]
    return dict(kind=kind, e=e, beams=[size() for _ in range(draw(st.integers(1, 3)))], lam=lam,
                labels=draw(st.lists(st.sampled_from(["", "lens", "L1"]), min_size=6, max_size=6)), show=draw(st.integers(0, 3)) > 0)


def wantedWaists(path, beams):
    """ (position, half size) of the waists met along a path """
    out = []
    for b in beams:
        for t in path.trace(b):
            q = t.q
            z = t.z - q.real
            if -1e-9 <= z <= path.L + 1e-9:
                out.append((z, math.sqrt(q.imag * t.wavelength / math.pi / t.n), min(abs(z), abs(z - path.L)) < 1e-6 * (1 + path.L)))
    return out


def runBeam(c):
    import raytracing as rt
    if c["kind"] == "cavity":
        R = [INF if r is None else r for r in c["R"]]
        # one round trip, from mirror 1 (included at the end)
        half = [rt.Space(d=c["d"]), rt.CurvedMirror(R=-R[1] if R[1] != INF else INF), rt.Space(d=c["d"]), rt.CurvedMirror(R=-R[0] if R[0] != INF else INF)]
        path = rt.LaserCavity(half, label="cavity")
        g = (1 - c["d"] / R[0]) * (1 - c["d"] / R[1])
        if min(abs(g), abs(g - 1)) < 1e-3:
            raise Skip("at the limit of stability")
        beams = path.laserModes()
        check(bool(beams) == (0 < g < 1), "g1 g2 = {0}: {1} modes", g, len(beams))
        kw = {} if c["comments"] is None else dict(comments=c["comments"])
        title = "cavity"
    else:
        path = rt.LaserPath([optics.build(s) for s in c["e"]], label="laser")
        for el, label in zip(path.elements, c["labels"]):
            el.label = label
        path.showElementLabels = c["show"]
        beams = [rt.GaussianBeam(w=w, R=INF if R is None else R, wavelength=c["lam"]) for w, R in c["beams"]]
        kw = dict(beams=beams)
        title = "laser"
    with screen() as figs:
        import matplotlib.pyplot as plt
        old, got = plt.show, []

        def show(*a, **k):
            got.append(read(plt.gcf()))
            got[-1]["comments"] = [t.get_text() for a in plt.gcf().axes[1:] for t in a.texts]
        plt.show = show
        try:
            path.display(**kw)
        finally:
            plt.show = old
    check(len(got) == 1, "{0} figures", len(got))
    got = got[0]
    check(got["title"] == title, "title: {0}", got["title"])
    if c.get("comments"):
        check(c["comments"] in got["comments"], "comments: {0}", got["comments"])
    red = [l for l in got["lines"] if l.get_color() == "r" and len(l.get_xdata()) > 1]
    check(len(red) == 2 * len(beams), "{0} envelopes for {1} beams", len(red), len(beams))
    want = wantedWaists(path, beams)
    arrows = []
    for p in got["arrows"]:
        (xa, ya), (xb, yb) = p._posA_posB
        arrows.append(tuple(float(v) for v in (xa, ya, xb, yb)))
    sure = [w for w in want if not w[2]]
    for z, w, _ in sure:
        for sign in (1, -1):
            hit = [a for a in arrows if near(a[2], z) and near(a[3], sign * w) and near(a[0], z)]
            check(hit, "no mark of the waist of {0} at {1}: {2}", sign * w, z, arrows)
            check(sign * (hit[0][1] - hit[0][3]) >= 0, "the arrow of a waist comes from the inside of the beam: {0}", hit[0])
    for a in arrows:
        check(any(near(a[2], z) and near(abs(a[3]), w) for z, w, _ in want), "a waist is drawn at {0}; expected {1}", a, want)
    check(2 * len(sure) <= len(arrows) <= 2 * len(want), "{0} arrows for {1} waists", len(arrows), len(want))
    for k, l in enumerate(red):
        check(max(l.get_xdata()) <= path.L * (1 + 1e-9) and min(l.get_xdata()) >= -1e-9, "the envelope goes out of the path")
    if c["kind"] == "cavity":
        for l in red:   # the mode closes on itself
            y = l.get_ydata()
            rel(abs(float(y[0])), abs(float(y[-1])), 1e-5, "size of the mode after a round trip")
        return ["nt", "stable cavity"] if beams else ["unstable cavity"]
    names = []
    for s, label in zip(c["e"], c["labels"] + [""] * 20):
        if s["k"] not in ("space", "2f") and label:
            names.append(label)
    check(got["texts"] == (sorted(names) if c["show"] else []), "labels {0}; expected {1}", got["texts"], names if c["show"] else [])
    return ["nt", "waist in the path"] if sure else ["no waist in the path"]


# ----------------------------------------------------------------- check boxes

@st.composite
def boxCases(draw):
    e = draw(paths(maxSize=5, kinds=KINDS + ["ap", "lens"], nested=1))
    where = -1.0 if generic(e) else 0.5
    return dict(e=e, sets=draw(st.lists(sets(e, where, small=True), max_size=4)), only=draw(st.sampled_from([None, True, False])), remove=draw(st.booleans()),
                showObject=draw(st.integers(0, 3)) > 0, showImages=draw(st.integers(0, 3)) > 0, clicks=draw(st.lists(st.integers(0, 9), min_size=1, max_size=6)),
                zoom=draw(st.sampled_from([None, 0.5, 2.0])))


def groupOf(s):
    """ the name of the box of a set of rays """
    z = s["z"]
    if s["k"] == "object":
        return "Object/Image" if z == 0 else "Object/Image (z={0:.1f})".format(z)
    if s["k"].startswith("lamp"):
        return "Lamp" if z == 0 else "Lamp (z={0:.2f})".format(z)
    return None     # named after their class


def click(fig, text):
    from matplotlib.backend_bases import MouseEvent
    box = text.get_window_extent(fig.canvas.get_renderer())
    for name in ("button_press_event", "button_release_event"):
        MouseEvent(name, fig.canvas, box.x0 + 4, (box.y0 + box.y1) / 2, button=1)._process()


def runBoxes(c):
    import raytracing as rt
    if not optics.isLinear(optics.leaves(dict(k="group", e=c["e"]))):
        raise Skip("not linear")
    path, fresh = [rt.ImagingPath([optics.build(s) for s in c["e"]]) for _ in range(2)]
    path.showObject, path.showImages = c["showObject"], c["showImages"]
    path.design(objectColor=OBJECT, imageColor=IMAGE, FOVColors=[FOV1, FOV2])
    given = [mkset(s) for s in c["sets"]]
    groups, pictures = {}, {}
    for r, s in zip(given, c["sets"]):
        key = groupOf(s) or type(r).__name__
        groups.setdefault(key, []).extend(expectedLines(c["e"], r, c["remove"], s["z"]))
        pictures[key] = pictures.get(key, 0) + (1 if key.startswith("Lamp") else 0)
        if key.startswith("Object"):
            pictures[key] += 1 if c["showObject"] else 0
            if c["showImages"]:
                parts = [c["e"]] if s["z"] == 0 else split(c["e"], s["z"])
                pictures[key] += sum(len(rt.ImagingPath([optics.build(x) for x in p]).intermediateConjugates()) for p in parts)
    kw = dict(raysList=given) if given else {}
    if c["only"] is not None:
        kw["onlyPrincipalAndAxialRays"] = c["only"]
    tags = []

    def act(fig):
        from matplotlib.patches import PathPatch
        fig.canvas.draw()
        ax = fig.axes[0]
        boxes = [a for a in fig.axes[1:] if a.texts]
        check(len(boxes) <= 1, "{0} sets of check boxes", len(boxes))
        if not boxes:
            check(not any(groups.values()), "no check boxes for {0}", sorted(groups))
            return
        names = [t.get_text() for t in boxes[0].texts]
        check(len(set(names)) == len(names), "boxes: {0}", names)
        for k, v in groups.items():
            check((k in names) or not (v or pictures[k]), "no box for {0}: {1}", k, names)
        lines = [l for l in ax.lines if l.get_label() == "ray"]
        shapes = [p for p in ax.patches if isinstance(p, PathPatch)]
        others = [l for l in ax.lines if l.get_label() != "ray"] + [p for p in ax.patches if not isinstance(p, PathPatch)] + list(ax.texts)
        for k in c["clicks"]:
            text = boxes[0].texts[k % len(names)]
            name = text.get_text()
            before = [a.get_visible() for a in lines + shapes + others]
            click(fig, text)
            after = [a.get_visible() for a in lines + shapes + others]
            changed = [a for a, x, y in zip(lines + shapes + others, before, after) if x != y]
            check(len({a.get_visible() for a in changed}) <= 1, "some marks of {0} are shown, others hidden", name)
            l = [a for a in changed if a in lines]
            p = [a for a in changed if a in shapes]
            check(len(l) + len(p) == len(changed), "the box of {0} changes something else", name)
            if name in groups and not (name == "Object/Image" and not any(groupOf(s) and groupOf(s).startswith("Object") for s in c["sets"])):
                sameLines([(a.get_xdata(), a.get_ydata()) for a in l], groups[name], "lines of the box " + name)
                check(len(p) == pictures[name], "{0} marks of the box {1}; expected {2}", len(p), name, pictures[name])
                tags.append("given")
            elif name == "Principal/axial rays":
                rays = [r for r in (fresh.principalRay(), fresh.axialRay()) if r is not None]
                sameLines([(a.get_xdata(), a.get_ydata()) for a in l], segments(fresh, rays, c["remove"]), "principal and axial rays")
                check(len(p) == (0 if fresh.principalRay() is None else 1 + len(fresh.intermediateConjugates())), "{0} marks of the field of view", len(p))
                tags.append("principal")
            else:
                check(name == "Object/Image", "a box for {0}", name)
                for a in p:
                    check(tuple(a.get_edgecolor()[:3]) in (OBJECT, IMAGE), "the box {0} changes a mark of {1}", name, a.get_edgecolor())
            check(changed, "the box {0} changes nothing", name)
            if c["zoom"]:
                low, high = ax.get_ylim()
                ax.set_ylim(low * c["zoom"], high * c["zoom"])
                check([a.get_visible() for a in lines + shapes + others] == after, "zooming shows or hides something")

    with screen():
        import matplotlib.pyplot as plt
        old, count = plt.show, []

        def show(*a, **k):
            count.append(1)
            act(plt.gcf())
        plt.show = show
        try:
            path.display(removeBlocked=c["remove"], **kw)
        finally:
            plt.show = old
        check(len(count) == 1, "{0} figures", len(count))
    return ["nt"] + sorted(set(tags)) if tags else ["nothing given"]


FACETS = [
    Facet("path", pathCases, runPath, quick=150, shards=6, steps=40_000_000, rule="a path displayed with any options"),
    Facet("element", elementCases, runElement, quick=250, shards=2, steps=40_000_000, rule="an element with power displayed"),
    Facet("boxes", boxCases, runBoxes, quick=100, shards=3, steps=40_000_000, rule="a check box clicked for rays given or the principal rays"),
    Facet("beam", beamCases, runBeam, quick=200, shards=2, steps=40_000_000, rule="a beam with a waist in the path, or a stable cavity"),
]
ASSUMPTIONS = ["figures are drawn with the Agg backend and read back from the axes in the units of the axes; labels that would overlap may be moved along the axis, so their positions are read from the labels of the path's figure",
               "a lamp and an object given together: which is shown first is not checked"
]
