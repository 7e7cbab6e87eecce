"""C26: the surfaces of an element describe its optics in any orientation."""
import math

from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, Violation, check, expect, rel
from .c21 import catalogue, isDoublet, mats, spec, stated

INF = float("inf")


def compose(surfaces, n):
    """ the matrix (M), length and last index of light going through surfaces, coming from an index n """
    m, L = optics.M(), 0.0
    for s in surfaces:
        m = optics.M(optics.primMatrix(("refr", n, s.n, s.R))).after(m)
        n = s.n
        if s.L:
            m = optics.M(optics.primMatrix(("gap", s.L))).after(m)
            L += s.L
    return m, L, n


def describe(surfaces):
    return [(getattr(s, "R", None), s.n, s.L) for s in surfaces]


def asTheModel(o, lv, what, atol=0.0):
    """ the surfaces of o give the matrix of the model (and the element too) """
    sf = o.surfaces
    got, L, n = compose(sf, optics.frontIndex(lv))
    want = optics.total(lv)
    d = describe(sf)
    for i, name in enumerate("ABCD"):
        tol = 1e-10 * (1 + want.a[i]) + atol
        expect(got.m[i], want.m[i], tol, "{0} of the surfaces {1} of {2}".format(name, d, what))
        expect(getattr(o, name), want.m[i], tol, "{0} of {1}".format(name, what))
    length = optics.length(lv)
    expect(L, length, 1e-9 * (1 + length), "total spacing of the surfaces of " + what)
    expect(o.L, length, 1e-9 * (1 + length), "length of " + what)
    expect(n, optics.backIndex(lv), 1e-12, "index after the last surface of " + what)
    return sf


# ------------------------------------------------------------------- elements

@st.composite
def compounds(draw):
    """ interfaces with one or several spaces in between, from air to air or not """
    n = draw(st.one_of(st.just(1.0), st.just(1.0), gen.index))
    D = draw(gen.diameter(0.4))
    e = []
    count = draw(st.integers(1, 4))
    for i in range(count):
        n2 = draw(gen.index) if i < count - 1 else draw(st.one_of(st.just(1.0), st.just(1.0), gen.index))
        e.append(dict(k="iface", n1=n, n2=n2, R=draw(gen.radius()), D=D))
        n = n2
        if i < count - 1:
            for _ in range(draw(st.sampled_from([1, 1, 1, 2, 0]))):
                e.append(dict(k="space", d=draw(gen.num(0.1, 20)), n=n, D=None))
    return dict(k="compound", e=e)


@st.composite
def elements(draw):
    k = draw(st.sampled_from(["iface", "thick", "thick", "slab", "doublet", "doublet", "singlet", "compound", "compound"]))
    if k == "compound":
        return draw(compounds())
    if k == "iface":
        return dict(k=k, n1=draw(gen.index), n2=draw(gen.index), R=draw(gen.radius()), D=draw(gen.diameter()))
    if k in ("doublet", "singlet"):
        return draw(gen.cemented(k, flip=False))
    return draw(gen.element(kinds=[k]))


@st.composite
def cases(draw):
    s = draw(elements())
    return dict(s=s, ops=draw(st.lists(st.sampled_from(["flip", "flip", "flip", "group", "draw", "touch", "trace"]), max_size=7)))


def run(c):
    import raytracing as rt
    from raytracing.graphics import GraphicOf
    s = c["s"]
    o = optics.build(s)
    group = rt.MatrixGroup([o])
    flips = 0
    model = lambda: optics.leaves(dict(s, flip=flips))
    asTheModel(o, model(), "a new " + s["k"])
    for op in c["ops"]:
        if op == "flip":
            check(o.flipOrientation() is o, "flipOrientation returns another object")
            flips += 1
        elif op == "group":
            group.flipOrientation()
            flips += 1
        elif op == "draw":
            GraphicOf(o, x=3.0, minSize=5.0).components
        elif op == "touch":      # what is listed is a description, not the element
            for x in o.surfaces:
                x.L, x.n = x.L + 1.0, 3.0
                if hasattr(x, "R"):
                    x.R = 7.0
            o.surfaces.reverse()
        else:
            o.trace(rt.Ray(0.1, 0.01))
        asTheModel(o, model(), "a {0} after {1}".format(s["k"], c["ops"]))
        check(describe(o.surfaces) == describe(o.surfaces), "the surfaces change from one reading to the next")
    tags = [s["k"], "flipped" if flips % 2 else "not flipped"]
    m = optics.total(model())
    if abs(m.C) > 1e-6:
        tags.append("nt")
    if len(set(c["ops"])) > 1:
        tags.append("history")
    return tags


# ------------------------------------------------------------------ in a path

@st.composite
def groupCases(draw):
    e, n = [], 1.0
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["space", "thick", "doublet", "singlet", "slab", "iface", "group"]))
        if k == "group":
            if n != 1.0:
                continue
            s = dict(k="group", cls="MatrixGroup", e=[draw(gen.cemented(flip=True)), dict(k="space", d=draw(gen.num(0.1, 50)), n=1.0, D=None), draw(gen.element(kinds=["thick", "slab"]))])
        elif k == "space":
            s = dict(k="space", d=draw(gen.num(0.1, 50)), n=n, D=None)
        elif k == "iface":
            s = dict(k="iface", n1=n, n2=draw(gen.index), R=draw(gen.radius()), D=None)
            n = s["n2"]
        elif n != 1.0:
            continue
        elif k in ("doublet", "singlet"):
            s = draw(gen.cemented(k))
        else:
            s = draw(gen.element(kinds=[k]))
        e.append(s)
    return dict(e=e, cls=draw(st.sampled_from(["MatrixGroup", "ImagingPath", "OpticalPath"])), flips=draw(st.integers(0, 4)))


def parts(elements):
    """ elements with surfaces, and spaces, in the order met by light """
    import raytracing as rt
    for e in elements:
        if isinstance(e, rt.Space):
            yield e
        elif e.surfaces:
            yield e
        else:
            yield from parts(e.elements)


def runGroup(c):
    """ following all surfaces and spaces of a group flipped as a whole gives its matrix """
    import raytracing as rt
    s = dict(k="group", cls=c["cls"], e=c["e"])
    o = optics.build(s)
    for _ in range(c["flips"]):
        o.flipOrientation()
    lv = optics.leaves(dict(s, flip=c["flips"]))
    if not lv:
        raise Skip("empty")
    n = optics.frontIndex(lv)
    m, L, count = optics.M(), 0.0, 0
    for p in parts(o.elements):
        if isinstance(p, rt.Space):
            m = optics.M(optics.primMatrix(("gap", p.L))).after(m)
            L += p.L
        else:
            k, l, n = compose(p.surfaces, n)
            m, L, count = k.after(m), L + l, count + 1
    want = optics.total(lv)
    for i, name in enumerate("ABCD"):
        expect(m.m[i], want.m[i], 1e-9 * (1 + want.a[i]), "{0} of the surfaces of a group flipped {1} times".format(name, c["flips"]))
    length = optics.length(lv)
    expect(L, length, 1e-9 * (1 + length), "total spacing in a group")
    return ["nt", "flipped" if c["flips"] % 2 else "not flipped"] if count and abs(want.C) > 1e-6 else ["trivial"]


# ------------------------------------------------------------------ catalogue

@st.composite
def lensCases(draw):
    return dict(lens=draw(st.sampled_from(sorted(catalogue()))), flips=draw(st.integers(0, 4)), w=draw(st.one_of(st.none(), gen.num(0.45, 0.9))))


def runLens(c):
    cls = catalogue()[c["lens"]]
    base = cls()
    glass = [m for m in mats(base)]
    if c["w"] is not None and any(m is None for m in glass):
        raise Skip("glass unknown")
    try:
        o = base if c["w"] is None else cls(wavelength=c["w"])
    except TypeError as err:
        raise Violation("{0} of known glasses cannot be used at another wavelength: {1}".format(c["lens"], err))
    p = stated(o)
    if any(g is None for g in glass):
        n = [e.n2 for e in o.elements if hasattr(e, "n2")][:-1]
    else:
        n = [(g if not isinstance(g, type) else g()).n(c["w"] if c["w"] is not None else o.wavelengthRef) for g in glass]
    s = spec({k: (None if isinstance(v, float) and math.isinf(v) else v) for k, v in p.items()}, isDoublet(o), n)
    for _ in range(c["flips"]):
        o.flipOrientation()
    sf = asTheModel(o, optics.leaves(dict(s, flip=c["flips"])), "{0} flipped {1} times".format(c["lens"], c["flips"]))
    check(len(sf) == (3 if isDoublet(o) else 2), "{0} surfaces", len(sf))
    return ["nt", "flipped" if c["flips"] % 2 else "not flipped"]


# --------------------------------------------------------------------- mirror

@st.composite
def mirrorCases(draw):
    return dict(R=draw(st.one_of(gen.signed(1, 1000), gen.signed(1, 1000), st.none())), flips=draw(st.integers(0, 5)), D=draw(st.one_of(st.none(), gen.num(0.5, 1.9))), x=draw(gen.num(-20, 20)))


def runMirror(c):
    import raytracing as rt
    from raytracing.graphics import GraphicOf
    o = rt.CurvedMirror(R=INF if c["R"] is None else c["R"], diameter=INF if c["D"] is None else c["D"])
    for i in range(c["flips"] + 1):
        sf = o.surfaces
        check(len(sf) == 1, "{0} surfaces for a mirror", len(sf))
        if c["R"] is None:
            check(math.isinf(sf[0].R) and o.C == 0, "a plane mirror flipped {0} times has a radius of {1} and C={2}", i, sf[0].R, o.C)
            R = INF
        else:
            R = c["R"] * (-1) ** i
            rel(sf[0].R, R, 1e-12, "radius of a mirror flipped %d times" % i)
            rel(o.C, 2.0 / R, 1e-12, "C of a mirror flipped %d times" % i)
        g = GraphicOf(o, x=c["x"])
        h = o.displayHalfHeight()
        pts = [(float(x), float(y)) for comp in g.mainComponents for b in comp.bezierCurves for x, y in b.controlPoints]
        for y in (-h, h):
            x = sagOf(R, h)
            check(any(abs(a - x) <= 1e-9 * (1 + abs(x)) and abs(b - y) <= 1e-9 * h for a, b in pts), "the edge of a mirror of radius {0} is not drawn at {1}: {2}", R, (x, y), pts)
        followsArcs([b for comp in g.mainComponents for b in comp.bezierCurves], [(0.0, R)], h)
        o.flipOrientation()
    return ["nt"] if c["flips"] else ["not flipped"]


# -------------------------------------------------------------------- outline

@st.composite
def outlineCases(draw):
    s = draw(elements())
    s["flip"] = draw(st.integers(0, 3))
    return dict(s=s, x=draw(gen.num(0, 100)), minSize=draw(st.sampled_from([0, 5, 30])))


def sagOf(R, h):
    if math.isinf(R):
        return 0.0
    return math.copysign(abs(R) - math.sqrt(R * R - h * h), R) if h <= abs(R) else R


def followsArcs(curves, surfaces, h):
    """ between the edge and the vertex, the drawing stays close to the arc of circle
        surfaces: (vertex, radius) """
    for b in curves:
        pts = [(float(x), float(y)) for x, y in b.controlPoints]
        if len(pts) != 3:
            continue
        ends = [pts[0], pts[-1]]
        mine = [(z, R) for z, R in surfaces if not math.isinf(R) and h <= abs(R) and any(abs(x - z) <= 1e-6 * (1 + abs(z)) and abs(y) <= 1e-6 * h for x, y in ends)]
        if not mine:
            continue
        errors = []
        for z, R in mine:
            worst = 0.0
            for t in (0.25, 0.5, 0.75):
                x, y = [(1 - t) ** 2 * pts[0][i] + 2 * t * (1 - t) * pts[1][i] + t * t * pts[2][i] for i in (0, 1)]
                worst = max(worst, abs(x - z - sagOf(R, min(abs(y), h))) / abs(sagOf(R, h)) if abs(y) <= h * (1 + 1e-9) else INF)
            errors.append(worst)
        tiny = min(abs(sagOf(R, h)) for z, R in mine) < 1e-6 * (1 + max(abs(z) for z, R in mine))
        check(tiny or min(errors) < 0.15, "the curve {0} is not along the surface (vertex, radius) {1}", pts, mine)


def runOutline(c):
    """ the surfaces are drawn where they are, with their curvature """
    from raytracing.graphics import GraphicOf
    o = optics.build(c["s"])
    lv = optics.leaves(c["s"])
    prims = [p for l in lv for p in l.prims]
    # position and radius of the surfaces of the model
    z, want = 0.0, []
    for p in prims:
        if p[0] == "gap":
            z += p[1]
        else:
            want.append((z, p[3]))
    if any(a[0] == b[0] for a, b in zip(want, want[1:])):
        raise Skip("surfaces in contact are drawn as a thin lens")
    g = GraphicOf(o, x=c["x"], minSize=c["minSize"])
    check(g.x == c["x"], "drawn at {0}, expected {1}", g.x, c["x"])
    h = o.displayHalfHeight()
    check(h > 0 and math.isfinite(h), "height of the drawing: {0}", h)
    if math.isfinite(o.apertureDiameter):
        rel(h, o.apertureDiameter / 2, 1e-9, "height of the drawing")
    comps = g.mainComponents
    check(len(comps) == max(1, len(want) - 1), "{0} parts drawn for {1} surfaces", len(comps), len(want))
    pairs = list(zip(want, want[1:])) if len(want) > 1 else [(want[0],)]
    for comp, pair in zip(comps, pairs):
        pts = {(round(float(x), 7), round(float(y), 7)) for b in comp.bezierCurves for x, y in b.controlPoints}
        near = lambda x, y: any(abs(px - x) <= 1e-6 * (1 + abs(x)) and abs(py - y) <= 1e-6 * (1 + abs(y)) for px, py in pts)
        for zz, R in pair:
            for y in (-h, h):
                check(near(zz + sagOf(R, h), y), "the edge of the surface of radius {0} at {1} is not drawn at {2}: {3}", R, zz, (zz + sagOf(R, h), y), sorted(pts))
            if not math.isinf(R):
                check(near(zz, 0.0), "the vertex of the surface of radius {0} is not drawn at {1}: {2}", R, zz, sorted(pts))
        followsArcs(comp.bezierCurves, pair, h)
    if len(want) > 1:   # the aperture bars go from the first edge to the last
        ends = [want[0][0] + sagOf(want[0][1], h), want[-1][0] + sagOf(want[-1][1], h)]
        bars = [[(float(x), float(y)) for x, y in b.controlPoints] for comp in g.apertureComponents for b in comp.bezierCurves]
        if ends[1] - ends[0] > 0.011:
            for bar in bars:
                (xa, ya), (xb, yb) = bar[0], bar[-1]
                check(abs(abs(ya) - h) <= 1e-9 * h and ya == yb, "a bar at {0}, expected at a height of {1}", bar, h)
                for got, w in zip(sorted([xa, xb]), ends):
                    check(abs(got - w) <= 1e-6 * (1 + abs(w)), "a bar of the aperture goes from {0} to {1}; the edges are at {2}", xa, xb, ends)
    check(describe(o.surfaces) == describe(optics.build(c["s"]).surfaces), "drawing changes the surfaces")
    return ["nt" if any(not math.isinf(R) for _, R in want) else "plane", "flipped" if c["s"]["flip"] % 2 else "not flipped", c["s"]["k"]]


@st.composite
def pairCases(draw):
    h = draw(gen.num(0.5, 20))
    def surface():
        k = draw(st.sampled_from(["sphere", "sphere", "flat", "cone"]))
        return dict(k=k, R=draw(gen.signed(1, 500)) if k == "sphere" else None, a=draw(gen.signed(0.001, 1.2)) if k == "cone" else None)
    return dict(a=surface(), b=surface(), h=h, x=draw(gen.num(-50, 50)), L=draw(gen.num(0.1, 30)), n=draw(gen.glass), alone=draw(st.booleans()))


def runPair(c):
    """ any pair of surfaces (or one alone): edges and vertices are where the geometry says """
    from raytracing.graphicComponents import Surface, SurfacePair
    from raytracing.interface import ConicalInterface, FlatInterface, SphericalInterface
    h, x, L = c["h"], c["x"], c["L"]

    def make(s, L):
        if s["k"] == "cone":
            return ConicalInterface(s["a"], L=L, n=c["n"])
        return FlatInterface(L=L, n=c["n"]) if s["k"] == "flat" else SphericalInterface(s["R"], L=L, n=c["n"])
    alone = c["alone"] and c["a"]["k"] != "cone"
    first = make(c["a"], L)
    comp = Surface(first, halfHeight=h, x=x) if alone else SurfacePair(first, make(c["b"], 0.0), halfHeight=h, x=x)
    sag = lambda s, sign: sign * math.tan(s["a"]) * h if s["k"] == "cone" else sagOf(INF if s["R"] is None else s["R"], h)
    pts = [(float(px), float(py)) for b in comp.bezierCurves for px, py in b.controlPoints]
    near = lambda px, py: any(abs(a - px) <= 1e-9 * (1 + abs(px)) and abs(b - py) <= 1e-9 * (1 + abs(py)) for a, b in pts)
    want = [(c["a"], x, -1)] + ([] if alone else [(c["b"], x + L, 1)])
    for s, z, sign in want:
        for y in (-h, h):
            check(near(z + sag(s, sign), y), "the edge of a {0} surface {1} is not drawn at {2}: {3}", s["k"], s, (z + sag(s, sign), y), pts)
        if s["k"] != "flat":
            check(near(z, 0.0), "the vertex of a {0} surface is not drawn at {1}: {2}", s["k"], z, pts)
    followsArcs(comp.bezierCurves, [(z, s["R"]) for s, z, sign in want if s["k"] == "sphere"], h)
    check(first.L == L, "drawing changes the spacing {0} to {1}", L, first.L)
    return ["nt" if any(s["k"] != "flat" for s, *_ in want) else "plane", c["a"]["k"] + ("" if alone else "-" + c["b"]["k"])]


FACETS = [
    Facet("elements", cases, run, quick=2500, shards=2, rule="an element with power, after a history of flips (alone or by its group), drawings and readings"),
    Facet("groups", groupCases, runGroup, quick=1500, shards=2, rule="a group with power and at least one element with surfaces"),
    Facet("lenses", lensCases, runLens, quick=1200, shards=2, rule="a catalogue lens of known glasses, at any wavelength and orientation"),
    Facet("mirrors", mirrorCases, runMirror, quick=200, rule="at least one flip"),
    Facet("pairs", pairCases, runPair, quick=1000, rule="at least one surface that is not a plane"),
    Facet("outline", outlineCases, runOutline, quick=1500, shards=2, rule="at least one curved surface drawn"),
]
ASSUMPTIONS = ["thin lenses and axicons are drawn with arbitrary surfaces (documented): not judged",
               "light comes from the front index of the element; composition of surfaces uses textbook refraction and translation matrices"]
