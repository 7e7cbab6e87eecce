"""C25: drawing shows the traced rays and leaves the optics unchanged."""
import contextlib
import io

from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, mustRaise, rel
from .c04 import state
from .c05 import mksource

INF = float("inf")
KINDS = ["space", "space", "lens", "lens", "ap", "thick", "slab", "2f", "4f", "doublet", "singlet", "mirror", "iface"]

@contextlib.contextmanager
def screen():
    """ the figures that would be shown, without showing them """
    import matplotlib
    import matplotlib.pyplot as plt
    matplotlib.use("Agg")
    figs = []
    old = plt.show
    plt.show = lambda *a, **k: figs.append(plt.gcf())
    try:
        yield figs
    finally:
        plt.show = old
        plt.close("all")

def raySnapshot(rays):
    l = [rays[i] for i in range(len(rays))]
    out = [(r.y, r.theta, r.z, r.isBlocked, r.apertureDiameter, r.wavelength) for r in l]
    return out, [id(r) for r in l], [repr(getattr(rays, k, None)) for k in ("z", "rayColors", "color", "label", "yMax", "yMin", "thetaMax", "thetaMin")]

def pathSnapshot(path):
    flags = [getattr(path, k) for k in ("label", "showPointsOfInterest", "showElementLabels", "showPointsOfInterestLabels")]
    flags += [getattr(path, k, None) for k in ("objectHeight", "objectPosition", "fanAngle", "fanNumber", "rayNumber", "showEntrancePupil", "showObject", "showImages", "precision", "maxHeight", "inputBeam")]
    sizes = []

    def walk(es):
        for e in es:
            sizes.append((e.label, e.displayHalfHeight(), e.largestDiameter))
            walk(getattr(e, "elements", []) or [])
    walk(path.elements)
    return state(path), flags, dict(path.figure.designParams), sizes

def unchanged(before, after, what):
    for a, b in zip(before, after):
        check(a == b, "{0} is changed by {1}: {2} became {3}", "the path or the rays", what, a, b)

# ------------------------------------------------------------ paths and rays

@st.composite
def paths(draw, maxSize=6, kinds=KINDS, nested=1):
    e = draw(gen.sequence(1, maxSize, kinds=kinds, dia=gen.diameter(0.4), nested=nested, n=1.0, growth=1e3, maxd=100))
    lv = optics.leaves(dict(k="group", e=e))
    if optics.length(lv) == 0:
        e.append(dict(k="space", d=draw(gen.num(1, 100)), n=optics.backIndex(lv), D=None))
    return e

def spaces(e):
    """ (position, length) of the spaces at the top level """
    out, z = [], 0.0
    for s in e:
        L = optics.length(optics.leaves(s))
        if s["k"] == "space":
            out.append((z, L))
        z += L
    return out

@st.composite
def placed(draw, e, where=0.5):
    """ position of a source: the start of the path, or inside of a space """
    ok = [(z, L) for z, L in spaces(e) if L > 1e-6]
    if not ok or draw(gen.num(0, 1)) > where:
        return 0.0
    z, L = draw(st.sampled_from(ok))
    return round(z + L * draw(gen.num(0.05, 0.95)), 6) if L > 1e-3 else z + L / 2

@st.composite
def sets(draw, e, where=0.5, small=False):
    k = draw(st.sampled_from(["object", "object", "lamp", "lamprandom", "list", "Rays", "uniform", "random"]))
    s = dict(k=k, y=draw(gen.num(0.5, 15)), t=draw(gen.num(0.005, 0.3)), m=draw(st.integers(1, 3 if small else 5)), n=draw(st.integers(1, 3 if small else 4)), seed=draw(st.integers(0, 10**6)),
             z=0.0, colors=draw(st.sampled_from([None, None, ["r"], ["b", "k", "g", "y"]])))
    if k in ("list", "Rays"):
        s["rays"] = draw(st.lists(gen.ray(gen.num(-10, 10), gen.num(-0.2, 0.2)), min_size=0 if not small else 1, max_size=6))
    if k in ("object", "lamp", "lamprandom"):
        s["z"] = draw(placed(e, where))
    return s

def mkset(s):
    import numpy as np
    import raytracing as rt
    np.random.seed(s["seed"])
    k = s["k"]
    if k == "object":
        return rt.ObjectRays(diameter=2 * s["y"], halfAngle=s["t"], H=s["m"], T=s["n"], z=s["z"], rayColors=s["colors"])
    if k == "lamp":
        return rt.LampRays(diameter=2 * s["y"], NA=s["t"], N=s["m"], T=s["n"], z=s["z"], rayColors=s["colors"])
    if k == "lamprandom":
        return rt.LampRays(diameter=2 * s["y"], NA=s["t"], N=s["m"] * s["n"], random=True, z=s["z"], rayColors=s["colors"])
    return mksource(s)[0]

def split(e, z):
    """ specs of the parts of the path after and before z (the latter seen from z) """
    pos = 0.0
    for i, s in enumerate(e):
        L = optics.length(optics.leaves(s))
        if pos < z < pos + L:
            n = s.get("n", 1.0)
            after = [dict(k="space", d=pos + L - z, n=n, D=s.get("D"))] + list(e[i + 1:])
            before = [dict(k="space", d=z - pos, n=n, D=s.get("D"))] + [reverse(x) for x in reversed(e[:i])]
            return after, before
        pos += L
    raise Skip("not inside of a space")

def reverse(s):
    """ an element met from the other side (a mirror is the same mirror) """
    if s["k"] == "mirror":
        return s
    return dict(s, flip=s.get("flip", 0) + 1)

def segments(path, rays, removeBlocked, dz=0.0, sign=1):
    """ what the lines of rays through a path must be """
    import raytracing as rt
    out = []
    for r in rays:
        t = path.trace(rt.Ray(r.y, r.theta))
        if r.isBlocked or (removeBlocked and any(x.isBlocked for x in t)):
            continue
        pts = [(dz + sign * x.z, x.y) for x in t if not x.isBlocked]
        if pts:
            out.append(pts)
    return out

def expectedLines(e, rays, removeBlocked, z):
    import raytracing as rt
    make = lambda es: rt.ImagingPath([optics.build(s) for s in es])
    l = [rays[i] for i in range(len(rays))]
    if z == 0:
        return segments(make(e), l, removeBlocked)
    after, before = split(e, z)
    return segments(make(after), l, removeBlocked, z) + segments(make(before), l, removeBlocked, z, -1)

def clean(pts):
    out = []
    for p in pts:
        if not out or p != out[-1]:
            out.append(p)
    return out

def sameLines(got, want, what, subset=False):
    """ the same polylines, in any order """
    got = [clean([(float(x), float(y)) for x, y in zip(*g)]) for g in got]
    want = [clean(w) for w in want]
    if not subset:
        check(len(got) == len(want), "{0}: {1} lines drawn, {2} expected", what, len(got), len(want))
    left = sorted(got, key=lambda p: (len(p), p))
    for w in sorted(want, key=lambda p: (len(p), p)):
        hit = None
        for i, g in enumerate(left):
            if len(g) == len(w) and all(abs(a[0] - b[0]) <= 1e-7 * (1 + abs(b[0])) and abs(a[1] - b[1]) <= 1e-7 * (1 + abs(b[1])) for a, b in zip(g, w)):
                hit = i
                break
        check(hit is not None, "{0}: no line drawn for the ray {1}; left: {2}", what, w, left[:2])
        del left[hit]
    if not subset:
        check(not left, "{0}: lines without a ray: {1}", what, left[:2])

# --------------------------------------------------------------------- lines

def generic(e):
    """ a matrix of unknown nature, which cannot be followed backwards """
    return any(s["k"] == "mat" or generic(s.get("e", [])) for s in e)

@st.composite
def lineCases(draw):
    e = draw(st.one_of(paths(), paths(kinds=KINDS + ["mat", "mat"])))
    where = -1.0 if generic(e) else 0.5
    return dict(e=e, s=draw(sets(e, where)), remove=draw(st.booleans()), d=draw(gen.num(0.1, 20)), x=draw(placed(e, where)))

def runLines(c):
    import raytracing as rt
    path = rt.ImagingPath([optics.build(s) for s in c["e"]])
    path.figure.designParams["removeBlockedRaysCompletely"] = c["remove"]
    rays = mkset(c["s"])
    before = raySnapshot(rays), pathSnapshot(path)
    try:
        want = expectedLines(c["e"], rays, c["remove"], c["s"]["z"])
    except optics.Ambiguous:
        raise Skip("ambiguous")
    for times in range(2):
        lines = path.figure.rayTraceLines(rays)
        sameLines([(l.xData, l.yData) for l in lines], want, "rays of %s at z=%g" % (c["s"]["k"], c["s"]["z"]))
        unchanged(before, (raySnapshot(rays), pathSnapshot(path)), "computing the lines of its rays")
    allowed = c["s"]["colors"] if c["s"]["colors"] is not None and c["s"]["k"] in ("object", "lamp", "lamprandom") else path.figure.designParams["lampRayColors" if c["s"]["k"].startswith("lamp") else "rayColors"]
    for l in lines:
        check(l.color in allowed, "colour of a ray: {0}, expected one of {1}", l.color, allowed)
    # the colours go from the first (lowest start) to the last (highest start)
    if len(set(allowed)) == len(allowed) > 1:
        starts = sorted((float(l.yData[0]), list(allowed).index(l.color)) for l in lines)
        top = max([abs(y) for y, _ in starts] or [0])
        for (ya, a), (yb, b) in zip(starts, starts[1:]):
            check(a <= b or yb - ya <= 1e-9 * top, "colours {0} of {1} are not in the order of the heights: {2}", [b for _, b in starts], allowed, [y for y, _ in starts])
        for y, i in starts:
            if top > 0 and abs(y) == top:
                check(i == (0 if y < 0 else len(allowed) - 1), "the extreme ray at {0} has the colour {1} of {2}", y, i, allowed)
    # images of an object somewhere
    x = c["x"]
    planes = path.figure.graphicsOfConjugatePlanes(c["d"], x=x)
    got = sorted((g.x, g.diameter) for g in planes)
    make = lambda es: rt.ImagingPath([optics.build(s) for s in es])
    if x == 0:
        wantPlanes = [(z, m * c["d"]) for z, m in make(c["e"]).intermediateConjugates()]
    else:
        after, beforeX = split(c["e"], x)
        wantPlanes = [(x + z, m * c["d"]) for z, m in make(after).intermediateConjugates()]
        wantPlanes += [(x - z, m * c["d"]) for z, m in make(beforeX).intermediateConjugates()]
    wantPlanes.sort()
    check(len(got) == len(wantPlanes), "images of an object at {0}: {1}, expected {2}", x, got, wantPlanes)
    for g, w in zip(got, wantPlanes):
        rel(g[0], w[0], 1e-6, "position of an image", atol=1e-6)
        rel(g[1], w[1], 1e-6, "size of an image", atol=1e-6)
    unchanged(before, (raySnapshot(rays), pathSnapshot(path)), "computing its images")
    tags = ["nt"] if want else ["no ray drawn"]
    if c["s"]["z"]:
        tags.append("inside of the path")
    full = sum(1 for w in want if abs(w[-1][0] - optics.length(optics.leaves(dict(k="group", e=c["e"])))) < 1e-9)
    if full < len(want):
        tags.append("cut rays")
    if planes:
        tags.append("images")
    return tags

# ------------------------------------------------------------------ sub-paths

@st.composite
def subCases(draw):
    e = draw(paths(maxSize=7, kinds=KINDS + ["axicon", "mat"], nested=2))
    total = optics.length(optics.leaves(dict(k="group", e=e)))
    return dict(e=e, z=draw(st.one_of(placed(e, 1.0), placed(e, 1.0), placed(e, 1.0), gen.num(-10, total + 10), st.just(0.0))), back=draw(st.booleans()) and not generic(e), rays=draw(st.lists(gen.ray(gen.num(-8, 8), gen.num(-0.2, 0.2)), min_size=1, max_size=4)),
                flips=draw(st.integers(0, 2)))

def runSub(c):
    import raytracing as rt
    path = rt.ImagingPath([optics.build(s) for s in c["e"]])
    before = pathSnapshot(path)
    inside = any(z < c["z"] < z + L for z, L in spaces(c["e"]))
    margin = min([abs(c["z"] - b) for z, L in spaces(c["e"]) for b in (z, z + L)] or [1.0])
    if 0 < margin < 1e-9:
        raise Skip("at the edge of a space")
    if not inside:
        mustRaise((ValueError, AssertionError), "a position outside of any space", path.subPath, c["z"], backwards=c["back"])
        unchanged(before, pathSnapshot(path), "a refused sub-path")
        return ["nt", "refused"]
    sub = path.subPath(c["z"], backwards=c["back"])
    unchanged(before, pathSnapshot(path), "making a sub-path")
    check(isinstance(sub, rt.ImagingPath), "a sub-path is a {0}", type(sub).__name__)
    want = split(c["e"], c["z"])[1 if c["back"] else 0]
    model = dict(k="group", e=want)
    lv = optics.leaves(model)
    m = optics.total(lv)
    for i, n in enumerate("ABCD"):
        expect(getattr(sub, n), m.m[i], 1e-10 * (1 + m.a[i]), "{0} of the sub-path".format(n))
    L = optics.length(lv)
    expect(sub.L, L, 1e-9 * (1 + L), "length of the sub-path")
    expect(sub.frontIndex, optics.frontIndex(lv), 1e-12, "front index of the sub-path")
    expect(sub.backIndex, optics.backIndex(lv), 1e-12, "back index of the sub-path")
    for r in c["rays"]:
        got = sub.trace(rt.Ray(r["y"], r["theta"]))
        try:
            exp = optics.traceSpec(model, optics.R(r["y"], r["theta"]))
        except optics.Ambiguous:
            continue
        check(len(got) == len(exp), "{0} rays in the trace of the sub-path, expected {1}", len(got), len(exp))
        for g, w in zip(got, exp):
            expect(g.y, w.y, w.ey * 4 + 1e-9 * (1 + abs(w.y)), "height in the sub-path")
            expect(g.theta, w.t, w.et * 4 + 1e-9 * (1 + abs(w.t)), "angle in the sub-path")
            expect(g.z, w.z, 1e-9 * (1 + L), "position in the sub-path")
            check(bool(g.isBlocked) == w.blocked, "blocked in the sub-path: {0}, expected {1}", g.isBlocked, w.blocked)
    unchanged(before, pathSnapshot(path), "tracing in a sub-path")
    # using the backward part as a path of its own leaves the original alone
    if c["back"]:
        for _ in range(c["flips"]):
            sub.flipOrientation()
        unchanged(before, pathSnapshot(path), "flipping its backward sub-path")
    return ["nt", "backward" if c["back"] else "forward"]

# -------------------------------------------------------------------- display

@st.composite
def displayCases(draw):
    e = draw(paths(maxSize=5, kinds=[k for k in KINDS if k != "thick"] + ["thick"]))
    names = st.sampled_from(["", "", "lens", "L1"])
    if draw(st.integers(0, 9)) == 0:    # nothing but the elements to show
        return dict(e=[dict(k="ap", D=1e-3)] + [dict(k="space", d=draw(gen.num(1, 100)), n=1.0, D=None)], sets=[dict(k="object", y=5.0, t=0.01, m=2, n=draw(st.integers(1, 3)), seed=0, z=0.0, colors=None)], single=draw(st.booleans()), remove=True,
                    only=draw(st.sampled_from([None, True, False])), limit=None, interactive=draw(st.integers(0, 3)) > 0, comments=None, height=None, pupil=False,
                    flags=[False] * 5, style=None, save=False, same=False, withObject=False, labels=[""] * 5)
    return dict(e=e, sets=draw(st.lists(sets(e, 0.3, small=True), max_size=3)), single=draw(st.booleans()), remove=draw(st.sampled_from([None, True, False])),
                only=draw(st.sampled_from([None, True, False])), limit=draw(st.sampled_from([None, True, False])), interactive=draw(st.booleans()),
                comments=draw(st.sampled_from([None, "two\nlines"])), height=draw(st.sampled_from([None, None, 4.0, 25.0])), pupil=draw(st.booleans()),
                flags=[draw(st.integers(0, 4)) > 0 for _ in range(5)], style=draw(st.sampled_from([None, None, "publication", "presentation"])),
                save=draw(st.integers(0, 3)) == 0, same=draw(st.integers(0, 4)) == 0, withObject=draw(st.integers(0, 4)) == 0, labels=draw(st.lists(names, min_size=5, max_size=5)))

def grab(fig):
    ax = fig.axes[0]
    lines = [(list(l.get_xdata()), list(l.get_ydata()), l.get_visible()) for l in ax.lines if l.get_label() == "ray"]
    return lines, ax

def runDisplay(c):
    import raytracing as rt
    elements = [optics.build(s) for s in c["e"]]
    for el, label in zip(elements, c["labels"]):
        el.label = label
    path = rt.ImagingPath(elements, label="path")
    if c["height"] is not None:
        path.objectHeight = c["height"]
    path.showPointsOfInterest, path.showElementLabels, path.showPointsOfInterestLabels, path.showObject, path.showImages = c["flags"]
    path.showEntrancePupil = c["pupil"]
    if c["style"]:
        path.design(style=c["style"])
    given = [mkset(s) for s in c["sets"]]
    specs = list(c["sets"])
    if c["same"] and given:
        given.append(given[0])
        specs.append(specs[0])
    withObject = c["withObject"]
    if withObject:
        given, specs = [], []
    fresh = rt.ImagingPath([optics.build(s) for s in c["e"]])
    stop = fresh.apertureStop()
    principal = [r for r in (fresh.principalRay(), fresh.axialRay()) if r is not None] if stop.z is not None else []

    kw = {}
    if c["remove"] is not None:
        kw["removeBlocked"] = c["remove"]
    remove = True if c["remove"] is None else c["remove"]
    raysList = list(given)
    if not withObject:
        if c["only"] is not None:
            kw["onlyPrincipalAndAxialRays"] = c["only"]
        if c["limit"] is not None:
            kw["limitObjectToFieldOfView"] = c["limit"]
        if len(given) == 1 and c["single"]:
            kw["rays"] = given[0]
        elif c["single"] and given:
            kw["rays"], kw["raysList"] = given[-1], raysList[:-1]
        elif given:
            kw["raysList"] = raysList
    if c["comments"] is not None:
        kw["comments"] = c["comments"]
    listBefore = [list(kw["raysList"])] if "raysList" in kw else []
    before = [raySnapshot(r) for r in given] + [pathSnapshot(path)]
    want = []
    for r, s in zip(given, specs):
        want += expectedLines(c["e"], r, remove, s["z"])
    wantPrincipal = segments(fresh, principal, remove)

    previous = None
    for times in range(2):
        with screen() as figs:
            if withObject:
                path.displayWithObject(diameter=8.0, fanAngle=0.02, fanNumber=3, rayNumber=2, **kw)
            elif c["save"]:
                import matplotlib.pyplot as plt
                out = io.BytesIO()
                old = plt.rcParams["savefig.format"]
                plt.rcParams["savefig.format"] = "svg"
                try:
                    path.saveFigure(out, **kw)
                finally:
                    plt.rcParams["savefig.format"] = old
                check(len(out.getvalue()) > 100, "nothing saved")
                check(not figs, "saving a figure shows it")
                figs.append(plt.gcf())
            else:
                path.display(interactive=c["interactive"], **kw)
            check(len(figs) == 1, "{0} figures shown", len(figs))
            check(len(__import__("matplotlib.pyplot").pyplot.get_fignums()) == 1, "several figures are made")
            lines, ax = grab(figs[0])
            title = ax.get_title()
            comments = [t.get_text() for a in figs[0].axes[1:] for t in a.texts]
        check(title == "path", "title: {0}", title)
        if c["comments"] is not None:
            check(c["comments"] in comments, "comments: {0}", comments)
        after = [raySnapshot(r) for r in given] + [pathSnapshot(path)]
        unchanged(before, after, "displaying")
        check([list(kw["raysList"])] == listBefore if listBefore else True, "the list of rays given is changed")
        if previous is None:
            all_ = [(x, y) for x, y, v in lines]
            visible = [(x, y) for x, y, v in lines if v]
            extra = want + wantPrincipal
            hasObject = any(s["k"] == "object" for s in specs)
            if withObject:
                rays = rt.ObjectRays(8.0, halfAngle=0.02, H=3, T=2)
                sameLines(all_, expectedLines(c["e"], rays, remove, 0.0) + wantPrincipal, "displayWithObject")
            elif hasObject:
                sameLines(all_, extra, "display")
            else:   # and the default object
                sameLines(all_, extra, "display", subset=True)
                rest = len(all_) - len(extra)
                check(0 <= rest <= 9, "{0} lines for the default object", rest)
            if not any(s["k"].startswith("lamp") for s in specs):
                if given:
                    sameLines(visible, want, "visible lines", subset=True)
            if not given and not withObject and c["only"] is not False and len(principal) == 2:   # otherwise the default object is shown
                sameLines(visible, wantPrincipal, "principal and axial rays")
            if given:   # the principal rays are not asked for
                check(len(visible) <= len(all_) - len(wantPrincipal), "principal rays are shown with others")
            previous = lines
        else:
            check(len(lines) == len(previous), "{0} lines displayed the second time, {1} the first", len(lines), len(previous))
            for a, b in zip(lines, previous):
                check(a[2] == b[2] and clean(list(zip(*a[:2]))) == clean(list(zip(*b[:2]))), "displaying again shows other lines")
    # the path still works
    r = rt.Ray(0.1, 0.001)
    check([(x.y, x.z, x.isBlocked) for x in path.trace(r)] == [(x.y, x.z, x.isBlocked) for x in fresh.trace(r)], "the path traces differently once displayed")
    tags = ["nt", "saved" if c["save"] and not withObject else "shown"]
    if not given:
        tags.append("default rays")
    if any(s["z"] for s in specs):
        tags.append("inside of the path")
    return tags

# ---------------------------------------------------------------- laser beams

@st.composite
def laserCases(draw):
    far = draw(st.booleans())
    e = draw(gen.sequence(1, 5, kinds=["space", "space", "lens", "mirror", "slab", "2f", "ap", "iface", "iface"], dia=gen.diameter(0.3), nested=0, n=1.0, growth=3000 if far else 300, maxd=1000 if far else 100))
    lv = optics.leaves(dict(k="group", e=e))
    if optics.length(lv) == 0:
        e.append(dict(k="space", d=draw(gen.num(1, 100)), n=optics.backIndex(lv), D=None))
    beam = lambda: dict(w=draw(gen.num(0.01, 3)), R=draw(st.one_of(st.none(), gen.signed(10, 500))), lam=draw(gen.num(3e-4, 2e-3, 6)))
    return dict(e=e, beams=[beam() for _ in range(draw(st.integers(1, 2)))], attribute=draw(st.booleans()), comments=draw(st.sampled_from([None, "hello"])))

def runLaser(c):
    import raytracing as rt
    beams = [rt.GaussianBeam(w=b["w"], R=INF if b["R"] is None else b["R"], wavelength=b["lam"]) for b in c["beams"]]
    path = rt.LaserPath([optics.build(s) for s in c["e"]], label="laser")
    if c["attribute"]:
        beams = beams[:1]
        path.inputBeam = beams[0]
    beamState = [(b.q, b.w, b.R, b.n, b.wavelength, b.z, b.isClipped) for b in beams]
    before = pathSnapshot(path)
    kw = {} if c["comments"] is None else dict(comments=c["comments"])
    fresh = rt.LaserPath([optics.build(s) for s in c["e"]])
    L = optics.length(optics.leaves(dict(k="group", e=c["e"])))
    counts = []
    for times in range(2):
        with screen() as figs:
            path.display(**({} if c["attribute"] else dict(beams=beams)), **kw)
            check(len(figs) == 1, "{0} figures shown", len(figs))
            ax = figs[0].axes[0]
            lines = [([float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()]) for l in ax.lines if len(l.get_xdata()) > 1 and l.get_color() == "r"]
            counts.append((len(ax.lines), len(ax.patches), len(ax.texts)))
            comments = [t.get_text() for a in figs[0].axes[1:] for t in a.texts]
        if kw:
            check(c["comments"] in comments, "comments: {0}", comments)
        unchanged(before, pathSnapshot(path), "displaying")
        check([(b.q, b.w, b.R, b.n, b.wavelength, b.z, b.isClipped) for b in beams] == beamState, "the beams are changed by displaying")
        check(len(lines) == 2 * len(beams), "{0} envelopes for {1} beams", len(lines), len(beams))
        for b in beams:
            trace = fresh.trace(b)
            pair = []
            for x, y in lines:
                # the envelope goes through every traced point ...
                ok = all(any(abs(t.z - xx) <= 1e-7 * (1 + L) and abs(abs(yy) - t.w) <= 1e-6 * (1 + t.w) for xx, yy in zip(x, y)) for t in trace)
                if ok:
                    pair.append((x, y))
            check(len(pair) >= 2, "no envelope for a beam of w={0}", b.w)
            check(any(min(y) >= 0 for x, y in pair) and any(max(y) <= 0 for x, y in pair), "the envelope is on one side of the axis only")
            x, y = pair[0]
            check(all(p <= q + 1e-7 * (1 + L) for p, q in zip(x, x[1:])), "the positions of an envelope are not in order")
            # ... and follows the beam in between
            for s, (z0, Ls) in zip([s for s in c["e"] if s["k"] == "space"], spaces(c["e"])):
                start = [t for t in trace if abs(t.z - z0) <= 1e-7 * (1 + L)]
                inside = [(xx, yy) for xx, yy in zip(x, y) if z0 + 1e-6 * (1 + L) < xx < z0 + Ls - 1e-6 * (1 + L)]
                if Ls > 1 and start:
                    check(len(inside) >= 10, "the envelope has {0} points in a space of {1}", len(inside), Ls)
                    for xx, yy in inside[::17]:
                        w = rt.Space(d=xx - z0, n=s.get("n", 1.0)).mul_beam(start[-1]).w
                        rel(abs(yy), w, 1e-5, "envelope of a beam at z=%g" % xx)
    check(counts[0] == counts[1], "displaying again: {0} lines, patches and labels, then {1}", counts[0], counts[1])
    return ["nt", "%d beams" % len(beams)]

FACETS = [
    Facet("lines", lineCases, runLines, quick=1000, shards=3, rule="at least one ray drawn"),
    Facet("subpath", subCases, runSub, quick=900, shards=2, rule="a position inside of a space, or refused"),
    Facet("display", displayCases, runDisplay, quick=160, shards=4, rule="a path displayed or saved twice with any options"),
    Facet("laser", laserCases, runLaser, quick=160, shards=2, steps=40_000_000, rule="a laser path displayed twice"),
]
ASSUMPTIONS = ["figures are drawn with the Agg backend and read back from the axes: ray lines are those labelled 'ray'",
               "paths with a positive length; sources inside of the path are within a space, as the library requires"]
