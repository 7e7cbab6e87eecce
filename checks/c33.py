"""C33: asking questions about a system changes nothing."""
import copy
import math
import warnings
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check

INF = float("inf")
KINDS = ["space", "space", "lens", "lens", "ap", "iface", "thick", "slab", "2f", "4f", "mirror", "mat", "doublet", "singlet", "axicon"]
CATALOGUE = [("thorlabs", "AC254_100_A"), ("thorlabs", "ACN254_100_A"), ("eo", "PN_33_921"), ("olympus", "LUMPlanFL40X"), ("olympus", "XLUMPlanFLN20X")]
ELEMENT = ("A", "B", "C", "D", "L", "frontVertex", "backVertex", "frontIndex", "backIndex", "apertureDiameter", "apertureNA", "label", "isFlipped")
OWN = ("f", "R", "R1", "R2", "R3", "n", "n1", "n2", "tc1", "tc2", "tc", "te", "alpha", "wavelength", "NA", "objectHeight", "objectPosition", "showImages", "showObject", "showEntrancePupil", "showElementLabels",
       "showPointsOfInterest", "showPointsOfInterestLabels", "showPlanesAcrossPointsOfInterest", "workingDistance", "backAperture", "frontAperture", "focusToFocusLength", "designFocalLength")


def norm(x, depth=0):
    """ an answer as plain values """
    import numpy as np
    import raytracing as rt
    if depth > 12:
        return "..."
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return ("c", float(x.real), float(x.imag))
    if isinstance(x, rt.Ray):
        return ("ray", x.y, x.theta, x.z, x.isBlocked, x.wavelength, x.apertureDiameter)
    if isinstance(x, rt.GaussianBeam):
        return ("beam", norm(x.q), x.z, x.n, x.wavelength, x.isClipped)
    if isinstance(x, rt.Matrix):
        out = [type(x).__name__] + [norm(getattr(x, a)) for a in ELEMENT]
        for a in OWN:
            if a in x.__dict__ or a.lstrip("_") in ("objectHeight",) and hasattr(x, a):
                out.append((a, norm(getattr(x, a), depth + 1)))
        if isinstance(x, rt.MatrixGroup):
            out.append([norm(e, depth + 1) for e in x.elements])
        return tuple(out)
    if isinstance(x, (list, tuple)):
        return [norm(e, depth + 1) for e in x]
    if isinstance(x, rt.Rays):
        return [norm(r) for r in x]
    if hasattr(x, "R") and hasattr(x, "L"):
        return ("surface", type(x).__name__, norm(x.R), norm(x.L), norm(x.n))
    return type(x).__name__


def equal(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * (1 + max(abs(a), abs(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def surfaces(o):
    return [(type(s).__name__, s.R, s.L, s.n) if not hasattr(s, "alpha") else (type(s).__name__, s.alpha, s.L, s.n) for s in o.surfaces]


def rays(a):
    import raytracing as rt
    return [rt.Ray(a["y"], a["t"]), rt.Ray(-a["y"] / 2, a["t"] / 3), rt.Ray(0, -a["t"])]


def beam(a, o):
    import raytracing as rt
    return rt.GaussianBeam(w=0.1 + abs(a["y"]), R=100.0 + a["z"], n=o.frontIndex, wavelength=0.0006328)


def matrix():
    import raytracing as rt
    return rt.Matrix


# name: function of (object, arguments)
ANY = {
    "str": lambda o, a: str(o),
    "determinant": lambda o, a: o.determinant,
    "isImaging": lambda o, a: o.isImaging,
    "hasPower": lambda o, a: o.hasPower,
    "isIdentity": lambda o, a: o.isIdentity,
    "transferMatrix": lambda o, a: o.transferMatrix(),
    "transferMatrixUpTo": lambda o, a: o.transferMatrix(upTo=a["u"] * o.L),
    "transferMatrices": lambda o, a: o.transferMatrices(),
    "focalDistances": lambda o, a: o.focalDistances(),
    "effectiveFocalLengths": lambda o, a: o.effectiveFocalLengths(),
    "backFocalLength": lambda o, a: o.backFocalLength(),
    "frontFocalLength": lambda o, a: o.frontFocalLength(),
    "focusPositions": lambda o, a: o.focusPositions(a["z"]),
    "principalPlanePositions": lambda o, a: o.principalPlanePositions(a["z"]),
    "forwardConjugate": lambda o, a: o.forwardConjugate(),
    "backwardConjugate": lambda o, a: o.backwardConjugate(),
    "magnification": lambda o, a: o.magnification(),
    "pointsOfInterest": lambda o, a: [sorted(p.items()) for p in o.pointsOfInterest(a["z"])],
    "largestDiameter": lambda o, a: o.largestDiameter,
    "displayHalfHeight": lambda o, a: o.displayHalfHeight(),
    "hasFiniteApertureDiameter": lambda o, a: o.hasFiniteApertureDiameter(),
    "surfaces": lambda o, a: surfaces(o),
    "trace": lambda o, a: o.trace(rays(a)[0]),
    "traceThrough": lambda o, a: o.traceThrough(rays(a)[1]),
    "traceMany": lambda o, a: o.traceMany(rays(a)),
    "traceManyThrough": lambda o, a: o.traceManyThrough(rays(a), progress=False),
    "traceBeam": lambda o, a: o.trace(beam(a, o)),
    "mulRay": lambda o, a: o * rays(a)[0],
    "mulBeam": lambda o, a: o * beam(a, o),
    "mulMatrix": lambda o, a: o * matrix()(A=1, B=a["z"], C=0, D=1, physicalLength=a["z"], frontIndex=o.frontIndex, backIndex=o.frontIndex),
    "opticalInvariant": lambda o, a: o.opticalInvariant(*rays(a)[:2]),
    "profile": lambda o, a: o.profileFromRayTraces(o.traceMany(rays(a)), z=a["u"] * o.L),
    "copy": lambda o, a: copy.copy(o).transferMatrix(),
    "equal": lambda o, a: [o == o, o != o, o == 1, o is None],
    "graphic": lambda o, a: graphic(o),
    "deepcopy": lambda o, a: edited(o),
}
GROUP = {
    "intermediateConjugates": lambda o, a: o.intermediateConjugates(),
    "len": lambda o, a: len(o),
    "iterate": lambda o, a: [e for e in o],
    "partly": lambda o, a: next(iter(o)) if len(o) else None,
    "index": lambda o, a: o[int(a["u"] * 2)],
    "slice": lambda o, a: o[:2],
}
IMAGING = {
    "apertureStop": lambda o, a: o.apertureStop(),
    "fieldStop": lambda o, a: o.fieldStop(),
    "entrancePupil": lambda o, a: o.entrancePupil(),
    "fieldOfView": lambda o, a: o.fieldOfView(),
    "halfFieldOfView": lambda o, a: o.halfFieldOfView(),
    "imageSize": lambda o, a: o.imageSize(),
    "chiefRay": lambda o, a: o.chiefRay(a["y"]),
    "marginalRays": lambda o, a: o.marginalRays(a["y"]),
    "axialRay": lambda o, a: o.axialRay(),
    "principalRay": lambda o, a: o.principalRay(),
    "NA": lambda o, a: o.NA(),
    "fNumber": lambda o, a: o.fNumber(),
    "lagrangeInvariant": lambda o, a: o.lagrangeInvariant(),
    "hasApertureStop": lambda o, a: o.hasApertureStop(),
    "hasFieldStop": lambda o, a: o.hasFieldStop(),
    "subPath": lambda o, a: o.subPath(a["u"] * o.L),
    "subPathBackwards": lambda o, a: o.subPath(a["u"] * o.L, backwards=True),
    "objectHeight?": lambda o, a: o.objectHeight,
}
CAVITY = {
    "eigenModes": lambda o, a: o.eigenModes(),
    "laserModes": lambda o, a: o.laserModes(),
    "isStable": lambda o, a: o.isStable,
}
CLASSES = ["MatrixGroup", "OpticalPath", "ImagingPath", "ImagingPath", "ImagingPath", "LaserPath", "LaserCavity", "element", "element", "CompoundLens"]


def graphic(o):
    from raytracing.graphics import GraphicOf
    g = GraphicOf(o, x=3.0)
    if g is None:
        return None
    return [type(g).__name__, g.halfHeight, len(g.components)]


def edited(o):
    """ a copy, edited, must not reach the original """
    c = copy.deepcopy(o)
    answer = norm(c)
    c.flipOrientation()
    c.label = "copy"
    if hasattr(c, "elements"):
        for e in c.elements:
            e.apertureDiameter = 0.125
        del c.elements[:]
    return answer


def queries(cls):
    q = dict(ANY)
    if cls != "element":
        q.update(GROUP)
    if cls in ("ImagingPath",):
        q.update(IMAGING)
    if cls == "LaserCavity":
        q.update(CAVITY)
    return q


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(CLASSES))
    vendor = None
    if cls == "element":
        if draw(st.integers(0, 3)) == 0:
            vendor = draw(st.integers(0, len(CATALOGUE) - 1))
            e = []
        else:
            e = [draw(gen.element(n=1.0, kinds=KINDS, dia=gen.diameter(0.6)))]
    else:
        e = draw(gen.sequence(1, 5, n=1.0, kinds=["iface", "iface", "space"], growth=1e3)) if cls == "CompoundLens" else draw(gen.sequence(1, 5, n=1.0, kinds=KINDS, dia=gen.diameter(0.6), nested=1, growth=1e3))
        if cls == "ImagingPath" and draw(st.booleans()):
            from .paths import stopPaths
            e = draw(stopPaths())["e"]
    names = sorted(queries(cls))
    special = sorted(set(names) - set(ANY))
    if cls == "CompoundLens":
        special = ["pointsOfInterest", "surfaces", "graphic", "intermediateConjugates"]
    pick = st.sampled_from(names) if not special else st.one_of(st.sampled_from(names), st.sampled_from(special))
    arg = st.fixed_dictionaries(dict(y=gen.num(-5, 5), t=gen.num(-0.1, 0.1), z=gen.num(0, 50), u=gen.num(0, 1.2)))
    ask = st.fixed_dictionaries(dict(op=st.just("ask"), q=pick, a=arg, spoil=st.booleans()))
    edit = st.one_of(st.fixed_dictionaries(dict(op=st.just("flip"))),
                     st.fixed_dictionaries(dict(op=st.just("label"), v=st.sampled_from(["a", "b"]))),
                     st.fixed_dictionaries(dict(op=st.just("diameter"), i=st.integers(0, 6), v=gen.num(0.5, 30))),
                     st.fixed_dictionaries(dict(op=st.just("append"), e=gen.element(n=1.0, kinds=["space", "lens", "ap", "thick"], dia=gen.diameter(0.6)))),
                     st.fixed_dictionaries(dict(op=st.just("pop"), i=st.integers(0, 6))),
                     st.fixed_dictionaries(dict(op=st.just("height"), v=gen.num(0.5, 30))))
    ops = draw(st.lists(st.sampled_from([ask, ask, ask, edit]).flatmap(lambda s: s), min_size=3, max_size=14))
    if draw(st.booleans()):     # the same question again, at the end
        asked = [o for o in ops if o["op"] == "ask"]
        if asked:
            again = dict(draw(st.sampled_from(asked)), spoil=False)
            if draw(st.booleans()):     # and an edit in between
                ops = ops + [again] + [draw(edit) for _ in range(draw(st.integers(1, 2)))]
            ops = ops + [again]
    return dict(cls=cls, vendor=vendor, e=e, ops=ops, design=draw(st.sampled_from([None, 10.0])))


def make(c):
    import importlib
    import raytracing as rt
    if c["cls"] == "element":
        if c["vendor"] is not None:
            module, name = CATALOGUE[c["vendor"]]
            return getattr(importlib.import_module("raytracing." + module), name)()
        return optics.build(c["e"][0])
    elements = [optics.build(s) for s in c["e"]]
    return rt.CompoundLens(elements, designFocalLength=c.get("design"), diameter=10.0, label="compound") if c["cls"] == "CompoundLens" else getattr(rt, c["cls"])(elements)


def edit(o, op):
    """ what happened: None or the type of the error """
    try:
        k = op["op"]
        if k == "flip":
            o.flipOrientation()
        elif k == "label":
            o.label = op["v"]
        elif k == "diameter":
            t = o.elements[op["i"] % len(o.elements)] if getattr(o, "elements", None) else o
            t.apertureDiameter = op["v"]
        elif k == "append":
            o.append(optics.build(op["e"]))
        elif k == "pop":
            o.pop(op["i"])
        elif k == "height":
            o.objectHeight = op["v"]
    except Exception as e:
        return type(e).__name__
    return None


def answer(o, op):
    try:
        return queries(op["cls"])[op["q"]](o, op["a"])
    except Exception as e:
        return ("error", type(e).__name__)


def spoil(x, elements):
    """ what a caller may do with an answer: it is his own. The elements of the group are not. """
    import raytracing as rt
    if isinstance(x, list):
        for y in x:
            spoil(y, elements)
        if x and not any(x is e for e in elements):
            x.append(x[0])
            x.reverse()
            del x[1:]
    elif isinstance(x, rt.Ray):
        x.y, x.theta, x.isBlocked = 77.0, 7.0, True
    elif isinstance(x, rt.GaussianBeam):
        x.q, x.z = 1 + 77j, 7.0


def run(c):
    import raytracing as rt
    used = make(c)
    done, tags, asked = [], set(), 0
    isGroup = isinstance(used, rt.MatrixGroup)

    def fresh():
        o = make(c)
        for e in done:
            edit(o, e)
        return o

    for k, op in enumerate(c["ops"]):
        if op["op"] != "ask":
            reference = fresh()
            a, b = edit(used, op), edit(reference, op)
            check(a == b, "operation {0} ({1}): {2} once questions were asked; {3} otherwise", k, op["op"], a or "accepted", b or "accepted")
            done.append(op)
            tags.add("edited")
        else:
            op = dict(op, cls=c["cls"])
            reference = fresh()
            want = norm(answer(reference, op))
            got = answer(used, op)
            plain = norm(got)
            check(equal(plain, want), "{0} (operation {1}): {2} once other questions were asked; {3} on an identical system", op["q"], k, plain, want)
            if op["spoil"] and op["q"] not in ("copy", "iterate", "slice", "index", "partly"):
                spoil(got, [])
            asked += 1
            if isinstance(want, list) and want and want[0] == "error":
                tags.add("refused")
        reference = fresh()
        a, b = norm(used), norm(reference)
        check(equal(a, b), "{0} (operation {1}) changed the system: {2} instead of {3}", op.get("q", op["op"]), k, a, b)
        if not isGroup or type(used) in (rt.MatrixGroup, rt.CompoundLens):
            check(used == reference and reference == used, "{0} (operation {1}): no longer equal to an identical system", op.get("q", op["op"]), k)
    if asked >= 2:
        tags.add("nt")
    return [c["cls"] if c["vendor"] is None else "catalogue"] + sorted(tags)


FACETS = [
    Facet("questions", cases, run, quick=2000, shards=4, steps=40_000_000, rule="a system asked two questions or more"),
]
ASSUMPTIONS = ["the answers themselves are judged by the other properties: here they are compared with those of an identical system, built and edited in the same way, of which nothing was asked"]
