"""C16: the field stop and the field of view are set by the vignetting of the chief ray."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, rel, mustRaise
from .c04 import state
from .paths import INF, Model, build, stopPaths


def run(c):
    import raytracing as rt
    mo = Model(c)
    path = build(c)
    before = state(path)
    path.objectHeight = c["h"]
    if not mo.stops:
        fs = path.fieldStop()
        check(fs.z is None and math.isinf(path.halfFieldOfView()) and math.isinf(path.fieldOfView()), "field stop without aperture stop: {0}", fs)
        check(not path.hasFieldStop(), "hasFieldStop without aperture stop")
        check(path.principalRay() is None, "principal ray without aperture stop")
        if not mo.finite:
            check(path.chiefRay(y=c["y"][0]) is None, "chief ray without an aperture stop")
        return ["no aperture stop"]
    stop = path.apertureStop()
    found = mo.candidates(stop)
    check(found, "aperture stop {0}: expected {1}", stop, [(p.z, p.D) for p in mo.stops])
    p = found[0]
    A, B = p.m.A, p.m.B
    for y in c["y"]:
        chief = path.chiefRay(y=y)
        check(chief is not None and chief.y == y, "chief ray from y={0}: {1}", y, chief)
        expect(A * chief.y + B * chief.theta, 0.0, 1e-9 * (1 + abs(A * y)) + 100 * p.m.tol() * (1 + abs(y) + abs(chief.theta)), "height of the chief ray from y=%g at the stop" % y)
        # as traced: it crosses the axis at the aperture stop
        for r in path.trace(chief):
            if r.isBlocked:
                break
            if abs(r.z - p.z) < 1e-9 * (1 + mo.L) and r.apertureDiameter == p.D:
                expect(r.y, 0.0, 1e-8 * (1 + abs(A * y)) + 1e3 * p.m.tol() * (1 + abs(y) + abs(chief.theta)), "traced chief ray at the stop")
    half, limiting = mo.field(p)
    tol = 5e-6 + (half * (1e-6 + 10 * mo.fieldTol) if half < INF else 0)
    if half < INF and mo.fieldTol > 1e-4:
        raise Skip("ill conditioned")
    if 6000 < half < 50000:
        raise Skip("field of view close to the largest considered")
    fs = path.fieldStop()
    got = path.halfFieldOfView()
    if half >= 50000:
        check(fs.z is None and math.isinf(fs.diameter), "field stop {0} when no aperture blocks chief rays", fs)
        check(math.isinf(got) and math.isinf(path.fieldOfView()), "half field of view {0} when no aperture blocks chief rays", got)
        check(not path.hasFieldStop(), "hasFieldStop")
        check(path.principalRay() is None, "principal ray when the field of view is infinite")
        mustRaise(ValueError, "chiefRay() with an infinite field of view", path.chiefRay)
        tags = ["infinite field of view"]
    else:
        # entrances of elements with a length are reported with another diameter (known finding)
        if any(q.where != "thin" for q in limiting):
            raise Skip("field limited by the edge of an element with a length (see known findings)")
        check(fs.z is not None and path.hasFieldStop(), "no field stop, expected one of {0}", [(q.z, q.D) for q in limiting])
        check(any(abs(q.z - fs.z) <= 1e-9 * (1 + mo.L) and q.D == fs.diameter for q in limiting),
              "field stop {0}: expected {1}", fs, [(q.z, q.D) for q in limiting])
        expect(got, half, tol, "half field of view")
        check(got >= 0, "half field of view {0}", got)
        expect(path.fieldOfView(), 2 * half, 2 * tol, "field of view")
        principal = path.principalRay()
        expect(principal.y, half, tol, "height of the principal ray")
        expect(principal.theta, -A / B * principal.y, 1e-9 + 1e-9 * abs(A / B * half) + 100 * p.m.tol() * (1 + half), "angle of the principal ray")
        default = path.chiefRay()
        check((default.y, default.theta) == (principal.y, principal.theta), "chiefRay() is not the principal ray: {0}, {1}", default, principal)
        # traced: chief rays just inside pass, just outside are blocked
        if half > 1e-4:
            check(not path.traceThrough(path.chiefRay(half - tol if half > 2 * tol else 0)).isBlocked, "a chief ray inside of the field of view is blocked")
            check(path.traceThrough(path.chiefRay(half + tol)).isBlocked, "a chief ray outside of the field of view is not blocked")
        tags = ["nt"]
        if half < 1e-4:
            tags.append("tiny field of view")
        if len(limiting) == 1 and limiting[0].z < p.z:
            tags.append("field stop before the aperture stop")
        elif len(limiting) == 1:
            tags.append("field stop after the aperture stop")
    # image size
    D = mo.m.D
    useObject = path.imageSize(useObject=True)
    if abs(D) > 1e-6 + 1e3 * mo.m.tol():
        Mt = (mo.n1 / mo.n2) / D
        kk = 1e-9 + 1e2 * mo.m.tol() / abs(D)
        rel(useObject, abs(c["h"] * Mt), kk, "image size of the object")
        size = path.imageSize()
        if half >= 50000:
            check(math.isinf(size), "image size {0} for an infinite field of view", size)
        else:
            expect(size, 2 * half * abs(Mt), 2 * tol * abs(Mt) + kk * 2 * half * abs(Mt) + 1e-9, "image size")
        tags.append("image")
    elif D == 0:
        check(useObject == INF or useObject > 1e6, "image size of the object when the image is at infinity: {0}", useObject)
    check(state(path) == before or c["h"] != 10.0, "analysing the path changed it")
    if mo.n1 != 1 or mo.n2 != 1:
        tags.append("media")
    if any(x["k"] == "objective" for x in c["e"]):
        tags.append("objective")
    if any(q.where == "entrance" for q in mo.planes):
        tags.append("thick elements with a diameter")
    return tags


def runKnown(c):
    """ field stop at the entrance of an element with a length (known finding) """
    import raytracing as rt
    path = rt.ImagingPath([optics.build(x) for x in c["e"]])
    fs = path.fieldStop()
    expect(fs.z, c["z"], 1e-9, "field stop position")
    expect(fs.diameter, c["D"], 1e-9, "field stop diameter")
    return []


FACETS = [
    Facet("field", stopPaths, run, quick=1500, shards=8, rule="a finite field of view"),
    Facet("entrance", lambda: st.just({}), runKnown, quick=0),
]
ASSUMPTIONS = ["half fields of view between 6 000 and 50 000 are not judged (the search stops at a height of 10 000, with steps of a factor 1.5)",
               "the field of view is compared within 5e-6 + 1e-6 relative: the code searches for it with a precision of 1e-6",
               "fields limited by the entrance of an element with a length are not generated beyond the known finding"]
