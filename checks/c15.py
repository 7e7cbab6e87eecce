"""C15: the aperture stop limits the axial cone."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, rel
from .c04 import state
from .paths import INF, Model, build, stopPaths


def run(c):
    import raytracing as rt
    import numpy as np
    mo = Model(c)
    path = build(c)
    before = state(path)
    stop = path.apertureStop()
    check(bool(path.hasFiniteApertureDiameter()) == mo.finite, "hasFiniteApertureDiameter: {0}", path.hasFiniteApertureDiameter())
    if not mo.finite:
        check(stop.z is None and math.isinf(stop.diameter), "aperture stop without any aperture: {0}", stop)
        check(not path.hasApertureStop(), "hasApertureStop without any aperture")
        check(tuple(path.marginalRays(c["y"][0])) == (None, None) and path.axialRay() is None, "marginal rays without a stop")
        check(tuple(path.entrancePupil()) == (None, None), "entrance pupil without a stop: {0}", path.entrancePupil())
        check(path.fNumber() is None, "f-number without a stop: {0}", path.fNumber())
        return ["no aperture"]
    if not mo.stops:
        check(path.axialRay() is None or math.isinf(stop.diameter), "an aperture at the object limits the axial cone: {0}", stop)
        return ["apertures at the object only"]
    check(mo.candidates(stop), "aperture stop {0}: expected {1}", stop, [(p.z, p.D) for p in mo.stops])
    check(path.hasApertureStop(), "hasApertureStop is False for {0}", stop)
    p = mo.candidates(stop)[0]
    A, B = p.m.A, p.m.B
    k = 1e-9 + 100 * p.m.tol() / abs(B) * (1 + abs(B))

    # marginal rays of any height pass by both edges of the stop
    for y in c["y"] + [0.0]:
        up, down = path.marginalRays(y)
        check(up is not None and down is not None, "no marginal rays for a stop at {0}", stop)
        check(up.y == y and down.y == y, "marginal rays from y={0}: {1}, {2}", y, up.y, down.y)
        check(up.theta >= down.theta, "marginal rays up {0} and down {1} are exchanged", up.theta, down.theta)
        hu, hd = A * up.y + B * up.theta, A * down.y + B * down.theta
        tol = 1e-9 * (p.D + abs(A * y)) + 100 * p.m.tol() * (1 + abs(y) + abs(up.theta) + abs(down.theta))
        expect(abs(hu), p.D / 2, tol, "height of the upper marginal ray from y=%g at the stop" % y)
        expect(hu + hd, 0.0, 2 * tol, "marginal rays from y=%g at the stop are not on opposite sides" % y)
    axial = path.axialRay()
    expect(axial.y, 0.0, 0.0, "height of the axial ray at the object")
    expect(axial.theta, abs(p.D / 2 / B), k * abs(p.D / 2 / B), "angle of the axial ray")

    # rays just inside pass, rays just outside are blocked, at the stop
    eps = 1e-6 + 4 * k
    for s in (1, -1):
        inside = path.traceThrough(rt.Ray(0, s * axial.theta * (1 - eps)))
        check(not inside.isBlocked, "a ray inside of the axial cone is blocked at z={0}", inside.z)
        trace = path.trace(rt.Ray(0, s * axial.theta * (1 + eps)))
        check(trace[-1].isBlocked, "a ray outside of the axial cone is not blocked")
        if len(mo.stops) == 1:
            first = [r for r in trace if r.isBlocked][0]
            expect(first.z, p.z, 1e-9 * (1 + mo.L), "position where a ray just outside of the axial cone is blocked")

    # entrance pupil: where rays through the centre of the stop appear to cross the axis
    pupil = path.entrancePupil()
    if abs(A) > 1e-6 + 1e3 * p.m.tol():
        ka = k + 1e3 * p.m.tol() / abs(A)
        check(pupil.z is not None, "no entrance pupil for A={0} B={1}", A, B)
        rel(pupil.z, B / A, ka, "entrance pupil position")
        rel(pupil.diameter, p.D / abs(A), ka, "entrance pupil diameter")
        # as traced: rays through the edges of the pupil pass by the edges of the stop
        edge = rt.Ray(y=c["y"][0], theta=(pupil.diameter / 2 - c["y"][0]) / pupil.z) if abs(pupil.z) > 1e-6 else None
        if edge is not None:
            expect(abs(A * edge.y + B * edge.theta), p.D / 2, (1e-8 + 10 * ka) * (p.D + abs(A * edge.y)), "a ray by the edge of the entrance pupil, at the stop")
        if abs(mo.m.C) > 2e-5 and mo.m.tol() < 1e-3 * abs(mo.m.C):
            f = -(mo.n1 / mo.n2) / mo.m.C
            rel(path.fNumber(), f / (p.D / abs(A)), ka + 1e2 * mo.m.tol() / abs(mo.m.C), "f-number")
    elif A == 0:
        check(pupil.z is None or abs(pupil.z) > 1e6, "entrance pupil of a telecentric system: {0}", pupil)
    expect(path.NA(), mo.n1 * math.sin(abs(p.D / 2 / B)), k * abs(p.D / 2 / B) * mo.n1 + 1e-12, "NA")
    # immersion: NA is the object-space index times the sine of the axial ray
    check(state(path) == before, "analysing the path changed it")
    tags = []
    if len(mo.planes) >= 2:
        tags.append("nt")
    if p is not mo.planes[0]:
        tags.append("not the first aperture")
    if p is not min(mo.planes, key=lambda q: q.D):
        tags.append("not the smallest aperture")
    if any(q.where != "thin" for q in mo.planes):
        tags.append("thick elements with a diameter")
    if any(x["k"] == "objective" for x in c["e"]):
        tags.append("objective")
    if mo.n1 != 1 or mo.n2 != 1:
        tags.append("media")
    if len(mo.stops) > 1:
        tags.append("tie")
    if B < 0:
        tags.append("inverted at the stop")
    return tags


def noneToJudge():
    from hypothesis import strategies as st
    return st.just({})


def runKnown(c):
    """ aperture stop at the entrance of an element with a length (known finding) """
    import raytracing as rt
    path = rt.ImagingPath([optics.build(x) for x in c["e"]])
    stop = path.apertureStop()
    expect(stop.z, c["z"], 1e-9, "aperture stop position")
    expect(stop.diameter, c["D"], 1e-9, "aperture stop diameter")
    return []


FACETS = [
    Facet("stop", stopPaths, run, quick=3000, shards=4, rule="at least two apertures to choose from"),
    Facet("entrance", noneToJudge, runKnown, quick=0),
]
ASSUMPTIONS = ["apertures limit rays by their diameter; the NA of an aperture is not considered to determine stops",
               "elements with a length never are the stop in the generated paths (known finding)"]
