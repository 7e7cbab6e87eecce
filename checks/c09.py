"""C09: focal lengths, principal planes, focal points."""
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, mustRaise
from .c08 import systems, make, tagsOf


def cases():
    return st.fixed_dictionaries(dict(e=systems(), single=st.booleans(), y=gen.signed(0.1, 10), t=gen.signed(0.01, 0.5), z=st.sampled_from([0.0, 0.0, 12.5, -30.0]),
                                      flip=st.sampled_from([0, 0, 0, 1])))


def prepare(c):
    obj, lv, m = make(c)
    if c["flip"] and not any(l.kind == "mat" for l in lv):
        obj.flipOrientation()
        lv = [l.flipped() for l in reversed(lv)]
        m = optics.total(lv)
    return obj, lv, m


def run(c):
    import raytracing as rt
    obj, lv, m = prepare(c)
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    L = optics.length(lv)
    if abs(m.C) < 1.1e-5 or abs(m.C) < 1e-9 * m.a[2]:
        if abs(m.C) < 0.9e-5:
            check(all(abs(f) == float("inf") for f in obj.effectiveFocalLengths()), "focal lengths without power: {0}", obj.effectiveFocalLengths())
            check(tuple(obj.focusPositions(0)) == (None, None) and tuple(obj.principalPlanePositions(0)) == (None, None),
                  "foci without power: {0}", obj.focusPositions(0))
            check(obj.backFocalLength() is None and obj.frontFocalLength() is None, "vertex focal lengths without power")
            mustRaise(ValueError, "ToFocus without power", rt.ToFocus, obj)
            return ["no power"]
        raise Skip("nearly no power")
    f1, f2 = obj.effectiveFocalLengths()
    prec = 1e-7 * max(m.a) / abs(m.C)            # how well lengths proportional to 1/C are known
    scale = 1 / abs(m.C)
    tolF = 1e-9 * scale * max(1.0, m.a[2] / abs(m.C)) * max(1.0, n1 / n2)
    expect(f2, -1 / m.C, tolF, "back focal length")
    expect(f1, -n1 / n2 / m.C, tolF, "front focal length")
    expect(f1 / f2, n1 / n2, 1e-9 * n1 / n2, "f_front / f_back")
    check(tuple(obj.focalDistances()) == (f1, f2), "focalDistances {0}", obj.focalDistances())
    z = c["z"]
    F1, F2 = obj.focusPositions(z)
    P1, P2 = obj.principalPlanePositions(z)
    # trace rays; positions are measured with the front edge at z
    group = rt.MatrixGroup([obj])
    y = c["y"]
    out = group.traceThrough(rt.Ray(y, 0.0))
    expect(out.y + (F2 - z - L) * out.theta, 0.0, prec * abs(y) * abs(m.C) + 1e-7 * abs(y), "a ray parallel to the axis crosses the axis at the back focus")
    t = c["t"]
    out = group.traceThrough(rt.Ray(-(F1 - z) * t, t))
    expect(out.theta, 0.0, 1e-8 * max(m.a) * (1 + abs(F1 - z)) * abs(t), "a ray from the front focus exits parallel")
    # the exiting parallel ray is f1 * theta high (times the ratio of indices through f2)
    expect(out.y, -t / m.C * n1 / n2, 1e-7 * (prec + max(m.a) * (1 + abs(F1 - z))) * abs(t) + 1e-9, "height of a ray from the front focus")
    # principal planes: unit magnification
    T = optics.mul((1, P2 - z - L, 0, 1), optics.mul(m.m, (1, -(P1 - z), 0, 1)))
    tol = 1e-8 * max(m.a) * (1 + abs(P1 - z)) * (1 + abs(P2 - z - L))
    expect(T[0], 1.0, tol, "magnification between principal planes")
    expect(T[1], 0.0, tol, "principal planes are conjugate")
    expect(P1 - F1, f1, tolF * 10 + 1e-9 * (abs(P1) + abs(F1)), "principal plane to focus (front)")
    expect(F2 - P2, f2, tolF * 10 + 1e-9 * (abs(P2) + abs(F2)), "principal plane to focus (back)")
    # positions follow z
    G1, G2 = obj.focusPositions(0)
    expect(F1 - z, G1, 1e-9 * (1 + abs(F1) + abs(G1)), "front focus for another position")
    expect(F2 - z, G2, 1e-9 * (1 + abs(F2) + abs(G2)), "back focus for another position")
    fv, bv = optics.vertices(lv)
    ffl, bfl = obj.frontFocalLength(), obj.backFocalLength()
    if fv is None:
        check(ffl is None, "front focal length without vertex: {0}", ffl)
    else:
        expect(ffl, fv - (F1 - z), 1e-9 * (1 + abs(F1) + abs(fv)) * 10, "front focal length, from the vertex")
    if bv is None:
        check(bfl is None, "back focal length without vertex: {0}", bfl)
    else:
        expect(bfl, F2 - z - bv, 1e-9 * (1 + abs(F2) + abs(bv)) * 10, "back focal length, from the vertex")
    tags = tagsOf(lv, m)
    tags = [x for x in tags if x != "nt"] + ["nt"]
    if fv is not None and bv is not None and (fv or bv != L):
        tags.append("vertices inside")
    return tags


def runFocus(c):
    """ from focus to focus """
    import raytracing as rt
    obj, lv, m = prepare(c)
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    if abs(m.C) < 1e-3:
        raise Skip("nearly no power")
    sp = rt.ToFocus(obj)
    # (F2 - L) = -A/C
    tol = 1e-8 * (1 + abs(m.A / m.C)) * max(m.a) + 1e-8
    expect(sp.L, -m.A / m.C, tol, "ToFocus: distance from the back edge")
    check(sp.frontIndex == n2 == sp.backIndex, "ToFocus: index {0} instead of {1}", sp.frontIndex, n2)
    if abs(m.A / m.C) < 1e-6 or abs(m.D / m.C) < 1e-6:
        raise Skip("focus at the edge")
    g = obj.fromFocusToFocus()
    tol = 1e-7 * max(m.a) * (1 + abs(m.D / m.C)) * (1 + abs(m.A / m.C)) + 1e-9
    expect(g.A, 0.0, tol, "from focus to focus: A")
    expect(g.D, 0.0, tol, "from focus to focus: D")
    expect(g.C, m.C, 1e-9 * max(m.a) + tol * 0, "from focus to focus: C")
    expect(g.B, -n1 / n2 / m.C, tol * 10, "from focus to focus: B")
    check(g.frontIndex == n1 and g.backIndex == n2, "from focus to focus: indices {0}, {1}", g.frontIndex, g.backIndex)
    expect(g.L, optics.length(lv) - m.A / m.C - m.D / m.C * 1.0, tol * 10 + 1e-7 * (1 + abs(m.D / m.C)), "from focus to focus: length")
    return ["nt"] + [x for x in tagsOf(lv, m) if x != "nt"]


FACETS = [
    Facet("foci", cases, run, quick=3000, shards=4, rule="a system with power"),
    Facet("focus", cases, runFocus, quick=1000, shards=2, rule="a system with power (|f| < 1000)"),
]
