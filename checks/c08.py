"""C08: conjugate planes."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, mustRaise

KINDS = ["space", "space", "lens", "lens", "iface", "thick", "slab", "mirror", "mat", "2f", "4f", "doublet", "singlet"]


def systems(**kw):
    return gen.sequence(1, 6, kinds=KINDS, dia=st.none(), nested=1, growth=1e4, **kw)


def cases():
    return st.fixed_dictionaries(dict(e=systems(), single=st.booleans(), y=gen.signed(0.1, 10),
                                      t=st.lists(gen.num(-0.5, 0.5), min_size=2, max_size=4, unique=True)))


def make(c):
    from .c01 import dropEmpty
    e = dropEmpty(c["e"])
    if not e:
        raise Skip("empty")
    if c.get("single"):
        e = e[:1]
    lv = optics.leaves(dict(k="group", e=e))
    obj = optics.build(e[0]) if c.get("single") else optics.build(dict(k="group", cls="MatrixGroup", e=e))
    return obj, lv, optics.total(lv)


def tagsOf(lv, m):
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    t = []
    if n1 != n2:
        t.append("different media")
    elif n1 != 1:
        t.append("immersed")
    else:
        t.append("air")
    if m.C and m.B:
        t.append("nt")
    return t


def runForward(c):
    import raytracing as rt
    obj, lv, m = make(c)
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    tags = tagsOf(lv, m)
    got = obj.forwardConjugate()
    if abs(m.D) < 1e-6 * max(m.a[3], 1):
        # all the light of a point is collimated: at infinity (or too far to judge)
        if obj.D == 0:
            check(got.d == float("inf") and got.transferMatrix is None, "forwardConjugate with D=0: {0}", got)
            mustRaise(ValueError, "ToConjugate at infinity", rt.ToConjugate, obj)
            return ["at infinity"]
        raise Skip("conjugate too far away")
    d = got.d
    amp = max(m.a) / abs(m.D)
    expect(d, -m.B / m.D, 1e-9 * (1 + abs(m.B / m.D)) * max(1, amp), "forward conjugate distance")
    # rays leaving the same point meet again, whatever their angle
    full = obj if not c.get("single") else rt.MatrixGroup([obj])
    ends = []
    for t in c["t"]:
        r = full.traceThrough(rt.Ray(c["y"], t))
        ends.append((r.y + d * r.theta, r.theta))
    mag = m.A + d * m.C
    tol = 1e-8 * (abs(c["y"]) + 1) * (max(m.a) * (1 + abs(d)))
    for y, t in ends:
        expect(y, mag * c["y"], tol, "height at the conjugate plane of a ray from the object point")
    T = got.transferMatrix
    expect(T.B, 0.0, tol, "conjugate matrix B")
    check(T.isImaging, "conjugate matrix is not imaging") if tol < 1e-7 else None
    expect(T.A, mag, tol, "conjugate matrix: transverse magnification")
    expect(T.C, m.C, m.tol() * 100, "conjugate matrix: C")
    expect(T.D, m.D, m.tol() * 100, "conjugate matrix: angular magnification")
    expect(T.A * T.D, n1 / n2, 1e-7 * max(1, abs(mag)) * max(m.a), "product of magnifications")
    expect(T.L, optics.length(lv) + d, 1e-9 * (1 + abs(d)) * max(1, amp), "conjugate matrix: length")
    check(T.frontIndex == n1 and T.backIndex == n2, "conjugate matrix: indices {0}, {1}", T.frontIndex, T.backIndex)
    if abs(T.B) < 1e-6:
        check(tuple(T.magnification()) == (T.A, T.D), "magnification() {0} of the conjugate matrix", T.magnification())
    sp = rt.ToConjugate(obj)
    expect(sp.L, d, 1e-12 * (1 + abs(d)), "ToConjugate length")
    check(sp.frontIndex == n2 == sp.backIndex, "ToConjugate in index {0} instead of {1}", sp.frontIndex, n2)
    if abs(m.B) > 1e-3 and not obj.isImaging:
        check(tuple(obj.magnification()) == (None, None), "magnification() of a system that does not image: {0}", obj.magnification())
    return tags


def runBackward(c):
    import raytracing as rt
    obj, lv, m = make(c)
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    tags = tagsOf(lv, m)
    if abs(m.A) < 1e-6 * max(m.a[0], 1):
        if obj.A == 0:
            check(obj.backwardConjugate().d == float("inf"), "backwardConjugate with A=0: {0}", obj.backwardConjugate())
            return ["at infinity"]
        raise Skip("conjugate too far away")
    got = obj.backwardConjugate()
    d = got.d
    amp = max(m.a) / abs(m.A)
    expect(d, -m.B / m.A, 1e-9 * (1 + abs(m.B / m.A)) * max(1, amp), "backward conjugate distance")
    # rays from a point at this distance before the system arrive at one point at its back edge
    tol = 1e-8 * (abs(c["y"]) + 1) * (max(m.a) * (1 + abs(d)))
    for t in c["t"]:
        r = (rt.MatrixGroup([obj])).traceThrough(rt.Ray(c["y"] + d * t, t))
        expect(r.y, m.A * c["y"], tol, "height at the back of a ray from the backward conjugate")
    T = got.transferMatrix
    expect(T.B, 0.0, tol, "backward conjugate matrix B")
    expect(T.A, m.A, m.tol() * 100, "backward conjugate: transverse magnification")
    expect(T.C, m.C, m.tol() * 100, "backward conjugate: C")
    expect(T.D, m.C * d + m.D, tol, "backward conjugate: angular magnification")
    expect(T.A * T.D, n1 / n2, 1e-7 * max(1, abs(T.D)) * max(m.a), "product of magnifications")
    expect(T.L, optics.length(lv) + d, 1e-9 * (1 + abs(d)) * max(1, amp), "backward conjugate matrix: length")
    check(T.frontIndex == n1 and T.backIndex == n2, "backward conjugate matrix: indices {0}, {1}", T.frontIndex, T.backIndex)
    check(tuple(T.magnification()) == (T.A, T.D), "magnification() {0} of the backward conjugate matrix", T.magnification())
    return tags


def runRoundTrip(c):
    """ the image of the image: the backward conjugate of the forward conjugate is the object """
    import raytracing as rt
    obj, lv, m = make(c)
    if abs(m.D) < 1e-3 * max(m.a[3], 1) or max(m.a) > 1e3:
        raise Skip("conjugate too far away")
    d = obj.forwardConjugate().d
    whole = rt.MatrixGroup([obj, rt.Space(d=d, n=obj.backIndex)]) if d >= 0 else rt.Space(d=d, n=obj.backIndex) * obj
    if abs(whole.A) < 1e-3:
        raise Skip("conjugate too far away")
    back = whole.backwardConjugate()
    expect(back.d, 0.0, 1e-6 * (1 + abs(d)) * max(m.a) / abs(whole.A), "object of the image")
    return tagsOf(lv, m)


def runIntermediate(c):
    import raytracing as rt
    obj, lv, m = make(dict(c, single=False))
    got = [(float(p), float(g)) for p, g in obj.intermediateConjugates()]
    want, x, L = [], optics.M(), 0.0
    unsure = 0
    for l in lv:
        x = l.matrix().after(x)
        L += l.L
        if abs(x.D) < 1e-6 * max(1.0, x.a[3]):
            unsure += 1
            continue
        d = -x.B / x.D
        amp = max(x.a) / abs(x.D)
        want.append((L + d, x.A + d * x.C, 1e-7 * (1 + abs(d) + L) * max(1, amp), 1e-7 * (1 + abs(x.A) + abs(d * x.C)) * max(1, amp)))
    dup = 1.1e-3      # positions and magnifications that close are listed once
    for p, g in got:
        ok = any(abs(p - w[0]) <= w[2] and abs(g - w[1]) <= w[3] for w in want)
        if not ok and unsure:
            unsure -= 1
            continue
        check(ok, "intermediate conjugate at {0} with magnification {1} is not a conjugate of the object (conjugates: {2})", p, g, [w[:2] for w in want])
    for w in want:
        if abs(w[0]) <= w[2] + 1e-12:
            continue          # the object itself
        ok = any(abs(p - w[0]) <= w[2] + dup and abs(g - w[1]) <= w[3] + dup for p, g in got)
        check(ok, "conjugate at {0} with magnification {1} is missing from {2}", w[0], w[1], got)
    real = len([w for w in want if abs(w[0]) > w[2] + 1e-12])
    # listed once: no more entries than conjugates, and all different
    for i, a in enumerate(got):
        for b in got[i + 1:]:
            check(a != b, "conjugate listed twice: {0}", a)
    return (["nt"] if real >= 2 else []) + ["%d conjugates" % min(len(got), 6)] + [t for t in tagsOf(lv, m) if t != "nt"]


FACETS = [
    Facet("forward", cases, runForward, quick=2000, shards=2, rule="a system with power and B different from 0"),
    Facet("backward", cases, runBackward, quick=2000, shards=2, rule="a system with power and B different from 0"),
    Facet("roundtrip", cases, runRoundTrip, quick=800, shards=1, rule="a system with power and B different from 0"),
    Facet("intermediate", cases, runIntermediate, quick=1500, shards=2, rule="at least two conjugates"),
]
