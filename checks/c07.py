"""C07: propagating up to a distance agrees with the full propagation."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, mustRaise

INF = float("inf")
KINDS = ["space", "space", "lens", "iface", "thick", "slab", "ap", "mirror", "mat", "2f", "4f", "doublet", "singlet"]


def noLongMat(e):
    return e["k"] != "mat" or not e["L"]


@st.composite
def paths(draw, kinds=KINDS, dia=None, nested=2, longMat=False):
    e = draw(gen.sequence(1, 6, kinds=kinds, dia=dia, nested=nested))
    whole = draw(st.booleans())

    def fix(x):
        x = dict(x)
        if x["k"] == "mat" and not longMat:
            x["L"] = 0.0
        if x["k"] == "group":
            x["e"] = [fix(y) for y in x["e"]]
        if whole:          # integer lengths: positions of the boundaries are exact
            for k in ("d", "t", "t1", "t2", "f1", "f2", "L"):
                if x.get(k):
                    x[k] = float(max(1, round(x[k])))
            if x["k"] == "2f":
                x["f"] = float(max(1, round(x["f"])))
        return x
    from .c01 import dropEmpty
    return dict(k="group", cls=draw(st.sampled_from(["MatrixGroup", "ImagingPath", "LaserPath"])), e=dropEmpty([fix(x) for x in e])), whole


@st.composite
def cases(draw):
    p, whole = draw(paths(longMat=draw(st.booleans())))
    return dict(p=p, whole=whole, at=draw(st.lists(st.one_of(
        st.fixed_dictionaries(dict(el=st.integers(0, 30), frac=gen.num(0.02, 0.98))), st.fixed_dictionaries(dict(el=st.integers(0, 30), frac=gen.num(0.02, 0.98))),
        st.fixed_dictionaries(dict(frac=gen.num(0, 1.2))), st.fixed_dictionaries(dict(edge=st.integers(0, 30))),
        st.fixed_dictionaries(dict(edge=st.integers(0, 30), plus=gen.num(0.001, 0.09)))), min_size=1, max_size=5)))


def edges(lv):
    z, out = 0.0, [0.0]
    for l in lv:
        z += l.L
        out.append(z)
    return out


def position(a, lv):
    """ (z, is it exactly on a boundary) """
    b = edges(lv)
    if "el" in a:
        long = [i for i, l in enumerate(lv) if l.L > 0]
        if not long:
            return 0.0, True
        i = long[a["el"] % len(long)]
        return round(b[i] + a["frac"] * lv[i].L, 6), False
    if "frac" in a:
        return b[-1] * a["frac"], False
    return b[a["edge"] % len(b)] + a.get("plus", 0.0), "plus" not in a


def usable(z, lv, whole):
    """ the side of a boundary is only known when lengths are exact or z is away from it """
    return whole or all(b == 0.0 or abs(z - b) > 1e-9 * (1 + b) for b in edges(lv)) or z == 0.0


def where(z, lv):
    at = 0.0
    for l in lv:
        if at < z < at + l.L:
            return "inside " + l.kind
        at += l.L
    return "beyond" if z > at else "boundary"


def comparePartial(m, lv, z, what):
    got = optics.partial(lv, z)
    if got is None:
        raise Skip("inside an element that cannot be split")
    want, n = got
    check(math.isfinite(m.L), "{0}.L is {1}", what, m.L)
    tol = want.tol() + 1e-9 * max(want.a)
    for a, w in zip("ABCD", want.m):
        expect(getattr(m, a), w, tol, "%s.%s" % (what, a))
    L = optics.length(lv)
    expect(m.L, min(z, L), 1e-9 * (1 + L), what + ".L")
    check(m.frontIndex == optics.frontIndex(lv), "{0}: front index {1}, expected {2}", what, m.frontIndex, optics.frontIndex(lv))
    check(m.backIndex == n, "{0}: back index {1}, expected {2}", what, m.backIndex, n)


def run(c):
    lv = optics.leaves(c["p"])
    if not lv:
        return ["empty"]
    p = optics.build(c["p"])
    tags = set()
    for a in c["at"]:
        z, exact = position(a, lv)
        if not usable(z, lv, c["whole"]):
            # on a boundary within rounding: which elements without length are included is not specified,
            # but the heights there are
            t, at = optics.M(), 0.0
            for l in lv:
                if at >= z - 1e-9 * (1 + z):
                    break
                t = l.matrix().after(t)
                at += l.L
            if exact and not any(l.kind == "mat" and l.L == 0 for l in lv):
                m = p.transferMatrix(upTo=z)
                tol = t.tol() + 1e-9 * max(t.a)
                expect(m.A, t.A, tol, "transferMatrix(upTo=%r).A, at a boundary" % z)
                expect(m.B, t.B, tol, "transferMatrix(upTo=%r).B, at a boundary" % z)
                tags.add("boundary within rounding")
            else:
                tags.add("boundary skipped")
            continue
        if optics.partial(lv, z) is None:
            mustRaise(TypeError, "transferMatrix(upTo=%r) inside a generic matrix with a length" % z, p.transferMatrix, upTo=z)
            tags.add("inside a generic matrix")
            continue
        comparePartial(p.transferMatrix(upTo=z), lv, z, "transferMatrix(upTo=%r)" % z)
        w = where(z, lv)
        tags.add(w)
        if w not in ("beyond",) and z > 0:
            tags.add("nt")
    comparePartial(p.transferMatrix(), lv, INF, "transferMatrix()")
    # the list of matrices multiplies to the full matrix
    ms = p.transferMatrices()
    check(len(ms) == len(lv), "transferMatrices: {0} matrices for {1} elements", len(ms), len(lv))
    prod = (1.0, 0.0, 0.0, 1.0)
    L = 0.0
    for m, l in zip(ms, lv):
        prod = optics.mul((m.A, m.B, m.C, m.D), prod)
        L += m.L
        want = l.matrix()
        for x, y in zip((m.A, m.B, m.C, m.D), want.m):
            expect(x, y, want.tol(), "transferMatrices: matrix of %s" % l.kind)
    t = optics.total(lv)
    for x, y in zip(prod, t.m):
        expect(x, y, t.tol(), "product of transferMatrices")
    expect(L, optics.length(lv), 1e-9 * (1 + L), "total length of transferMatrices")
    return tags


def singleCases():
    return st.tuples(gen.element(kinds=["space", "thick", "thick", "slab", "slab", "lens", "iface", "doublet", "singlet", "2f", "4f"]), st.one_of(gen.num(0.02, 0.98), gen.num(0, 1.3)),
                     gen.ray(), st.integers(0, 2)).map(lambda t: dict(e=dict(t[0], flip=t[3]), f=t[1], r=t[2]))


def runSingle(c):
    """ one element, flipped or not: matrix and ray at z """
    lv = optics.leaves(c["e"])
    L = optics.length(lv)
    z = round(L * c["f"], 6)
    if not usable(z, lv, False):
        raise Skip("boundary")
    e = optics.build(c["e"])
    m = e.transferMatrix(upTo=z)
    comparePartial(m, lv, z, "%s.transferMatrix(upTo=%r)" % (c["e"]["k"], z))
    return ["nt" if 0 < z < L else "end", c["e"]["k"]] + (["flipped"] if c["e"]["flip"] % 2 else [])


@st.composite
def alongCases(draw):
    p, whole = draw(paths(kinds=["space", "space", "lens", "iface", "ap", "mirror", "2f"], dia=gen.diameter(0.3)))
    return dict(p=p, whole=whole, rays=draw(st.lists(gen.ray(gen.num(-8, 8), gen.num(-0.2, 0.2)), min_size=1, max_size=4)),
                z0=draw(st.sampled_from([0.0, 0.0, -20.0, 12.5])),
                at=draw(st.lists(st.one_of(gen.num(0, 1.1), st.fixed_dictionaries(dict(el=st.integers(0, 30), frac=gen.num(0.02, 0.98)))), min_size=1, max_size=5)))


def runAlong(c):
    """ rays interpolated along a trace """
    import raytracing as rt
    lv = optics.leaves(c["p"])
    p = optics.build(c["p"])
    L = optics.length(lv)
    if L == 0:
        return ["no length"]
    traces = [p.trace(rt.Ray(r["y"], r["theta"], z=c["z0"], wavelength=0.5)) for r in c["rays"]]
    tags = set()
    for f in c["at"]:
        z = round(L * f, 6) if not isinstance(f, dict) else position(f, lv)[0]
        if not usable(z, lv, c["whole"]) or any(abs(z - b) < 1e-6 for b in edges(lv)):
            continue
        m, n = optics.partial(lv, z)
        passing = []
        for r, t in zip(c["rays"], traces):
            got = rt.Ray.along(t, z=z + c["z0"])
            # is it blocked before z?
            try:
                x, at = optics.R(r["y"], r["theta"], 0.0), 0.0
                for l in lv:
                    if at + l.L > z or (l.L == 0 and at > z):
                        if at < z:
                            x = optics.stepLeaf(l, x)[0]
                        break
                    x = optics.stepLeaf(l, x)[-1]
                    at += l.L
            except optics.Ambiguous:
                passing = None
                continue
            check(got.isBlocked == x.blocked, "Ray.along(z={0}): isBlocked {1}, expected {2}", z, got.isBlocked, x.blocked)
            if x.blocked:
                tags.add("blocked before z")
                continue
            tol = 1e-9 * (m.a[0] * abs(r["y"]) + m.a[1] * abs(r["theta"]) + 1) + 1e-9
            y = m.A * r["y"] + m.B * r["theta"]
            th = m.C * r["y"] + m.D * r["theta"]
            tolT = 1e-9 * (m.a[2] * abs(r["y"]) + m.a[3] * abs(r["theta"]) + 1)
            expect(got.y, y, tol, "Ray.along(z=%r).y" % z)
            expect(got.theta, th, tolT, "Ray.along(z=%r).theta" % z)
            if z <= L:
                expect(got.z, z + c["z0"], 1e-9 * (1 + L), "Ray.along().z")
                check(got.wavelength == 0.5, "Ray.along() loses the wavelength")
                tags.add("nt")
            if passing is not None:
                passing.append((got.y, got.theta))
        if passing is not None:
            prof = p.profileFromRayTraces(traces, z=z + c["z0"])
            check([(r.y, r.theta) for r in prof] == passing, "profileFromRayTraces(z={0}): {1} rays instead of {2}", z, len(prof), len(passing))
    return tags


FACETS = [
    Facet("upTo", cases, run, quick=2000, shards=3, rule="a position before the end of the path"),
    Facet("single", singleCases, runSingle, quick=1000, shards=1, rule="a position strictly inside the element"),
    Facet("along", alongCases, runAlong, quick=1500, shards=2, rule="an unblocked ray strictly inside a space"),
]
