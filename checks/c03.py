"""C03: tracing applies each element in order and blocks rays at apertures."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect

KINDS = ["space", "lens", "iface", "thick", "slab", "ap", "mirror", "mat", "2f", "4f", "doublet", "singlet", "axicon"]
CLASSES = ("MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath")


def compareRay(got, want, w, what):
    expect(got.y, want.y, 8 * want.ey + 1e-13 * (1 + abs(want.y)), what + ".y")
    expect(got.theta, want.t, 8 * want.et + 1e-13 * (1 + abs(want.t)), what + ".theta")
    expect(got.z, want.z, 1e-9 + 1e-12 * abs(want.z), what + ".z")
    check(got.isBlocked == want.blocked and got.isNotBlocked == (not want.blocked), "{0}: isBlocked is {1}, expected {2} at y={3}, theta={4}",
          what, got.isBlocked, want.blocked, want.y, want.t)
    check(got.wavelength == w, "{0}.wavelength: got {1}, expected {2}", what, got.wavelength, w)
    check(got.apertureDiameter == want.D, "{0}.apertureDiameter: got {1}, expected {2}", what, got.apertureDiameter, want.D)


def compareTrace(got, want, w, what):
    check(len(got) == len(want), "{0}: {1} rays instead of {2}", what, len(got), len(want))
    for i, (g, m) in enumerate(zip(got, want)):
        compareRay(g, m, w, "%s[%d]" % (what, i))


def model(c):
    r = c["r"]
    return optics.R(r["y"], r["theta"], r.get("z", 0.0), bool(r.get("blocked")))


def mk(r):
    return gen.mkray(r)


@st.composite
def rays(draw):
    r = draw(gen.fullray())
    small = draw(st.sampled_from([1.0, 1.0, 0.1, 0.01]))
    r["y"], r["theta"] = round(r["y"] * small, 6), round(r["theta"] * small, 6)
    r["blocked"] = draw(st.sampled_from([False] * 9 + [True]))
    return r


def traceCases():
    return st.fixed_dictionaries(dict(
        e=gen.sequence(0, 7, kinds=KINDS, dia=gen.diameter(0.5), nested=2, groupClasses=CLASSES),
        cls=st.sampled_from(CLASSES), r=rays(), back=gen.backward))


def classify(lv, trace, r):
    t = []
    if len(lv) >= 2:
        t.append("nt")
    if any(x.blocked for x in trace) and not r.get("blocked"):
        t.append("blocked on the way")
        if not trace[-2].blocked:
            t.append("blocked by the last element")
    elif r.get("blocked"):
        t.append("blocked at start")
    else:
        t.append("passes")
        if any(not math.isinf(l.D) for l in lv):
            t.append("passes finite apertures")
    if any(l.dev for l in lv):
        t.append("axicon")
    if any(l.n1 != 1 for l in lv):
        t.append("media")
    return t


def runTrace(c):
    from .c01 import dropEmpty
    e = gen.goBack(dropEmpty(c["e"]), c.get("back"))
    spec = dict(k="group", cls=c["cls"], e=e)
    try:
        want = optics.traceSpec(spec, model(c))
    except optics.Ambiguous:
        raise Skip("within rounding of an aperture edge")
    obj = optics.build(spec)
    ray = mk(c["r"])
    got = obj.trace(ray)
    w = c["r"]["w"]
    compareTrace(got, want, w, "trace")
    last = obj.traceThrough(mk(c["r"]))
    compareRay(last, want[-1], w, "traceThrough")
    lv = optics.leaves(spec)
    if not want[-1].blocked and not c["r"]["blocked"] and optics.isLinear(lv):
        # last ray == total matrix applied to the input ray
        m = obj.transferMatrix()
        y = m.A * ray.y + m.B * ray.theta
        t = m.C * ray.y + m.D * ray.theta
        b = optics.total(lv)
        tol = 16 * b.tol() * (abs(ray.y) + abs(ray.theta)) + 8 * (want[-1].ey + want[-1].et) + 1e-12
        expect(last.y, y, tol, "traceThrough against the total matrix: y")
        expect(last.theta, t, tol, "traceThrough against the total matrix: theta")
        whole = m * mk(c["r"])
        expect(whole.y, y, tol, "total matrix * ray: y")
        expect(whole.theta, t, tol, "total matrix * ray: theta")
        check(whole.wavelength == w, "total matrix * ray loses the wavelength")
        direct = obj * mk(c["r"])
        expect(direct.y, y, tol, "group * ray: y")
        expect(direct.theta, t, tol, "group * ray: theta")
    return classify(lv, want, c["r"])


@st.composite
def edgeCases(draw):
    """ an unchanged ray (elements that do not move it) or height reached exactly, at the edge of an aperture """
    D = draw(st.one_of(st.integers(1, 60).map(float), gen.num(0.5, 60)))
    kind = draw(st.sampled_from(["ap", "lens", "space", "thick", "slab", "iface", "mirror", "mat", "axicon"]))
    e = draw(gen.element(n=1.0, kinds=[kind], dia=st.just(D)))
    e["D"] = D
    e["NA"] = None
    where = draw(st.sampled_from(["height", "height", "angle"])) if kind in ("ap", "mat") else "height"
    side = draw(st.sampled_from([-1, 0, 1]))
    sign = draw(st.sampled_from([-1.0, 1.0]))
    before = draw(st.lists(gen.element(n=1.0, kinds=["space", "ap"], dia=st.none()), max_size=2))
    for b in before:
        b["D"] = None if b["k"] == "space" else 500.0
        b["NA"] = None
    NA = None
    if where == "angle":
        NA = draw(gen.num(0.05, 1.5))
        e["NA"] = NA
        e["D"] = None if kind == "mat" else 500.0
        before = [b for b in before if b["k"] == "ap"]
    after = draw(gen.sequence(0, 2, n=e.get("n2", 1.0), kinds=["space", "lens", "iface"], dia=st.none()))
    return dict(e=e, before=before, after=after, side=side, sign=sign, where=where)


def runEdge(c):
    import raytracing as rt
    e = c["e"]
    limit = e["D"] / 2 if c["where"] == "height" else e["NA"]
    v = limit
    if c["side"] > 0:
        v = math.nextafter(limit, 1e9)
    elif c["side"] < 0:
        v = math.nextafter(limit, 0.0)
    v *= c["sign"]
    ray = rt.Ray(y=v, theta=0.0) if c["where"] == "height" else rt.Ray(y=0.0, theta=v)
    path = rt.ImagingPath([optics.build(x) for x in c["before"] + [e] + c["after"]])
    blocked = path.traceThrough(ray).isBlocked
    check(blocked == (c["side"] > 0), "ray with {0} {1!r} at an element with limit {2!r} ({3}): isBlocked is {4}",
          c["where"], v, limit, e["k"], blocked)
    single = optics.build(e)
    check(single.traceThrough(ray).isBlocked == (c["side"] > 0), "{0} alone: isBlocked wrong for {1} {2!r}", e["k"], c["where"], v)
    return ["nt", ["just inside", "exactly at the edge", "just outside"][c["side"] + 1], e["k"]]


@st.composite
def orderCases(draw):
    """ collimated rays through a cascade of apertures: the first that is too small blocks """
    n = draw(st.integers(2, 8))
    e = []
    for _ in range(n):
        D = draw(gen.num(1, 40))
        k = draw(st.sampled_from(["ap", "space", "slab"]))
        e.append(dict(k="ap", D=D) if k == "ap" else dict(k="space", d=draw(gen.num(0.1, 50)), D=D) if k == "space"
                 else dict(k="slab", n=1.5, t=draw(gen.num(0.1, 20)), D=D))
    return dict(e=e, y=draw(gen.signed(0.1, 22)), nest=draw(st.integers(0, n)), through=draw(st.booleans()))


def runOrder(c):
    """ where the trace stops, from the diameters alone """
    import raytracing as rt
    k = c["nest"]
    inner = [optics.build(x) for x in c["e"]]
    objs = inner[:k] + ([rt.MatrixGroup(inner[k:])] if k < len(inner) else [])
    ray = rt.Ray(y=c["y"], theta=0)
    trace = rt.ImagingPath(objs).trace(ray)
    zBlocked, z = None, 0.0
    for x in c["e"]:
        L = x.get("d", x.get("t", 0.0))
        if abs(c["y"]) > x["D"] / 2:
            zBlocked = z
            break
        z += L
    check(trace[-1].isBlocked == (zBlocked is not None), "blocked: {0}, expected {1}", trace[-1].isBlocked, zBlocked is not None)
    if zBlocked is not None:
        expect(trace[-1].z, zBlocked, 1e-9, "position where the ray is blocked")
        seen = False
        for r in trace:
            check(not seen or r.isBlocked, "a blocked ray is unblocked later in the trace")
            seen = seen or r.isBlocked
    else:
        expect(trace[-1].z, z, 1e-9, "end of the trace")
    check(all(abs(r.y) == abs(c["y"]) for r in trace), "height of a collimated ray changes")
    return ["nt", "blocked" if zBlocked is not None else "passes"]


FACETS = [
    Facet("trace", traceCases, runTrace, quick=3000, shards=4, rule="a path of at least 2 elements"),
    Facet("edge", edgeCases, runEdge, quick=1000, shards=1, rule="every ray is at, or one ulp from, the edge of an aperture"),
    Facet("order", orderCases, runOrder, quick=1000, shards=1, rule="every cascade of at least 2 apertures"),
]
