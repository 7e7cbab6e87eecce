"""C02: every element has the paraxial matrix of what it represents."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, rel

INF = float("inf")
SINGLE = ["space", "lens", "mirror", "iface", "thick", "slab", "ap", "2f", "4f", "doublet", "singlet"]


# ------------------------------------------------ exact meridional ray tracing (Snell)
# A ray is (y, z) with direction (sin u, cos u); a surface of radius R has its vertex at z0.

def toSurface(y, z, u, z0, R):
    s, c = math.sin(u), math.cos(u)
    if math.isinf(R):
        t = (z0 - z) / c
        return y + t * s, z0, 0.0
    # |p - centre| = |R|, the root close to the vertex
    cz = z0 + R
    dy, dz = y, z - cz
    b = dy * s + dz * c
    # q = dy^2 + dz^2 - R^2, written without cancellation
    q = dy * dy + (z - z0) * (z - z0 - 2 * R)
    disc = b * b - q
    # the intersection on the side of the vertex, written without cancellation
    root = math.sqrt(disc)
    if R > 0:
        t = -b - root if b > 0 else q / (-b + root)
    else:
        t = -b + root if b < 0 else -q / (b + root)
    y, z = y + t * s, z + t * c
    return y, z, math.asin(y / R)     # normal makes this angle with the axis


def refract(u, alpha, n1, n2):
    # alpha: centre above/below: normal direction from the surface towards the centre is (-sin alpha, cos alpha) for R > 0
    i = u + alpha
    return math.asin(n1 / n2 * math.sin(i)) - alpha


def exact(surfaces, length, y, u):
    """ surfaces: list of (z0, R, n1, n2); from the plane z=0 to the plane z=length """
    z = 0.0
    for z0, R, n1, n2 in surfaces:
        if n2 == "mirror":
            y, z, a = toSurface(y, z, u, z0, R)
            # reflected and unfolded along +z: angle to the axis after reflection, written with unfolding
            r = -u - 2 * a
            y, u, z = y, -r, z
            z = z0 - (z - z0)       # mirror image of the departure point
        else:
            y, z, a = toSurface(y, z, u, z0, R)
            u = refract(u, a, n1, n2)
    return y + (length - z) * math.tan(u), u


def surfacesOf(spec):
    k = spec["k"]
    i = optics.inf
    if k == "iface":
        return [(0.0, i(spec["R"]), spec["n1"], spec["n2"])], 0.0
    if k == "mirror":
        return [(0.0, spec["R"], 1.0, "mirror")], 0.0
    if k == "thick":
        return [(0.0, i(spec["R1"]), 1.0, spec["n"]), (spec["t"], i(spec["R2"]), spec["n"], 1.0)], spec["t"]
    if k == "slab":
        return [(0.0, INF, 1.0, spec["n"]), (spec["t"], INF, spec["n"], 1.0)], spec["t"]
    if k == "singlet":
        return [(0.0, i(spec["R1"]), 1.0, spec["n"]), (spec["t"], i(spec["R2"]), spec["n"], 1.0)], spec["t"]
    if k == "doublet":
        t1, t2 = spec["t1"], spec["t2"]
        return [(0.0, i(spec["R1"]), 1.0, spec["n1"]), (t1, i(spec["R2"]), spec["n1"], spec["n2"]),
                (t1 + t2, i(spec["R3"]), spec["n2"], 1.0)], t1 + t2
    if k == "space":
        return [], spec["d"]
    return None


LENGTHS = ("R", "R1", "R2", "R3", "t", "t1", "t2", "f", "f1", "f2", "d")


@st.composite
def elementStrategy(draw):
    k = draw(st.sampled_from(SINGLE + ["iface", "thick", "doublet", "singlet"]))
    n = draw(gen.index) if k in ("space", "iface") else 1.0
    if k in ("doublet", "singlet"):
        s = draw(gen.cemented(k, flip=False))
    else:
        s = draw(gen.element(n=n, kinds=[k]))
    # from the optics of a microchip to that of a telescope
    power = draw(st.sampled_from([0, 0, 0, 0, -3, -2, -1, 1, 2, 3, 4]))
    if k in ("doublet", "singlet"):      # they compare with a finite focal length (powers below 1e-5 are none)
        while power > 0 and abs(optics.total(optics.leaves(s)).C) < 3e-5 * 10.0 ** power:
            power -= 1
    if power:
        s = {a: v * 10.0 ** power if a in LENGTHS and v is not None else v for a, v in s.items()}
        s["scale"] = 10.0 ** power
        if s["k"] in ("doublet", "singlet"):      # their edges must exist
            s["D"] = (s["D"] or 12.0) * 10.0 ** power
    return s


def runElement(s):
    scale = s.get("scale", 1.0)
    obj = optics.build(s)
    lv = optics.leaves(s)
    m = optics.total(lv)
    for a, want, i in zip("ABCD", m.m, range(4)):
        expect(getattr(obj, a), want, m.tol(i), "%s.%s" % (s["k"], a))
    L = optics.length(lv)
    rel(obj.L, L, 1e-12, s["k"] + ".L")
    fv, bv = optics.vertices(lv)
    expect(obj.frontVertex, fv, 1e-9, s["k"] + ".frontVertex")
    expect(obj.backVertex, bv, 1e-9, s["k"] + ".backVertex")
    check(obj.frontIndex == optics.frontIndex(lv) and obj.backIndex == optics.backIndex(lv), "{0}: indices {1}, {2}", s["k"], obj.frontIndex, obj.backIndex)
    if len(lv) == 1:
        check(obj.apertureDiameter == lv[0].D, "{0}.apertureDiameter {1}", s["k"], obj.apertureDiameter)
        check(obj.apertureNA == lv[0].NA, "{0}.apertureNA {1}", s["k"], obj.apertureNA)
    else:
        got = [(e.apertureDiameter, e.L) for e in obj.elements]
        check(len(got) == len(lv), "{0} has {1} elements instead of {2}", s["k"], len(got), len(lv))
        for (d, l), leaf in zip(got, lv):
            check(d == leaf.D, "{0}: diameters {1}", s["k"], got)
            rel(l, leaf.L, 1e-12, s["k"] + " element length")
    t = [s["k"]]
    R = [s.get(x) for x in ("R", "R1", "R2", "R3") if x in s]
    if any(r is None for r in R):
        t.append("flat")
    if any(r is not None and r < 0 for r in R):
        t.append("negative radius")
    if scale != 1.0:
        t.append("scaled by %g" % scale)
    if s["k"] not in ("space", "ap"):
        t.append("nt")
    # limit of exact ray tracing with Snell's law
    sv = surfacesOf(s)
    if sv is not None:
        e = 1e-5
        yB, uB = exact(sv[0], sv[1], 0.0, e)
        yA, uA = exact(sv[0], sv[1], e * scale, 0.0)
        # in units of the scale of the element
        ma = [m.a[0], m.a[1] / scale, m.a[2] * scale, m.a[3]]
        for a, unit, want, bound in (("A", 1.0, yA / scale / e, ma[0]), ("B", scale, yB / scale / e, ma[1]), ("C", 1 / scale, uA / e, ma[2]), ("D", 1.0, uB / e, ma[3])):
            expect(getattr(obj, a) / unit, want, 1e-5 * max(bound, 1e-3) + 1e-8 * max(ma) + 1e-9, "%s.%s (limit of Snell's law)" % (s["k"], a))
        t.append("Snell")
    return t


def compositeCases():
    return st.one_of(gen.element(kinds=["thick", "slab", "2f", "4f"]), gen.cemented(flip=False), gen.element(kinds=["thick"]),
                     st.fixed_dictionaries(dict(k=st.just("compound"), e=gen.sequence(1, 5, n=1.0, kinds=["iface", "space"], endAir=True, growth=1e3))))


def runComposite(s):
    """ differential: the composite against the explicit sequence of interfaces and spaces built with the code under test """
    import raytracing as rt
    obj = optics.build(s)
    lv = optics.leaves(s)
    prod = None
    for l in lv:
        for p in l.prims:
            if p[0] == "gap":
                # inside a lens the medium is that of the previous interface
                x = rt.Space(d=p[1], n=prod.backIndex if prod is not None else 1.0)
            elif p[0] == "refr":
                x = rt.DielectricInterface(n1=p[1], n2=p[2], R=p[3])
            elif p[0] == "lens":
                x = rt.Lens(f=p[1])
            prod = x if prod is None else x * prod
    m = optics.total(lv)
    for a in "ABCD":
        expect(getattr(obj, a), getattr(prod, a), m.tol(), "%s.%s against its interfaces" % (s["k"], a))
    rel(obj.L, prod.L, 1e-12, s["k"] + ".L against its interfaces")
    expect(obj.frontVertex, prod.frontVertex, 1e-9, "front vertex")
    expect(obj.backVertex, prod.backVertex, 1e-9, "back vertex")
    expect(obj.determinant, 1.0, 1e-8 * max(1.0, max(m.a)), "determinant in air")
    t = [s["k"], "nt"]
    if s["k"] == "4f":
        expect(obj.B, 0, m.tol(), "4f system is imaging")
        expect(obj.C, 0, m.tol(), "4f system is afocal")
        expect(obj.A, -s["f2"] / s["f1"], m.tol(), "4f magnification")
    if s["k"] == "2f":
        expect(obj.A, 0, m.tol(), "2f system A")
        expect(obj.B, s["f"], m.tol(), "2f system B")
        expect(obj.D, 0, m.tol(), "2f system D")
    if s["k"] in ("singlet", "doublet", "compound") and abs(m.C) > 1e-4:
        rel(obj.effectiveFocalLengths().f1, -1 / m.C, 1e-9, "focal length")
    return t


def axiconCases():
    return st.tuples(gen.element(kinds=["axicon"]), gen.ray()).map(lambda t: dict(a=t[0], r=t[1]))


def runAxicon(c):
    a = optics.build(c["a"])
    s, r = c["a"], c["r"]
    for k, v in dict(A=1, B=0, C=0, D=1, L=0, frontIndex=1, backIndex=1).items():
        check(getattr(a, k) == v, "Axicon.{0} = {1}", k, getattr(a, k))
    dev = (s["n"] - 1) * s["alpha"]
    rel(a.deviationAngle(), dev, 1e-9, "deviationAngle")
    out = a * gen.mkray(r)
    rel(out.y, r["y"], 0, "axicon keeps the height")
    want = r["theta"] - (dev if r["y"] > 0 else -dev if r["y"] < 0 else 0)
    if abs(r["y"]) > 0:
        expect(out.theta, want, 1e-12, "axicon deviates towards the axis")
    if abs(r["y"]) != optics.inf(s["D"]) / 2:
        check(out.isBlocked == (abs(r["y"]) > optics.inf(s["D"]) / 2), "axicon blocks at {0} with diameter {1}: {2}", r["y"], s["D"], out.isBlocked)
    # focal line: parallel rays cross the axis at y / deviation
    if r["y"] != 0 and dev > 1e-6 and abs(r["y"]) < optics.inf(s["D"]) / 2:
        import raytracing as rt
        z = a.focalLineLength(r["y"])
        crossing = rt.Space(d=z) * (a * rt.Ray(y=r["y"], theta=0))
        expect(crossing.y, 0.0, 1e-9 * abs(r["y"]), "end of the focal line")
    if not math.isinf(optics.inf(s["D"])) and dev > 1e-6:
        rel(a.focalLineLength(), a.focalLineLength(s["D"] / 2), 1e-12, "focal line of the whole axicon")
        check(a.focalLineLength(0) == 0, "focal line of the ray on the axis: {0}", a.focalLineLength(0))
    return ["nt"] + (["above" if r["y"] > 0 else "below" if r["y"] < 0 else "axis"])


FACETS = [
    Facet("element", elementStrategy, runElement, quick=3000, shards=3, rule="an element with power, interfaces or several surfaces"),
    Facet("composite", compositeCases, runComposite, quick=1500, shards=2, rule="every composite against its explicit sequence"),
    Facet("axicon", axiconCases, runAxicon, quick=600, shards=1, rule="every axicon and ray"),
]
