"""C34: what a system says of itself is true."""
import copy
import math
import re
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check

INF = float("inf")
KINDS = ["space", "lens", "ap", "iface", "thick", "slab", "2f", "4f", "mirror", "mat", "doublet", "singlet", "axicon"]
NUMBER = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)"


def numbers(text):
    return [float(x) for x in re.findall(NUMBER, text)]


def printed(got, want, digits, what):
    """ a number printed with this many decimals """
    if math.isinf(want) or math.isinf(got):
        check(got == want, "{0} is printed {1}, it is {2}", what, got, want)
    else:
        check(abs(got - want) <= 0.5001 * 10 ** -digits + 1e-9 * abs(want), "{0} is printed {1}, it is {2}", what, got, want)


@st.composite
def systemCases(draw):
    cls = draw(st.sampled_from(["element", "element", "MatrixGroup", "MatrixGroup", "ImagingPath", "LaserPath"]))
    if cls == "element":
        limits = draw(st.integers(0, 3)) == 0
        e = [draw(gen.element(n=1.0, kinds=["mat"] if limits else KINDS, dia=gen.diameter(0.6)))]
        if limits:  # as close to the limits as may be
            e[0]["B"] = draw(st.sampled_from([0.0, 0.0, 1e-3, -1e-3, 2e-4, 1e-7]))
            e[0]["C"] = draw(st.sampled_from([0.0, 0.0, 1e-3, -1e-3, 2e-4, 1e-7]))
            e[0]["L"] = draw(st.sampled_from([0.0, 1.0, 50.0, 1000.0]))
            e[0]["A"] = draw(st.sampled_from([1.0, 1.0, -1.0, 2.0]))
            e[0]["n2"] = draw(st.sampled_from([e[0]["n1"], e[0]["n2"]]))
            e[0]["E"] = (e[0]["n1"] / e[0]["n2"] + e[0]["B"] * e[0]["C"]) / e[0]["A"]
    else:
        e = draw(gen.sequence(0, 5, n=1.0, kinds=KINDS, dia=gen.diameter(draw(st.sampled_from([0.1, 0.3, 0.9]))), nested=2, growth=1e3))
    return dict(cls=cls, e=e, label=draw(st.sampled_from(["", "a name"])), which=draw(st.integers(0, 6)), alter=draw(st.sampled_from(["diameter", "label", "flip", "coefficient", "length", "index"])),
                image=draw(st.booleans()), asked=draw(st.booleans()))


def make(c):
    import raytracing as rt
    if c["cls"] == "element":
        o = optics.build(c["e"][0])
    else:
        o = getattr(rt, c["cls"])([optics.build(s) for s in c["e"]])
    o.label = c["label"]
    return o


def parts(o):
    """ the elements and their own """
    if hasattr(o, "elements"):
        out = []
        for x in o.elements:
            out += parts(x)
        return out
    return [o]


def runSystem(c):
    import raytracing as rt
    o, other = make(c), make(c)
    tags = ["nt", c["cls"]]
    ax = any(s["k"] == "axicon" for s in c["e"]) or any(isinstance(x, rt.Axicon) for x in parts(o))
    # the image plane of a group: B is zero there
    if c["image"] and c["cls"] != "element" and not ax:
        d, m = o.forwardConjugate()
        if d is not None and 1e-3 < d < 1e4:
            for x in (o, other):
                x.append(rt.Space(d=d, n=o.backIndex))
            check(o.isImaging or abs(o.B) > 1e-6, "isImaging is False at the image plane (B={0})", o.B)
            tags.append("image plane")
    if c["asked"]:
        str(o), o.isImaging, o.largestDiameter, o.traceThrough(rt.Ray(0.01, 0.001))
    # the coefficients
    text = str(o)
    n = numbers(text.replace("f=", "f= ").replace("+inf", "inf"))
    check(len(n) == 5, "{0!r} does not show the four coefficients and the focal length", text)
    for name, got in zip("ABCD", n):
        printed(got, getattr(o, name), 3, name)
    if o.C == 0:
        check(math.isinf(n[4]), "focal length of an afocal system: {0}", n[4])
    else:
        printed(n[4], -1.0 / o.C, 3, "the focal length")
        check("afocal" not in text, "{0!r} is said to be afocal", text)
        tags.append("power")
    # the predicates
    check(o.isIdentity == (o.A == 1 and o.D == 1 and o.B == 0 and o.C == 0), "isIdentity is {0} for {1}", o.isIdentity, [o.A, o.B, o.C, o.D])
    for name, value, got in (("isImaging", o.B, not o.isImaging), ("hasPower", o.C, o.hasPower)):
        if abs(value) < 1e-6:
            check(not got, "{0} with a coefficient of {1}", name, value)
        elif abs(value) > 1e-4:
            check(got, "{0} with a coefficient of {1}", name, value)
    check(abs(o.determinant - o.frontIndex / o.backIndex) <= 1e-9 * (1 + abs(o.A * o.D) + abs(o.B * o.C)) + 1e-12 if not ax else True, "determinant {0}, indices {1} and {2}", o.determinant, o.frontIndex, o.backIndex)
    # the sizes
    finite = [x.apertureDiameter for x in parts(o) if x.apertureDiameter != INF]
    check(bool(o.hasFiniteApertureDiameter()) == bool(finite), "hasFiniteApertureDiameter is {0}; diameters: {1}", o.hasFiniteApertureDiameter(), finite)
    if finite:
        check(o.largestDiameter == max(finite), "largestDiameter is {0}; diameters: {1}", o.largestDiameter, finite)
        tags.append("largest diameter")
    if c["cls"] == "element" and c["e"][0]["k"] not in ("2f", "4f") and finite:
        check(abs(o.displayHalfHeight() - finite[0] / 2) <= 1e-12, "displayHalfHeight is {0} for a diameter of {1}", o.displayHalfHeight(), finite[0])
    # the length and the number of elements
    if c["cls"] != "element":
        check(len(o) == len(o.elements), "len is {0} for {1} elements", len(o), len(o.elements))
        check(abs(o.L - sum(x.L for x in parts(o))) <= 1e-9 * (1 + o.L), "length {0}", o.L)
    # equality
    check(o == o and not o != o, "a system is different from itself")
    for x in (None, 1, "a", [o], rt.Ray(0, 0)):
        check(not o == x and o != x, "equal to {0}", x)
    if c["cls"] in ("element", "MatrixGroup") and not c["asked"]:
        check(o == other and not o != other, "two systems built in the same way are different")
        twin = copy.deepcopy(o)
        check(o == twin, "a copy is different")
        x = parts(other)[c["which"] % len(parts(other))] if parts(other) else other
        k = c["alter"]
        if k == "diameter":
            x.apertureDiameter = 7.125 if x.apertureDiameter != 7.125 else 8.0
        elif k == "label":
            x.label = "another name"
        elif k == "flip":
            x.isFlipped = not x.isFlipped
        elif k == "coefficient":
            if isinstance(x, rt.MatrixGroup):
                return tags
            x.A, x.D = x.A * 2, x.D / 2
            if x.A == 0:
                return tags
        elif k == "length":
            if isinstance(x, rt.MatrixGroup):
                return tags
            x.L = x.L + 1
        elif k == "index":
            if isinstance(x, rt.MatrixGroup):
                return tags
            x.frontIndex, x.backIndex = x.frontIndex * 1.5, x.backIndex * 1.5
        check(not o == other and o != other, "systems of different {0} are equal", k)
        tags.append("altered")
    return tags


@st.composite
def rayCases(draw):
    r = [draw(gen.fullray()) for _ in range(2)]
    same = draw(st.sampled_from(["none", "y", "theta", "both", "both", "almost", "almost"]))
    if same == "almost":
        for k in ("y", "theta"):
            r[1][k] = r[0][k] * (1 + draw(st.sampled_from([0.0, 1e-12, -1e-9, 1e-7, 1e-4]))) + draw(st.sampled_from([0.0, 0.0, 1e-15, 1e-9]))
    if same in ("y", "both"):
        r[1]["y"] = r[0]["y"]
    if same in ("theta", "both"):
        r[1]["theta"] = r[0]["theta"]
    return dict(r=r, z=draw(gen.num(-50, 200)), blocked=draw(st.booleans()),
                w=draw(gen.num(0.001, 5, 6)), R=draw(st.one_of(st.none(), gen.signed(1, 1000))), n=draw(gen.num(1, 3)), lam=draw(gen.num(2e-4, 2e-3, 7)), zb=draw(gen.num(-50, 500)))


def runRays(c):
    import raytracing as rt
    a, b = gen.mkray(c["r"][0]), gen.mkray(c["r"][1])
    want = a.y == b.y and a.theta == b.theta
    check((a == b) == want and (b == a) == want and (a != b) == (not want), "{0} == {1} is {2}", (a.y, a.theta), (b.y, b.theta), a == b)
    check(a == a and not a == None and not a == (a.y, a.theta), "a ray and something else")     # noqa: E711
    a.z, a.isBlocked = c["z"], c["blocked"]
    check((a == b) == want, "the position or the blocking of a ray makes it different")
    n = numbers(str(a).replace("theta", ""))
    check(len(n) == 3, "{0!r}", str(a))
    for name, got, value in zip(("y", "theta", "z"), n, (a.y, a.theta, a.z)):
        printed(got, value, 3, name)
    check(("blocked" in str(a)) == c["blocked"], "{0!r} for isBlocked={1}", str(a), c["blocked"])
    g = rt.GaussianBeam(w=c["w"], R=INF if c["R"] is None else c["R"], n=c["n"], wavelength=c["lam"], z=c["zb"])
    text = str(g)
    n = numbers(text.split("\n", 1)[1].replace("w(z)", "").replace("R(z)", "").replace("z:", ":"))
    check(len(n) == 7, "{0!r}", text)
    for name, got, value in zip(("w", "R", "z", "wavelength (nm)", "zo", "wo", "position of the waist"), n, (g.w, g.R, g.z, c["lam"] * 1e6, g.zo, g.wo, g.waistPosition)):
        printed(got, value, 1 if "wave" in name else 3, name)
    q = complex(text.split("\n")[0].split(":")[1].strip())
    check(abs(q.real - g.q.real) <= 6e-3 * abs(g.q.real) + 1e-12 and abs(q.imag - g.q.imag) <= 6e-3 * abs(g.q.imag) + 1e-12, "q is printed {0}, it is {1}", q, g.q)
    return ["nt", "equal" if want else "different"]


FACETS = [
    Facet("system", systemCases, runSystem, quick=1600, shards=3, rule="any element, group or path"),
    Facet("rays", rayCases, runRays, quick=800, shards=1, rule="two rays and a beam"),
]
ASSUMPTIONS = ["equality of paths with a figure (ImagingPath, LaserPath) is not judged, except with themselves",
               "the size of a lens without diameter is a choice of the drawing"]
