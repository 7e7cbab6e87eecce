"""C27: invalid requests are refused cleanly."""
import copy
import math

from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, mustRaise
from .c04 import state

INF = float("inf")
KINDS = ["space", "space", "lens", "iface", "thick", "slab", "ap", "mirror", "mat", "2f", "4f", "doublet", "singlet"]

# what is not a Matrix, Ray, GaussianBeam or collection of those
SCALARS = ["int", "float", "none", "object", "class", "complex", "npfloat", "function"]
ITERABLES = ["str", "list", "tuple", "dict", "array", "generator", "set", "bytes"]


def junk(kind):
    import numpy as np
    import raytracing as rt
    return dict(int=5, float=0.5, none=None, object=object(), **{"class": rt.Ray}, complex=1 + 2j, npfloat=np.float64(2.0), function=math.sin,
                str="ray", list=[1, 2.5], tuple=(0.1, 0.2), dict={"y": 1}, array=np.array([1.0, 2.0]), generator=(x for x in (1, 2)),
                set={1, 2}, bytes=b"ray", ray=rt.Ray(0.2, 0.01), rays=rt.Rays([rt.Ray(0.2, 0.01)]), beam=rt.GaussianBeam(w=1.0),
                matrix=rt.Lens(f=50), group=rt.MatrixGroup([rt.Space(d=1), rt.Lens(f=50)]), mixed=[rt.Ray(0.1, 0.2), 3], mixedm=[rt.Lens(f=5), "lens"],
                rayclass=rt.Ray, listofnone=[None], nested=[[rt.Ray(0.1, 0.2)]])[kind]


def rayState(r):
    return (type(r).__name__, sorted((k, repr(v)) for k, v in vars(r).items()))


class Context:
    """ objects in use, that refused requests must leave alone """

    def __init__(self, c):
        import raytracing as rt
        self.rt = rt
        self.group = optics.build(dict(k="group", cls=c["cls"], e=c["e"]))
        self.rays = rt.Rays([gen.mkray(r) for r in c["rays"]])
        self.list = [gen.mkray(r) for r in c["rays"]]
        self.ray = gen.mkray(c["rays"][0])
        lv = optics.leaves(dict(k="group", e=c["e"]))
        self.n = optics.frontIndex(lv)
        self.beam = rt.GaussianBeam(w=0.5, R=100.0, n=self.n)
        self.linear = optics.isLinear(lv)
        # something has been done with them
        self.group.trace(self.ray)
        self.rays.rayCountHistogram()

    def snapshot(self):
        g = self.group
        return [state(g), [id(e) for e in g.elements], len(g), [rayState(r) for r in self.rays.rays], [id(r) for r in self.rays.rays], [rayState(r) for r in self.list],
                rayState(self.ray), rayState(self.beam), list(self.rays.yValues), [list(map(float, x)) for x in self.rays.rayCountHistogram()], repr(self.rays.z), repr(self.rays.rayColors)]


def traceState(g, rays):
    return [[rayState(r) for r in g.trace(copy.copy(r))] for r in rays]


# ------------------------------------------------- requests on things in use

REQUESTS = {}


def request(kinds, types=TypeError):
    def put(f):
        REQUESTS[f.__name__] = (kinds, types, f)
        return f
    return put


NOTMATRIX = SCALARS + ITERABLES + ["ray", "rays", "beam", "mixed"]
NOTRAY = SCALARS + ITERABLES + ["rays", "mixed", "nested"]
NOTRAYS = SCALARS + ITERABLES + ["mixed", "listofnone", "nested"]


@request(SCALARS + ITERABLES + ["rays", "mixed", "mixedm"])
def multiply(x, j, i):
    return x.group * j


@request(SCALARS + ITERABLES + ["rays", "mixed", "mixedm"])
def multiplyElement(x, j, i):
    e = x.group.elements
    return (e[i % len(e)] if e else x.rt.Lens(f=10)) * j


@request(NOTMATRIX)
def append(x, j, i):
    return x.group.append(j)


@request(NOTMATRIX)
def insert(x, j, i):
    return x.group.insert(i % (len(x.group) + 1), j)


@request(NOTMATRIX)
def setitem(x, j, i):
    if not len(x.group):
        raise Skip("nothing to replace")
    x.group[i % len(x.group)] = j


@request(NOTRAY + ["matrix", "group"])
def trace(x, j, i):
    return x.group.trace(j)


@request(NOTRAY + ["matrix", "group"])
def traceThrough(x, j, i):
    return x.group.traceThrough(j)


@request(NOTRAY)
def traceElement(x, j, i):
    e = [e for e in x.group.elements]
    return (e[i % len(e)] if e else x.rt.Lens(f=10)).trace(j)


@request(NOTRAYS + ["matrix"])
def traceMany(x, j, i):
    return x.group.traceMany(j)


@request(NOTRAYS + ["matrix"])
def traceManyThrough(x, j, i):
    return x.group.traceManyThrough(j, progress=False)


@request(SCALARS + ITERABLES + ["rays", "beam", "matrix", "mixed", "nested"])
def appendRay(x, j, i):
    return x.rays.append(j)


@request(NOTRAYS + ["beam", "matrix", "group"])
def newRays(x, j, i):
    if j is None:
        raise Skip("no rays")
    return x.rt.Rays(j)


@request(SCALARS + ITERABLES + ["ray", "rays", "beam", "mixed", "mixedm", "matrix", "listofnone"])
def newGroup(x, j, i):
    if j is None or (isinstance(j, x.rt.Matrix) and hasattr(j, "elements")):
        raise Skip("valid")
    i %= 6
    if i == 5:
        return x.rt.CompoundLens(j, designFocalLength=10.0)
    return getattr(x.rt, ["MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath", "LaserCavity"][i])(j)


@request(["none"], ValueError)
def mismatched(x, j, i):
    if not len(x.group):
        raise Skip("any index")
    n = x.group.backIndex + 0.25
    e = [x.rt.DielectricInterface(n1=n, n2=1.0, R=20.0), x.rt.Matrix(1, 0, 0, 1, frontIndex=n, backIndex=n), x.rt.MatrixGroup([x.rt.Space(d=1, n=n), x.rt.DielectricInterface(n1=n, n2=1.0, R=5.0)])][i % 3]
    before = state(e)
    try:
        x.group.append(e)
    finally:
        check(state(e) == before, "an element that is refused is changed")


@request(["none"], RuntimeError)
def wrongBeam(x, j, i):
    def empty(e):
        return hasattr(e, "elements") and all(empty(o) for o in e.elements)
    if empty(x.group) or empty(x.group.elements[0]) or not x.linear or not isinstance(x.group.elements[0], x.rt.Matrix):
        raise Skip("nothing to go through")
    b = x.rt.GaussianBeam(w=0.5, n=x.n + [0.3, 0.01, -0.2, 0.06, -0.003][i // 2 % 5])
    before = rayState(b)
    try:
        return [x.group.trace, x.group.traceThrough, x.group.mul_beam, x.group.__mul__, x.group.elements[0].mul_beam][i % 5](b)
    finally:
        check(rayState(b) == before, "a beam that is refused is changed")


@request(["none"], ValueError)
def heightOfObject(x, j, i):
    if not isinstance(x.group, x.rt.ImagingPath):
        raise Skip("no object")
    x.group.objectHeight = -0.5 - i if i < 8 else -10.0 ** (6 - i)


@request(["none"], ValueError)
def styleOfDesign(x, j, i):
    if not isinstance(x.group, (x.rt.ImagingPath, x.rt.LaserPath)):
        raise Skip("no figure")
    before = repr(x.group.figure.designParams)
    try:
        x.group.figure.design(style="no such style", fontScale=3.0)
    finally:
        check(repr(x.group.figure.designParams) == before, "a refused design changes the figure")


@request(["none"], IndexError)
def rayOutside(x, j, i):
    return x.rays[len(x.rays) + i]


@request(["none"], IndexError)
def elementOutside(x, j, i):
    g, n = x.group, len(x.group)
    at = n + i // 4 if i % 2 else -n - 1 - i // 4
    if i % 3 == 2:
        e = x.rt.Lens(f=30.0)
        before = state(e)
        try:
            g[at] = e
        finally:
            check(state(e) == before, "an element that is refused is changed")
    return g[at] if i % 3 else g.pop(at)


@request(["none"], (ValueError, TypeError))
def adaptedSpaces(x, j, i):
    # spaces take the index of what is before them, unless what follows is refused
    m = x.group.backIndex + 0.5
    es = [x.rt.Space(d=2.0 + i, n=m), x.rt.DielectricInterface(n1=m + 0.25, n2=1.0, R=20.0) if i % 2 else 7, x.rt.Space(d=1.0, n=m + 1.0)]
    e0 = x.rt.Lens(f=10.0) if not len(x.group) else x.group.elements[0]
    before = [state(e) for e in es if e != 7]
    n = len(x.group)
    try:
        [lambda: x.group.insert(n, es), lambda: x.group.__setitem__(slice(n, n), es), lambda: x.rt.MatrixGroup([e0] + es), lambda: x.rt.ImagingPath([x.rt.Lens(f=5.0)] + es),
         lambda: x.group.insert(0, es)][i % 5]()
    finally:
        check([state(e) for e in es if e != 7] == before, "the spaces of a list that is refused are changed: {0}, were {1}", [state(e) for e in es if e != 7], before)


@request(["none"], TypeError)
def axiconBeam(x, j, i):
    a = x.rt.Axicon(alpha=[0.05, 0.0, -0.02][i // 4 % 3], n=1.5)
    g = x.rt.MatrixGroup([x.rt.Space(d=5), a])
    b = x.rt.GaussianBeam(w=0.5)
    return [lambda: a * b, lambda: a.mul_beam(b), lambda: g.trace(b), lambda: a.trace(b)][i % 4]()


@st.composite
def useCases(draw):
    e = draw(gen.sequence(0, 5, kinds=KINDS, dia=gen.diameter(0.4), nested=1))
    rays = draw(st.lists(gen.fullray(), min_size=1, max_size=4))
    reqs = []
    for _ in range(draw(st.integers(1, 8))):
        name = draw(st.sampled_from(sorted(REQUESTS)))
        reqs.append([name, draw(st.sampled_from(REQUESTS[name][0])), draw(st.integers(0, 12))])
    return dict(e=e, cls=draw(st.sampled_from(["MatrixGroup", "OpticalPath", "ImagingPath", "ImagingPath", "LaserPath"])), rays=rays, req=reqs)


def runUse(c):
    x = Context(c)
    before = x.snapshot()
    tags = []
    for name, kind, i in c["req"]:
        _, types, f = REQUESTS[name]
        j = junk(kind)
        held = repr([rayState(r) if hasattr(r, "y") else id(r) for r in j]) if isinstance(j, list) else None
        try:
            mustRaise(types, "{0} with {1} ({2})".format(name, kind, i), f, x, j, i)
        except Skip:
            continue
        if held is not None:
            check(repr([rayState(r) if hasattr(r, "y") else id(r) for r in j]) == held, "the list refused by {0} is changed", name)
        after = x.snapshot()
        check(after == before, "{0} with {1} is refused but changes: {2}", name, kind, [(a, b) for a, b in zip(after, before) if a != b])
        tags.append(name)
    fresh = Context(c)
    check(traceState(x.group, x.rays.rays) == traceState(fresh.group, fresh.rays.rays), "rays are traced differently after refused requests")
    for m in "ABCD":
        check(getattr(x.group, m) == getattr(fresh.group, m), "{0} after refused requests", m)
    x.rays.append(x.rt.Ray(1.0, 0.1))
    fresh.rays.append(x.rt.Ray(1.0, 0.1))
    check(list(x.rays.yValues) == list(fresh.rays.yValues), "values of rays after refused requests")
    return sorted(set(tags)) + (["nt"] if tags else ["nothing to refuse"])


# ---------------------------------------------------------------- parameters

CLASSES = ["Matrix", "Aperture", "Lens", "CurvedMirror", "Space", "DielectricInterface", "ThickLens", "DielectricSlab", "Axicon", "System2f", "System4f", "AchromatDoubletLens", "SingletLens"]
bad = st.one_of(st.sampled_from([0, 0.0, -0.0, -1, -INF, -1e-300]), st.floats(-1e6, 0, allow_nan=False))


@st.composite
def parameterCases(draw):
    k = draw(st.sampled_from(["diameter", "diameter", "NA", "determinant", "beam", "beam2", "count", "glass", "focus", "design", "material", "sources"]))
    c = dict(k=k)
    if k == "diameter":
        c.update(cls=draw(st.sampled_from(CLASSES)), v=draw(bad), which=draw(st.integers(0, 1)))
    elif k == "NA":
        c.update(cls=draw(st.sampled_from(["Matrix", "Aperture"])), v=draw(bad))
    elif k == "determinant":
        s = draw(gen.element(kinds=["mat"]))
        d = draw(st.one_of(gen.signed(0.001, 5), st.just(-2 * s["n1"] / s["n2"])))
        c.update(s=s, d=d)
    elif k == "beam2":
        c.update(w=draw(gen.num(0.01, 2)), R=draw(gen.signed(1, 1000)), lam=draw(gen.num(3e-4, 2e-3, 6)), n=draw(gen.index), f=draw(st.one_of(gen.num(1.02, 10), gen.num(0.1, 0.98))), R2=draw(st.booleans()))
    elif k == "count":
        c.update(f=draw(st.sampled_from(["fan", "fanGroup N", "fanGroup M"])), v=draw(st.integers(-5, 0)), a=draw(gen.num(-1, 1)), b=draw(gen.num(-1, 1)))
    elif k == "glass":
        c.update(d=draw(st.booleans()), which=draw(st.integers(0, 1)), mats=draw(st.booleans()))
    elif k == "focus":
        c.update(f=2.0 ** draw(st.integers(-3, 9)), which=draw(st.integers(0, 2)))   # exact in binary
    elif k == "material":
        c.update(v=draw(st.one_of(gen.num(100.0001, 2000), gen.num(0, 0.0099), gen.num(-10, 0))), m=draw(st.integers(0, 10 ** 6)))
    elif k == "sources":
        c.update(cls=draw(st.sampled_from(["RandomUniformRays", "RandomLambertianRays", "GaussianProfileUniformRays", "LampRays", "UniformRays", "LambertianRays", "Rays"])),
                 n=draw(st.integers(0, 12)), made=draw(st.lists(st.integers(-12, 11), max_size=4)), past=draw(st.lists(st.integers(0, 30), min_size=1, max_size=4)),
                 below=draw(st.lists(st.booleans(), min_size=4, max_size=4)))
    return c


def runParameters(c):
    import warnings
    import raytracing as rt
    k = c["k"]
    if k in ("diameter", "NA"):
        v = c["v"]
        what = "{0} of {1} {2}".format(k, c["cls"], v)
        if k == "NA":
            mustRaise(ValueError, what, (lambda: rt.Matrix(1, 0, 0, 1, apertureNA=v)) if c["cls"] == "Matrix" else (lambda: rt.Aperture(diameter=5.0, NA=v)))
            return ["nt", k]
        make = dict(Matrix=lambda: rt.Matrix(1, 0, 0, 1, apertureDiameter=v), Aperture=lambda: rt.Aperture(diameter=v), Lens=lambda: rt.Lens(f=10, diameter=v),
                    CurvedMirror=lambda: rt.CurvedMirror(R=-10, diameter=v), Space=lambda: rt.Space(d=10, diameter=v),
                    DielectricInterface=lambda: rt.DielectricInterface(n1=1, n2=1.5, R=10, diameter=v), ThickLens=lambda: rt.ThickLens(n=1.5, R1=20, R2=-20, thickness=3, diameter=v),
                    DielectricSlab=lambda: rt.DielectricSlab(n=1.5, thickness=3, diameter=v), Axicon=lambda: rt.Axicon(alpha=0.05, n=1.5, diameter=v), System2f=lambda: rt.System2f(f=10, diameter=v),
                    System4f=lambda: rt.System4f(f1=10, f2=20, **{"diameter%d" % (1 + c["which"]): v}),
                    AchromatDoubletLens=lambda: rt.AchromatDoubletLens(fa=100.1, fb=95.8, R1=64.37, R2=-43.3, R3=-128.03, tc1=6.5, tc2=1.8, te=7.2, n1=1.5168, n2=1.6727, diameter=v),
                    SingletLens=lambda: rt.SingletLens(f=100, R1=100, R2=-100, tc=3, te=3, n=1.5, fb=99.5, diameter=v))[c["cls"]]
        mustRaise(ValueError, what, make)
        return ["nt", k]
    if k == "determinant":
        s = c["s"]
        args = dict(A=s["A"], B=s["B"], C=s["C"], D=s["E"], frontIndex=s["n1"], backIndex=s["n2"], physicalLength=s["L"])
        rt.Matrix(**args)
        args["D"] = s["E"] + c["d"] / s["A"]
        mustRaise(ValueError, "a determinant off by {0}".format(c["d"]), lambda: rt.Matrix(**args))
        return ["nt", k]
    if k == "beam":
        mustRaise(ValueError, "a beam without q or w", lambda: rt.GaussianBeam(R=10, wavelength=5e-4))
        return ["nt", k]
    if k == "beam2":
        q = 1 / (1 / c["R"] - 1j * c["lam"] / c["n"] / (math.pi * c["w"] ** 2))
        rt.GaussianBeam(q=q, w=c["w"], R=c["R"], n=c["n"], wavelength=c["lam"])
        w, R = c["w"], c["R"]
        if c["R2"]:
            R *= c["f"]
        else:
            w *= c["f"]
        q2 = 1 / (1 / R - 1j * c["lam"] / c["n"] / (math.pi * w ** 2))
        if abs(q2 - q) / max(abs(q), abs(q2)) < 0.012:
            raise Skip("within the tolerance")
        mustRaise(ValueError, "q={0} of another beam than w={1}, R={2}".format(q, w, R), lambda: rt.GaussianBeam(q=q, w=w, R=R, n=c["n"], wavelength=c["lam"]))
        return ["nt", k]
    if k == "count":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a, b, v = c["a"], c["b"], c["v"]
            mustRaise(ValueError, "{0}={1}".format(c["f"], v), {"fan": lambda: rt.Ray.fan(a, -0.1, b, v), "fanGroup N": lambda: rt.Ray.fanGroup(a, b, 3, -0.1, 0.1, v), "fanGroup M": lambda: rt.Ray.fanGroup(a, b, v, -0.1, 0.1, 3)}[c["f"]])
        return ["nt", k]
    if k == "glass" and c.get("mats"):     # glasses, but no wavelength at all
        if c["d"]:
            mustRaise(ValueError, "a doublet of glasses without wavelength", lambda: rt.AchromatDoubletLens(fa=100.1, fb=95.8, R1=64.37, R2=-43.3, R3=-128.03, tc1=6.5, tc2=1.8, te=7.2, diameter=20, mat1=rt.N_BK7(), mat2=rt.N_SF5()))
        else:
            mustRaise(ValueError, "a singlet of glass without wavelength", lambda: rt.SingletLens(f=100, R1=100, R2=-100, tc=3, te=3, fb=99.5, n=None, mat=rt.N_BK7(), diameter=10))
        return ["nt", k]
    if k == "glass":
        if c["d"]:
            mustRaise(ValueError, "a doublet without index", lambda: rt.AchromatDoubletLens(fa=100.1, fb=95.8, R1=64.37, R2=-43.3, R3=-128.03, tc1=6.5, tc2=1.8, te=7.2, diameter=20, **({"n1": 1.5} if c["which"] else {"n2": 1.6})))
        else:
            mustRaise(ValueError, "a singlet without index", lambda: rt.SingletLens(f=100, R1=100, R2=-100, tc=3, te=3, fb=99.5, n=None, diameter=10))
        return ["nt", k]
    if k == "focus":
        flat = rt.DielectricSlab(n=1.5, thickness=c["f"])
        atFocus = rt.MatrixGroup([rt.Space(d=c["f"]), rt.Lens(f=c["f"])])
        which = c["which"]
        target = [atFocus, flat, flat][which]
        before = state(target)
        from raytracing.matrix import ToConjugate, ToFocus
        mustRaise(ValueError, "a plane at infinity", [lambda: ToConjugate(atFocus), lambda: ToFocus(flat), lambda: ToFocus(rt.Space(d=c["f"]))][which])
        check(state(target) == before, "refusing a plane at infinity changes the element")
        return ["nt", k]
    if k == "design":
        mustRaise(ValueError, "focal shifts without a design focal length", lambda: rt.CompoundLens([rt.Lens(f=10)], designFocalLength=None).focalShifts([0.5, 0.6]))
        mustRaise(ValueError, "focal shifts without a design focal length over the visible", lambda: rt.CompoundLens([rt.Lens(f=10)], designFocalLength=None).focalShifts())
        return ["nt", k]
    if k == "material":
        glasses = sorted((m for m in rt.Material.__subclasses__() if m.__module__.startswith("raytracing.")), key=lambda m: m.__name__)
        for m in (rt.N_BK7, glasses[c.get("m", 0) % len(glasses)]):
            mustRaise(ValueError, "{0} at {1} microns".format(m.__name__, c["v"]), m().n, c["v"])
        mustRaise(TypeError, "the index of no material", lambda: rt.Material().n(0.5))
        return ["nt", k]
    n = c["n"]
    makers = dict(RandomUniformRays=lambda: rt.RandomUniformRays(maxCount=n), RandomLambertianRays=lambda: rt.RandomLambertianRays(maxCount=n),
                  GaussianProfileUniformRays=lambda: rt.GaussianProfileUniformRays(1.0, maxCount=n), LampRays=lambda: rt.LampRays(1.0, N=n, random=True),
                  UniformRays=lambda: rt.UniformRays(M=1, N=n), LambertianRays=lambda: rt.LambertianRays(M=1, N=n, I=3), Rays=lambda: rt.Rays([rt.Ray(i, 0) for i in range(n)]))
    src = makers[c["cls"]]()
    n = len(src)
    for i in c["made"]:
        if -n <= i < n:
            check(src[i] is src[i + n if i < 0 else i], "ray {0} of {1} is not always the same", i, n)
    held = [id(r) for r in getattr(src, "_rays", ())]
    for p, below in zip(c["past"], c["below"]):
        i = -n - 1 - p if below else n + p
        mustRaise(IndexError, "ray {0} of {1} of {2} rays".format(i, c["cls"], n), lambda: src[i])
        check([id(r) for r in getattr(src, "_rays", ())] == held, "asking for ray {0} of {1} changes the rays", i, n)
    return ["nt", k, c["cls"]]


FACETS = [
    Facet("inuse", useCases, runUse, quick=1600, shards=4, rule="at least one invalid request made to objects in use, each compared to what they were"),
    Facet("parameters", parameterCases, runParameters, quick=1500, shards=2, rule="a constructor called with an invalid parameter"),
]
ASSUMPTIONS = ["a request is invalid when the documentation states the kind or range of the argument and the library checks it; natural Python errors of the same type are accepted",
               "empty collections are valid"]
