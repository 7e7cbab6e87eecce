"""C11: the optical invariant is conserved."""
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect
from .c01 import dropEmpty
from .c07 import position, usable, where, INF

KINDS = ["space", "space", "lens", "iface", "iface", "thick", "slab", "mirror", "2f", "4f", "doublet", "singlet", "mat"]


def noLength(x):
    """ generic matrices with a length cannot be entered """
    x = dict(x)
    if x["k"] == "mat":
        x["L"] = 0.0
    if "e" in x:
        x["e"] = [noLength(y) for y in x["e"]]
    return x


@st.composite
def cases(draw):
    e = draw(gen.sequence(1, 6, kinds=KINDS, dia=gen.diameter(0.3), nested=1, growth=1e4))
    e = [noLength(x) for x in e]
    return dict(p=dict(k="group", cls=draw(st.sampled_from(["MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath"])), e=dropEmpty(e)),
                single=draw(st.booleans()),
                r1=draw(gen.ray()), r2=draw(gen.ray()),
                at=draw(st.lists(st.one_of(
                    st.fixed_dictionaries(dict(el=st.integers(0, 30), frac=gen.num(0.02, 0.98))),
                    st.fixed_dictionaries(dict(frac=gen.num(0, 1.2)))), min_size=1, max_size=4)))


def run(c):
    import raytracing as rt
    e = c["p"]["e"]
    if not e:
        return ["empty"]
    spec = e[0] if c["single"] else c["p"]
    lv = optics.leaves(spec)
    p = optics.build(spec)
    r1, r2 = c["r1"], c["r2"]
    a, b = gen.mkray(r1), gen.mkray(r2)
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    want = n1 * (r1["theta"] * r2["y"] - r1["y"] * r2["theta"])
    tags = set()
    size = (abs(r1["y"]) + abs(r1["theta"])) * (abs(r2["y"]) + abs(r2["theta"]))
    big = 4.0 * max(n1, n2)

    def expected(z):
        got = optics.partial(lv, z)
        if got is None:
            return None
        m, n = got
        return 1e-11 * big * (1 + max(m.a) ** 2) * (1 + size) + 1e-10 * abs(want)

    zs = [(0.0, True)] + [position(x, lv) for x in c["at"]] + [(INF, True)]
    for z, exact in zs:
        if z != INF and not usable(z, lv, False):
            continue
        tol = expected(z)
        if tol is None:
            continue
        got = p.opticalInvariant(a, b, z=z)
        expect(got, want, tol, "opticalInvariant at z=%r" % z)
        expect(p.opticalInvariant(b, a, z=z), -want, tol, "opticalInvariant exchanged at z=%r" % z)
        w = "end" if z == INF else where(z, lv)
        tags.add(w)
        if w != "end" and z > 0 and want:
            tags.add("nt")
    expect(p.opticalInvariant(a, b), want, expected(0.0), "opticalInvariant, z not given")
    expect(p.opticalInvariant(a, a, z=INF), 0.0, expected(INF), "opticalInvariant of a ray with itself")
    # conserved along the actual trace
    x, y = p.trace(a)[-1], p.trace(b)[-1]
    if not x.isBlocked and not y.isBlocked:
        expect(n2 * (x.theta * y.y - x.y * y.theta), want, expected(INF), "invariant of the traced rays at the end")
        tags.add("traced to the end")
    if n1 != 1 or n2 != 1:
        tags.add("media")
    return tags


def runLagrange(c):
    """ Lagrange invariant of an imaging path: invariant of its axial and principal rays """
    from .paths import Model, build
    mo = Model(c)
    path = build(c)
    axial, principal = path.axialRay(), path.principalRay()
    got = path.lagrangeInvariant()
    if not mo.stops or axial is None or principal is None:
        check(axial is None or principal is None, "rays")
        expect(got, INF, 0, "Lagrange invariant without a stop or a field stop")
        return ["infinite"]
    p = mo.stops[0]
    half = mo.field(p)[0]
    if half > 6000:
        raise Skip("field of view close to the largest considered")
    want = mo.n1 * abs(p.D / 2 / p.m.B) * half
    expect(abs(got), want, 1e-5 * abs(want) + 4e-6 * mo.n1 * abs(p.D / 2 / p.m.B), "Lagrange invariant")
    expect(got, mo.n1 * (axial.theta * principal.y - axial.y * principal.theta), 1e-9 * (1 + abs(want)), "invariant of the axial and principal rays")
    return ["nt"] + (["media"] if mo.n1 != 1 else [])


def lagrangeCases():
    from .paths import stopPaths
    return stopPaths()


FACETS = [
    Facet("invariant", cases, run, quick=3000, shards=4, rule="two rays with a non-zero invariant at a plane inside the path"),
    Facet("lagrange", lagrangeCases, runLagrange, quick=400, shards=4, rule="an imaging path with an aperture stop and a field stop"),
]
