"""C14: laser cavities: modes reproduce themselves, stability is exact."""
import copy
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, rel
from .c01 import compare, dropEmpty
from .c12 import B, modelTrace, compareBeam
from .c04 import state

KINDS = ["space", "space", "lens", "mirror", "mirror", "thick", "slab", "ap", "2f", "doublet", "singlet"]


@st.composite
def roundTrips(draw):
    """ a round trip: anything that comes back in the medium it started in; often symmetric and often near the edge of stability """
    how = draw(st.sampled_from(["any", "any", "two mirrors", "there and back", "medium"]))
    if how == "two mirrors":
        L = draw(gen.num(5, 500))
        R1, R2 = draw(st.one_of(gen.signed(20, 1000), gen.num(50, 1000).map(lambda x: -x))), draw(gen.num(20, 1000)) * -1
        return dict(how=how, e=[dict(k="mirror", R=R1), dict(k="space", d=L), dict(k="mirror", R=R2), dict(k="space", d=L)])
    if how == "medium":
        n = draw(gen.index)
        e = [dict(k="space", d=draw(gen.num(5, 300)), n=n), dict(k="mat", A=1, B=0, C=draw(gen.signed(0.001, 0.05)), E=1, L=0, n1=n, n2=n, D=None),
             dict(k="space", d=draw(gen.num(5, 300)), n=n)]
        e += draw(gen.sequence(0, 2, n=n, kinds=["space"], dia=st.none()))
        return dict(how=how, e=e)
    e = draw(gen.sequence(1, 5, n=1.0, kinds=KINDS + (["iface"] if how == "any" else []), dia=st.none(), nested=1, endAir=True, growth=1e4, maxd=300.0))
    e = dropEmpty(e)
    if how == "there and back":
        e = [x for x in e if x["k"] != "mirror"]
        e = e + [dict(k="mirror", R=draw(gen.signed(50, 1000)))] + [dict(x, flip=x.get("flip", 0) + 1) for x in reversed(e)]
        e = e + [dict(k="mirror", R=draw(gen.signed(50, 1000)))]
    return dict(how=how, e=e)


def run(c):
    import raytracing as rt
    e = c["e"]
    if not e:
        return ["empty"]
    spec = dict(k="group", cls="LaserCavity", e=e)
    lv = optics.leaves(spec)
    m = optics.total(lv)
    tol = m.tol() * 64
    n = optics.frontIndex(lv)
    half = (m.A + m.D) / 2
    if abs(m.C) < 2e-5 or tol > 1e-7:
        raise Skip("no power, or ill conditioned")
    if abs(abs(half) - 1) < 1e-9 + 10 * tol * (1 + abs(half)):
        raise Skip("at the edge of stability")
    cavity = optics.build(spec)
    before = state(cavity)
    stable = abs(half) < 1
    modes = cavity.laserModes()
    eigen = cavity.eigenModes()
    check(cavity.isStable == stable, "(A+D)/2 = {0}: isStable is {1}", half, cavity.isStable)
    check(len(modes) == (1 if stable else 0), "(A+D)/2 = {0}: {1} physical modes", half, len(modes))
    check(len(eigen) == 2, "{0} eigenmodes", len(eigen))
    # both eigenmodes are the two roots of q = (Aq+B)/(Cq+D)
    roots = []
    for x in eigen:
        check(x is not None, "eigenmode None for a cavity with power (C={0})", m.C)
        q = complex(x.q)
        res = m.C * q * q + (m.D - m.A) * q - m.B
        scale = abs(m.C) * abs(q) ** 2 + (abs(m.D) + abs(m.A)) * abs(q) + abs(m.B)
        scale += 1e-3 * (abs(m.D) + abs(m.A)) ** 2 / abs(m.C)
        check(abs(res) <= scale * (1e-10 + tol), "eigenmode q={0} is not reproduced by the round trip (residue {1})", q, res)
        check(x.n == n, "eigenmode in index {0} instead of {1}", x.n, n)
        roots.append(q)
    expect(roots[0] + roots[1], complex((m.A - m.D) / m.C, 0), (1e-9 + tol) * (abs(roots[0]) + abs(roots[1]) + (abs(m.A) + abs(m.D)) / abs(m.C)), "sum of both eigenmodes")
    check(state(cavity) == before, "computing the modes changed the cavity")
    tags = [c["how"], "stable" if stable else "unstable"]
    if n != 1:
        tags.append("medium")
    if not stable:
        return tags
    tags.append("nt")
    mode = modes[0]
    zR = math.sqrt(max(0, 1 - half * half)) / abs(m.C)      # Rayleigh range of the mode
    q = complex((m.A - m.D) / (2 * m.C), zR)
    k = 1e-9 + tol / (1 - half * half)
    expect(complex(mode.q), q, k * 10 * abs(q), "mode")
    start = B(complex(mode.q), n, mode.wavelength, mode.z, False, 1e-14)
    try:
        want = modelTrace(spec, start)
    except optics.Ambiguous:
        raise Skip("ambiguous")
    got = cavity.trace(mode)
    back = got[-1]
    expect(complex(back.q), complex(mode.q), (k + 100 * want[-1].e) * abs(q) * 10, "mode after a round trip")
    if want[-1].e < 1e-9:
        rel(back.w, mode.w, 1e-6 + k, "width of the mode after a round trip")
    # rotation: the same cavity starting anywhere is stable, with the mode found at that place
    for i in range(1, len(e)):
        r = dict(k="group", cls="LaserCavity", e=e[i:] + e[:i])
        other = optics.build(r)
        mr = optics.total(optics.leaves(r))
        check(cavity.__class__ is other.__class__, "class")
        if abs(mr.C) < 2e-5:
            continue
        modesR = other.laserModes()
        check(len(modesR) == 1, "rotated by {0}: {1} modes instead of 1 ((A+D)/2={2})", i, len(modesR), (mr.A + mr.D) / 2)
        kk = k + mr.tol() * 64 / (1 - half * half)
        upto = B(q, n, mode.wavelength, 0.0, False, 1e-14)
        for l in optics.leaves(dict(k="group", e=e[:i])):
            mm = l.matrix()
            den = mm.C * upto.q + mm.D
            upto = B((mm.A * upto.q + mm.B) / den, l.n2, upto.wl, 0, False, upto.e + (mm.a[2] * abs(upto.q) + mm.a[3]) / abs(den) * (upto.e + 1e-14))
        if upto.e > 1e-6:
            continue
        expect(complex(modesR[0].q), upto.q, (kk * 10 + 100 * upto.e) * abs(upto.q) * (1 + abs(upto.q) / upto.q.imag), "mode rotated by %d" % i)
        check(abs(modesR[0].n - upto.n) < 1e-12, "index of the mode rotated by {0}: {1}", i, modesR[0].n)
        tags.append("rotated")
    return tags


@st.composite
def edgeCases(draw):
    """ two-mirror cavities at a chosen stability parameter near +1, -1 or 0 """
    half = draw(st.sampled_from([1, -1, 1, -1, 0])) + draw(st.sampled_from([1, -1])) * draw(st.sampled_from([1e-6, 1e-4, 1e-2, 0.2, 0.9]))
    g = math.sqrt(abs((half + 1) / 2))            # half = 2 g1 g2 - 1
    ratio = draw(gen.num(0.3, 3))
    g1, g2 = g * ratio, g / ratio * (1 if half > -1 else -1)
    if draw(st.booleans()):
        g1, g2 = -g1, -g2
    return dict(g1=g1, g2=g2, L=draw(gen.num(5, 500)), half=half)


def runEdge(c):
    import raytracing as rt
    L = c["L"]
    def mirror(g):
        return dict(k="mirror", R=-L / (1 - g)) if abs(1 - g) > 1e-9 else dict(k="mirror", R=-1e12)
    r = dict(how="two mirrors at the edge", e=[mirror(c["g1"]), dict(k="space", d=L), mirror(c["g2"]), dict(k="space", d=L)])
    tags = run(r)
    cavity = rt.LaserCavity([optics.build(x) for x in r["e"]])
    check(cavity.isStable == (0 < c["g1"] * c["g2"] < 1), "g1={0} g2={1}: isStable is {2}", c["g1"], c["g2"], cavity.isStable)
    return set(tags) | {"nt"}


@st.composite
def exactCases(draw):
    """ cavities whose round trip is exact in floating point: often precisely at the edge of stability, or afocal """
    space = st.fixed_dictionaries(dict(k=st.just("space"), d=st.sampled_from([1, 2, 4, 8, 16, 32, 64, 3, 6, 12, 24, 48])))
    lens = st.fixed_dictionaries(dict(k=st.just("lens"), f=st.sampled_from([1, 2, 4, 8, 16, 32, 64, -1, -2, -4, -8, -16, -32])))
    mirror = st.fixed_dictionaries(dict(k=st.just("mirror"), R=st.sampled_from([-2, -4, -8, -16, -32, -64, 8, 16, 32])))
    e = draw(st.lists(st.one_of(space, space, lens, mirror), min_size=1, max_size=5))
    how = draw(st.sampled_from(["any", "any", "concentric", "plane", "telescope", "confocal"]))
    f = draw(st.sampled_from([1, 2, 4, 8, 16, 32]))
    if how == "concentric":
        e = [dict(k="mirror", R=-2 * f), dict(k="space", d=4 * f), dict(k="mirror", R=-2 * f), dict(k="space", d=4 * f)]
        if draw(st.booleans()):
            e = [dict(k="lens", f=f), dict(k="space", d=4 * f)]
    elif how == "plane":
        e = [x for x in e if x["k"] == "space"] or [dict(k="space", d=f)]
    elif how == "telescope":
        e = [dict(k="lens", f=f), dict(k="space", d=2 * f), dict(k="lens", f=f)] * draw(st.integers(1, 2)) + [x for x in e if x["k"] == "space"]
    elif how == "confocal":
        e = [dict(k="mirror", R=-2 * f), dict(k="space", d=2 * f), dict(k="mirror", R=-2 * f), dict(k="space", d=2 * f)]
    turn = draw(st.integers(0, 3)) % len(e)
    return dict(e=e[turn:] + e[:turn], split=draw(st.booleans()), how=how)


def runExact(c):
    import raytracing as rt
    from fractions import Fraction as F
    A, B, C, D = F(1), F(0), F(0), F(1)
    for x in c["e"]:
        a, b, g, d = F(1), F(0), F(0), F(1)
        if x["k"] == "space":
            b = F(x["d"])
        elif x["k"] == "lens":
            g = F(-1, x["f"])
        else:
            g = F(2, x["R"])
        A, B, C, D = a * A + b * C, a * B + b * D, g * A + d * C, g * B + d * D
    if any(F(float(x)) != x or abs(x) > 2 ** 24 or (x * 2 ** 24).denominator != 1 for x in (A, B, C, D)):
        raise Skip("not exact")
    if 0 < abs(C) < F(2, 100000):
        raise Skip("almost no power")
    objs = [optics.build(dict(x, D=None) if x["k"] != "space" else dict(x, n=1.0, D=None)) for x in c["e"]]
    if c["split"]:
        cavity = rt.LaserCavity()
        for o in objs:
            cavity.append(o)
    else:
        cavity = rt.LaserCavity(objs)
    for n, want in zip("ABCD", (A, B, C, D)):
        expect(getattr(cavity, n), float(want), 1e-12 * (1 + abs(float(want))), n)
        if F(float(getattr(cavity, n))) != want:
            raise Skip("rounded")
    half = (A + D) / 2
    physical = C != 0 and abs(half) < 1
    modes = cavity.laserModes()
    check(len(modes) == int(physical), "C={0}, (A+D)/2={1}: {2} physical modes", float(C), float(half), len(modes))
    check(bool(cavity.isStable) == physical, "C={0}, (A+D)/2={1}: isStable is {2} with {3} modes", float(C), float(half), cavity.isStable, len(modes))
    tags = [c["how"]]
    if abs(half) == 1:
        tags += ["nt", "exactly at the edge"]
    if C == 0:
        tags += ["nt", "no power"]
    if physical:
        tags += ["nt", "stable"]
        q = complex(modes[0].q)
        expect(q, complex(float((A - D) / (2 * C)), math.sqrt(1 - float(half) ** 2) / abs(float(C))), 1e-9 * (1 + abs(q)), "mode")
    return tags


@st.composite
def reverseCases(draw):
    e = draw(gen.sequence(1, 5, n=1.0, kinds=["space", "space", "lens", "mirror", "thick", "slab", "2f", "4f", "doublet", "singlet", "ap"] + ["iface"] * draw(st.sampled_from([0, 0, 6])),
                          nested=0, growth=1e3, maxd=300.0))
    bare = any(x["k"] == "iface" for x in e)     # the index changes along the path: only a complete reverse fits
    if not bare and draw(st.booleans()):
        sub = [x for x in draw(gen.sequence(1, 3, n=1.0, kinds=["space", "lens", "thick"], growth=1e3))]
        e.insert(draw(st.integers(0, len(e))), dict(k="group", cls="MatrixGroup", e=sub))
    return dict(e=e, first=draw(st.booleans()), last=draw(st.booleans()) and not bare, ctor=draw(st.booleans()))


def runReverse(c):
    import raytracing as rt
    e = c["e"]
    if c["ctor"]:
        cavity = rt.LaserCavity([optics.build(x) for x in e])
    else:
        cavity = rt.LaserCavity()
        for x in e:
            cavity.append(optics.build(x))
    # appending a group appends its elements
    count = len(cavity.elements)
    flat = []
    for x in e:
        ch = optics.children(x)
        flat += [x] if ch is None or c["ctor"] is None else ([x] if len(e) == count else ch)
    if len(flat) != count:
        raise Skip("mixed splicing")
    original = list(cavity.elements)
    back = flat[1 if c["first"] else 0:len(flat) - 1 if c["last"] else len(flat)]
    back = [x if x["k"] == "mirror" else dict(x, flip=x.get("flip", 0) + 1) for x in reversed(back)]
    want = flat + back
    cavity.appendElementsInReverse(skipFirstElement=c["first"], skipLastElement=c["last"])
    check(len(cavity.elements) == len(want), "{0} elements instead of {1}", len(cavity.elements), len(want))
    check(all(a is b for a, b in zip(cavity.elements, original)), "the forward elements changed")
    compare(cavity, optics.leaves(dict(k="group", e=want)), "cavity with its reverse")
    for i, (o, x) in enumerate(zip(cavity.elements, want)):
        compare(o, optics.leaves(x), "element %d" % i)
    tags = []
    if len(e) >= 2:
        tags.append("nt")
    if any(x["k"] in ("thick", "doublet", "singlet", "group", "4f", "iface") for x in back):
        tags.append("asymmetric")
    for k in ("first", "last"):
        if c[k]:
            tags.append("skip " + k)
    # there and back, without the first and last duplicated, gives A = D
    return tags


FACETS = [
    Facet("modes", roundTrips, run, quick=2500, shards=4, rule="a stable cavity (its mode is propagated through and compared at every starting element)"),
    Facet("edge", edgeCases, runEdge, quick=800, shards=2, rule="two-mirror cavities at or near a chosen stability parameter"),
    Facet("exact", exactCases, runExact, quick=1000, shards=2, rule="round trips computed without rounding: afocal, stable, or exactly at the edge of stability"),
    Facet("reverse", reverseCases, runReverse, quick=1000, shards=2, rule="at least 2 elements appended in reverse"),
]
