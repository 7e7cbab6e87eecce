"""C13: the quantities of a Gaussian beam are consistent with each other and with q."""
import cmath
import math
from hypothesis import strategies as st
from vlib import gen
from vlib.harness import Facet, Skip, check, expect, mustRaise, rel

INF = float("inf")
wavelengths = st.one_of(st.sampled_from([632.8e-6, 1e-3, 1.064e-3, 4e-4, 0.01]), gen.num(2e-4, 0.02, 6))


@st.composite
def wr(draw):
    return dict(w=draw(st.one_of(gen.num(0.02, 12), gen.num(0.002, 0.2))), R=draw(st.one_of(st.none(), gen.signed(0.5, 20), gen.signed(20, 5000))),
                n=draw(gen.index), wl=draw(wavelengths), z=draw(st.one_of(st.just(0.0), gen.num(-100, 100))),
                d=draw(st.lists(gen.num(-600, 600), min_size=1, max_size=4)),
                giveQ=draw(st.sampled_from([False, False, True])))


def qOf(w, R, n, wl):
    return 1.0 / complex(0.0 if R is None else 1.0 / R, -wl / (n * math.pi * w * w))


def quantities(beam, q, n, wl, what):
    """ every quantity of the beam from its exact q """
    z, zo = q.real, q.imag
    wo = math.sqrt(zo * wl / (n * math.pi))
    k = 1e-12 * (1 + abs(z / zo))          # conditioning of w and R with respect to q
    check(beam.n == n, "{0}: n is {1}", what, beam.n)
    check(beam.wavelength == wl, "{0}: wavelength is {1}", what, beam.wavelength)
    check(beam.isFinite, "{0}: beam is not finite", what)
    rel(beam.zo, zo, k, what + ": zo")
    rel(beam.rayleighRange, zo, k, what + ": rayleighRange")
    rel(beam.confocalParameter, beam.zo, 1e-12, what + ": confocalParameter")
    rel(beam.wo, wo, k, what + ": wo")
    rel(beam.waist, wo, k, what + ": waist")
    expect(beam.waistPosition, -z, 1e-12 * abs(q), what + ": waistPosition")
    rel(beam.w, wo * math.sqrt(1 + (z / zo) ** 2), k * (1 + abs(z / zo)), what + ": w")
    if abs(z) > 1e-9 * abs(q):
        rel(beam.R, z * (1 + (zo / z) ** 2), 1e-12 * abs(q / z) ** 2 * 4 + 1e-12, what + ": R")
    elif z == 0:
        check(math.isinf(beam.R) or abs(beam.R) > 1e9 * zo, "{0}: R at the waist is {1}", what, beam.R)
    rel(beam.wo * beam.wo * math.pi * beam.n / beam.wavelength, beam.zo, 1e-12, what + ": pi n wo^2/lambda")
    check(isinstance(str(beam), str) and str(beam) != "", "{0}: str", what)


def run(c):
    import raytracing as rt
    n, wl = c["n"], c["wl"]
    q = qOf(c["w"], c["R"], n, wl)
    R = INF if c["R"] is None else c["R"]
    kw = dict(w=c["w"], n=n, wavelength=wl, z=c["z"])
    if c["R"] is not None:
        kw["R"] = c["R"]
    if c["giveQ"]:
        kw["q"] = q * (1 + 1e-9)
    b = rt.GaussianBeam(**kw)
    # (w, R) -> q -> (w, R)
    k = abs(q.real / q.imag) if q.imag else 0
    if k > 1e6:
        raise Skip("ill conditioned: w smaller than the accuracy of q")
    rel(b.w, c["w"], 1e-12 * (1 + k), "w of the beam built with w and R")
    if c["R"] is None:
        check(math.isinf(b.R) or abs(b.R) > 1e12 * abs(q), "R of a beam built without R: {0}", b.R)
    else:
        rel(b.R, R, 1e-12 * (2 + abs(q.imag / q.real)), "R of the beam built with w and R")
    check(b.z == c["z"], "z of the beam: {0}", b.z)
    check(b.isClipped is False, "a new beam is clipped")
    expect(b.q, q, 1e-12 * abs(q), "q")
    quantities(b, q, n, wl, "beam")
    quantities(rt.GaussianBeam(q=q, n=n, wavelength=wl), q, n, wl, "beam built with q")

    # propagate in its medium: q + d, hyperbola from the waist, position
    wo, zo = b.wo, b.zo
    for d in c["d"]:
        o = rt.Space(d=abs(d), n=n) if d >= 0 else rt.Matrix(1, d, 0, 1, physicalLength=0, frontIndex=n, backIndex=n)
        x = o.traceThrough(b)
        quantities(x, q + d, n, wl, "beam propagated by %g" % d)
        away = d - b.waistPosition
        rel(x.w, wo * math.sqrt(1 + (away / zo) ** 2), 1e-10 * (1 + abs(away / zo)) ** 2 * (1 + k), "w(z) on the hyperbola")
        expect(x.z, c["z"] + (d if d >= 0 else 0), 1e-9, "z after propagation")
        rel(x.wo, wo, 1e-10 * (1 + k), "waist after propagation")
        expect(x.waistPosition, b.waistPosition - d, 1e-10 * (abs(q) + abs(d)), "waist position after propagation")
        check(x.w >= wo * (1 - 1e-9 * (1 + k)), "w(z)={0} smaller than the waist {1}", x.w, wo)
    # to the waist: flat and of the reported waist
    d = b.waistPosition
    o = rt.Space(d=d, n=n) if d >= 0 else rt.Matrix(1, d, 0, 1, frontIndex=n, backIndex=n)
    x = o.traceThrough(b)
    rel(x.w, wo, 1e-9 * (1 + k), "width at the waist position")
    check(math.isinf(x.R) or abs(x.R) > 1e6 * zo, "the beam is not flat at its waist: R={0}", x.R)
    expect(x.waistPosition, 0.0, 1e-9 * (abs(q) + 1), "waist position at the waist")
    # at the Rayleigh range: w = sqrt(2) wo and R = 2 zo, the smallest |R|
    o = rt.Space(d=zo, n=n)
    y = o.traceThrough(rt.GaussianBeam(w=wo, n=n, wavelength=wl))
    rel(y.w, wo * math.sqrt(2), 1e-10, "w at the Rayleigh range")
    rel(y.R, 2 * zo, 1e-10, "R at the Rayleigh range")
    tags = ["nt"] if c["R"] is not None else ["flat"]
    if n != 1:
        tags.append("n != 1")
    if wl != 632.8e-6:
        tags.append("wavelength given")
    if c["giveQ"]:
        tags.append("q, w and R given")
    return tags


@st.composite
def refusedCases(draw):
    c = draw(wr())
    c["how"] = draw(st.sampled_from(["missing", "q and w", "q and w", "q and w close"]))
    c["scale"] = draw(st.sampled_from([0.9, 0.98, 1.02, 1.1, 3.0]))
    c["part"] = draw(st.sampled_from(["both", "re", "im"]))
    return c


def runRefused(c):
    import raytracing as rt
    n, wl = c["n"], c["wl"]
    if c["how"] == "missing":
        mustRaise(ValueError, "GaussianBeam without q nor w", rt.GaussianBeam, n=n, wavelength=wl, z=c["z"],
                  **({} if c["R"] is None else dict(R=c["R"])))
        return ["nt", "missing"]
    q = qOf(c["w"], c["R"], n, wl)
    kw = dict(w=c["w"], n=n, wavelength=wl, **({} if c["R"] is None else dict(R=c["R"])))
    if c["how"] == "q and w close":
        b = rt.GaussianBeam(q=q * (1 + 0.001), **kw)
        rel(b.w, c["w"], 0.01 * (1 + abs(q.real / q.imag)), "w")
        return ["nt", "within tolerance"]
    s = c["scale"]
    other = dict(both=q * s, re=complex(q.real * s, q.imag), im=complex(q.real, q.imag * s))[c["part"]]
    if abs(other - q) <= 0.011 * abs(q):
        return ["difference below tolerance"]
    mustRaise(ValueError, "q={0} for w, R of q={1}".format(other, q), rt.GaussianBeam, q=other, **kw)
    return ["nt", "mismatch"]


def infiniteCases():
    return st.fixed_dictionaries(dict(re=gen.num(-100, 100), im=st.one_of(gen.num(-50, -0.01), st.just(0.0)), n=gen.index))


def runInfinite(c):
    """ a q without a beam (infinite width) is reported as such """
    import raytracing as rt
    b = rt.GaussianBeam(q=complex(c["re"], c["im"]), n=c["n"])
    check(not b.isFinite, "q={0} is finite", b.q)
    check(b.wo is None and b.waist is None, "waist of a non-finite beam: {0}", b.wo)
    check(math.isinf(b.w), "width of a non-finite beam: {0}", b.w)
    check(isinstance(str(b), str), "str")
    return ["nt"]


FACETS = [
    Facet("quantities", wr, run, quick=3000, shards=4, rule="a beam built with a finite radius of curvature"),
    Facet("refused", refusedCases, runRefused, quick=800, shards=1, rule="missing or contradictory (or just acceptable) specifications"),
    Facet("infinite", infiniteCases, runInfinite, quick=300, shards=1, rule="Im(q) <= 0"),
]
