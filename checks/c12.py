"""C12: Gaussian beams through any element or path."""
import cmath
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, mustRaise
from .c01 import dropEmpty
from .c04 import state

KINDS = ["space", "space", "lens", "iface", "thick", "slab", "ap", "mirror", "2f", "4f", "doublet", "singlet", "mat"]


@st.composite
def beams(draw):
    how = draw(st.sampled_from(["waist", "wR", "wR", "q"]))
    b = dict(how=how, wl=draw(st.sampled_from([632.8e-6, 1e-3, 1.064e-3, 4e-4, 0.01])), z=draw(st.sampled_from([0.0, 0.0, -12.5, 100.0])),
             clipped=draw(st.sampled_from([False] * 7 + [True])))
    if how == "q":
        b.update(re=draw(gen.num(-300, 300)), im=draw(gen.num(0.05, 500)))
    else:
        b.update(w=draw(gen.num(0.02, 12)))
        if how == "wR":
            b.update(R=draw(gen.signed(3, 800)))
    return b


def q0(b, n):
    if b["how"] == "q":
        return complex(b["re"], b["im"])
    iR = 0.0 if b["how"] == "waist" else 1.0 / b["R"]
    return 1.0 / complex(iR, -b["wl"] / (n * math.pi * b["w"] ** 2))


def mkbeam(b, n):
    import raytracing as rt
    if b["how"] == "q":
        o = rt.GaussianBeam(q=complex(b["re"], b["im"]), n=n, wavelength=b["wl"], z=b["z"])
    elif b["how"] == "waist":
        o = rt.GaussianBeam(w=b["w"], n=n, wavelength=b["wl"], z=b["z"])
    else:
        o = rt.GaussianBeam(w=b["w"], R=b["R"], n=n, wavelength=b["wl"], z=b["z"])
    if b["clipped"]:
        o.isClipped = True
    return o


def width(q, n, wl):
    return math.sqrt(wl / (n * math.pi * (-(1 / q)).imag))


class B:
    """ model beam; e is a bound on the relative error of q """

    def __init__(self, q, n, wl, z, clipped=False, e=1e-15):
        self.q, self.n, self.wl, self.z, self.clipped, self.e = q, n, wl, z, clipped, e

    @property
    def w(self):
        return width(self.q, self.n, self.wl)

    def werr(self):
        """ relative error of the width """
        iq = 1 / self.q
        return self.e * abs(iq) / abs(iq.imag) + 1e-14


def through(leaf, b):
    m = leaf.matrix()
    num = m.A * b.q + m.B
    den = m.C * b.q + m.D
    k = 1e-15 * (m.k + 2)
    en = (m.a[0] * abs(b.q) * (b.e + k) + m.a[1] * k) / abs(num)
    ed = (m.a[2] * abs(b.q) * (b.e + k) + m.a[3] * k) / abs(den)
    out = B(num / den, leaf.n2, b.wl, b.z + leaf.L, b.clipped, en + ed + k)
    if not math.isinf(leaf.D):
        for x in (b, out):
            if abs(x.w - leaf.D / 2) <= (10 * x.werr() + 1e-12) * x.w:
                raise optics.Ambiguous()
            if x.w > leaf.D / 2:
                out.clipped = True
    return out


def modelTrace(spec, b):
    ch = optics.children(spec)
    if ch is None:
        (l,) = optics.leaves(spec)
        return [through(l, b)]
    out = [b]
    for c in ch:
        out += modelTrace(c, out[-1])
    return out


def compareBeam(got, want, what, clip=True):
    tol = abs(want.q) * (50 * want.e + 1e-13)
    if tol > 1e-3 * abs(want.q):
        raise Skip("ill conditioned")
    expect(complex(got.q), want.q, tol, what + ".q")
    check(got.n == want.n, "{0}.n: got {1}, expected {2}", what, got.n, want.n)
    check(got.wavelength == want.wl, "{0}.wavelength: got {1}", what, got.wavelength)
    expect(got.z, want.z, 1e-9 * (1 + abs(want.z)), what + ".z")
    if want.werr() < 1e-4:
        check(got.isFinite, "{0}: beam is no longer finite, q={1}", what, got.q)
        expect(got.w, want.w, want.w * (50 * want.werr() + 1e-12), what + ".w")
    if clip:
        check(got.isClipped == want.clipped, "{0}.isClipped: got {1}, expected {2} (w={3})", what, got.isClipped, want.clipped, want.w)


def cases():
    return st.fixed_dictionaries(dict(
        e=gen.sequence(0, 6, kinds=KINDS, dia=gen.diameter(0.5), nested=2, growth=1e4),
        cls=st.sampled_from(["LaserPath", "LaserPath", "MatrixGroup", "ImagingPath", "OpticalPath", "LaserCavity"]), b=beams(), back=gen.backward))


def run(c):
    e = gen.goBack(dropEmpty(c["e"]), c.get("back"))
    spec = dict(k="group", cls=c["cls"], e=e)
    lv = optics.leaves(spec)
    n = optics.frontIndex(lv)
    start = B(q0(c["b"], n), n, c["b"]["wl"], c["b"]["z"], c["b"]["clipped"])
    try:
        want = modelTrace(spec, start)
    except optics.Ambiguous:
        raise Skip("within rounding of an aperture edge")
    path = optics.build(spec)
    beam = mkbeam(c["b"], n)
    compareBeam(beam, start, "input beam")
    before = state(path)
    got = path.trace(beam)
    check(len(got) == len(want), "trace of a beam: {0} beams instead of {1}", len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        compareBeam(g, w, "trace[%d]" % i)
    compareBeam(path.traceThrough(mkbeam(c["b"], n)), want[-1], "traceThrough")
    compareBeam(beam, start, "input beam after tracing")
    check(state(path) == before, "tracing a beam changed the path")
    tags = []
    if lv:
        # all at once
        compareBeam(path * beam, want[-1], "path * beam", clip=False)
        compareBeam(path.transferMatrix() * beam, want[-1], "transferMatrix * beam", clip=False)
        # invariant: waist * divergence * n is the same everywhere
        for x in (beam, got[-1]):
            if x.wo is not None:
                w = want[0] if x is beam else want[-1]
                if w.werr() < 1e-6:
                    expect(x.n * x.wo * (x.wo / x.zo), c["b"]["wl"] / math.pi, 1e-6 * c["b"]["wl"], "waist * divergence * n")
    many = path.traceMany([beam, beam])
    check(len(many) == 2 and all(len(t) == len(want) for t in many), "traceMany of beams")
    if len(lv) >= 2:
        tags.append("nt")
    if c["b"]["clipped"]:
        tags.append("clipped at start")
    elif want[-1].clipped:
        tags.append("clipped on the way")
        if not want[-2].clipped:
            tags.append("clipped by the last element")
    elif any(not math.isinf(l.D) for l in lv):
        tags.append("passes finite apertures")
    if any(l.n1 != 1 for l in lv):
        tags.append("media")
    return tags


@st.composite
def clipCases(draw):
    """ width just below or above the half aperture, on entering or on leaving one element """
    k = draw(st.sampled_from(["space", "space", "lens", "ap", "thick", "slab", "iface", "mirror"]))
    n = draw(gen.index) if k in ("space", "iface") else 1.0
    e = draw(gen.element(n=n, kinds=[k], dia=st.none(), maxd=300.0))
    return dict(e=e, b=dict(draw(beams()), clipped=False), at=draw(st.sampled_from(["in", "out"])), by=draw(st.sampled_from([-1, 1])),
                rel=draw(st.sampled_from([1e-6, 1e-3, 0.05])), group=draw(st.booleans()))


def runClip(c):
    import raytracing as rt
    e = dict(c["e"], D=None)
    (l,) = optics.leaves(e)
    start = B(q0(c["b"], l.n1), l.n1, c["b"]["wl"], c["b"]["z"])
    l.D = float("inf")
    out = through(l, start)
    if start.werr() > 1e-9 or out.werr() > 1e-9:
        raise Skip("ill conditioned")
    w = start.w if c["at"] == "in" else out.w
    D = 2 * w * (1 + c["by"] * c["rel"])
    e["D"] = D
    want = max(start.w, out.w) > D / 2
    if min(abs(start.w - D / 2), abs(out.w - D / 2)) < 1e-7 * w:
        raise Skip("within rounding of an aperture edge")
    o = optics.build(e)
    if c["group"]:
        o = rt.LaserPath([o])
    got = o.traceThrough(mkbeam(c["b"], l.n1))
    check(got.isClipped == want, "beam of width {0} in, {1} out, aperture {2} ({3}): isClipped is {4}", start.w, out.w, D, e["k"], got.isClipped)
    return ["nt", "clipped" if want else "passes", e["k"], "larger at the entrance" if start.w > out.w else "larger at the exit"]


def refusedCases():
    return st.fixed_dictionaries(dict(b=beams(), nb=gen.index, e=gen.sequence(1, 3, kinds=KINDS), single=st.booleans(), axicon=st.sampled_from([False, False, True])))


def runRefused(c):
    import raytracing as rt
    e = dropEmpty(c["e"])
    if not e:
        return []
    if c["axicon"]:
        o = rt.Axicon(alpha=0.01, n=1.5)
        mustRaise(TypeError, "Axicon * beam", o.traceThrough, mkbeam(c["b"], 1.0))
        return ["nt", "axicon"]
    n = optics.frontIndex(optics.leaves(dict(k="group", e=e)))
    if abs(n - c["nb"]) < 1e-9:
        return []
    o = optics.build(e[0]) if c["single"] else rt.LaserPath([optics.build(x) for x in e])
    beam = mkbeam(c["b"], c["nb"])
    v = (beam.q, beam.n, beam.z)
    mustRaise(RuntimeError, "beam in index %g entering index %g" % (c["nb"], n), o.traceThrough, beam)
    mustRaise(RuntimeError, "beam in index %g times matrix of index %g" % (c["nb"], n), lambda: o * beam)
    check((beam.q, beam.n, beam.z) == v, "a refused beam changed")
    return ["nt"]


FACETS = [
    Facet("trace", cases, run, quick=2500, shards=4, rule="a path of at least 2 elements"),
    Facet("clip", clipCases, runClip, quick=1500, shards=2, rule="every beam is close to the size of the aperture, on entering or leaving"),
    Facet("refused", refusedCases, runRefused, quick=500, shards=1, rule="every beam in the wrong medium, or on an axicon"),
]
