"""C21: catalogue lenses meet their prescription at every wavelength."""
import json
import math
import os
import warnings
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, VERIF, check, expect, knownFindings, mustRaise, rel
from .c20 import glasses

# Prescriptions published by the vendors, as entered in the library and confirmed by the focal lengths
with open(os.path.join(VERIF, "data", "catalogue.json")) as f:
    PUBLISHED = json.load(f)
LISTED = {k["case"]["lens"]: k for k in knownFindings("C21") if k["facet"] == "listed"}
INF = float("inf")


def catalogue():
    from raytracing import eo, thorlabs
    from raytracing.specialtylenses import AchromatDoubletLens, SingletLens
    out = {}
    for m in (thorlabs, eo):
        for name, c in vars(m).items():
            if isinstance(c, type) and issubclass(c, (AchromatDoubletLens, SingletLens)) and c not in (AchromatDoubletLens, SingletLens):
                out[name] = c
    return out


def isDoublet(o):
    from raytracing.specialtylenses import AchromatDoubletLens
    return isinstance(o, AchromatDoubletLens)


def spec(p, doublet, n):
    """ model of a lens of prescription p with glass indices n """
    if doublet:
        return dict(k="doublet", R1=p["R1"], R2=p["R2"], R3=p["R3"], t1=p["tc1"], t2=p["tc2"], n1=n[0], n2=n[1], D=p["diameter"])
    return dict(k="singlet", R1=p["R1"], R2=p["R2"], t=p["tc"], n=n[0], D=p["diameter"])


def stated(o):
    p = {k: getattr(o, k) for k in (("fa", "fb", "R1", "R2", "R3", "tc1", "tc2", "te") if isDoublet(o) else ("f", "fb", "R1", "R2", "tc", "te"))}
    p["diameter"] = o.elements[0].apertureDiameter
    return p


def mats(o):
    return [o.mat1, o.mat2] if isDoublet(o) else [o.mat]


def compareWith(o, lv, what):
    """ the real lens against its model """
    m = optics.total(lv)
    for i, n in enumerate("ABCD"):
        expect(getattr(o, n), m.m[i], 1e-11 * (1 + m.a[i]), "{0} of {1}".format(n, what))
    L = optics.length(lv)
    expect(o.L, L, 1e-9 * L, "thickness of " + what)
    expect(o.frontIndex, 1.0, 0, "front index of " + what)
    expect(o.backIndex, 1.0, 0, "back index of " + what)
    expect(o.frontVertex, 0.0, 1e-12, "front vertex of " + what)
    expect(o.backVertex, L, 1e-9 * L, "back vertex of " + what)
    f = -1.0 / m.C
    f1, f2 = o.effectiveFocalLengths()
    rel(f1, f, 1e-9, "front focal length of " + what)
    rel(f2, f, 1e-9, "back focal length of " + what)
    rel(o.backFocalLength(), -m.A / m.C, 1e-9, "distance from the back surface to the focus of " + what, atol=1e-9 * abs(f))
    rel(o.frontFocalLength(), -m.D / m.C, 1e-9, "distance from the focus to the front surface of " + what, atol=1e-9 * abs(f))


def apertures(o, D, what):
    from raytracing import DielectricInterface
    for e in o.elements:
        if isinstance(e, DielectricInterface):
            expect(e.apertureDiameter, D, 1e-9, "diameter of a surface of " + what)
    expect(o.apertureDiameter, D, 1e-9, "diameter of " + what)
    # a ray inside goes through, a ray outside does not
    import raytracing as rt
    check(rt.Ray.__name__ and not o.traceThrough(rt.Ray(0.0, 0.0)).isBlocked, "an axial ray is blocked by {0}", what)
    out = o.traceThrough(rt.Ray(D / 2 * 1.001, 0.0))
    check(out.isBlocked, "a ray outside of the diameter goes through {0}", what)
    check(not o.elements[0].traceThrough(rt.Ray(D / 2 * 0.999, 0.0)).isBlocked, "a ray inside of the diameter is blocked by {0}", what)


# -------------------------------------------------------------- prescription

def names():
    return sorted(catalogue())


def lensCases():
    return st.fixed_dictionaries(dict(lens=st.sampled_from(names()), flips=st.integers(0, 3)))


def focals(o, p, flips):
    """ (effective focal length, back focal length in the normal orientation) """
    f = o.effectiveFocalLengths()
    bf = o.backFocalLength() if flips % 2 == 0 else o.frontFocalLength()
    return f.f1, bf


def sag(R, h):
    return 0.0 if math.isinf(R) else math.copysign(abs(R) - math.sqrt(R * R - h * h), R)


def runPrescription(c, strict=False):
    name = c["lens"]
    o = catalogue()[name]()
    p = stated(o)
    pub = PUBLISHED.get(name)
    listed = LISTED.get(name)
    if pub is not None and listed is None:
        for k, v in p.items():
            k = k if k in pub else {"fa": "f", "f": "fa"}.get(k, k)
            if k in pub:
                rel(v, pub[k], 2e-3, "{0} of {1}".format(k, name))
        for k, m in zip(("mat1", "mat2") if isDoublet(o) else ("mat",), mats(o)):
            check((m.__name__ if isinstance(m, type) else type(m).__name__ if m is not None else None) == pub.get(k), "glass {0} of {1}: {2}", k, name, m)
        check(o.wavelengthRef == pub["wavelengthRef"], "design wavelength of {0}: {1}", name, o.wavelengthRef)
    for _ in range(c["flips"]):
        o.flipOrientation()
    f, bf = focals(o, p, c["flips"])
    fa = p["fa"] if "fa" in p else p["f"]
    ends = (p["R1"], p["R3"] if isDoublet(o) else p["R2"])
    te = o.L + sag(ends[1], p["diameter"] / 2) - sag(ends[0], p["diameter"] / 2)
    if strict or listed is None:
        rel(f, fa, 0.01, "focal length of {0}".format(name))
        rel(bf, p["fb"], 0.01, "back focal length of {0}".format(name))
        rel(te, p["te"], 0.06, "edge thickness of {0}".format(name))
    else:   # a listed finding: anything other than what is listed is reported
        rel(f, listed["f"], 2e-3, "focal length of {0} (listed as {1} for {2})".format(name, listed["f"], fa))
        rel(bf, listed["bf"], 2e-3, "back focal length of {0} (listed as {1} for {2})".format(name, listed["bf"], p["fb"]))
        rel(te, listed["te"], 2e-3, "edge thickness of {0} (listed as {1} for {2})".format(name, listed["te"], p["te"]))
    expect(o.designFocalLength, fa, 0, "design focal length of {0}".format(name))
    apertures(o, p["diameter"], name)
    return ["nt", "flipped" if c["flips"] % 2 else "direct"]


def runListed(c):
    return runPrescription(dict(c, flips=0), strict=True)


# ---------------------------------------------------------- other wavelengths

def waveCases():
    return st.fixed_dictionaries(dict(lens=st.sampled_from(names()), w=st.one_of(st.none(), gen.num(0.36, 2.0, 5), gen.num(0.4, 0.8, 5)), flips=st.integers(0, 3),
                                      z=gen.num(-100, 100), y=gen.heights))


def runWave(c):
    import raytracing as rt
    name = c["lens"]
    cls = catalogue()[name]
    o = cls()
    fixed = any(m is None for m in mats(o))
    w = c["w"]
    if fixed:
        if w is not None:
            raise Skip("lens of unknown glasses")
        n = [o.n1, o.n2] if isDoublet(o) else [o.n]
    else:
        if w is not None:
            o = cls(wavelength=w)
        n = [m.n(w if w is not None else o.wavelengthRef) for m in mats(o)]
    p = stated(o)
    s = spec(p, isDoublet(o), n)
    s["flip"] = c["flips"]
    for _ in range(c["flips"]):
        check(o.flipOrientation() is o, "flipOrientation of {0}", name)
    lv = optics.leaves(s)
    compareWith(o, lv, "{0} at {1}".format(name, w))
    # foci in place, at any position
    fp = o.focusPositions(c["z"])
    expect(fp[0], c["z"] - o.frontFocalLength(), 1e-9 * (1 + abs(fp[0])), "front focus of " + name)
    expect(fp[1], c["z"] + o.L + o.backFocalLength(), 1e-9 * (1 + abs(fp[1])), "back focus of " + name)
    poi = {q["label"]: q["z"] for q in o.pointsOfInterest(c["z"])}
    expect(sorted(poi.values())[0], min(fp), 1e-9 * (1 + abs(min(fp))), "points of interest of " + name)
    expect(sorted(poi.values())[-1], max(fp), 1e-9 * (1 + abs(max(fp))), "points of interest of " + name)
    # a ray parallel to the axis crosses it at the focus
    y = c["y"]
    r = [x for x in rt.MatrixGroup([e for e in o.elements]).trace(rt.Ray(y, 0.0))][-1]
    if not r.isBlocked and abs(y) > 1e-6:
        expect(r.y + r.theta * o.backFocalLength(), 0.0, 1e-9 * (1 + abs(y)), "height at the focus of a parallel ray through " + name)
    return ["nt", "reference" if w is None else "other wavelength", "flipped" if c["flips"] % 2 else "direct"]


# -------------------------------------------------------------- focal shifts

def shiftCases():
    return st.fixed_dictionaries(dict(lens=st.sampled_from(names()), w=st.one_of(st.none(), st.lists(gen.num(0.36, 2.0, 5), min_size=1, max_size=6)),
                                      array=st.booleans(), flip=st.booleans(), show=st.sampled_from([False] * 5 + [True])))


def runShift(c):
    import numpy as np
    name = c["lens"]
    cls = catalogue()[name]
    o = cls()
    if any(m is None for m in mats(o)):
        raise Skip("lens of unknown glasses")
    if c["flip"]:
        o.flipOrientation()
    ws = c["w"]
    before = list(ws) if ws is not None else None
    got = o.focalShifts() if ws is None else o.focalShifts(wavelengths=np.array(ws) if c["array"] else ws)
    waves, shifts = [float(x) for x in got[0]], [float(x) for x in got[1]]
    if ws is None:
        check(len(waves) >= 2 and min(waves) == 400 and max(waves) == 800, "default wavelengths of the focal shifts: {0}", waves[:3])
    else:
        check(ws == before, "focalShifts changed the wavelengths given")
        check(len(waves) == len(ws), "{0} wavelengths, {1} given", len(waves), len(ws))
        for a, b in zip(waves, ws):
            expect(a, b * 1000, 1e-6, "wavelength of a focal shift in nm")
    check(len(shifts) == len(waves), "{0} focal shifts for {1} wavelengths", len(shifts), len(waves))
    p = stated(o)
    fa = p["fa"] if "fa" in p else p["f"]
    for w, s in zip(waves, shifts):
        n = [m.n(w / 1000) for m in mats(o)]
        m = optics.total(optics.leaves(spec(p, isDoublet(o), n)))
        expect(s, -1 / m.C - fa, 1e-7 * abs(fa), "focal shift of {0} at {1} nm".format(name, w))
    if c["show"]:
        import matplotlib.pyplot as plt
        plt.close("all")
        o.showChromaticAberrations() if ws is None else o.showChromaticAberrations(wavelengths=ws)
        lines = plt.gca().lines
        check(len(lines) == 1, "{0} curves for the focal shifts of {1}", len(lines), name)
        for got, want, what in ((lines[0].get_xdata(), waves, "wavelength"), (lines[0].get_ydata(), shifts, "focal shift")):
            check(len(got) == len(want), "{0} points shown for {1} focal shifts", len(got), len(want))
            for a, b in zip(got, want):
                expect(float(a), b, 1e-9 * (1 + abs(b)), "%s shown for %s" % (what, name))
        plt.close("all")
        for cls in [x for x in type(o).__mro__ if x.__name__ in ("AchromatDoubletLens", "SingletLens", "CompoundLens")]:
            listed = cls.all()
            check(listed.count(name) == 1, "{0} is {1} times in {2}.all()", name, listed.count(name), cls.__name__)
            others = [n for n, k in catalogue().items() if issubclass(k, cls) != (n in listed)]
            check(not others, "{0}.all() and the catalogue differ: {1}", cls.__name__, others[:3])
    return ["nt", "default" if ws is None else "given"] + (["shown"] if c["show"] else [])


# -------------------------------------------------- lenses of any prescription

@st.composite
def genericCases(draw):
    s = draw(gen.cemented(flip=False, dia=st.one_of(st.none(), gen.num(1, 20))))
    g = [x for x in sorted(glasses()) if x != "Air"]
    return dict(s=s, m=[draw(st.sampled_from(g)), draw(st.sampled_from(g))], useMat=draw(st.booleans()), inst=draw(st.booleans()),
                w=draw(st.one_of(st.none(), gen.num(0.36, 2.0, 5))), ref=draw(st.one_of(st.none(), gen.num(0.36, 2.0, 5))), flips=draw(st.integers(0, 3)),
                n=[draw(gen.glass), draw(gen.glass)], alsoN=draw(st.booleans()), dev=draw(gen.num(-0.5, 0.5)), ints=draw(st.booleans()), te=draw(gen.num(0.5, 20)),
                devs=[draw(st.one_of(st.just(0.0), st.just(0.0), st.sampled_from([0.004, -0.004, 0.02, -0.03, 0.0125]), gen.num(-0.5, 0.5))) for _ in range(3)],
                exact=draw(st.booleans()))


def runGeneric(c):
    import raytracing as rt
    s = dict(c["s"])
    doublet = s["k"] == "doublet"
    ms = [glasses()[x] for x in c["m"]]
    ms = [m() if c["inst"] else m for m in ms]
    useN = not c["useMat"] or c["alsoN"]
    n = list(c["n"])
    if c["useMat"]:
        w = c["w"] if c["w"] is not None else c["ref"]
        if w is not None:
            n = [m.n(w) for m in ms]
    if doublet:
        s["n1"], s["n2"] = n
    else:
        s["n"] = n[0]
    m = optics.total(optics.leaves(s))
    if abs(m.C) < 1e-5 or abs(m.A) < 1e-6:
        raise Skip("no power")
    # the stated focal lengths are data: differing from the computed ones only makes a note
    f, fb = -1 / m.C * (1 + c["dev"]), -m.A / m.C * (1 - c["dev"])
    D = optics.inf(s["D"])
    te = c["te"]
    if c["exact"]:
        f, fb = -1 / m.C * (1 + c["devs"][0]), -m.A / m.C * (1 + c["devs"][1])
    h = D / 2
    ends = [optics.inf(s["R1"]), optics.inf(s["R3" if doublet else "R2"])]
    edge = None
    if not math.isinf(h) and all(abs(R) >= h for R in ends):
        edge = (s["t1"] + s["t2"] if doublet else s["t"]) + sag(ends[1], h) - sag(ends[0], h)
        if c["exact"] and edge != 0:
            te = edge * (1 + c["devs"][2])
    if c["ints"]:
        f, fb = int(f) or 1, int(fb) or 1
    kw = dict(fb=fb, diameter=D, te=te, wavelength=c["w"], wavelengthRef=c["ref"], label="lens", url="here")
    if math.isinf(D):
        kw["diameter"] = INF
    missing = (not useN) and c["w"] is None and c["ref"] is None
    if doublet:
        kw.update(fa=f, R1=optics.inf(s["R1"]), R2=optics.inf(s["R2"]), R3=optics.inf(s["R3"]), tc1=s["t1"], tc2=s["t2"])
        if useN:
            kw.update(n1=c["n"][0], n2=c["n"][1])
        if c["useMat"]:
            kw.update(mat1=ms[0], mat2=ms[1])
        make = rt.AchromatDoubletLens
    else:
        kw.update(f=f, R1=optics.inf(s["R1"]), R2=optics.inf(s["R2"]), tc=s["t"], n=c["n"][0] if useN else None)
        if c["useMat"]:
            kw.update(mat=ms[0])
        make = rt.SingletLens
    if missing:
        mustRaise(ValueError, "a lens without any index", make, **kw)
        return ["nt", "refused"]
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter("always")
        o = make(**kw)
    notes = [str(x.message) for x in said if issubclass(x.category, rt.utils.ExpertNote)]
    told = None
    if edge is not None:
        # figures which are off by more than the tolerances that the library documents are announced, the others are not
        off = [abs(-1 / m.C - f) / abs(f) / 0.01, abs(-m.A / m.C - fb) / abs(fb) / 0.01, abs(edge - te) / abs(te) / 0.05]
        if all(abs(x - 1) > 1e-6 for x in off):
            told = sum(x > 1 for x in off)
            check(len(notes) == told, "{0} of the stated figures are off (focal, back focal, edge: {1} tolerances), notes given: {2}", told, off, notes)
    for _ in range(c["flips"]):
        o.flipOrientation()
    s["flip"] = c["flips"]
    compareWith(o, optics.leaves(s), "a lens")
    check(o.designFocalLength == f and o.label == "lens" and o.url == "here" and o.wavelengthRef == c["ref"], "attributes of a lens")
    if not math.isinf(D):
        apertures(o, D, "a lens")
    return ["nt", "glasses" if c["useMat"] else "indices"] + ([] if told is None else ["figures off: %d" % told])


FACETS = [
    Facet("prescription", lensCases, runPrescription, quick=2400, shards=3, rule="each catalogue lens, any orientation"),
    Facet("listed", lensCases, runListed, quick=0, rule="the listed findings, judged strictly"),
    Facet("wavelength", waveCases, runWave, quick=1500, shards=3, rule="a catalogue lens at its reference or any other wavelength, any orientation"),
    Facet("shifts", shiftCases, runShift, quick=300, shards=3, rule="focal shifts of a catalogue lens"),
    Facet("generic", genericCases, runGeneric, quick=800, shards=2, rule="a doublet or singlet of any prescription, with glasses or indices"),
]
ASSUMPTIONS = ["a prescription is met within 1% of its focal lengths (the tolerance the library itself documents) and 6% of its edge thickness",
               "data/catalogue.json holds the published prescriptions; lenses added later are checked against their own stated values only"]
