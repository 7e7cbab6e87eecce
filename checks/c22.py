"""C22: objectives are thick lenses with their pupil and numerical aperture."""
import math
from hypothesis import strategies as st
from vlib import gen
from vlib.harness import Facet, check, expect, mustRaise, rel

# published by the manufacturers: f, NA, focus to focus, back aperture, working distance, magnification, field number
VENDOR = {
    "LUMPlanFL40X": (180 / 40, 0.8, 40, 7, 2, 40, 26.5),
    "XLUMPlanFLN20X": (180 / 20, 1.0, 80, 22, 2, 20, 22),
    "MVPlapo2XC": (90 / 2, 0.5, 137, 45, 20, 2, 17.6),
    "UMPLFN20XW": (180 / 20, 0.5, 45, 9, 3.5, 20, 26.5),
    "XLPLN25X": (180 / 25, 1.05, 75, 18, 2, 25, 18),
    "LWD16X": (200 / 16, 1.95 * 0.8, 75, 20, 3, None, None),
}


def vendorObjectives():
    from raytracing import nikon, olympus
    from raytracing.specialtylenses import Objective
    out = {}
    for m in (olympus, nikon):
        for name, c in vars(m).items():
            if isinstance(c, type) and issubclass(c, Objective) and c is not Objective:
                out[name] = c
    return out


@st.composite
def specs(draw):
    f = draw(gen.num(1, 60))
    wd = round(draw(st.one_of(gen.num(0.05, 1.0), gen.num(0.05, 1.8), st.just(1.0))) * f, 4)
    ftf = round(2 * f + draw(st.one_of(gen.num(0, 100), st.just(0.0))), 4)
    s = dict(f=f, NA=draw(gen.num(0.02, 1.6)), ftf=max(ftf, 2 * f, wd), wd=wd, ba=draw(gen.num(1, 60)),
             mag=draw(st.one_of(st.none(), gen.num(0.5, 100))), fn=draw(st.one_of(st.none(), gen.num(1, 30))))
    if draw(st.integers(0, 3)) == 0:
        s.update({k: max(1, int(s[k])) for k in ("f", "wd", "ba")})
        s["ftf"] = max(int(s["ftf"]), 2 * s["f"], s["wd"])
    return s


def make(s):
    import raytracing as rt
    kw = dict(f=s["f"], NA=s["NA"], focusToFocusLength=s["ftf"], backAperture=s["ba"], workingDistance=s["wd"])
    if s["mag"] is not None:
        kw["magnification"] = s["mag"]
    if s["fn"] is not None:
        kw["fieldNumber"] = s["fn"]
    return rt.Objective(**kw)


def flipIt(o, n):
    for _ in range(n):
        check(o.flipOrientation() is o, "flipOrientation returns something else than the objective")


def judge(o, s, flips, z, rays, what):
    """ every observable of an objective, in this orientation """
    import raytracing as rt
    f, NA, ftf, ba, wd = (float(s[k]) for k in ("f", "NA", "ftf", "ba", "wd"))
    back = flips % 2 == 1   # light enters by the sample side
    tol = 1e-10 * (1 + f + 1 / f + ftf)
    for name, want in zip("ABCD", (0.0, f, -1 / f, 0.0)):
        expect(getattr(o, name), want, tol, "{0} of {1}".format(name, what))
    expect(o.L, ftf, tol, "length of {0}".format(what))
    check(o.frontIndex == 1 and o.backIndex == 1, "indices of {0}", what)
    e = o.effectiveFocalLengths()
    rel(e[0], f, 1e-9, "front focal length of " + what)
    rel(e[1], f, 1e-9, "back focal length of " + what)
    # both ends are focal planes
    fp = o.focusPositions(z)
    expect(fp[0], z, tol * 10 + 1e-12 * abs(z), "front focus of " + what)
    expect(fp[1], z + ftf, tol * 10 + 1e-12 * abs(z), "back focus of " + what)
    poi = [(p["label"], p["z"]) for p in o.pointsOfInterest(z)]
    check(len(poi) == 2, "points of interest of {0}: {1}", what, poi)
    poi = dict(poi)
    check(len(poi) == 2, "labels of the points of interest of {0}: {1}", what, poi)
    sample = [v for k, v in poi.items() if "F_f" in k]
    pupil = [v for k, v in poi.items() if "F_b" in k]
    expect(sample[0], z if back else z + ftf, tol, "focus on the sample side of " + what)
    expect(pupil[0], z + ftf if back else z, tol, "focus on the pupil side of " + what)
    pp = o.principalPlanePositions(z)
    expect(pp[0], z + f, tol * 10 + 1e-12 * abs(z), "first principal plane of " + what)
    expect(pp[1], z + ftf - f, tol * 10 + 1e-12 * abs(z), "second principal plane of " + what)
    # vertices: the pupil and the front lens
    expect(o.frontVertex, wd if back else 0.0, tol, "front vertex of " + what)
    expect(o.backVertex, ftf if back else ftf - wd, tol, "back vertex of " + what)
    expect(o.backFocalLength(), 0.0 if back else wd, 10 * tol, "distance from the last surface to the focus of " + what)
    expect(o.frontFocalLength(), wd if back else 0.0, 10 * tol, "distance from the focus to the first surface of " + what)
    # apertures of the stated diameters at these places, and no other
    where, found = 0.0, []
    for el in o.elements:
        if not math.isinf(el.apertureDiameter):
            found.append((where, el.apertureDiameter, el.L))
        where += el.L
    found.sort()
    planes = sorted([(wd if back else ftf - wd, 2 * NA * wd), (ftf if back else 0.0, ba)])
    check(len(found) == 2, "{0} has {1} apertures", what, len(found))
    for (p, d, L), (wp, wantD) in zip(found, planes):
        expect(p, wp, tol, "position of an aperture of " + what)
        expect(d, wantD, 1e-9 * wantD, "diameter of an aperture of " + what)
        check(L == 0, "an aperture of {0} has a length", what)
    expect(o.backAperture, ba, 0, "back aperture of " + what)
    expect(o.NA, NA, 0, "numerical aperture of " + what)
    expect(o.workingDistance, wd, 0, "working distance of " + what)

    # rays: in by either end
    passed = 0
    for y, t in rays:
        r = rt.Ray(y, t)
        out = o.traceThrough(r)
        if back:   # at the sample
            atFront, atPupil = y + wd * t, f * t
        else:      # at the pupil
            atPupil, atFront = y, f * t + wd * y / f
        margins = (abs(atFront) - NA * wd, abs(atPupil) - ba / 2)
        if min(abs(m) for m in margins) <= 1e-9 * (1 + NA * wd + ba):
            continue
        blocked = max(margins) > 0
        check(bool(out.isBlocked) == blocked, "the ray {0}, {1} is {2} by {3}", y, t, "let through" if blocked else "blocked", what)
        check(r.y == y and r.theta == t and not r.isBlocked, "the ray given is changed")
        if not blocked:
            passed += 1
            expect(out.y, f * t, 1e-9 * (abs(f * t) + abs(y)) + 1e-12, "height of a ray through " + what)
            expect(out.theta, -y / f, 1e-9 * (abs(y / f) + abs(t)) + 1e-12, "angle of a ray through " + what)
            expect(out.z, ftf, tol, "position of a ray through " + what)
    return passed


def rays(s, extra, back):
    """ axial rays within and over the limits, then random ones relative to the limits """
    f, NA, ba, wd = (float(s[k]) for k in ("f", "NA", "ba", "wd"))
    out = []
    for a, b in extra:
        if back:
            out += [(0.0, a * NA), (0.0, a * ba / 2 / f), (b * NA * wd, a * NA), (b * NA * wd, a * min(NA, ba / 2 / f))]
        else:
            out += [(a * ba / 2, 0.0), (a * f * NA, 0.0), (a * ba / 2, b * NA * wd / f), (a * min(ba / 2, f * NA), b * NA * wd / f)]
    return out


factors = st.lists(st.tuples(st.one_of(gen.num(-1.5, 1.5), st.sampled_from([0.99, 1.01, -0.99, -1.01])), gen.num(-1, 1)), min_size=1, max_size=4)


def cases():
    return st.fixed_dictionaries(dict(s=specs(), flips=st.integers(0, 4), z=st.one_of(st.just(0.0), gen.num(-200, 200)), rays=factors,
                                      group=st.sampled_from(["", "MatrixGroup", "ImagingPath", "OpticalPath"]), d=gen.num(0, 100)))


def runOne(o, s, c, what):
    o2 = o
    history = []
    flips = c["flips"]
    if c["group"] and flips:
        # flipped as a part of a larger system
        import raytracing as rt
        g = getattr(rt, c["group"])()
        g.append(rt.Space(d=c["d"]))
        g.append(o)
        for _ in range(flips):
            g.flipOrientation()
        inside = [e for e in g.elements if isinstance(e, rt.Objective)]
        check(len(inside) == 1, "the objective is not in the flipped group")
        o2 = inside[0]
        history.append("in group")
    else:
        flipIt(o, flips)
    n = judge(o2, s, flips, c["z"], rays(s, c["rays"], flips % 2), what + (" flipped %d times" % flips if flips else ""))
    return history + ["flipped" if flips % 2 else "direct", "rays through" if n else "no ray through"]


def runGeneric(c):
    s = c["s"]
    o = make(s)
    tags = runOne(o, s, c, "an objective")
    if s["mag"] is None or s["fn"] is None:
        mustRaise(AttributeError, "the optical invariant of an objective without magnification or field number", o.maximumOpticalInvariant)
    else:
        rel(o.maximumOpticalInvariant(), s["fn"] / 2 / s["mag"] * s["NA"], 1e-9, "maximum optical invariant")
    return ["nt"] + tags


def vendorCases():
    return st.fixed_dictionaries(dict(name=st.sampled_from(sorted(vendorObjectives())), flips=st.integers(0, 4), z=st.one_of(st.just(0.0), gen.num(-200, 200)),
                                      rays=factors, group=st.sampled_from(["", "MatrixGroup", "ImagingPath", "OpticalPath"]), d=gen.num(0, 100)))


def runVendor(c):
    o = vendorObjectives()[c["name"]]()
    if c["name"] in VENDOR:
        s = dict(zip(("f", "NA", "ftf", "ba", "wd", "mag", "fn"), VENDOR[c["name"]]))
    else:
        s = dict(f=o.f, NA=o.NA, ftf=o.focusToFocusLength, ba=o.backAperture, wd=o.workingDistance, mag=o.magnification, fn=o.fieldNumber)
    check(o.magnification == s["mag"] and o.fieldNumber == s["fn"], "magnification {0} and field number {1} of {2}", o.magnification, o.fieldNumber, c["name"])
    if s["mag"] is not None and s["fn"] is not None:
        rel(o.maximumOpticalInvariant(), s["fn"] / 2 / s["mag"] * s["NA"], 1e-9, "maximum optical invariant of " + c["name"])
    return ["nt"] + runOne(o, s, c, c["name"])


# ------------------------------------------------------ in a microscope

def systemCases():
    return st.fixed_dictionaries(dict(s=specs(), ft=gen.num(50, 300), d=gen.num(0, 400), illum=st.booleans(), extraFlips=st.sampled_from([0, 2])))


def runSystem(c):
    """ objective and tube lens: magnification and numerical aperture of the microscope """
    import raytracing as rt
    s, ft, d = c["s"], c["ft"], c["d"]
    f = float(s["f"])
    if s["wd"] > f:   # virtual (negative) spaces: a position along the path is then ambiguous
        s = dict(s, wd=0.8 * f)
    o = make(s)
    if c["illum"]:     # from the tube lens to the sample
        flipIt(o, c["extraFlips"])
        path = rt.ImagingPath([rt.Space(d=ft), rt.Lens(f=ft), rt.Space(d=d), o])
        mag = -f / ft
    else:
        flipIt(o, 1 + c["extraFlips"])
        path = rt.ImagingPath([o, rt.Space(d=d), rt.Lens(f=ft), rt.Space(d=ft)])
        mag = -ft / f
    L = float(s["ftf"]) + d + ft
    scale = 1 + ft / f + f / ft
    expect(path.L, L, 1e-9 * L, "length of a microscope")
    expect(path.B, 0.0, 1e-9 * scale * L, "B of a microscope")
    expect(path.A, mag, 1e-9 * scale, "magnification of a microscope")
    expect(path.D, 1 / mag, 1e-9 * scale, "angular magnification of a microscope")
    expect(path.C, (d - ft) / (f * ft), 1e-9 * (scale + L), "power of a microscope")
    NA = min(float(s["NA"]), float(s["ba"]) / 2 / f)
    up, down = path.marginalRays(0)
    want = NA if not c["illum"] else NA * f / ft
    rel(up.theta, want, 1e-8, "angle of the axial cone accepted by a microscope")
    rel(down.theta, -want, 1e-8, "angle of the axial cone accepted by a microscope")
    inv = path.traceThrough(rt.Ray(0.0, want * 0.9999))
    check(not inv.isBlocked, "a ray inside of the numerical aperture is blocked")
    check(path.traceThrough(rt.Ray(0.0, want * 1.0001)).isBlocked, "a ray outside of the numerical aperture goes through")
    tie = abs(float(s["NA"]) - float(s["ba"]) / 2 / f) < 1e-6 * NA
    if not tie:
        pupil = float(s["NA"]) > NA
        wd, ftf = float(s["wd"]), float(s["ftf"])
        stop = path.apertureStop()
        where = (ftf if pupil else wd) if not c["illum"] else ft + d + (0.0 if pupil else ftf - wd)
        expect(stop.z, where, 1e-9 * (1 + L), "position of the aperture stop of a microscope")
        rel(stop.diameter, float(s["ba"]) if pupil else 2 * float(s["NA"]) * wd, 1e-9, "aperture stop of a microscope")
    return ["nt", "excitation" if c["illum"] else "detection"]


FACETS = [
    Facet("generic", cases, runGeneric, quick=1500, shards=3, rule="an objective of any parameters, flipped 0 to 4 times, alone or within a group"),
    Facet("vendor", vendorCases, runVendor, quick=400, shards=2, rule="a vendor objective against its published data, any orientation"),
    Facet("microscope", systemCases, runSystem, quick=500, shards=2, rule="an objective with a tube lens, either way"),
]
ASSUMPTIONS = ["the stops of a microscope are judged for working distances up to f: beyond, the library models the objective with a space of negative length, where a position is ambiguous",
               "objectives added to the catalogue later are judged against their own attributes",
               "numerical aperture in the paraxial sense used by the library: NA is the largest angle"]
