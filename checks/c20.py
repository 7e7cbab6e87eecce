"""C20: glass indices obey their dispersion data."""
import traceback
from hypothesis import strategies as st
from vlib import gen
from vlib.harness import Facet, Skip, check, expect, isnum, mustRaise

# Published index at the d line (catalogues of the manufacturers)
ND = dict(N_BK7=1.51680, N_SF2=1.64769, N_SF8=1.68894, SF2=1.64769, SF5=1.67270, N_SF5=1.67271, N_SF6=1.80518, N_SF6HT=1.80518,
          N_SF10=1.72828, N_SF11=1.78472, N_SF57=1.84666, N_BAF10=1.67003, N_BAK1=1.57250, N_BAK4=1.56883, FK51A=1.48656,
          LAFN7=1.74950, N_LASF9=1.85025, N_LAK22=1.65113, N_SSK5=1.65844, E_FD10=1.72825, FusedSilica=1.45846, N_SK16=1.62041,
          E_BAF11=1.66672, N_LAK10=1.72003, S_BAH11=1.66672, S_TIH6=1.80518, N_SK2=1.60738, S_PHM52=1.61800, S_NPH2=1.92286,
          N_PK52A=1.49700, H_LAF3B=1.74400, H_ZF52GT=1.84666, H_ZF13=1.78472, H_ZK50=1.60738, H_F4=1.62005)
# and their published Abbe numbers
VD = dict(N_BK7=64.17, N_SF2=33.82, N_SF8=31.31, SF2=33.85, SF5=32.21, N_SF5=32.25, N_SF6=25.36, N_SF6HT=25.36, N_SF10=28.53,
          N_SF11=25.68, N_SF57=23.78, N_BAF10=47.11, N_BAK1=57.55, N_BAK4=55.98, FK51A=84.47, LAFN7=34.95, N_LASF9=32.17, N_LAK22=55.89,
          N_SSK5=50.88, E_FD10=28.32, FusedSilica=67.82, N_SK16=60.32, E_BAF11=48.32, N_LAK10=50.62, S_BAH11=48.33, S_TIH6=25.42,
          N_SK2=56.65, S_PHM52=63.33, S_NPH2=18.90, N_PK52A=81.61, H_LAF3B=44.90, H_ZF52GT=23.78, H_ZF13=25.72, H_ZK50=56.65, H_F4=36.35)
F, D, C, G, T = 0.4861327, 0.5875618, 0.6562725, 0.4358343, 1.01398


def glasses():
    from raytracing.materials import Material
    return {c.__name__: c for c in Material.__subclasses__()}


def names():
    return sorted(glasses())


def dispersionCases():
    return st.fixed_dictionaries(dict(m=st.sampled_from(names()), w=gen.num(0.36, 2.3, 5), dw=gen.num(0.001, 0.3, 5),
                                      instance=st.booleans()))


def runDispersion(c):
    m = glasses()[c["m"]]
    g = m() if c["instance"] else m
    w, w2 = c["w"], min(2.3, c["w"] + c["dw"])
    n1, n2 = g.n(w), g.n(w2)
    check(isnum(n1) and not isinstance(n1, complex), "index of {0} at {1} um: {2!r}", c["m"], w, n1)
    check(1.0 <= n1 < 4, "index of {0} at {1} um: {2!r}", c["m"], w, n1)
    check(g.n(w) == n1 and m().n(w) == n1 and m.n(w) == n1, "the index of {0} at {1} um changes between calls", c["m"], w)
    if c["m"] == "Air":
        expect(n1, 1.0, 0, "index of air")
        return ["air"]
    if w2 > w:
        check(n2 < n1, "index of {0}: {1} at {2} um, {3} at {4} um", c["m"], n1, w, n2, w2)
    check(n1 > 1.3, "index of {0} at {1} um: {2!r}", c["m"], w, n1)
    nF, nD, nC, nG, nT = [g.n(x) for x in (F, D, C, G, T)]
    V = (nD - 1) / (nF - nC)
    check(abs(g.abbeNumber() - V) <= 2e-3 * V, "Abbe number of {0}: stated {1}, from its indices {2}", c["m"], g.abbeNumber(), V)
    expect(g.Vd(), g.abbeNumber(), 0, "Vd of {0}".format(c["m"]))
    if c["m"] in ND:
        expect(nD, ND[c["m"]], 3e-5, "index of {0} at the d line".format(c["m"]))
        expect(V, VD[c["m"]], 1.5e-3 * V, "Abbe number of {0}".format(c["m"]))
    # partial dispersions: all glasses are near the normal line
    expect((nG - nF) / (nF - nC), 0.6438 - 0.001682 * V, 0.06, "partial dispersion P(g,F) of {0}".format(c["m"]))
    expect((nC - nT) / (nF - nC), 0.5450 + 0.004743 * V, 0.14, "partial dispersion P(C,t) of {0}".format(c["m"]))
    return ["nt", c["m"]]


def refusedCases():
    return st.fixed_dictionaries(dict(m=st.sampled_from(names()),
                                      w=st.one_of(gen.num(10.001, 50), gen.num(100, 3000), gen.num(-1000, 0), gen.num(0, 0.0099), st.sampled_from([10.0001, 0.00999, 0.0, 587.6, 632.8, 1064.0])),
                                      bad=st.sampled_from([None, "0.5", [0.5], "test"]), instance=st.booleans()))


def runRefused(c):
    from raytracing.materials import Material
    m = glasses()[c["m"]]
    g = m() if c["instance"] else m
    mustRaise(ValueError, "{0}: wavelength {1}".format(c["m"], c["w"]), g.n, c["w"])
    mustRaise(TypeError, "{0}: wavelength {1!r}".format(c["m"], c["bad"]), g.n, c["bad"])
    mustRaise(TypeError, "index of the abstract material", Material.n, 0.5)
    return ["nt"]


def nameCases():
    return st.fixed_dictionaries(dict(m=st.sampled_from(names()), form=st.sampled_from(["class", "dash", "none", "str", "all", "lower", "upper", "title"]),
                                      unknown=st.text(st.sampled_from("ABKLNSF-0123456789x_ "), min_size=0, max_size=8), w=gen.num(0.4, 1.6)))


def simplified(name):
    return name.replace("-", "").replace("_", "").lower()


def runName(c):
    from raytracing.materials import Material
    all_ = glasses()
    m = all_[c["m"]]
    name = c["m"]
    form = c["form"]
    if form == "dash":
        name = name.replace("_", "-")
    elif form == "none":
        name = name.replace("_", "")
    elif form == "str":
        name = str(m())
        check(name == c["m"].replace("_", "-"), "name of {0}: {1}", c["m"], name)
    elif form == "all":
        check(c["m"] in Material.all(), "{0} is not listed", c["m"])
    elif form == "lower":
        name = name.lower().replace("_", "-")
    elif form == "upper":
        name = name.upper().replace("_", "")
    elif form == "title":
        name = name.title()
    found = Material.findByName(name)
    check(type(found) is m, "material {0!r}: {1}", name, type(found).__name__)
    check(found.n(c["w"]) == m.n(c["w"]), "index of the material found")
    check(type(Material.findByName(None)).__name__ == "Air", "material of no name")
    if simplified(c["unknown"]) not in [simplified(x) for x in all_]:
        mustRaise(ValueError, "material {0!r}".format(c["unknown"]), Material.findByName, c["unknown"])
    listed = Material.all()
    check(sorted(set(listed)) == names(), "materials listed: {0}", listed)
    return ["nt", form]


def indexCases():
    return st.fixed_dictionaries(dict(n=gen.num(0.9, 2.2, 5), near=st.one_of(st.none(), st.sampled_from(names())), w=gen.num(0.36, 2.3, 5),
                                      tol=st.one_of(st.none(), gen.num(0.0001, 0.3, 5), gen.num(0.3, 4))))


def runIndex(c):
    from raytracing.materials import Material
    all_ = glasses()
    n = c["n"] if c["near"] is None else all_[c["near"]].n(c["w"]) + (c["n"] - 1.5) * 0.01
    tol = 0.05 if c["tol"] is None else c["tol"]
    got = Material.findByIndex(n, c["w"]) if c["tol"] is None else Material.findByIndex(n=n, wavelength=c["w"], tolerance=tol)
    found = set()
    for name, index, abbe in got:
        m = all_[name]
        check(index == m.n(c["w"]), "index of the match {0}: {1}, it is {2}", name, index, m.n(c["w"]))
        check(abbe == m.abbeNumber(), "Abbe number of the match {0}: {1}", name, abbe)
        check(abs(n - index) <= tol, "{0} (index {1}) does not match {2} within {3}", name, index, n, tol)
        found.add(name)
    for name, m in all_.items():
        if abs(m.n(c["w"]) - n) < tol * (1 - 1e-9) - 1e-12:
            check(name in found, "{0} (index {1}) is missing for {2} within {3}", name, m.n(c["w"]), n, tol)
    return ["nt", "some"] if got else ["none"]


# ------------------------------------- materials that the user implements, as the library asks for

def ownCases():
    return st.fixed_dictionaries(dict(
        own=st.lists(st.fixed_dictionaries(dict(name=st.sampled_from(["My_Glass", "N_XK99", "Polymer", "Q1_2_3", "ABCDE_77"]), A=gen.num(1.3, 2.0), B=gen.num(0.001, 0.02),
                                                abbe=st.booleans())), min_size=1, max_size=3, unique_by=lambda x: x["name"]),
        w=gen.num(0.36, 2.3, 5), form=st.sampled_from(["class", "dash", "none", "lower"]), tol=gen.num(0.0001, 0.3, 5), lib=st.sampled_from(names()),
        module=st.sampled_from(["__main__", "my.glasses"])))


def runOwn(c):
    import gc
    from raytracing.materials import Material
    try:
        return own(c)
    except BaseException as e:
        traceback.clear_frames(e.__traceback__)
        raise
    finally:
        gc.collect()    # the classes must not survive the case
        for m in Material.__subclasses__():
            if m.__module__ in ("__main__", "my.glasses"):
                m.__bases__ = (Left,)


class Left:
    pass


def own(c):
    import raytracing as rt
    from raytracing.materials import Material
    made = {}
    for o in c["own"]:
        def n(cls, wavelength, o=o):
            return o["A"] + o["B"] / wavelength ** 2
        body = dict(n=classmethod(n), __module__=c["module"])
        if o["abbe"]:
            body["abbeNumber"] = classmethod(lambda cls, o=o: (o["A"] - 1) * 100)
        made[o["name"]] = type(o["name"], (Material,), body)
    for o in c["own"]:
        m = made[o["name"]]
        want = o["A"] + o["B"] / c["w"] ** 2
        name = {"class": o["name"], "dash": o["name"].replace("_", "-"), "none": o["name"].replace("_", ""), "lower": o["name"].lower()}[c["form"]]
        found = Material.findByName(name)
        check(type(found) is m, "a material of the user under {0!r}: {1}", name, type(found).__name__)
        check(found.n(c["w"]) == want and m.n(c["w"]) == want, "index of a material of the user: {0}, expected {1}", found.n(c["w"]), want)
        check(str(found) == o["name"].replace("_", "-"), "name of a material of the user: {0}", str(found))
        check(o["name"] in Material.all(), "a material of the user is not listed")
        abbe = (o["A"] - 1) * 100 if o["abbe"] else None
        check(found.abbeNumber() == abbe and found.Vd() == abbe, "Abbe number of a material of the user: {0}", found.abbeNumber())
        got = Material.findByIndex(want + c["tol"] / 2, c["w"], tolerance=c["tol"])
        check((o["name"], want, abbe) in got, "the material of the user with index {0} is missing: {1}", want, [g[0] for g in got])
        lens = rt.SingletLens(f=100, fb=100, R1=50.0, R2=-50.0, tc=5, te=2, n=None, diameter=10, mat=m, wavelength=c["w"])
        check(lens.n == want, "index of a lens of a material of the user: {0}", lens.n)
    check(type(Material.findByName(c["lib"])).__name__ == c["lib"], "the material {0} is not found any more", c["lib"])
    return ["nt", "%d materials" % len(made)]


FACETS = [
    Facet("dispersion", dispersionCases, runDispersion, quick=2500, shards=2, rule="a glass (not air), two wavelengths in 0.36-2.3 um"),
    Facet("refused", refusedCases, runRefused, quick=600, shards=1, rule="wavelength out of range (nanometres, negative, zero) or not a number"),
    Facet("name", nameCases, runName, quick=1000, shards=1, rule="each material under one of its spellings"),
    Facet("byIndex", indexCases, runIndex, quick=1200, shards=2, rule="at least one match"),
    Facet("own", ownCases, runOwn, quick=120, shards=1, rule="one to three materials implemented by the user"),
]
ASSUMPTIONS = ["transparency range taken as 0.36-2.3 um, valid for all glasses of the library",
               "the table of published nd and Vd was written from the manufacturers' catalogues; materials not in it are checked against their own Abbe number and the normal line"]
