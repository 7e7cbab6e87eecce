"""C05: batch tracing gives the one-by-one results."""
from collections import Counter
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, check, mustRaise

KINDS = ["space", "lens", "mirror", "ap", "thick", "slab", "axicon", "2f", "iface", "doublet"]


def key(r):
    return (r.y, r.theta, r.z, r.isBlocked, r.wavelength)


@st.composite
def sources(draw, maxRays=25):
    k = draw(st.sampled_from(["list", "list", "tuple", "Rays", "Rays", "generator", "uniform", "object", "lamp", "lamprandom", "random", "lambert", "empty", "same"]))
    if k in ("list", "tuple", "Rays", "generator"):
        return dict(k=k, rays=draw(st.lists(gen.fullray().flatmap(lambda r: st.booleans().map(lambda b: dict(r, blocked=b and abs(r["y"]) > 10))),
                                            max_size=maxRays)))
    if k == "same":
        return dict(k=k, ray=draw(gen.fullray()), count=draw(st.integers(1, 6)))
    if k == "empty":
        return dict(k=k, how=draw(st.sampled_from(["list", "Rays", "generator"])))
    return dict(k=k, y=draw(gen.num(0.5, 20)), t=draw(gen.num(0.01, 0.5)), m=draw(st.integers(1, 5)), n=draw(st.integers(1, 5)),
                seed=draw(st.integers(0, 10**6)))


def mksource(s):
    """ (source, list of the rays it delivers in order) """
    import numpy as np
    import raytracing as rt
    k = s["k"]
    if k in ("list", "tuple", "Rays", "generator", "same"):
        if k == "same":
            r = gen.mkray(s["ray"])
            rays = [r] * s["count"]
        else:
            rays = [gen.mkray(r) for r in s["rays"]]
        src = {"list": lambda: list(rays), "tuple": lambda: tuple(rays), "Rays": lambda: rt.Rays(list(rays)),
               "generator": lambda: (r for r in rays), "same": lambda: list(rays)}[k]()
        return src, rays
    if k == "empty":
        return {"list": lambda: [], "Rays": lambda: rt.Rays(), "generator": lambda: (r for r in [])}[s["how"]](), []
    np.random.seed(s["seed"])
    if k == "uniform":
        src = rt.UniformRays(yMax=s["y"], thetaMax=s["t"], M=s["m"], N=s["n"])
    elif k == "object":
        src = rt.ObjectRays(diameter=2 * s["y"], halfAngle=s["t"], H=s["m"], T=s["n"])
    elif k == "lamp":
        src = rt.LampRays(diameter=2 * s["y"], NA=s["t"], N=s["m"], T=s["n"])
    elif k == "lamprandom":
        src = rt.LampRays(diameter=2 * s["y"], NA=s["t"], N=s["m"] * s["n"], random=True)
    elif k == "random":
        src = rt.RandomUniformRays(yMax=s["y"], thetaMax=s["t"], maxCount=s["m"] * s["n"])
    else:
        src = rt.RandomLambertianRays(yMax=s["y"], maxCount=s["m"] * s["n"])
    return src, [src[i] for i in range(len(src))]


def path():
    return st.fixed_dictionaries(dict(
        k=st.just("group"), cls=st.sampled_from(["MatrixGroup", "ImagingPath", "LaserPath", "OpticalPath"]),
        e=gen.sequence(0, 5, n=1.0, kinds=KINDS, dia=gen.diameter(0.5), nested=1)))


def cases():
    return st.fixed_dictionaries(dict(p=path(), s=sources(), progress=st.booleans(), single=st.booleans()))


def build(p, single):
    from .c01 import dropEmpty
    e = dropEmpty(p["e"])
    if single and e:
        return optics.build(e[0])
    return optics.build(dict(p, e=e))


def run(c):
    p = build(c["p"], c["single"])
    src, rays = mksource(c["s"])
    before = [key(r) for r in rays]
    want = [p.trace(r) for r in rays]
    if c["s"]["k"] == "generator" or (c["s"]["k"] == "empty" and c["s"]["how"] == "generator"):
        got = p.traceMany(mksource(c["s"])[0])
    else:
        got = p.traceMany(src)
    check(len(got) == len(want), "traceMany returns {0} traces for {1} rays", len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        check([key(r) for r in a] == [key(r) for r in b], "traceMany[{0}] differs from trace", i)
    alone = [t[-1] for t in want]
    passing = [key(r) for r in alone if not r.isBlocked]
    out = p.traceManyThrough(src, progress=c["progress"])
    import raytracing as rt
    check(isinstance(out, rt.Rays), "traceManyThrough returns a {0}", type(out).__name__)
    check([key(r) for r in out] == passing, "traceManyThrough: {0} rays, {1} unblocked one by one (or other rays, or another order)", len(out), len(passing))
    check(len(out) == len(passing) == out.count, "traceManyThrough: length {0}, count {1} for {2} rays", len(out), out.count, len(passing))
    check([key(r) for r in rays] == before, "batch tracing changed the input rays")
    t = [c["s"]["k"]]
    if rays:
        if not passing:
            t.append("all blocked")
        elif len(passing) < len(rays):
            t.append("some blocked")
        else:
            t.append("none blocked")
    if len(rays) >= 2:
        t.append("nt")
    return t


def parallelCases():
    return st.fixed_dictionaries(dict(p=path(), s=sources(40), processes=st.one_of(st.integers(1, 7), st.integers(1, 7), st.none()), single=st.just(False)))


def runParallel(c):
    import raytracing as rt
    p = build(c["p"], c["single"])
    src, rays = mksource(c["s"])
    want = Counter(key(r) for r in (p.traceThrough(r) for r in rays) if not r.isBlocked)
    kw = {} if c["processes"] is None else dict(processes=c["processes"])
    out = p.traceManyThroughInParallel(src, progress=False, **kw)
    got = Counter(key(r) for r in out)
    check(got == want, "in parallel ({0} processes): {1} rays missing, {2} unexpected", c["processes"], sum((want - got).values()), sum((got - want).values()))
    check(len(out) == sum(want.values()), "in parallel: length {0} for {1} rays", len(out), sum(want.values()))
    check(isinstance(out, rt.Rays), "traceManyThroughInParallel returns a {0}", type(out).__name__)
    t = [c["s"]["k"], "processes %s" % ("default" if c["processes"] is None else "1" if c["processes"] == 1 else "many")]
    if len(rays) >= 2 and (c["processes"] or 8) > 1:
        t.append("nt")
        if sum(want.values()) < len(rays):
            t.append("some blocked")
        if (c["processes"] or 8) > len(rays):
            t.append("more processes than rays")
        elif len(rays) % (c["processes"] or 8):
            t.append("uneven shares")
    return t


def refusedCases():
    return st.fixed_dictionaries(dict(p=path(), bad=st.sampled_from(["number", "none", "ints", "mixed", "strings"]),
                                      how=st.sampled_from(["traceManyThrough", "traceManyThroughInParallel", "traceMany"]),
                                      r=gen.fullray(), at=st.integers(0, 3)))


def runRefused(c):
    p = build(c["p"], False)
    r = gen.mkray(c["r"])
    rays = [r, r, r]
    rays.insert(c["at"], 7)
    bad = {"number": 3.5, "none": None, "ints": [1, 2], "mixed": rays, "strings": ["a"]}[c["bad"]]
    kw = {} if c["how"] == "traceMany" else dict(progress=False)
    mustRaise(TypeError, "%s(%s)" % (c["how"], c["bad"]), getattr(p, c["how"]), bad, **kw)
    return ["nt"]


FACETS = [
    Facet("sequential", cases, run, quick=2000, shards=3, rule="at least 2 rays"),
    Facet("parallel", parallelCases, runParallel, quick=150, thorough=4000, shards=3, rule="at least 2 rays and 2 processes"),
    Facet("refused", refusedCases, runRefused, quick=200, thorough=2000, shards=1, rule="every input that is not a collection of rays"),
]
