"""C18: a ray collection and its statistics always reflect its current rays."""
import os
import tempfile
from hypothesis import strategies as st
from vlib import gen
from vlib.harness import Facet, Skip, check, expect, mustRaise

values = st.one_of(st.integers(-8, 8).map(float), gen.num(-10, 10))
aray = st.tuples(values, st.one_of(st.sampled_from([-0.5, -0.25, 0.0, 0.25, 0.5]), gen.num(-1.5, 1.5))).map(list)


def ops():
    i = st.integers(-12, 12)
    hist = st.fixed_dictionaries(dict(op=st.sampled_from(["hist", "hist", "angles"]), bins=st.one_of(st.none(), st.integers(1, 12), st.integers(1, 4)),
                                      lo=st.one_of(st.none(), st.none(), values), hi=st.one_of(st.none(), st.none(), values)))
    return st.one_of(
        st.fixed_dictionaries(dict(op=st.just("append"), r=aray)), st.fixed_dictionaries(dict(op=st.just("append"), r=aray)),
        st.fixed_dictionaries(dict(op=st.just("append bad"), what=st.integers(0, 4))),
        st.fixed_dictionaries(dict(op=st.just("save"), slot=st.integers(0, 1))),
        st.fixed_dictionaries(dict(op=st.just("load"), slot=st.integers(0, 1), append=st.booleans())),
        st.fixed_dictionaries(dict(op=st.just("iterate"), stop=st.one_of(st.none(), st.integers(0, 6)), inner=st.one_of(st.none(), st.integers(0, 6)))),
        st.fixed_dictionaries(dict(op=st.just("open"))), st.fixed_dictionaries(dict(op=st.just("next"), which=st.integers(0, 5), n=st.integers(1, 4))),
        st.fixed_dictionaries(dict(op=st.sampled_from(["values", "thetas"]))), st.fixed_dictionaries(dict(op=st.just("values while iterating"), at=st.integers(0, 5))),
        hist, hist, st.fixed_dictionaries(dict(op=st.just("again"))),
        st.fixed_dictionaries(dict(op=st.just("index"), i=i)), st.fixed_dictionaries(dict(op=st.just("slice"), i=i, j=i)),
        st.fixed_dictionaries(dict(op=st.just("copy"))))


def cases():
    return st.fixed_dictionaries(dict(
        base=st.sampled_from(["list", "list", "tuple", "generator", "none", "empty", "UniformRays", "ObjectRays", "LambertianRays", "Rays"]),
        rays=st.lists(aray, max_size=8), many=st.sampled_from([0] * 9 + [30, 60, 61, 62, 125, 250, 997]), M=st.integers(2, 4), N=st.integers(2, 3), ops=st.lists(ops(), min_size=5, max_size=18)))


def histogram(vals, bins, lo, hi):
    """ (centres, [(fewest, most)]) counts allowed for values within rounding of a bin edge """
    w = (hi - lo) / bins
    centres = [lo + (k + 0.5) * w for k in range(bins)]
    low, high = [0] * bins, [0] * bins
    tol = 1e-9 * (abs(lo) + abs(hi) + (hi - lo))
    for v in vals:
        if v < lo or v > hi:
            continue
        k = min(bins - 1, int((v - lo) / w))
        near = [j for j in (k - 1, k, k + 1) if 0 <= j < bins and lo + j * w - tol <= v <= lo + (j + 1) * w + tol]
        if len(near) == 1:
            low[near[0]] += 1
        for j in near:
            high[j] += 1
    return centres, list(zip(low, high))


def checkHist(got, vals, bins, lo, hi, what):
    check(isinstance(got, tuple) and len(got) == 2, "{0}: {1!r}", what, got)
    x, n = got
    bins = 40 if bins is None else bins
    check(len(x) == bins and len(n) == bins, "{0}: {1} centres and {2} counts for {3} bins", what, len(x), len(n), bins)
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5        # numpy's convention for a range of zero width
    centres, counts = histogram(vals, bins, lo, hi)
    for k in range(bins):
        expect(x[k], centres[k], 1e-9 * (abs(lo) + abs(hi)) + 1e-12, "%s: centre of bin %d" % (what, k))
        check(counts[k][0] <= n[k] <= counts[k][1], "{0}: {1} rays in bin {2} around {3}, expected {4} (rays {5})", what, n[k], k, x[k], counts[k], vals[:12])
    inside = sum(1 for v in vals if lo <= v <= hi)
    check(sum(n) == inside, "{0}: counts sum to {1} for {2} rays in the range", what, sum(n), inside)


def run(c):
    import raytracing as rt
    d = tempfile.mkdtemp(dir=os.environ.get("RTV_WORK"))
    init = [rt.Ray(y, t) for y, t in c["rays"]]
    if c.get("many"):
        init = [rt.Ray((k * 7 % 41) / 4.0 - 5, (k * 5 % 23) / 32.0 - 0.35) for k in range(c["many"])] + init
    b = c["base"]
    if b in ("none", "empty"):
        src, model = (rt.Rays() if b == "none" else rt.Rays([])), []
    elif b in ("list", "tuple", "generator", "Rays"):
        given = list(init)
        arg = dict(list=lambda: given, tuple=lambda: tuple(given), generator=lambda: (r for r in given), Rays=lambda: rt.Rays(given))[b]()
        src, model = rt.Rays(rays=arg), list(init)
    else:
        src = dict(UniformRays=lambda: rt.UniformRays(2, thetaMax=0.5, M=c["M"], N=c["N"]),
                   ObjectRays=lambda: rt.ObjectRays(4, halfAngle=0.25, H=c["M"], T=c["N"]),
                   LambertianRays=lambda: rt.LambertianRays(3, M=c["M"], N=c["N"] + 1, I=2))[b]()
        model = list(src)
    original = None
    if b == "list":
        original = given
    files, iterators, used, tags = {}, [], [], set([b])
    last = None
    if c.get("many"):
        tags.add("many rays")
    src.save(os.path.join(d, "rays0.pkl"))
    files[0] = [(r.y, r.theta) for r in model]

    def hist(o):
        angles = o["op"] == "angles"
        vals = [r.theta if angles else r.y for r in model]
        f = src.rayAnglesHistogram if angles else src.rayCountHistogram
        kw = {k: v for k, v in dict(binCount=o["bins"], minValue=o["lo"], maxValue=o["hi"]).items() if v is not None}
        if not vals and (o["lo"] is None or o["hi"] is None):
            mustRaise(ValueError, "histogram of no rays without a range", f, **kw)
            return
        lo = min(vals) if o["lo"] is None else o["lo"]
        hi = max(vals) if o["hi"] is None else o["hi"]
        if lo > hi:
            for _ in range(2):
                mustRaise(ValueError, "histogram from {0} to {1}".format(lo, hi), f, **kw)
            tags.add("range refused")
            return
        checkHist(f(**kw), vals, o["bins"], lo, hi, "%s(%r) after %s" % (f.__name__, kw, used[-4:]))

    def readback(what):
        got = src.rays
        check(len(src) == len(model) and src.count == len(model), "{0}: {1} rays, expected {2}", what, len(src), len(model))
        check(len(got) == len(model) and all(a is b or (a.y, a.theta) == (b.y, b.theta) for a, b in zip(got, model)), "{0}: other rays than expected", what)

    for o in c["ops"]:
        op = o["op"]
        if op == "append":
            r = rt.Ray(*o["r"])
            src.append(r)
            model.append(r)
        elif op == "append bad":
            bad = [None, 1.0, [rt.Ray()], rt.Rays([rt.Ray()]), rt.GaussianBeam(w=1)][o["what"]]
            mustRaise(TypeError, "append(%r)" % bad, src.append, bad)
        elif op == "save":
            path = os.path.join(d, "rays%d.pkl" % o["slot"])
            src.save(path)
            files[o["slot"]] = [(r.y, r.theta) for r in model]
        elif op == "load":
            path = os.path.join(d, "rays%d.pkl" % o["slot"])
            if o["slot"] not in files:
                mustRaise((OSError,), "load of a missing file", src.load, path, append=o["append"])
            else:
                src.load(path, append=o["append"])
                new = src.rays[-len(files[o["slot"]]):] if files[o["slot"]] else []
                check([(r.y, r.theta) for r in new] == files[o["slot"]], "load: other rays than those saved")
                model = (model if o["append"] else []) + new
                iterators = []
                tags.add("load")
        elif op == "iterate":
            seen = []
            for i, r in enumerate(src):
                seen.append(r)
                check(len(seen) <= len(model), "iteration: more than {0} rays", len(model))
                if o["inner"] is not None:
                    inner = []
                    for j, s in enumerate(src):
                        inner.append(s)
                        if j >= o["inner"]:
                            break
                    check([id(x) for x in inner] == [id(x) for x in src.rays[:o["inner"] + 1]], "nested iteration gives other rays")
                    tags.add("nested iteration")
                if o["stop"] is not None and i >= o["stop"]:
                    break
            want = src.rays if o["stop"] is None else src.rays[:o["stop"] + 1]
            check([id(x) for x in seen] == [id(x) for x in want], "iteration gives {0} rays, expected {1}", len(seen), len(want))
        elif op == "open":
            iterators.append([iter(src), 0])
        elif op == "next":
            if iterators:
                it = iterators[o["which"] % len(iterators)]
                for _ in range(o["n"]):
                    if it[1] is None:
                        break
                    r = next(it[0], None)
                    if it[1] >= len(model):
                        check(r is None, "an open iterator gives a ray after the last one")
                        it[1] = None
                    else:
                        check(r is not None, "an open iterator stops at ray {0} of {1}", it[1], len(model))
                        check(r is src[it[1]], "an open iterator gives another ray at {0}", it[1])
                        it[1] += 1
                tags.add("open iterator")
        elif op == "values":
            check(list(src.yValues) == [r.y for r in model], "yValues {0} after {1}", src.yValues, used[-4:])
        elif op == "thetas":
            check(list(src.thetaValues) == [r.theta for r in model], "thetaValues {0} after {1}", src.thetaValues, used[-4:])
        elif op == "values while iterating":
            seen = []
            for i, r in enumerate(src):
                seen.append(id(r))
                if i == o["at"]:
                    src.yValues, src.thetaValues
                check(len(seen) <= len(model), "iteration does not stop")
            check(seen == [id(r) for r in src.rays], "iteration interrupted by a query gives other rays")
        elif op in ("hist", "angles"):
            hist(o)
            last = o
        elif op == "again":
            if last is not None:
                hist(last)
        elif op == "index":
            if -len(model) <= o["i"] < len(model):
                a, m = src[o["i"]], model[o["i"]]
                check((a.y, a.theta) == (m.y, m.theta), "ray at index {0}", o["i"])
            else:
                mustRaise(IndexError, "index {0} of {1} rays".format(o["i"], len(model)), lambda: src[o["i"]])
        elif op == "slice":
            a = src[o["i"]:o["j"]]
            m = model[o["i"]:o["j"]]
            check([(x.y, x.theta) for x in a] == [(x.y, x.theta) for x in m], "slice")
        elif op == "copy":
            src.rays.append(rt.Ray(99, 99))      # a copy: no effect
            src.rays.clear()
        used.append(op)
        readback(op)
    for o in (dict(op="hist", bins=None, lo=None, hi=None), dict(op="angles", bins=5, lo=-1.0, hi=1.0), dict(op="hist", bins=7, lo=-3.0, hi=4.0)):
        hist(o)
    check(list(src.yValues) == [r.y for r in model] and list(src.thetaValues) == [r.theta for r in model], "values at the end of {0}", used)
    check([(r.y, r.theta) for r in src] == [(r.y, r.theta) for r in model], "rays at the end of {0}", used)
    if original is not None:
        check(len(original) == len(init) and all(a is x for a, x in zip(original, init)), "the list given at construction changed")
    queries = {"hist", "angles", "values", "thetas"}
    changed = [i for i, u in enumerate(used) if u in ("append", "load")]
    if changed and any(u in queries for u in used[:changed[-1]]):
        tags.add("nt")
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    os.rmdir(d)
    return tags


# ------------------------------------------------ the profile that is displayed

def displayCases():
    return st.fixed_dictionaries(dict(
        base=st.sampled_from(["Rays", "Rays", "UniformRays", "RandomUniformRays"]), rays=st.lists(aray, min_size=1, max_size=8), M=st.integers(2, 4), N=st.integers(2, 3),
        more=st.lists(st.lists(aray, min_size=1, max_size=3), min_size=0, max_size=1), showTheta=st.lists(st.booleans(), min_size=1, max_size=2),
        before=st.lists(st.fixed_dictionaries(dict(bins=st.integers(1, 12), angles=st.booleans(), lo=st.just(-2.0), hi=st.just(2.0))), max_size=1)))


def runDisplay(c):
    import raytracing as rt
    import matplotlib.pyplot as plt
    make = dict(Rays=lambda: rt.Rays([rt.Ray(y, t) for y, t in c["rays"]]), UniformRays=lambda: rt.UniformRays(2, thetaMax=0.5, M=c["M"], N=c["N"]),
                RandomUniformRays=lambda: rt.RandomUniformRays(yMax=2, maxCount=7))
    src = make[c["base"]]()
    for o in c["before"]:
        (src.rayAnglesHistogram if o["angles"] else src.rayCountHistogram)(binCount=o["bins"], minValue=o["lo"], maxValue=o["hi"])
    steps = [[]] + c["more"]
    for k, extra in enumerate(steps):
        if c["base"] == "Rays":
            for y, t in extra:
                src.append(rt.Ray(y, t))
        for showTheta in c["showTheta"]:
            plt.close("all")
            src.display(title="profile", showTheta=showTheta)
            axes = plt.gcf().axes
            check(len(axes) == (2 if showTheta else 1), "display(showTheta={0}) has {1} axes", showTheta, len(axes))
            model = list(src)
            for axis, vals, what in zip(axes, ([r.y for r in model], [r.theta for r in model]), ("heights", "angles")):
                lines = axis.lines
                check(len(lines) == 1, "{0} profiles of the {1}", len(lines), what)
                x, n = [float(v) for v in lines[0].get_xdata()], [int(v) for v in lines[0].get_ydata()]
                checkHist((x, n), vals, None, min(vals), max(vals), "the displayed profile of the " + what)
                lo, hi = axis.get_ylim()
                check(lo <= 0 and hi >= max(n), "the profile of the {0} exceeds the axes", what)
                if what == "heights":
                    lo, hi = axis.get_xlim()
                    check(lo <= x[0] and hi >= x[-1], "the profile of the heights exceeds the axes")
    plt.close("all")
    return ["nt"] if len(src) >= 2 else []


FACETS = [
    Facet("display", displayCases, runDisplay, quick=60, shards=3, thorough=1500, rule="the displayed profiles of at least two rays"),
    Facet("history", cases, run, quick=4000, shards=4, rule="rays are appended or loaded after statistics were asked for"),
]
