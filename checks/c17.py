"""C17: ray sources emit the stated number of rays inside the stated limits."""
import math
from hypothesis import strategies as st
from vlib import gen
from vlib.harness import Facet, Skip, check, expect, mustRaise

PI2 = math.pi / 2


def limits():
    y = gen.num(0.01, 30)
    return st.fixed_dictionaries(dict(
        yMax=y, yMin=st.one_of(st.none(), st.none(), y.map(lambda v: -v), st.just(0.0), st.sampled_from([0.5, 0.25]).map(lambda f: ("f", f))),
        tMax=st.one_of(gen.num(0.001, 1.5), st.just(None)), tMin=st.one_of(st.none(), st.none(), gen.num(-1.5, -0.001), st.just(0.0))))


def resolve(c):
    """ keyword arguments and limits that follow from them """
    kw, y1 = dict(yMax=c["yMax"]), c["yMax"]
    y0 = c["yMin"]
    if isinstance(y0, (tuple, list)):
        y0 = y1 * y0[1]
    if y0 is not None:
        kw["yMin"] = y0
    else:
        y0 = -y1
    t1 = PI2 if c["tMax"] is None else c["tMax"]
    if c["tMax"] is not None:
        kw["thetaMax"] = t1
    t0 = -t1
    if c["tMin"] is not None:
        t0 = c["tMin"]
        kw["thetaMin"] = t0
    return kw, y0, y1, t0, t1


def grid(lo, hi, n):
    return [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def sameGrid(rays, ys, ts, what):
    """ rays = every combination of ys and ts, exactly once (compared as sorted lists) """
    check(len(rays) == len(ys) * len(ts), "{0}: {1} rays instead of {2} x {3}", what, len(rays), len(ys), len(ts))
    from bisect import bisect_left
    def nearest(v, values):
        s = max(abs(values[0]), abs(values[-1])) * 1e-9 + 1e-12
        for i, x in enumerate(values):
            if abs(x - v) <= s:
                return i
        return None
    seen = {}
    for r in rays:
        i, j = nearest(r.y, ys), nearest(r.theta, ts)
        check(i is not None, "{0}: height {1} is not on the grid {2}", what, r.y, ys[:10])
        check(j is not None, "{0}: angle {1} is not on the grid {2}", what, r.theta, ts[:10])
        check((i, j) not in seen or len(set(ys)) < len(ys) or len(set(ts)) < len(ts), "{0}: the ray y={1}, theta={2} is there twice", what, r.y, r.theta)
        seen[(i, j)] = 1
    return True


def pristine(r, what):
    check(not r.isBlocked and r.z == 0 and math.isinf(r.apertureDiameter), "{0}: ray blocked, or not at z=0", what)


# ------------------------------------------------------------ regular sources

def regularCases():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["UniformRays", "UniformRays", "ObjectRays", "LampRays", "LampRays", "LambertianRays", "fan", "fanGroup"]),
        lim=limits(), M=st.integers(1, 14), N=st.integers(1, 14), I=st.integers(1, 60), z=st.one_of(st.just(0.0), gen.num(-50, 50)),
        names=st.booleans()))


def runRegular(c):
    import raytracing as rt
    kw, y0, y1, t0, t1 = resolve(c["lim"])
    M, N, k = c["M"], c["N"], c["kind"]
    tags = ["nt", k] if M > 1 and N > 1 else [k, "single height or angle"]
    slack = 1e-12
    if k == "LambertianRays":
        kw = {x: v for x, v in kw.items() if x in ("yMax", "yMin")}
        I = c["I"]
        M, N = max(M, 2), max(N, 2)
        rays = rt.LambertianRays(M=M, N=N, I=I, **kw)
        ys, ts = grid(y0, y1, M), grid(-PI2, PI2, N)
        total = 0
        byAngle = {}
        for r in rays:
            pristine(r, k)
            check(y0 - slack <= r.y <= y1 + slack and -PI2 - slack <= r.theta <= PI2 + slack, "Lambertian ray outside of the limits: {0}", r)
            i = min(range(N), key=lambda q: abs(ts[q] - r.theta))
            j = min(range(M), key=lambda q: abs(ys[q] - r.y))
            expect(r.theta, ts[i], 1e-9, "angle on the grid")
            expect(r.y, ys[j], 1e-9 * (1 + abs(y1)), "height on the grid")
            byAngle[(i, j)] = byAngle.get((i, j), 0) + 1
            total += 1
        check(total == len(rays) == rays.count, "{0} rays delivered, {1} announced", total, len(rays))
        for i in range(N):
            x = I * math.cos(ts[i])
            ok = {int(x)} | ({int(x + 1e-9), int(x - 1e-9)} if abs(x - round(x)) < 1e-9 else set())
            for j in range(M):
                check(byAngle.get((i, j), 0) in ok, "{0} rays at angle {1} height {2}: expected int({3} cos)", byAngle.get((i, j), 0), ts[i], ys[j], I)
        return tags
    if k == "fan":
        rays = rt.Ray.fan(y=y1, radianMin=t0, radianMax=t1, N=N)
        ys, ts = [y1], grid(t0, t1, N) if N > 1 else [t0]
        sameGrid(rays, ys, ts, k)
        return tags
    if k == "fanGroup":
        rays = rt.Ray.fanGroup(yMin=y0, yMax=y1, M=M, radianMin=t0, radianMax=t1, N=N)
        sameGrid(rays, grid(y0, y1, M) if M > 1 else [y0], grid(t0, t1, N) if N > 1 else [t0], k)
        return tags
    if k == "UniformRays":
        rays = rt.UniformRays(M=M, N=N, **kw)
        check(math.isclose(rays.yMin, y0) and math.isclose(rays.yMax, y1), "limits of the source: {0}, {1}", rays.yMin, rays.yMax)
    elif k == "ObjectRays":
        y1 = c["lim"]["yMax"]; y0 = -y1; t0 = -t1
        extra = dict(rayColors=["b", "r", "g"], color="b", label="object") if c["names"] else {}
        rays = rt.ObjectRays(2 * y1, halfAngle=t1, H=M, T=N, z=c["z"], **extra)
        check(rays.z == c["z"], "position of the object: {0}", rays.z)
        if extra:
            check(rays.label == "object" and rays.rayColors == ["b", "r", "g"], "label and colors: {0}, {1}", rays.label, rays.rayColors)
    else:
        y1 = c["lim"]["yMax"]; y0 = -y1; t0 = -t1
        if c["names"]:
            rays = rt.LampRays(2 * y1, NA=t1, H=M, T=N, z=c["z"])
        else:
            rays = rt.LampRays(2 * y1, NA=t1, N=M, T=N, z=c["z"])
        check(rays.z == c["z"], "position of the lamp: {0}", rays.z)
    got = list(rays)
    check(len(got) == len(rays) == rays.count == M * N, "{0}: {1} rays delivered, {2} announced, {3} x {4} asked", k, len(got), len(rays), M, N)
    for r in got:
        pristine(r, k)
        check(y0 - slack * (1 + abs(y0)) <= r.y <= y1 + slack * (1 + y1), "{0}: height {1} outside of [{2}, {3}]", k, r.y, y0, y1)
        check(t0 - slack <= r.theta <= t1 + slack, "{0}: angle {1} outside of [{2}, {3}]", k, r.theta, t0, t1)
    ys = grid(y0, y1, M) if M > 1 else [got[0].y]
    ts = grid(t0, t1, N) if N > 1 else [got[0].theta]
    sameGrid(got, ys, ts, k)
    again = list(rays)
    check(len(again) == len(got) and all(a is b for a, b in zip(again, got)), "{0}: other rays on a second pass", k)
    order = list(range(len(got)))[::-1]
    check(all(rays[i] == got[i] for i in order) and rays[-1] == got[-1], "{0}: other rays by index", k)
    return tags


# ------------------------------------------------------------- random sources

OPS = st.one_of(
    st.tuples(st.just("get"), st.integers(-400, 400)), st.tuples(st.just("get"), st.integers(-60, 60)),
    st.tuples(st.just("all"), st.just(0)), st.tuples(st.just("some"), st.integers(0, 40)),
    st.tuples(st.just("open"), st.just(0)), st.tuples(st.just("next"), st.integers(0, 30)),
    st.tuples(st.just("values"), st.just(0)), st.tuples(st.just("nested"), st.integers(0, 8)), st.tuples(st.just("hist"), st.integers(1, 12)))


def randomCases():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["RandomUniformRays", "RandomUniformRays", "RandomLambertianRays", "GaussianProfileUniformRays", "LampRays"]),
        lim=limits(), count=st.integers(1, 60), ops=st.lists(OPS.map(list), min_size=1, max_size=12), seed=st.integers(0, 2 ** 31)))


def makeRandom(k, lim, count):
    import raytracing as rt
    kw, y0, y1, t0, t1 = resolve(lim)
    if k == "RandomUniformRays":
        return rt.RandomUniformRays(maxCount=count, **kw), y0, y1, t0, t1
    if k == "RandomLambertianRays":
        kw = {x: v for x, v in kw.items() if x in ("yMax", "yMin")}
        return rt.RandomLambertianRays(maxCount=count, **kw), y0, y1, -PI2, PI2
    if k == "GaussianProfileUniformRays":
        return rt.GaussianProfileUniformRays(intensityWidth=y1, maxCount=count), -math.inf, math.inf, -PI2, PI2
    return rt.LampRays(2 * y1, NA=t1, N=count, random=True), -y1, y1, -t1, t1


def runRandom(c):
    import numpy as np
    np.random.seed(c["seed"])
    n, k = c["count"], c["kind"]
    src, y0, y1, t0, t1 = makeRandom(k, c["lim"], n)
    seen = {}
    tags = {k}

    def note(i, r, what):
        check(y0 - 1e-12 <= r.y <= y1 + 1e-12 and t0 - 1e-12 <= r.theta <= t1 + 1e-12,
              "{0}: ray y={1} theta={2} outside of [{3}, {4}] x [{5}, {6}]", k, r.y, r.theta, y0, y1, t0, t1)
        pristine(r, k)
        if i in seen:
            check(seen[i] == (r.y, r.theta), "{0}: ray {1} by {2} is {3}, it was {4}", k, i, what, (r.y, r.theta), seen[i])
        seen[i] = (r.y, r.theta)

    def everything(what):
        rays = []
        for r in src:
            rays.append(r)
            check(len(rays) <= n, "{0} ({1}): more than {2} rays", k, what, n)
        check(len(rays) == n, "{0} ({1}): {2} rays instead of {3}", k, what, len(rays), n)
        for i, r in enumerate(rays):
            note(i, r, what)

    iterators = []
    used = set()
    for op, a in c["ops"]:
        used.add(op)
        check(len(src) == n and src.count == n, "{0}: announces {1} rays instead of {2}", k, len(src), n)
        if op == "get":
            i = a if abs(a) <= 60 and a % 7 == 0 else a % (2 * n) - n
            if -n <= i < n:
                note(i % n, src[i], "index %d" % i)
            else:
                mustRaise(IndexError, "index {0} of {1} rays".format(i, n), lambda: src[i])
                tags.add("index refused")
        elif op == "all":
            everything("iteration")
        elif op == "some":
            for i, r in enumerate(src):
                note(i, r, "partial iteration")
                if i >= a:
                    break
        elif op == "open":
            iterators.append([iter(src), 0])
        elif op == "next":
            if iterators:
                it = iterators[a % len(iterators)]
                for _ in range(a % 5):
                    r = next(it[0], None)
                    if r is None:
                        check(it[1] == n, "{0}: an iterator stopped after {1} rays of {2}", k, it[1], n)
                        break
                    check(it[1] < n, "{0}: an iterator gives more than {1} rays", k, n)
                    note(it[1], r, "an open iterator")
                    it[1] += 1
                tags.add("interleaved iterators")
        elif op == "values":
            ys, ts = src.yValues, src.thetaValues
            check(len(ys) == len(ts) == n, "{0}: {1} heights and {2} angles for {3} rays", k, len(ys), len(ts), n)
            for i, v in enumerate(zip(ys, ts)):
                check(i not in seen or seen[i] == v, "{0}: values of ray {1}: {2}, it was {3}", k, i, v, seen.get(i))
                seen[i] = v
        elif op == "nested":
            for i, r in enumerate(src):
                note(i, r, "outer iteration")
                if i <= a % 3:
                    for j, s in enumerate(src):
                        note(j, s, "inner iteration")
                        if j >= a:
                            break
        elif op == "hist":
            h = src.rayCountHistogram(binCount=a)
            check(sum(h[1]) == n, "{0}: histogram counts {1} rays of {2}", k, sum(h[1]), n)
    everything("last iteration")
    everything("second last iteration")
    for i in (0, n - 1, n // 2):
        note(i, src[i], "index at the end")
    mustRaise(IndexError, "index %d" % n, lambda: src[n])
    mustRaise(IndexError, "index %d" % (-n - 1), lambda: src[-n - 1])
    if len(used) >= 2 and n >= 2:
        tags.add("nt")
    return tags


def profileCases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["RandomUniformRays", "RandomLambertianRays", "GaussianProfileUniformRays", "LampRays"]),
                                      lim=limits(), seed=st.integers(0, 2 ** 31),
                                      many=st.sampled_from([None, None, None, "first", "last", "tails"])))


def runProfile(c):
    """ fractions of rays in parts of the profile, within 6.5 standard deviations """
    import numpy as np
    np.random.seed(c["seed"])
    n = 1500
    many = c.get("many")
    if many == "tails":
        n = 15000
    src, y0, y1, t0, t1 = makeRandom(c["kind"], c["lim"], n)
    if y0 == y1:
        return ["no range"]
    if many in ("first", "last"):      # the same ray of many small sources
        count = 1 + c["seed"] % 4
        src = [makeRandom(c["kind"], c["lim"], count)[0][0 if many == "first" else count - 1] for _ in range(n)]
    ys = np.array([r.y for r in src])
    ts = np.array([r.theta for r in src])

    def fraction(mask, p, what):
        got = np.count_nonzero(mask) / n
        sigma = math.sqrt(p * (1 - p) / n)
        check(abs(got - p) <= 6.5 * sigma + 1e-9, "{0}: {1}: fraction {2:.4f} instead of {3:.4f}", c["kind"], what, got, p)

    k = c["kind"]
    if k == "GaussianProfileUniformRays":
        w = y1 if not math.isinf(y1) else c["lim"]["yMax"]
        w = c["lim"]["yMax"]
        for f in (0.5, 1.0, 1.5) + ((2.0, 2.5) if many == "tails" else ()):
            fraction(np.abs(ys) < f * w, math.erf(f), "|y| < %g w" % f)
        fraction(ys > 0, 0.5, "y > 0")
        check(np.max(np.abs(ys)) <= 6 * w, "height of {0} widths", np.max(np.abs(ys)) / w)
        y0, y1 = None, None
    else:
        for f in (0.25, 0.5, 0.75):
            fraction(ys < y0 + f * (y1 - y0), f, "heights in the lower %g" % f)
    if k == "RandomLambertianRays":
        for a in (0.3, math.pi / 6, 1.0) + ((1.3, 1.45) if many == "tails" else ()):
            fraction(np.abs(ts) < a, math.sin(a), "|theta| < %.2f" % a)
        fraction(ts > 0, 0.5, "theta > 0")
    else:
        for f in (0.25, 0.5, 0.75):
            fraction(ts < t0 + f * (t1 - t0), f, "angles in the lower %g" % f)
    # heights and angles are independent
    fraction((ys > np.median(ys)) == (ts > np.median(ts)), 0.5, "height and angle above their median together")
    check(len(set(zip(ys.tolist(), ts.tolist()))) == n, "repeated rays")
    return ["nt", k] + ([many] if many else [])


# ------------------------------------------------- arguments in any form, and defaults

SIGNATURES = dict(
    UniformRays=[("yMax", 1.0), ("yMin", None), ("thetaMax", PI2), ("thetaMin", None), ("M", 100), ("N", 100)],
    LambertianRays=[("yMax", 1.0), ("yMin", None), ("M", None), ("N", None), ("I", None)],
    ObjectRays=[("diameter", None), ("halfAngle", 1.0), ("H", 3), ("T", 3), ("z", 0), ("rayColors", None), ("color", None), ("label", None)],
    LampRays=[("diameter", None), ("NA", 1.0), ("N", 100), ("T", 10), ("H", None), ("random", False), ("z", 0), ("rayColors", None), ("label", None)],
    RandomUniformRays=[("yMax", 1.0), ("yMin", None), ("thetaMax", PI2), ("thetaMin", None), ("maxCount", 100000)],
    RandomLambertianRays=[("yMax", 1.0), ("yMin", None), ("maxCount", 10000)],
    GaussianProfileUniformRays=[("intensityWidth", None), ("maxCount", 10000)],
)
VALUES = dict(yMax=gen.num(0.01, 30), yMin=gen.num(-30, -0.01), thetaMax=gen.num(0.001, 1.5), thetaMin=gen.num(-1.5, -0.001), M=st.integers(2, 5), N=st.integers(2, 5), I=st.integers(1, 9),
              diameter=gen.num(0.01, 30), halfAngle=gen.num(0.001, 1.5), NA=gen.num(0.001, 1.5), H=st.integers(2, 5), T=st.integers(2, 5), z=gen.num(-50, 50),
              random=st.booleans(), maxCount=st.integers(1, 40), intensityWidth=gen.num(0.01, 10),
              rayColors=st.just(["b", "r"]), color=st.just("g"), label=st.just("some label"))
NEEDED = {"diameter", "intensityWidth"}


@st.composite
def argumentCases(draw):
    k = draw(st.sampled_from(sorted(SIGNATURES)))
    names = [n for n, _ in SIGNATURES[k]]
    values = {n: draw(VALUES[n]) for n in names}
    positional = draw(st.integers(1 if names[0] in NEEDED else 0, len(names)))
    given = names[:positional] + [n for n in names[positional:] if draw(st.booleans()) or (k == "LambertianRays" and n in "MNI")]
    return dict(kind=k, values=values, positional=positional, given=given)


def runArguments(c):
    import raytracing as rt
    k, v, given = c["kind"], c["values"], c["given"]
    a = {n: (v[n] if n in given else d) for n, d in SIGNATURES[k]}
    args = [v[n] for n in given[:c["positional"]]]
    kw = {n: v[n] for n in given[c["positional"]:]}
    if not kw.get("random", a.get("random")) or k != "LampRays":
        if a.get("H") is None:
            kw.pop("H", None)
    src = getattr(rt, k)(*args, **kw)
    what = "{0}({1}, {2})".format(k, args, kw)
    if k in ("ObjectRays", "LampRays"):
        y1, t1 = a["diameter"] / 2, a.get("halfAngle", a.get("NA"))
        y0, t0 = -y1, -t1
        check(src.z == a["z"] and src.label == a["label"] and src.rayColors == a["rayColors"], "{0}: z, label or colors: {1}, {2}, {3}", what, src.z, src.label, src.rayColors)
    elif k == "GaussianProfileUniformRays":
        y0, y1, t0, t1 = -4 * a["intensityWidth"], 4 * a["intensityWidth"], -PI2, PI2
    else:
        y1, t1 = a["yMax"], a.get("thetaMax", PI2)
        y0 = -y1 if a["yMin"] is None else a["yMin"]
        t0 = -t1 if a.get("thetaMin") is None else a["thetaMin"]
    random = k.startswith(("Random", "Gaussian")) or a.get("random")
    if random:
        n = a["N"] if k == "LampRays" else a["maxCount"]
        check(len(src) == n and src.count == n, "{0}: {1} rays announced", what, len(src))
        got = [src[i] for i in range(min(n, 12))]
    else:
        M, N = (a.get("H") or a.get("N"), a["T"]) if "T" in a else (a["M"], a["N"])
        got = list(src)
        if k == "LambertianRays":
            ts = grid(t0, t1, N)
            check(len(src) == len(got) == M * sum(int(a["I"] * math.cos(t)) for t in ts) or any(abs(a["I"] * math.cos(t) - round(a["I"] * math.cos(t))) < 1e-9 for t in ts),
                  "{0}: {1} rays", what, len(got))
        else:
            check(len(src) == len(got) == M * N, "{0}: {1} rays instead of {2} x {3}", what, len(got), M, N)
            if M * N <= 100:
                sameGrid(got, grid(y0, y1, M), grid(t0, t1, N), what)
            expect(min(r.y for r in got), y0, 1e-12 * (1 + abs(y0)), what + ": lowest ray")
            expect(max(r.y for r in got), y1, 1e-12 * (1 + abs(y1)), what + ": highest ray")
            expect(min(r.theta for r in got), t0, 1e-12, what + ": smallest angle")
            expect(max(r.theta for r in got), t1, 1e-12, what + ": largest angle")
    for r in got:
        pristine(r, what)
        check(y0 - 1e-9 <= r.y <= y1 + 1e-9 and t0 - 1e-9 <= r.theta <= t1 + 1e-9, "{0}: ray y={1} theta={2} outside of [{3}, {4}] x [{5}, {6}]", what, r.y, r.theta, y0, y1, t0, t1)
    return ["nt", k]


def refusedCases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["fan", "fanGroup", "abstract", "full"]), n=st.integers(-3, 0), which=st.booleans()))


def runRefused(c):
    import raytracing as rt
    k = c["kind"]
    if k == "fan":
        mustRaise(ValueError, "fan of %d rays" % c["n"], rt.Ray.fan, 1.0, -0.1, 0.1, c["n"])
    elif k == "fanGroup":
        M, N = (c["n"], 3) if c["which"] else (3, c["n"])
        mustRaise(ValueError, "fanGroup of {0} x {1}".format(M, N), rt.Ray.fanGroup, -1, 1, M, -0.1, 0.1, N)
    elif k == "abstract":
        mustRaise(NotImplementedError, "RandomRays()[0]", lambda: rt.RandomRays(maxCount=3)[0])
    else:
        src = rt.RandomUniformRays(maxCount=2) if c["which"] else rt.RandomLambertianRays(maxCount=2)
        list(src)
        mustRaise(AttributeError, "randomRay() beyond maxCount", src.randomRay)
        check(len(src) == 2 and len(list(src)) == 2, "rays added beyond maxCount")
    return ["nt", k]


FACETS = [
    Facet("regular", regularCases, runRegular, quick=1500, shards=3, rule="a grid of at least 2 x 2"),
    Facet("random", randomCases, runRandom, quick=1500, shards=3, rule="at least two kinds of access to a source of at least 2 rays"),
    Facet("profile", profileCases, runProfile, quick=320, shards=4, thorough=2000, rule="the profile of a random source of 1500 rays (fractions within 6.5 sigma)"),
    Facet("arguments", argumentCases, runArguments, quick=1000, shards=2, rule="every source built with arguments given by position, by name or by default"),
    Facet("refused", refusedCases, runRefused, quick=60, shards=1, thorough=200, rule="a request that has to be refused"),
]
