"""C31: the beam profile at a plane is made of the rays that cross it there."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect

KINDS = ["space", "space", "lens", "iface", "thick", "slab", "ap", "mat", "doublet", "singlet", "axicon"]


def positive(e):
    """ no path goes backwards (negative lengths) """
    return all(l.L >= 0 for l in optics.leaves(dict(k="group", cls="MatrixGroup", e=e)))


@st.composite
def cases(draw):
    from .c01 import dropEmpty
    e = dropEmpty(draw(gen.sequence(1, 6, n=1.0, kinds=KINDS, dia=gen.diameter(0.4), nested=1)))
    if draw(st.integers(0, 4)) == 0:      # a long element that blocks large angles, at its end
        e.insert(draw(st.integers(0, len(e))), None)
        i = e.index(None)
        n = optics.backIndex(optics.leaves(dict(k="group", e=e[:i])))
        m = draw(gen.element(n=n, kinds=["mat"], next_n=n))
        e[i] = dict(m, L=m["L"] or 8.0, D=m["D"] or 40.0, NA=draw(st.sampled_from([0.05, 0.1, 0.2, 0.4])))
    rays = draw(st.lists(gen.fullray(), min_size=1, max_size=8))
    for r in rays:
        small = draw(st.sampled_from([1.0, 0.3, 0.05]))
        r["y"], r["theta"], r["z"] = round(r["y"] * small, 6), round(r["theta"] * small, 6), 0.0
        r["blocked"] = draw(st.sampled_from([False] * 9 + [True]))
    return dict(e=e, cls=draw(st.sampled_from(["MatrixGroup", "ImagingPath", "LaserPath"])), rays=rays,
                at=draw(st.lists(st.one_of(st.floats(0.0, 1.0).map(lambda x: round(x, 3)),
                                           st.builds(lambda i: -1 - i, st.integers(0, 8)), st.just(None)), min_size=1, max_size=4)),
                before=draw(gen.num(0.1, 50)))


def at(trace, z):
    """ the rays a screen at z can show, from the trace of the model: (y, tolerance, theta, tolerance, blocked), several where an element has no length """
    here = [r for r in trace if abs(r.z - z) <= 1e-9 * (1 + abs(z))]
    if here:
        return [(r.y, r.ey, r.t, r.et, r.blocked) for r in here]
    if z < trace[0].z:
        r = trace[0]
        return [(r.y + (z - r.z) * r.t, r.ey, r.t, r.et, r.blocked)]
    for a, b in zip(trace, trace[1:]):
        if a.z < z < b.z:
            f = (z - a.z) / (b.z - a.z)
            straight = abs(b.t - a.t) <= 1e-12 * (1 + abs(a.t))
            return [(a.y + f * (b.y - a.y), a.ey + b.ey, a.t if straight else None, a.et, a.blocked)]
    r = trace[-1]  # blocked before
    return [(r.y, r.ey, r.t, r.et, r.blocked)]


def agrees(got, want, w):
    y, ey, t, et, blocked = want
    if got.isBlocked != blocked or got.wavelength != w:
        return False
    if blocked:
        return True
    if abs(got.y - y) > 8 * ey + 1e-9 * (1 + abs(y)):
        return False
    return t is None or abs(got.theta - t) <= 8 * et + 1e-12 * (1 + abs(t))


def run(c):
    import raytracing as rt
    spec = dict(k="group", cls=c["cls"], e=c["e"])
    if not positive(c["e"]):
        raise Skip("negative length")
    want = []
    for r in c["rays"]:
        try:
            want.append(optics.traceSpec(spec, optics.R(r["y"], r["theta"], 0.0, r["blocked"])))
        except optics.Ambiguous:
            raise Skip("within rounding of an aperture edge")
    path = optics.build(spec)
    traces = path.traceMany([gen.mkray(r) for r in c["rays"]])
    before = [[(r.y, r.theta, r.z, r.isBlocked) for r in t] for t in traces]
    lv = optics.leaves(spec)
    L = optics.length(lv)
    planes = [0.0]
    for l in lv:
        planes.append(planes[-1] + l.L)
    tags = []
    for a in c["at"]:
        z = math.inf if a is None else planes[(-1 - a) % len(planes)] if a < 0 else a * L
        tags.append("end" if a is None else "at a surface" if a < 0 else "inside")
        single = []
        for t, w, r in zip(traces, want, c["rays"]):
            got = rt.Ray.along(t, z=z)
            if a is None:
                ok = [(w[-1].y, w[-1].ey, w[-1].t, w[-1].et, w[-1].blocked)]
            else:
                ok = at(w, z)
                if not any(x.z == z for x in t):
                    # within rounding of a surface: the ray just before it too
                    i = next((i for i, m in enumerate(w) if abs(m.z - z) <= 1e-9 * (1 + abs(z))), 0)
                    if i:
                        ok = ok + [(w[i].y, w[i].ey + w[i - 1].ey + 2e-9 * (1 + abs(z)) * abs(w[i].y - w[i - 1].y) / max(w[i].z - w[i - 1].z, 1e-3),
                                    w[i - 1].t, w[i - 1].et, w[i - 1].blocked)]
                near = [m.z for m in w if abs(m.z - z) <= 1e-9 * (1 + abs(z))]
                if not near and got.isNotBlocked:
                    expect(got.z, z, 1e-9 * (1 + abs(z)), "position of the ray")
            check(any(agrees(got, o, r["w"]) for o in ok), "along(z={0}): y={1}, theta={2}, blocked={3}, expected (y, theta, blocked) one of {4}", z, got.y, got.theta,
                  got.isBlocked, [(o[0], o[2], o[4]) for o in ok])
            if got.isNotBlocked:
                single.append((got.y, got.theta, got.wavelength))
            if any(o[4] for o in ok) and not r["blocked"]:
                tags.append("blocked on the way")
            if ok[0][2] is None:
                tags.append("inside of an element")
        profile = path.profileFromRayTraces(traces, z=z) if a is not None else path.profileFromRayTraces(traces)
        check(isinstance(profile, rt.Rays), "profileFromRayTraces returns a {0}", type(profile).__name__)
        check([(p.y, p.theta, p.wavelength) for p in profile] == single, "profile at z={0}: {1} rays, {2} cross that plane (or other rays)", z, len(profile), len(single))
        check(len(profile) == profile.count == len(single), "profile at z={0}: count {1}, length {2}, {3} rays", z, profile.count, len(profile), len(single))
        ys = [p[0] for p in single]
        check(list(profile.yValues) == ys, "profile at z={0}: heights {1}, expected {2}", z, list(profile.yValues), ys)
    for r in c["rays"]:
        ray = gen.mkray(dict(r, z=r["y"]))
        for z in (ray.z - c["before"], ray.z, ray.z + c["before"]):
            p = ray.at(z=z)
            expect(p.y, r["y"] + (z - ray.z) * r["theta"], 1e-12 * (1 + abs(r["y"])) + 1e-12 * c["before"], "at(): y")
            check(p.theta == r["theta"] and p.z == z and p.isBlocked == r["blocked"] and p.wavelength == r["w"],
                  "at(z={0}): theta={1}, z={2}, blocked={3}, wavelength={4}", z, p.theta, p.z, p.isBlocked, p.wavelength)
    check([[(r.y, r.theta, r.z, r.isBlocked) for r in t] for t in traces] == before, "looking at the profile changed the traces")
    # what a path that ends there gives
    z = round(c["at"][0], 3) * L if c["at"][0] is not None and c["at"][0] >= 0 else L / 2
    d = 0.0
    for i, x in enumerate(c["e"]):
        l = optics.length(optics.leaves(x))
        if d < z < d + l and x["k"] == "space":
            cut = optics.build(dict(spec, e=c["e"][:i]))
            cut.append(rt.Space(d=z - d, n=x["n"], diameter=float("inf") if x.get("D") is None else x["D"]))
            alone = [cut.traceThrough(gen.mkray(r)) for r in c["rays"]]
            alone = [(p.y, p.theta) for p in alone if p.isNotBlocked]
            got = [(p.y, p.theta) for p in path.profileFromRayTraces(traces, z=z)]
            check(len(got) == len(alone), "profile inside of a space: {0} rays, {1} reach a screen there", len(got), len(alone))
            for g, a in zip(got, alone):
                check(abs(g[0] - a[0]) <= 1e-8 * (1 + abs(a[0])) and abs(g[1] - a[1]) <= 1e-10 * (1 + abs(a[1])), "profile inside of a space: {0}, a screen there sees {1}", g, a)
            tags.append("screen in a space")
        d += l
    if len(lv) >= 2 and L > 0:
        tags.append("nt")
    return tags


FACETS = [Facet("profile", cases, run, quick=1500, shards=4, rule="a path of at least 2 elements with a length")]
