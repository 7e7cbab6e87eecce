"""C04: tracing is pure: no effect on its inputs, no dependence on history."""
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, check, same

KINDS = ["space", "lens", "mirror", "ap", "thick", "slab", "axicon", "2f", "doublet", "singlet"]
RAY = ("y", "theta", "z", "isBlocked", "wavelength", "apertureDiameter")
BEAM = ("q", "z", "n", "wavelength", "isClipped")
ELEMENT = ("A", "B", "C", "D", "L", "frontVertex", "backVertex", "frontIndex", "backIndex", "apertureDiameter", "apertureNA",
           "label", "isFlipped")


def values(o):
    names = BEAM if hasattr(o, "q") else RAY
    return tuple(getattr(o, n) for n in names)


def state(o):
    """ everything public that defines an element or a group """
    out = [type(o).__name__] + [getattr(o, n) for n in ELEMENT]
    for n in ("f", "R", "R1", "R2", "n", "n1", "n2", "alpha", "objectHeight", "objectPosition", "fanAngle", "fanNumber", "rayNumber"):
        if n in o.__dict__:
            out.append((n, o.__dict__[n]))
    if hasattr(o, "elements"):
        out.append([id(e) for e in o.elements])
        out.append([state(e) for e in o.elements])
    return out


def equalTraces(got, want, what):
    check(len(got) == len(want), "{0}: {1} rays instead of {2}", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        a, b = values(g), values(w)
        for x, y in zip(a, b):
            tol = 1e-9 * (1 + abs(y)) if isinstance(y, (int, float, complex)) and not isinstance(y, bool) and y == y and abs(y) != float("inf") else 0
            check(x == y or same(x, y, tol), "{0}[{1}]: got {2}, a fresh path and ray give {3}", what, i, a, b)


airElement = gen.element(n=1.0, kinds=KINDS, dia=gen.diameter(0.5))


@st.composite
def poolRays(draw):
    base = draw(st.lists(gen.ray(gen.num(-8, 8), gen.num(-0.2, 0.2)), min_size=1, max_size=3))
    out = []
    for b in base:
        out.append(dict(b, z=0.0, w=None, blocked=False))
        out.append(dict(b, z=draw(st.sampled_from([0.0, 10.0, -5.0])), w=draw(st.sampled_from([None, 0.5, 0.6328])),
                        blocked=draw(st.booleans())))
    return out


@st.composite
def cases(draw):
    op = st.one_of(
        st.fixed_dictionaries(dict(op=st.sampled_from(["trace", "trace", "traceThrough", "beam", "mul"]), r=st.integers(0, 9))),
        st.fixed_dictionaries(dict(op=st.sampled_from(["trace", "traceThrough", "beam"]), r=st.integers(0, 9))),
        st.fixed_dictionaries(dict(op=st.sampled_from(["traceMany", "traceManyThrough", "traceManyRays"]), r=st.lists(st.integers(0, 9), max_size=4))),
        st.fixed_dictionaries(dict(op=st.just("append"), e=airElement)),
        st.fixed_dictionaries(dict(op=st.just("insert"), i=st.integers(0, 6), e=airElement)),
        st.fixed_dictionaries(dict(op=st.just("set"), i=st.integers(0, 6), e=airElement)),
        st.fixed_dictionaries(dict(op=st.just("pop"), i=st.integers(0, 6))),
        st.fixed_dictionaries(dict(op=st.just("diameter"), i=st.integers(0, 6), v=gen.num(0.5, 30))),
        st.fixed_dictionaries(dict(op=st.just("focal"), i=st.integers(0, 6), v=gen.focal())),
        st.fixed_dictionaries(dict(op=st.just("keep"), i=st.integers(0, 20))),
        st.fixed_dictionaries(dict(op=st.just("again"), i=st.integers(0, 6))),
        st.fixed_dictionaries(dict(op=st.just("sub"), i=st.integers(0, 6), j=st.integers(0, 6), r=st.integers(0, 9))),
        st.fixed_dictionaries(dict(op=st.just("flip"))))
    return dict(cls=draw(st.sampled_from(["MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath"])),
                e=draw(st.lists(airElement, max_size=4)), nest=draw(st.booleans()), rays=draw(poolRays()),
                beam=dict(w=draw(gen.num(0.05, 5)), R=draw(gen.signed(20, 500))),
                ops=draw(st.lists(op, min_size=2, max_size=14)))


def mkbeam(b):
    import raytracing as rt
    return rt.GaussianBeam(w=b["w"], R=b["R"], wavelength=0.0006328)


def run(c):
    import raytracing as rt
    specs = [dict(e) for e in c["e"]]
    objs = [optics.build(e) for e in specs]
    if c["nest"] and len(specs) >= 2:
        sub = dict(k="group", cls="MatrixGroup", e=[specs[0], specs[1]])
        objs = [rt.MatrixGroup(objs[:2])] + objs[2:]
        specs = [sub] + specs[2:]
    path = getattr(rt, c["cls"])(objs)
    pool = [(gen.mkray(r), r) for r in c["rays"]]
    returned = []         # (ray, values when it was returned)
    beam = mkbeam(c["beam"])
    beamValues = values(beam)
    tags, traces, edits = set(), 0, 0

    def freshPath(sp=None):
        return getattr(rt, c["cls"])([optics.build(e) for e in (specs if sp is None else sp)])

    def verify(before, what, ignore=()):
        check(state(path) == before, "{0} changed the path", what)
        for ray, r in pool:
            want = (r["y"], r["theta"], r.get("z", 0.0), bool(r.get("blocked")), r.get("w"), r.get("D", float("inf")))
            check(values(ray) == want, "{0} changed an input ray: {1} instead of {2}", what, values(ray), want)
        check(values(beam) == beamValues, "{0} changed the input beam", what)
        for ray, v in returned:
            check(values(ray) == v, "{0} changed a ray returned earlier: {1} instead of {2}", what, values(ray), v)

    def fresh(r):
        ray = gen.mkray(r)
        if "D" in r:
            ray.apertureDiameter = r["D"]
        return ray

    def remember(rays):
        for x in rays:
            if len(returned) < 60 and not any(x is p for p, _ in pool):
                returned.append((x, values(x)))

    for k, o in enumerate(c["ops"]):
        name = o["op"]
        what = "operation %d (%s)" % (k, name)
        before = state(path)
        n = len(path.elements)
        if name in ("trace", "traceThrough", "mul"):
            ray, r = pool[o["r"] % len(pool)]
            if name == "trace":
                got, want = path.trace(ray), freshPath().trace(fresh(r))
            elif name == "traceThrough":
                got, want = [path.traceThrough(ray)], [freshPath().traceThrough(fresh(r))]
            else:
                if not n:
                    continue
                i = o["r"] % n
                got, want = [path.elements[i] * ray], [optics.build(specs[i]) * fresh(r)]
            equalTraces(got, want, what)
            verify(before, what)
            remember(got)
            traces += 1
            if traces > 1:
                tags.add("retrace")
            if edits:
                tags.add("trace after edit")
        elif name == "beam":
            if any(l.dev for l in optics.leaves(dict(k="group", e=specs))):
                continue
            got, want = path.trace(beam), freshPath().trace(mkbeam(c["beam"]))
            equalTraces(got, want, what)
            verify(before, what)
            remember([b for b in got if b is not beam])
            traces += 1
            tags.add("beam")
        elif name in ("traceMany", "traceManyThrough", "traceManyRays"):
            chosen = [pool[i % len(pool)] for i in o["r"]]
            rays = [x for x, _ in chosen]
            given = rt.Rays(rays) if name == "traceManyRays" else list(rays)
            f = freshPath()
            if name == "traceMany":
                got = [x for t in path.traceMany(given) for x in t]
                want = [x for _, r in chosen for x in f.trace(fresh(r))]
            else:
                got = list(path.traceManyThrough(given, progress=False))
                want = [f.traceThrough(fresh(r)) for _, r in chosen]
                want = [x for x in want if not x.isBlocked]
            equalTraces(got, want, what)
            check([id(x) for x in given] == [id(x) for x in rays], "{0} changed the collection of rays", what)
            verify(before, what)
            remember(got)
            traces += 1
            tags.add("many")
        elif name == "sub":
            i, j = sorted((o["i"] % (n + 1), o["j"] % (n + 1)))
            ray, r = pool[o["r"] % len(pool)]
            got = path[i:j].trace(ray)
            equalTraces(got, rt.MatrixGroup([optics.build(e) for e in specs[i:j]]).trace(fresh(r)), what)
            verify(before, what)
            remember(got)
            traces += 1
            tags.add("slice traced")
        elif name == "keep":      # a returned ray becomes an input
            cand = [x for x, _ in returned if not hasattr(x, "q")]
            if cand:
                x = cand[o["i"] % len(cand)]
                returned[:] = [(a, b) for a, b in returned if a is not x]
                pool.append((x, dict(y=x.y, theta=x.theta, z=x.z, blocked=x.isBlocked, w=x.wavelength, D=x.apertureDiameter)))
                tags.add("output traced again")
        else:
            if name == "append":
                path.append(optics.build(o["e"]))
                specs.append(dict(o["e"]))
            elif name in ("insert", "set") and o["e"]["k"] in ("doublet", "singlet"):
                continue          # would be inserted interface by interface, in air
            elif name == "insert":
                i = o["i"] % (n + 1)
                path.insert(i, optics.build(o["e"]))
                specs[i:i] = optics.children(o["e"]) or [dict(o["e"])]     # groups are inserted element by element
            elif name == "again":     # the same element twice in the path
                if not n:
                    continue
                path.append(path.elements[o["i"] % n])
                specs.append(specs[o["i"] % n])
                tags.add("same element twice")
            elif name == "set" and n:
                i = o["i"] % n
                path[i] = optics.build(o["e"])
                specs[i:i + 1] = optics.children(o["e"]) or [dict(o["e"])]
            elif name == "pop" and n:
                path.pop(o["i"] % n)
                specs.pop(o["i"] % n)
            elif name == "diameter" and n:
                i = o["i"] % n
                if specs[i]["k"] in ("group", "2f", "doublet", "singlet"):
                    continue
                path.elements[i].apertureDiameter = o["v"]
                specs[i]["D"] = o["v"]
            elif name == "focal" and n:
                i = o["i"] % n
                if specs[i]["k"] != "lens":
                    continue
                path.elements[i].C = -1.0 / o["v"]
                specs[i]["f"] = o["v"]
            elif name == "flip":
                if len(set(map(id, path.elements))) < n:
                    continue
                path.flipOrientation()
                specs = [dict(s, flip=s.get("flip", 0) + 1) for s in reversed(specs)]
            if traces:
                edits += 1
    if traces >= 2 and (edits or "output traced again" in tags or "same element twice" in tags):
        tags.add("nt")
    return tags


FACETS = [
    Facet("history", cases, run, quick=2500, shards=4, rule="at least 2 traces with an edit, an output traced again or a repeated element"),
]
