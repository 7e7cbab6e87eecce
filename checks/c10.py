"""C10: flipping an element or a group reverses it optically."""
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, same
from .c01 import compare, dropEmpty

KINDS = ["space", "lens", "iface", "iface", "thick", "slab", "ap", "2f", "4f", "doublet", "singlet"]
CLASSES = ("MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath")


def zeroLengthApertures(e):
    """ apertures only on elements without length (others are checked at the entrance only) """
    e = dict(e)
    if e["k"] == "group" or e["k"] == "compound":
        e["e"] = [zeroLengthApertures(x) for x in e["e"]]
    elif e["k"] in ("space", "thick", "slab"):
        e["D"] = None
    return e


@st.composite
def specs(draw):
    how = draw(st.sampled_from(["element", "group", "group", "compound"]))
    if how == "element":
        k = draw(st.sampled_from(KINDS))
        n = draw(gen.index) if k in ("space", "iface") else 1.0
        return draw(gen.element(n=n, kinds=[k], dia=gen.diameter(0.4)))
    if how == "compound":
        return dict(k="compound", e=draw(gen.sequence(1, 5, n=1.0, kinds=["iface", "space"], endAir=True, growth=1e3)))
    e = dropEmpty(draw(gen.sequence(1, 6, kinds=KINDS, dia=gen.diameter(0.4), nested=2, growth=1e4)))
    return dict(k="group", cls=draw(st.sampled_from(CLASSES)), e=e)


def cases():
    return st.fixed_dictionaries(dict(s=specs().map(zeroLengthApertures), flips=st.integers(1, 5), r=gen.fullray(), scale=st.sampled_from([1.0, 0.1, 0.02])))


def snapshot(o):
    names = ("A", "B", "C", "D", "L", "frontVertex", "backVertex", "frontIndex", "backIndex", "apertureDiameter", "isFlipped")
    return tuple(getattr(o, n) for n in names)


def everything(o):
    out = [(o, snapshot(o))]
    for e in getattr(o, "elements", []):
        out += everything(e)
    return out


def order(o):
    return [order(e) if hasattr(e, "elements") else id(e) for e in o.elements]


def reverseOrder(x):
    return [reverseOrder(e) if isinstance(e, list) else e for e in reversed(x)]


def run(c):
    import raytracing as rt
    spec = c["s"]
    lv = optics.leaves(spec)
    if not lv:
        return ["empty"]
    obj = optics.build(spec)
    m = optics.total(lv)
    n1, n2 = optics.frontIndex(lv), optics.backIndex(lv)
    start = everything(obj)
    startOrder = order(obj) if hasattr(obj, "elements") else None
    ffl, bfl = obj.frontFocalLength(), obj.backFocalLength()
    got = obj.flipOrientation()
    check(got is obj, "flipOrientation returns another object")
    flipped = [l.flipped() for l in reversed(lv)]
    compare(obj, flipped, "flipped")
    # the law of reversal
    rev = (m.D * n2 / n1, m.B * n2 / n1, m.C * n2 / n1, m.A * n2 / n1)
    tol = m.tol() * 4 * max(1, n2 / n1)
    for a, want in zip("ABCD", rev):
        expect(getattr(obj, a), want, tol, "reversed system: " + a)
    check((obj.frontIndex, obj.backIndex) == (n2, n1), "reversed system: indices")
    if startOrder is not None:
        check(order(obj) == reverseOrder(startOrder), "the elements are not in reverse order")
    if abs(m.C) > 1e-4:
        amp = 1e-8 * (1 + (max(m.a) / abs(m.C)) * (1 + max(n1 / n2, n2 / n1)) * max(1.0, m.a[2] / abs(m.C)))
        for name, got, want in (("front", obj.frontFocalLength(), bfl), ("back", obj.backFocalLength(), ffl)):
            expect(got, want, amp, "%s focal length after flipping" % name)
    # reversibility of rays
    r = dict(c["r"], y=c["r"]["y"] * c["scale"], theta=c["r"]["theta"] * c["scale"])
    ray = gen.mkray(r)
    tags = []
    try:
        there = optics.build(spec)
        group = there if hasattr(there, "elements") else rt.MatrixGroup([there])
        back = obj if hasattr(obj, "elements") else rt.MatrixGroup([obj])
        out = group.traceThrough(ray)
        if not out.isBlocked:
            again = back.traceThrough(rt.Ray(out.y, -out.theta, wavelength=r["w"]))
            # near the edge of an aperture the way back may round differently
            try:
                blocked = optics.through(flipped, optics.R(out.y, -out.theta, ey=1e-9 * (1 + abs(out.y)), et=1e-9 * (1 + abs(out.theta)))).blocked
            except optics.Ambiguous:
                blocked = None
            if blocked is not None:
                check(not again.isBlocked, "a ray that passes is blocked on its way back")
                tol = 1e-9 * max(m.a) ** 2 * (abs(r["y"]) + abs(r["theta"]) + 1) * max(1, n2 / n1)
                expect(again.y, r["y"], tol, "ray retracing its path: y")
                expect(again.theta, -r["theta"], tol, "ray retracing its path: theta")
                tags.append("retraced")
        else:
            tags.append("ray blocked")
    except optics.Ambiguous:
        pass
    # more flips
    for _ in range(c["flips"] - 1):
        obj.flipOrientation()
    if c["flips"] % 2 == 0:
        for o, before in start:
            now = snapshot(o)
            for x, y in zip(now, before):
                check(x == y or same(x, y, 1e-12 * (1 + abs(y or 0)) if not isinstance(y, bool) else 0),
                      "flipping an even number of times does not restore the {0}: {1} instead of {2}", type(o).__name__, now, before)
        compare(obj, lv, "flipped twice")
        if startOrder is not None:
            check(order(obj) == startOrder, "flipping twice does not restore the order")
    else:
        compare(obj, flipped, "flipped %d times" % c["flips"])
    if n1 != n2:
        tags.append("different media")
    tags.append(spec["k"])
    f, b = obj.isFlipped, (c["flips"] + spec.get("flip", 0)) % 2 == 1
    check(f == b, "isFlipped is {0} after {1} flips", f, c["flips"])
    sym = all(abs(x - y) < 1e-9 for x, y in zip(rev, m.m))
    if not sym:
        tags.append("nt")
    return tags


def mirrorCases():
    return st.tuples(gen.element(kinds=["mirror"]), st.integers(1, 5)).map(lambda t: dict(e=t[0], flips=t[1]))


def runMirror(c):
    """ a mirror turned around: concave becomes convex """
    o = optics.build(c["e"])
    for _ in range(c["flips"]):
        o.flipOrientation()
    want = 2.0 / c["e"]["R"] * (-1) ** c["flips"]
    expect(o.C, want, 1e-12, "C of a mirror flipped %d times" % c["flips"])
    check((o.A, o.B, o.D) == (1, 0, 1), "mirror: other coefficients")
    return ["nt"]


def historyCases():
    """ flips of nested groups and single members, in any order """
    return st.fixed_dictionaries(dict(
        s=gen.sequence(1, 4, n=1.0, kinds=KINDS, nested=2, growth=1e4).map(lambda e: dict(k="group", cls="MatrixGroup", e=dropEmpty(e))),
        ops=st.lists(st.one_of(st.just("flip"), st.just("flip"), st.integers(0, 6)), min_size=1, max_size=8)))


def runHistory(c):
    spec = c["s"]
    if not spec["e"]:
        return ["empty"]
    obj = optics.build(spec)
    parts = [(s, o) for s, o in zip(spec["e"], obj.elements)]
    count = {id(o): 0 for _, o in parts}
    tags = set()
    order_ = [o for _, o in parts]
    specOf = {id(o): s for s, o in parts}
    for op in c["ops"]:
        if op == "flip":
            obj.flipOrientation()
            order_.reverse()
            for o in order_:
                count[id(o)] += 1
        else:
            # a member that starts and ends in air is taken out, flipped and put back
            i = op % len(order_)
            o = order_[i]
            lv = optics.leaves(specOf[id(o)])
            if not lv or optics.frontIndex(lv) != 1 or optics.backIndex(lv) != 1 or hasattr(o, "elements"):
                continue
            try:
                obj.pop(i)
            except ValueError:
                continue       # what remains does not fit
            o.flipOrientation()
            count[id(o)] += 1
            obj.insert(i, o)
            tags.add("member flipped")
        lv = []
        for o in order_:
            s = specOf[id(o)]
            lv += optics.leaves(dict(s, flip=s.get("flip", 0) + count[id(o)]))
        check([id(a) for a in obj.elements] == [id(a) for a in order_], "order of the elements")
        compare(obj, lv, "after flips")
    if len(c["ops"]) >= 2:
        tags.add("nt")
    return tags


@st.composite
def sharedCases(draw):
    pool = [draw(st.one_of(gen.element(kinds=["thick", "thick", "slab", "space", "lens", "ap", "2f", "4f"]), gen.cemented())) for _ in range(draw(st.integers(1, 3)))]
    at = draw(st.lists(st.integers(0, len(pool) - 1), min_size=2, max_size=5))
    if optics.growth(optics.leaves(dict(k="group", e=[pool[i] for i in at]))) > 1e4:
        at = at[:2]
    return dict(pool=[zeroLengthApertures(x) for x in pool], at=at, flips=draw(st.integers(1, 4)), cls=draw(st.sampled_from(CLASSES)))


def runShared(c):
    """ the same element at several places of a group """
    import raytracing as rt
    pool = [optics.build(s) for s in c["pool"]]
    obj = getattr(rt, c["cls"])([pool[i] for i in c["at"]])
    tags = set()
    for k in range(c["flips"] + 1):
        at = c["at"] if k % 2 == 0 else c["at"][::-1]
        check([id(e) for e in obj.elements] == [id(pool[i]) for i in at], "order of the elements")
        lv = [l for i in at for l in optics.leaves(dict(c["pool"][i], flip=c["pool"][i].get("flip", 0) + k))]
        compare(obj, lv, "a group with the same element several times, flipped %d times" % k)
        check(obj.isFlipped == (k % 2 == 1), "isFlipped is {0} after {1} flips", obj.isFlipped, k)
        obj.flipOrientation()
    if len(set(c["at"])) < len(c["at"]) and any(c["pool"][i]["k"] in ("thick", "doublet", "singlet") for i in c["at"]):
        tags.add("nt")
    return tags


FACETS = [
    Facet("flip", cases, run, quick=3000, shards=4, rule="a system whose reverse is different"),
    Facet("mirror", mirrorCases, runMirror, quick=300, shards=1, rule="every mirror"),
    Facet("shared", sharedCases, runShared, quick=800, rule="an element whose reverse is different appears twice"),
    Facet("history", historyCases, runHistory, quick=1000, shards=2, rule="at least two operations"),
]
