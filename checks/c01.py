"""C01: composition of elements."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, check, expect, mustRaise

KINDS = ["space", "lens", "iface", "thick", "slab", "ap", "mirror", "mat", "4f", "2f", "doublet", "singlet"]


def compare(obj, lv, what):
    m = optics.total(lv)
    tol = m.tol()
    for name, want in zip("ABCD", m.m):
        expect(getattr(obj, name), want, tol, what + "." + name)
    L = optics.length(lv)
    total = sum(abs(l.L) for l in lv)
    expect(obj.L, L, 1e-9 + 1e-12 * total, what + ".L")
    check(obj.frontIndex == optics.frontIndex(lv), "{0}.frontIndex: got {1}, expected {2}", what, obj.frontIndex, optics.frontIndex(lv))
    check(obj.backIndex == optics.backIndex(lv), "{0}.backIndex: got {1}, expected {2}", what, obj.backIndex, optics.backIndex(lv))
    fv, bv = optics.vertices(lv)
    expect(obj.frontVertex, fv, 1e-9 + 1e-12 * total, what + ".frontVertex")
    expect(obj.backVertex, bv, 1e-9 + 1e-12 * total, what + ".backVertex")
    n = optics.frontIndex(lv) / optics.backIndex(lv)
    expect(obj.A * obj.D - obj.B * obj.C, n, 4 * tol * max(1.0, max(m.a)) + 1e-9, what + " determinant")
    expect(obj.determinant, n, 4 * tol * max(1.0, max(m.a)) + 1e-9, what + ".determinant")
    if abs(abs(m.B) - 1e-5) > 1e-6:
        check(bool(obj.isImaging) == (abs(m.B) < 1e-5), "{0}.isImaging {1} with B={2}", what, obj.isImaging, m.B)
    if abs(abs(m.C) - 1e-5) > 1e-6:
        check(bool(obj.hasPower) == (abs(m.C) > 1e-5), "{0}.hasPower {1} with C={2}", what, obj.hasPower, m.C)


def bracketed(objs, merges):
    """ product of all, merging neighbours in the order chosen: objs[0] is met first """
    objs = list(objs)
    for k in merges:
        if len(objs) < 2:
            break
        i = k % (len(objs) - 1)
        objs[i:i + 2] = [objs[i + 1] * objs[i]]
    while len(objs) > 1:
        objs[0:2] = [objs[1] * objs[0]]
    return objs[0]


def tags(lv, nt):
    t = []
    if any(l.n1 != 1 or l.n2 != 1 for l in lv):
        t.append("media")
    if optics.frontIndex(lv) != optics.backIndex(lv):
        t.append("front index != back index")
    if any(l.L < 0 for l in lv):
        t.append("crossed backwards")
    if any(l.kind == "mat" for l in lv):
        t.append("generic matrix")
    fv, bv = optics.vertices(lv)
    if fv:
        t.append("front vertex inside")
    t.append("%d elements" % min(len(lv), 9))
    if nt:
        t.append("nt")
    return t


def productCases():
    return st.fixed_dictionaries(dict(
        e=gen.sequence(1, 7, kinds=KINDS, growth=1e4, nested=1), back=gen.backward,
        merges=st.lists(st.integers(0, 50), max_size=8)))


def runProduct(c):
    c = dict(c, e=gen.goBack(c["e"], c.get("back")))
    lv = optics.leaves(dict(k="group", e=c["e"]))
    if not lv or not c["e"]:
        return ["empty"]
    specs = dropEmpty(c["e"])
    objs = [optics.build(e) for e in specs]
    one = bracketed(objs, c["merges"])
    compare(one, lv, "product")
    left = bracketed(objs, [])
    m = optics.total(lv)
    for a in "ABCD":
        expect(getattr(one, a), getattr(left, a), m.tol(), "associativity of " + a)
    check(one.frontIndex == left.frontIndex and one.backIndex == left.backIndex, "associativity of indices")
    for o, e in zip(objs, specs):      # operands unchanged
        compare(o, optics.leaves(e), "operand")
    return tags(lv, len(objs) >= 3)


def groupCases():
    return st.fixed_dictionaries(dict(
        e=gen.sequence(1, 7, kinds=KINDS, growth=1e4, nested=2, groupClasses=("MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath")),
        cls=st.sampled_from(["MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath", "compound"]), back=gen.backward,
        append=st.booleans()))


def dropEmpty(e):
    out = []
    for x in e:
        if x["k"] == "group":
            x = dict(x, e=dropEmpty(x["e"]))
            if not x["e"]:
                continue
        out.append(x)
    return out


def runGroup(c):
    import raytracing as rt
    e = dropEmpty(gen.goBack(c["e"], c.get("back")))
    if not e:
        return ["empty"]
    lv = optics.leaves(dict(k="group", e=e))
    if c["cls"] == "compound":
        obj = rt.CompoundLens([optics.build(x) for x in e], designFocalLength=10.0)
    elif c["append"]:
        obj = getattr(rt, c["cls"])()
        for x in e:
            obj.append(optics.build(x))
    else:
        obj = getattr(rt, c["cls"])([optics.build(x) for x in e])
    compare(obj, lv, "group")
    compare(obj.transferMatrix(), lv, "group.transferMatrix()")
    if any(l.L for l in lv) and not any(l.L < 0 for l in lv):
        compare(obj.transferMatrix(upTo=optics.length(lv) * 1.5 + 1), lv, "transferMatrix(beyond the end)")
    # composed with another element: the group behaves as its matrix
    post = optics.build(dict(k="space", d=7.5, n=optics.backIndex(lv)))
    compare(post * obj, lv + optics.leaves(dict(k="space", d=7.5, n=optics.backIndex(lv))), "Space * group")
    pre = optics.build(dict(k="space", d=3.25, n=optics.frontIndex(lv)))
    compare(obj * pre, optics.leaves(dict(k="space", d=3.25, n=optics.frontIndex(lv))) + lv, "group * Space")
    depth = any(x["k"] in ("group", "4f", "2f", "doublet", "singlet") for x in e)
    return tags(lv, depth and len(e) >= 2) + (["nested"] if depth else [])


def neutralCases():
    return st.fixed_dictionaries(dict(
        e=gen.sequence(1, 4, kinds=KINDS, growth=1e4),
        at=st.integers(0, 4), how=st.sampled_from(["Matrix", "Aperture", "Space0", "n-n"])))


def runNeutral(c):
    """ an element that does nothing changes nothing """
    import raytracing as rt
    e = c["e"]
    lv = optics.leaves(dict(k="group", e=e))
    if not lv:
        return []
    at = min(c["at"], len(e))
    if (c["how"] in ("Matrix", "Aperture") and all(optics.total(optics.leaves(x)).m == optics.ID for x in e)):
        return ["only neutral elements"]
    n = optics.frontIndex(lv) if at == 0 else optics.backIndex(optics.leaves(e[at - 1]))
    nothing = {"Matrix": lambda: rt.Matrix(), "Aperture": lambda: rt.Aperture(diameter=100.0),
               "Space0": lambda: rt.Space(0, n=n), "n-n": lambda: rt.Matrix(1, 0, 0, 1, frontIndex=n, backIndex=n)}[c["how"]]()
    objs = [optics.build(x) for x in e]
    objs.insert(at, nothing)
    compare(bracketed(objs, []), lv, "with a neutral element at %d" % at)
    return tags(lv, True)


def refusedCases():
    return st.one_of(
        st.fixed_dictionaries(dict(what=st.just("determinant"), e=gen.element(kinds=["mat"], n=1.0), by=st.one_of(gen.signed(0.001, 1.0), st.sampled_from([2e-5, -2e-5, 1e-4, -1e-4])))),
        st.fixed_dictionaries(dict(what=st.just("index"), e=gen.element(kinds=["mat"], n=1.0), by=gen.num(0.01, 2.0))),
        st.fixed_dictionaries(dict(what=st.just("aperture"), cls=st.sampled_from(["Matrix", "NA", "Lens", "Space", "Aperture", "ApertureNA", "Mirror", "Iface", "Thick", "Slab", "Axicon"]),
                                   v=st.one_of(st.just(0.0), st.just(-0.0), gen.num(-10, 0), st.just(float("-inf"))))))


def runRefused(c):
    import raytracing as rt
    if c["what"] == "aperture":
        v = c["v"]
        f = {"Matrix": lambda: rt.Matrix(1, 0, 0, 1, apertureDiameter=v), "NA": lambda: rt.Matrix(1, 0, 0, 1, apertureNA=v),
             "Lens": lambda: rt.Lens(f=10, diameter=v), "Space": lambda: rt.Space(d=10, diameter=v),
             "Aperture": lambda: rt.Aperture(diameter=v), "ApertureNA": lambda: rt.Aperture(diameter=10, NA=v),
             "Mirror": lambda: rt.CurvedMirror(R=100, diameter=v), "Iface": lambda: rt.DielectricInterface(1, 1.5, 100, diameter=v),
             "Thick": lambda: rt.ThickLens(1.5, 100, -100, 5, diameter=v), "Slab": lambda: rt.DielectricSlab(1.5, 5, diameter=v),
             "Axicon": lambda: rt.Axicon(alpha=0.01, n=1.5, diameter=v)}[c["cls"]]
        mustRaise(ValueError, "aperture %r of %s" % (v, c["cls"]), f)
        return ["nt"]
    e = c["e"]
    kw = dict(A=e["A"], B=e["B"], C=e["C"], D=e["E"], frontIndex=e["n1"], backIndex=e["n2"], physicalLength=e["L"])
    rt.Matrix(**kw)       # consistent: accepted
    if c["what"] == "index":
        # same coefficients, but announcing other media
        n2 = e["n2"] + c["by"]
        if abs(e["n1"] / n2 - e["n1"] / e["n2"]) > 2e-5:
            mustRaise(ValueError, "coefficients inconsistent with the indices", rt.Matrix, **dict(kw, backIndex=n2))
        return ["nt"]
    which = "D" if abs(e["A"]) > 0 else "A"
    kw[which] = kw[which] + c["by"] / e["A"]
    mustRaise(ValueError, "determinant off by %g" % c["by"], rt.Matrix, **kw)
    return ["nt"]


FACETS = [
    Facet("product", productCases, runProduct, quick=2000, shards=2, rule="at least 3 factors, any bracketing, compared with the model matrix, length, indices, vertices"),
    Facet("group", groupCases, runGroup, quick=2000, shards=2, rule="a group of at least 2 elements with a nested group or composite"),
    Facet("neutral", neutralCases, runNeutral, quick=1000, shards=1, rule="every case inserts an element that does nothing"),
    Facet("refused", refusedCases, runRefused, quick=1000, shards=1, rule="every case is an inconsistent matrix or a non-positive aperture"),
]
