"""C19: saving and loading preserves rays and systems; bad files change nothing."""
import json
import os
import pickle
import subprocess
import sys
import tempfile
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, check, expect, mustRaise
from .c01 import compare, dropEmpty
from .c04 import state, values

KINDS = ["space", "space", "lens", "iface", "thick", "slab", "ap", "mirror", "mat", "axicon", "2f", "4f", "doublet", "singlet"]
VENDOR = ["AC254_100_A", "AC508_100_B", "ACN254_075_A", "LA1608_A", "PN_33_921", "LUMPlanFL40X", "LWD16X", "XLPLN25X"]
BASES = ["Rays", "UniformRays", "ObjectRays", "LambertianRays", "RandomUniformRays"]


EXISTING = ["", "", "rays", "elements", "text"]


def occupy(path, what):
    """ what the file holds before saving: saving replaces it """
    import raytracing as rt
    if what == "rays":
        rt.Rays([rt.Ray(k, 0.125) for k in range(30)]).save(path)
    elif what == "elements":
        rt.MatrixGroup([rt.Space(k + 1) for k in range(9)]).save(path)
    elif what == "text":
        with open(path, "w") as f:
            f.write("something else\n" * 200)


def workfile():
    fd, path = tempfile.mkstemp(dir=os.environ.get("RTV_WORK"), suffix=".bin")
    os.close(fd)
    return path


fullray = st.fixed_dictionaries(dict(y=st.one_of(gen.heights, st.floats(-1e6, 1e6)), theta=gen.angles, z=st.one_of(st.just(0.0), gen.num(-50, 50)),
                                     w=st.one_of(st.none(), gen.num(0.3, 1.6)), blocked=st.booleans()))


def rayCases():
    return st.fixed_dictionaries(dict(rays=st.lists(fullray, max_size=8), times=st.sampled_from([1] * 7 + [20, 200]), before=st.lists(fullray, max_size=5), append=st.booleans(),
                                      src=st.sampled_from(["Rays", "Rays", "UniformRays", "traced", "RandomUniformRays"]), dst=st.sampled_from(BASES),
                                      queried=st.booleans(), twice=st.booleans(), existing=st.sampled_from(EXISTING)))


def makeRays(kind, rays):
    import raytracing as rt
    if kind == "Rays" or kind == "traced":
        o = rt.Rays([gen.mkray(r) for r in rays])
        if kind == "traced":
            path = rt.ImagingPath([rt.Space(20), rt.Lens(f=15, diameter=8), rt.Space(30), rt.Aperture(3)])
            o = rt.Rays([x for r in o for x in path.trace(r)])
        return o
    if kind == "UniformRays":
        return rt.UniformRays(2, thetaMax=0.3, M=1 + len(rays) % 4, N=2)
    if kind == "ObjectRays":
        return rt.ObjectRays(4, halfAngle=0.25, H=2, T=2)
    if kind == "LambertianRays":
        return rt.LambertianRays(3, M=2, N=4, I=2)
    o = rt.RandomUniformRays(yMax=3, thetaMax=0.2, maxCount=1 + len(rays))
    list(o)
    return o


def runRays(c):
    import numpy as np
    np.random.seed(7)
    src = makeRays(c["src"], c["rays"] * (c.get("times", 1) if c["src"] == "Rays" else 1))
    saved = [values(r) for r in src.rays]
    dst = makeRays(c["dst"] if c["dst"] != "RandomUniformRays" else "Rays", c["before"])
    old = list(dst.rays)
    oldValues = [values(r) for r in old]
    if c["queried"] and len(dst):
        dst.yValues, dst.rayCountHistogram()
    path = workfile()
    occupy(path, c["existing"])
    src.save(path)
    check([values(r) for r in src.rays] == saved, "saving changed the rays")
    dst.load(path, append=c["append"])
    got = [values(r) for r in dst.rays]
    want = (oldValues if c["append"] else []) + saved
    check(got == want, "loaded rays: {0}, expected {1}", got[:5], want[:5])
    if c["append"]:
        check(all(a is b for a, b in zip(dst.rays, old)), "the rays that were there are replaced")
    if len(dst):
        check(list(dst.yValues) == [v[0] for v in want], "heights after loading")
    # the loaded rays are independent of those saved
    if c["src"] != "RandomUniformRays":
        for r in dst.rays[len(want) - len(saved):]:
            r.y += 1
        check([values(r) for r in src.rays] == saved, "changing the loaded rays changed those saved")
        for r in dst.rays[len(want) - len(saved):]:
            r.y -= 1
    if c["twice"]:
        dst.load(path, append=True)
        check(len(dst.rays) == len(want) + len(saved), "{0} rays after loading twice", len(dst.rays))
    os.unlink(path)
    return (["nt"] if saved else ["empty"]) + ["file exists: " + c["existing"], c["src"], "append" if c["append"] else "replace"]


# -------------------------------------------------------------------- groups

@st.composite
def groupCases(draw):
    e = draw(gen.sequence(0, 6, kinds=KINDS, nested=2, groupClasses=("MatrixGroup", "MatrixGroup", "ImagingPath", "LaserPath", "System4f"[:0] or "OpticalPath")))
    return dict(e=dropEmpty(e), times=draw(st.sampled_from([0] * 10 + [30, 90])), vendor=draw(st.lists(st.sampled_from(VENDOR), max_size=2)), flipVendor=draw(st.booleans()),
                cls=draw(st.sampled_from(["MatrixGroup", "ImagingPath", "LaserPath", "LaserCavity", "OpticalPath"])),
                dst=draw(st.sampled_from(["MatrixGroup", "ImagingPath", "LaserPath", "OpticalPath"])),
                before=draw(gen.sequence(0, 3, n=1.0, kinds=["space", "lens", "ap", "thick"])), append=draw(st.booleans()),
                r=draw(st.lists(gen.ray(), min_size=1, max_size=3)), labels=draw(st.booleans()), flip=draw(st.booleans()), existing=draw(st.sampled_from(EXISTING)))


def vendor(name, flip):
    import raytracing as rt
    from raytracing import thorlabs, eo, olympus, nikon
    for m in (thorlabs, eo, olympus, nikon):
        if hasattr(m, name) and isinstance(getattr(m, name), type):
            o = getattr(m, name)()
            if flip:
                o.flipOrientation()
            return o
    return None


def deep(o):
    """ values that define an element: like state() without identities """
    def clean(s):
        if isinstance(s, list):
            out = []
            for x in s:
                if isinstance(x, list) and x and all(isinstance(v, int) and not isinstance(v, bool) for v in x) and len(str(x[0])) > 8:
                    continue
                out.append(clean(x))
            return out
        return s
    out = clean(state(o))
    for n in ("designFocalLength", "wavelengthRef", "url", "NA", "backAperture", "workingDistance", "focusToFocusLength", "fa", "fb", "tc1", "tc2", "te"):
        if n in o.__dict__:
            out.append((n, o.__dict__[n]))
    if hasattr(o, "surfaces"):
        out.append([(type(s).__name__, getattr(s, "R", None), s.n, s.L) for s in o.surfaces])
    for child in getattr(o, "elements", []):
        out.append(deep(child))
    return out


def traces(p, rays):
    return [[values(x) for x in p.trace(gen.mkray(r))] for r in rays]


def runGroup(c):
    import raytracing as rt
    e = c["e"]
    lv = optics.leaves(dict(k="group", e=e))
    objs = [optics.build(x) for x in e]
    if optics.backIndex(lv) == 1.0:
        # long paths too
        objs += [rt.Space(0.5 + k % 3) if k % 2 else rt.Aperture(30.0 + k) for k in range(c.get("times", 0))]
        objs += [v for v in (vendor(n, c["flipVendor"]) for n in c["vendor"]) if v is not None]
    if c["labels"]:
        for i, o in enumerate(objs):
            o.label = o.label or "element é%d" % i
    src = getattr(rt, c["cls"])(objs)
    generic = any(l.kind == "mat" for l in lv)      # flipping one only exchanges its indices (documented)
    if c["flip"] and not generic:
        src.flipOrientation()
    want = [deep(o) for o in src.elements]
    wantTraces = traces(src, c["r"])
    path = workfile()
    occupy(path, c["existing"])
    src.save(path)
    check([deep(o) for o in src.elements] == want, "saving changed the elements")
    dst = getattr(rt, c["dst"])([optics.build(x) for x in c["before"]])
    old = list(dst.elements)
    if c["append"] and old and src.elements and src.elements[0].frontIndex != 1.0:
        first = src.elements[0]
        if type(first).__name__ != "Space":
            s = state(dst)
            mustRaise(ValueError, "loading elements in another medium", dst.load, path, append=True)
            check(state(dst) == s, "a refused load changed the group")
            os.unlink(path)
            return ["refused"]
        raise Skip("a space adopts the index")
    dst.load(path, append=c["append"])
    new = dst.elements[len(old):] if c["append"] else dst.elements
    check(len(dst.elements) == len(want) + (len(old) if c["append"] else 0), "{0} elements after loading {1}", len(dst.elements), len(want))
    if c["append"]:
        check(all(a is b for a, b in zip(dst.elements, old)), "the elements that were there changed")
    got = [deep(o) for o in new]
    for i, (a, b) in enumerate(zip(got, want)):
        check(a == b, "element {0} loaded as {1}, saved as {2}", i, a, b)
    check(all(a is not b for a, b in zip(new, src.elements)), "the loaded elements are those of the saved group")
    if not c["append"] or not old:
        for n in ("A", "B", "C", "D", "L", "frontIndex", "backIndex", "frontVertex", "backVertex"):
            check(getattr(dst, n) == getattr(src, n), "{0} of the loaded group is {1}, it was {2}", n, getattr(dst, n), getattr(src, n))
        check(traces(dst, c["r"]) == wantTraces, "rays traced through the loaded group differ")
    else:
        whole = getattr(rt, c["dst"])(old + list(src.elements))
        for n in ("A", "B", "C", "D", "L", "frontIndex", "backIndex"):
            check(getattr(dst, n) == getattr(whole, n), "{0} of the group with loaded elements is {1}, expected {2}", n, getattr(dst, n), getattr(whole, n))
    # what was loaded can be used: edited, flipped, drawn from, saved again
    again = workfile()
    dst.save(again)
    third = rt.MatrixGroup()
    third.load(again)
    check([deep(o) for o in third.elements] == [deep(o) for o in dst.elements], "saved and loaded again: other elements")
    if not generic:
        third.flipOrientation()
        third.flipOrientation()
        for n in "ABCD":
            expect(getattr(third, n), getattr(dst, n), 1e-9 * (1 + abs(getattr(dst, n))), n + " of a loaded group flipped twice")
    os.unlink(path)
    os.unlink(again)
    tags = ["nt"] if want else ["empty"]
    if any(hasattr(o, "elements") for o in src.elements):
        tags.append("nested groups or catalogue elements")
    return tags + ["append" if c["append"] else "replace"]


# ----------------------------------------------------------------- bad files

def badCases():
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(["missing", "empty", "truncated", "truncated", "text", "json", "number", "None", "strings", "numbers", "mixed", "mixed",
                              "other kind", "directory", "dict", "object", "incompatible", "incompatible"]),
        cut=gen.num(0, 0.999), pos=st.integers(0, 5), append=st.booleans(), rays=st.booleans(),
        before=st.lists(gen.ray(), min_size=0, max_size=4), e=gen.sequence(0, 3, n=1.0, kinds=["space", "lens", "thick", "2f"]), queried=st.booleans()))


def runBad(c):
    import raytracing as rt
    path = workfile()
    what = c["what"]
    someRays = [rt.Ray(1, 0.1), rt.Ray(2, 0.2), rt.Ray(3, 0.3)]
    someElements = [rt.Space(10), rt.Lens(20), rt.Space(30)]
    good, other = (someRays, someElements) if c["rays"] else (someElements, someRays)

    def dump(x):
        with open(path, "wb") as f:
            pickle.Pickler(f).dump(x)
    if what == "missing":
        os.unlink(path)
    elif what == "empty":
        pass
    elif what == "truncated":
        dump(good)
        size = os.path.getsize(path)
        with open(path, "r+b") as f:
            f.truncate(min(size - 1, int(c["cut"] * size)))
    elif what == "text":
        with open(path, "w") as f:
            f.write("These are not rays\n" * (1 + c["pos"]))
    elif what == "json":
        with open(path, "w") as f:
            json.dump([dict(y=1, theta=0.1)], f)
    elif what == "number":
        dump(42 + c["pos"])
    elif what == "None":
        dump(None)
    elif what == "strings":
        dump(["a", "b"])
    elif what == "numbers":
        dump([1, 2, 3])
    elif what == "mixed":
        x = list(good)
        x.insert(c["pos"] % 4, [None, 5, "x", other[0], [good[0]]][c["pos"] % 5])
        dump(x)
    elif what == "other kind":
        dump(other)
    elif what == "directory":
        os.unlink(path)
        os.mkdir(path)
    elif what == "dict":
        dump(dict(rays=[1.0, 2.0]))
    elif what == "incompatible":
        # elements that cannot follow each other, or those of the group: the one that cannot is preceded by others
        if c["rays"]:
            dump([rt.Ray(1, 0.1), rt.Ray(2, 0.2), other[0]])
        else:
            dump(([rt.Space(10)] * (c["pos"] % 3) + [rt.Aperture(20)] * (c["pos"] // 3)) + [rt.DielectricInterface(n1=1.0, n2=1.5), rt.Lens(20)])
    elif what == "object":
        dump(rt.Ray(1, 1) if not c["rays"] else rt.Lens(10))
    if c["rays"]:
        dst = rt.Rays([gen.mkray(r) for r in c["before"]])
        if c["queried"] and c["before"]:
            dst.yValues, dst.rayCountHistogram()
        rays, vals = dst.rays, [values(r) for r in dst.rays]
    else:
        dst = rt.ImagingPath([optics.build(x) for x in c["e"]])
        if what == "incompatible" and c["append"] and c["pos"] % 2:
            # a space of the file would take the index of the group, the lens cannot
            dst.append(rt.DielectricInterface(n1=dst.backIndex, n2=1.33))
            with open(path, "wb") as f:
                pickle.Pickler(f).dump([rt.Space(10), rt.Space(5), rt.Lens(20), rt.Space(30)][c["pos"] % 3:])
        before = state(dst)
    mustRaise(Exception, "loading {0}".format(what), dst.load, path, append=c["append"])
    if c["rays"]:
        check([id(r) for r in dst.rays] == [id(r) for r in rays] and [values(r) for r in dst.rays] == vals, "a failed load ({0}) changed the rays", what)
        check(list(dst.yValues) == [v[0] for v in vals], "heights after a failed load")
    else:
        check(state(dst) == before, "a failed load ({0}) changed the group", what)
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.unlink(path)
    return ["nt", what, "rays" if c["rays"] else "group", "append" if c["append"] else "replace"]


# --------------------------------------------------- loaded by another process

CHILD = r"""
import sys, json, warnings
warnings.simplefilter("ignore")
import raytracing as rt
g = rt.MatrixGroup(); g.load(sys.argv[1])
r = rt.Rays(); r.load(sys.argv[2])
out = [[r_.y, r_.theta, r_.z, r_.isBlocked, r_.wavelength] for r_ in r]
tr = [[[x.y, x.theta, x.z, x.isBlocked] for x in g.trace(a)] for a in r if not a.isBlocked]
print("RESULT " + json.dumps([out, tr, [type(e).__name__ for e in g.elements], g.A, g.B, g.C, g.D, g.L]))
"""


def processCases():
    return st.fixed_dictionaries(dict(e=gen.sequence(1, 6, kinds=KINDS, nested=1).map(dropEmpty), rays=st.lists(fullray, min_size=1, max_size=4)))


def runProcess(c):
    import raytracing as rt
    g = rt.MatrixGroup([optics.build(x) for x in c["e"]])
    rays = rt.Rays([gen.mkray(r) for r in c["rays"]])
    p1, p2 = workfile(), workfile()
    g.save(p1)
    rays.save(p2)
    out = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, p1, p2], capture_output=True, text=True, cwd=os.environ.get("RTV_WORK", "/tmp"))
    lines = [l for l in out.stdout.splitlines() if l.startswith("RESULT ")]
    check(lines, "loading in another process failed: {0}", out.stderr[-500:])
    got = json.loads(lines[0][7:])
    want = [[[r.y, r.theta, r.z, r.isBlocked, r.wavelength] for r in rays],
            [[[x.y, x.theta, x.z, x.isBlocked] for x in g.trace(a)] for a in rays if not a.isBlocked], [type(e).__name__ for e in g.elements], g.A, g.B, g.C, g.D, g.L]
    check(got == json.loads(json.dumps(want)), "loaded in another process: {0}, expected {1}", str(got)[:400], str(want)[:400])
    os.unlink(p1)
    os.unlink(p2)
    return ["nt"]


FACETS = [
    Facet("rays", rayCases, runRays, quick=1500, shards=2, rule="at least one ray saved and loaded"),
    Facet("group", groupCases, runGroup, quick=1000, shards=4, rule="at least one element saved and loaded"),
    Facet("bad", badCases, runBad, quick=1200, shards=2, rule="a file that is missing, truncated or holds anything else"),
    Facet("process", processCases, runProcess, quick=8, shards=4, thorough=160, rule="files loaded by a new process"),
]
ASSUMPTIONS = ["damaged files are truncated or hold other data; bit flips inside a pickle are not generated (a flipped bit can be another valid file)"]
