"""C32: the command line lists and runs exactly the examples asked for; class listings are complete."""
import contextlib
import io
import re
import runpy
import sys
import traceback
from hypothesis import strategies as st
from vlib.harness import Facet, check


def command(argv):
    """ python -m raytracing argv, with examples that only record their call: (what was run, output, exit code) """
    import raytracing.examples as examples
    ran = []
    saved = [e["code"] for e in examples.short]
    for i, e in enumerate(examples.short):
        e["code"] = lambda comments=None, i=i: (ran.append((i + 1, comments)), print("@ran@%d" % (i + 1)))[0]
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["raytracing"] + argv
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_module("raytracing.__main__", run_name="__main__")
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = old
        for e, c in zip(examples.short, saved):
            e["code"] = c
    return ran, out.getvalue(), code


good = st.integers(1, 22)
number = st.one_of(good, good, good, good, st.sampled_from([0, -1, 23, 99, 1000]))


@st.composite
def commandCases(draw):
    k = draw(st.sampled_from(["some", "some", "some", "one", "all", "none", "bad", "list", "classes", "both"]))
    nums = draw(st.lists(good if draw(st.integers(0, 2)) else number, min_size=1, max_size=1 if k == "one" else 6))
    text = (draw(st.sampled_from([",", ",", ", "]))).join(map(str, nums))
    bad = draw(st.sampled_from(["x", "1,x", "1;2", "1.5", "ex01", "1,,2", ","]))
    how = draw(st.sampled_from(["-e", "--examples", "--examples="]))
    arg = {"bad": bad, "all": "all", "none": ""}.get(k, text)
    opts = ["--examples=" + arg] if how.endswith("=") or arg.startswith("-") else [how, arg]
    if k == "all" and draw(st.booleans()):
        opts = []
    if k in ("list", "classes"):
        opts = [draw(st.sampled_from({"list": ["-l", "--list"], "classes": ["-c", "--classes"]}[k]))]
    if k == "both":
        opts = opts + ["-l"]
    return dict(k=k, nums=nums, opts=opts)


def tree(root):
    """ every (class, subclass) below root """
    out = set()
    for c in root.__subclasses__():
        out.add((root.__name__, c.__name__))
        out |= tree(c)
    return out


def runCommand(c):
    import raytracing as rt
    import raytracing.examples as examples
    n = len(examples.short)
    ran, out, code = command(c["opts"])
    k = c["k"]
    what = "python -m raytracing " + " ".join(c["opts"])
    valid = all(1 <= i <= n for i in c["nums"])
    if k == "bad" or (k in ("some", "one", "both") and not valid):
        check(code not in (0, None), "{0}: accepted", what)
        check(not ran, "{0}: refused after running the examples {1}", what, [i for i, _ in ran])
        return ["nt", "refused"]
    check(code in (0, None), "{0}: exit code {1}", what, code)
    if k in ("list", "both", "classes", "none"):
        check(not ran, "{0}: ran the examples {1}", what, [i for i, _ in ran])
    if k in ("list", "both"):
        got = [(int(a), b, t) for a, b, t in re.findall(r"^\s*(\d+)\. (\S+)\.py (.*)$", out, re.M)]
        check(got == [(i + 1, e["name"], e["title"]) for i, e in enumerate(examples.short)], "{0}: {1}", what, got)
        check(examples.topDir in out, "{0}: the directory of the examples is missing", what)
    elif k == "classes":
        edges = re.findall(r'^\s*"(\w+)" -> "(\w+)"\s*$', out, re.M)
        want = tree(rt.Rays) | tree(rt.Matrix)
        check(set(edges) == want, "{0}: missing {1}, unexpected {2}", what, sorted(want - set(edges))[:5], sorted(set(edges) - want)[:5])
        check(out.count("{") == out.count("}") == 2, "{0}: not two graphs", what)
    elif k != "none":
        want = list(range(1, n + 1)) if k == "all" else c["nums"]
        check([i for i, _ in ran] == want, "{0}: ran {1}, expected {2}", what, [i for i, _ in ran], want)
        for i, comments in ran:
            check(comments is examples.short[i - 1]["bmpSourceCode"], "{0}: example {1} got the source code of another one", what, i)
        # what is announced is what is run
        told = re.findall(r"^Script '(\S+)\.py' - begin output$|^@ran@(\d+)$|^Script '(\S+)\.py' - end output$", out, re.M)
        told = [x for t in told for x in t if x]
        expected = []
        for i in want:
            expected += [examples.short[i - 1]["name"], str(i), examples.short[i - 1]["name"]]
        check(told == expected, "{0}: announced {1}, expected {2}", what, told, expected)
    return ["nt", k]


# ------------------------------------------------------------------ classes

def classCases():
    return st.fixed_dictionaries(dict(
        root=st.sampled_from(["Matrix", "MatrixGroup", "CompoundLens", "AchromatDoubletLens", "SingletLens", "Objective", "Rays", "RandomRays", "UniformRays", "own"]),
        # parent: the root or an earlier class
        made=st.lists(st.integers(0, 6), max_size=6)))


class Base:
    pass


def runClasses(c):
    import gc
    try:
        return classes(c)
    except BaseException as e:
        traceback.clear_frames(e.__traceback__)
        raise
    finally:
        gc.collect()    # the classes must not survive the case


def classes(c):
    import raytracing as rt
    from raytracing import utils
    import raytracing.specialtylenses as sl
    root = Base if c["root"] == "own" else getattr(rt, c["root"], None) or getattr(sl, c["root"])
    made = [root]
    for i, p in enumerate(c["made"]):
        made.append(type("Made%d" % i, (made[p % len(made)],), {}))
    def leaves(x):
        return {x.__name__} if not x.__subclasses__() else set().union(*(leaves(s) for s in x.__subclasses__()))
    want = leaves(root) if root.__subclasses__() else set()
    got = utils.allSubclasses(root)
    check(set(got) == want, "subclasses of {0}: missing {1}, unexpected {2}", root.__name__, sorted(want - set(got)), sorted(set(got) - want))
    check(all(isinstance(x, str) for x in got), "subclasses of {0}: not names", root.__name__)
    if hasattr(root, "all"):
        check(set(root.all()) == want, "{0}.all(): missing {1}, unexpected {2}", root.__name__, sorted(want - set(root.all())), sorted(set(root.all()) - want))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        utils.printClassHierarchy(root)
    edges = re.findall(r'^\s*"(\w+)" -> "(\w+)"\s*$', out.getvalue(), re.M)
    check(set(edges) == tree(root), "hierarchy of {0}: missing {1}, unexpected {2}", root.__name__, sorted(tree(root) - set(edges)), sorted(set(edges) - tree(root)))
    return ["nt"] if c["made"] else ["library only"]


# ------------------------------------------------------------------ comparisons of numbers

val = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: round(x, 6)), st.floats(-1, 1, allow_nan=False).map(lambda x: round(x, 6)))


def numberCases():
    return st.fixed_dictionaries(dict(a=val, b=val, near=st.booleans(), rel=st.booleans(), d=st.floats(-3, 3).map(lambda x: round(x, 3)),
                                      eps=st.one_of(st.none(), st.sampled_from([1e-9, 1e-6, 1e-3, 0.05, 0.5]))))


def runNumbers(c):
    from raytracing import utils as u
    eps = 1e-3 if c["eps"] is None else c["eps"]
    kw = {} if c["eps"] is None else dict(epsilon=c["eps"])
    a, b = c["a"], c["b"]
    if c["near"]:
        b = a * (1 + c["d"] * eps) if c["rel"] else a + c["d"] * eps
    t = ["nt" if c["near"] else "far"]
    d = abs(a - b)
    slack = 1e-9 * eps + 4e-16 * (abs(a) + abs(b))
    if abs(d - eps) > slack:
        check(u.areAbsolutelyAlmostEqual(a, b, **kw) is (d < eps), "areAbsolutelyAlmostEqual({0!r}, {1!r}, {2})", a, b, eps)
        check(u.areAbsolutelyNotEqual(a, b, **kw) is (d > eps), "areAbsolutelyNotEqual({0!r}, {1!r}, {2})", a, b, eps)
    if abs(abs(a) - eps) > 1e-12:
        check(u.isAlmostZero(a, **kw) is (abs(a) < eps), "isAlmostZero({0!r}, {1})", a, eps)
        check(u.isNotZero(a, **kw) is (abs(a) > eps), "isNotZero({0!r}, {1})", a, eps)
    if a != 0 and b != 0:
        r = d / max(abs(a), abs(b))
        if abs(r - eps) > 1e-9 * eps + 1e-15:
            check(u.areRelativelyAlmostEqual(a, b, **kw) is (r < eps), "areRelativelyAlmostEqual({0!r}, {1!r}, {2})", a, b, eps)
            check(u.areRelativelyNotEqual(a, b, **kw) is (not r < eps), "areRelativelyNotEqual({0!r}, {1!r}, {2})", a, b, eps)
            t.append("equal" if r < eps else "different")
    angle = a
    check(abs(angle * u.radPerDeg * u.degPerRad - angle) <= 1e-12 * (1 + abs(angle)), "degrees and radians")
    return t


FACETS = [
    Facet("command", commandCases, runCommand, quick=240, shards=4, rule="every command line"),
    Facet("classes", classCases, runClasses, quick=150, shards=2, rule="a hierarchy extended by the user"),
    Facet("numbers", numberCases, runNumbers, quick=800, shards=1, rule="two numbers within a few tolerances of each other"),
]
ASSUMPTIONS = ["the code of the examples is replaced by a recorder: what they draw is not judged here"]
