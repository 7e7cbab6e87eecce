"""C28: the efficiency report counts the rays that the system transmits."""
import contextlib
import io
import math
import re

from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, Skip, Violation, check, expect
from .c04 import state
from .c25 import screen
from .paths import INF, Model, build, stopPaths


@st.composite
def cases(draw):
    c = draw(stopPaths())
    del c["y"], c["h"]
    c.update(seed=draw(st.integers(0, 10**6)), n=draw(st.integers(20, 150)),
             size=draw(st.one_of(st.none(), st.none(), gen.num(0.05, 2.5))), angle=draw(st.one_of(st.none(), gen.num(0.02, 4), gen.num(0.02, 4))), twice=draw(st.booleans()))
    return c


def numbers(line):
    return [float(x) for x in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf)", line.replace("np.float64", ""))]


def line(text, words):
    found = [l for l in text.split("\n") if words in l]
    check(len(found) == 1, "{0} lines in the report with '{1}':\n{2}", len(found), words, text)
    return found[0]


def points(ax, label):
    out = []
    for s in ax.collections:
        if s.get_label() == label:
            out += [(float(x), float(y)) for x, y in s.get_offsets()]
    return out


def run(c):
    import numpy as np
    import raytracing as rt
    path = build(c)
    half = path.halfFieldOfView()
    if path.apertureStop().z is None or math.isinf(half):
        with screen() as figs, contextlib.redirect_stdout(io.StringIO()) as out:
            path.reportEfficiency(nRays=10)
        check("no Field Stop" in out.getvalue() and not figs, "a report without a field stop: {0}", out.getvalue())
        return ["no field stop"]
    if not 1e-4 < half < 1e4:
        raise Skip("field of view close to the limits of the search")
    mo = Model(c)
    axial, principal = path.axialRay(), path.principalRay()
    inv = abs(path.lagrangeInvariant())
    if not 1e-6 < abs(axial.theta) < 1e3:
        raise Skip("extreme angles")
    size = None if c["size"] is None else 2 * half * c["size"]
    angle = None if c["angle"] is None else min(2.0, abs(axial.theta) * c["angle"])
    maxY, maxT = (half if size is None else size / 2), (math.pi / 2 if angle is None else angle)
    before = state(path)
    first = None
    for rounds in range(2 if c["twice"] else 1):
        np.random.seed(c["seed"])
        with screen() as figs, contextlib.redirect_stdout(io.StringIO()) as out:
            path.reportEfficiency(nRays=c["n"], **({} if size is None else dict(objectDiameter=size)), **({} if angle is None else dict(emissionHalfAngle=angle)))
            check(len(figs) == 1, "{0} figures shown", len(figs))
            ax = figs[0].axes[0]
            passed, vignetted, blocked = points(ax, "Transmitted"), points(ax, "Vignetted"), points(ax, "Blocked")
        report = out.getvalue()
        check(state(path) == before, "the report changes the path")
        if first is None:
            first = report
        check(report == first, "the same report again, from the same random numbers: {0}", report)

    missing = c["n"] - len(passed) - len(vignetted) - len(blocked)
    check(missing == 0, "{0} points drawn for {1} rays", c["n"] - missing, c["n"])

    # every point is a ray, combination of the axial and principal rays
    clear = ambiguous = 0
    seen = set()
    for kind, pts in (("transmitted", passed), ("vignetted", vignetted), ("blocked", blocked)):
        for a, b in pts:
            y, t = b * principal.y, a * axial.theta + b * principal.theta
            tol = 1e-6 * (1 + maxY + maxT) + 1e-9 * (abs(a * axial.theta) + abs(b * principal.theta))
            check(abs(y) <= maxY + tol and abs(t) <= maxT + tol, "a ray ({0}, {1}) beyond the source ({2}, {3})", y, t, maxY, maxT)
            inside = max(abs(a), abs(b))
            if abs(inside - 1) < 1e-5:
                ambiguous += 1
                continue
            if kind == "blocked":
                check(inside > 1, "a ray inside of the field of view and of the stop ({0}, {1}) is counted as outside", a, b)
                continue
            check(inside < 1, "a ray outside of the field of view or of the stop ({0}, {1}) is counted as {2}", a, b, kind)
            err = 1e-9 * (1 + abs(y) + abs(t)) + 1e-5 * abs(y)
            try:
                end = optics.through(mo.lv, optics.R(y, t, ey=err, et=err + 1e-6 * abs(t)))
            except optics.Ambiguous:
                ambiguous += 1
                continue
            clear += 1
            check(end.blocked == (kind == "vignetted"), "the ray ({0}, {1}) is counted as {2} but is {3}", y, t, kind, "blocked" if end.blocked else "transmitted")
            if end.blocked:
                seen.add(round(end.z, 6))

    one = lambda x: 0.0051 + 1e-6 * abs(x)
    def has(words, *values, d=0.0051):
        l = line(report, words)
        ns = numbers(l)
        for v in values:
            check(any(abs(n - v) <= d + 1e-5 * abs(v) or n == v for n in ns), "{0} not found in the report: {1}", v, l)
    has("Lagrange invariant", inv, principal.y, axial.theta)
    has("Object-side NA", path.NA(), path.fNumber())
    has("Field of view is", 2 * half)
    has("Object/source", maxY * maxT, maxY, maxT)
    total = c["n"]
    has("from Monte Carlo", 100 * len(passed) / total, d=0.051)
    has("from ratio", 100 * inv / (maxY * maxT), d=0.051)
    stop = path.apertureStop()
    has("Efficiency limited by", stop.diameter, stop.z, d=0.051)
    kept = len(passed) + len(vignetted)
    if kept:
        has("Relative efficiency", 100 * len(passed) / kept, d=0.051)
    tags = []
    if vignetted:
        has("Loss to vignetting", 100 * len(vignetted) / kept, d=0.051)
        where = numbers(line(report, "blockers at positions").split(":", 1)[1])
        tol = 1e-5 * (1 + mo.L)
        for z in seen:
            check(any(abs(z - w) <= tol for w in where), "rays are blocked at {0}, not listed: {1}", z, where)
        for w in where:
            check(any(abs(w - p.z) <= tol for p in mo.planes), "no aperture at the position {0} listed for vignetting: {1}", w, [p.z for p in mo.planes])
        tags.append("vignetting")
    else:
        check("Loss to vignetting" not in report and "No losses to vignetting" in report, "losses without vignetted rays: {0}", report)
    if passed and (vignetted or blocked) and clear:
        tags.append("nt")
    if not passed:
        tags.append("nothing transmitted")
    if mo.n1 != 1:
        tags.append("media")
    return tags


FACETS = [
    Facet("report", cases, run, quick=700, shards=4, steps=40_000_000, rule="a report with some rays transmitted and some lost"),
]
ASSUMPTIONS = ["each point of the figure of the report is a ray (its components along the axial and principal rays): it is traced again in a model of the path",
               "rays from outside the field of view are counted as lost, as documented",
               "paths whose stops are thin (see the known findings of C15 and C16) with a field of view between 1e-4 and 1e4"]
