"""Imaging paths with several apertures, and a model of their stops (C11, C15, C16)."""
import math
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Skip

INF = float("inf")
AIR = ["space", "space", "lens", "lens", "ap", "iface", "doublet", "singlet", "2f", "4f", "mirror"]


@st.composite
def objective(draw):
    f = draw(gen.num(2, 20))
    wd = draw(gen.num(0.2, 1.0)) * f
    NA = draw(gen.num(0.1, 0.9))
    return dict(k="objective", f=round(f, 4), NA=NA, ftf=round(2 * f + draw(gen.num(5, 60)), 4), wd=round(wd, 4),
                ba=draw(gen.num(2, 20)), flip=draw(st.sampled_from([0, 1])))


@st.composite
def stopPaths(draw, tiny=False):
    """ an object plane followed by lenses and apertures """
    e = draw(gen.sequence(2, 7, kinds=AIR, dia=gen.diameter(0.8), nested=1, growth=3e3, groupClasses=("MatrixGroup", "ImagingPath")))
    if draw(st.booleans()) and e:
        n = optics.frontIndex(optics.leaves(dict(k="group", e=e)))
        if e[0]["k"] != "space":
            e.insert(0, dict(k="space", d=draw(gen.num(1, 200)), n=n, D=None))
    extra = draw(st.sampled_from(["", "", "", "objective", "thick", "first", "tail"]))
    lv = optics.leaves(dict(k="group", e=e))
    if extra == "objective" and optics.backIndex(lv) == 1.0:
        o = draw(objective())
        e = [dict(k="space", d=0.5), o] + e if optics.frontIndex(lv) == 1.0 and draw(st.booleans()) else e + [o]
    elif extra == "thick" and optics.backIndex(lv) == 1.0:
        e = e + [draw(gen.element(kinds=["thick", "slab"], dia=gen.num(5, 60))), dict(k="space", d=draw(gen.num(1, 100)))]
    elif extra == "first" and optics.frontIndex(lv) == 1.0:
        e = [dict(k="ap", D=draw(st.one_of(gen.num(0.1, 30), st.sampled_from([1e-2, 1e-3, 1e-4, 3e-5, 1e-5]))))] + e
    elif extra == "tail":
        n = optics.backIndex(lv)
        e = e + [dict(k="space", d=draw(gen.num(1, 200)), n=n, D=None)]
    e = [strip(x) for x in e]
    for x in e:                 # finite lengths with a diameter are generated on purpose only (see KNOWN FINDINGS)
        if x["k"] == "space":
            x["D"] = None
        if x["k"] == "group":
            for y in x["e"]:
                if y["k"] == "space":
                    y["D"] = None
    e = [x for x in e if not (x["k"] == "group" and not x["e"])]
    planes = sum(1 for l in optics.leaves(dict(k="group", e=e)) if not math.isinf(l.D))
    if planes < 2 and draw(st.integers(0, 9)):
        n = optics.backIndex(optics.leaves(dict(k="group", e=e))) if e else 1.0
        if n == 1.0:
            e = e + [dict(k="lens", f=draw(gen.focal()), D=draw(gen.num(0.5, 60))), dict(k="space", d=draw(gen.num(1, 100))), dict(k="ap", D=draw(gen.num(0.5, 60)))]
        else:
            e = e + [dict(k="iface", n1=n, n2=1.0, R=draw(gen.radius()), D=draw(gen.num(0.5, 60))), dict(k="space", d=draw(gen.num(1, 100))), dict(k="ap", D=draw(gen.num(0.5, 60)))]
    if extra == "thick" and draw(st.booleans()):
        for x in e:
            if x["k"] == "space":
                x["D"] = draw(gen.num(20, 60))
                break
    return dict(e=e, y=draw(st.lists(gen.heights, min_size=1, max_size=3)), h=draw(st.one_of(gen.num(0.1, 30), gen.num(0.1, 30), gen.num(0.1, 30), st.just(0.0))))


def strip(x):
    """ apertures limit by their diameter only: the NA of an aperture cannot be a Stop (z, diameter) """
    x = dict(x)
    if "e" in x:
        x["e"] = [strip(y) for y in x["e"]]
    elif x["k"] == "ap":
        x["NA"] = None
    return x


class Plane:
    """ an aperture: position, diameter, and matrix from the object to it; where is "thin", "entrance" or "exit" """

    def __init__(self, z, D, m, where):
        self.z, self.D, self.m, self.where = z, D, m, where


class Model:
    def __init__(self, c):
        self.spec = dict(k="group", cls="ImagingPath", e=c["e"])
        self.lv = optics.leaves(self.spec)
        if not self.lv:
            raise Skip("empty")
        self.n1, self.n2 = optics.frontIndex(self.lv), optics.backIndex(self.lv)
        m, z = optics.M(), 0.0
        self.planes = []
        for l in self.lv:
            if not math.isinf(l.D):
                self.planes.append(Plane(z, l.D, m, "entrance" if l.L > 0 else "thin"))
            m = l.matrix().after(m)
            z += l.L
            if not math.isinf(l.D) and l.L > 0:
                self.planes.append(Plane(z, l.D, m, "exit"))
        self.m, self.L = m, z
        if m.tol() > 1e-8:
            raise Skip("ill conditioned")
        self.finite = bool(self.planes)
        # the stop: largest ratio of height to diameter for a ray from the axial point
        best = 0.0
        for p in self.planes:
            p.ratio = abs(p.m.B) / p.D
            if abs(p.m.B) <= max(1e-9, 100 * p.m.tol(1)):
                p.ratio = 0.0
            best = max(best, p.ratio)
        if self.planes and best == 0:
            self.stops = []
            return
        self.stops = [p for p in self.planes if p.ratio >= best * (1 - 1e-7)]
        if any(p.where != "thin" for p in self.stops):
            raise Skip("limited by the edge of an element with a length (see known findings)")
        if self.stops and all(abs(p.m.B) < 1e-4 for p in self.stops):
            raise Skip("stop at an image of the object")

    def field(self, stop):
        """ (half field of view, [planes that limit it]) for this stop: unit chief ray """
        theta = -stop.m.A / stop.m.B
        best, limits = INF, []
        self.fieldTol = 1e-12
        for p in self.planes:
            if p.where == "exit":
                continue        # rays are blocked when entering (see known findings)
            h = abs(p.m.A + p.m.B * theta)
            err = p.m.tol() * (1 + abs(theta)) + abs(p.m.B / stop.m.B) * stop.m.tol()
            if h <= 1e3 * err + 1e-9:
                continue        # at the stop or one of its images
            limits.append((p.D / 2 / h, p))
            self.fieldTol = max(self.fieldTol, 1e2 * err / h)
        if limits:
            best = min(limits, key=lambda t: t[0])[0]
        tol = 5e-6 + best * (1e-7 + self.fieldTol) if best < INF else 0
        return best, [p for y, p in limits if y <= best + tol]

    def candidates(self, got):
        """ stops of the model that match the reported one """
        return [p for p in self.stops if got.z is not None and abs(p.z - got.z) <= 1e-9 * (1 + self.L) and p.D == got.diameter]


def build(c):
    from vlib import optics as o
    return o.build(dict(k="group", cls="ImagingPath", e=c["e"]))
