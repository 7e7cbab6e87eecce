"""Independent paraxial model: the oracle shared by the checks.

An element is described by a plain JSON spec (see `gen.py`); `leaves(spec)` expands it in
primitive elements with matrices written from textbook formulas; `build(spec)` makes the
real raytracing object. Nothing here calls the code under test except `build`.
"""
import math

INF = float("inf")
EPS = 2.0 ** -52


def inf(x):
    return INF if x is None else float(x)


# ---------------------------------------------------------------- 2x2 algebra

ID = (1.0, 0.0, 0.0, 1.0)


def mul(m, k):
    """ m applied after k """
    return (m[0] * k[0] + m[1] * k[2], m[0] * k[1] + m[1] * k[3],
            m[2] * k[0] + m[3] * k[2], m[2] * k[1] + m[3] * k[3])


def absm(m):
    return tuple(abs(x) for x in m)


class M:
    """ matrix with a bound (abs) used for rounding tolerances """
    __slots__ = ("m", "a", "k")

    def __init__(self, m=ID, a=None, k=1):
        self.m, self.a, self.k = tuple(m), tuple(a) if a else absm(m), k

    def after(self, first):
        return M(mul(self.m, first.m), mul(self.a, first.a), self.k + first.k)

    def tol(self, i=None):
        worst = max(self.a) if i is None else self.a[i]
        return 64 * (self.k + 4) * EPS * worst + 1e-14

    A = property(lambda s: s.m[0])
    B = property(lambda s: s.m[1])
    C = property(lambda s: s.m[2])
    D = property(lambda s: s.m[3])


# ---------------------------------------------------------------- primitives
# ("gap", d) ("refr", n1, n2, R) ("lens", f) ("mirror", R) ("mat", A, B, C, D)

def primMatrix(p):
    k = p[0]
    if k == "gap":
        return (1.0, p[1], 0.0, 1.0)
    if k == "refr":
        n1, n2, R = p[1:]
        return (1.0, 0.0, -(n2 - n1) / (n2 * R) if not math.isinf(R) else 0.0, n1 / n2)
    if k == "lens":
        return (1.0, 0.0, -1.0 / p[1], 1.0)
    if k == "mirror":
        return (1.0, 0.0, 2.0 / p[1], 1.0)
    if k == "mat":
        return tuple(float(x) for x in p[1:5])
    raise ValueError(p)


def primFlip(p):
    k = p[0]
    if k == "refr":
        return ("refr", p[2], p[1], -p[3])
    if k == "mirror":
        return ("mirror", -p[1])   # turning a mirror around: concave becomes convex
    return p


class Leaf:
    """ An element that is traced in one step """

    def __init__(self, kind, prims, L=0.0, n1=1.0, n2=1.0, D=INF, NA=INF, fv=None, bv=None, media=None, dev=0.0, label=""):
        self.kind, self.prims, self.L, self.n1, self.n2 = kind, list(prims), float(L), float(n1), float(n2)
        self.D, self.NA, self.fv, self.bv, self.dev, self.label = D, NA, fv, bv, dev, label

    def matrix(self):
        m = M()
        for p in self.prims:
            m = M(primMatrix(p)).after(m)
        return m

    def flipped(self):
        if self.kind == "mat":
            prims = self.prims       # documented: individual objects do not change
            fv, bv = self.bv, self.fv
        else:
            prims = [primFlip(p) for p in reversed(self.prims)]
            fv = None if self.bv is None else self.L - self.bv
            bv = None if self.fv is None else self.L - self.fv
        return Leaf(self.kind, prims, self.L, self.n2, self.n1, self.D, self.NA, fv, bv, dev=self.dev, label=self.label)


def leaves(spec):
    out = _leaves(spec)
    for _ in range(int(spec.get("flip", 0))):
        out = [l.flipped() for l in reversed(out)]
    return out


def _leaves(s):
    k = s["k"]
    D = inf(s.get("D"))
    if k == "space":
        n = s.get("n", 1.0)
        return [Leaf(k, [("gap", float(s["d"]))], L=s["d"], n1=n, n2=n, D=D)]
    if k == "lens":
        return [Leaf(k, [("lens", float(s["f"]))], D=D, fv=0.0, bv=0.0)]
    if k == "mirror":
        return [Leaf(k, [("mirror", float(s["R"]))], D=D, fv=0.0, bv=0.0)]
    if k == "iface":
        return [Leaf(k, [("refr", float(s["n1"]), float(s["n2"]), inf(s["R"]))], n1=s["n1"], n2=s["n2"], D=D, fv=0.0, bv=0.0)]
    if k in ("thick", "slab"):
        n, t = float(s["n"]), float(s["t"])
        R1, R2 = (inf(s["R1"]), inf(s["R2"])) if k == "thick" else (INF, INF)
        return [Leaf(k, [("refr", 1.0, n, R1), ("gap", t), ("refr", n, 1.0, R2)], L=t, D=D, fv=0.0, bv=t)]
    if k == "ap":
        return [Leaf(k, [], D=D, NA=inf(s.get("NA")))]
    if k == "axicon":
        return [Leaf(k, [], D=D, dev=(s["n"] - 1.0) * s["alpha"])]
    if k == "mat":
        return [Leaf(k, [("mat", s["A"], s["B"], s["C"], s["E"])], L=s["L"], n1=s["n1"], n2=s["n2"], D=D,
                     NA=inf(s.get("NA")), fv=s.get("fv"), bv=s.get("bv"))]
    if k == "4f":
        f1, f2 = float(s["f1"]), float(s["f2"])
        return (_leaves(dict(k="2f", f=f1, D=s.get("D1"))) + _leaves(dict(k="2f", f=f2, D=s.get("D2"))))
    if k == "2f":
        f = float(s["f"])
        sp = dict(k="space", d=f)
        return _leaves(sp) + _leaves(dict(k="lens", f=f, D=s.get("D"))) + _leaves(sp)
    if k == "doublet":
        n1, n2 = s["n1"], s["n2"]
        return (_leaves(dict(k="iface", n1=1.0, n2=n1, R=s["R1"], D=s.get("D"))) + _leaves(dict(k="space", d=s["t1"], n=n1))
                + _leaves(dict(k="iface", n1=n1, n2=n2, R=s["R2"], D=s.get("D"))) + _leaves(dict(k="space", d=s["t2"], n=n2))
                + _leaves(dict(k="iface", n1=n2, n2=1.0, R=s["R3"], D=s.get("D"))))
    if k == "singlet":
        n = s["n"]
        return (_leaves(dict(k="iface", n1=1.0, n2=n, R=s["R1"], D=s.get("D"))) + _leaves(dict(k="space", d=s["t"], n=n))
                + _leaves(dict(k="iface", n1=n, n2=1.0, R=s["R2"], D=s.get("D"))))
    if k == "objective":
        f, ftf, wd = s["f"], s["ftf"], s["wd"]
        return [Leaf("ap", [], D=float(s["ba"])), Leaf("space", [("gap", f)], L=f),
                Leaf("mat", [("mat", 1, 0, 0, 1)], L=ftf - 2 * f),
                Leaf("lens", [("lens", f)], fv=0.0, bv=0.0), Leaf("space", [("gap", f - wd)], L=f - wd),
                Leaf("ap", [], D=2 * s["NA"] * wd), Leaf("space", [("gap", wd)], L=wd)]
    if k in ("group", "compound"):
        out = []
        for e in s["e"]:
            out += leaves(e)
        return out
    raise ValueError(k)


def children(spec):
    """ The elements in the real group made for this spec, or None when it is a single element """
    k = spec["k"]
    if k in ("group", "compound"):
        ch = list(spec["e"])
    elif k == "2f":
        ch = [dict(k="space", d=spec["f"]), dict(k="lens", f=spec["f"], D=spec.get("D")), dict(k="space", d=spec["f"])]
    elif k == "4f":
        ch = children(dict(k="2f", f=spec["f1"], D=spec.get("D1"))) + children(dict(k="2f", f=spec["f2"], D=spec.get("D2")))
    elif k == "doublet":
        ch = [dict(k="iface", n1=1.0, n2=spec["n1"], R=spec["R1"], D=spec.get("D")), dict(k="space", d=spec["t1"], n=spec["n1"]),
              dict(k="iface", n1=spec["n1"], n2=spec["n2"], R=spec["R2"], D=spec.get("D")), dict(k="space", d=spec["t2"], n=spec["n2"]),
              dict(k="iface", n1=spec["n2"], n2=1.0, R=spec["R3"], D=spec.get("D"))]
    elif k == "singlet":
        ch = [dict(k="iface", n1=1.0, n2=spec["n"], R=spec["R1"], D=spec.get("D")), dict(k="space", d=spec["t"], n=spec["n"]),
              dict(k="iface", n1=spec["n"], n2=1.0, R=spec["R2"], D=spec.get("D"))]
    else:
        return None
    for _ in range(int(spec.get("flip", 0)) % 2):
        ch = [dict(c, flip=c.get("flip", 0) + 1) for c in reversed(ch)]
    return ch


# ---------------------------------------------------------------- real objects

def build(s):
    import raytracing as rt
    k = s["k"]
    D = inf(s.get("D"))
    if k == "space":
        o = rt.Space(d=s["d"], n=s.get("n", 1.0), diameter=D)
    elif k == "lens":
        o = rt.Lens(f=s["f"], diameter=D)
    elif k == "mirror":
        o = rt.CurvedMirror(R=s["R"], diameter=D)
    elif k == "iface":
        o = rt.DielectricInterface(n1=s["n1"], n2=s["n2"], R=inf(s["R"]), diameter=D)
    elif k == "thick":
        o = rt.ThickLens(n=s["n"], R1=inf(s["R1"]), R2=inf(s["R2"]), thickness=s["t"], diameter=D)
    elif k == "slab":
        o = rt.DielectricSlab(n=s["n"], thickness=s["t"], diameter=D)
    elif k == "ap":
        o = rt.Aperture(diameter=D, NA=inf(s.get("NA")))
    elif k == "axicon":
        o = rt.Axicon(alpha=s["alpha"], n=s["n"], diameter=D)
    elif k == "mat":
        o = rt.Matrix(A=s["A"], B=s["B"], C=s["C"], D=s["E"], physicalLength=s["L"], frontVertex=s.get("fv"),
                      backVertex=s.get("bv"), frontIndex=s["n1"], backIndex=s["n2"], apertureDiameter=D,
                      apertureNA=inf(s.get("NA")))
    elif k == "4f":
        o = rt.System4f(f1=s["f1"], f2=s["f2"], diameter1=inf(s.get("D1")), diameter2=inf(s.get("D2")))
    elif k == "2f":
        o = rt.System2f(f=s["f"], diameter=D)
    elif k in ("doublet", "singlet"):
        m = total(_leaves(s))
        f, bfl = -1.0 / m.C, -m.A / m.C
        if k == "doublet":
            o = rt.AchromatDoubletLens(fa=f, fb=bfl or 1.0, R1=inf(s["R1"]), R2=inf(s["R2"]), R3=inf(s["R3"]), tc1=s["t1"],
                                       tc2=s["t2"], te=s["t1"] + s["t2"], diameter=D, n1=s["n1"], n2=s["n2"])
        else:
            o = rt.SingletLens(f=f, fb=bfl or 1.0, R1=inf(s["R1"]), R2=inf(s["R2"]), tc=s["t"], te=s["t"], n=s["n"], diameter=D)
    elif k == "objective":
        o = rt.Objective(f=s["f"], NA=s["NA"], focusToFocusLength=s["ftf"], backAperture=s["ba"], workingDistance=s["wd"])
    elif k == "group":
        o = getattr(rt, s.get("cls", "MatrixGroup"))([build(e) for e in s["e"]])
    elif k == "compound":
        o = rt.CompoundLens([build(e) for e in s["e"]], designFocalLength=10.0)
    else:
        raise ValueError(k)
    for _ in range(int(s.get("flip", 0))):
        o.flipOrientation()
    return o


# ---------------------------------------------------------------- model results

def total(lv):
    m = M()
    for l in lv:
        m = l.matrix().after(m)
    return m


def growth(lv):
    return max(total(lv).a) if lv else 1.0


def length(lv):
    return sum(l.L for l in lv)


def frontIndex(lv):
    return lv[0].n1 if lv else 1.0


def backIndex(lv):
    return lv[-1].n2 if lv else 1.0


def vertices(lv):
    """ (front vertex, back vertex) from the front edge """
    z, fv, bv = 0.0, None, None
    for l in lv:
        if fv is None and l.fv is not None:
            fv = z + l.fv
        if l.bv is not None:
            bv = z + l.bv
        z += l.L
    return fv, bv


def isLinear(lv):
    return all(l.dev == 0 for l in lv)


class R:
    """ model ray """
    __slots__ = ("y", "t", "z", "blocked", "D", "ey", "et", "exact")

    def __init__(self, y, t, z=0.0, blocked=False, D=INF, ey=0.0, et=0.0):
        self.y, self.t, self.z, self.blocked, self.D, self.ey, self.et = y, t, z, blocked, D, ey, et

    def copy(self, **kw):
        r = R(self.y, self.t, self.z, self.blocked, self.D, self.ey, self.et)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class Ambiguous(Exception):
    """ within rounding of an aperture edge: cannot be judged """


def over(value, limit, err):
    """ value > limit, refusing to judge within rounding error unless exactly known """
    if math.isinf(limit):
        return False
    v = abs(value)
    if err == 0.0:
        return v > limit
    if abs(v - limit) <= err * 4 + 1e-12 * limit:
        raise Ambiguous()
    return v > limit


def stepLeaf(l, r):
    """ rays produced by Matrix.trace semantics for one leaf: [entrance?, exit] """
    out = []
    if l.L > 0:
        r = r.copy()
        if over(r.y, l.D / 2, r.ey):
            r.blocked = True
        out.append(r)
    if r.blocked:
        out.append(r.copy())
        return out
    blocked = over(r.y, l.D / 2, r.ey) or over(r.t, l.NA, r.et)
    m = l.matrix()
    A, B, C, D = m.m
    y, t = A * r.y + B * r.t, C * r.y + D * r.t
    a = m.a
    k = 16 * (m.k + 1) * EPS
    exactM = len(l.prims) <= 1
    if A == 1 and (B == 0 or r.t == 0) and exactM:
        y, ey = r.y, r.ey + abs(B) * r.et if B else r.ey
    else:
        ey = a[0] * r.ey + a[1] * r.et + k * (a[0] * abs(r.y) + a[1] * abs(r.t)) + 1e-300
    if D == 1 and (C == 0 or r.y == 0) and exactM:
        t, et = r.t, r.et + abs(C) * r.ey if C else r.et
    else:
        et = a[2] * r.ey + a[3] * r.et + k * (a[2] * abs(r.y) + a[3] * abs(r.t)) + 1e-300
    if l.dev:
        if r.y == 0 and r.ey == 0:
            pass
        elif abs(r.y) <= 4 * r.ey + 1e-300:
            raise Ambiguous()
        else:
            t -= math.copysign(l.dev, r.y)
            et += 4 * EPS * (abs(l.dev) + abs(t))
    out.append(R(y, t, r.z + l.L, blocked, l.D, ey, et))
    return out


def traceSpec(spec, r):
    """ trace() of the real object of this spec: groups start with the input ray """
    ch = children(spec)
    if ch is None and spec["k"] != "objective":
        (l,) = leaves(spec)
        return stepLeaf(l, r)
    out = [r]
    if ch is None:
        for l in leaves(spec):
            out += stepLeaf(l, out[-1])
    else:
        for c in ch:
            out += traceSpec(c, out[-1])
    return out


def through(lv, r):
    """ last ray through leaves """
    for l in lv:
        r = stepLeaf(l, r)[-1]
    return r


def partial(lv, z):
    """ (M, n, inside kind) of propagation from the front edge to z, leaves up to z included.
    Returns None for a position inside an element that cannot be split. """
    m, n = M(), frontIndex(lv)
    for l in lv:
        if l.L <= z:
            m = l.matrix().after(m)
            n = l.n2
            z -= l.L
            continue
        if z == 0 and l.kind == "mat":
            return m, n
        if l.kind in ("space", "thick", "slab"):
            d = z
            for p in l.prims:
                if p[0] == "gap":
                    m = M(primMatrix(("gap", d))).after(m)
                    break
                m = M(primMatrix(p)).after(m)
                n = p[2]
            return m, n
        return None
    return m, n
