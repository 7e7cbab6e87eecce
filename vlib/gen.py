"""Hypothesis strategies producing plain JSON specs of elements, paths and rays."""
import math
from hypothesis import strategies as st
from . import optics

MAXGROWTH = 1e5


def num(lo, hi, digits=4):
    """ numbers in [lo, hi]: round decimal values (which shrink well) and arbitrary floats """
    steps = min(4000, int((hi - lo) * 20)) or 20
    grid = st.integers(0, steps).map(lambda i: round(lo + (hi - lo) * i / steps, digits))
    fine = st.floats(lo, hi, allow_nan=False).map(lambda x: min(hi, max(lo, round(x, digits + 2))))
    return st.one_of(grid, fine)


def signed(lo, hi):
    return st.tuples(num(lo, hi), st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


index = st.one_of(st.sampled_from([1.0, 1.33, 1.5, 1.7, 2.0]), num(1.0, 4.0, 3))
glass = st.one_of(st.sampled_from([1.33, 1.5, 1.5168, 1.7, 2.4]), num(1.05, 4.0, 3))


def diameter(finite=0.3):
    return st.one_of(*([st.none()] * max(1, int(round((1 - finite) * 10)))), *([num(0.5, 60)] * max(1, int(round(finite * 10)))))


def radius(flat=True):
    r = signed(5, 500)
    return st.one_of(r, r, r, st.none()) if flat else r


def focal():
    return signed(10, 300)


@st.composite
def element(draw, n=1.0, kinds=None, dia=None, next_n=None, maxd=120.0):
    """ one element starting in a medium of index n. """
    dia = dia if dia is not None else diameter()
    air = ["space", "lens", "iface", "thick", "slab", "ap", "mirror", "mat", "4f", "2f", "doublet", "singlet"]
    kinds = kinds or air
    usable = [k for k in kinds if k in ("space", "iface", "mat") or n == 1.0]
    k = draw(st.sampled_from(usable))
    if k == "space":
        return dict(k=k, d=draw(num(0.1, maxd)), n=n, D=draw(dia))
    if k == "lens":
        return dict(k=k, f=draw(focal()), D=draw(dia))
    if k == "mirror":
        return dict(k=k, R=draw(signed(10, 500)), D=draw(dia))
    if k == "iface":
        n2 = next_n if next_n is not None else draw(index)
        return dict(k=k, n1=n, n2=n2, R=draw(radius()), D=draw(dia))
    if k == "thick":
        return dict(k=k, n=draw(glass), R1=draw(radius()), R2=draw(radius()), t=draw(num(0.1, 30)), D=draw(dia))
    if k == "slab":
        return dict(k=k, n=draw(glass), t=draw(num(0.1, 30)), D=draw(dia))
    if k == "ap":
        return dict(k=k, D=draw(num(0.5, 60)), NA=draw(st.one_of(st.none(), st.none(), st.none(), num(0.05, 1.5))))
    if k == "axicon":
        return dict(k=k, alpha=draw(num(0.001, 0.3)), n=draw(glass), D=draw(dia))
    if k == "mat":
        n2 = next_n if next_n is not None else draw(st.one_of(st.just(n), index))
        A = draw(signed(0.2, 4))
        B = draw(st.one_of(st.just(0.0), signed(0.1, 50)))
        C = draw(st.one_of(st.just(0.0), signed(0.001, 0.1)))
        L = draw(st.one_of(st.just(0.0), num(0.1, 40)))
        fv = draw(st.one_of(st.none(), num(-5, 5)))
        bv = draw(st.one_of(st.none(), num(-5, 45)))
        D = draw(dia)
        return dict(k=k, A=A, B=B, C=C, E=(n / n2 + B * C) / A, L=L, n1=n, n2=n2, fv=fv, bv=bv, D=D,
                    NA=None if D is None else draw(st.one_of(st.none(), num(0.05, 1.5))))
    if k == "4f":
        return dict(k=k, f1=draw(num(10, 100)), f2=draw(num(10, 100)), D1=draw(dia), D2=draw(dia))
    if k == "2f":
        return dict(k=k, f=draw(num(10, 100)), D=draw(dia))
    if k in ("doublet", "singlet"):
        return draw(cemented(k, dia=dia))
    raise ValueError(k)


@st.composite
def cemented(draw, k=None, flip=True, dia=None):
    """ doublets and singlets with power (their constructors compare with design focal lengths) """
    k = k or draw(st.sampled_from(["doublet", "singlet"]))
    D = draw(dia if dia is not None else st.one_of(st.none(), num(1, 20)))
    D = None if D is None else min(D, 20.0)
    r = signed(12, 300)
    if k == "doublet":
        s = dict(k=k, R1=draw(r), R2=draw(radius()), R3=draw(st.one_of(r, st.none())), t1=draw(num(0.5, 10)),
                 t2=draw(num(0.5, 10)), n1=draw(glass), n2=draw(glass), D=D)
    else:
        s = dict(k=k, R1=draw(r), R2=draw(st.one_of(r, st.none())), t=draw(num(0.5, 10)), n=draw(glass), D=D)
    C = optics.total(optics.leaves(s)).C
    if abs(C) < 2e-4:      # nearly afocal: bend the front surface more
        s["R1"] = 12.5 if s["R1"] > 0 else -12.5
        if abs(optics.total(optics.leaves(s)).C) < 2e-4:
            s["R1"] = -s["R1"]
    if flip:
        s["flip"] = draw(st.sampled_from([0, 0, 0, 1]))
    return s


@st.composite
def sequence(draw, minSize=0, maxSize=7, n=None, kinds=None, dia=None, nested=0, groupClasses=("MatrixGroup",),
             endAir=False, growth=MAXGROWTH, maxd=120.0):
    """ list of element specs whose indices of refraction follow each other """
    n = n if n is not None else draw(st.one_of(st.just(1.0), st.just(1.0), st.just(1.0), index))
    count = draw(st.integers(minSize, maxSize))
    out = []
    for _ in range(count):
        if nested and draw(st.integers(0, 4)) == 0:
            sub = draw(sequence(0, 3, n=n, kinds=kinds, dia=dia, nested=nested - 1, groupClasses=groupClasses, maxd=maxd))
            # an empty group has indices of 1
            if not sub and n != 1.0:
                continue
            e = dict(k="group", cls=draw(st.sampled_from(list(groupClasses))), e=sub)
        else:
            e = draw(element(n=n, kinds=kinds, dia=dia, maxd=maxd))
        lv = optics.leaves(e)
        if optics.growth(optics.leaves(dict(k="group", e=out + [e]))) > growth:
            break
        out.append(e)
        if lv:
            n = lv[-1].n2
    if endAir and n != 1.0:
        e = dict(k="iface", n1=n, n2=1.0, R=draw(radius()), D=None)
        out.append(e)
    return out


def powered(C, floor=2e-4):
    return abs(C) > floor


heights = st.one_of(num(-20, 20), st.just(0.0))
angles = st.one_of(num(-0.6, 0.6), st.just(0.0))


@st.composite
def ray(draw, y=None, theta=None):
    return dict(y=draw(y if y is not None else heights), theta=draw(theta if theta is not None else angles))


@st.composite
def fullray(draw):
    r = draw(ray())
    r["z"] = draw(st.one_of(st.just(0.0), num(-50, 50)))
    r["w"] = draw(st.one_of(st.none(), num(0.3, 1.6)))
    return r


def mkray(r):
    import raytracing as rt
    return rt.Ray(y=r["y"], theta=r["theta"], z=r.get("z", 0.0), isBlocked=r.get("blocked", False), wavelength=r.get("w"))


backward = st.sampled_from([None] * 5 + [0, 1, 2, 3])


def goBack(e, which):
    """ one of the spaces of the path is crossed backwards (the negative distance to a virtual image, say) """
    if which is None:
        return e
    at = [i for i, x in enumerate(e) if x["k"] == "space"]
    if not at:
        return e
    i = at[which % len(at)]
    return [dict(x, d=-x["d"]) if j == i else x for j, x in enumerate(e)]
