"""C23: importing a Zemax file gives the lens it describes."""
import math
import os
import tempfile
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, check, expect, rel
from .c20 import glasses

INF = float("inf")
# names as Zemax writes them
WORDS = ["NAME lens a", "NOTE 0 FOR INFORMATION ONLY, NOT FOR MANUFACTURING.", "NOTE 0 UNIT IN CURV 1 SURF 3", "VERS 120928 0 30221", "MODE SEQ", "PFIL 0 0 0",
         "ENPD 2.286E+1", "ENVD 2.0E+1 1 0", "GCAT SCHOTT INFRARED MISC", "RAIM 0 0 1 1 0 0 0 0 0", "FTYP 0 0 1 3 0 0 0", "PWAV 2", "",
         "COFN QF \"COATINGTHOR.DAT\" \"SCATTER_PROFILE.DAT\"", "NOTE 0 \u00b5m, d\u00e9fl\u00e9chi, \u03bb", "NSCD 100 500 0 1.0E-3 5", "GSTD 0 100.000 100.000"]
AFTER = ["", "BLNK ", "TOL TOFF   0   0              0              0   0 0 0", "MNUM 1 1", "MOFF   0   1 \"\" 0 0 0 1 1 0 0.0 \"\""]
EXTRA = ["COMM SURF 5 GLAS", "STOP", "COAT THORA", "HIDE 0 0 0 0 0 0 0 0 0 0", "MIRR 2 0", "SLAB 4", "POPS 0 0 0 0 0 0 0 0 1 1 1 1 0 0 0", "FLAP 0 1.27E+1 0", "CONI 0.5"]


def number(x, style):
    x = float(x)
    if style == 1:
        return "%.18E" % x
    if style == 2:
        return "%.17g" % x
    if style == 3 and x == int(x):
        return "%d" % x
    return repr(x)


@st.composite
def cases(draw):
    nGlass = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 9, 15]))
    names = [x for x in sorted(glasses()) if x != "Air"]
    surf = []
    for i in range(nGlass + 1):
        surf.append(dict(R=draw(st.one_of(gen.radius(), gen.radius(), gen.signed(0.5, 5), gen.signed(500, 2e4), st.sampled_from([1e5, -1e6, 3e7, 1e9]))), g=draw(st.sampled_from(names)) if i < nGlass else None, t=draw(st.one_of(gen.num(0.1, 30), st.integers(1, 20))),
                         D=draw(st.one_of(st.none(), gen.num(1, 60))), extra=draw(st.lists(st.sampled_from(EXTRA), max_size=4)), glas=draw(st.integers(0, 3)),
                         order=draw(st.permutations(range(4)))))
    if surf[-1]["t"] == 0 or draw(st.integers(0, 5)) == 0:
        surf[-1]["t"] = draw(st.sampled_from(["INFINITY", 0, 97.068]))
    waves = draw(st.lists(st.one_of(gen.num(0.4, 1.1, 5), st.sampled_from([0.4861, 0.5876, 0.6563, 0.55])), min_size=1, max_size=6))
    pad = draw(st.sampled_from([0, 0, 3, 20]))
    dummies = lambda k: [dict(t=draw(st.sampled_from(["INFINITY", 0, 10.0])), D=draw(st.sampled_from([None, 0, 5.0])), air=draw(st.integers(0, 9)) == 0) for _ in range(k)]
    tail = dummies(draw(st.sampled_from([0, 0, 1, 1, 2, 12])))
    return dict(lead=dummies(draw(st.sampled_from([0, 0, 1, 1, 1, 1, 2, 3, 9, 12, 25]))), surf=surf, tail=tail, waves=waves, pad=pad,
                unit=draw(st.sampled_from([None, "MM", "MM", "IN", "IN", "CM", "METER"])), rest=draw(st.sampled_from(["", " X W X CM MR CPMM"])),
                enc=draw(st.sampled_from(["utf-8", "utf-8", "utf-16", "utf-16-le", "utf-16-be", "utf-8-sig"])), eol=draw(st.sampled_from(["\n", "\r\n"])),
                head=draw(st.lists(st.sampled_from(WORDS), max_size=6)), after=draw(st.booleans()), num=draw(st.integers(0, 3)), indent=draw(st.sampled_from(["  ", "\t", "", "    "])),
                order=draw(st.booleans()), weight=draw(st.sampled_from([" 1", ""])), last=draw(st.booleans()), lower=draw(st.integers(0, 4)) == 0, tabs=draw(st.integers(0, 4)) == 0)


def text(c):
    """ the lines of the file, with lengths in the unit of the file """
    num = lambda x: x if isinstance(x, str) else number(x, c["num"])
    unit = [] if c["unit"] is None else ["UNIT " + (c["unit"].lower() if c.get("lower") else c["unit"]) + c["rest"]]
    waves = ["WAVM %d %s%s" % (i + 1, num(w), c["weight"]) for i, w in enumerate(c["waves"] + [0.55] * c["pad"])]
    head = list(c["head"])
    lines = ["VERS 120928 0 30221"] + (waves + head + unit if c["order"] else unit + head + waves)
    k = 0
    for s in c["lead"] + c["surf"] + c["tail"]:
        lines.append("SURF %d" % k)
        body = []
        if "R" in s:
            R = optics.inf(s["R"])
            body.append("CURV %s 0 0 0 0 \"\"" % num(0.0 if math.isinf(R) else 1 / R))
        else:
            body.append("CURV 0.0 0 0 0 0 \"\"")
        body.append("DISZ " + num(s["t"]))
        if s.get("D") is not None:
            body.append("DIAM %s 1 0 0 1 \"\"" % num(s["D"] / 2))
        if s.get("g"):
            body.append("GLAS " + zemaxName(s["g"]) + ["", " 0 0 0 0 0", " 0 0 1.5168 64.17 0", " 0"][s["glas"]])
        if s.get("air"):
            body.append("GLAS AIR 0 0")
        if "order" in s:
            body = [body[i] for i in s["order"] if i < len(body)]
        lines += [c["indent"] + b for b in ["TYPE STANDARD"] + s.get("extra", []) + body]
        k += 1
    if c["after"]:
        lines += AFTER
    if c.get("tabs"):
        lines = [l.replace(" ", "\t") if l.strip()[:4] in ("CURV", "DISZ", "DIAM", "WAVM") else l for l in lines]
    return c["eol"].join(lines) + (c["eol"] if c["last"] else "")


def zemaxName(className):
    from raytracing.materials import Material
    return str(glasses()[className]())


def run(c):
    import raytracing as rt
    from raytracing.zemax import ZMXReader
    from raytracing.materials import Air
    data = text(c)
    enc = c["enc"]
    raw = {"utf-16-le": b"\xff\xfe", "utf-16-be": b"\xfe\xff"}.get(enc, b"") + data.encode(enc)
    fd, path = tempfile.mkstemp(suffix=".zmx")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(raw)
        z = ZMXReader(path)
    finally:
        os.remove(path)
    factor = {"IN": 25.4, "CM": 10.0, "METER": 1000.0}.get(c["unit"], 1.0)

    # central wavelength
    waves = c["waves"] + [0.55] * c["pad"]
    while len(waves) > 1 and waves[-1] == 0.55:
        waves = waves[:-1]
    for _ in range(2):
        got = z.designWavelengths()
        check([float(x) for x in got] == waves, "design wavelengths: {0}, expected {1}", got, waves)
    w = waves[len(waves) // 2]
    check(z.designWavelength == w, "design wavelength: {0}, expected {1}", z.designWavelength, w)

    # all surfaces in order
    every = c["lead"] + c["surf"] + c["tail"]
    got = z.surfaces()
    check(len(got) == len(every), "{0} surfaces, {1} in the file", len(got), len(every))

    def sameSurface(g, s, i, what):
        check(g.number == i, "number of {0}: {1}", what, g.number)
        R = optics.inf(s.get("R")) * factor
        expect(g.R, R, 0 if math.isinf(R) else 1e-12 * abs(R), "radius of " + what)
        t = INF if s["t"] == "INFINITY" else s["t"] * factor
        expect(g.spacing, t, 0 if math.isinf(t) else 1e-12 * abs(t), "spacing after " + what)
        D = INF if s.get("D") is None else s["D"] * factor
        expect(g.diameter, D, 0 if math.isinf(D) else 1e-12 * abs(D), "diameter of " + what)
        mat = type(g.mat).__name__ if not isinstance(g.mat, type) else g.mat.__name__
        check(mat == (s.get("g") or "Air"), "material after {0}: {1}, expected {2}", what, mat, s.get("g"))

    for i, (g, s) in enumerate(zip(got, every)):
        sameSurface(g, s, i, "surface %d" % i)
        sameSurface(z.surfaceInfo(i), s, i, "surface %d" % i)
        check(z.rawSurfaceInfo(i)["SURF"] == i, "raw surface {0}", i)
    check(z.surfaceInfo(len(every)) is None, "a surface after the last one")
    lens = z.lensSurfaces()
    check(len(lens) == len(c["surf"]), "{0} surfaces for the lens, {1} in the file", len(lens), len(c["surf"]))
    first = len(c["lead"])
    for i, (g, s) in enumerate(zip(lens, c["surf"])):
        sameSurface(g, s, first + i, "lens surface %d" % i)

    # the lens
    index = lambda s: glasses()[s["g"]]().n(w) if s.get("g") else 1.0
    spec, n1 = [], 1.0
    for s in c["surf"]:
        n2 = index(s)
        R = optics.inf(s["R"]) * factor
        spec.append(dict(k="iface", n1=n1, n2=n2, R=None if math.isinf(R) else R, D=None if s["D"] is None else s["D"] * factor))
        if s.get("g"):
            spec.append(dict(k="space", d=s["t"] * factor, n=n2))
        n1 = n2
    for rounds in range(2):
        group = z.matrixGroup()
        check(isinstance(group, rt.MatrixGroup) and len(group.elements) == len(spec), "{0} elements in the group, expected {1}", len(group.elements), len(spec))
        for e, s in zip(group.elements, spec):
            if s["k"] == "iface":
                check(isinstance(e, rt.DielectricInterface), "not an interface: {0}", type(e).__name__)
                R = optics.inf(s["R"])
                expect(e.R, R, 0 if math.isinf(R) else 1e-12 * abs(R), "radius of an interface")
                D = optics.inf(s["D"])
                expect(e.apertureDiameter, D, 0 if math.isinf(D) else 1e-12 * D, "diameter of an interface")
                expect(e.frontIndex, s["n1"], 1e-12, "index before an interface")
                expect(e.backIndex, s["n2"], 1e-12, "index after an interface")
            else:
                check(isinstance(e, rt.Space), "not a space: {0}", type(e).__name__)
                expect(e.L, s["d"], 1e-12 * s["d"], "thickness of a glass")
                expect(e.frontIndex, s["n"], 1e-12, "index of a glass")
        lv = optics.leaves(dict(k="group", e=spec))
        m = optics.total(lv)
        for i, name in enumerate("ABCD"):
            expect(getattr(group, name), m.m[i], 1e-11 * (1 + m.a[i]), name + " of the lens")
        expect(group.L, optics.length(lv), 1e-9 * group.L, "thickness of the lens")
        check(group.frontIndex == 1 and group.backIndex == 1, "index around the lens")
        group.flipOrientation()   # the next lens read is not affected

    # prescription
    rows = [r.split("\t") for r in z.prescription().split("\n") if r.strip()]
    check(len(rows) == len(c["surf"]) + 1 and [x.strip() for x in rows[0]] == ["R", "Material", "d", "diameter"], "prescription: {0}", rows)
    for r, s in zip(rows[1:], c["surf"]):
        t = INF if s["t"] == "INFINITY" else s["t"] * factor
        D = INF if s["D"] is None else s["D"] * factor
        for cell, v in ((r[0], optics.inf(s["R"]) * factor), (r[2], t), (r[3], D)):
            expect(float(cell), v, 0 if math.isinf(v) else 0.00501, "prescription")
        check(r[1].strip() == (zemaxName(s["g"]) if s.get("g") else str(Air())), "material in the prescription: {0}", r[1])
    tags = ["nt", enc, "unit " + str(c["unit"]), "%d glasses" % (len(c["surf"]) - 1)]
    if c["pad"]:
        tags.append("padded wavelengths")
    if any(s["R"] is None for s in c["surf"]):
        tags.append("flat surface")
    return tags


# ------------------------------------------------------------- real files

def fileCases():
    import raytracing
    folder = os.path.join(os.path.dirname(raytracing.__file__), "specifications")
    names = sorted(f for f in os.listdir(folder) if f.lower().endswith(".zmx"))
    return st.fixed_dictionaries(dict(file=st.sampled_from(names), enc=st.sampled_from(["utf-8", "utf-16", None]), eol=st.sampled_from(["\n", "\r\n"]),
                                      inch=st.booleans()))


def runFile(c):
    """ a vendor's file, as it is, encoded differently or converted to inches, gives the same lens """
    import raytracing
    from raytracing.zemax import ZMXReader
    folder = os.path.join(os.path.dirname(raytracing.__file__), "specifications")
    original = os.path.join(folder, c["file"])
    with open(original, "rb") as f:
        raw = f.read()
    data = raw.decode("utf-16" if raw[:2] in (b"\xff\xfe", b"\xfe\xff") else "utf-8")
    lines = data.splitlines()
    # reference: read independently
    surf, cur, waves, inches = [], None, [], False
    for l in lines:
        w = l.split()
        if not w:
            continue
        if w[0] == "SURF":
            cur = {}
            surf.append(cur)
        elif w[0] == "UNIT":
            inches = w[1] == "IN"
        elif w[0] == "WAVM":
            waves.append(float(w[2]))
        elif cur is not None and w[0] in ("CURV", "DISZ", "GLAS", "DIAM"):
            cur[w[0]] = w[1]
    k0 = 25.4 if inches else 1.0
    while len(waves) > 1 and waves[-1] == 0.55:
        waves.pop()
    wave = waves[len(waves) // 2]
    out = []
    for l in lines:
        w = l.split()
        if c["inch"] and w:
            if w[0] == "UNIT":
                l = "UNIT IN X W X CM MR CPMM"
            elif w[0] in ("CURV", "DISZ", "DIAM") and w[1] != "INFINITY":
                v = float(w[1])
                f = k0 / 25.4
                w[1] = repr(v / f if w[0] == "CURV" else v * f)
                l = "  " + " ".join(w)
        out.append(l)
    enc = c["enc"]
    fd, path = tempfile.mkstemp(suffix=".zmx")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(c["eol"].join(out + [""]).encode(enc or "utf-8"))
        z = ZMXReader(original if enc is None and not c["inch"] else path)
    finally:
        os.remove(path)
    rel(z.designWavelength, wave, 1e-12, "design wavelength of " + c["file"])
    table = {zemaxName(x): x for x in sorted(glasses())}
    spec, n1, started = [], 1.0, False
    for s in surf:
        g = s.get("GLAS")
        if g is None and not started:
            continue
        started = True
        n2 = glasses()[table[g]]().n(wave) if g else 1.0
        curv = float(s["CURV"])
        spec.append(dict(k="iface", n1=n1, n2=n2, R=None if curv == 0 else k0 / curv, D=2 * float(s["DIAM"]) * k0 if "DIAM" in s else None))
        if g is None:
            break
        spec.append(dict(k="space", d=float(s["DISZ"]) * k0, n=n2))
        n1 = n2
    group = z.matrixGroup()
    lv = optics.leaves(dict(k="group", e=spec))
    m = optics.total(lv)
    for i, name in enumerate("ABCD"):
        expect(getattr(group, name), m.m[i], 1e-10 * (1 + m.a[i]), "{0} of the lens in {1}".format(name, c["file"]))
    check(len(group.elements) == len(spec), "elements of the lens in {0}", c["file"])
    for e, s in zip(group.elements, spec):
        if s["k"] == "iface":
            expect(e.apertureDiameter, optics.inf(s["D"]), 1e-9 * (0 if s["D"] is None else s["D"]), "diameter in " + c["file"])
            R = optics.inf(s["R"])
            expect(e.R, R, 0 if math.isinf(R) else 1e-9 * abs(R), "radius in " + c["file"])
        else:
            expect(e.L, s["d"], 1e-9 * s["d"], "thickness in " + c["file"])
    return ["nt", "inches" if c["inch"] else "as is"]


FACETS = [
    Facet("generated", cases, run, quick=1000, shards=4, rule="a cemented lens of 1 to 4 glasses in a generated file"),
    Facet("files", fileCases, runFile, quick=80, shards=2, rule="a vendor file, re-encoded or converted to inches"),
]
ASSUMPTIONS = ["trailing wavelengths of 0.55 µm are placeholders and dropped, as the importer documents",
               "the lens is the first run of glasses of the file up to the next air, as the importer documents (it assumes one compound lens)"]
