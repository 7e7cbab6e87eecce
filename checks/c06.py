"""C06: a group behaves as an editable list of elements and stays consistent."""
import os
import tempfile
from hypothesis import strategies as st
from vlib import gen, optics
from vlib.harness import Facet, check
from .c01 import compare
from .c04 import state

KINDS = ["space", "space", "lens", "iface", "thick", "slab", "ap", "mirror", "mat", "2f", "doublet", "singlet"]
CLASSES = ["MatrixGroup", "OpticalPath", "ImagingPath", "LaserPath"]


class Refused(Exception):
    pass


class Item:
    """ an element and what it should be; spaces adopt the index of what precedes them """

    def __init__(self, spec, obj=None):
        self.spec = spec
        self.obj = optics.build(spec) if obj is None else obj

    @property
    def leaves(self):
        return optics.leaves(self.spec)

    def n(self):
        lv = self.leaves
        return (optics.frontIndex(lv), optics.backIndex(lv))


def arrange(items):
    """ indices adopted by spaces for this list of items, or Refused """
    adopted = {}
    last = None
    for k, it in enumerate(items):
        if not isinstance(it, Item):
            raise Refused("not a Matrix")
        n1, n2 = it.n()
        if k and last != n1:
            if it.spec["k"] == "space":
                adopted[id(it)] = (it, last)
                n2 = last
            else:
                raise Refused("index")
        last = n2
    return [a for a in adopted.values()]


@st.composite
def anyElement(draw):
    n = draw(st.sampled_from([1.0, 1.0, 1.0, 1.5, 1.33]))
    k = draw(st.sampled_from(KINDS if n == 1.0 else ["space", "iface", "iface", "mat"]))
    e = draw(gen.element(n=n, kinds=[k], next_n=draw(st.sampled_from([None, 1.0, 1.0, 1.5, 1.33])), maxd=50.0))
    return e


@st.composite
def newElement(draw):
    c = draw(st.integers(0, 7))
    if c == 0:
        return draw(gen.sequence(0, 3, n=1.0, kinds=["space", "lens", "iface", "ap"], endAir=draw(st.booleans()), maxd=50.0).map(
            lambda e: dict(k="group", cls="MatrixGroup", e=e)))
    if c == 1:
        return draw(st.sampled_from([dict(k="bad", v=5), dict(k="bad", v="lens"), dict(k="bad", v=None)]))
    return draw(anyElement())


@st.composite
def cases(draw):
    i = st.integers(-9, 9)
    oi = st.one_of(st.none(), i)
    op = st.one_of(
        st.fixed_dictionaries(dict(op=st.just("append"), e=newElement())),
        st.fixed_dictionaries(dict(op=st.just("append"), e=anyElement())),
        st.fixed_dictionaries(dict(op=st.just("insert"), i=i, e=newElement())),
        st.fixed_dictionaries(dict(op=st.just("insert"), i=i, e=anyElement())),
        st.fixed_dictionaries(dict(op=st.just("insertMany"), i=i, e=st.lists(anyElement(), max_size=3))),
        st.fixed_dictionaries(dict(op=st.just("pop"), i=i)),
        st.fixed_dictionaries(dict(op=st.just("set"), i=i, e=newElement())),
        st.fixed_dictionaries(dict(op=st.just("setSlice"), i=oi, j=oi, e=st.lists(anyElement(), max_size=3))),
        st.fixed_dictionaries(dict(op=st.just("flip"))),
        st.fixed_dictionaries(dict(op=st.just("load"), e=gen.sequence(0, 3, kinds=KINDS, maxd=50.0), append=st.booleans())),
        st.fixed_dictionaries(dict(op=st.just("read"), i=i, j=oi)))
    return dict(cls=draw(st.sampled_from(CLASSES)), e=draw(gen.sequence(0, 4, kinds=KINDS, maxd=50.0)),
                ops=draw(st.lists(op, min_size=1, max_size=12)))


def items(objOrSpec):
    """ what an inserted object contributes: groups and lists are inserted element by element """
    spec = objOrSpec
    if spec["k"] == "bad":
        return None, spec["v"]
    it = Item(spec)
    if optics.children(spec) is not None:
        return [Item(s, o) for s, o in zip(optics.children(spec), it.obj.elements)], it.obj
    return [it], it.obj


def run(c):
    import raytracing as rt
    model = [Item(s) for s in c["e"]]
    g = getattr(rt, c["cls"])([m.obj for m in model])
    tags = set()
    edits = refusals = 0

    def verify(what):
        check(len(g) == len(model), "{0}: {1} elements instead of {2}", what, len(g), len(model))
        check(all(a is m.obj for a, m in zip(g.elements, model)), "{0}: the group does not hold the elements that a list would have", what)
        check(all(a is b for a, b in zip(list(g), g.elements)) and len(list(g)) == len(model), "{0}: iterating gives other elements", what)
        lv = [l for m in model for l in m.leaves]
        compare(g, lv, what)
        for m in model:
            check((m.obj.frontIndex, m.obj.backIndex) == m.n(), "{0}: indices of an element are {1}, expected {2}", what,
                  (m.obj.frontIndex, m.obj.backIndex), m.n())

    verify("new group")
    for k, o in enumerate(c["ops"]):
        name = o["op"]
        what = "operation %d (%s)" % (k, name)
        n = len(model)
        if name == "read":
            i = o["i"]
            try:
                want = model[i].obj
            except IndexError:
                want = None
            try:
                got = g[i]
                check(got is want, "{0}: element [{1}] is not the one a list would give", what, i)
            except IndexError:
                check(want is None, "{0}: [{1}] out of range for {2} elements", what, i, n)
            part = g[i:o["j"]]
            ref = model[i:o["j"]]
            check(len(part.elements) == len(ref) and all(a is m.obj for a, m in zip(part.elements, ref)), "{0}: slice [{1}:{2}]", what, i, o["j"])
            compare(part, [l for m in ref for l in m.leaves], what + " slice")
            if n < 7:
                pairs = [(a, b) for a in g for b in g]
                check(len(pairs) == n * n and all(a is model[x // n].obj and b is model[x % n].obj for x, (a, b) in enumerate(pairs)),
                      "{0}: nested iterations give {1} pairs for {2} elements", what, len(pairs), n)
                tags.add("nested iteration")
            verify(what)
            continue
        if name == "flip":
            if any(m.spec["k"] == "mat" and (m.spec["fv"] is not None or m.spec["bv"] is not None or m.spec["n1"] != m.spec["n2"]) for m in model):
                continue       # documented limitation: a generic matrix is not flipped
            g.flipOrientation()
            for m in model:
                m.spec = dict(m.spec, flip=m.spec.get("flip", 0) + 1)
            model.reverse()
            tags.add("flip")
            verify(what)
            continue

        error = None
        if name in ("append", "insert", "set"):
            new, arg = items(o["e"])
            if name == "append":
                if new is not None and optics.children(o["e"]) is not None:
                    new = [Item(o["e"], arg)]
                call = lambda: g.append(arg)
                wanted = model + (new if new is not None else [None])
            elif name == "insert":
                call = lambda: g.insert(o["i"], arg)
                wanted = model[:o["i"]] + (new if new is not None else [None]) + model[o["i"]:]
            else:
                i = o["i"]
                if not -n <= i < n:
                    error, wanted = IndexError, None
                else:
                    i %= n
                    wanted = model[:i] + (new if new is not None else [None]) + model[i + 1:]
                def call():
                    g[o["i"]] = arg
            if new is None and error is None:
                error = TypeError
        elif name in ("insertMany", "setSlice"):
            new = [Item(s) for s in o["e"]]
            arg = [m.obj for m in new]
            wanted = model[:]
            if name == "insertMany":
                wanted[o["i"]:o["i"]] = new
                call = lambda: g.insert(o["i"], arg)
            else:
                wanted[o["i"]:o["j"]] = new
                def call():
                    g[o["i"]:o["j"]] = arg
        elif name == "pop":
            wanted = model[:]
            try:
                popped = wanted.pop(o["i"])
            except IndexError:
                error = IndexError
            def call():
                got = g.pop(o["i"])
                if error is None:
                    check(got is popped.obj, "{0}: returned the wrong element", what)
        elif name == "load":
            fd, path = tempfile.mkstemp(suffix=".raytracing")
            os.close(fd)
            rt.MatrixGroup([optics.build(s) for s in o["e"]]).save(path)
            wanted = (model if o["append"] else []) + [Item(s) for s in o["e"]]
            call = lambda: g.load(path, append=o["append"])
        if wanted is not None and all(isinstance(m, Item) for m in wanted):
            if optics.growth([l for m in wanted for l in m.leaves]) > 3e4:
                if name == "load":
                    os.unlink(path)
                continue
        adopted = []
        if error is None:
            try:
                adopted = arrange(wanted)
            except Refused:
                error = ValueError
        before = state(g)
        try:
            call()
            raised = None
        except (TypeError, ValueError, IndexError) as err:
            raised = err
        if name == "load":
            os.unlink(path)
        if error is not None:
            check(raised is not None, "{0}: should be refused ({1})", what, error.__name__)
            check(isinstance(raised, error), "{0}: raised {1!r} instead of {2}", what, raised, error.__name__)
            check(state(g) == before, "{0}: refused with {1} but the group changed", what, type(raised).__name__)
            refusals += 1
            tags.add("refused " + error.__name__)
            verify(what)
        else:
            check(raised is None, "{0}: a valid edit raised {1!r}", what, raised)
            if name == "load":
                kept = len(model) if o["append"] else 0
                check(len(g.elements) == len(wanted), "{0}: {1} elements after load", what, len(g.elements))
                for m, obj in zip(wanted[kept:], g.elements[kept:]):
                    m.obj = obj
            for m, n1 in adopted:
                m.spec = dict(m.spec, n=n1)
                tags.add("space adopts the index")
            model[:] = wanted
            edits += 1
            verify(what)
    if edits >= 2:
        tags.add("nt")
        if not model:
            tags.add("emptied")
    return tags


FACETS = [
    Facet("history", cases, run, quick=3500, shards=4, rule="at least 2 accepted edits, state compared after every operation"),
]
