"""C24: preferences persist and are shared faithfully."""
import contextlib
import copy
import importlib
import json
import os
import shutil
import tempfile
import warnings
from datetime import datetime, timedelta
from hypothesis import strategies as st
from vlib import gen
from vlib.harness import Facet, check, mustRaise

FILE = "ca.dcclab.python.raytracing.json"
KEYS = ["a", "b", "mode", "lastVersionCheck", "", "cl\u00e9 \u20ac", "keys", "a b\n", "0"]
MISSING = object()


@contextlib.contextmanager
def home(config=True):
    """ a home directory of our own, and everything global restored afterwards """
    old, cwd = os.environ.get("HOME"), os.getcwd()
    folder = tempfile.mkdtemp(prefix="prefs")
    os.environ["HOME"] = folder
    form = warnings.formatwarning
    try:
        os.chdir(folder)
        if config:
            os.mkdir(os.path.join(folder, ".config"))
        with warnings.catch_warnings():
            yield folder
    finally:
        warnings.formatwarning = form
        os.chdir(cwd)
        if old is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = old
        shutil.rmtree(folder)


# ---------------------------------------------------------------- histories

leaf = st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), gen.num(-1e6, 1e6), st.floats(allow_nan=False, allow_infinity=True),
                 st.text(max_size=5), st.sampled_from(["beginner", "expert", "silent"]))
values = st.recursive(leaf, lambda v: st.one_of(st.lists(v, max_size=3), st.dictionaries(st.text(max_size=3), v, max_size=3)), max_leaves=5)
keys = st.sampled_from(KEYS)
DAMAGE = ["", "{", "{\"a\": 1", "[1, 2]", "null", "3", "\"a\"", "{'a': 1}", "\x00\xff", "{\"a\": 1}}", "{\"a\": 01}", "\ud800"]


def operations():
    h = st.integers(0, 3)
    weighted = [
        (4, st.fixed_dictionaries(dict(op=st.just("set"), h=h, k=keys, v=values))),
        (4, st.fixed_dictionaries(dict(op=st.sampled_from(["getitem", "get", "in", "del", "pop", "setdefault"]), h=h, k=keys, v=values, d=st.booleans()))),
        (2, st.fixed_dictionaries(dict(op=st.sampled_from(["len", "keys", "items", "iter", "values", "dict", "loop"]), h=h))),
        (1, st.fixed_dictionaries(dict(op=st.just("new"), h=h, v=st.dictionaries(keys, values, max_size=2), how=st.sampled_from(["", "dict", "kw"])))),
        (1, st.fixed_dictionaries(dict(op=st.just("update"), h=h, v=st.dictionaries(keys, values, max_size=3), how=st.sampled_from(["dict", "kw", "pairs"])))),
        (1, st.fixed_dictionaries(dict(op=st.sampled_from(["reset", "clear", "popitem", "remove"]), h=h))),
        (1, st.fixed_dictionaries(dict(op=st.just("refused"), h=h, k=keys, v=st.integers(0, 4)))),
        (1, st.fixed_dictionaries(dict(op=st.just("damage"), h=h, v=st.integers(0, len(DAMAGE) - 1)))),
        (1, st.fixed_dictionaries(dict(op=st.just("external"), h=h, v=st.dictionaries(keys, values, max_size=3)))),
        (1, st.fixed_dictionaries(dict(op=st.just("mode"), h=h, v=st.sampled_from(["beginner", "expert", "silent"]), save=st.booleans()))),
    ]
    return st.one_of([s for w, s in weighted for _ in range(w)])


def histories():
    return st.fixed_dictionaries(dict(config=st.integers(0, 3).map(lambda x: x > 0), handles=st.integers(1, 3), ops=st.lists(st.one_of([operations().map(lambda o: [o])] * 5 + [conflicts()]), min_size=1, max_size=20).map(
        lambda groups: [o for g in groups for o in g])))


def conflicts():
    """ one handle (or another program) changes a key, then another handle uses that key """
    h = st.integers(0, 3)
    def pair(a, b, k, v, w, how, op, d):
        first = dict(set=dict(op="set", h=a, k=k, v=v), update=dict(op="update", h=a, v={k: v}, how="dict"), external=dict(op="external", h=a, v={k: v}),
                     reset=dict(op="reset", h=a))
        first["del"] = dict(op="pop", h=a, k=k, v=None, d=True)
        return [first[how], dict(op=op, h=b, k=k, v=w, d=d)]
    return st.builds(pair, h, h, keys, values, values, st.sampled_from(["set", "set", "update", "external", "del", "reset"]),
                     st.sampled_from(["getitem", "get", "in", "del", "pop", "setdefault", "set"]), st.booleans())


def badValue(i):
    loop = []
    loop.append(loop)
    return [object(), {1, 2}, loop, 1j, {(1, 2): 3}][i]


def strict(v):
    """ JSON-like comparison that keeps types apart """
    if isinstance(v, dict):
        return ("d",) + tuple(sorted((k, strict(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(strict(x) for x in v)
    return (type(v).__name__, repr(v))


class Model:
    def __init__(self, path):
        self.path = path
        self.d = {}              # what everyone sees
        self.damaged = False
        self.past = {}           # key -> every value it ever had, to judge reads of a damaged file

    def remember(self):
        for k, v in self.d.items():
            self.past.setdefault(k, set()).add(strict(v))

    def fromDisk(self):
        with open(self.path) as f:
            return json.load(f)

    def allowed(self, k, v):
        return strict(v) in self.past.get(k, set())


def runHistory(c):
    import raytracing.utils as utils
    from raytracing.preferences import Preferences
    with home(c["config"]) as folder:
        hs = [Preferences() for _ in range(c["handles"])]
        path = hs[0].path
        check(os.path.realpath(path).startswith(os.path.realpath(folder)), "preferences outside of the home directory: {0}", path)
        m = Model(path)
        tags = set()

        def resync(k=MISSING, v=None):
            """ after writing to a damaged file: it is valid again, with what was written """
            d = m.fromDisk()
            check(isinstance(d, dict), "after writing, the file is not a dictionary: {0}", d)
            if k is not MISSING:
                check(k in d and strict(d[k]) == strict(v), "after writing {0} the file has {1}", k, d.get(k))
            for kk, vv in d.items():
                check((kk == k) or m.allowed(kk, vv), "value {0} appeared for {1} in the file", vv, kk)
            m.d, m.damaged = d, False

        for o in c["ops"]:
            op = o["op"]
            h = hs[o["h"] % len(hs)]
            k = o.get("k")
            m.remember()
            if m.damaged:
                tags.add("damaged file")
            if op == "new":
                v = o["v"] if o["how"] else {}
                how = o["how"]
                if how == "kw" and any(not isinstance(x, str) for x in v):
                    how = "dict"
                h = Preferences(copy.deepcopy(v)) if how == "dict" else Preferences(**copy.deepcopy(v))
                hs[o["h"] % len(hs)] = h
                if m.damaged:
                    if v:
                        for kk, vv in v.items():
                            m.past.setdefault(kk, set()).add(strict(vv))
                        resync()
                        for kk, vv in v.items():
                            check(strict(m.d.get(kk)) == strict(vv), "initial value of {0} is not saved", kk)
                else:
                    m.d.update(v)
            elif op == "set":
                v = copy.deepcopy(o["v"])
                h[k] = v
                check(strict(v) == strict(o["v"]), "the value given is changed")
                if m.damaged:
                    resync(k, o["v"])
                else:
                    m.d[k] = o["v"]
            elif op == "update":
                v = copy.deepcopy(o["v"])
                {"dict": lambda: h.update(v), "kw": lambda: h.update(**v), "pairs": lambda: h.update(list(v.items()))}[o["how"]]()
                if m.damaged:
                    if v:
                        for kk, vv in v.items():
                            m.past.setdefault(kk, set()).add(strict(vv))
                        resync()
                        for kk, vv in v.items():
                            check(strict(m.d.get(kk, MISSING)) == strict(vv), "updated value of {0} is not saved", kk)
                else:
                    m.d.update(v)
            elif op in ("getitem", "get", "in", "pop", "setdefault", "del"):
                if op == "getitem":
                    f = lambda: h[k]
                elif op == "get":
                    f = (lambda: h.get(k, "default")) if o["d"] else (lambda: h.get(k))
                elif op == "in":
                    f = lambda: k in h
                elif op == "pop":
                    f = (lambda: h.pop(k, "default")) if o["d"] else (lambda: h.pop(k))
                elif op == "setdefault":
                    f = lambda: h.setdefault(k, copy.deepcopy(o["v"]))
                else:
                    f = lambda: h.__delitem__(k)
                try:
                    got = f()
                    failed = False
                except KeyError:
                    failed, got = True, None
                raising = op in ("getitem", "del") or (op == "pop" and not o["d"])
                if m.damaged:
                    check(raising or not failed, "{0} fails with a damaged file", op)
                    if op in ("getitem", "get", "pop") and not failed:
                        fine = m.allowed(k, got) or (op != "getitem" and got == ("default" if o["d"] else None))
                        check(fine, "{0}({1}) with a damaged file: {2}, never a value of it", op, k, got)
                    if op == "setdefault":
                        check(m.allowed(k, got) or strict(got) == strict(o["v"]), "setdefault({0}) with a damaged file: {1}", k, got)
                        m.past.setdefault(k, set()).add(strict(o["v"]))
                    if op in ("pop", "del", "setdefault"):
                        try:
                            d = m.fromDisk()
                        except Exception:
                            d = None
                        if isinstance(d, dict):
                            resync()
                    continue
                present = k in m.d
                check(failed == (raising and not present), "{0}({1}) {2} while the key is {3}", op, k, "fails" if failed else "works", "present" if present else "absent")
                if failed:
                    continue
                if op == "in":
                    check(got == present, "{0} in preferences: {1}", k, got)
                elif op == "setdefault":
                    m.d.setdefault(k, o["v"])
                    check(strict(got) == strict(m.d[k]), "setdefault({0}): {1}, expected {2}", k, got, m.d[k])
                elif op != "del":
                    want = m.d[k] if present else ("default" if o["d"] else None)
                    check(strict(got) == strict(want), "{0}({1}): {2}, expected {3}", op, k, got, want)
                if op in ("del", "pop"):
                    m.d.pop(k, None)
            elif op in ("len", "keys", "items", "iter", "values", "dict", "loop"):
                if op == "loop":
                    got = {x: h[x] for x in h}
                else:
                    got = {"len": lambda: len(h), "keys": lambda: list(h.keys()), "items": lambda: dict(h.items()), "iter": lambda: list(h),
                           "values": lambda: list(h.values()), "dict": lambda: dict(h)}[op]()
                if m.damaged:
                    continue
                if op == "len":
                    check(got == len(m.d), "{0} preferences, expected {1}", got, len(m.d))
                elif op in ("keys", "iter"):
                    check(sorted(got) == sorted(m.d), "keys {0}, expected {1}", got, sorted(m.d))
                elif op == "values":
                    check(sorted(map(strict, got), key=repr) == sorted(map(strict, m.d.values()), key=repr), "values {0}, expected {1}", got, list(m.d.values()))
                else:
                    check(strict(got) == strict(m.d), "content {0}, expected {1}", got, m.d)
            elif op == "popitem":
                try:
                    got = h.popitem()
                except KeyError:
                    got = None
                if m.damaged:
                    try:
                        d = m.fromDisk()
                    except Exception:
                        d = None
                    if isinstance(d, dict):
                        resync()
                    continue
                check((got is None) == (not m.d), "popitem: {0} from {1}", got, m.d)
                if got is not None:
                    check(got[0] in m.d and strict(m.d[got[0]]) == strict(got[1]), "popitem: {0} is not in {1}", got, m.d)
                    del m.d[got[0]]
            elif op in ("reset", "clear"):
                h.resetPreferences() if op == "reset" else h.clear()
                m.d, m.damaged = {}, False
                check(os.path.exists(path), "no file after reset")
            elif op == "remove":
                if os.path.exists(path):
                    os.remove(path)
                m.d, m.damaged = {}, False
                tags.add("file removed")
            elif op == "refused":
                mustRaise((TypeError, ValueError, OverflowError), "a value that cannot be saved", h.__setitem__, k, badValue(o["v"]))
                tags.add("refused value")
            elif op == "damage":
                with open(path, "w", encoding="utf-8", errors="surrogatepass") as f:
                    f.write(DAMAGE[o["v"]])
                m.damaged = True
            elif op == "external":
                with open(path, "w") as f:
                    json.dump(o["v"], f)
                m.d, m.damaged = copy.deepcopy(o["v"]), False
            elif op == "mode":
                getattr(utils, o["v"] + "Mode")(saveToPrefs=o["save"])
                if o["save"]:
                    if m.damaged:
                        resync("mode", o["v"])
                    else:
                        m.d["mode"] = o["v"]
            # what a new handle, and the file, have
            if not m.damaged and os.path.exists(path):
                d = m.fromDisk()
                check(strict(d) == strict(m.d), "after {0} the file has {1}, expected {2}", op, d, m.d)
        if not m.damaged:
            fresh = Preferences()
            for x in hs + [fresh]:
                got = {k: x[k] for k in list(x.keys())}
                check(strict(got) == strict(m.d), "at the end a handle has {0}, expected {1}", got, m.d)
        if len(hs) > 1:
            tags.add("several handles")
    return sorted(tags) + ["nt"]


# -------------------------------------------------------------------- modes

def modeCases():
    mode = st.sampled_from(["beginner", "expert", "silent"])
    return st.fixed_dictionaries(dict(seq=st.lists(st.tuples(mode, st.booleans()), max_size=4), times=st.integers(1, 4), initial=st.sampled_from([None, None, "beginner", "expert", "silent", "other", 5, None, ["expert"]]),
                                      imp=st.booleans(), env=st.booleans(), other=st.dictionaries(st.sampled_from(["a", "b"]), leaf, max_size=2),
                                      damage=st.sampled_from([None, None, None] + list(range(len(DAMAGE)))),
                                      date=st.one_of(st.none(), st.just("now"), st.integers(0, 400), st.sampled_from(["yesterday", 12, None, "", [], "2020-01-01", "2020-01-01T10:00:00", "2020-01-01T10:00:00.5", {}])),
                                      whole=st.booleans()))


counter = [0]


def shown(category, times, places=1):
    """ how many times a warning repeated at one place is shown with the current filters """
    counter[0] += 1
    text = "message %d of process %d" % (counter[0], os.getpid())
    seen = []
    old = warnings.showwarning
    registry = {}
    warnings.showwarning = lambda message, cat, *args, **kw: seen.append(cat)
    try:
        for _ in range(times):
            warnings.warn_explicit(text, category, "somewhere.py", 12, registry=registry)
    finally:
        warnings.showwarning = old
    return len(seen)


def judgeMode(mode, times, what):
    from raytracing.utils import BeginnerHint, ExpertNote
    hints, notes, users, dep = (shown(x, times) for x in (BeginnerHint, ExpertNote, UserWarning, DeprecationWarning))
    if mode == "silent":
        check((hints, notes, users, dep) == (0, 0, 0, 0), "silent mode {0} shows {1} hints, {2} notes, {3} warnings", what, hints, notes, users)
    elif mode == "expert":
        check(hints == 0, "expert mode {0} shows {1} beginner hints", what, hints)
        check((notes, users, dep) == (1, 1, 1), "expert mode {0} shows {1} notes, {2} warnings, {3} deprecations, out of {4}", what, notes, users, dep, times)
    else:
        check(hints == times, "beginner mode {0} shows {1} hints out of {2}", what, hints, times)
        check((notes, users, dep) == (1, 1, 1), "beginner mode {0} shows {1} notes, {2} warnings, {3} deprecations, out of {4}", what, notes, users, dep, times)


def runModes(c):
    import raytracing
    import raytracing.utils as utils
    from raytracing.preferences import Preferences
    tags = []
    with home():
        p = Preferences()
        expected = dict(c["other"])
        if c["initial"] is not None:
            expected["mode"] = c["initial"]
        for k, v in expected.items():
            p[k] = v
        for mode, save in c["seq"]:
            f = getattr(utils, mode + "Mode")
            if save:
                f(saveToPrefs=True)
                expected["mode"] = mode
            else:
                f()
            judgeMode(mode, c["times"], "after " + str([m for m, _ in c["seq"]]))
            check(strict(dict(Preferences())) == strict(expected), "preferences after {0}Mode(saveToPrefs={1}): {2}, expected {3}", mode, save, dict(p), expected)
        if c["imp"]:
            # the next time the library is imported
            d = c["date"]
            if d == "now":
                d = datetime.now().isoformat()
            elif isinstance(d, int) and not isinstance(d, bool):
                d = (datetime.now() - timedelta(days=d / 10)).replace(microsecond=0 if c["whole"] else 123456).isoformat()
            if d is not None:
                p["lastVersionCheck"] = expected["lastVersionCheck"] = d
            if c["damage"] is not None:
                with open(p.path, "w", encoding="utf-8", errors="surrogatepass") as f:
                    f.write(DAMAGE[c["damage"]])
                expected, d = {}, None
                tags.append("damaged file")
            calls = []
            old, oldEnv = utils.checkLatestVersion, os.environ.pop("RAYTRACING_EXPERT", None)
            oldPrefs = raytracing.prefs
            utils.checkLatestVersion = lambda currentVersion: calls.append(currentVersion)
            if c["env"]:
                os.environ["RAYTRACING_EXPERT"] = "1"
            try:
                with warnings.catch_warnings():
                    importlib.reload(raytracing)
                    if c["env"]:
                        want = expected["mode"] = "expert"
                    elif expected.get("mode") in ("silent", "expert"):
                        want = expected["mode"]
                    else:
                        want = "beginner"
                        expected.setdefault("mode", "beginner")
                    judgeMode(want, c["times"], "when imported with mode " + str(expected.get("mode")))
                    got = dict(Preferences())
                    check(strict(dict(raytracing.prefs)) == strict(got), "prefs of the library: {0}, file {1}", dict(raytracing.prefs), got)
            finally:
                utils.checkLatestVersion = old
                raytracing.checkLatestVersion = old
                raytracing.prefs = oldPrefs
                os.environ.pop("RAYTRACING_EXPERT", None)
                if oldEnv is not None:
                    os.environ["RAYTRACING_EXPERT"] = oldEnv
            last = got.pop("lastVersionCheck", None)
            before = expected.pop("lastVersionCheck", None)
            check(strict(got) == strict(expected), "preferences after importing: {0}, expected {1}", got, expected)
            try:
                age = datetime.now() - datetime.fromisoformat(before)
            except (TypeError, ValueError):
                age = None
            if age is None or age > timedelta(days=2, seconds=10):
                check(len(calls) == 1, "last check of the version {0}: {1} checks", before, len(calls))
                check(abs(datetime.now() - datetime.fromisoformat(last)) < timedelta(hours=1), "the date of the check is not saved: {0}", last)
            elif timedelta(seconds=-3600) < age < timedelta(days=1):
                check(len(calls) == 0 and last == before, "version checked again after {0}", age)
            tags.append("imported")
    return ["nt"] + tags


FACETS = [
    Facet("histories", histories, runHistory, quick=1600, shards=4, rule="operations through several handles, with damage to the file"),
    Facet("modes", modeCases, runModes, quick=600, shards=3, rule="sequences of warning modes, saved or not, then importing the library"),
]
ASSUMPTIONS = ["keys are strings and values are what JSON can represent",
               "while the file is damaged, a read gives some value the key has had, or says it is absent; the next write makes the file valid again",
               "importing again is importlib.reload of the package in the same process, with the network call replaced by a recorder"]
