"""C29: the version check tells of a newer release exactly when there is one, and never gets in the way."""
import contextlib
import io
import json
import re
import socket
import ssl
import urllib.error
import urllib.request
from hypothesis import strategies as st
from vlib.harness import Facet, check

number = st.one_of(st.integers(0, 3), st.integers(0, 12), st.integers(90, 110))
version = st.tuples(st.lists(number, min_size=1, max_size=4).map(lambda v: ".".join(map(str, v))),
                    st.one_of(st.just(""), st.just(""), st.tuples(st.sampled_from([".dev", "a", "b", "rc", ".post"]), st.integers(0, 3)).map(lambda s: s[0] + str(s[1])))).map("".join)
STAGES = [".dev", "a", "b", "rc", "", ".post"]      # in the order of PEP 440


def key(v):
    numbers, stage, k = re.fullmatch(r"([\d.]*\d)(\.dev|a|b|rc|\.post|)(\d*)", v).groups()
    parts = [int(x) for x in numbers.split(".")]
    while parts and parts[-1] == 0:
        parts.pop()
    return parts, STAGES.index(stage), int(k or 0)


class Response(io.BytesIO):
    status = code = 200
    headers = {}

    def getcode(self):
        return 200

    def info(self):
        return {}


@contextlib.contextmanager
def pypi(answer):
    """ every request through urllib gets answer() instead of the network """
    opened = []
    def fake(self, fullurl, data=None, timeout=None):
        opened.append(fullurl if isinstance(fullurl, str) else fullurl.full_url)
        return answer()
    old = urllib.request.OpenerDirector.open
    urllib.request.OpenerDirector.open = fake
    try:
        yield opened
    finally:
        urllib.request.OpenerDirector.open = old


def ask(current, answer):
    import raytracing.utils as utils
    out = io.StringIO()
    with pypi(answer) as opened, contextlib.redirect_stdout(out):
        result = utils.checkLatestVersion(currentVersion=current)
    return result, out.getvalue(), opened


def body(releases, latest):
    # the form of https://pypi.org/pypi/<name>/json: files per release, and the latest one
    return json.dumps(dict(info=dict(name="raytracing", version=latest), releases={v: [dict(filename="raytracing-%s.tar.gz" % v, yanked=False)] for v in releases},
                           urls=[])).encode()


def cases():
    return st.fixed_dictionaries(dict(releases=st.sampled_from([8] * 9 + [90]).flatmap(lambda m: st.lists(version, min_size=m if m > 8 else 1, max_size=m, unique_by=lambda v: repr(key(v)))), order=st.sampled_from(["drawn", "text", "published", "latest first"]),
                                      current=st.one_of(version, st.integers(0, 7))))


def run(c):
    releases = list(c["releases"])
    ordered = sorted(releases, key=key)
    if c["order"] == "text":
        releases.sort()
    elif c["order"] == "published":
        releases = ordered
    elif c["order"] == "latest first":
        releases = ordered[::-1]
    latest = ordered[-1]
    current = releases[c["current"] % len(releases)] if isinstance(c["current"], int) else c["current"]
    result, text, opened = ask(current, lambda: Response(body(releases, latest)))
    check(len(opened) == 1 and "pypi.org" in opened[0] and "raytracing" in opened[0], "asked {0}", opened)
    newer = key(latest) > key(current)
    what = "releases {0}, using {1}".format(releases, current)
    check(bool(result) == newer, "{0}: a newer version is reported: {1} ({2!r})", what, result, text)
    if newer:
        check(latest in text and current in text, "{0}: the message is {1!r}", what, text)
    else:
        check(text == "", "{0}: the message is {1!r}", what, text)
    return ["nt", c["order"]] + (["newer"] if newer else []) if len(releases) > 1 else []


FAULTS = {
    "no network": lambda: urllib.error.URLError("unreachable"),
    "certificate": lambda: urllib.error.URLError(ssl.SSLCertVerificationError("certificate verify failed")),
    "ssl": lambda: ssl.SSLError("bad handshake"),
    "timeout": lambda: socket.timeout("timed out"),
    "reset": lambda: ConnectionResetError("reset"),
    "http": lambda: urllib.error.HTTPError("https://pypi.org", 503, "unavailable", {}, None),
}


def faultCases():
    return st.one_of(
        st.fixed_dictionaries(dict(fault=st.sampled_from(sorted(FAULTS)), current=version)),
        st.fixed_dictionaries(dict(fault=st.just("cut"), at=st.integers(0, 60), current=version)),
        st.fixed_dictionaries(dict(fault=st.just("text"), body=st.text(max_size=12), current=version)),
        st.fixed_dictionaries(dict(fault=st.just("json"), body=st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.just("1.0")),
                                                                         lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(["releases", "info", "x"]), x, max_size=3)), max_leaves=5),
                                   current=version)))


def runFault(c):
    f = c["fault"]
    if f in FAULTS:
        def answer():
            raise FAULTS[f]()
    elif f == "cut":
        whole = body(["999.0", "1.0"], "999.0")
        data = whole[:c["at"]]
        answer = lambda: Response(data)
    elif f == "text":
        answer = lambda: Response(c["body"].encode())
    else:
        answer = lambda: Response(json.dumps(c["body"]).encode())
    result, text, opened = ask(c["current"], answer)      # it must not raise
    if f in FAULTS or f == "cut":
        check(not result, "{0}: a newer version is reported ({1!r})", f, text)
    if result:
        check("1.0" in text, "{0}: a newer version is reported: {1!r}", c, text)
    return ["nt", f]


FACETS = [
    Facet("releases", cases, run, quick=2000, shards=2, rule="at least two releases"),
    Facet("faults", faultCases, runFault, quick=500, shards=1, rule="every answer that is missing, cut or malformed"),
]
