"""Facets (strategy + oracle), parallel runner, shrinking, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTV_REPO", "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis (last: never shadows)


class Violation(Exception):
    """The oracle says that the property is broken for this case."""


class NonTermination(BaseException):
    """A call into the code under test exceeded its deterministic step budget."""


class Skip(Exception):
    """The case falls outside of the domain of the property (counted, not judged)."""


UNEXPECTED = (TypeError, AttributeError, LookupError, ArithmeticError, ValueError)


class Facet:
    def __init__(self, name, strategy, run, quick=300, thorough=None, rule="", shards=2, steps=3_000_000):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 25
        self.rule, self.shards, self.steps = rule, shards, steps


# ---------------------------------------------------------------- comparisons

def isnum(x):
    if isinstance(x, bool):
        return False
    try:
        complex(x)
        return True
    except Exception:
        return False


def same(got, want, tol=0.0):
    """ got == want within tol (absolute), treating inf, nan and None explicitly """
    if want is None or got is None:
        return got is None and want is None
    if not isnum(got):
        return False
    if isinstance(want, complex) or isinstance(got, complex):
        got, want = complex(got), complex(want)
        return same(got.real, want.real, tol) and same(got.imag, want.imag, tol)
    got, want = float(got), float(want)
    if math.isinf(want) or math.isinf(got) or math.isnan(got) or math.isnan(want):
        return got == want
    return abs(got - want) <= tol


def check(cond, message, *args):
    if not cond:
        raise Violation(message.format(*args) if args else message)


def expect(got, want, tol, what):
    if not same(got, want, tol):
        raise Violation("{0}: got {1!r}, expected {2!r} (tolerance {3:g})".format(what, got, want, tol))


def rel(got, want, rtol, what, atol=1e-12):
    scale = abs(want) if isnum(want) and not (isinstance(want, float) and math.isinf(want)) else 0
    expect(got, want, rtol * scale + atol, what)


def mustRaise(types, what, f, /, *args, **kwargs):
    """ f must raise one of types """
    try:
        result = f(*args, **kwargs)
    except Skip:
        raise
    except types:
        return
    except NonTermination:
        raise
    except Exception as err:
        raise Violation("{0}: raised {1} ({2}) instead of {3}".format(what, type(err).__name__, err, types))
    raise Violation("{0}: accepted (returned {1!r})".format(what, result))


# ------------------------------------------------- deterministic step budget

class StepBudget:
    """ Counts backward jumps in code of the repository with sys.monitoring: a
    deterministic measure of work, used to decide non-termination. """
    TOOL = 4

    def __init__(self, limit):
        self.limit, self.count = limit, 0
        prefix = os.path.join(REPO, "raytracing")
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "rtv")

        def onJump(code, offset, dest):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            if dest > offset:
                return mon.DISABLE
            self.count += 1
            if self.count > self.limit:
                raise NonTermination("more than {0} loop iterations in the code under test".format(self.limit))
        def onStart(code, offset):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            self.count += 1
            if self.count > self.limit:
                raise NonTermination("more than {0} calls in the code under test".format(self.limit))
        mon.register_callback(self.TOOL, mon.events.JUMP, onJump)
        mon.register_callback(self.TOOL, mon.events.PY_START, onStart)
        mon.set_events(self.TOOL, mon.events.JUMP | mon.events.PY_START)

    def reset(self):
        self.count = 0


_budget = None


def execute(facet, case):
    """ Run one case. Returns (status, tags or message); status in ok/skip/violation/error """
    global _budget
    if _budget is None or _budget.limit != facet.steps:
        if _budget is None:
            _budget = StepBudget(facet.steps)
        _budget.limit = facet.steps
    _budget.reset()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tags = facet.run(case)
        return "ok", list(tags or [])
    except Skip as err:
        return "skip", [str(err) or "skip"]
    except Violation as err:
        return "violation", str(err)
    except NonTermination as err:
        return "violation", "does not terminate: " + str(err)
    except Exception as err:
        frames = traceback.extract_tb(err.__traceback__)
        inRepo = [f for f in frames if f.filename.startswith(os.path.join(REPO, "raytracing"))]
        text = "{0}: {1}".format(type(err).__name__, err)
        if inRepo:
            where = inRepo[-1]
            return "violation", "unexpected {0} from {1} ({2})".format(text, os.path.basename(where.filename), where.name)
        if isinstance(err, UNEXPECTED):
            # Never happens on a tree where the property holds: a result is None, of another type, too short...
            where = frames[-1]
            return "violation", "a result of unexpected form: {0} (line {1} of {2})".format(text, where.lineno, os.path.basename(where.filename))
        return "error", text + "\n" + "".join(traceback.format_exc())
    finally:
        _budget.reset()


# ---------------------------------------------------------------- one shard

class _Fail(Exception):
    pass


class _HarnessError(Exception):
    pass


def derive(seed, *parts):
    h = hashlib.sha256(("%d|" % seed + "|".join(map(str, parts))).encode()).digest()
    return int.from_bytes(h[:6], "big")


def canonical(case):
    return json.dumps(case, sort_keys=True, default=repr)


def runShard(prop, facetName, shard, seed, examples):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40
    facet = facetsOf(prop)[facetName]
    started = time.time()
    stats = dict(evaluations=0, skipped=0, nontrivial=set(), tags={}, samples=[], failure=None, error=None)
    lastFailure = {}

    def one(case):
        status, info = execute(facet, case)
        if status == "violation":
            lastFailure["case"], lastFailure["message"] = case, info
            raise _Fail(info.split(":")[0][:0] or "violation")
        if status == "error":
            lastFailure["case"], lastFailure["message"] = case, info
            raise _HarnessError(info)
        stats["evaluations"] += 1
        if status == "skip":
            stats["skipped"] += 1
            stats["tags"]["skip: " + info[0]] = stats["tags"].get("skip: " + info[0], 0) + 1
            return
        for t in set(info):
            stats["tags"][t] = stats["tags"].get(t, 0) + 1
        if "nt" in info:
            text = canonical(case)
            h = hashlib.sha1(text.encode()).digest()[:8]
            if h not in stats["nontrivial"]:
                stats["nontrivial"].add(h)
                if len(stats["samples"]) < 3 and len(text) < 1500:
                    stats["samples"].append(case)

    test = hypothesis.given(facet.strategy())(one)
    test = hypothesis.seed(derive(seed, prop, facetName, shard))(test)
    test = settings(max_examples=examples, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(test)
    sink = open(os.devnull, "w")
    stdout, sys.stdout = sys.stdout, sink
    try:
        test()
    except _Fail:
        stats["failure"] = dict(lastFailure)
    except _HarnessError as err:
        stats["error"] = str(err) + "\ncase: " + canonical(lastFailure.get("case"))
    except hypothesis.errors.Flaky as err:
        # The verdict changed on replay of the same case: shared state in the code under test
        if lastFailure.get("case") is not None:
            stats["failure"] = dict(lastFailure)
            stats["failure"]["message"] += " (not reproducible on an immediate second run of the same case)"
        else:
            stats["error"] = "flaky: %r" % err
    except BaseException as err:
        if isinstance(err, hypothesis.errors.HypothesisException) and lastFailure.get("case") is not None:
            stats["failure"] = dict(lastFailure)
        else:
            stats["error"] = traceback.format_exc()
    finally:
        sys.stdout = stdout
    stats["wall"] = time.time() - started
    return stats


def _worker(args):
    prop, facetName, shard, seed, examples = args
    try:
        return args, runShard(prop, facetName, shard, seed, examples)
    except BaseException:
        return args, dict(evaluations=0, skipped=0, nontrivial=set(), tags={}, samples=[], failure=None,
                          error=traceback.format_exc(), wall=0)


# ---------------------------------------------------------------- properties

_cache = {}


def facetsOf(prop):
    if prop not in _cache:
        module = importlib.import_module("checks." + prop.lower())
        _cache[prop] = ({f.name: f for f in module.FACETS}, module)
    return _cache[prop][0]


def importCode():
    sys.path.insert(0, VERIF)
    import raytracing
    path = os.path.realpath(raytracing.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("raytracing imported from " + path)
    import time as t
    t.sleep = lambda s: None     # save() sleeps 1 s per call
    warnings.simplefilter("ignore")


def knownFindings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def writeReplay(prop, facet, failure, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{0}-{1}.json".format(prop, facet))
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=facet, seed=seed, message=failure["message"], case=failure["case"]), f, indent=1)
    return path


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--facet")
    parser.add_argument("--examples", type=int)
    parser.add_argument("--jobs", type=int, default=8)
    parser.add_argument("-v", action="store_true")
    a = parser.parse_args(argv)
    prop, tier = a.property, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    started = time.time()

    try:
        importCode()
    except Exception:
        # The package of the working tree cannot even be imported
        traceback.print_exc()
        return 2
    try:
        facets = facetsOf(prop)
    except Exception:
        traceback.print_exc()
        return 2

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        status, info = execute(facets[r["facet"]], r["case"])
        print("replay", status, info)
        if status == "violation":
            print("VIOLATION property={0} replay={1}".format(prop, os.path.abspath(a.replay)))
            return 1
        return 0 if status in ("ok", "skip") else 2

    code = 0
    violations = 0
    # Regression cases: minimal reproductions of repaired or once-missed defects
    regressions = 0
    path = os.path.join(VERIF, "regressions", prop + ".json")
    if os.path.exists(path) and not a.facet:
        with open(path) as f:
            for r in json.load(f):
                status, info = execute(facets[r["facet"]], r["case"])
                regressions += 1
                if status == "violation":
                    violations += 1
                    replay = writeReplay(prop, r["facet"] + "-regression", dict(message=info, case=r["case"]), seed)
                    with open(replay) as g:
                        d = json.load(g)
                    d["facet"] = r["facet"]
                    with open(replay, "w") as g:
                        json.dump(d, g, indent=1)
                    print("{0}/{1} (regression case): {2}".format(prop, r["facet"], info))
                    print("VIOLATION property={0} replay={1}".format(prop, replay))
                    code = 1
                elif status == "error":
                    print(info, file=sys.stderr)
                    return 2

    known = 0
    for k in knownFindings(prop):
        status, info = execute(facets[k["facet"]], k["case"])
        if status == "violation":
            known += 1
            print("KNOWN-FINDING: property={0} {1}".format(prop, k["what"]))
        elif status == "error":
            print(info, file=sys.stderr)
            return 2
        else:
            print("note: listed finding no longer fails: property={0} {1}".format(prop, k["what"]))

    jobs = []
    for f in facets.values():
        if a.facet and f.name != a.facet:
            continue
        if f.quick == 0:
            continue
        total = a.examples or (f.quick if tier == "quick" else f.thorough)
        shards = f.shards if tier == "quick" else max(f.shards, 8)
        shards = max(1, min(shards, total))
        for s in range(shards):
            jobs.append((prop, f.name, s, seed, max(1, total // shards)))
    results = []
    if a.jobs <= 1:
        results = [_worker(j) for j in jobs]
    else:
        import concurrent.futures as cf
        ctx = multiprocessing.get_context("fork")
        with cf.ProcessPoolExecutor(max_workers=min(a.jobs, len(jobs)) or 1, mp_context=ctx) as pool:
            for fut in [pool.submit(_worker, j) for j in jobs]:
                try:
                    results.append(fut.result())
                except Exception as err:
                    print("worker died:", err, file=sys.stderr)
                    code = code or 2

    byFacet, errors = {}, []
    for (p_, name, s, sd, n), st in results:
        d = byFacet.setdefault(name, dict(evaluations=0, skipped=0, nontrivial=set(), tags={}, samples=[], failures=[], wall=0))
        d["evaluations"] += st["evaluations"]
        d["skipped"] += st["skipped"]
        d["nontrivial"] |= st["nontrivial"]
        d["wall"] += st["wall"]
        for t, c in st["tags"].items():
            d["tags"][t] = d["tags"].get(t, 0) + c
        d["samples"] += st["samples"]
        if st["failure"]:
            d["failures"].append(st["failure"])
        if st["error"]:
            errors.append((name, st["error"]))

    for name, d in byFacet.items():
        if d["failures"]:
            violations += 1
            best = min(d["failures"], key=lambda x: len(canonical(x["case"])))
            replay = writeReplay(prop, name, best, seed)
            print("{0}/{1}: {2}".format(prop, name, best["message"]))
            print("  case: " + canonical(best["case"])[:2000])
            print("VIOLATION property={0} replay={1}".format(prop, replay))
            code = 1
    for name, text in errors:
        print("HARNESS ERROR in {0}/{1}:\n{2}".format(prop, name, text), file=sys.stderr)
        if code == 0:
            code = 2

    samples = []
    for name, d in byFacet.items():
        for s in d["samples"][:2]:
            samples.append(dict(facet=name, case=s))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in byFacet.values()) + regressions,
            distinct_nontrivial=sum(len(d["nontrivial"]) for d in byFacet.values()),
            rule=" | ".join("{0}: {1}".format(f.name, f.rule) for f in facets.values() if f.rule),
            samples=samples,
            facets={name: dict(evaluations=d["evaluations"], outside_domain=d["skipped"],
                               distinct_nontrivial=len(d["nontrivial"]),
                               classes={k: d["tags"][k] for k in sorted(d["tags"])},
                               cpu_s=round(d["wall"], 2)) for name, d in byFacet.items()},
            known_findings_replayed=known, regression_cases=regressions),
        assumptions=getattr(_cache[prop][1], "ASSUMPTIONS", []),
        wall_s=round(time.time() - started, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
    c = evidence["coverage"]
    print("{0} [{1}, seed {2}]: {3} evaluations, {4} distinct non-trivial, {5:.1f} s, {6}".format(
        prop, tier, seed, c["evaluations"], c["distinct_nontrivial"], evidence["wall_s"],
        {0: "held", 1: "VIOLATED", 2: "HARNESS ERROR"}[code]))
    if a.v:
        print(json.dumps(c["facets"], indent=1))
    return code
