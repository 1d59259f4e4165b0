"""Runner for the property-based checks.

A check consists of obligations.
An obligation is a function that takes one JSON-serializable case and raises an exception if the
property does not hold for that case.
Cases are either generated (and shrunk) by Hypothesis or enumerated completely.
"""

import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
sys.path.insert(0, str(REPO))
# Appended, so that numpy and scipy are those of the environment of the library.
sys.path.append(TOOLS)

import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings  # noqa: E402
from hypothesis.errors import HypothesisException, UnsatisfiedAssumption  # noqa: E402

OBLIGATIONS = {}
RULES = {}


class Violation(AssertionError):
    """The library contradicts the oracle

    `key` identifies the failing input in the list of known findings.
    """

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class NoResult(Violation):
    """The library did not return in time"""


# Limits of one case, far above the time and memory that any of them needs
TIME_LIMIT = 150  # s
MEMORY_LIMIT = 12 * 2**30
# Set as soon as one worker process ran into the time limit
interrupted = multiprocessing.get_context("fork").Event()


def on_alarm(*_):
    raise NoResult("no result within {:d} s".format(TIME_LIMIT))


def rule(prop, text):
    RULES[prop] = text


def obligation(prop, name, strategy=None, cases=None, quick=200, thorough=None):
    """Register an obligation of a property

    Parameters:

    - `strategy`, Hypothesis strategy for cases, or
    - `cases`, callable that returns the list of all cases.
    - `quick`, `thorough`, number of generated cases per shard in the two tiers.
    """

    def decorator(function):
        OBLIGATIONS.setdefault(prop, []).append(
            dict(
                name=name,
                strategy=strategy,
                cases=cases,
                quick=quick,
                thorough=thorough or 10 * quick,
                function=function,
            )
        )
        return function

    return decorator


# Assertions ---------------------------------------------------------------------------------------


def require(condition, message, key=None):
    if not condition:
        raise Violation(message, key)


def require_close(actual, expected, rtol, atol=0.0, what="value", key=None):
    """Compare finite numbers or arrays, with tolerances that may be arrays as well"""
    actual = np.asarray(actual, dtype=float)
    expected = np.asarray(expected, dtype=float)
    try:
        shape = np.broadcast_shapes(actual.shape, expected.shape, np.shape(rtol), np.shape(atol))
    except ValueError:
        raise Violation(
            "{}: shape {} instead of {}".format(what, actual.shape, expected.shape), key
        )
    actual = np.broadcast_to(actual, shape)
    expected = np.broadcast_to(expected, shape)
    tolerance = np.broadcast_to(rtol * np.abs(expected) + atol, shape)
    with np.errstate(invalid="ignore"):
        good = (np.abs(actual - expected) <= tolerance) | (actual == expected)
    if not good.all():
        i = np.unravel_index(np.argmin(good), shape) if shape else ()
        raise Violation(
            "{}: {!r} instead of {!r} (tolerance {:.3g}{})".format(
                what,
                float(actual[i]),
                float(expected[i]),
                float(tolerance[i]),
                ", index {}".format(tuple(int(j) for j in i)) if shape else "",
            ),
            key,
        )


def quiet():
    """Context in which all warnings are recorded instead of printed"""
    context = warnings.catch_warnings(record=True)

    class Quiet:
        def __enter__(self):
            record = context.__enter__()
            warnings.simplefilter("always")
            self.errstate = np.errstate(all="warn")
            self.errstate.__enter__()
            return record

        def __exit__(self, *args):
            self.errstate.__exit__(*args)
            return context.__exit__(*args)

    return Quiet()


# Execution ----------------------------------------------------------------------------------------


def derived_seed(*parts):
    digest = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(digest[:8], "big")


def describe(error):
    if isinstance(error, Violation):
        return str(error)
    where = ""
    for frame in traceback.extract_tb(error.__traceback__):
        if "/ries/" in frame.filename:
            where = " at {}:{}".format(frame.filename, frame.lineno)
    return "{}: {}{}".format(type(error).__name__, error, where)


class Recorder:
    """Counts cases and remembers the last failing one"""

    def __init__(self, ob):
        self.ob = ob
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.failure = None
        self.first_failure_time = None

    def run(self, case):
        self.evaluations += 1
        text = json.dumps(case, sort_keys=True)
        try:
            signal.signal(signal.SIGALRM, on_alarm)
            signal.alarm(TIME_LIMIT)
            try:
                with quiet():
                    nontrivial = self.ob["function"](json.loads(text))
            finally:
                signal.alarm(0)
        except (UnsatisfiedAssumption, KeyboardInterrupt):
            raise
        except Exception as error:
            self.failure = dict(
                case=json.loads(text),
                message=describe(error),
                key=getattr(error, "key", None),
                trace=traceback.format_exc(),
            )
            if self.first_failure_time is None:
                self.first_failure_time = time.time()
            if isinstance(error, NoResult):
                # Shrinking would take too long.
                interrupted.set()
            raise
        if nontrivial is None or nontrivial:
            self.nontrivial.add(hashlib.sha1(text.encode()).digest()[:10])
            if len(self.samples) < 2 and len(text) < 3000:
                self.samples.append(json.loads(text))


def run_task(task):
    """Run one shard of one obligation"""
    prop, index, shard, shards, tier, base_seed, known = task
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    ob = OBLIGATIONS[prop][index]
    recorder = Recorder(ob)
    result = dict(name=ob["name"], failure=None, known=[], error=None, generated=0)
    start = time.time()
    try:
        if ob["cases"] is not None:
            for i, case in enumerate(ob["cases"]()):
                if i % shards != shard:
                    continue
                if interrupted.is_set():
                    break
                recorder.failure = None
                try:
                    recorder.run(case)
                except Exception:
                    if recorder.failure is None:
                        raise
                    if recorder.failure["key"] in known:
                        result["known"].append(recorder.failure["key"])
                    else:
                        result["failure"] = recorder.failure
                        break
        else:
            count = ob["quick"] if tier == "quick" else ob["thorough"]

            @seed(derived_seed(base_seed, prop, ob["name"], shard))
            @settings(
                max_examples=count,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                verbosity=Verbosity.quiet,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
            )
            @given(ob["strategy"])
            def test(case):
                # Bound the time for shrinking. The last failing case is kept.
                if interrupted.is_set():
                    return
                if (
                    recorder.first_failure_time is not None
                    and time.time() - recorder.first_failure_time > 60.0
                ):
                    return
                recorder.run(case)

            try:
                test()
            except (Exception, BaseExceptionGroup):
                if recorder.failure is None:
                    raise
                result["failure"] = recorder.failure
            else:
                result["failure"] = recorder.failure
    except Exception:
        result["error"] = traceback.format_exc()
    result.update(
        evaluations=recorder.evaluations,
        nontrivial=recorder.nontrivial,
        samples=recorder.samples,
        wall_s=time.time() - start,
    )
    return result


def known_findings(prop):
    """Keys and descriptions of the known findings for a property"""
    known = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                fields = line.split(" ", 3)
                if fields[1] == "property=" + prop and fields[2].startswith("key="):
                    known[fields[2][4:]] = fields[3]
    return known


def replay(prop, path):
    data = json.loads(Path(path).read_text())
    for ob in OBLIGATIONS[prop]:
        if ob["name"] == data["obligation"]:
            recorder = Recorder(ob)
            try:
                recorder.run(data["case"])
            except Exception:
                print(recorder.failure["message"])
                print("VIOLATION property={} replay={}".format(prop, path))
                return 1
            print("The case holds.")
            return 0
    print("No such obligation:", data["obligation"])
    return 2


def main(prop, tier, base_seed):
    import ries

    if not Path(ries.__file__).resolve().is_relative_to(REPO.resolve()):
        print("ries was not imported from", REPO, file=sys.stderr)
        return 2

    start = time.time()
    known = known_findings(prop)
    shards = 4 if tier == "quick" else 8
    tasks = [
        (prop, i, shard, shards, tier, base_seed, set(known))
        for shard in range(shards)
        for i in range(len(OBLIGATIONS[prop]))
    ]
    context = multiprocessing.get_context("fork")
    with context.Pool(min(8, len(tasks))) as pool:
        results = pool.map(run_task, tasks, chunksize=1)

    for result in results:
        if result["error"]:
            print(result["error"], file=sys.stderr)
    errors = [r for r in results if r["error"]]

    statistics = {}
    samples = []
    distinct = set()
    for result in results:
        entry = statistics.setdefault(
            result["name"], dict(evaluations=0, distinct_nontrivial=set(), wall_s=0.0)
        )
        entry["evaluations"] += result["evaluations"]
        entry["distinct_nontrivial"] |= result["nontrivial"]
        entry["wall_s"] = round(entry["wall_s"] + result["wall_s"], 3)
        distinct |= {(result["name"], key) for key in result["nontrivial"]}
    for name, entry in statistics.items():
        entry["distinct_nontrivial"] = len(entry["distinct_nontrivial"])
        for result in results:
            if result["name"] == name and result["samples"]:
                samples.append(dict(obligation=name, case=result["samples"][-1]))
                break

    evidence_dir = VERIF / "evidence"
    evidence_dir.mkdir(exist_ok=True)
    violations = []
    # The smallest failing case of each obligation becomes its replay file.
    failures = {}
    for result in results:
        if result["failure"]:
            old = failures.get(result["name"])
            if old is None or len(json.dumps(result["failure"]["case"])) < len(
                json.dumps(old["case"])
            ):
                failures[result["name"]] = result["failure"]
    for i, (name, failure) in enumerate(failures.items()):
        path = evidence_dir / "replay_{}_{}.json".format(prop, i)
        path.write_text(
            json.dumps(
                dict(
                    property=prop,
                    obligation=name,
                    case=failure["case"],
                    message=failure["message"],
                    trace=failure["trace"],
                    seed=base_seed,
                    how="bash /verif/check.sh {} --replay {}".format(prop, path),
                ),
                indent=1,
            )
        )
        violations.append(dict(obligation=name, message=failure["message"], replay=str(path)))

    known_hit = sorted({key for r in results for key in r["known"]})
    evidence = dict(
        property=prop,
        tier=tier,
        seed=base_seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(e["evaluations"] for e in statistics.values()),
            distinct_nontrivial=len(distinct),
            rule=RULES[prop],
            samples=samples,
            obligations_run=statistics,
        ),
        assumptions=[
            "Cases come from the generators in /verif/checks; other inputs are not covered.",
            "Known findings met in this run: " + (", ".join(known_hit) or "none"),
        ],
        violations=len(violations),
        wall_s=round(time.time() - start, 3),
    )
    (evidence_dir / "{}.json".format(prop)).write_text(json.dumps(evidence, indent=1))

    for key in known_hit:
        print("KNOWN-FINDING: property={} {}".format(prop, known[key]))
    for violation in violations:
        print("{}: {}".format(violation["obligation"], violation["message"]))
    if violations:
        print("VIOLATION property={} replay={}".format(prop, violations[0]["replay"]))
        return 1
    if errors:
        return 3
    print(
        "{}: {} cases, {} distinct and non-trivial, {:.1f} s".format(
            prop,
            evidence["coverage"]["evaluations"],
            len(distinct),
            evidence["wall_s"],
        )
    )
    return 0
