"""
The explorer: exhaustive enumeration of the cases of a property, each executed
on the real code, in parallel, with counters, evidence and replays.

A property module provides

    TITLE, LEVEL, BOUNDS (dict of text), ASSUMPTIONS (list of text)
    cases(tier) -> iterable of JSON-able cases, simplest first
    run(case, cov)  executes one case on the real code, counts in ``cov`` and
                    raises Violation if the property is broken
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback

VERIF = os.environ.get("MC_VERIF", "/verif")


class Violation(Exception):
    """The property does not hold on an execution"""

    def __init__(self, what, **details):
        super().__init__(what)
        self.what = what
        self.details = details


class HarnessError(Exception):
    """The harness could not do what it meant to; not a verdict"""


def check(cond, what, **details):
    if not cond:
        raise Violation(what, **details)


class Coverage:
    """Counters of one or many executions"""

    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.notes = {}

    def state(self, key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(digest(key))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes |= o.outcomes
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v


def digest(key):
    if not isinstance(key, (bytes, str)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode()
    return hashlib.blake2b(key, digest_size=8).digest()


_module = None


def _execute(case, cov):
    """Run a case. Returns None or the violation as (what, details)"""
    cov.executions += 1
    try:
        _module.run(case, cov)
    except Violation as v:
        return (v.what, v.details, traceback.format_exc(limit=-6))
    except HarnessError:
        raise
    except Exception as e:  # the code raised where it must not
        return (
            "raised %s: %s" % (type(e).__name__, str(e)[:300]),
            {},
            traceback.format_exc(limit=-8),
        )
    return None


def _own_directory():
    """Every worker has a directory of its own to write to"""
    os.chdir(tempfile.mkdtemp(prefix="worker", dir=os.environ.get("MC_WORK")))


def _worker(chunk):
    cov = Coverage()
    bad = []
    try:
        for case in chunk:
            r = _execute(case, cov)
            if r is not None:
                bad.append((case, r))
                if len(bad) >= 3 * 10:
                    break
    except BaseException as e:
        return ("error", traceback.format_exc())
    return ("ok", cov, bad)


def chunked(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def load_known(prop):
    """The known findings of a property: list of (case key prefix, text)"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line.startswith("finding: property=%s " % prop):
            # finding: property=<id> match=<text in the violation> <what fails>
            rest = line.split(" ", 2)[2]
            assert rest.startswith("match=")
            match, what = rest[len("match=") :].split(" ", 1)
            out.append((match, what))
    return out


def explore(prop, tier, replay=None, workers=None):
    global _module
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    _module = importlib.import_module("mc.%s" % prop.lower())
    if hasattr(_module, "setup"):
        _module.setup()
    known = load_known(prop)
    known_hit = {}
    total = Coverage()
    violations = []
    samples = []

    if replay is not None:
        doc = json.load(open(replay))
        cases = [doc["case"]]
        workers = 1
    else:
        cases = _module.cases(tier)

    workers = workers or min(8, os.cpu_count() or 1)
    size = getattr(_module, "CHUNK", 16)

    def note_sample(chunk):
        for c in chunk:
            if len(samples) < 3:
                samples.append(c)

    def gen():
        for k, chunk in enumerate(chunked(cases, size)):
            # a few of the actual cases, spread over the run
            if k in (0, 1) or (k & (k - 1)) == 0:
                if len(samples) < 12:
                    samples.append(chunk[-1])
            yield chunk

    stop = False

    def collect(res):
        nonlocal stop
        if res[0] == "error":
            sys.stderr.write(res[1])
            raise HarnessError("the harness failed")
        _, cov, bad = res
        total.merge(cov)
        for case, (what, details, tb) in bad:
            key = what + " " + json.dumps(case, sort_keys=True, default=str)
            for match, text in known:
                if match in key:
                    known_hit[match] = text
                    break
            else:
                violations.append((case, what, details, tb))
                if len(violations) >= 3:
                    stop = True

    if workers == 1:
        _own_directory()
        for chunk in gen():
            collect(_worker(chunk))
            if stop:
                break
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(workers, initializer=_own_directory) as pool:
            for res in pool.imap_unordered(_worker, gen()):
                collect(res)
                if stop:
                    pool.terminate()
                    break

    finish = getattr(_module, "finish", None)
    extra = finish(total) if finish and replay is None and not stop else {}

    wall = time.time() - t0
    for match, text in known:
        if match in known_hit or replay is None:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))

    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[0], default=str)))
        case, what, details, tb = violations[0]
        doc = dict(
            property=prop,
            what=what,
            details={k: str(v) for k, v in details.items()},
            case=case,
            traceback=tb,
            how="bash %s/run.sh %s --replay <this file>" % (VERIF, prop),
        )
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(
            d, "%s-%s.json" % (prop, digest(json.dumps(case, sort_keys=True, default=str)).hex())
        )
        if replay is not None:
            path = replay
        else:
            with open(path, "w") as f:
                json.dump(doc, f, indent=1, default=str)
        print("%s: %s" % (prop, what))
        for k, v in details.items():
            print("   %s: %s" % (k, str(v)[:400]))
        print("   case: %s" % json.dumps(case, default=str)[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))

    if replay is None:
        write_evidence(prop, tier, seed, total, samples, wall, len(violations), extra, stop)
        print(
            "%s: %d executions, %d states, %d transitions, %d outcomes, %.1f s%s"
            % (
                prop,
                total.executions,
                len(total.states),
                total.transitions,
                len(total.outcomes),
                wall,
                " (stopped)" if stop else "",
            )
        )
        for k, v in sorted(total.notes.items()):
            print("   %s: %s" % (k, v))
    return 1 if violations else 0


def write_evidence(prop, tier, seed, cov, samples, wall, nviol, extra, stop):
    level = getattr(_module, "LEVEL", "model_checking")
    coverage = dict(
        states=len(cov.states),
        transitions=cov.transitions,
        traces_validated_against_impl=cov.executions,
        distinct_outcomes=len(cov.outcomes),
        samples=samples,
        exhaustive=not stop,
        bounds=getattr(_module, "BOUNDS", {}).get(tier, ""),
        notes=cov.notes,
    )
    if level in ("exploration", "fault_enumeration"):
        coverage["evaluations"] = cov.executions
        coverage["distinct_nontrivial"] = len(cov.outcomes)
        coverage["rule"] = getattr(_module, "RULE", "")
    coverage.update(extra or {})
    doc = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=level,
        coverage=coverage,
        assumptions=getattr(_module, "ASSUMPTIONS", []),
        wall_s=round(wall, 3),
        violations=nviol,
    )
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.json" % prop)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))
