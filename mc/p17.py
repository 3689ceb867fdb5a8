"""
P17: silencing and re-activating logs and progress bars is reversible.

The tree of all sequences of the operations on logs, warnings and progress bars,
up to a depth and from several initial levels: every node is a process of its own,
forked from its parent, which applies one operation to the real package, and then
looks at what is emitted at each level to each log, at the progress bar, and at
the survey that is drawn. The model has one level and one flag for each log.
"""
import contextlib
import gc
import io
import logging
import os
import pickle

import popsynth
from mc.core import HarnessError, Violation, check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: the tree of all operation sequences, one forked process per node, in lockstep with a model"
BOUNDS = {
    "quick": "all sequences of <= 3 of 15 operations from the default levels and of <= 2 from 3 others, with a survey and its progress bar at each node; all sequences of <= 3 of 11 operations on logs from 2 others, of <= 4 of 8 from the default",
    "thorough": "each of these one operation deeper, and 4 instead of 3 initial levels",
}
ASSUMPTIONS = [
    "re-activating logs that are not silenced, and what re-activating gives for a log whose level was set while it was silenced, is not specified: any level is accepted there",
    "the context manager silence_console_log, which is not exported, is only explored as an operation that is entered and left, by an exception or not",
]
CHUNK = 1

D, I, W, E, C = logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL
LEVELS = (D, I, W, E, C)


def _context(fail):
    from popsynth.utils import logging as pl

    try:
        with pl.silence_console_log():
            if fail:
                raise KeyError("leave")
    except KeyError:
        pass


OPS = {
    "silence_logs": popsynth.silence_logs,
    "activate_logs": popsynth.activate_logs,
    "quiet_mode": popsynth.quiet_mode,
    "loud_mode": popsynth.loud_mode,
    "debug_mode": popsynth.debug_mode,
    "level INFO": lambda: popsynth.update_logging_level("INFO"),
    "level ERROR": lambda: popsynth.update_logging_level("ERROR"),
    "silence_warnings": popsynth.silence_warnings,
    "activate_warnings": popsynth.activate_warnings,
    "show_progress_bars": popsynth.show_progress_bars,
    "silence_progress_bars": popsynth.silence_progress_bars,
    "context": lambda: _context(False),
    "failing context": lambda: _context(True),
    "level DEBUG": lambda: popsynth.update_logging_level("DEBUG"),
    "draw": lambda: None,
}

LOGS = [k for k in OPS if k not in ("show_progress_bars", "silence_progress_bars", "draw", "level DEBUG")]
FEW = [k for k in LOGS if k not in ("context", "failing context", "level ERROR")]

# levels of the user log and of the console to start from
START = {"default": None, "verbose": (D, I), "quiet": (C, E), "other": (E, D)}


def cases(tier):
    full = tier == "thorough"
    for s in START:
        for op in OPS:
            yield dict(start=s, first=op, depth=(2 if s != "default" else 3) + full, alphabet="all")
        if s in ("verbose", "quiet") or full:
            for op in LOGS:
                yield dict(start=s, first=op, depth=3 + full, alphabet="logs")
    for op in FEW:
        for second in FEW:
            yield dict(start="default", first=op, second=second, depth=4 + full, alphabet="few")


def run(case, cov):
    in_child(root, case, cov)


def in_child(f, *args):
    """
    Run f(*args, cov) in a forked process that shares nothing with this one;
    the last argument is the coverage to add its own to
    """
    cov = args[-1]
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                sub = cov.__class__()
                f(*args[:-1], sub)
                out = ("ok", sub)
            except Violation as v:
                out = ("violation", v.what, v.details)
            except HarnessError as e:
                out = ("harness", str(e))
            except BaseException as e:
                out = ("violation", "raised %s: %s" % (type(e).__name__, str(e)[:300]), {})
            with os.fdopen(wr, "wb") as fh:
                try:
                    pickle.dump(out, fh)
                except Exception:
                    pickle.dump(out[:2] + ({"details": repr(out[2])},), fh)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise HarnessError("a forked process died")
    out = pickle.loads(data)
    if out[0] == "violation":
        raise Violation(out[1], **out[2])
    if out[0] == "harness":
        raise HarnessError(out[1])
    cov.merge(out[1])


class Probe:
    """The logs of the package"""

    def __init__(self):
        logging.disable(logging.NOTSET)
        names = sorted(k for k in logging.root.manager.loggerDict if k == "popsynth" or k.startswith("popsynth."))
        self.loggers = [logging.getLogger(k) for k in names if logging.getLogger(k).handlers]
        check(self.loggers, "the package has no loggers")
        self.handlers = {}
        for log in self.loggers:
            for h in log.handlers:
                if isinstance(h, logging.FileHandler):
                    if os.path.basename(h.baseFilename) == "usr.log":
                        self.handlers.setdefault("user", set()).add(h)
                elif isinstance(h, logging.StreamHandler):
                    self.handlers.setdefault("console", set()).add(h)
        check(set(self.handlers) == {"user", "console"}, "the package has no console or no user log", got=sorted(self.handlers))
        self.out = {}
        for k, hs in self.handlers.items():
            self.out[k] = io.StringIO()
            for h in hs:
                h.setStream(self.out[k])

    def set(self, k, level):
        for h in self.handlers[k]:
            h.setLevel(level)

    def emitted(self, every=False):
        """The levels which are emitted to the logs"""
        found = []
        for log in self.loggers if every else (self.loggers[0], self.loggers[-1]):
            for s in self.out.values():
                s.seek(0)
                s.truncate()
            for lv in LEVELS:
                log.log(lv, "probe-%d-", lv)
            found.append({k: tuple(lv for lv in LEVELS if "probe-%d-" % lv in s.getvalue()) for k, s in self.out.items()})
        check(all(f == found[0] for f in found), "the logs of the modules differ", got=found)
        return found[0]


class Model:
    def __init__(self, levels):
        self.cur = dict(levels)  # None: not specified
        self.before = {"user": None, "console": None}
        self.silenced = {"user": False, "console": False}
        self.warnings = True
        self.progress = None

    def copy(self):
        m = Model(self.cur)
        m.before, m.silenced = dict(self.before), dict(self.silenced)
        m.warnings, m.progress = self.warnings, self.progress
        return m

    def apply(self, op):
        if op in ("silence_logs", "quiet_mode"):
            for k in self.cur:
                if not self.silenced[k]:
                    self.before[k] = self.cur[k]
                    self.silenced[k] = True
                self.cur[k] = C
        elif op == "activate_logs":
            for k in self.cur:
                self.cur[k] = self.before[k] if self.silenced[k] else None
                self.silenced[k] = False
        elif op == "loud_mode":
            for k in self.cur:
                self.cur[k], self.silenced[k] = I, False
        elif op == "debug_mode":
            self.cur["console"], self.silenced["console"] = D, False
        elif op.startswith("level "):
            self.cur["console"], self.silenced["console"] = getattr(logging, op[6:]), False
        elif op == "silence_warnings":
            self.warnings = False
        elif op == "activate_warnings":
            self.warnings = True
        if op in ("show_progress_bars", "loud_mode"):
            self.progress = True
        elif op in ("silence_progress_bars", "quiet_mode"):
            self.progress = False

    def key(self):
        return (tuple(sorted(self.cur.items())), tuple(sorted(self.silenced.items())), tuple(sorted((k, str(v)) for k, v in self.before.items())), self.warnings, self.progress)


SPEC = dict(
    lum=["ParetoDistribution", {"Lmin": 1.0, "alpha": 1.5}],
    aux=[dict(name="x", type="NormalAuxSampler", params={"mu": 1.0, "tau": 1.0}, sel=["BernoulliSelection", {"probability": 0.5}])],
    top=["x"],
    flux=["SoftFluxSelection", {"boundary": 0.5, "strength": 2.0}],
)


def survey():
    """Draws a survey. Returns what it is and if there was a progress bar"""
    err, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        pop = w.World(SPEC).synth.draw_survey(n_samples=3, flux_sigma=0.3)
    return w.snapshot(pop), "Drawing" in err.getvalue() or "%|" in err.getvalue() or "%|" in out.getvalue()


REFERENCE = None


def setup():
    global REFERENCE
    popsynth.silence_progress_bars()
    REFERENCE = survey()[0]


def root(case, cov):
    gc.disable()
    probe = Probe()
    if START[case["start"]] is not None:
        for k, lv in zip(("user", "console"), START[case["start"]]):
            probe.set(k, lv)
    seen = probe.emitted(every=True)
    levels = {k: min(v) if v else None for k, v in seen.items()}
    for k, v in levels.items():
        check(v is not None and seen[k] == tuple(x for x in LEVELS if x >= v), "the levels of a log are not an interval", log=k, got=seen[k])
    if case["start"] == "default":
        check(levels == {"user": W, "console": W}, "the logs do not start with their configured level", got=levels)
    model = Model(levels)
    # world.py has silenced them
    model.progress = False
    seq = (case["first"],) + ((case["second"],) if "second" in case else ())
    path = ()
    for op in seq:
        OPS[op]()
        model.apply(op)
        path += (op,)
        observe(case, probe, model, path, cov)
    children(case, probe, model, path, cov)


def children(case, probe, model, path, cov):
    if len(path) >= case["depth"]:
        return
    for op in {"all": OPS, "logs": LOGS, "few": FEW}[case["alphabet"]]:
        in_child(node, case, probe, model, path, op, cov)


def node(case, probe, model, path, op, cov):
    OPS[op]()
    model = model.copy()
    model.apply(op)
    path = path + (op,)
    observe(case, probe, model, path, cov)
    children(case, probe, model, path, cov)


def observe(case, probe, model, path, cov):
    cov.step()
    cov.note("processes")
    seen = probe.emitted()
    for k, v in seen.items():
        if model.cur[k] is None:
            # not specified, but some level
            rest = [x for x in v if x != W]
            level = min(rest)
            if level == E and model.warnings and W in v:
                level = W
            check([x for x in LEVELS if x >= level and x != W] == rest, "the levels of a log are not an interval", log=k, got=v, sequence=path)
            model.cur[k] = level if level != E or model.warnings else None
            if model.cur[k] is None:
                continue
        expected = tuple(x for x in LEVELS if x >= model.cur[k] and (x != W or model.warnings))
        check(v == expected, "the %s log emits other levels" % k, got=v, expected=expected, silenced=model.silenced[k], sequence=path)
    if case["alphabet"] == "all":
        s, shown = survey()
        check(shown == model.progress, "progress bars are not shown as requested last", shown=shown, expected=model.progress, sequence=path)
        check(w.same(REFERENCE, s), "the settings of the logs and progress bars change the survey", differs=[k for k in REFERENCE if not w.same(REFERENCE[k], s.get(k))], sequence=path)
    cov.state((case["start"], model.key()))
    cov.outcome((sorted(seen.items()), model.progress))
