"""
P18: importing is safe against races, crashes and existing user settings.

Processes that import the package, each forked from a process which has all other
modules loaded but not the package, and each with the same scratch home directory.
They stop before every operation on the file system of the home directory (opened
files are written in two pieces, with a stop before, between and after them) and
a controller decides who continues, and who crashes or fails there. All schedules
up to a preemption bound and all crash points are enumerated. After each step the
configuration file has to be absent or complete; at the end all importing
processes must have the settings they should have.
"""
import builtins
import importlib
import io
import itertools
import json
import logging
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import yaml

from mc.core import HarnessError, Violation, check

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the implementation: all interleavings of file system steps of importing processes up to a preemption bound, and all crash points"
BOUNDS = {
    "quick": "2 processes: all schedules with <= 1 preemption from 6 states of the home directory and with <= 2 from 1; a crash at each of its steps for each of 6 states, and 2 kinds of failures for 2, a crash of a process while another one is importing (all pairs of steps); existing configurations, files or symbolic links, with each of the 256 subsets of 8 settings; homes on another file system",
    "thorough": "2 processes: <= 2 preemptions from 6 states, <= 3 from 1; 3 processes with <= 2 preemptions; all pairs of crash points of two successive imports, and a crash of either process at all pairs of steps; existing configurations with each of the 256 subsets of 8 settings with 2 sets of values",
}
ASSUMPTIONS = [
    "operations on files are atomic, except for writing; a crash is the end of a process at one of the stops, and loses what was not flushed",
    "the home directory can be written to and an existing configuration is valid",
    "the operations that count are those on paths in the home directory: opening, writing, closing, creating, renaming, removing, locking, and looking for files",
]
CHUNK = 1

CONFIG = ".config/popsynth/popsynth_config.yml"

DEFAULTS = {
    "logging": {"debug": False, "console": {"on": True, "level": "WARNING"}, "file": {"on": True, "level": "WARNING"}},
    "cosmology": {"Om": 0.307, "h0": 67.7},
    "show_progress": True,
}

# the settings of a user
OTHER = [
    [("logging", "debug", True), ("logging", "console", "on", False), ("logging", "console", "level", "DEBUG"), ("logging", "file", "on", False), ("logging", "file", "level", "ERROR"), ("cosmology", "Om", 0.25), ("cosmology", "h0", 71.5), ("show_progress", False)],
    [("logging", "debug", False), ("logging", "console", "on", True), ("logging", "console", "level", "INFO"), ("logging", "file", "on", True), ("logging", "file", "level", "CRITICAL"), ("cosmology", "Om", 0.9), ("cosmology", "h0", 50.0), ("show_progress", True)],
]

PARTIAL = {"cosmology": {"Om": 0.25}, "show_progress": False}

# states of the home directory before
STATES = ("nothing", "other directories", "empty directories", "complete", "partial", "left over")

# a directory on another file system
OTHER_PLACE = "/dev/shm"

# and with a link at some level of the path, to the settings of a user
LINKED = (CONFIG, ".config/popsynth", ".config")


def set_at(d, path, value):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = value


def merged(user):
    out = json.loads(json.dumps(DEFAULTS))

    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict):
                merge(a[k], v)
            else:
                a[k] = v

    merge(out, user or {})
    return out


STEPS = {}

# ---------------------------------------------------------------------------
# the importing process


class Stopper:
    """Stops this process before every operation on the home directory"""

    def __init__(self, home, to_controller, from_controller):
        self.home = os.path.realpath(home) + os.sep
        self.w, self.r = to_controller, from_controller
        self.busy = False
        self.fds = {}
        self.off = False

    def inside(self, path):
        try:
            if isinstance(path, int):
                return False
            p = os.path.join(self.home, os.fsdecode(path)) if not os.path.isabs(os.fsdecode(path)) else os.fsdecode(path)
        except Exception:
            return False
        return p.startswith(self.home)

    def stop(self, what):
        if self.busy or self.off:
            return
        self.busy = True
        try:
            self.real_write(self.w, (json.dumps(["step", what]) + "\n").encode())
            a = os.read(self.r, 1)
            if a == b"x" or a == b"":
                os._exit(77)
            if a == b"e":
                raise OSError(28, "No space left on device")
            if a == b"k":
                raise KeyboardInterrupt()
        finally:
            self.busy = False

    def install(self):
        self.real_write = os.write
        self.real_open = io.open
        real_stat, real_lstat, real_osopen, real_close, real_access = os.stat, os.lstat, os.open, os.close, os.access
        events = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.utime", "os.listdir", "os.scandir", "shutil.copyfile", "shutil.move"}

        def audit(event, args):
            if self.busy or self.off:
                return
            if event == "open":
                if self.inside(args[0]):
                    self.stop("open %s" % os.fsdecode(args[0])[len(self.home):])
            elif event in events:
                p = [a for a in args[:2] if isinstance(a, (str, bytes, os.PathLike)) and self.inside(a)]
                if p:
                    self.stop("%s %s" % (event, os.fsdecode(p[-1])[len(self.home):]))
            elif event.startswith("fcntl."):
                self.stop(event)

        def stat(path, *a, **k):
            if self.inside(path):
                self.stop("look at %s" % os.fsdecode(path)[len(self.home):])
            return real_stat(path, *a, **k)

        def lstat(path, *a, **k):
            if self.inside(path):
                self.stop("look at %s" % os.fsdecode(path)[len(self.home):])
            return real_lstat(path, *a, **k)

        def access(path, *a, **k):
            if self.inside(path):
                self.stop("look at %s" % os.fsdecode(path)[len(self.home):])
            return real_access(path, *a, **k)

        def osopen(path, *a, **k):
            fd = real_osopen(path, *a, **k)
            if self.inside(path):
                self.fds[fd] = path
            return fd

        def osclose(fd):
            self.fds.pop(fd, None)
            return real_close(fd)

        def oswrite(fd, data):
            if fd not in self.fds or len(data) < 2:
                return self.real_write(fd, data)
            self.stop("write nothing")
            data = bytes(data)
            n = self.real_write(fd, data[: len(data) // 2])
            self.stop("write a half")
            return n + self.real_write(fd, data[n:])

        def fopen(file, mode="r", *a, **k):
            if isinstance(file, int):
                mine = file in self.fds
            else:
                mine = self.inside(file)
            f = self.real_open(file, mode, *a, **k)
            if mine and any(c in mode for c in "wax+"):
                return Writer(f, self)
            return f

        real_sendfile = os.sendfile

        def sendfile(out, src, offset, count):
            # what is sent is a part of what was asked for
            self.stop("write nothing")
            size = os.fstat(src).st_size - offset
            return real_sendfile(out, src, offset, min(count, size // 2) if size > 1 else count)

        sys.addaudithook(audit)
        os.sendfile = sendfile
        os.stat, os.lstat, os.access, os.open, os.close, os.write = stat, lstat, access, osopen, osclose, oswrite
        builtins.open = io.open = fopen


class Writer:
    """A file that is written in pieces"""

    def __init__(self, f, stopper):
        self.__dict__.update(_f=f, _s=stopper, _wrote=False)

    def write(self, data):
        if self._s.off or len(data) < 2:
            return self._f.write(data)
        self._s.stop("write nothing")
        n = len(data) // 2
        self._f.write(data[:n])
        self._f.flush()
        self._s.stop("write a half")
        self._f.write(data[n:])
        self._f.flush()
        self.__dict__["_wrote"] = True
        return len(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def close(self):
        if self._wrote and not self._f.closed:
            self._s.stop("close")
        return self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)


LEVELS = ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")


def effective():
    """The settings which are in effect in a process that imported the package"""
    import popsynth
    from omegaconf import OmegaConf

    names = sorted(k for k in logging.root.manager.loggerDict if k.startswith("popsynth."))
    logs = {"console": set(), "usr.log": set(), "dev.log": set()}
    for n in names:
        log = logging.getLogger(n)
        for h in log.handlers:
            k = os.path.basename(h.baseFilename) if isinstance(h, logging.FileHandler) else "console"
            check(k in logs, "there is an unknown log", log=k)
            if k != "console":
                check(os.path.dirname(h.baseFilename) == os.path.join(os.path.expanduser("~"), ".log", "popsynth"), "a log is at another place", file=h.baseFilename)
                check(os.path.isfile(h.baseFilename), "a log file was not created", file=h.baseFilename)
            for i, lv in enumerate(LEVELS):
                if log.isEnabledFor(getattr(logging, lv)) and h.level <= getattr(logging, lv):
                    logs[k].add(i)
    return {
        "config": OmegaConf.to_container(popsynth.popsynth_config),
        "cosmology": [float(popsynth.cosmology.Om), float(popsynth.cosmology.h0)],
        "logs": {k: sorted(v) for k, v in logs.items()},
    }


def expected_effect(user):
    c = merged(user)
    L = c["logging"]

    def levels(on, level):
        return list(range(LEVELS.index(level), len(LEVELS))) if on else []

    return {
        "config": c,
        "cosmology": [c["cosmology"]["Om"], c["cosmology"]["h0"]],
        "logs": {
            "console": levels(L["console"]["on"], L["console"]["level"]),
            "usr.log": levels(L["file"]["on"], L["file"]["level"]),
            "dev.log": levels(L["debug"], "DEBUG"),
        },
    }


class Importer:
    """A process which imports the package"""

    def __init__(self, home, name, stops=True):
        self.name = name
        self.steps = 0
        self.at = None  # the operation it waits before
        self.result = None  # ("ok", settings) / ("failed", text) / ("crashed",)
        self.buffer = b""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r1)
                os.close(w2)
                self.child(home, w1, r2, stops)
                code = 0
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        self.r, self.w = r1, w2
        self.wait()

    def child(self, home, w, r, stops):
        os.environ["HOME"] = home
        os.environ.pop("XDG_CONFIG_HOME", None)
        os.chdir(home)
        write = os.write
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        s = Stopper(home, w, r)
        if stops:
            s.install()
        try:
            import popsynth

            s.off = True
            out = ["ok", effective()]
        except Violation as e:
            out = ["failed", "the settings: %s %s" % (e.what, e.details)]
        except BaseException as e:
            s.off = True
            out = ["failed", "%s: %s" % (type(e).__name__, str(e)[:300])]
        write(w, (json.dumps(out) + "\n").encode())

    def wait(self, timeout=60):
        """Wait for the next stop. Returns if there was one"""
        t = time.time() + timeout
        while b"\n" not in self.buffer:
            ready = select.select([self.r], [], [], max(0, t - time.time()))[0]
            if not ready:
                return False
            data = os.read(self.r, 65536)
            if not data:
                self.end(("crashed",))
                return True
            self.buffer += data
        line, self.buffer = self.buffer.split(b"\n", 1)
        doc = json.loads(line)
        if doc[0] == "step":
            self.at = doc[1]
            self.steps += 1
        else:
            self.end(tuple(doc))
        return True

    def end(self, result):
        self.result = result
        self.at = None
        os.close(self.r)
        os.close(self.w)
        os.waitpid(self.pid, 0)

    @property
    def done(self):
        return self.result is not None

    def go(self, how=b"g"):
        """Continue to the next stop"""
        os.write(self.w, how)
        if not self.wait(5 if how == b"g" else 60):
            # it waits for another process
            self.at = "blocked"

    def kill(self):
        if not self.done:
            os.kill(self.pid, signal.SIGKILL)
            self.end(("killed",))


# ---------------------------------------------------------------------------
# the controller


class Home:
    def __init__(self, state, user=None, link=None, where=None):
        self.path = tempfile.mkdtemp(prefix="home", dir=where or os.environ.get("MC_WORK"))
        self.file = os.path.join(self.path, CONFIG)
        self.user = None
        self.given = None
        if state == "other directories":
            os.makedirs(os.path.join(self.path, ".config", "other"))
            os.makedirs(os.path.join(self.path, ".log", "other"))
        elif state in ("empty directories", "left over"):
            os.makedirs(os.path.dirname(self.file))
            os.makedirs(os.path.join(self.path, ".log", "popsynth"))
            if state == "left over":
                # of a process that crashed
                for n in (".popsynth_config.yml.abcdefgh", "popsynth_config.yml.tmp"):
                    with open(os.path.join(os.path.dirname(self.file), n), "w") as f:
                        f.write("logging:\n  deb")
                for n in ("usr.log", "dev.log"):
                    with open(os.path.join(self.path, ".log", "popsynth", n), "w") as f:
                        f.write("2020-01-01 00:00:00 | WARN")
        elif state in ("complete", "partial", "user"):
            user = {"complete": DEFAULTS, "partial": PARTIAL}.get(state, user)
            os.makedirs(os.path.dirname(self.file))
            text = yaml.safe_dump(user) if user else ""
            if state == "complete":
                text = "# mine\n" + text
            with open(self.file, "w") as f:
                f.write(text)
            os.utime(self.file, (1e9, 1e9))
            self.user, self.given = user, text
            if link:
                # the same with a link on the way
                path = os.path.join(self.path, link)
                os.rename(path, os.path.join(self.path, "elsewhere"))
                os.symlink(os.path.join(self.path, "elsewhere"), path)
        self.expected = expected_effect(self.user)

    def invariant(self, trace):
        """The configuration is absent or complete, and never changed if it existed"""
        try:
            with open(self.file) as f:
                text = f.read()
        except FileNotFoundError:
            check(self.given is None, "an existing configuration has gone", trace=trace)
            return
        if self.given is not None:
            check(text == self.given and os.stat(self.file).st_mtime == 1e9, "an existing configuration was written to", text=text, trace=trace)
            return
        try:
            doc = yaml.safe_load(text)
        except yaml.YAMLError:
            doc = None
        check(doc == DEFAULTS, "the configuration file is not complete", text=text, trace=trace)

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)


def verify(p, home, trace):
    check(p.result is not None, "harness")
    if p.result[0] != "ok":
        raise Violation("an import failed (%s)" % p.result[-1], trace=trace)
    for k, v in home.expected.items():
        got = p.result[1][k]
        ok = all(abs(a - b) < 1e-6 * abs(b) for a, b in zip(got, v)) if k == "cosmology" else got == v
        check(ok, "an import does not give the settings it should (%s)" % k, got=got, expected=v, trace=trace)


class Execution:
    def __init__(self, home, count):
        self.home = home
        self.trace = []
        self.p = [Importer(home.path, n) for n in "ABC"[:count]]

    def step(self, i, how=b"g"):
        p = self.p[i]
        self.trace.append("%s: %s%s" % (p.name, p.at, {b"g": "", b"x": " CRASH", b"e": " FAILS", b"k": " INTERRUPTED"}[how]))
        if p.at == "blocked":
            if not p.wait(0.05):
                return False
        else:
            p.go(how)
        self.home.invariant(self.trace)
        return True

    def steps(self, i, n):
        """Continue for some steps. Returns if there were that many"""
        for _ in range(n):
            if self.p[i].done:
                return False
            self.step(i)
        return not self.p[i].done

    def to_end(self, order):
        t = time.time()
        while not all(self.p[i].done for i in order):
            for i in order:
                while not self.p[i].done:
                    if not self.step(i) or self.p[i].at == "blocked":
                        break
            check(time.time() - t < 120, "the imports wait for each other", trace=self.trace)

    def close(self):
        for p in self.p:
            p.kill()


def cases(tier):
    full = tier == "thorough"
    for s in STATES:
        yield dict(kind="single", state=s)
        # switch after k steps
        for k in range(0, STEPS[s]):
            yield dict(kind="schedule", state=s, switches=[k], count=2)
            for how in "xek" if full or s in ("nothing", "partial") else "x":
                yield dict(kind="crash", state=s, at=k, how=how)
    for s in STATES if full else STATES[:1]:
        for k in range(1, STEPS[s]):
            yield dict(kind="schedule", state=s, switches=[k], more=1, count=2)
    for k in range(1, STEPS["nothing"]):
        yield dict(kind="crash while", state="nothing", at=k, who=0)
        if full:
            yield dict(kind="crash while", state="nothing", at=k, who=1)
            yield dict(kind="crash while", state="empty directories", at=k, who=0)
            yield dict(kind="two crashes", state="nothing", at=k)
            for k2 in range(1, STEPS["nothing"]):
                yield dict(kind="schedule", state="nothing", switches=[k, k2], more=1, count=2)
                yield dict(kind="schedule", state="nothing", switches=[k, k2], more=0, count=3)
    # homes on another file system than the temporary files
    for s in STATES:
        yield dict(kind="elsewhere", state=s)
    for link in LINKED:
        for s in ("complete", "partial"):
            yield dict(kind="single", state=s, link=link)
    for n, values in enumerate(OTHER if full else OTHER[:1]):
        for r in range(len(values) + 1):
            for sub in itertools.combinations(range(len(values)), r):
                yield dict(kind="user", values=n, sub=list(sub))


def run(case, cov):
    kind = case["kind"]
    if kind == "user":
        user = {}
        for i in case["sub"]:
            *path, v = OTHER[case["values"]][i]
            set_at(user, path, v)
        home = Home("user", user)
        try:
            alone(home, cov, twice=False)
        finally:
            home.remove()
        return
    if kind == "single":
        home = Home(case["state"], link=case.get("link"))
        try:
            alone(home, cov, twice=True)
        finally:
            home.remove()
        return
    if kind == "elsewhere":
        if not os.access(OTHER_PLACE, os.W_OK) or os.stat(OTHER_PLACE).st_dev == os.stat(tempfile.gettempdir()).st_dev:
            cov.note("no other file system")
            return
        home = Home(case["state"], where=OTHER_PLACE)
        try:
            alone(home, cov, twice=True)
        finally:
            home.remove()
        return
    if kind == "schedule" and case.get("more"):
        last = 1
        while schedule(case, case["switches"] + [last], cov):
            last += 1
        return
    if kind == "schedule":
        schedule(case, case["switches"], cov)
        return
    if kind == "crash":
        crash(case, cov)
        return
    if kind == "crash while":
        n = 1
        while crash_while(case, n, cov):
            n += 1
        return
    if kind == "two crashes":
        n = 0
        while two_crashes(case, n, cov):
            n += 1
        return
    raise HarnessError(kind)


def alone(home, cov, twice):
    for _ in range(2 if twice else 1):
        e = Execution(home, 1)
        try:
            e.to_end([0])
            verify(e.p[0], home, e.trace)
            record(cov, home, e)
        finally:
            e.close()
    if twice:
        check(os.path.isfile(home.file), "there is no configuration file after an import", trace=e.trace)


def record(cov, home, e):
    cov.step(sum(p.steps for p in e.p))
    cov.note("schedules")
    cov.note("processes", len(e.p))

    def anonymous(t):
        head, _, tail = t.partition("popsynth_config.yml.")
        return head + ("popsynth_config.yml.*" if _ else "")

    trace = tuple(anonymous(t) for t in e.trace)
    for i in range(len(trace)):
        cov.state(trace[: i + 1])
    cov.outcome((trace, tuple(p.result[0] for p in e.p)))


def schedule(case, switches, cov):
    """Processes run for given numbers of steps in turns. False: they are done before"""
    n = case["count"]
    home = Home(case["state"])
    try:
        e = Execution(home, n)
        try:
            i = 0
            for k in switches:
                if not e.steps(i, k):
                    return False
                i = (i + 1) % n
            order = [i] + [j for j in range(n) if j != i]
            e.to_end(order)
            for p in e.p:
                verify(p, home, e.trace)
            record(cov, home, e)
            return True
        finally:
            e.close()
    finally:
        home.remove()


def later(home, trace, cov):
    e = Execution(home, 1)
    e.trace = list(trace)
    try:
        e.to_end([0])
        verify(e.p[0], home, e.trace)
        check(os.path.isfile(home.file), "there is no configuration file after an import", trace=e.trace)
        cov.step(e.p[0].steps)
        cov.note("imports after a crash")
    finally:
        e.close()


def crash(case, cov):
    home = Home(case["state"])
    try:
        e = Execution(home, 1)
        try:
            if not e.steps(0, case["at"]):
                return
            e.step(0, case["how"].encode())
            if not e.p[0].done:
                # it went on after the failure
                e.to_end([0])
                if e.p[0].result[0] == "ok":
                    verify(e.p[0], home, e.trace)
            record(cov, home, e)
        finally:
            e.close()
        home.invariant(e.trace)
        later(home, e.trace, cov)
        later(home, e.trace, cov)
    finally:
        home.remove()


def crash_while(case, n, cov):
    """One of two processes crashes while both are importing"""
    home = Home(case["state"])
    try:
        e = Execution(home, 2)
        try:
            if not e.steps(0, case["at"]):
                return False
            if not e.steps(1, n):
                return False
            who = case["who"]
            e.step(who, b"x")
            e.to_end([1 - who])
            verify(e.p[1 - who], home, e.trace)
            record(cov, home, e)
        finally:
            e.close()
        later(home, e.trace, cov)
        return True
    finally:
        home.remove()


def two_crashes(case, n, cov):
    """Two imports in a row crash"""
    home = Home(case["state"])
    trace = []
    try:
        for at in (case["at"], n):
            e = Execution(home, 1)
            e.trace = trace
            try:
                if not e.steps(0, at):
                    return False
                e.step(0, b"x")
                record(cov, home, e)
                trace = e.trace
            finally:
                e.close()
        later(home, trace, cov)
        return True
    finally:
        home.remove()


def setup():
    """Load everything the package imports, but not the package"""
    home = os.path.join(os.environ["MC_WORK"], "first")
    os.makedirs(home, exist_ok=True)
    out = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", "import sys, json, popsynth; print('@@' + json.dumps(list(sys.modules)))"],
        env=dict(os.environ, HOME=home),
        capture_output=True,
        text=True,
    )
    if "@@" in out.stdout:
        for m in json.loads(out.stdout.split("@@")[1]):
            if m.split(".")[0] not in ("popsynth", "__main__"):
                try:
                    importlib.import_module(m)
                except Exception:
                    pass
        from astropy.cosmology import WMAP9
    if any(m.split(".")[0] == "popsynth" for m in sys.modules):
        raise HarnessError("the package is already imported")
    # compile the package only once
    sys.pycache_prefix = os.path.join(os.environ["MC_WORK"], "pycache")
    sys.dont_write_bytecode = False
    first = Home("nothing")
    Importer(first.path, "first", stops=False)
    first.remove()
    # the number of steps, and some more as a racing process may take more
    for s in STATES:
        home = Home(s)
        p = Importer(home.path, "A")
        while not p.done and p.steps < 200:
            p.go()
        STEPS[s] = p.steps + 4
        p.kill()
        home.remove()
