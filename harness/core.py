"""
Runner shared by all the checks.

A check module defines PROPERTY (the property id), RULE (how cases are made and
what makes one non-trivial) and SUBS, a list of Sub. Every Sub couples a
Hypothesis strategy that produces a JSON-able case with a function that decides
that one case against an oracle:

    check(case, note) -> bool       (True when the case was non-trivial)

`note(label)` counts a class of cases. The function calls `expect(...)` (or
raises Violation) when the property is broken. A case is plain data, so a shrunk
failure is written to a replay file and re-run without Hypothesis.

What counts as a violation: a failed `expect`; an exception that escapes from
the code under test on an input the property covers; an exception in the check
body itself while it uses what the code under test returned. What counts as a
harness error (exit 2): an exception inside an oracle module or inside
Hypothesis, a failed health check, no memory.
"""

import contextlib
import io
import json
import mmap
import os
import resource
import signal
import struct
import sys
import time
import traceback
import zlib

REPO = os.path.realpath(os.environ.get("HPY_REPO", "/repo"))
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
HARNESS = os.path.join(VERIF, "harness")
ORACLES = os.path.join(HARNESS, "oracles")


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The machinery itself went wrong: never reported as a violation."""


#: far beyond what any case takes, even on a busy machine
CASE_SECONDS = 60
#: a worker that can not even be interrupted is ended after this time
STUCK_SECONDS = CASE_SECONDS + 30
#: once there is a violation, the other workers get this much more time
GRACE_SECONDS = 150
#: address space of one worker (a case needs a few hundred MB)
WORKER_BYTES = 7 << 29


@contextlib.contextmanager
def time_limit():
    """A case that does not come back is a violation, not a lost run."""
    def overdue(signum, frame):
        raise Violation("no answer after {0} s".format(CASE_SECONDS))

    old = signal.signal(signal.SIGALRM, overdue)
    signal.alarm(CASE_SECONDS)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class StopShrinking(BaseException):
    """Ends a shrink that has used up its allowance."""


def expect(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


@contextlib.contextmanager
def raises(kinds, what):
    """The body must raise one of `kinds` (the documented rejection)."""
    try:
        yield
    except kinds:
        return
    raise Violation("{0}: expected {1}".format(
        what, getattr(kinds, "__name__", None) or
        "/".join(k.__name__ for k in kinds)))


class Sub:
    def __init__(
            self, name, strategy, check, quick, thorough=None, *,
            shards=1, shrink_s=60,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.shrink_s = shrink_s


def canonical(case):
    return json.dumps(case, sort_keys=True)


def classify_exception(exc):
    """-> "violation" or "harness" for an exception that escaped a check."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError):
        return "harness"
    frames = [os.path.realpath(f.filename)
              for f in traceback.extract_tb(exc.__traceback__)]
    if any(f.startswith(REPO + os.sep) for f in frames):
        return "violation"
    if any(f.startswith(ORACLES + os.sep) for f in frames):
        return "harness"
    if any("/hypothesis/" in f for f in frames):
        # the check is called from Hypothesis, so look below the check only
        below = []
        seen = False
        for f in frames:
            if f.startswith(os.path.join(HARNESS, "checks")):
                seen = True
            if seen:
                below.append(f)
        if not seen or any("/hypothesis/" in f for f in below):
            return "harness"
    return "violation"


def last_file(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return os.path.realpath(tb[-1].filename) if tb else ""


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    last = next(
        (f for f in reversed(tb)
         if os.path.realpath(f.filename).startswith(REPO + os.sep)),
        tb[-1] if tb else None,
    )
    where = "" if last is None else " at {0}:{1}".format(
        os.path.relpath(last.filename, REPO)
        if os.path.realpath(last.filename).startswith(REPO) else
        os.path.basename(last.filename), last.lineno)
    return "unexpected {0}: {1}{2}".format(type(exc).__name__, exc, where)


def run_case(sub, case, note=lambda label: None):
    """Decide one case. Returns (nontrivial, None) or (None, exception)."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), time_limit():
            return bool(sub.check(case, note)), None
    except Exception as exc:
        return None, exc


class Progress:
    """What a worker is busy with, as seen by its parent."""

    SIZE = 1 << 17

    def __init__(self):
        self.memory = mmap.mmap(-1, self.SIZE)

    def start(self, sub, case_json):
        data = (sub + "\0" + case_json).encode()
        if len(data) > self.SIZE - 16:
            data = (sub + "\0").encode()
        self.memory[16:16 + len(data)] = data
        self.memory[:16] = struct.pack("dq", time.monotonic(), len(data))

    def stop(self):
        self.memory[:16] = bytes(16)

    def get(self):
        """(seconds, sub, case in JSON or None), or None when idle."""
        started, size = struct.unpack("dq", self.memory[:16])
        if not size:
            return None
        sub, _, key = self.memory[16:16 + size].decode(
            errors="replace").partition("\0")
        return time.monotonic() - started, sub, key or None


def run_saved(subs, items, progress):
    """Decide saved cases: [(item, None or exception text, kind)]."""
    res = []
    for item in items:
        progress.start(item["sub"], canonical(item["case"]))
        t0 = time.monotonic()
        _, exc = run_case(subs[item["sub"]], item["case"])
        progress.stop()
        if exc is None:
            res.append((item, None, None))
            continue
        kind = classify_exception(exc)
        res.append((item, describe(exc) if kind == "violation"
                    else repr(exc), kind))
        if time.monotonic() - t0 > CASE_SECONDS - 5:
            break        # no answer: the others may take as long
    return {"saved": res}


def run_sub(prop, sub, tier, seed, shard, total_shards, progress):
    """Search one Sub (one shard of it); returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    count = sub.quick if tier == "quick" else sub.thorough
    count = max(1, -(-count // total_shards))
    state = {
        "evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [],
        "fail": None, "fail_t0": None, "n_fail": 0,
    }

    def one(case):
        key = canonical(case)
        labels = set()
        progress.start(sub.name, key)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                # a case is what its JSON form says, so that a replay file
                # holds exactly what was run
                with time_limit():
                    nontrivial = bool(sub.check(json.loads(key), labels.add))
            except Exception as exc:
                if classify_exception(exc) == "harness":
                    raise
                now = time.monotonic()
                if state["fail_t0"] is None:
                    state["fail_t0"] = now
                state["n_fail"] += 1
                best = state["fail"]
                if best is None or len(key) <= len(best[0]):
                    state["fail"] = (key, describe(exc))
                if now - state["fail_t0"] > sub.shrink_s:
                    raise StopShrinking()
                raise
            finally:
                progress.stop()
        if state["fail"] is not None:
            if time.monotonic() - state["fail_t0"] > sub.shrink_s:
                raise StopShrinking()
            return
        state["evaluations"] += 1
        for label in labels:
            state["labels"][label] = state["labels"].get(label, 0) + 1
        if nontrivial:
            digest = zlib.crc32(key.encode()) | (
                zlib.adler32(key.encode()) << 32)
            if digest not in state["nontrivial"]:
                state["nontrivial"].add(digest)
                n = len(state["nontrivial"])
                if n in (2, 20, 200) and len(key) < 1500:
                    state["samples"].append(json.loads(key))

    digest = zlib.crc32(
        "{0}/{1}/{2}/{3}".format(seed, prop, sub.name, shard).encode())
    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
    test = hypothesis.seed(digest)(
        settings(
            max_examples=count, database=None, deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large,
                HealthCheck.large_base_example,
            ],
            report_multiple_bugs=False, print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(given(strategy)(one))
    )
    error = None
    t0 = time.monotonic()
    try:
        test()
    except StopShrinking:
        pass
    except BaseException as exc:
        if state["fail"] is None:
            error = "".join(traceback.format_exception(exc))[-4000:]
    return {
        "sub": sub.name, "shard": shard, "requested": count,
        "evaluations": state["evaluations"],
        "nontrivial": state["nontrivial"], "labels": state["labels"],
        "samples": state["samples"], "fail": state["fail"],
        "error": error, "wall": time.monotonic() - t0,
    }


def parallel(jobs, workers):
    """
    Run `jobs` (functions of a Progress) in forked children.

    A child that is stuck where it can not be interrupted, or that dies, is
    reported as a failure of the case it was deciding.
    """
    import multiprocessing as mp
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    pending = list(enumerate(jobs))
    running = {}
    results = {}
    deadline = None

    def child(conn, job, progress):
        try:
            resource.setrlimit(
                resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
        except (ValueError, OSError):
            pass
        try:
            result = job(progress)
        except BaseException as exc:
            result = {"error": "".join(traceback.format_exception(exc))}
        conn.send(result)
        conn.close()
        sys.stdout.flush()
        os._exit(0)

    def lost(progress, why):
        busy = progress.get()
        if busy is None or busy[2] is None:
            return {"error": "a worker {0}".format(why)}
        return {"lost": (busy[1], busy[2], why)}

    while pending or running:
        while pending and len(running) < workers:
            index, job = pending.pop(0)
            recv, send = ctx.Pipe(duplex=False)
            progress = Progress()
            proc = ctx.Process(target=child, args=(send, job, progress))
            proc.start()
            send.close()
            running[recv] = (index, proc, progress)
        for conn in wait(list(running), timeout=1):
            index, proc, progress = running.pop(conn)
            try:
                results[index] = conn.recv()
            except EOFError:
                proc.join()
                why = "ended with exit code {0}".format(proc.exitcode)
                if proc.exitcode == -signal.SIGKILL:
                    # somebody else's doing, as when memory runs out
                    results[index] = {"error": "a worker " + why}
                else:
                    results[index] = lost(progress, why)
            conn.close()
            proc.join()
        now = time.monotonic()
        for conn, (index, proc, progress) in list(running.items()):
            busy = progress.get()
            if busy is not None and busy[0] > STUCK_SECONDS:
                results[index] = lost(
                    progress, "got no answer in {0} s".format(STUCK_SECONDS))
            elif deadline is not None and now > deadline:
                results[index] = {}
            else:
                continue
            running.pop(conn)
            proc.kill()
            proc.join()
            conn.close()
        if deadline is None and any(
                r.get("fail") or r.get("lost") or any(
                    kind == "violation" for _, _, kind in r.get("saved", ()))
                for r in results.values()):
            deadline = now + GRACE_SECONDS
        if deadline is not None and now > deadline:
            pending = []
    return [results.get(i, {}) for i in range(len(jobs))]
