"""C27: the temporary run-time environment."""

import contextlib
import io
import os
import pathlib
import shutil
import sys
import tempfile

from hypothesis import strategies as st

import mkl
from core import Sub, Violation, expect, raises
from HamiltonianPy.tools.runtimeenv import RunTimeEnv

PROPERTY = "C27"
RULE = (
    "A case is a program: printing, entering environments (with or without "
    "redirection, in folders that exist or not, with any thread number) "
    "nested, repeated or entered again, changing the thread number or the "
    "working folder, capturing or replacing standard output, raising and catching exceptions. Non-trivial: at least "
    "two environments, or an exception that leaves one.")
ASSUMPTIONS = [
    "a relative folder is meant from where the environment was made",
    "one environment object is not entered again while it is active",
    "the program inside does not close standard output; where it leaves "
    "another one behind, only the restoration is asked for",
    "the effective number of threads for a request is what the mkl package "
    "itself reports after the same request",
    "log files of environments entered within the same second may be one file",
]
FOLDERS = [".", "logs", "deep/er/folder", "with space", "logs/inner"]
KINDS = {"ValueError": ValueError, "KeyError": KeyError,
         "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
         "StopIteration": StopIteration, "RuntimeError": RuntimeError}

PRINT = st.tuples(st.just("print"), st.text(
    alphabet="abc XYZ019=-:%{}\n\u00e9\u221a", max_size=8)).map(list)
RAISE = st.tuples(st.just("raise"), st.sampled_from(sorted(KINDS))).map(list)
#: another working folder, now or once the next environment has been made
MOVE = st.tuples(st.sampled_from(["move", "move later"]), st.sampled_from(
    ["w0", "w0/w1", "."])).map(list)
THREADS = st.tuples(st.just("threads"), st.integers(1, 6)).map(list)
ENV = st.fixed_dictionaries({
    "rd": st.sampled_from([True, True, False]),
    "path": st.sampled_from(FOLDERS + [None]),
    "form": st.sampled_from(["str", "Path", "absolute"]),
    "threads": st.one_of(st.none(), st.integers(1, 6))})


def programs(depth):
    if depth == 0:
        return st.lists(st.one_of(PRINT, PRINT, RAISE, THREADS), max_size=3)
    inner = programs(depth - 1)
    return st.lists(st.one_of(
        PRINT, THREADS, RAISE, MOVE,
        st.tuples(st.just("env"), ENV, inner).map(list),
        st.tuples(st.just("env"), ENV, inner).map(list),
        st.tuples(st.just("again"), st.integers(0, 3), inner).map(list),
        st.tuples(st.just("capture"), inner).map(list),
        st.tuples(st.just("replace")).map(list),
        st.tuples(st.just("try"), inner).map(list)), max_size=4)


@st.composite
def program_case(draw):
    return {"program": draw(programs(3)), "threads": draw(st.integers(1, 6))}


class Run:
    def __init__(self, root):
        self.root = root
        self.count = 0
        self.entries = []          # one per entered environment
        self.envs = []             # [object, options, effective threads, busy]
        self.left = 0
        self.sinks = []            # [stream, what was printed to it]
        self.later = None

    def move(self, folder):
        folder = os.path.join(self.root, folder)
        os.makedirs(folder, exist_ok=True)
        os.chdir(folder)

    def token(self):
        self.count += 1
        return "<<{0}>>".format(self.count)

    def effective(self, number):
        """What the mkl package makes of a request for `number` threads."""
        now = mkl.get_max_threads()
        mkl.set_num_threads(number)
        got = mkl.get_max_threads()
        mkl.set_num_threads(now)
        return got

    def sink(self):
        """The text printed to what is standard output now."""
        return next(text for stream, text in self.sinks
                    if stream is sys.stdout)

    def captured(self):
        """A stream that can be standard output."""
        stream = io.StringIO()
        self.sinks.append((stream, []))
        return stream

    def body(self, program):
        """Run the actions."""
        for action in program:
            kind = action[0]
            if kind == "print":
                token = self.token()
                print(token + action[1] + token)
                self.sink().append(token + action[1] + token)
            elif kind == "raise":
                raise KINDS[action[1]](self.token())
            elif kind == "threads":
                mkl.set_num_threads(action[1])
            elif kind == "move":
                self.move(action[1])
            elif kind == "move later":
                self.later = action[1]
            elif kind == "capture":
                stream = self.captured()
                with contextlib.redirect_stdout(stream):
                    self.body(action[1])
            elif kind == "replace":
                sys.stdout = self.captured()
            elif kind == "try":
                try:
                    self.body(action[1])
                except Violation:
                    raise
                except BaseException:
                    pass
            elif kind == "env":
                opt = dict(action[1], base=os.getcwd())
                kw = {"rd": opt["rd"], "threads_num": opt["threads"]}
                if opt["path"] is not None:
                    kw["path"] = {
                        "str": str, "Path": pathlib.Path,
                        "absolute": lambda p: os.path.join(self.root, p),
                    }[opt["form"]](opt["path"])
                threads = mkl.get_max_threads()
                out = sys.stdout
                env = RunTimeEnv(**kw)
                expect(mkl.get_max_threads() == threads and sys.stdout is out,
                       "constructing RunTimeEnv changed something")
                if opt["threads"] is not None:
                    threads = self.effective(opt["threads"])
                self.envs.append([env, opt, threads, False])
                if self.later is not None:
                    self.move(self.later)
                    self.later = None
                self.enter(self.envs[-1], action[2])
            elif kind == "again" and self.envs:
                item = self.envs[action[1] % len(self.envs)]
                if not item[3]:
                    self.enter(item, action[2])

    def enter(self, item, program):
        env, opt, threads, _ = item
        item[3] = True
        before = (sys.stdout, mkl.get_max_threads())
        folder = os.path.join(
            self.root if opt["form"] == "absolute" and opt["path"] is not None
            else opt["base"], opt["path"] or ".")
        entry = {"rd": opt["rd"], "folder": os.path.realpath(folder),
                 "text": [], "exc": None, "opt": opt}
        self.entries.append(entry)
        what = "RunTimeEnv({0})".format(opt)
        raised = None
        stream = None
        try:
            with env:
                stream = sys.stdout
                expect((stream is before[0]) == (not opt["rd"]),
                       "{0}: standard output inside", what)
                expect(mkl.get_max_threads() == threads,
                       "{0}: {1} threads instead of {2} inside", what,
                       mkl.get_max_threads(), threads)
                if opt["rd"]:
                    expect(os.path.isdir(folder), "{0}: no folder", what)
                    self.sinks.append((stream, entry["text"]))
                try:
                    self.body(program)
                except BaseException as exc:
                    raised = exc
                    raise
                finally:
                    left = sys.stdout
        except Violation:
            raise
        except BaseException as exc:
            expect(exc is raised, "{0}: {1!r} left instead of {2!r}", what,
                   exc, raised)
        else:
            expect(raised is None, "{0}: swallowed {1!r}", what, raised)
        item[3] = False
        # untouched without redirection, even if the program replaced it
        expect(sys.stdout is (before[0] if opt["rd"] else left),
               "{0}: standard output was not restored", what)
        expect(mkl.get_max_threads() == before[1],
               "{0}: {1} threads instead of {2} afterwards", what,
               mkl.get_max_threads(), before[1])
        if opt["rd"]:
            expect(stream.closed, "{0}: the log is left open", what)
        if raised is not None:
            self.left += 1
            if left is stream:
                entry["exc"] = (type(raised).__name__, raised.args[0])
            raise raised


def check(case, note):
    root = tempfile.mkdtemp(dir=os.environ["HPY_SCRATCH"])
    cwd = os.getcwd()
    old = mkl.get_max_threads()
    stdout = sys.stdout
    try:
        os.chdir(root)
        mkl.set_num_threads(case["threads"])
        run = Run(root)
        with contextlib.redirect_stdout(run.captured()):
            try:
                run.body(case["program"])
            except Violation:
                raise
            except BaseException as exc:
                if type(exc) not in KINDS.values() or not str(
                        exc.args[:1]).count("<<"):
                    raise
        outside = [i for i in run.sinks if isinstance(i[0], io.StringIO)]
        for stream, text in outside:
            got = stream.getvalue()
            expect(got.startswith("".join(t + "\n" for t in text)),
                   "outside output: {0!r} instead of {1!r}", got, text)
        expect(outside[0][0].getvalue().count("\n")
               == sum(t.count("\n") + 1 for t in outside[0][1]),
               "outside output: {0!r} instead of {1!r}",
               outside[0][0].getvalue(), outside[0][1])
        files = {}
        for folder, _, names in os.walk(root):
            for name in names:
                with open(os.path.join(folder, name)) as fp:
                    files[os.path.join(os.path.realpath(folder), name)] = (
                        fp.read())
        logs = [e for e in run.entries if e["rd"]]
        folders = {e["folder"] for e in logs}
        expect({os.path.dirname(f) for f in files} == folders,
               "logs {0} for folders {1}", sorted(files), sorted(folders))
        for folder in folders:
            here = [f for f in files if os.path.dirname(f) == folder]
            expect(len(here) <= sum(e["folder"] == folder for e in logs),
                   "more files than environments: {0}", here)
        for entry in logs:
            wanted = list(entry["text"])
            if entry["exc"] is not None:
                wanted += ["", entry["exc"][0], entry["exc"][1]]
            fits = []
            for name, content in files.items():
                if os.path.dirname(name) != entry["folder"]:
                    continue
                pos = 0
                for text in entry["text"]:
                    found = content.find(text + "\n", pos)
                    pos = -1 if found < 0 else found + len(text) + 1
                    if found < 0:
                        break
                if pos >= 0 and entry["exc"] is not None:
                    kind, message = entry["exc"]
                    i = content.find(kind, pos)
                    pos = -1 if i < 0 else content.find(message, i)
                fits.append(pos >= 0)
            expect(any(fits), "{0}: {1} {2} not in the log: {3}",
                   entry["opt"], entry["text"], entry["exc"], files)
        # nothing twice: a printed text went to one place only
        for entry in logs:
            for text in entry["text"]:
                n = sum(c.count(text + "\n") for c in files.values())
                expect(n == 1, "{0!r} was written {1} times", text, n)
        for text in [t for i in outside for t in i[1]]:
            expect(not any(text in c for c in files.values()),
                   "{0!r} went to a log as well", text)
    finally:
        sys.stdout = stdout
        mkl.set_num_threads(old)
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    note("{0} environments".format(min(len(run.entries), 4)))
    note("{0} logs".format(min(len(logs), 3)))
    if run.left:
        note("left by an exception")
    if len(logs) > len({e["folder"] for e in logs}):
        note("same folder")
    return len(run.entries) > 1 or run.left > 0


@st.composite
def invalid_case(draw):
    return {"threads": draw(st.one_of(
        st.integers(-100, 0), st.floats(-3, 9), st.sampled_from(
            ["2", "", [2]]))), "rd": draw(st.booleans())}


def check_invalid(case, note):
    root = tempfile.mkdtemp(dir=os.environ["HPY_SCRATCH"])
    before = (sys.stdout, mkl.get_max_threads())
    try:
        with raises(ValueError, "threads_num={0!r}".format(case["threads"])):
            RunTimeEnv(case["rd"], root, case["threads"])
        expect((sys.stdout, mkl.get_max_threads()) == before,
               "threads_num={0!r} changed something", case["threads"])
        expect(not os.listdir(root), "a rejected environment left a file")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return False


SUBS = [
    Sub("program", program_case, check, 3000, 40000, shards=6),
    Sub("invalid", invalid_case, check_invalid, 200, 1000),
]
