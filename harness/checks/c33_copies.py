"""C33: copies of objects, here and in another process, answer like the original."""

import atexit
import copy
import os
import pickle
import re
import struct
import subprocess
import sys

from hypothesis import strategies as st

from core import Sub, Violation, expect
from HamiltonianPy import IndexTable
from checks.c31_settings import plain, same
from checks.c32_history import (
    FAMILIES, Pool, answer, default_request, shorten)

PROPERTY = "C33"
RULE = (
    "A case is a sequence of 1-5 requests to one family of objects (operators, "
    "terms, tables, spaces, lattices, bonds, lines, polygons, Krylov data, "
    "random subset already asked), the objects being copied, deep-copied, "
    "pickled or sent to a process with another hash seed in between. "
    "Non-trivial: at least one object is copied and asked.")
ASSUMPTIONS = [
    "pickle protocols 2-5; functions made by TotalSpinAverages are asked but "
    "not copied; the hash seed of the other process is drawn per worker",
]

#: closures
NOT_COPIED = ('"total spin"',)


def copied(objects):
    return {k: o for k, o in objects.items()
            if not any(s in k for s in NOT_COPIED)}


def hashable(obj):
    try:
        hash(obj)
    except TypeError:
        return False
    return True


def by_value(obj):
    return type(obj).__eq__ is not object.__eq__ and not isinstance(obj, dict)


def state(objects):
    """What the objects look like."""
    res = {}
    for key, obj in objects.items():
        text = [str(obj), repr(obj)]
        if isinstance(obj, IndexTable):
            text += [repr(o) for o in obj] + [len(obj)]
        res[key] = plain(obj) if not isinstance(plain(obj)[-1], str) else [
            re.sub("at 0x[0-9a-f]+", "", s) for s in map(str, text)]
    return res


def agree(key, a, b, where):
    """Two objects that stand for the same thing."""
    expect(type(a) is type(b), "{0} of {1} has type {2}", where, key, type(b))
    if by_value(a) and hashable(a):
        expect(a == b and b == a and not a != b, "{0} of {1}: {2!r} != {3!r}",
               where, key, a, b)
        expect(hash(a) == hash(b) and {a: 1}.get(b) == 1 and b in {a},
               "{0} of {1}: {2!r} is not found in a dict", where, key, b)


# -- the other process ---------------------------------------------------------------

HELPER = """
import os, pickle, struct, sys
sys.path[:0] = [{harness!r}, {repo!r}]
sys.path.append({site!r})
out = os.dup(1)
os.dup2(2, 1)
from checks import c33_copies
c33_copies.serve(0, out)
"""


def read_exactly(fd, n):
    data = b""
    while len(data) < n:
        piece = os.read(fd, n - len(data))
        if not piece:
            return None
        data += piece
    return data


def receive(fd):
    head = read_exactly(fd, 8)
    if head is None:
        return None
    return read_exactly(fd, struct.unpack("<Q", head)[0])


def send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def serve(fd_in, fd_out):
    while True:
        data = receive(fd_in)
        if data is None:
            return
        try:
            reply = ("ok", visit(*pickle.loads(data)))
        except Violation as exc:
            reply = ("violation", str(exc))
        except Exception as exc:        # told to the one who asked
            reply = ("violation", "{0}: {1}".format(type(exc).__name__, exc))
        send(fd_out, pickle.dumps(reply))


def visit(data, requests):
    """What the other process does with the objects it is sent."""
    own, pool = Pool(), Pool()
    want = [answer(own, r) for r in requests]
    if data is not None:
        pool.objects.update(pickle.loads(data))
    for key in pool.objects:
        if key in own.objects:
            agree(key, own.objects[key], pool.objects[key], "sent object")
    got = [answer(pool, r) for r in requests]
    return want, got, pickle.dumps(copied(pool.objects))


class Helper:
    process = None
    owner = None

    @classmethod
    def ask(cls, seed, data, requests):
        if cls.owner != os.getpid():
            cls.process, cls.owner = None, os.getpid()
            atexit.register(cls.stop)
        if cls.process is None:
            import core
            env = dict(os.environ, PYTHONHASHSEED=str(1 + seed % 4000))
            code = HELPER.format(
                harness=os.path.dirname(os.path.dirname(
                    os.path.abspath(__file__))),
                repo=core.REPO,
                site="/opt/veriftools/pyvenv/lib/python3.12/site-packages")
            cls.process = subprocess.Popen(
                [sys.executable, "-W", "ignore", "-c", code],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        try:
            send(cls.process.stdin.fileno(), pickle.dumps((data, requests)))
            reply = receive(cls.process.stdout.fileno())
        except BrokenPipeError:
            reply = None
        except BaseException:           # the time limit of the case
            cls.stop()
            raise
        if reply is None:
            cls.stop()
            raise Violation("the other process died on {0}".format(requests))
        kind, value = pickle.loads(reply)
        if kind != "ok":
            raise Violation("in another process: {0}".format(value))
        return value

    @classmethod
    def stop(cls):
        if cls.process is not None and cls.owner == os.getpid():
            cls.process.kill()
            cls.process.wait()
            cls.process.stdin.close()
            cls.process.stdout.close()
            cls.process = None


# -- cases -----------------------------------------------------------------------------


def ints(n):
    return st.integers(0, n)


@st.composite
def copies_case(draw):
    names = sorted(FAMILIES)
    name = draw(st.sampled_from(names + ["fermion", "spin", "lattice"]))
    requests, args = [], None
    for _ in range(draw(st.integers(1, 5))):
        other = list(draw(FAMILIES[name][1]))
        if args is not None:
            k = draw(ints(len(args) - 1))
            other = args[:k] + [other[k]] + args[k + 1:]
        args = other
        requests.append([name, args])
    return {"requests": requests,
            "warm": draw(st.lists(st.booleans(), min_size=len(requests),
                                  max_size=len(requests)).filter(any)),
            "how": draw(st.lists(st.sampled_from(
                ["copy", "deepcopy", 2, 3, 4, 5]), min_size=1, max_size=2))}


def duplicate(objects, how):
    if how == "copy":
        return {k: copy.copy(o) for k, o in objects.items()}
    if how == "deepcopy":
        return copy.deepcopy(objects)
    return pickle.loads(pickle.dumps(objects, protocol=how))


def prepare(case):
    fresh = Pool()
    want = [answer(fresh, r) for r in case["requests"]]
    pool = Pool()
    for warm, request in zip(case["warm"], case["requests"]):
        if warm:
            answer(pool, request)
    return want, pool


def compare(want, got, requests, where):
    for request, a, b in zip(requests, want, got):
        expect(same(a, b), "request {0}: {1}, but {2} {3}", request,
               shorten(a), shorten(b), where)


def check_copies(case, note):
    requests = case["requests"]
    want, pool = prepare(case)
    before = state(pool.objects)
    last = pool
    for how in case["how"]:
        new = Pool()
        objects = copied(last.objects)
        try:
            new.objects = duplicate(objects, how)
        except Exception as exc:
            raise Violation("{0} of {1}: {2}: {3}".format(
                how, list(objects.values()), type(exc).__name__, exc))
        for key, obj in objects.items():
            agree(key, obj, new.objects[key], how)
            note("{0} {1}".format(type(obj).__name__, how))
        fixed = state(new.objects)
        for key in fixed:
            expect(same(fixed[key], before[key]) if last is pool else True,
                   "{0} of {1} is {2}", how, before.get(key), fixed[key])
        compare(want, [answer(new, r) for r in requests], requests,
                "after " + str(how))
        # the original does not notice, and can be copied again
        for obj in new.objects.values():
            if hasattr(obj, "coeff"):
                obj.coeff = 7.25
        for objects in (last.objects, duplicate(copied(last.objects), how)):
            now = state(objects)
            for key in now:
                expect(last is not pool or same(now[key], before[key]),
                       "{0} is {1} after its {2} has been used",
                       before.get(key), now[key], how)
        if last is not pool:
            compare(want, [answer(last, r) for r in requests], requests,
                    "from an object that has been copied")
        last = new
    compare(want, [answer(pool, r) for r in requests], requests,
            "from the original after its copy was used")
    return bool(pool.objects)


@st.composite
def process_case(draw):
    case = draw(copies_case())
    case["how"] = draw(st.sampled_from([2, 3, 4, 5]))
    case["seed"] = draw(st.integers(0, 3999))
    if draw(st.integers(0, 5)) == 0:
        case["requests"] = [["default", draw(default_request())]
                            for _ in range(draw(st.integers(1, 3)))]
        case["warm"] = [True] * len(case["requests"])
    return case


def check_process(case, note):
    requests = case["requests"]
    want, pool = prepare(case)
    objects = copied(pool.objects)
    try:
        data = pickle.dumps(objects, protocol=case["how"])
    except Exception as exc:
        raise Violation("pickle of {0}: {1}: {2}".format(
            list(objects.values()), type(exc).__name__, exc))
    theirs, sent, back = Helper.ask(case["seed"], data, requests)
    compare(want, theirs, requests, "in another process")
    compare(want, sent, requests, "from objects sent to another process")
    home = Pool()
    home.objects = pickle.loads(back)
    for key, obj in objects.items():
        agree(key, obj, home.objects[key], "object back from another process")
        note("{0} {1}".format(type(obj).__name__, case["how"]))
    compare(want, [answer(home, r) for r in requests], requests,
            "from objects back from another process")
    return bool(objects) or requests[0][0] == "default"


SUBS = [
    Sub("copies", copies_case, check_copies, 2500, 60000, shards=5),
    Sub("processes", process_case, check_process, 900, 20000, shards=3),
]
