"""C10: index tables."""

import re

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from checks.common import ANY_SPELLINGS, spelled, state_lists
from HamiltonianPy import (
    AoC, IndexTable, NumberOperator, SiteID, SpinOperator, StateID)

PROPERTY = "C10"
SCALE = 5
RULE = (
    "A case is up to 12 distinct objects of one class (integers, strings, "
    "tuples, frozen sets, sites, states, operators, sites mixed with states), "
    "given as list, tuple, generator or dictionary, a start in -50..10^6, and "
    "a history of queries; or such a list with one duplicate or one object "
    "of another class put in. Non-trivial: at least two objects.")
ASSUMPTIONS = [
    "objects are hashable, of one class or its subclasses (first object of "
    "the base class)",
    "booleans are not used as objects or indices",
]
KINDS = ["int", "str", "tuple", "frozenset", "SiteID", "StateID", "AoC",
         "NumberOperator", "SpinOperator", "SiteID+StateID"]


@st.composite
def object_lists(draw, min_size=1):
    kind = draw(st.sampled_from(KINDS))
    if kind == "int":
        items = draw(st.lists(st.integers(-100, 100), unique=True,
                              min_size=min_size, max_size=12))
    elif kind == "str":
        items = draw(st.lists(st.text("abAB_0", max_size=3), unique=True,
                              min_size=min_size, max_size=12))
    elif kind == "tuple":
        items = draw(st.lists(
            st.lists(st.integers(0, 2), max_size=3), unique_by=tuple,
            min_size=min_size, max_size=12))
    elif kind == "frozenset":
        items = draw(st.lists(
            st.lists(st.integers(0, 3), max_size=3, unique=True),
            unique_by=frozenset, min_size=min_size, max_size=8))
    else:
        states = draw(state_lists(max(min_size, 2), 8))
        if kind in ("SiteID", "SpinOperator", "SiteID+StateID"):
            seen = {}
            for s, _, _ in states:
                seen.setdefault(tuple(int(10000 * x) for x in s), s)
            sites = list(seen.values())
        if kind == "SiteID":
            items = [[s] for s in sites]
        elif kind == "SpinOperator":
            items = [[t, s] for s in sites for t in "xzp"]
        elif kind == "SiteID+StateID":
            items = [[s] for s in sites] + [list(x) for x in states]
        elif kind == "AoC":
            items = [[t] + list(x) for x in states for t in (0, 1)]
        else:
            items = [list(x) for x in states]
        items = draw(st.permutations(items))
        if kind == "SiteID+StateID":
            k = next(i for i, x in enumerate(items) if len(x) == 1)
            items[0], items[k] = items[k], items[0]
        items = items[:draw(st.integers(max(min_size, 2), 12))]
    return {"kind": kind, "items": list(items)}


def make(kind, item, spelling="tuple"):
    if kind in ("int", "str"):
        return item
    if kind == "tuple":
        return tuple(item)
    if kind == "frozenset":
        return frozenset(item)
    if kind == "SiteID+StateID":
        kind = "SiteID" if len(item) == 1 else "StateID"
    if kind == "SiteID":
        return SiteID(spelled(item[0], spelling))
    if kind == "StateID":
        return StateID(site=spelled(item[0], spelling), spin=item[1],
                       orbit=item[2])
    if kind == "NumberOperator":
        return NumberOperator(site=spelled(item[0], spelling), spin=item[1],
                              orbit=item[2])
    if kind == "AoC":
        return AoC(item[0], site=spelled(item[1], spelling), spin=item[2],
                   orbit=item[3])
    return SpinOperator(item[0], site=spelled(item[1], spelling))


CLASSES = {"int": int, "str": str, "tuple": tuple, "frozenset": frozenset,
           "SiteID": SiteID, "StateID": StateID, "AoC": AoC,
           "NumberOperator": NumberOperator, "SpinOperator": SpinOperator,
           "SiteID+StateID": SiteID}
#: values that are no instance of the class in the same row
FOREIGN = {"int": "1", "str": 1, "tuple": 7, "frozenset": (1,)}


def as_input(objs, form):
    if form == "tuple":
        return tuple(objs)
    if form == "generator":
        return (x for x in objs)
    if form == "keys":
        return dict.fromkeys(objs).keys()
    return list(objs)


@st.composite
def query_case(draw):
    objs = draw(object_lists())
    return {"objs": objs,
            "start": draw(st.one_of(
                st.none(), st.sampled_from([0, 1, 2, 5, -1, -3, 63]),
                st.integers(-50, 10 ** 6))),
            "form": draw(st.sampled_from(
                ["list", "tuple", "generator", "keys"])),
            "held": draw(st.integers(0, len(objs["items"]) - 1)),
            "spell": draw(ANY_SPELLINGS),
            "queries": draw(st.lists(st.tuples(
                st.sampled_from(["index", "call", "object", "len", "iter",
                                 "views", "str", "missing", "range",
                                 "foreign", "badindex"]),
                st.integers(0, 11)).map(list), max_size=12))}


def check_query(case, note):
    kind, items = case["objs"]["kind"], case["objs"]["items"]
    objs = [make(kind, x) for x in items]
    # one object is held back, as a key that the table does not know
    held = case["held"]
    unknown = None
    first_only = kind == "SiteID+StateID" and sum(
        len(x) == 1 for x in items) == 1
    if len(objs) > 1 and not (held == 0 and kind == "SiteID+StateID") \
            and not first_only:
        unknown = make(kind, items[held], case["spell"])
        objs = objs[:held] + objs[held + 1:]
        items = items[:held] + items[held + 1:]
    start = case["start"]
    given = as_input(objs, case["form"])
    if start is None:
        table, start = IndexTable(given), 0
    else:
        table = IndexTable(given, start=start)
    if isinstance(given, list):
        given.clear()
    n = len(objs)
    expect(table.object_type is type(objs[0]), "object_type {0}",
           table.object_type)

    def full(what):
        expect(len(table) == n, "{0}: length {1}", what, len(table))
        expect(list(table) == [(start + i, x) for i, x in enumerate(objs)],
               "{0}: iteration gives {1}", what, list(table)[:5])
        expect(list(table.indices()) == list(range(start, start + n)),
               "{0}: indices {1}", what, list(table.indices())[:5])
        expect(list(table.objects()) == objs, "{0}: objects {1}", what,
               list(table.objects())[:5])
        for i, (x, item) in enumerate(zip(objs, items)):
            again = make(kind, item, case["spell"])
            expect(table.query_index(again) == start + i
                   and table(again) == start + i,
                   "{0}: index of {1!r}", what, again)
            got = table.query_object(start + i)
            expect(got == x and type(got) is type(x),
                   "{0}: object {1}: {2!r}", what, start + i, got)

    full("new table")
    for what, k in case["queries"]:
        i = k % n
        note(what)
        if what == "index":
            expect(table.query_index(make(kind, items[i], case["spell"]))
                   == start + i, "query_index({0!r})", objs[i])
            if kind not in ("int", "str", "tuple", "frozenset"):
                expect(objs[i].getIndex(table) == start + i, "getIndex")
        elif what == "call":
            expect(table(objs[i]) == start + i, "table({0!r})", objs[i])
        elif what == "object":
            expect(table.query_object(start + i) == objs[i],
                   "query_object({0})", start + i)
        elif what == "len":
            expect(len(table) == n, "len {0}", len(table))
        elif what == "iter":
            a, b = iter(table), iter(table)
            next(a)
            expect(next(b) == (start, objs[0]), "iterators are not separate")
        elif what == "views":
            expect(len(table.indices()) == n and len(table.objects()) == n
                   and start + i in table.indices()
                   and objs[i] in table.objects(), "views")
        elif what == "str":
            # layout is free; every index appears beside its object
            lines = str(table).splitlines()
            for j, x in enumerate(objs):
                expect(any(
                    re.match(r"\s*{0}(\s.*)?$".format(start + j), line)
                    and repr(x) in line for line in lines),
                    "str() has no line for {0}: {1!r}", start + j, x)
        elif what == "missing":
            if unknown is not None:
                with raises(KeyError, "query_index of an unknown object"):
                    table.query_index(unknown)
                with raises(KeyError, "call with an unknown object"):
                    table(unknown)
        elif what == "range":
            for index in (start - 1 - k, start + n + k):
                with raises(KeyError, "query_object({0})".format(index)):
                    table.query_object(index)
        elif what == "foreign":
            other = [FOREIGN.get(kind, "x"), None]
            if kind in ("StateID", "NumberOperator", "AoC"):
                other += [SiteID(objs[0].coordinate)]
            if kind == "NumberOperator":
                other += [objs[0].state]
            for bad in other:
                with raises(TypeError, "query_index({0!r})".format(bad)):
                    table.query_index(bad)
                with raises(TypeError, "table({0!r})".format(bad)):
                    table(bad)
        else:
            for bad in (float(start), "0", None, (start,)):
                with raises(TypeError, "query_object({0!r})".format(bad)):
                    table.query_object(bad)
    full("after the queries")
    note(kind)
    return n > 1


@st.composite
def bad_case(draw):
    objs = draw(object_lists(2))
    n = len(objs["items"])
    return {"objs": objs, "what": draw(st.sampled_from(
        ["duplicate", "mixed"])),
            "src": draw(st.integers(0, n - 1)),
            "dst": draw(st.integers(1, n)),
            "form": draw(st.sampled_from(["list", "tuple", "generator"])),
            "start": draw(st.sampled_from([0, 1, -2, 100])),
            "spell": draw(ANY_SPELLINGS)}


def check_bad(case, note):
    kind, items = case["objs"]["kind"], case["objs"]["items"]
    objs = [make(kind, x) for x in items]
    src, dst = case["src"], case["dst"]
    if case["what"] == "duplicate":
        objs.insert(dst, make(kind, items[src], case["spell"]))
        want = ValueError
    else:
        if kind == "StateID":
            bad = SiteID(objs[0].coordinate)
        else:
            bad = FOREIGN.get(kind, "x")
        objs.insert(dst, bad)
        want = TypeError
    with raises(want, "{0} object at {1} of {2!r}".format(
            case["what"], dst, objs)):
        IndexTable(as_input(objs, case["form"]), start=case["start"])
    note(case["what"])
    note(kind)
    return True


@st.composite
def large_case(draw):
    return {"n": draw(st.sampled_from([300, 1000, 4000])),
            "kind": draw(st.sampled_from(["StateID", "SiteID", "AoC", "int"])),
            "seed": draw(st.integers(0, 10 ** 6)),
            "start": draw(st.sampled_from([0, 0, 1, -7, 100]))}


def check_large(case, note):
    """Thousands of objects in random order."""
    rng = np.random.default_rng(case["seed"])
    n, start, kind = case["n"], case["start"], case["kind"]

    def one(k):
        k = int(k)
        site = (k % 37, 0.25 * (k // 37 % 29), -0.5 * (k // 1073))
        return {"int": lambda: 3 * k - n, "SiteID": lambda: SiteID(site),
                "StateID": lambda: StateID(site[:2], k // 1073, k % 3),
                "AoC": lambda: AoC(k % 2, site[:2], k // 1073, k % 3)}[kind]()

    keys = rng.permutation(2 * n)
    table = IndexTable((one(k) for k in keys[:n]), start=start)
    expect(len(table) == n, "length {0} instead of {1}", len(table), n)
    for pos in rng.permutation(n)[:200]:
        pos = int(pos)
        obj = one(keys[pos])
        expect(table.query_index(obj) == start + pos and table(obj)
               == start + pos, "index of {0!r}: {1} instead of {2}", obj,
               table.query_index(obj), start + pos)
        expect(table.query_object(start + pos) == obj, "object {0}: {1!r} "
               "instead of {2!r}", start + pos, table.query_object(start + pos),
               obj)
    expect([i for i, _ in table] == list(range(start, start + n))
           and [o for _, o in table] == [one(k) for k in keys[:n]],
           "iteration")
    for k in keys[n:n + 20]:
        with raises(KeyError, "unknown object"):
            table(one(k))
    for bad in (start - 1, start + n):
        with raises(KeyError, "unknown index"):
            table.query_object(bad)
    again = [one(k) for k in keys[:n]]
    again.insert(int(rng.integers(1, n + 1)), one(keys[int(rng.integers(n))]))
    with raises(ValueError, "duplicate among {0}".format(n)):
        IndexTable(again, start=start)
    return True


SUBS = [
    Sub("large", large_case, check_large, 30, 600),
    Sub("queries", query_case, check_query, 1200, 30000, shards=3),
    Sub("rejections", bad_case, check_bad, 600, 10000, shards=2),
]
