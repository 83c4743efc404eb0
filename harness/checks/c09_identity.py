"""C09: identity, hashing and order of sites, states and operators."""

import itertools

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from HamiltonianPy import (
    AoC, IndexTable, NumberOperator, SiteID, SpinOperator, StateID)
from HamiltonianPy.quantumoperator import set_float_point_precision

PROPERTY = "C09"
SCALE = 5
RULE = (
    "A case is a class, a precision (4 decimals in most, else 0-8) and three "
    "to six objects whose coordinates come from a small pool, each coordinate "
    "with its own offset below the precision and its own numeric type, in a "
    "list, tuple or array. Non-trivial: the objects are not all equal in the "
    "model and not all different, or at least three are different.")
ASSUMPTIONS = [
    "coordinates are n + f units of the precision with f in {0 (integers "
    "only), 0.2, 0.5, 0.8}, so that floating-point noise cannot move them "
    "across a truncation border",
    "the order of spin operators is only required to be one total order",
    "a precision is set before any object of the case exists, and restored",
]
KINDS = ["SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"]
FRACS = {"a": 0.2, "b": 0.5, "c": 0.8}


@st.composite
def coord_strategy(draw, precision):
    """[n, kind]: kind "i/f/n/g/s/8/u" integers, "a/b/c" n + fraction units."""
    unit = 10 ** precision
    if draw(st.booleans()):
        n = draw(st.sampled_from(
            [0, 1, -1, 2, 3, 10, -2, 100, -100])) * unit
        return ["int", n]
    base = draw(st.sampled_from([0, 1, -1, 3]))
    n = base * unit + draw(st.sampled_from([0, 1, -1, 2, 3333]))
    return ["frac", n]


@st.composite
def case_strategy(draw):
    precision = draw(st.sampled_from([4, 4, 4, 4, 0, 1, 2, 6, 8]))
    kind = draw(st.sampled_from(KINDS))
    dim = draw(st.sampled_from([2, 1, 3]))
    pool = draw(st.lists(
        st.lists(coord_strategy(precision), min_size=dim, max_size=dim),
        min_size=1, max_size=2))
    if draw(st.integers(0, 7)) == 0:
        pool.append(draw(st.lists(coord_strategy(precision), min_size=1,
                                  max_size=3)))
    if draw(st.integers(0, 3)) == 0:
        # two sites whose coordinates differ but have the same hash
        i = draw(st.integers(0, dim - 1))
        pool[0][i] = ["frac", -1]
        pool.append([["frac", -2] if j == i else list(pool[0][j])
                     for j in range(dim)])
    spins, orbits = [0, 1, 1, 2], [0, 0, 1]
    if draw(st.integers(0, 2)) == 0:
        # numbers with which a packed form of the two would not be unique
        b = draw(st.sampled_from(
            [16, 2, 4, 8, 10, 32, 64, 100, 128, 256, 1000, 1 << 16, 1 << 32]))
        spins, orbits = draw(st.sampled_from([
            ([0, 1, 2], [0, b, b + 1, 2 * b]),
            ([0, b, b + 1, 2 * b], [0, 1, 2]),
            ([0, 1, b], [0, 1, b]),
            ([0, 1, (1 << 61) - 1], [0, (1 << 61) - 1])]))
    items = []
    for _ in range(draw(st.sampled_from([3, 4, 5, 6]))):
        site = []
        for k, n in draw(st.sampled_from(pool)):
            if k == "int":
                site.append([n, draw(st.sampled_from("ifngs8"))])
            else:
                site.append([n, draw(st.sampled_from("abc"))])
        items.append({
            "site": site, "spell": draw(st.sampled_from(
                ["tuple", "list", "array"])),
            "spin": draw(st.sampled_from(spins)),
            "orbit": draw(st.sampled_from(orbits)),
            "otype": draw(st.integers(0, 1)),
            "stype": draw(st.sampled_from("xzp")),
        })
    return {"precision": precision, "kind": kind, "items": items}


def value(n, kind, precision):
    unit = 10 ** precision
    if kind in FRACS:
        sign = -1 if n < 0 or (n == 0 and kind == "c") else 1
        return sign * (abs(n) + FRACS[kind]) / unit
    m = n // unit
    return {"i": int, "f": float, "n": np.int64, "g": np.float64,
            "s": np.float32, "8": np.int8}[kind](m)


def site_of(item, precision):
    values = [value(n, k, precision) for n, k in item["site"]]
    if item["spell"] == "array":
        return np.array(values)
    return list(values) if item["spell"] == "list" else tuple(values)


def make(kind, item, precision):
    site = site_of(item, precision)
    if kind == "SiteID":
        return SiteID(site)
    if kind == "StateID":
        return StateID(site=site, spin=item["spin"], orbit=item["orbit"])
    if kind == "AoC":
        return AoC(item["otype"], site=site, spin=item["spin"],
                   orbit=item["orbit"])
    if kind == "NumberOperator":
        return NumberOperator(
            site=site, spin=item["spin"], orbit=item["orbit"])
    return SpinOperator(item["stype"], site=site)


def model(kind, item):
    """(identity, sort key or None); keys compare like the objects."""
    site = tuple(n for n, _ in item["site"])
    state = (site, item["spin"], item["orbit"])
    if kind == "SiteID":
        return site, site
    if kind == "AoC":
        return (item["otype"], state), (item["otype"], state)
    if kind == "SpinOperator":
        return (item["stype"], site), None
    return state, state


def less(kind, a, b):
    if kind == "AoC":
        (ta, sa), (tb, sb) = a, b
        if ta != tb:
            return ta == 1
        return sa < sb if ta == 1 else sb < sa
    return a < b


def check(case, note):
    precision = case["precision"]
    try:
        if precision != 4:
            set_float_point_precision(precision)
        return run(case, note)
    finally:
        set_float_point_precision(4)


def run(case, note):
    kind, precision = case["kind"], case["precision"]
    objs = [make(kind, item, precision) for item in case["items"]]
    models = [model(kind, item) for item in case["items"]]
    n = len(objs)
    relation = {}
    for i, j in itertools.product(range(n), repeat=2):
        x, y = objs[i], objs[j]
        same = models[i][0] == models[j][0]
        what = "{0!r} and {1!r} (precision {2})".format(x, y, precision)
        got = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y,
               "<=": x <= y, ">=": x >= y}
        relation[i, j] = bool(got["<"])
        expect(bool(got["=="]) == same, "equality of {0}: {1}", what, got)
        expect(bool(got["!="]) == (not same), "inequality of {0}", what)
        if same:
            expect(hash(x) == hash(y), "hashes of {0}", what)
            expect(not got["<"] and not got[">"] and got["<="] and got[">="],
                   "order of {0}: {1}", what, got)
        else:
            expect(bool(got["<"]) != bool(got[">"]),
                   "order of {0}: {1}", what, got)
            expect(bool(got["<="]) == bool(got["<"])
                   and bool(got[">="]) == bool(got[">"]),
                   "order of {0}: {1}", what, got)
            if models[i][1] is not None:
                want = less(kind, models[i][1], models[j][1])
                expect(bool(got["<"]) == want, "order of {0}: {1}", what, got)
    for i, j in itertools.product(range(n), repeat=2):
        expect(not (relation[i, j] and relation[j, i]), "not antisymmetric")
        for k in range(n):
            expect(not (relation[i, j] and relation[j, k])
                   or relation[i, k],
                   "not transitive: {0}", [repr(objs[t]) for t in (i, j, k)])
    ranked = sorted(range(n), key=lambda i: sum(
        relation[j, i] for j in range(n)))
    got = sorted(objs)
    for x, i in zip(got, ranked):
        expect(x == objs[i], "sorted() gives {0}", got)
    expect(min(objs) == objs[ranked[0]] and max(objs) == objs[ranked[-1]],
           "min/max")

    # dictionary and table keys
    first = {}
    table = {}
    for i, (ident, _) in enumerate(models):
        first.setdefault(ident, i)
        table.setdefault(objs[i], i)
    for i, (ident, _) in enumerate(models):
        expect(table.get(objs[i]) == first[ident],
               "dictionary lookup of {0!r}", objs[i])
    expect(len(set(objs)) == len(first), "set of {0}", objs)
    reps = [objs[i] for i in first.values()]
    index = IndexTable(reps)
    for i, (ident, _) in enumerate(models):
        want = list(first).index(ident)
        expect(index(objs[i]) == want, "table lookup of {0!r}", objs[i])
        expect(objs[i].getIndex(index) == want, "getIndex")
    if kind in ("AoC", "NumberOperator"):
        states = {}
        for i, item in enumerate(case["items"]):
            states.setdefault(model("StateID", item)[0], i)
        reps = [make("StateID", case["items"][i], precision)
                for i in states.values()]
        index = IndexTable(reps)
        for x, item in zip(objs, case["items"]):
            expect(x.getStateIndex(index) == list(states).index(
                model("StateID", item)[0]), "getStateIndex of {0!r}", x)
            state = make("StateID", item, precision)
            expect(x.state == state and hash(x.state) == hash(state),
                   "state of {0!r}", x)
    if kind == "SpinOperator":
        sites = {}
        for i, item in enumerate(case["items"]):
            sites.setdefault(model("SiteID", item)[0], i)
        index = IndexTable([make("SiteID", case["items"][i], precision)
                            for i in sites.values()])
        for x, item in zip(objs, case["items"]):
            expect(x.getSiteIndex(index) == list(sites).index(
                model("SiteID", item)[0]), "getSiteIndex of {0!r}", x)
            site = make("SiteID", item, precision)
            expect(x.site_id == site and hash(x.site_id) == hash(site),
                   "site of {0!r}", x)

    # attributes, copies, daggers, conjugates
    for x, item in zip(objs, case["items"]):
        want = [float(value(a, b, precision)) for a, b in item["site"]]
        expect([float(c) for c in x.coordinate] == want
               and isinstance(x.coordinate, tuple),
               "coordinate {0!r}", x.coordinate)
        expect(isinstance(x.site, np.ndarray)
               and [float(c) for c in x.site] == want, "site {0!r}", x.site)
        if kind in ("StateID", "AoC", "NumberOperator"):
            expect(x.spin == item["spin"] and x.orbit == item["orbit"],
                   "attributes of {0!r}", x)
    if kind in ("AoC", "NumberOperator", "SpinOperator"):
        for i, j in itertools.product(range(n), repeat=2):
            x, y = objs[i], objs[j]
            src, other = case["items"][i], case["items"][j]
            moved = x.derive(site=y.coordinate)
            item = dict(src, site=other["site"])
            target = make(kind, item, precision)
            expect(moved == target and hash(moved) == hash(target),
                   "derive(site=...) of {0!r}: {1!r}", x, moved)
            if kind == "SpinOperator":
                expect(x.same_site(y) == (
                    model("SiteID", src) == model("SiteID", other)),
                    "same_site of {0!r}, {1!r}", x, y)
                swap = {"p": "m"}.get(src["stype"], src["stype"])
                d = make(kind, dict(src, stype=swap), precision)
                expect(x.dagger() == d and x.conjugate_of(d)
                       and d.conjugate_of(x), "conjugate of {0!r}", x)
                z = x.derive(otype=other["stype"])
                expect(z == make(kind, dict(src, stype=other["stype"]),
                                 precision), "derive(otype)")
                continue
            z = x.derive(spin=other["spin"], orbit=other["orbit"])
            expect(z == make(kind, dict(
                src, spin=other["spin"], orbit=other["orbit"]), precision),
                "derive(spin, orbit) of {0!r}: {1!r}", x, z)
            if kind == "NumberOperator":
                continue
            same = model("StateID", src) == model("StateID", other)
            expect(x.same_state(y) == same, "same_state {0!r} {1!r}", x, y)
            expect(x.conjugate_of(y) == (
                same and src["otype"] != other["otype"]),
                "conjugate_of {0!r} {1!r}", x, y)
            d = make(kind, dict(src, otype=1 - src["otype"]), precision)
            expect(x.dagger() == d and hash(x.dagger()) == hash(d),
                   "dagger of {0!r}", x)
            z = x.derive(otype=other["otype"])
            expect(z == make(kind, dict(src, otype=other["otype"]),
                             precision), "derive(otype)")

    # objects of another class are never equal
    for k in KINDS:
        if k == kind:
            continue
        for item in case["items"][:2]:
            other = make(k, item, precision)
            for x in objs[:2]:
                expect(not (x == other) and not (other == x) and x != other
                       and other != x, "{0!r} equals {1!r}", x, other)
                expect(len({x, other}) == 2, "set of {0!r} {1!r}", x, other)
    for x in objs[:1]:
        for other in (None, 3, "x", tuple(x.coordinate)):
            expect(not (x == other) and x != other, "{0!r} equals {1!r}",
                   x, other)
    note(kind)
    note("precision {0}".format(precision))
    distinct = len(first)
    note("{0} of {1} distinct".format(distinct, n))
    return distinct >= 3 or 1 < distinct < n


SUBS = [Sub("identity", case_strategy, check, 1500, 40000, shards=4)]
