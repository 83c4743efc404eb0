"""C01: Fock basis enumeration."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from oracles import fock
from checks import large
from HamiltonianPy import base_vectors
from HamiltonianPy import hilbertspace as hs

PROPERTY = "C01"
RULE = (
    "A case is a list of 1-4 disjoint groups (states drawn from 0..63 with "
    "gaps, particle number fixed or negative, one of the documented spellings "
    "each), a container and a history of queries; or an invalid specifier "
    "list. Non-trivial: more than one base vector and either several groups, a "
    "constrained particle number, a gap in the states, or an invalid list.")
ASSUMPTIONS = [
    "states within one group are distinct Python integers (the documented "
    "input); array output is compared up to state index 63, list and tuple "
    "output also above",
]

REJECT = (ValueError, TypeError, AssertionError)


def materialize(group):
    """JSON group -> a specifier in the spelling it asks for."""
    states, p, spelling = group["states"], group["p"], group["spelling"]
    contiguous = states == list(range(len(states)))
    if spelling == "int" and contiguous and p < 0:
        return len(states)
    if spelling in ("int", "pair") and contiguous:
        return (len(states), p)
    if spelling == "listpair" and contiguous:
        return [len(states), p]
    if spelling == "set":
        return (set(states), p)
    if spelling == "list":
        return [list(states), p]
    return (tuple(states), p)


@st.composite
def groups_strategy(draw, max_states=9, high=None):
    if high is None:
        high = draw(st.sampled_from([8, 12, 30, 63, 63]))
    n = draw(st.integers(1, max_states))
    if draw(st.booleans()) and draw(st.booleans()):
        pool = list(range(n))
    else:
        pool = draw(st.lists(
            st.integers(0, max(high, n)), min_size=n, max_size=n, unique=True))
        if draw(st.booleans()):
            pool = sorted(pool)
    groups = []
    rest = pool
    while rest:
        k = draw(st.integers(1, len(rest)))
        if len(groups) == 3:
            k = len(rest)
        states, rest = rest[:k], rest[k:]
        p = draw(st.integers(-1, k))
        if p < 0:
            p = draw(st.sampled_from([-1, -2, -7]))
        groups.append({
            "states": states, "p": p,
            "spelling": draw(st.sampled_from(
                ["int", "pair", "listpair", "tuple", "list", "set"])),
        })
    return groups


def size(groups):
    from math import comb
    res = 1
    for g in groups:
        n = len(g["states"])
        res *= 2 ** n if g["p"] < 0 else comb(n, g["p"])
    return res


@st.composite
def valid_case(draw):
    return {
        "groups": draw(groups_strategy()),
        "container": draw(st.sampled_from(["array", "list", "tuple"])),
        "history": draw(st.lists(st.tuples(
            st.sampled_from(["array", "list", "tuple"]), st.booleans()),
            max_size=3)),
        "call": draw(st.booleans()),
    }


def verify(res, container, sort, want, what):
    kinds = {"array": np.ndarray, "list": list, "tuple": tuple}
    expect(isinstance(res, kinds[container]),
           "{0}: container {1} requested, got {2}", what, container, type(res))
    if container == "array":
        expect(res.ndim == 1 and res.dtype == np.uint64,
               "{0}: array of shape {1}, dtype {2}", what, res.shape, res.dtype)
    got = [int(x) for x in res]
    expect(len(got) == len(want) and sorted(got) == want,
           "{0}: base vectors {1} instead of {2}", what,
           sorted(got)[:40], want[:40])
    if sort:
        expect(got == want, "{0}: not ascending: {1}", what, got[:40])


def check_valid(case, note):
    groups = case["groups"]
    want = fock.enumerate_space([(g["states"], g["p"]) for g in groups])
    specs = [materialize(g) for g in groups]
    single = len(groups) == 1
    spaces = [("HilbertSpace", hs.HilbertSpace(*specs))]
    if single:
        g = groups[0]
        spec = specs[0]
        if isinstance(spec, int):
            spaces.append(("SimpleHilbertSpace", hs.SimpleHilbertSpace(spec)))
        else:
            spaces.append(
                ("SimpleHilbertSpace", hs.SimpleHilbertSpace(*spec)))
        simple = spaces[-1][1]
        expect(simple.state_number == len(g["states"]), "state_number")
        expect(sorted(simple.single_particle_states) == sorted(g["states"]),
               "single_particle_states {0}", simple.single_particle_states)
        n = simple.particle_number
        expect(n == g["p"] if g["p"] >= 0 else n < 0, "particle_number {0}", n)
    space = spaces[0][1]
    expect(space.subspace_number == len(groups), "subspace_number")
    std = space.subspace_specifiers
    expect(len(std) == len(groups), "number of standard specifiers")
    for item, g in zip(std, groups):
        expect(isinstance(item, tuple) and len(item) == 2
               and isinstance(item[0], tuple)
               and sorted(item[0]) == sorted(g["states"])
               and (item[1] == g["p"] or (item[1] < 0 and g["p"] < 0)),
               "standard form {0} of {1}", item, g)
    for container, sort in [(case["container"], True)] + case["history"] + [
            (case["container"], False), (case["container"], True)]:
        verify(base_vectors(*specs, container=container, sort=sort),
               container, sort, want, "base_vectors")
        for name, obj in spaces:
            func = obj if case["call"] else obj.base_vectors
            verify(func(container=container, sort=sort), container, sort,
                   want, name)
    for bad in ("Array", "dict", "", None):
        for func in [spaces[0][1].base_vectors, spaces[-1][1].base_vectors,
                     lambda **kw: base_vectors(*specs, **kw)]:
            with raises(REJECT, "container={0!r}".format(bad)):
                func(container=bad)
    # default arguments and the standard form itself
    verify(base_vectors(*specs), "array", True, want, "base_vectors defaults")
    validity = getattr(hs, "is_valid_subspace_specifier", None)
    for spec in specs if validity is not None else ():
        expect(validity(spec) is True, "{0!r} called invalid", spec)
    verify(base_vectors(*std), "array", True, want, "standard specifiers")
    for name, obj in spaces:
        verify(obj.base_vectors(), "array", True, want, name + " defaults")
    # the specifiers themselves were not touched
    expect(specs == [materialize(g) for g in groups], "specifiers modified")
    flat = [s for g in groups for s in g["states"]]
    note("groups={0}".format(len(groups)))
    if max(flat) >= 32:
        note("states>=32")
    if max(flat) == 63:
        note("state 63")
    if any(g["p"] >= 0 for g in groups):
        note("constrained")
    if any(g["p"] == 0 for g in groups):
        note("empty sector")
    return len(want) > 1 and (
        len(groups) > 1 or any(g["p"] >= 0 for g in groups)
        or sorted(flat) != list(range(len(flat))))


@st.composite
def big_case(draw):
    """More states than one word: only list and tuple containers."""
    groups = draw(groups_strategy(max_states=6, high=150))
    return {"groups": groups,
            "container": draw(st.sampled_from(["list", "tuple"]))}


def check_big(case, note):
    groups = case["groups"]
    want = fock.enumerate_space([(g["states"], g["p"]) for g in groups])
    specs = [materialize(g) for g in groups]
    res = base_vectors(*specs, container=case["container"])
    verify(res, case["container"], True, want, "base_vectors")
    res = hs.HilbertSpace(*specs)(container=case["container"])
    verify(res, case["container"], True, want, "HilbertSpace")
    high = max(s for g in groups for s in g["states"])
    note("states>=64" if high >= 64 else "states<64")
    return len(want) > 1 and high >= 64


BAD = [
    "too_many_int", "too_many_states", "overlap", "zero", "negative",
    "empty", "negative_state", "float_state", "float", "none", "string",
    "triple", "single", "string_states", "zero_pair", "negative_pair",
    "overlap", "overlap", "same_group", "overlap_int", "float_number",
]
OVERLAPS = ("overlap", "same_group", "overlap_int")


@st.composite
def invalid_case(draw):
    return {
        "groups": draw(groups_strategy(max_states=6)),
        "kind": draw(st.sampled_from(BAD)),
        "at": draw(st.integers(0, 3)),
        "n": draw(st.integers(1, 5)),
        # which state of which group is met again, and the spelling
        "pick": draw(st.tuples(st.integers(0, 3), st.integers(0, 5))),
        "spelling": draw(st.sampled_from(["tuple", "list", "set"])),
    }


def bad_specifier(kind, n, groups, pick=(0, 0), spelling="tuple"):
    bad = plain_bad(kind, n, groups, pick)
    if isinstance(bad, tuple) and len(bad) == 2:
        states, p = bad
        if isinstance(states, tuple):
            states = {"tuple": tuple, "list": list, "set": set}[
                spelling](states)
        bad = [states, p] if spelling == "list" else (states, p)
    return bad


def plain_bad(kind, n, groups, pick):
    group = groups[pick[0] % len(groups)]["states"]
    state = group[pick[1] % len(group)]
    if kind == "same_group":
        return (tuple(group), len(group))
    if kind == "overlap_int":
        return state + 1 if pick[1] % 2 else (state + n, 1)
    return {
        "too_many_int": (n, n + 1),
        "too_many_states": (tuple(range(70, 70 + n)), n + 1),
        "overlap": ((99, state) if n % 2 else (state, 99), 1),
        "zero": 0, "negative": -n, "empty": ((), 0),
        "negative_state": ((100, -n), 1),
        "float_state": ((100, 101.0), 1),
        "float": float(n), "none": None, "string": "ab"[:1],
        "triple": (n, 0, 0), "single": (n,), "string_states": ("ab", 1),
        "float_number": (n, 0.5), "zero_pair": (0, 0), "negative_pair": (-n, -n - 1),
    }[kind]


def check_invalid(case, note):
    groups = case["groups"]
    kind = case["kind"]
    bad = bad_specifier(kind, case["n"], groups, case.get("pick", (0, 0)),
                        case.get("spelling", "tuple"))
    specs = [materialize(g) for g in groups]
    at = min(case["at"], len(specs))
    if kind not in OVERLAPS:
        # shift the good groups away so that only the bad one is wrong
        specs = [(tuple(s + 200 for s in g["states"]), g["p"]) for g in groups]
    specs.insert(at, bad)
    note(kind)
    with raises(REJECT, "base_vectors with {0!r} in {1!r}".format(bad, specs)):
        base_vectors(*specs, container="list")
    with raises(REJECT, "HilbertSpace with {0!r}".format(bad)):
        space = hs.HilbertSpace(*specs)
        if kind == "float_number":
            space.base_vectors()
    if kind not in OVERLAPS + ("single", "triple"):
        with raises(REJECT, "SimpleHilbertSpace({0!r})".format(bad)):
            if isinstance(bad, (tuple, list)):
                hs.SimpleHilbertSpace(*bad)
            else:
                hs.SimpleHilbertSpace(bad)
    if kind not in OVERLAPS + ("float_number",):
        validity = getattr(hs, "is_valid_subspace_specifier", None)
        if validity is not None:
            expect(validity(bad) is False, "{0!r} is called valid", bad)
            for good in specs:
                if good is not bad:
                    expect(validity(good) is True, "{0!r} called invalid", good)
    with raises(REJECT, "container"):
        base_vectors(3, container="set")
    return True


@st.composite
def large_case(draw):
    groups = draw(large.sector_strategy(1 << 18))
    return {"groups": groups, "container": draw(st.sampled_from(
        ["array", "array", "list", "tuple"]))}


def check_large(case, note):
    """Sectors with up to 262144 base vectors."""
    groups = case["groups"]
    want = large.sector(groups)
    specs = [(tuple(states), p) for states, p in groups]
    functions = [("base_vectors", lambda **kw: base_vectors(*specs, **kw)),
                 ("HilbertSpace", hs.HilbertSpace(*specs))]
    if len(specs) == 1:
        functions.append(
            ("SimpleHilbertSpace", hs.SimpleHilbertSpace(*specs[0])))
    for name, function in functions:
        for sort in (True, False):
            res = function(container=case["container"], sort=sort)
            expect(isinstance(res, {"array": np.ndarray, "list": list,
                                    "tuple": tuple}[case["container"]]),
                   "{0}: container {1}", name, type(res))
            got = np.array(res, dtype=np.uint64)
            if not sort:
                got = np.sort(got)
            expect(np.array_equal(got, want), "{0} of {1}: {2} base vectors "
                   "instead of {3}, or other ones", name, groups, len(got),
                   len(want))
    note("vectors {0}".format(1 << int(np.log2(len(want)))))
    return len(want) > 256


SUBS = [
    Sub("large", large_case, check_large, 30, 500),
    Sub("valid", valid_case, check_valid, 1500, 20000, shards=3),
    Sub("bigstates", big_case, check_big, 300, 3000),
    Sub("invalid", invalid_case, check_invalid, 600, 5000),
]
