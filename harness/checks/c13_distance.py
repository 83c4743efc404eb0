"""C13: neighbour distances of the infinite lattice."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from oracles.lattice import HarnessBound
from checks import large
from checks.lattices import (
    box_cost, build, lattice_strategy, supercell)
from HamiltonianPy import Lattice, lattice_generator

PROPERTY = "C13"
SCALE = 5
RULE = (
    "A case is a cluster (skewed vectors, shifted points), a block of several "
    "of its cells, or a named multi-cell cluster, and a history of distance, "
    "bond and decomposition queries on one object. Non-trivial: at least two "
    "distance queries of order 2 or more.")
ASSUMPTIONS = [
    "lattices whose first shells come closer than 0.001 to each other are "
    "left out (the library resolves 0.0001)",
    "clusters so skewed that a search over a box of translations would look "
    "at more than 150000 pairs are left out",
]
LIMIT = 150000
NAMED = {"chain": 1, "square": 2, "triangle": 2, "honeycomb": 2, "kagome": 2,
         "cubic": 3}


@st.composite
def query_list(draw, big):
    kinds = ["dist"] * 5 + ["bonds", "decompose", "index"]
    res = []
    for _ in range(draw(st.integers(2, 6))):
        kind = draw(st.sampled_from(kinds))
        nth = draw(st.sampled_from([2, 1, 3, 4, 5, 8, 6, 0, 7]))
        if kind == "bonds":
            nth = min(nth, 2 if big else 4)
        res.append([kind, nth, draw(st.booleans()), draw(st.booleans())])
    return res


@st.composite
def generic_case(draw):
    lat = draw(lattice_strategy())
    nums = [draw(st.sampled_from([1, 2, 3] if lat["k"] < 3 else [1, 2]))
            for _ in range(lat["k"])]
    return {"lat": lat, "nums": nums, "block": draw(st.booleans()),
            "queries": draw(query_list(False)),
            "perm": draw(st.integers(0, 1000))}


def shuffled(array, number):
    rng = np.random.default_rng(number)
    return array[rng.permutation(len(array))]


def run_queries(lattice, shells, queries, what, note):
    dists = 0
    vectors = lattice.vectors
    for kind, nth, only, fold in queries:
        if kind == "dist":
            got = lattice.neighbor_distance(nth)
            true = shells[nth]
            expect(abs(got - true) <= 0.5e-4 + 1e-9,
                   "{0}: neighbor_distance({1}) is {2} instead of {3:.6f} "
                   "(queries {4})", what, nth, got, true, queries)
            steps = float(got) * 1e4
            expect(abs(steps - round(steps)) < 1e-5,
                   "{0}: neighbor_distance({1}) is not rounded: {2!r}",
                   what, nth, got)
            if nth == 0:
                expect(got == 0, "on-site distance {0}", got)
            dists += nth >= 2
        elif kind == "bonds":
            lattice.bonds(nth, only=only, fold=fold)
        elif kind == "decompose":
            lattice.decompose(lattice.points[0] + vectors[-1])
        else:
            lattice.getIndex(lattice.points[-1], fold=fold)
    note("dist queries {0}".format(dists))
    return dists


def check_generic(case, note):
    lat, crystal, vectors = build(case["lat"])
    try:
        res = crystal.shells(9)
    except HarnessBound:
        res = None
    if res is None:
        note("skipped: shells too close")
        return False
    shells = res[0]
    if case["block"]:
        points, vecs = supercell(crystal.points, vectors, case["nums"])
        if len(points) > 24:
            points, vecs = crystal.points, vectors
        block = Lattice(shuffled(points, case["perm"]),
                        shuffled(vecs, case["perm"]))
        if box_cost(block, shells[-1]) < LIMIT:
            lat = block
            note("block of {0} cells".format(int(np.prod(case["nums"]))))
    if box_cost(lat, shells[-1]) > LIMIT:
        note("skipped: too large a search")
        return False
    what = "{0} points {1}, vectors {2}".format(
        lat.point_num, lat.points.tolist(), lat.vectors.tolist())
    return run_queries(lat, shells, case["queries"], what, note) >= 2


@st.composite
def named_case(draw):
    name = draw(st.sampled_from(sorted(NAMED)))
    dim = NAMED[name]
    nums = [draw(st.sampled_from([1, 2, 3, 4, 5] if dim < 3 else [1, 2, 3]))
            for _ in range(dim)]
    return {"name": name, "nums": nums, "queries": draw(query_list(True))}


PRIMITIVE = {}


def check_named(case, note):
    from oracles.lattice import Crystal
    name, nums = case["name"], case["nums"]
    if name not in PRIMITIVE:
        cell = lattice_generator(name)
        PRIMITIVE[name] = Crystal(cell.points, cell.vectors).shells(9)[0]
    kw = dict(zip(("num0", "num1", "num2"), nums))
    lat = lattice_generator(name, **kw)
    note(name)
    return run_queries(lat, PRIMITIVE[name], case["queries"],
                       "{0} {1}".format(name, nums), note) >= 2


@st.composite
def large_case(draw):
    case = draw(large.block_case())
    case["queries"] = draw(query_list(True))
    return case


def check_large(case, note):
    lat, _, _, shells, _ = large.build_block(case)
    note("{0} points".format(lat.point_num // 50 * 50))
    return run_queries(lat, shells, case["queries"], "{0} {1}".format(
        case["name"], case["nums"]), note) >= 2


SUBS = [
    Sub("large", large_case, check_large, 120, 2000),
    Sub("generic", generic_case, check_generic, 600, 15000, shards=5),
    Sub("named", named_case, check_named, 300, 5000, shards=3),
]
