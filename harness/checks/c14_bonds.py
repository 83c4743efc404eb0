"""C14: lists of bonds."""

from collections import Counter

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from oracles.lattice import Crystal, HarnessBound, canonical_pair
from checks import large
from checks.lattices import box_cost, build, lattice_strategy, supercell
from HamiltonianPy import Lattice, lattice_generator, special_cluster
from HamiltonianPy.bond import Bond

PROPERTY = "C14"
LIMIT = 150000
RULE = (
    "A case is a cluster (skewed vectors, shifted points), a block of several "
    "of its cells, a named multi-cell lattice or a named cluster, an optional "
    "history of other queries, and bond queries of order 0..5 with both "
    "flags. Non-trivial: some query of order 1 or more that has bonds leaving "
    "the cluster.")
ASSUMPTIONS = [
    "lattices whose first shells come closer than 0.001 to each other are "
    "left out (the library resolves 0.0001)",
    "clusters so skewed that a search over a box of translations would look "
    "at more than 150000 pairs are left out",
    "which of two equivalent bonds (translated or reversed) stands in the "
    "list is left free",
]
NAMED = {"chain": 1, "square": 2, "triangle": 2, "honeycomb": 2, "kagome": 2,
         "cubic": 3}
CLUSTERS = [
    "square_cross", "square_12", "cross",
    "square_z", "z", "square_s", "s", "triangle_star", "triangle_13", "star",
    "honeycomb_benzene", "honeycomb_6", "honeycomb_diphenyl", "honeycomb_10",
    "honeycomb_gear", "honeycomb_24"]


@st.composite
def queries(draw, top):
    hist = draw(st.lists(st.tuples(
        st.sampled_from(["dist", "bonds", "decompose"]),
        st.integers(0, top)).map(list), max_size=2))
    wanted = draw(st.lists(st.tuples(
        st.sampled_from([1, 2, 3, 4, 5, 0]).map(lambda n: min(n, top)),
        st.booleans(), st.booleans()).map(list), min_size=1, max_size=3))
    return {"history": hist, "wanted": wanted}


@st.composite
def generic_case(draw):
    lat = draw(lattice_strategy())
    return {"lat": lat, "block": draw(st.booleans()),
            "nums": [draw(st.sampled_from([1, 2, 3] if lat["k"] < 3
                                          else [1, 2]))
                     for _ in range(lat["k"])],
            "q": draw(queries(5))}


def bond_key(crystal, home, bond):
    """
    -> (canonical key relative to the cluster, number of ends in the cluster)
    """
    ends = []
    for p in bond.endpoints:
        where = crystal.locate(p)
        expect(where is not None, "{0!r} ends at no lattice point", bond)
        j, n = where
        ends.append((j, n))
    inside = sum(n == (0,) * len(n) for _, n in ends)
    (i, a), (j, b) = ends
    return canonical_pair(
        i, j, tuple(int(y - x) for x, y in zip(a, b))), inside


def compare(lattice, crystal, shells, pairs, wanted, note, what):
    """`crystal` has the cluster's own points and vectors."""
    found_inter = False
    for nth, only, fold in wanted:
        where = "{0}: bonds({1}, only={2}, fold={3})".format(
            what, nth, only, fold)
        intra, inter = lattice.bonds(nth, only=only, fold=fold)
        note("order {0}".format(nth))
        if nth == 0:
            expect(not inter, "{0}: bonds leaving the cluster", where)
            expect(len(intra) == lattice.point_num, "{0}: {1} bonds", where,
                   len(intra))
            seen = set()
            for bond in intra:
                expect(isinstance(bond, Bond) and bond.directional is True,
                       "{0}: {1!r}", where, bond)
                p, q = bond.endpoints
                expect(np.array_equal(p, q), "{0}: {1!r}", where, bond)
                at = crystal.locate(p)
                expect(at is not None and not any(at[1]), "{0}: {1!r}",
                       where, bond)
                seen.add(at[0])
            expect(len(seen) == lattice.point_num, "{0}: points {1}", where,
                   seen)
            continue
        top = shells[nth]
        low = shells[nth - 1] if only else 0.0
        model = set()
        for d, i, j, n in pairs:
            if low + 1e-6 < d <= top + 1e-6:
                model.add(canonical_pair(i, j, n))
        want_in = Counter(k for k in model if not any(k[2]))
        want_out = Counter(k for k in model if any(k[2]))
        got_in = Counter()
        for bond in intra:
            expect(isinstance(bond, Bond) and bond.directional is True,
                       "{0}: {1!r}", where, bond)
            key, inside = bond_key(crystal, lattice, bond)
            expect(inside == 2, "{0}: {1!r} is not inside the cluster",
                   where, bond)
            got_in[key] += 1
        expect(got_in == want_in, "{0}: bonds inside: missing {1}, extra {2}",
               where, sorted((want_in - got_in).elements())[:4],
               sorted((got_in - want_in).elements())[:4])
        got_out = Counter()
        for bond in inter:
            expect(isinstance(bond, Bond) and bond.directional is True,
                       "{0}: {1!r}", where, bond)
            key, inside = bond_key(crystal, lattice, bond)
            if fold:
                expect(inside == 2, "{0}: {1!r} was not folded", where, bond)
                got_out[key[:2]] += 1
            else:
                expect(inside == 1, "{0}: {1!r} does not leave the cluster",
                       where, bond)
                got_out[key] += 1
        if fold:
            want_out = Counter(
                tuple(sorted(k[:2])) for k in want_out.elements())
            got_out = Counter(
                tuple(sorted(k)) for k in got_out.elements())
        expect(got_out == want_out,
               "{0}: bonds leaving: missing {1}, extra {2}", where,
               sorted((want_out - got_out).elements())[:4],
               sorted((got_out - want_out).elements())[:4])
        if want_out:
            found_inter = True
        if fold:
            note("folded")
    return found_inter


def run(lattice, q, note, what):
    crystal = Crystal(lattice.points, lattice.vectors)
    top = max([n for n, _, _ in q["wanted"]] + [n for _, n in q["history"]])
    try:
        res = crystal.shells(top + 2)
    except HarnessBound:
        res = None
    if res is None or box_cost(lattice, res[0][-1]) > LIMIT:
        note("skipped")
        return False
    shells, pairs = res
    for kind, nth in q["history"]:
        if kind == "dist":
            lattice.neighbor_distance(nth)
        elif kind == "bonds":
            lattice.bonds(nth, only=bool(nth % 2), fold=nth > 2)
        else:
            lattice.decompose(lattice.points[-1] + lattice.vectors[0])
    return compare(lattice, crystal, shells, pairs, q["wanted"], note, what)


def check_generic(case, note):
    lat, crystal, vectors = build(case["lat"])
    if case["block"]:
        points, vecs = supercell(crystal.points, vectors, case["nums"])
        if len(points) <= 16:
            lat = Lattice(points, vecs)
            note("block")
    return run(lat, case["q"], note, "points {0} vectors {1}".format(
        lat.points.tolist(), lat.vectors.tolist()))


@st.composite
def named_case(draw):
    if draw(st.booleans()):
        name = draw(st.sampled_from(CLUSTERS))
        nums = None
    else:
        name = draw(st.sampled_from(sorted(NAMED)))
        nums = [draw(st.sampled_from([1, 2, 3, 4] if NAMED[name] < 3
                                     else [1, 2])) for _ in range(NAMED[name])]
    return {"name": name, "nums": nums, "q": draw(queries(3))}


def check_named(case, note):
    name, nums = case["name"], case["nums"]
    if nums is None:
        lat = special_cluster(name)
    else:
        lat = lattice_generator(name, **dict(
            zip(("num0", "num1", "num2"), nums)))
    if lat.point_num > 24:
        note("skipped: large")
        return False
    note(name)
    return run(lat, case["q"], note, "{0} {1}".format(name, nums))


@st.composite
def large_case(draw):
    case = draw(large.block_case())
    case["wanted"] = draw(st.lists(st.tuples(
        st.sampled_from([1, 2, 3, 5, 0, 4]), st.booleans(), st.booleans()
    ).map(list), min_size=1, max_size=2))
    return case


def check_large(case, note):
    lat, block, cell, shells, pairs = large.build_block(case)
    note("{0} points".format(lat.point_num // 50 * 50))
    return compare(lat, block, shells, block.pairs(cell, pairs),
                   case["wanted"], note, "{0} {1}".format(
                       case["name"], case["nums"]))


SUBS = [
    Sub("large", large_case, check_large, 80, 1500),
    Sub("generic", generic_case, check_generic, 500, 12000, shards=5),
    Sub("named", named_case, check_named, 200, 4000, shards=3),
]
