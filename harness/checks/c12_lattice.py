"""C12: folding of points into the cluster, site indices, reciprocal vectors."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from checks import large
from checks.lattices import build, lattice_strategy, whole
from HamiltonianPy import Lattice

PROPERTY = "C12"
RULE = (
    "A case is a cluster (1-3 translation vectors in 1-3 dimensions, vectors "
    "skewed by a unimodular matrix, points shifted by lattice vectors) and a "
    "history of queries on one object: lattice points near and far, points "
    "with floating-point noise, off-lattice points. Non-trivial: some query "
    "is a lattice point outside the cluster.")
ASSUMPTIONS = [
    "far points are limited by the memory a search over all translations up "
    "to their distance needs (about 20000 translations)",
    "off-lattice points are at least 0.00025 away from every lattice point, "
    "noise on lattice points is below 1e-9 relative",
]


@st.composite
def case_strategy(draw):
    lat = draw(lattice_strategy())
    k = lat["k"]
    reach = {1: 40, 2: 9, 3: 3}[k]
    queries = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(
            ["far", "near", "home", "off", "decimal"]))
        r = {"far": reach, "near": 1, "home": 0, "off": 2, "decimal": 2}[kind]
        queries.append({
            "kind": kind, "j": draw(st.integers(0, 5)),
            "n": draw(st.lists(st.integers(-r, r), min_size=k, max_size=k)),
            "frac": draw(st.lists(
                st.sampled_from([0.02, 0.37, -0.21, 0.5, 0, 0.003, 0.0006]),
                min_size=lat["d"], max_size=lat["d"])),
            "op": draw(st.sampled_from(
                ["all", "decompose", "fold", "index", "member"])),
            "noise": draw(st.sampled_from([0, 0, 1e-10, -1e-10])),
        })
    return {"lat": lat, "queries": queries}


def check(case, note):
    lat, crystal, vectors = build(case["lat"])
    points, basis = crystal.points, crystal.basis
    n, (k, d) = len(points), vectors.shape
    expect(lat.point_num == n and lat.space_dim == d and lat.trans_dim == k,
           "shape attributes")
    expect(np.array_equal(lat.points, points)
           and np.array_equal(lat.vectors, vectors), "points or vectors")
    bs = lat.bs
    expect(bs.shape == (k, d), "shape of bs {0}", bs.shape)
    size = max(1.0, float(np.abs(vectors).max() * np.abs(bs).max()))
    expect(np.max(np.abs(vectors @ bs.T - 2 * np.pi * np.identity(k)))
           < 1e-9 * size, "a_i . b_j: {0}", vectors @ bs.T)
    inside = np.linalg.lstsq(vectors.T, bs.T, rcond=None)[0].T @ vectors
    expect(np.max(np.abs(inside - bs)) < 1e-8 * size,
           "bs are not in the span of the vectors: {0}", bs)
    for i, p in enumerate(points):
        expect(np.array_equal(lat.getSite(i), p), "getSite({0})", i)

    nontrivial = False
    bnorm = np.linalg.norm(bs, axis=1).max() / 2 / np.pi
    limit = {1: 3000, 2: 60, 3: 12}[k]
    for q in case["queries"]:
        j = q["j"] % n
        shift = np.array(q["n"]) @ basis
        p = points[j] + shift
        if q["kind"] in ("off", "decimal"):
            move = np.array(q["frac"]) * case["lat"]["scale"]
            p = p + move
            if crystal.distance_to_lattice(p) < 2.5e-4:
                if crystal.locate(p) is None:
                    continue
                q = dict(q, kind="near")
                j, m = crystal.locate(p)
                shift = np.array(m) @ basis
        reach = np.max(np.linalg.norm(p - points, axis=1)) + 1
        spread = np.max(np.ptp(points @ bs.T, axis=0)) / 2 / np.pi
        if bnorm * reach + spread > limit:
            note("too far, skipped")
            continue
        op = q["op"]
        p = whole(p, case["lat"].get("dtype", "float"))
        before = p.copy()
        if q["kind"] in ("off", "decimal"):
            note("off-lattice")
            if op in ("all", "decompose"):
                with raises(RuntimeError, "decompose({0})".format(p)):
                    lat.decompose(p)
            if op in ("all", "fold"):
                with raises(KeyError, "getIndex({0}, fold)".format(p)):
                    lat.getIndex(p, fold=True)
            if op in ("all", "index"):
                with raises(KeyError, "getIndex({0})".format(p)):
                    lat.getIndex(p)
            if op in ("all", "member"):
                expect(not lat.in_cluster(p), "in_cluster({0})", p)
            continue
        if q["noise"]:
            p = p + q["noise"] * max(1.0, float(np.abs(p).max()))
        before = p.copy()
        home = not np.any(np.abs(shift) > 1e-9)
        if op in ("all", "decompose"):
            site, dr = lat.decompose(p)
            expect(np.array_equal(site, points[j]),
                   "decompose({0}): point {1} instead of {2}", p, site,
                   points[j])
            expect(np.max(np.abs(dr - shift))
                   < 1e-7 * max(1.0, float(np.abs(p).max())),
                   "decompose({0}): translation {1} instead of {2}", p, dr,
                   shift)
            site += 1
            expect(np.array_equal(lat.points, points),
                   "changing the returned point changes the lattice")
        if op in ("all", "fold"):
            got = lat.getIndex(p, fold=True)
            expect(got == j, "getIndex({0}, fold): {1} instead of {2}", p,
                   got, j)
            expect(np.array_equal(lat.getSite(got), points[j]),
                   "getSite of a folded index")
        if op in ("all", "index"):
            if home:
                got = lat.getIndex(p)
                expect(got == j, "getIndex({0}): {1} instead of {2}", p, got,
                       j)
                expect(np.array_equal(lat.getSite(got), points[j]),
                       "getSite(getIndex)")
                expect(lat.getIndex(p, fold=False) == j, "fold=False")
            else:
                with raises(KeyError, "getIndex({0})".format(p)):
                    lat.getIndex(p)
        if op in ("all", "member"):
            expect(bool(lat.in_cluster(p)) == home, "in_cluster({0})", p)
        expect(np.array_equal(p, before), "a query changed its argument")
        note("cluster point" if home else "translated point")
        if not home:
            nontrivial = True
            if np.max(np.abs(q["n"])) > 3:
                note("far")
    note("{0} vectors in {1}D".format(k, d))
    if case["lat"].get("dtype", "float") != "float":
        note("integers")
    return nontrivial


@st.composite
def large_case(draw):
    case = draw(large.block_case())
    dim = large.NAMED[case["name"]]
    reach = {1: 20, 2: 4, 3: 2}[dim]
    case["queries"] = draw(st.lists(st.tuples(
        st.sampled_from(["far", "near", "home", "off"]),
        st.integers(0, 10 ** 6),
        st.lists(st.integers(-reach, reach), min_size=dim, max_size=dim),
        st.sampled_from([0, 0, 1e-10, -1e-10]),
        st.booleans()).map(list), min_size=3, max_size=10))
    return case


def check_large(case, note):
    """Clusters of up to 210 points; equivalent points by construction."""
    lat, _, _, shells, _ = large.build_block(case)
    points, vectors = lat.points, lat.vectors
    nontrivial = False
    for kind, j, n, noise, first in case["queries"]:
        j %= len(points)
        n = np.array(n)
        n = {"far": n, "near": np.sign(n), "home": 0 * n, "off": np.sign(n)
             }[kind]
        shift = n @ vectors
        p = points[j] + shift + noise
        what = "{0} {1}, {2}".format(case["name"], case["nums"], p)
        if kind == "off":
            p = p + 0.3 * shells[1] * np.ones(len(p)) / np.sqrt(len(p))
            with raises(RuntimeError, "decompose({0})".format(p)):
                lat.decompose(p)
            with raises(KeyError, "getIndex({0}, fold)".format(p)):
                lat.getIndex(p, fold=True)
            with raises(KeyError, "getIndex({0})".format(p)):
                lat.getIndex(p)
            expect(not lat.in_cluster(p), "in_cluster({0})", p)
            continue
        home = not n.any()
        if first:
            got = lat.getIndex(p, fold=True)
            expect(got == j, "{0}: folded index {1} instead of {2}", what,
                   got, j)
        site, dr = lat.decompose(p)
        expect(np.array_equal(site, points[j])
               and np.max(np.abs(dr - shift)) < 1e-7,
               "decompose {0}: {1} + {2} instead of {3} + {4}", what, site,
               dr, points[j], shift)
        expect(bool(lat.in_cluster(p)) == home, "in_cluster {0}", what)
        expect(np.array_equal(lat.getSite(j), points[j]), "getSite({0})", j)
        if home:
            got = lat.getIndex(p)
            expect(got == j, "{0}: index {1} instead of {2}", what, got, j)
        else:
            with raises(KeyError, "getIndex({0})".format(p)):
                lat.getIndex(p)
        got = lat.getIndex(p, fold=True)
        expect(got == j, "{0}: folded index {1} instead of {2}", what, got, j)
        nontrivial = nontrivial or not home
    note("{0} points".format(len(points) // 50 * 50))
    return nontrivial


SUBS = [
    Sub("folding", case_strategy, check, 1200, 25000, shards=4),
    Sub("large", large_case, check_large, 240, 4000),
]
