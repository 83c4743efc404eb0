"""C15: named lattices and clusters."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from oracles import lattice as ol
from HamiltonianPy import lattice as hl
from HamiltonianPy import lattice_generator, special_cluster

PROPERTY = "C15"
SCALE = 5
RULE = (
    "A case is a named lattice with cell numbers, a named cluster under one of "
    "its aliases, an exported constant, an unknown name, or a history of "
    "requests with modifications of what was returned. Non-trivial: a lattice "
    "or cluster of several points, or a history with a modification.")
ASSUMPTIONS = [
    "the parent lattices are coded independently from their textbook "
    "definition (unit bond or unit cell length); a cluster may sit anywhere "
    "in its parent lattice",
    "high-symmetry points are checked against the Voronoi cell of the "
    "reciprocal lattice, as sets",
]

R3 = math.sqrt(3)
#: name -> (translation vectors, points of one cell) of the parent lattices
PARENTS = {
    "chain": ([[1.0]], [[0.0]]),
    "square": ([[1.0, 0.0], [0.0, 1.0]], [[0.0, 0.0]]),
    "triangle": ([[1.0, 0.0], [0.5, R3 / 2]], [[0.0, 0.0]]),
    "honeycomb": ([[1.0, 0.0], [0.5, R3 / 2]],
                  [[0.0, 0.0], [0.0, 1 / R3]]),
    "kagome": ([[1.0, 0.0], [0.5, R3 / 2]],
               [[0.0, 0.0], [0.25, R3 / 4], [0.5, 0.0]]),
    "cubic": ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [[0.0, 0, 0]]),
}
#: full name -> (aliases, parent, number of points)
CLUSTERS = {
    "square_cross": (["square_12", "cross"], "square", 12),
    "square_z": (["z"], "square", 10),
    "square_s": (["s"], "square", 10),
    "triangle_star": (["triangle_13", "star", "SD"], "triangle", 13),
    "honeycomb_benzene": (["honeycomb_6", "benzene"], "honeycomb", 6),
    "honeycomb_diphenyl": (["honeycomb_10", "diphenyl"], "honeycomb", 10),
    "honeycomb_gear": (["honeycomb_24", "gear"], "honeycomb", 24),
}
ALIAS = {a: full for full, (aliases, _, _) in CLUSTERS.items()
         for a in aliases + [full]}
#: constants prefix -> which kind of first Brillouin zone points they list
CONSTANTS = {
    "CHAIN_CELL": {"ES": "corner"},
    "SQUARE_CELL": {"XS": "face", "MS": "corner"},
    "TRIANGLE_CELL": {"MS": "face", "KS": "corner"},
    "HONEYCOMB_CELL": {"MS": "face", "KS": "corner"},
    "KAGOME_CELL": {"MS": "face", "KS": "corner"},
    "CUBIC_CELL": {"XS": "face", "MS": "edge", "KS": "corner"},
    "SQUARE_CROSS": {}, "HONEYCOMB_DIPHENYL": {},
    "SQUARE_Z": {"XS": "face", "MS": "corner"},
    "SQUARE_S": {"XS": "face", "MS": "corner"},
    "TRIANGLE_STAR": {"MS": "face", "KS": "corner"},
    "HONEYCOMB_BENZENE": {"MS": "face", "KS": "corner"},
    "HONEYCOMB_GEAR": {"MS": "face", "KS": "corner"},
}


def tiles(points, vectors, parent, what):
    """The cluster describes exactly its parent lattice."""
    cell, basis = (np.array(x, dtype=float) for x in PARENTS[parent])
    points = np.asarray(points, dtype=float)
    vectors = np.asarray(vectors, dtype=float)
    expect(vectors.shape == cell.shape, "{0}: vectors {1}", what,
           vectors.tolist())
    expect(points.ndim == 2 and points.shape[1] == cell.shape[1],
           "{0}: points of shape {1}", what, points.shape)
    n = vectors @ np.linalg.inv(cell)
    expect(np.allclose(n, np.round(n), atol=1e-9),
           "{0}: a translation vector is not one of the {1} lattice: {2}",
           what, parent, n.tolist())
    ratio = abs(np.linalg.det(np.round(n)))
    expect(ratio > 0.5, "{0}: dependent translation vectors", what)
    expect(len(points) == round(ratio) * len(basis),
           "{0}: {1} points instead of {2}", what, len(points),
           round(ratio) * len(basis))
    crystal = ol.Crystal(basis, cell)
    placed = False
    for b in basis:
        shift = b - points[0]
        if all(crystal.locate(p + shift) for p in points):
            placed = True
            break
    expect(placed, "{0}: not a piece of the {1} lattice: {2}", what, parent,
           points.tolist())
    inv = np.linalg.inv(vectors)
    for i, j in itertools.combinations(range(len(points)), 2):
        c = (points[i] - points[j]) @ inv
        expect(not np.allclose(c, np.round(c), atol=1e-7),
               "{0}: points {1} and {2} are equivalent", what, i, j)


def dims(lat, points, parent, what):
    d = len(PARENTS[parent][0])
    expect(lat.point_num == len(points) and lat.space_dim == d
           and lat.trans_dim == d, "{0}: point_num {1} space_dim {2} "
           "trans_dim {3}", what, lat.point_num, lat.space_dim, lat.trans_dim)


def expected_name(which, nums):
    d = len(PARENTS[which][0])
    nums = nums[:d]
    if all(n == 1 for n in nums):
        return which + "_cell"
    return "{0}({1})".format(which, ",".join(str(n) for n in nums))


def check_generated(which, nums, note):
    d = len(PARENTS[which][0])
    what = "{0}{1}".format(which, nums)
    kw = dict(zip(("num0", "num1", "num2"), nums))
    lat = lattice_generator(which, **kw)
    tiles(lat.points, lat.vectors, which, what)
    cell = np.array(PARENTS[which][0], dtype=float)
    full = (list(nums) + [1] * 3)[:d]
    want = cell * np.array(full, dtype=float)[:, None]
    expect(np.allclose(lat.vectors, want, atol=1e-9),
           "{0}: translation vectors {1}", what, lat.vectors.tolist())
    dims(lat, lat.points, which, what)
    expect(lat.name == expected_name(which, list(nums) + [1] * 3),
           "{0}: name {1!r}", what, lat.name)
    note(which)
    return lat


@st.composite
def generated_case(draw):
    which = draw(st.sampled_from(sorted(PARENTS)))
    top = {1: 12, 2: 4, 3: 3}[len(PARENTS[which][0])]
    # ones are special (a single cell), alone and among larger numbers
    return {"which": which, "nums": draw(st.lists(
        st.one_of(st.just(1), st.integers(1, top)), min_size=0, max_size=3)
        if draw(st.booleans()) else st.tuples(*[
            st.sampled_from([1, 1, 2, top])] * 3).map(list))}


def run_generated(case, note):
    which = case["which"]
    lat = check_generated(which, case["nums"], note)
    # numbers beyond the dimension of the lattice take no effect
    d = len(PARENTS[which][0])
    nums = (case["nums"] + [1] * 3)[:3]
    other = lattice_generator(which, *(nums[:d] + [3] * (3 - d)))
    expect(np.allclose(other.points, lat.points)
           and np.allclose(other.vectors, lat.vectors)
           and other.name == lat.name,
           "{0}: unused cell numbers change the lattice", case)
    # the folded index works, so the description is usable as it stands
    p = lat.points[-1] + lat.vectors[0] - 2 * lat.vectors[-1]
    expect(lat.getIndex(p, fold=True) == lat.point_num - 1,
           "{0}: equivalent point not folded back", case)
    return lat.point_num > 1


@st.composite
def cluster_case(draw):
    return {"name": draw(st.sampled_from(sorted(ALIAS)))}


def run_cluster(case, note):
    name = case["name"]
    full = ALIAS[name]
    _, parent, count = CLUSTERS[full]
    lat = special_cluster(name)
    expect(lat.point_num == count, "{0}: {1} points", name, lat.point_num)
    tiles(lat.points, lat.vectors, parent, name)
    dims(lat, lat.points, parent, name)
    twin = special_cluster(full)
    expect(np.array_equal(twin.points, lat.points)
           and np.array_equal(twin.vectors, lat.vectors),
           "{0} is not the same cluster as {1}", name, full)
    note(full)
    return True


@st.composite
def constant_case(draw):
    return {"prefix": draw(st.sampled_from(sorted(CONSTANTS)))}


def brillouin(bs):
    """-> (corners, edge middles, face centres) of the 1st Brillouin zone."""
    d = len(bs)
    grid = [np.array(n) @ bs for n in itertools.product(
        range(-3, 4), repeat=d) if any(n)]
    grid.sort(key=lambda g: g @ g)

    def inside(k, skip=()):
        return all(k @ g <= g @ g / 2 + 1e-9 * (g @ g) for g in grid)

    faces = []
    for g in grid:
        if all(g @ h / 2 < h @ h / 2 - 1e-9 * (h @ h) for h in grid
               if not np.allclose(g, h)):
            faces.append(g)
    corners = []
    for combo in itertools.combinations(faces, d):
        m = np.array(combo)
        if abs(np.linalg.det(m)) < 1e-9:
            continue
        k = np.linalg.solve(m, np.array([g @ g / 2 for g in combo]))
        if inside(k) and not any(np.allclose(k, c) for c in corners):
            corners.append(k)
    edges = []
    for p, q in itertools.combinations(corners, 2):
        shared = [g for g in faces if abs(p @ g - g @ g / 2) < 1e-9
                  and abs(q @ g - g @ g / 2) < 1e-9]
        if len(shared) == d - 1:
            edges.append((p + q) / 2)
    return corners, edges, [g / 2 for g in faces]


def same_set(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(
        any(np.allclose(x, y, atol=1e-9) for y in b) for x in a) and all(
        any(np.allclose(x, y, atol=1e-9) for x in a) for y in b)


def run_constant(case, note):
    prefix = case["prefix"]
    get = lambda suffix: getattr(hl, prefix + "_" + suffix)
    AS, BS, points = get("AS"), get("BS"), get("POINTS")
    d = AS.shape[1]
    expect(np.allclose(AS @ BS.T, 2 * np.pi * np.eye(d), atol=1e-9),
           "{0}: reciprocal vectors {1}", prefix, BS.tolist())
    full = prefix.lower()
    if full in CLUSTERS:
        parent = CLUSTERS[full][1]
        lat = special_cluster(full)
    else:
        parent = full[:-len("_cell")]
        lat = lattice_generator(parent)
    tiles(points, AS, parent, prefix)
    expect(np.array_equal(points, lat.points)
           and np.array_equal(AS, lat.vectors),
           "{0}: constants differ from the named lattice", prefix)
    expect(np.allclose(BS, lat.bs, atol=1e-9),
           "{0}: reciprocal vectors differ from the lattice's", prefix)
    expect(np.array_equal(get("GAMMA"), np.zeros(d)), "{0}: zone centre {1}",
           prefix, get("GAMMA").tolist())
    zone = dict(zip(("corner", "edge", "face"), brillouin(BS)))
    for suffix, kind in CONSTANTS[prefix].items():
        got = get(suffix)
        expect(same_set(got, zone[kind]),
               "{0}_{1} are not the {2} points of the first Brillouin zone: "
               "{3}", prefix, suffix, kind, got.tolist())
    note(prefix)
    return True


@st.composite
def unknown_case(draw):
    alphabet = "abcsz_-0123456789 "
    base = draw(st.sampled_from(
        sorted(ALIAS) + sorted(PARENTS) + ["", "sd", "Z", "Square", "hexagon",
                                           "square_cell", "bcc"]))
    how = draw(st.sampled_from(["as is", "prefix", "suffix", "upper", "cut",
                                "text"]))
    if how == "prefix":
        base = draw(st.sampled_from(list(alphabet))) + base
    elif how == "suffix":
        base = base + draw(st.sampled_from(list(alphabet)))
    elif how == "upper":
        base = base.swapcase()
    elif how == "cut":
        base = base[:-1]
    elif how == "text":
        base = draw(st.text(alphabet, max_size=12))
    return {"name": base}


def run_unknown(case, note):
    name = case["name"]
    if name not in ALIAS:
        with raises(KeyError, "special_cluster({0!r})".format(name)):
            special_cluster(name)
        note("unknown cluster")
    if name not in PARENTS:
        with raises(KeyError, "lattice_generator({0!r})".format(name)):
            lattice_generator(name)
        with raises(KeyError, "lattice_generator({0!r}, 2)".format(name)):
            lattice_generator(name, num0=2)
        note("unknown lattice")
    return False


@st.composite
def history_case(draw):
    name = st.one_of(
        st.tuples(st.just("cluster"), st.sampled_from(sorted(ALIAS)),
                  st.just([])),
        st.tuples(st.just("lattice"), st.sampled_from(sorted(PARENTS)),
                  st.lists(st.integers(1, 2), min_size=0, max_size=3)))
    what = draw(name.map(list))
    # the later requests are mostly the same cell again
    later = draw(st.lists(st.one_of(st.just(what), name.map(list)),
                          min_size=1, max_size=3))
    return {"first": what, "later": later, "steps": draw(st.lists(
        st.sampled_from(["points", "vectors", "bs", "query", "bonds", "name"]),
        min_size=1, max_size=4))}


def obtain(item):
    kind, name, nums = item
    if kind == "cluster":
        return special_cluster(name)
    return lattice_generator(name, *nums)


def run_history(case, note):
    first = obtain(case["first"])
    held = obtain(case["first"])
    before = [held.points.copy(), held.vectors.copy(), held.bs.copy()]
    name = held.name
    for step in case["steps"]:
        if step in ("points", "vectors", "bs"):
            arr = getattr(first, step)
            if arr.flags.writeable:
                arr += 17.25
        elif step == "bonds":
            held.bonds(1)
        elif step == "name":
            first.name = "renamed"
        else:
            held.neighbor_distance(1)
        note(step)
    expect(held is not first and held.name == name,
           "{0}: renaming one lattice renamed another one", case["first"])
    for a, b in zip(before, [held.points, held.vectors, held.bs]):
        expect(np.array_equal(a, b), "{0}: changing one lattice changed "
               "another one", case["first"])
    for item in case["later"]:
        kind, name, nums = item
        lat = obtain(item)
        what = "{0} after modifications".format(item)
        if kind == "cluster":
            parent = CLUSTERS[ALIAS[name]][1]
            tiles(lat.points, lat.vectors, parent, what)
            expect(lat.name != "renamed", "{0}: name {1!r}", what, lat.name)
        else:
            tiles(lat.points, lat.vectors, name, what)
            expect(lat.name == expected_name(name, list(nums) + [1] * 3),
                   "{0}: name {1!r}", what, lat.name)
            nums = (nums + [1] * 3)[:len(PARENTS[name][0])]
            want = np.array(PARENTS[name][0]) * np.array(nums)[:, None]
            expect(np.allclose(lat.vectors, want), "{0}: vectors {1}", what,
                   lat.vectors.tolist())
    return True


SUBS = [
    Sub("generated", generated_case, run_generated, 600, 6000, shards=2),
    Sub("cluster", cluster_case, run_cluster, 60, 60),
    Sub("constant", constant_case, run_constant, 60, 60),
    Sub("unknown", unknown_case, run_unknown, 200, 4000),
    Sub("history", history_case, run_history, 150, 3000, shards=2),
]
