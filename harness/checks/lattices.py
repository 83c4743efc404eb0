"""Generated lattices, shared by several checks."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from oracles.lattice import Crystal
from checks.common import INTEGERS
from HamiltonianPy import Lattice

S3 = math.sqrt(3) / 2
BASES = {
    1: [[[1]], [[1.5]], [[0.75]]],
    2: [[[1, 0], [0, 1]], [[1, 0], [0.5, S3]], [[1, 0], [0, 1.75]],
        [[1, 0], [0.25, 1.25]], [[S3, -0.5], [S3, 0.5]],
        [[0.6, 0.8], [-0.8, 0.6]]],
    3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
        [[1, 0, 0], [0.5, S3, 0], [0, 0, 1.5]],
        [[1, 0, 0], [0, 1.25, 0], [0.25, 0, 2]]],
}
#: the ones with coordinates that are multiples of 1/4
WHOLE = {1: [0, 1, 2], 2: [0, 2, 3], 3: [0, 1, 3]}


@st.composite
def unimodular(draw, k, strength):
    u = [[int(i == j) for j in range(k)] for i in range(k)]
    for _ in range(draw(st.integers(0, strength)) if k > 1 else 0):
        i = draw(st.integers(0, k - 1))
        j = draw(st.integers(0, k - 2))
        if j >= i:
            j += 1
        c = draw(st.sampled_from([1, -1, 2, -2, 3]))
        u[i] = [a + c * b for a, b in zip(u[i], u[j])]
    order = draw(st.permutations(range(k)))
    signs = [draw(st.sampled_from([1, -1])) for _ in range(k)]
    return [[s * x for x in u[o]] for o, s in zip(order, signs)]


@st.composite
def lattice_strategy(draw, max_points=4, dims=(2, 3, 1), strength=3,
                     offset=2):
    """
    A cluster: reduced basis, unimodular matrix that makes the vectors, and
    points given by fractions of the reduced basis (plus heights where there
    is no translation) and integer shifts.
    """
    d = draw(st.sampled_from(list(dims)))
    k = draw(st.sampled_from([d, d, d] + list(range(1, d))))
    base = draw(st.integers(0, len(BASES[d]) - 1))
    scale = draw(st.sampled_from([1, 1, 2, 0.5, 3.2]))
    fraction = st.sampled_from([0, 2, 1, 3] if draw(st.booleans())
                               else [0, 6, 4, 8])
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
    points = draw(st.lists(
        st.lists(fraction, min_size=d, max_size=d),
        min_size=1, max_size=min(n, max_points), unique_by=tuple))
    shift = st.integers(-offset, offset)
    shifts = [[draw(shift) for _ in range(k)] for _ in points]
    if not draw(st.booleans()):
        shifts = [[0] * k for _ in points]
    res = {"d": d, "k": k, "base": base, "scale": scale,
           "thirds": any(x in (4, 6, 8) for p in points for x in p),
           "points": points, "shifts": shifts,
           "origin": draw(st.lists(st.sampled_from(
               [0, 0.3, -1.7, 1] if draw(st.integers(0, 3)) else
               [0, 250, -1000.25, 40.5]), min_size=d, max_size=d)),
           "u": draw(unimodular(k, strength)),
           "dtype": "float",
           "layout": draw(st.sampled_from(
               ["C", "C", "F", "strided", "readonly"]))}
    if draw(st.integers(0, 4)) == 0 and not res["thirds"]:
        res["dtype"] = draw(st.sampled_from(INTEGERS))
        res["base"] = draw(st.sampled_from(WHOLE[d]))
        res["scale"] = draw(st.sampled_from([16, 32, 64]))
        res["origin"] = draw(st.lists(st.sampled_from([0, 3, 1, -7]),
                                      min_size=d, max_size=d))
        if draw(st.booleans()):
            res["u"] = [[int(i == o) for i in range(k)]
                        for o in draw(st.permutations(range(k)))]
    return res


def layout(array, how):
    """The same array, otherwise stored."""
    if how == "F":
        return np.asfortranarray(array)
    if how == "strided":
        wide = np.zeros((2 * len(array), 2 * array.shape[1]), array.dtype)
        wide[::2, 1::2] = array
        return wide[::2, 1::2]
    if how == "readonly":
        array = array.copy()
        array.flags.writeable = False
    return array


def whole(array, dtype):
    """As integers of that type, or of the usual one where they do not fit."""
    if dtype == "float":
        return array
    if np.any(array != np.rint(array)):
        return array
    info = np.iinfo(dtype)
    if array.min() < info.min or array.max() > info.max:
        dtype = "int64"
    return array.astype(dtype)


def build(case):
    """-> (Lattice, Crystal on the reduced basis, offsets of the points)."""
    full = np.array(BASES[case["d"]][case["base"]], dtype=float)
    full = full * case["scale"]
    k = case["k"]
    basis = full[:k]
    denominator = 12.0 if case["thirds"] else 4.0
    if case["thirds"]:
        # 0 4 6 8 in twelfths
        frac = np.array(case["points"]) / denominator
    else:
        frac = np.array(case["points"]) / denominator
    home = frac @ full + np.array(case["origin"])
    shifts = np.array(case["shifts"]).reshape(len(home), k)
    points = home + shifts @ basis
    vectors = np.array(case["u"]).reshape(k, k) @ basis
    dtype = case.get("dtype", "float")
    if dtype.startswith("u"):
        points = points - np.minimum(0, points.min(axis=0))
    how = case.get("layout", "C")
    lat = Lattice(layout(whole(points, dtype), how),
                  layout(whole(vectors, dtype), how))
    return lat, Crystal(points, basis), vectors


def supercell(points, basis, nums):
    """Points and vectors of a block of cells."""
    pts = [p + np.array(n) @ basis
           for n in itertools.product(*[range(m) for m in nums])
           for p in points]
    return np.array(pts), np.array([m * b for m, b in zip(nums, basis)])


def box_cost(lattice, radius, pairs=True):
    """
    How many points or pairs a search over a box of translations looks at when
    it has to find everything within `radius`.
    """
    bs = lattice.bs / 2 / np.pi
    norms = np.linalg.norm(bs, axis=1)
    spread = np.ptp(lattice.points @ bs.T, axis=0)
    scope = int(np.max(norms * radius + spread))
    n = lattice.point_num
    return (2 * scope + 1) ** lattice.trans_dim * n * (n if pairs else 1)
