"""Cases of a size at which the element-by-element references are too slow."""

import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import issparse

from core import Violation, expect
from checks.common import as_np, coefficients, to_number

U = np.uint64
ONE = U(1)


# -- fermions ---------------------------------------------------------------------


def popcount(x):
    x = x.copy()
    res = np.zeros(len(x), dtype=np.int64)
    while np.any(x):
        res += (x & ONE).astype(np.int64)
        x >>= ONE
    return res


def group_kets(states, p):
    """All kets of one group, by filtering masks and moving their bits."""
    masks = np.arange(1 << len(states), dtype=U)
    if p >= 0:
        masks = masks[popcount(masks) == p]
    res = np.zeros(len(masks), dtype=U)
    for i, s in enumerate(states):
        res |= ((masks >> U(i)) & ONE) << U(s)
    return res


def sector(groups):
    kets = np.zeros(1, dtype=U)
    for states, p in groups:
        kets = (kets[:, None] | group_kets(states, p)[None, :]).ravel()
    return np.sort(kets)


def images(ops, kets):
    """-> (alive, sign, image) of a product, the last factor first."""
    kets = kets.copy()
    alive = np.ones(len(kets), dtype=bool)
    odd = np.zeros(len(kets), dtype=np.int64)
    for index, creation in reversed(ops):
        bit = ONE << U(index)
        occupied = (kets & bit) != 0
        alive &= occupied != bool(creation)
        odd += popcount(kets & (bit - ONE))
        kets = kets ^ bit
    return alive, 1 - 2 * (odd & 1), kets


def total_size(groups):
    from math import comb
    res = 1
    for states, p in groups:
        n = len(states)
        res *= 2 ** n if p < 0 else comb(n, p)
    return res


@st.composite
def sector_strategy(draw, top=1 << 17):
    """Groups whose kets number up to `top`."""
    n = draw(st.sampled_from([16, 18, 14, 20, 12, 22, 24]))
    if draw(st.booleans()):
        start = draw(st.sampled_from([0, 0, 1, 40])) % (65 - n)
        states = list(range(start, start + n))
    else:
        states = sorted(draw(st.permutations(range(64)))[:n])
    k = draw(st.sampled_from([1, 2, 2, 3]))
    groups = []
    for g in range(k):
        part = states[g::k]
        p = draw(st.integers(len(part) // 2 - 2, len(part) // 2 + 1))
        groups.append([part, max(0, p)])
    while total_size(groups) > top:
        big = max(groups, key=lambda g: len(g[0]))
        big[0].pop()
        big[1] = min(big[1], len(big[0]))
    if total_size(groups) * 64 < top and draw(st.booleans()):
        groups[0][1] = -1
    while total_size(groups) > top:
        groups[0][0].pop()
    return groups


@st.composite
def matrix_case(draw, patterns=None):
    groups = draw(sector_strategy())
    states = [s for part, _ in groups for s in part]
    which = st.sampled_from(states)
    label = "general"
    if patterns:
        label = draw(st.sampled_from(sorted(patterns)))
        i = draw(which)
        j = draw(which)
        if label == "hopping":
            j = draw(which.filter(lambda s: s != i))
        ops = patterns[label](i, j)
    else:
        length = draw(st.sampled_from([2, 4, 3, 6, 1, 8, 12]))
        where = draw(st.lists(which, min_size=length, max_size=length))
        # mostly the types that act on one ket of the basis
        ket = int(sector(groups)[draw(st.integers(0, total_size(groups) - 1))])
        ops = []
        for i in where:
            ops.append([i, 1 - (ket >> i & 1)])
            ket ^= 1 << i
        ops.reverse()
        if draw(st.integers(0, 5)) == 0:
            ops[0][1] ^= 1
    return {"groups": groups, "ops": [list(o) for o in ops], "label": label,
            "left": draw(st.sampled_from(["images", "more", "missing",
                                          "none"])),
            "drop": draw(st.integers(0, 10 ** 6)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "csr": draw(st.booleans()), "coeff": draw(coefficients())}


def check_matrix(function, case, note):
    ops = [tuple(o) for o in case["ops"]]
    right = sector(case["groups"])
    alive, sign, image = images(ops, right)
    wanted = np.unique(image[alive])
    inside = np.isin(wanted, right, assume_unique=True).all()
    mode = case["left"]
    if mode == "none" and not inside:
        mode = "missing by nature"
    left = right
    if mode in ("images", "more", "missing"):
        left = wanted
        if mode != "images":
            rng = np.random.default_rng(case["seed"])
            left = np.union1d(wanted, rng.permutation(right)[:1000])
        if mode == "missing" and len(wanted):
            left = left[left != wanted[case["drop"] % len(wanted)]]
        if not len(left):
            left = right[:1]
    kw = {} if mode.startswith("missing by") or mode == "none" else {
        "left_bases": left.copy()}
    coeff = to_number(case["coeff"])
    what = "{0} of {1} kets, target {2}".format(ops, len(right), mode)
    missing = not np.isin(wanted, left).all()
    r = right.copy()
    try:
        got = function(ops, r, coeff=as_np(case["coeff"]),
                       to_csr=case["csr"], special_tag=case["label"], **kw)
    except KeyError:
        expect(missing, "{0}: refused", what)
        note("refused")
        return True
    expect(not missing, "{0}: an image lies outside the target basis and the "
           "request was answered", what)
    if case["csr"]:
        expect(issparse(got) and got.shape == (len(left), len(right)),
               "{0}: {1!r}", what, got)
        got = got.tocoo()
        entries, rows, cols = got.data, got.row, got.col
    else:
        entries, (rows, cols) = got
    col = np.nonzero(alive)[0]
    row = np.searchsorted(left, image[alive])
    order = np.lexsort((np.asarray(rows), np.asarray(cols)))
    expect(len(order) == len(col), "{0}: {1} elements instead of {2}", what,
           len(order), len(col))
    for name, a, b in (("columns", np.asarray(cols)[order], col),
                       ("rows", np.asarray(rows)[order], row),
                       ("elements", np.asarray(entries)[order],
                        coeff * sign[alive])):
        bad = np.nonzero(np.asarray(a) != b)[0]
        expect(not len(bad), "{0}: {1} differ at {2} places, first in column "
               "{3}: {4} instead of {5}", what, name, len(bad),
               col[bad[0]] if len(bad) else None, a[bad[0]] if len(bad)
               else None, b[bad[0]] if len(bad) else None)
    expect(np.array_equal(r, right), "{0}: source basis modified", what)
    note("kets {0}".format(1 << int(np.log2(len(right)))))
    note("operators {0}".format(len(ops)))
    return len(right) > 256 and len(col) > 0


# -- spins -----------------------------------------------------------------------------


def spin_elements(ops, n):
    """-> (alive, amplitude, row) for every column of a product."""
    state = np.arange(1 << n)
    amp = np.ones(1 << n, dtype=complex)
    for site, otype in reversed(ops):
        down = (state >> site & 1).astype(bool)
        if otype == "z":
            amp = amp * np.where(down, -0.5, 0.5)
            continue
        if otype == "x":
            amp = amp * 0.5
        elif otype == "y":
            amp = amp * np.where(down, -0.5j, 0.5j)
        else:
            amp = amp * (down if otype == "p" else ~down)
        state = state ^ (1 << site)
    return amp != 0, amp, state


@st.composite
def spin_case(draw):
    n = draw(st.sampled_from([9, 10, 8, 12, 7, 14]))
    length = draw(st.sampled_from([2, 3, 1, 4, 6]))
    return {"n": n, "ops": [[draw(st.integers(0, n - 1)),
                             draw(st.sampled_from("xyzpm"))]
                            for _ in range(length)],
            "order": draw(st.permutations(range(n))),
            "coeff": draw(coefficients())}


def compare_spin(got, ops, n, coeff, what):
    expect(issparse(got) and got.shape == (1 << n, 1 << n), "{0}: {1!r}",
           what, got)
    alive, amp, row = spin_elements(ops, n)
    got = got.tocoo()
    got.sum_duplicates()
    keep = np.abs(got.data) > 1e-14
    order = np.lexsort((got.row[keep], got.col[keep]))
    cols, rows = got.col[keep][order], got.row[keep][order]
    data = got.data[keep][order]
    want = np.nonzero(alive)[0]
    expect(np.array_equal(cols, want) and np.array_equal(rows, row[alive]),
           "{0}: elements at other places ({1} instead of {2})", what,
           len(cols), len(want))
    off = np.abs(data - coeff * amp[alive])
    expect(not len(off) or off.max() < 1e-12 * max(1, abs(coeff)),
           "{0}: an element is off by {1}", what, off.max() if len(off) else 0)


# -- lattices ----------------------------------------------------------------------------

NAMED = {"chain": 1, "square": 2, "triangle": 2, "honeycomb": 2, "kagome": 2,
         "cubic": 3}
SIZES = {1: [40, 150, 11, 70], 2: [6, 8, 12, 5, 1, 2], 3: [3, 4, 5, 1, 2]}


@st.composite
def block_case(draw):
    """A named lattice of many cells."""
    name = draw(st.sampled_from(sorted(NAMED)))
    dim = NAMED[name]
    nums = [draw(st.sampled_from(SIZES[dim])) for _ in range(dim)]
    cells = {"kagome": 70, "honeycomb": 100}.get(name, 200)
    while np.prod(nums) > cells:
        nums[nums.index(max(nums))] -= 1
    return {"name": name, "nums": nums}


CELLS = {}


def build_block(case):
    """-> (Lattice, Block, Crystal of one cell, its shells and pairs)"""
    from oracles.lattice import Crystal
    from HamiltonianPy import lattice_generator
    name, nums = case["name"], case["nums"]
    if name not in CELLS:
        one = lattice_generator(name)
        crystal = Crystal(one.points, one.vectors)
        CELLS[name] = (crystal,) + crystal.shells(9)
    lat = lattice_generator(name, **dict(zip(("num0", "num1", "num2"), nums)))
    crystal, shells, pairs = CELLS[name]
    expect(lat.point_num == len(crystal.points) * int(np.prod(nums)),
           "{0} {1}: {2} points", name, nums, lat.point_num)
    return lat, Block(lat.points, lat.vectors), crystal, shells, pairs


class Block:
    """Many points, found again by their fractional coordinates."""

    def __init__(self, points, vectors):
        self.points = np.asarray(points, dtype=float)
        self.vectors = np.asarray(vectors, dtype=float)
        self.inverse = np.linalg.inv(self.vectors)
        self.where = {}
        for i, p in enumerate(self.points):
            key = self.key(p)[0]
            if key in self.where:
                raise ValueError("oracle: equivalent points in the cluster")
            self.where[key] = i
        self.home = [self.key(p)[1] for p in self.points]

    def key(self, p):
        frac = np.asarray(p, dtype=float) @ self.inverse
        cell = np.floor(frac + 1e-4)
        rest = frac - cell
        return (tuple(int(round(x * 1e6 / 25)) for x in rest),
                tuple(int(x) for x in cell))

    def locate(self, p):
        key, cell = self.key(p)
        for move in itertools.product((0, -1, 1), repeat=len(key)):
            i = self.where.get(tuple(a + b for a, b in zip(key, move)))
            if i is not None:
                n = tuple(a - b for a, b in zip(cell, self.home[i]))
                off = self.points[i] + np.array(n) @ self.vectors - p
                if np.abs(off).max() < 1e-6:
                    return i, n
        return None

    def pairs(self, primitive, pairs):
        """The pairs of the block from those of the primitive cell."""
        res = []
        by_start = {}
        for d, i, j, n in pairs:
            by_start.setdefault(i, []).append(
                (d, primitive.points[j] + np.array(n) @ primitive.basis
                 - primitive.points[i]))
        for a, p in enumerate(self.points):
            i = primitive.locate(p)[0]
            for d, step in by_start.get(i, ()):
                b, n = self.locate(p + step)
                res.append((d, a, b, n))
        return res
