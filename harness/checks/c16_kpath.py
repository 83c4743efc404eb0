"""C16: k-paths."""

from fractions import Fraction
from math import floor, isqrt

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from checks.common import GRID, INTEGERS, IRRATIONAL, typed
from checks.lattices import layout
from HamiltonianPy import KPath
from HamiltonianPy import lattice as hl

PROPERTY = "C16"
SCALE = 5
RULE = (
    "A case is a list of anchors (2 or 3 coordinates; high-symmetry points, "
    "simple numbers or arbitrary floats), the number of points on the shortest "
    "segment and both flags, or an invalid request. Non-trivial: at least two "
    "segments of different lengths.")
ASSUMPTIONS = [
    "neighbouring anchors are either equal or at least 0.01 apart",
    "a segment whose proportional number is an integer up to 1e-10 (relative) "
    "must get that integer; within 1e-5 of an integer both neighbours are "
    "accepted; otherwise the number is rounded down",
]
ZONES = ["SQUARE_CELL", "TRIANGLE_CELL", "HONEYCOMB_CELL", "KAGOME_CELL",
         "CUBIC_CELL", "SQUARE_Z", "SQUARE_S", "TRIANGLE_STAR",
         "HONEYCOMB_BENZENE", "HONEYCOMB_GEAR"]


@st.composite
def anchor_case(draw):
    kind = draw(st.sampled_from(["zone", "simple", "float", "float",
                                 "integer"]))
    dtype = "float"
    n = draw(st.integers(2, 6))
    if kind == "zone":
        zone = draw(st.sampled_from(ZONES))
        pool = [[getattr(hl, zone + "_GAMMA").tolist()]]
        for suffix in ("XS", "MS", "KS"):
            if hasattr(hl, zone + "_" + suffix):
                pool.append(getattr(hl, zone + "_" + suffix).tolist())
        points = [draw(st.sampled_from(draw(st.sampled_from(pool))))
                  for _ in range(n)]
    else:
        dim = draw(st.sampled_from([2, 3]))
        if kind == "simple":
            value = st.sampled_from(GRID + IRRATIONAL)
        elif kind == "integer":
            value = st.one_of(st.integers(0, 9),
                              st.sampled_from([100, 127, 255, -100]))
            dtype = draw(st.sampled_from(INTEGERS + ["mixed", "mixed"]))
        else:
            value = st.floats(-8, 8, allow_nan=False, width=64)
        points = draw(st.lists(
            st.lists(value, min_size=dim, max_size=dim),
            min_size=n, max_size=n))
    return {"points": points,
            "num": draw(st.one_of(st.integers(1, 12), st.integers(1, 200))),
            "loop": draw(st.booleans()), "indices": draw(st.booleans()),
            "form": draw(st.sampled_from(
                ["list", "tuple", "array", "F", "strided"])),
            "dtype": dtype}


def exact_square(p, q):
    return sum((Fraction(float(a)) - Fraction(float(b))) ** 2
               for a, b in zip(p, q))


def counts(squares, num):
    """-> list of sets of admissible numbers of points."""
    low = min(squares)
    res = []
    for sq in squares:
        scaled = num * num * sq / low
        # x = sqrt(scaled), to 12 more digits than an integer
        digits = 10 ** 13
        x = Fraction(isqrt(floor(scaled * digits * digits)), digits)
        near = round(x)
        off = abs(x - near)
        if off <= Fraction(1, 10 ** 10) * max(1, near):
            res.append({near})
        elif off <= Fraction(1, 10 ** 5):
            res.append({near - 1, near})
        else:
            res.append({floor(x)})
    return res


def given(points, form, dtype="float"):
    if dtype == "float":
        arrays = [np.array(p, dtype=float) for p in points]
    elif dtype == "mixed":
        arrays = [typed(p, INTEGERS[i * 5 % 7]) for i, p in enumerate(points)]
    else:
        arrays = [typed(p, dtype) for p in points]
    if form == "tuple":
        return tuple(arrays)
    if form == "array":
        return np.array(arrays)
    if form in ("F", "strided"):
        return layout(np.array(arrays), form)
    return arrays


def check(case, note):
    points = case["points"]
    num, loop = case["num"], case["loop"]
    stops = points + points[:1] if loop else points
    squares = [exact_square(p, q) for p, q in zip(stops, stops[1:])]
    arg = given(points, case["form"], case.get("dtype", "float"))
    before = [p.copy() for p in arg]
    what = "KPath({0}, {1}, loop={2})".format(points, num, loop)
    if any(s == 0 for s in squares):
        note("repeated neighbours")
        with raises(ValueError, what):
            KPath(arg, min_num=num, loop=loop)
        return False
    if any(s < Fraction(1, 10000) for s in squares):
        note("too close")
        return False
    wanted = counts(squares, num)
    if sum(max(w) for w in wanted) > 100000:
        note("too long")
        return False
    if case["indices"]:
        res = KPath(arg, min_num=num, loop=loop)
        expect(isinstance(res, tuple) and len(res) == 2, "{0}: {1}", what,
               type(res))
        kpoints, indices = res
    else:
        kpoints = KPath(arg, min_num=num, loop=loop, return_indices=False)
        kp2, indices = KPath(
            arg, min_num=num, loop=loop, return_indices=True)
        expect(isinstance(kpoints, np.ndarray)
               and np.array_equal(kpoints, kp2),
               "{0}: points depend on return_indices", what)
        note("points only")
    for a, b in zip(arg, before):
        expect(np.array_equal(a, b), "{0}: anchors changed", what)
    dim = len(points[0])
    expect(kpoints.ndim == 2 and kpoints.shape[1] == dim,
           "{0}: shape {1}", what, kpoints.shape)
    indices = [int(i) for i in indices]
    expect(len(indices) == len(stops) and indices[0] == 0
           and indices[-1] == len(kpoints) - 1,
           "{0}: indices {1} of {2} points", what, indices, len(kpoints))
    scale = max(1.0, max(abs(x) for p in points for x in p))
    for i, (p, q) in enumerate(zip(stops, stops[1:])):
        n = indices[i + 1] - indices[i]
        expect(n in wanted[i], "{0}: segment {1} has {2} points instead of "
               "{3}", what, i, n, sorted(wanted[i]))
        p, q = np.array(p), np.array(q)
        t = (np.arange(n + 1) / n)[:, None]
        line = p + t * (q - p)
        got = kpoints[indices[i]:indices[i + 1] + 1]
        off = float(np.max(np.abs(got - line)))
        expect(off < 1e-10 * scale, "{0}: segment {1} is off its equally "
               "spaced points by {2}", what, i, off)
    note("loop" if loop else "open")
    note("dim {0}".format(dim))
    if min(squares) * 4 == max(squares):
        note("exact ratio")
    return len(squares) > 1 and min(squares) != max(squares)


@st.composite
def long_case(draw):
    """Many anchors, many points."""
    n = draw(st.sampled_from([40, 12, 100, 20]))
    dim = draw(st.sampled_from([2, 3]))
    seed = draw(st.integers(0, 10 ** 6))
    rng = np.random.default_rng(seed)
    points = (rng.integers(-40, 41, size=(n, dim)) / 8).tolist()
    return {"points": points, "num": draw(st.sampled_from([1, 3, 50, 1000])),
            "loop": draw(st.booleans()), "indices": draw(st.booleans()),
            "form": draw(st.sampled_from(["list", "tuple", "array"]))}


@st.composite
def invalid_case(draw):
    dim = draw(st.sampled_from([2, 3]))
    points = [[float(i), 0.5 * i, 1.0][:dim] for i in range(3)]
    return {"kind": draw(st.sampled_from(
        ["few", "num", "shape", "dimension"])),
        "points": points,
        "count": draw(st.integers(0, 1)),
        "num": draw(st.sampled_from([0, -1, -7, 1.5, 10.0, "10", None])),
        "size": draw(st.sampled_from([1, 4, 5])),
        "loop": draw(st.booleans())}


def check_invalid(case, note):
    points = [np.array(p) for p in case["points"]]
    kind = case["kind"]
    note(kind)
    kinds = (AssertionError, ValueError, TypeError)
    if kind == "few":
        with raises(kinds, "KPath of {0} anchors".format(case["count"])):
            KPath(points[:case["count"]], min_num=5, loop=case["loop"])
    elif kind == "num":
        with raises(kinds, "KPath(min_num={0!r})".format(case["num"])):
            KPath(points, min_num=case["num"], loop=case["loop"])
    elif kind == "shape":
        bad = [np.arange(case["size"]) + 1.0 * i for i in range(3)]
        with raises(kinds, "KPath of {0} coordinates".format(case["size"])):
            KPath(bad, min_num=5, loop=case["loop"])
    else:
        points[1] = np.arange(5 - len(points[1])) + 0.5
        with raises(kinds, "KPath of mixed dimensions"):
            KPath(points, min_num=5, loop=case["loop"])
    return False


SUBS = [
    Sub("path", anchor_case, check, 1200, 40000, shards=4),
    Sub("long", long_case, check, 60, 1000),
    Sub("invalid", invalid_case, check_invalid, 150, 1000),
]
