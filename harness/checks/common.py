"""Strategies and helpers shared by the check modules."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix, issparse

from core import expect

# -- numbers ------------------------------------------------------------------


def to_number(c):
    """
    JSON -> Python number: int, float, [re, im] for complex, or a dict
    {"np": numpy type, "v": one of these}.
    """
    if isinstance(c, dict):
        return to_number(c["v"])
    if isinstance(c, list):
        return complex(c[0], c[1])
    return c


SIMPLE_FLOATS = [0.5, -0.25, 1.5, 2.0, -1.0, 0.1, -3.7, 1e-3, 12.5]


#: far from one
EXTREME = [1e-12, -2.5e-15, 4e-9, 1e6, -3e11]

#: the only ones for which products stay exact in single precision
SHORT = [1.0, -1.0, 2.0, 0.5, -0.25, 1.5, 3.0]


@st.composite
def coefficients(draw, zero=False, wide=False):
    """
    wide: also other numpy types and other magnitudes;
    "all": also the types whose products easily overflow.
    """
    if wide and draw(st.integers(0, 2)) == 0:
        kind = draw(st.sampled_from(
            ["extreme", "complex64", "complex64", "complex128", "float32",
             "int32", "int64", "float64"] + (
                 ["uint8", "uint64", "uint16", "int8", "longdouble"]
                 if wide == "all" else [])))
        if kind == "extreme":
            x = draw(st.sampled_from(EXTREME))
            return draw(st.sampled_from([x, [0.0, x], [x, -x]]))
        if kind.startswith("uint"):
            return {"np": kind, "v": draw(st.sampled_from([1, 2, 3, 200]))}
        if kind.startswith("int"):
            return {"np": kind, "v": draw(st.sampled_from([1, -1, 2, -3, 7]))}
        x = draw(st.sampled_from(SHORT))
        if kind.startswith("complex"):
            x = [draw(st.sampled_from(SHORT + [0.0])), x]
        return {"np": kind, "v": x}
    kind = draw(st.sampled_from(["int", "float", "complex", "complex"]))
    if kind == "int":
        lo = [0] if zero else []
        return draw(st.sampled_from(lo + [1, -1, 2, -3, 7]))
    real = st.sampled_from(SIMPLE_FLOATS)
    if kind == "float":
        return draw(real)
    return [draw(st.one_of(real, st.just(0.0))), draw(real)]


def as_np(c, kind=""):
    """The number in the type it is given in, or as another accepted one."""
    if isinstance(c, dict):
        return getattr(np, c["np"])(to_number(c))
    c = to_number(c)
    if kind == "np":
        if isinstance(c, complex):
            return np.complex128(c)
        if isinstance(c, int):
            return np.int64(c)
        return np.float64(c)
    return c


# -- sites and states ---------------------------------------------------------

#: coordinates that differ by much more than the identity precision
GRID = [0, 1, -1, 2, 3, -2, 0.5, -0.5, 0.25, 0.75, 1.5, 1.25, -1.75, 10]
IRRATIONAL = [math.sqrt(3) / 2, 1 / 3, -1 / 3, 2 / 3, math.sqrt(2),
              -math.sqrt(3) / 2, 1 / math.sqrt(3)]


def coords(dim, values=None):
    return st.lists(
        st.sampled_from(values or (GRID + IRRATIONAL)),
        min_size=dim, max_size=dim)


def site_lists(min_size=1, max_size=4, dim=None, values=None):
    dims = st.just(dim) if dim else st.integers(1, 3)

    return dims.flatmap(lambda d: st.lists(
        coords(d, values), min_size=min_size, max_size=max_size, unique_by=identity))


#: the spins and orbits of a case
NUMBERS = 4 * [(0, 1, 2)] + [(0, 1, 16), (0, 9, 10), (1, 3, 100)]


@st.composite
def state_lists(draw, min_size=1, max_size=6, max_sites=4):
    """Distinct states [[site, spin, orbit], ...] of one dimension."""
    sites = draw(site_lists(1, max_sites))
    numbers = st.sampled_from(draw(st.sampled_from(NUMBERS)))
    return draw(st.lists(
        st.tuples(st.integers(0, len(sites) - 1), numbers, numbers),
        min_size=min(min_size, len(sites) * 9),
        max_size=max_size, unique=True,
    ).map(lambda items: [[sites[i], s, o] for i, s, o in items]))


def identity(site):
    """What decides whether two sites are the same (four decimals)."""
    return tuple(int(10000 * x) for x in site)


def near(site, k):
    """
    The same site as another computation would give it: other coordinates, far
    from the next truncation border. k = 0: as it is.
    """
    if k % 4 == 0:
        return list(site)
    part = (0.5, 0.3, 0.7)[k % 4 - 1]
    return [math.copysign((abs(int(10000 * x)) + part) / 10000, x)
            for x in site]


def spelled(site, spelling):
    """A site in another documented spelling."""
    if spelling.startswith("near"):
        return tuple(near(site, int(spelling[4:])))
    if spelling == "list":
        return list(site)
    if spelling == "array":
        return np.array(site)
    if spelling == "view":              # one column of a table
        return np.array([list(site), [7] * len(site)]).T[:, 0]
    if spelling in INTEGERS:
        return typed(site, spelling)
    return tuple(site)


SPELLINGS = st.sampled_from(["list", "tuple", "array", "view"])
#: also with coordinates that differ beyond the decimals that count
ANY_SPELLINGS = st.sampled_from(
    ["list", "tuple", "array", "view", "near1", "near2", "near3"])

#: also arrays of the other integer types, where all coordinates fit
INTEGERS = ["int32", "uint8", "int8", "uint32", "int16", "uint64", "int64"]


def typed(point, dtype):
    """The point as an array of that integer type, or as an ordinary one."""
    if all(isinstance(x, int) for x in point):
        info = np.iinfo(dtype)
        if all(info.min <= x <= info.max for x in point):
            return np.array(point, dtype=dtype)
    return np.array(point)

# -- matrices -----------------------------------------------------------------


def sparse_dict(m, what="matrix"):
    """csr -> {(row, col): value}, refusing duplicates and stored zeros."""
    expect(issparse(m), "{0}: not a sparse matrix: {1}", what, type(m))
    coo = m.tocoo()
    res = {}
    for i, j, v in zip(coo.row, coo.col, coo.data):
        key = (int(i), int(j))
        expect(key not in res, "{0}: duplicate entry {1}", what, key)
        res[key] = v
    return res


def toarray(m):
    return np.asarray(m.toarray() if issparse(m) else m)


def close(a, b, tol=1e-10, floor=1.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(floor, float(np.max(np.abs(b))))
    diff = np.max(np.abs(a - b))
    return bool(diff <= tol * scale)      # False for nan


def expect_close(a, b, what, tol=1e-10, floor=1.0):
    a = toarray(a)
    b = toarray(b)
    expect(a.shape == b.shape, "{0}: shape {1} instead of {2}",
           what, a.shape, b.shape)
    if not close(a, b, tol, floor):
        with np.errstate(all="ignore"):
            diff = np.abs(a - b)
        expect(False, "{0}: differs by {1}\n got {2}\n want {3}", what,
               np.nanmax(diff) if diff.size else None,
               np.array2string(a.ravel()[:12], precision=6),
               np.array2string(b.ravel()[:12], precision=6))


def csr(dense):
    return csr_matrix(dense)
