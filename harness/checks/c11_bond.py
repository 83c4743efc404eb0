"""C11: bonds between two points."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from checks.c09_identity import coord_strategy, value
from checks.common import GRID, INTEGERS, IRRATIONAL, SPELLINGS, spelled
from HamiltonianPy.bond import Bond, set_float_point_precision

PROPERTY = "C11"
SCALE = 5
RULE = (
    "Geometry: two endpoints in 1-3 dimensions (integers, decimals, "
    "irrationals, large values, coinciding points; list, tuple or array), a "
    "number of digits. Identity: a precision and 3-5 bonds whose endpoints "
    "come from a small pool with offsets below the precision. Non-trivial: "
    "distinct endpoints; for identity, a mixture of equal and different "
    "bonds.")
ASSUMPTIONS = [
    "angles at the cut are compared modulo a full turn, within [-pi, pi]",
    "in the identity cases coordinates are n + f units of the precision with "
    "f in {0 (integers only), 0.2, 0.5, 0.8}",
]


@st.composite
def geometry_case(draw):
    dim = draw(st.sampled_from([2, 3, 1]))
    big = [100, -37, 12345.678, -1e3, 1e-3, 0.02]
    coord = st.one_of(st.sampled_from(GRID + IRRATIONAL + big),
                      st.integers(-5, 5),
                      st.integers(-4000, 4000).map(lambda k: k / 640))
    spelling = SPELLINGS
    if draw(st.integers(0, 3)) == 0:
        # integers, near the limits of some type
        limits = draw(st.sampled_from([[127, -128, 100], [255, 0, 200],
                                       [32767, -32768, 20000],
                                       [2 ** 31 - 1, -2 ** 31, 10 ** 9],
                                       [2 ** 32 - 1, 0, 3 * 10 ** 9]]))
        coord = st.one_of(st.integers(0, 9), st.sampled_from(limits))
        spelling = st.one_of(SPELLINGS, st.sampled_from(INTEGERS))
    point = st.lists(coord, min_size=dim, max_size=dim)
    p0 = draw(point)
    p1 = draw(point)
    for i in range(dim):
        if draw(st.integers(0, 6)) == 6:
            p1[i] = p0[i]
    return {"p0": p0, "p1": p1, "spell": draw(spelling),
            "spell1": draw(spelling),
            "ndigits": draw(st.integers(0, 8))}


def rounded(got, full, ndigits, what):
    got = np.asarray(got, dtype=float)
    full = np.asarray(full, dtype=float)
    unit = 10.0 ** -ndigits
    expect(got.shape == full.shape, "{0}: shape", what)
    expect(np.all(np.abs(got - full) <= 0.5 * unit * (1 + 1e-6) + 1e-9 * np.abs(full)),
           "{0} rounded to {1} digits is {2} for {3}", what, ndigits, got,
           full)
    steps = got / unit
    expect(np.all(np.abs(steps - np.rint(steps))
                  <= 1e-4 + 1e-12 * np.abs(steps)),
           "{0} rounded to {1} digits is {2}", what, ndigits, got)


def check_geometry(case, note):
    p0, p1, nd = case["p0"], case["p1"], case["ndigits"]
    dim = len(p0)
    a0, a1 = spelled(p0, case["spell"]), spelled(p1, case["spell1"])
    bond = Bond(a0, a1)
    loose = Bond(p0=a0, p1=a1, directional=False)
    expect(bond.directional is True and loose.directional is False,
           "directional")
    for b in (bond, loose):
        e0, e1 = b.endpoints
        expect(isinstance(e0, np.ndarray) and isinstance(e1, np.ndarray)
               and e0.tolist() == p0 and e1.tolist() == p1,
               "endpoints of {0}: {1}", (p0, p1), b.endpoints)
        length = math.sqrt(math.fsum((y - x) ** 2 for x, y in zip(p0, p1)))
        got = b.getLength()
        expect(abs(got - length) <= 1e-12 * max(1, length),
               "length {0} instead of {1}", got, length)
        rounded(b.getLength(ndigits=nd), got, nd, "length")
    want = [y - x for x, y in zip(p0, p1)]
    dr = bond.getDisplace()
    expect(isinstance(dr, np.ndarray) and dr.shape == (dim,)
           and all(abs(x - y) <= 1e-12 * max(1, abs(y))
                   for x, y in zip(dr, want)), "displacement {0} of {1}", dr,
           (p0, p1))
    rounded(bond.getDisplace(ndigits=nd), dr, nd, "displacement")

    full = {}
    for radian in (True, False):
        got = bond.getAzimuth(radian=radian)
        full[radian] = np.asarray(got, dtype=float)
        expect(np.shape(got) == ((2,) if dim == 3 else ()),
               "azimuth {0!r} in {1}D", got, dim)
        rounded(bond.getAzimuth(radian=radian, ndigits=nd), got, nd,
                "azimuth (radian={0})".format(radian))
    expect(np.allclose(np.radians(full[False]), full[True], rtol=0,
                       atol=1e-12), "degrees {0} and radians {1}",
           full[False], full[True])
    expect(float(np.max(np.abs(
        np.asarray(bond.getAzimuth()) - full[False]))) == 0,
        "degrees are the default")
    length = math.sqrt(math.fsum(x * x for x in want))
    if dim == 3:
        alpha, beta = (float(x) for x in full[True])
        expect(-1e-12 <= alpha <= math.pi + 1e-12, "polar angle {0}", alpha)
        rho = math.hypot(want[0], want[1])
        if length:
            expect(abs(math.cos(alpha) - want[2] / length) < 1e-9
                   and abs(math.sin(alpha) - rho / length) < 1e-9,
                   "polar angle {0} of {1}", alpha, want)
        x, y = want[:2]
    else:
        beta = float(full[True])
        x, y = (want + [0])[:2]
        rho = math.hypot(x, y)
    expect(-math.pi - 1e-12 <= beta <= math.pi + 1e-12, "azimuth {0}", beta)
    if rho:
        expect(abs(math.cos(beta) - x / rho) < 1e-9
               and abs(math.sin(beta) - y / rho) < 1e-9,
               "azimuth {0} of {1}", beta, want)
    elif not length:
        expect(dim == 3 or beta == 0, "azimuth {0} of no displacement", beta)

    flip = bond.flip()
    e0, e1 = flip.endpoints
    expect(flip.directional is True and e0.tolist() == p1
           and e1.tolist() == p0, "flip {0!r}", flip)
    expect(flip.flip() == bond and hash(flip.flip()) == hash(bond),
           "flipping twice")
    expect(bond.oppositeTo(flip) and flip.oppositeTo(bond), "oppositeTo flip")
    for name, args in (("getDisplace", ()), ("getDisplace", (2,)),
                       ("getAzimuth", ()), ("getAzimuth", (True,)),
                       ("flip", ()), ("oppositeTo", (loose,)),
                       ("oppositeTo", (bond,))):
        with raises(NotImplementedError, "{0} of an undirected bond".format(
                name)):
            getattr(loose, name)(*args)
    for bad in (None, 3, (a0, a1)):
        with raises(TypeError, "oppositeTo({0!r})".format(bad)):
            bond.oppositeTo(bad)
    for q0, q1 in ((p0, p1 + [1]), (p0 + [0], p1), (p0 * 4, p1 * 4),
                   ([], []), ([p0], [p1])):
        if len(q0) == len(q1) and np.shape(q0) in ((1,), (2,), (3,)):
            continue
        with raises((AssertionError, ValueError), "endpoints {0} {1}".format(
                q0, q1)):
            Bond(q0, q1)
    note("{0}D".format(dim))
    note("zero length" if not length else "length > 0")
    return length > 0


@st.composite
def identity_case(draw):
    precision = draw(st.sampled_from([4, 4, 4, 0, 2, 6]))
    dim = draw(st.sampled_from([2, 1, 3]))
    pool = draw(st.lists(
        st.lists(coord_strategy(precision), min_size=dim, max_size=dim),
        min_size=2, max_size=3))
    items = []
    for _ in range(draw(st.integers(3, 5))):
        ends = []
        for _ in range(2):
            ends.append([
                [n, draw(st.sampled_from("ifg" if k == "int" else "abc"))]
                for k, n in draw(st.sampled_from(pool))])
        items.append({"ends": ends, "directional": draw(st.booleans())})
    return {"precision": precision, "items": items}


def identity(item):
    ends = [tuple(n for n, _ in e) for e in item["ends"]]
    if item["directional"]:
        return True, tuple(ends)
    return False, tuple(sorted(ends))


def check_identity(case, note):
    precision = case["precision"]
    try:
        if precision != 4:
            set_float_point_precision(precision)
        bonds = [Bond(*[[value(n, k, precision) for n, k in e]
                        for e in item["ends"]],
                      directional=item["directional"])
                 for item in case["items"]]
        models = [identity(item) for item in case["items"]]
        n = len(bonds)
        for i, j in itertools.product(range(n), repeat=2):
            x, y = bonds[i], bonds[j]
            same = models[i] == models[j]
            what = "{0!r} and {1!r} (precision {2})".format(x, y, precision)
            expect(bool(x == y) == same and bool(x != y) == (not same),
                   "equality of {0}", what)
            if same:
                expect(hash(x) == hash(y), "hashes of {0}", what)
            if models[i][0]:
                a, b = models[i][1]
                opposite = models[j] == (True, (b, a))
                expect(bool(x.oppositeTo(y)) == opposite,
                       "oppositeTo of {0}", what)
                f = x.flip()
                expect(bool(f == y) == opposite, "flip of {0}", what)
        first = {}
        for m, b in zip(models, bonds):
            first.setdefault(m, b)
        table = dict.fromkeys(bonds)
        expect(len(table) == len(first) and all(b in table for b in bonds),
               "bonds as dictionary keys: {0}", bonds)
        for x in bonds:
            for other in (None, 3, x.endpoints, repr(x)):
                if not isinstance(other, tuple):
                    expect(x != other and not (x == other), "{0!r} == {1!r}",
                           x, other)
    finally:
        set_float_point_precision(4)
    note("{0} of {1} distinct".format(len(first), n))
    return 1 < len(first) < n


SUBS = [
    Sub("geometry", geometry_case, check_geometry, 1200, 30000, shards=3),
    Sub("identity", identity_case, check_identity, 1200, 30000, shards=3),
]
