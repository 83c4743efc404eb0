"""C22: lines in the plane."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from checks.common import INTEGERS, spelled
from HamiltonianPy.line2d import Line2D, Location

PROPERTY = "C22"
RULE = (
    "A case is two defining points (dyadic, decimal or arbitrary floats; "
    "also nearly vertical, horizontal or coincident with a chosen tolerance; "
    "integers of any array type), "
    "query points on and off the line, coordinates and ratios. Non-trivial: "
    "a line that is neither horizontal nor vertical, or a query point on the "
    "line.")
ASSUMPTIONS = [
    "queries whose exact offset is neither far below nor far above the "
    "tolerance are left out",
    "the tolerance may be measured vertically or perpendicularly",
]
SIMPLE = [0, 1, -1, 2, 3, -2, 0.5, -0.5, 0.25, 1.5, -3.75, 10, 0.1, -0.3, 1e-3,
          100, 64]
VALUE = st.one_of(st.sampled_from(SIMPLE), st.integers(-20, 20),
                  st.floats(-50, 50, allow_nan=False))
POINT = st.lists(VALUE, min_size=2, max_size=2)


@st.composite
def line_case(draw):
    p0 = draw(POINT)
    kind = draw(st.sampled_from(["any", "any", "horizontal", "vertical",
                                 "same"]))
    p1 = draw(POINT)
    if kind == "horizontal":
        p1[1] = p0[1]
    elif kind == "vertical":
        p1[0] = p0[0]
    elif kind == "same":
        p1 = list(p0)
    queries = draw(st.lists(st.one_of(
        # on the line, up to an offset
        st.tuples(st.just("on"), st.sampled_from(
            [0, 1, 0.5, -1, 2, -0.25, 3.5, 1.125]), st.sampled_from(
                [0, 0, 0, 1e-3, -1e-3, 0.25, -2, 1e-7, -1e-7])).map(list),
        st.tuples(st.just("at"), VALUE, VALUE).map(list)),
        min_size=1, max_size=5))
    return {"p0": p0, "p1": p1, "queries": queries,
            "coords": draw(st.lists(VALUE, max_size=3)),
            "ratios": draw(st.lists(VALUE, max_size=5)),
            "form": draw(st.sampled_from(
                ["list", "tuple", "array", "view"])),
            "swap": draw(st.booleans())}


@st.composite
def integer_case(draw):
    """Points with coordinates of any integer type."""
    case = draw(line_case())
    coord = st.one_of(st.integers(0, 9), st.sampled_from(
        [127, 255, 200, 32767, 100, -100, -128]))
    for key in ("p0", "p1"):
        case[key] = draw(st.lists(coord, min_size=2, max_size=2))
    case["queries"].append(["at", draw(coord), draw(coord)])
    case["form"] = draw(st.sampled_from(INTEGERS))
    return case


spell = spelled


def F(x):
    return Fraction(float(x))


def relation(p0, p1, q, tol, axis_tol=1e-10):
    """-> the exact location, or None when it is too close to call."""
    (x0, y0), (x1, y1) = map(lambda p: (F(p[0]), F(p[1])), (p0, p1))
    x, y = F(q[0]), F(q[1])
    dx, dy = x1 - x0, y1 - y0
    tol = F(tol)
    if abs(dy) <= F(axis_tol):
        off, less, more = y - y0, Location.BELOW, Location.ABOVE
        slope, noise = 0, 0
        lo = hi = abs(off)
    elif abs(dx) <= F(axis_tol):
        off, less, more = x - x0, Location.LEFT, Location.RIGHT
        lo = hi = abs(off)
        noise = 0
    else:
        slope = dy / dx
        off = y - y0 - slope * (x - x0)
        less, more = Location.BELOW, Location.ABOVE
        noise = Fraction(1, 10 ** 14) * (
            abs(slope) * (abs(x) + abs(x0)) + abs(y) + abs(y0))
        hi = abs(off)
        # perpendicular distance, from below
        lo = abs(off) / (1 + abs(slope))
    if hi + noise <= tol / 2 or hi == 0 and noise <= tol / 2:
        return Location.ON
    if lo >= 2 * tol and hi > 4 * noise:
        return less if off < 0 else more
    return None


def check(case, note):
    p0, p1 = case["p0"], case["p1"]
    if case["swap"]:
        p0, p1 = p1, p0
    a0, a1 = spell(p0, case["form"]), spell(p1, case["form"])
    what = "Line2D({0}, {1})".format(p0, p1)
    gaps = [abs(F(a) - F(b)) for a, b in zip(p0, p1)]
    small = Fraction(1, 10 ** 10)
    if all(g <= small for g in gaps):
        if all(g < small / 2 for g in gaps):
            note("coincident")
            with raises(ValueError, what):
                Line2D(a0, a1)
        return False
    if any(small / 2 < g < small * 2 for g in gaps):
        return False
    line = Line2D(a0, a1)
    if case["form"] == "array":
        a0 += 5
        a1 -= 7
        note("inputs changed")
    horizontal, vertical = gaps[1] <= small, gaps[0] <= small
    expect(bool(line.IsHorizontal) == horizontal
           and bool(line.IsVertical) == vertical,
           "{0}: horizontal {1}, vertical {2}", what, line.IsHorizontal,
           line.IsVertical)
    note("horizontal" if horizontal else
         "vertical" if vertical else "sloped")
    hit = False
    x0, y0 = F(p0[0]), F(p0[1])
    dx, dy = F(p1[0]) - x0, F(p1[1]) - y0
    for item in case["queries"]:
        if item[0] == "on":
            t, off = F(item[1]), F(item[2])
            q = [x0 + t * dx, y0 + t * dy]
            q[0 if vertical else 1] += off
            q = [float(v) for v in q]
        else:
            q = item[1:]
        want = relation(p0, p1, q, 1e-10)
        if want is None:
            note("too close")
            continue
        got = line.LocationRelation(spell(q, case["form"]))
        expect(got is want, "{0}: {1} is {2} instead of {3}", what, q, got,
               want)
        note(want.name)
        hit = hit or want is Location.ON
    for known in case["coords"]:
        for which in "xy":
            if which == "y" and horizontal or which == "x" and vertical:
                with raises(RuntimeError, "{0}({1}, {2!r})".format(
                        what, known, which)):
                    line.Coordinate(known, which)
                continue
            k = F(known)
            if which == "x":
                exact = (k, y0 if horizontal else y0 + dy / dx * (k - x0))
                steep = 0 if horizontal else abs(dy / dx)
            else:
                exact = (x0 if vertical else x0 + dx / dy * (k - y0), k)
                steep = 0 if vertical else abs(dx / dy)
            scale = 1 + float(abs(k) + abs(x0) + abs(y0)) * (
                1 + float(steep))
            results = [line.Coordinate(known, which=which),
                       line(known, which=which)]
            if which == "x":
                results += [line.Coordinate(known), line(known)]
            for got in results:
                expect(isinstance(got, tuple) and len(got) == 2,
                       "{0}({1}, {2!r}): {3}", what, known, which, got)
                expect(all(abs(float(g) - float(e)) <= 1e-12 * scale
                           for g, e in zip(got, exact)),
                       "{0}({1}, {2!r}): {3} instead of {4}", what, known,
                       which, got, tuple(map(float, exact)))
    ratios = case["ratios"]
    got = line.PointsFactory(spell(ratios, case["form"]))
    expect(got.shape == (len(ratios), 2), "{0}: points {1}", what, got.shape)
    scale = 1 + float(abs(x0) + abs(y0) + (abs(dx) + abs(dy)) * max(
        [1] + [abs(F(r)) for r in ratios]))
    for r, point in zip(ratios, got):
        exact = (float(x0 + F(r) * dx), float(y0 + F(r) * dy))
        expect(all(abs(g - e) <= 1e-13 * scale
                   for g, e in zip(point, exact)),
               "{0}: ratio {1} gives {2} instead of {3}", what, r,
               point.tolist(), exact)
    got = line.PointsFactory()
    expect(got.shape == (101, 2), "{0}: {1} default points", what, got.shape)
    want = [[float(x0 + Fraction(i, 100) * dx),
             float(y0 + Fraction(i, 100) * dy)] for i in range(101)]
    expect(np.max(np.abs(got - want)) <= 1e-13 * scale,
           "{0}: default points", what)
    return hit or not (horizontal or vertical)


@st.composite
def tolerance_case(draw):
    return {"p0": draw(POINT), "d": draw(st.lists(st.sampled_from(
        [0.0, 0.01, -0.01, 1.0, -2.0, 5.0]), min_size=2, max_size=2)),
        "tol0": draw(st.sampled_from([0.1, 1e-4])),
        "tol": draw(st.sampled_from([0.1, 1e-3, 1e-6])),
        "t": draw(st.sampled_from([0.0, 0.5, -1.0, 2.0])),
        "off": draw(st.sampled_from(
            [0.0, 0.03, -0.03, 5e-7, 2e-4, -2e-4, 1.0, -3.0]))}


def check_tolerance(case, note):
    p0 = case["p0"]
    p1 = [a + d for a, d in zip(p0, case["d"])]
    tol0, tol = case["tol0"], case["tol"]
    gaps = [abs(b - a) for a, b in zip(p0, p1)]
    if any(tol0 / 2 < g < tol0 * 2 for g in gaps):
        return False
    what = "Line2D({0}, {1}, tol={2})".format(p0, p1, tol0)
    if all(g <= tol0 for g in gaps):
        with raises(ValueError, what):
            Line2D(p0, p1, tol=tol0)
        note("coincident")
        return False
    line = Line2D(p0, p1, tol=tol0)
    horizontal, vertical = gaps[1] <= tol0, gaps[0] <= tol0
    expect(bool(line.IsHorizontal) == horizontal
           and bool(line.IsVertical) == vertical,
           "{0}: horizontal {1}, vertical {2}", what, line.IsHorizontal,
           line.IsVertical)
    if horizontal and gaps[1] or vertical and gaps[0]:
        # a line that only counts as horizontal: location is ambiguous
        note("nearly axis-parallel")
        return True
    q = [p0[0] + case["t"] * (p1[0] - p0[0]),
         p0[1] + case["t"] * (p1[1] - p0[1])]
    q[0 if vertical else 1] += case["off"]
    want = relation(p0, p1, q, tol, tol0)
    if want is None:
        return False
    got = line.LocationRelation(q, tol=tol)
    expect(got is want, "{0}: {1} with tolerance {2} is {3} instead of {4}",
           what, q, tol, got, want)
    note(want.name)
    return True


@st.composite
def invalid_case(draw):
    good = st.just([0.5, 1.0])
    bad = st.one_of(st.lists(VALUE, max_size=1),
                    st.lists(VALUE, min_size=3, max_size=4),
                    st.just([[0.0, 1.0]]), st.just(3.0))
    p, q = draw(st.sampled_from([(good, bad), (bad, good), (bad, bad)]))
    return {"p0": draw(p), "p1": draw(q)}


def check_invalid(case, note):
    kinds = (AssertionError, ValueError, TypeError)
    with raises(kinds, "Line2D({p0}, {p1})".format(**case)):
        Line2D(case["p0"], case["p1"])
    line = Line2D([0, 0], [1, 2])
    with raises(kinds, "Coordinate(1, which='z')"):
        line.Coordinate(1, which="z")
    with raises(kinds, "ratios of two dimensions"):
        line.PointsFactory([[0.5, 1.0]])
    return False


SUBS = [
    Sub("line", line_case, check, 12000, 200000, shards=6),
    Sub("tolerance", tolerance_case, check_tolerance, 2000, 30000, shards=2),
    Sub("integer", integer_case, check, 1500, 20000),
    Sub("invalid", invalid_case, check_invalid, 100, 2000),
]
