"""C23: points and convex polygons."""

from fractions import Fraction
import math

import numpy as np
from hypothesis import strategies as st

from core import HarnessError, Sub, expect, raises
from checks.common import INTEGERS
from checks.lattices import layout
from HamiltonianPy.polygon import Location, Polygon

PROPERTY = "C23"
RULE = (
    "A case is a convex polygon (hull of random grid points, or a rotated "
    "regular polygon, with or without vertices between the corners), in either direction and from any starting "
    "vertex, interior reference points, and query points on vertices, edges, "
    "edge extensions, inside, outside and next to corners; or points near edges and vertices "
    "compared with a tolerance of the caller. Non-trivial: at least one query "
    "on an edge or its extension, or within the tolerance.")
ASSUMPTIONS = [
    "query points whose distance from an edge line is neither below 1e-12 nor "
    "above 1e-7 are left out, and so are polygons with an edge that is steeper "
    "than 1:1000 (1:20 far from the origin) without being vertical",
    "reference points lie at least 1e-4 inside",
]


def F(x):
    return Fraction(float(x))


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def orientation(verts):
    """1 for counter-clockwise, -1 for clockwise."""
    area = sum(verts[i - 1][0] * verts[i][1] - verts[i][0] * verts[i - 1][1]
               for i in range(len(verts)))
    return 1 if area > 0 else -1


def subdivided(verts, cuts):
    """With vertices between the corners: {edge: parts}."""
    res = []
    for i, a in enumerate(verts):
        b = verts[(i + 1) % len(verts)]
        res.append(a)
        parts = sorted(t for k, t in cuts if k % len(verts) == i)
        res += [[u + t * (v - u) for u, v in zip(a, b)] for t in parts]
    return res


def hull(points):
    """Strict convex hull, counter-clockwise, exact."""
    points = sorted(set(map(tuple, points)))
    if len(points) < 3:
        return points
    res = []
    for seq in (points, points[::-1]):
        part = []
        for p in seq:
            while len(part) > 1 and cross(part[-2], part[-1], p) <= 0:
                part.pop()
            part.append(p)
        res += part[:-1]
    return res


NEAR = st.sampled_from([0, 4e-7, -4e-7, 3e-6, -3e-6, 2e-5, -2e-5])


@st.composite
def polygon_case(draw):
    if draw(st.integers(0, 3)):
        grid = draw(st.sampled_from([3, 6, 20, 60]))
        scale = draw(st.sampled_from([1, 0.25, 0.1, 3]))
        pts = draw(st.lists(st.tuples(
            st.integers(-grid, grid), st.integers(-grid, grid)),
            min_size=3, max_size=40 if grid == 60 else 9))
        verts = [[x * scale, y * scale] for x, y in hull(pts)]
        if scale != 0.1 and draw(st.integers(0, 2)) == 0:
            far = [draw(st.sampled_from([1000, -4096.25, 40, 0]))
                   for k in (0, 1)]
            verts = [[u + v for u, v in zip(vert, far)] for vert in verts]
    else:
        n = draw(st.one_of(st.integers(3, 8), st.integers(3, 40)))
        turn = draw(st.sampled_from([0, 15, 30, 45, 90, 7]))
        r = draw(st.sampled_from([1.0, 2.5, 4 * math.pi / 3]))
        verts = [[r * math.cos(math.radians(turn + 360 * i / n)),
                  r * math.sin(math.radians(turn + 360 * i / n))]
                 for i in range(n)]
    idx = st.integers(0, 39)
    if len(verts) > 2 and draw(st.integers(0, 2)) == 0:
        verts = subdivided(verts, draw(st.lists(
            st.tuples(st.integers(0, 39) if len(verts) > 6 else st.integers(
                0, len(verts) - 1), st.sampled_from([0.5, 0.25, 0.75])),
            min_size=1, max_size=4,
            unique_by=lambda c: (c[0] % len(verts), c[1]))))
    queries = draw(st.lists(st.one_of(
        st.tuples(st.just("vertex"), idx).map(list),
        st.tuples(st.just("edge"), idx, st.sampled_from(
            [0.5, 0.25, 0.75, 0.125, 0.9375])).map(list),
        st.tuples(st.just("line"), idx, st.sampled_from(
            [-0.5, 1.5, 2, -1, -0.125, 1.0625, 3])).map(list),
        st.tuples(st.just("inside"), st.lists(
            st.integers(1, 9), min_size=8, max_size=8)).map(list),
        st.tuples(st.just("scaled"), idx, st.sampled_from(
            [0.5, 0.99, 1.01, 2, -1])).map(list),
        st.tuples(st.just("near"), idx, NEAR, NEAR).map(list),
        st.tuples(st.just("point"), st.integers(-24, 24).map(
            lambda n: n / 4), st.integers(-24, 24).map(
            lambda n: n / 4)).map(list)), min_size=1, max_size=6))
    return {"vertices": verts, "queries": queries,
            "start": draw(idx), "reverse": draw(st.booleans()),
            "refs": draw(st.lists(st.lists(
                st.integers(1, 9), min_size=8, max_size=8),
                min_size=1, max_size=2)),
            "form": draw(st.sampled_from(
                ["list", "array", "tuple", "F", "strided"]))}


@st.composite
def integer_case(draw):
    """Integers of any type; references are given in it where they can be."""
    pts = draw(st.lists(st.tuples(
        st.one_of(st.integers(0, 12), st.sampled_from([100, 127, 200, 255])),
        st.one_of(st.integers(0, 12), st.sampled_from([100, 127, 200, 255]))),
        min_size=3, max_size=8))
    shift = draw(st.sampled_from([0, 0, -100]))
    case = draw(polygon_case())
    case["vertices"] = [[x + shift, y + shift] for x, y in hull(pts)]
    case["queries"] += draw(st.lists(st.tuples(
        st.just("point"), st.integers(0, 20), st.sampled_from(
            [0, 1, 2, 5, 100, 120, 200])).map(list), max_size=4))
    case["form"] = draw(st.sampled_from(INTEGERS))
    return case


def typed_table(values, dtype):
    """An array of that type where all the numbers fit."""
    array = np.array(values)
    info = np.iinfo(dtype)
    if array.dtype.kind == "i" and (
            info.min <= array.min() and array.max() <= info.max):
        return array.astype(dtype)
    return array


def weighted(verts, weights):
    w = [weights[i % len(weights)] for i in range(len(verts))]
    s = sum(w)
    return [sum(a * v[k] for a, v in zip(w, verts)) / s for k in (0, 1)]


def locate(verts, q):
    """Exact location; None when too close to call."""
    x = [(F(a), F(b)) for a, b in verts]
    p = (F(q[0]), F(q[1]))
    for v in x:
        d2 = (v[0] - p[0]) ** 2 + (v[1] - p[1]) ** 2
        if d2 < Fraction(1, 10 ** 24):
            return Location.CORNER
        if d2 < Fraction(1, 10 ** 14):
            return None
    n = len(x)
    orient = orientation(x)
    inside = True
    on = False
    for i in range(n):
        a, b = x[i], x[(i + 1) % n]
        c = cross(a, b, p) * orient
        # the tolerance of the library is taken along y: d * (1 + |slope|)
        d2 = c * c / ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2)
        if d2 < Fraction(1, 10 ** 24):
            t = ((p[0] - a[0]) * (b[0] - a[0])
                 + (p[1] - a[1]) * (b[1] - a[1]))
            full = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
            if 0 < t < full:
                on = True
            else:
                inside = False
        elif d2 < Fraction(1, 10 ** 14):
            return None
        elif c < 0:
            inside = False
    if on:
        return Location.BOUNDARY
    return Location.INSIDE if inside else Location.OUTSIDE


def check(case, note):
    verts = case["vertices"]
    n = len(verts)
    if n < 3:
        return False
    for i in range(n):
        (x0, y0), (x1, y1) = verts[i], verts[(i + 1) % n]
        if abs(x1 - x0) < 1e-12:
            continue
        # far from the origin the numbers have fewer decimals left
        far = max(abs(u) for v in verts for u in v) > 500
        if abs(y1 - y0) > (20 if far else 1000) * abs(x1 - x0):
            note("steep edge")
            return False
    x = [(F(a), F(b)) for a, b in verts]
    turns = [cross(x[i], x[(i + 1) % n], x[(i + 2) % n]) for i in range(n)]
    if any(abs(t) < 1e-12 for t in turns):
        note("vertices in line")
    orient = orientation(x)
    if not all(t * orient > -1e-12 for t in turns):
        raise HarnessError("not convex: {0}".format(verts))
    centre = weighted(verts, [1] * 8)
    refs = [centre]
    for w in case["refs"]:
        refs.append(weighted(verts, w))
    for r in refs:
        if locate(verts, r) is not Location.INSIDE:
            raise HarnessError("reference point outside: {0}".format(case))
        for i in range(n):
            a, b = verts[i], verts[(i + 1) % n]
            if abs(cross(a, b, r)) < 1e-4 * math.dist(a, b):
                note("thin")
                return False
    s = case["start"] % n
    other = verts[s:] + verts[:s]
    if case["reverse"]:
        other = other[::-1]
    form = case["form"]
    spell = {"array": np.array, "list": list, "tuple": tuple,
             "F": lambda v: layout(np.array(v), "F"),
             "strided": lambda v: layout(np.array(v), "strided")
             if np.ndim(v) == 2 else np.repeat(v, 2)[::2]}.get(
        form, lambda v: typed_table(v, form))
    polygons = []
    for v in (verts, other):
        given = spell(v)
        poly = Polygon(given)
        if case["form"] not in ("list", "tuple"):
            given[...] = 99
        polygons.append(poly)
        expect(poly.vertices_num == n
               and np.array_equal(poly.vertices, np.array(v)),
               "Polygon({0}): vertices {1}", v, poly.vertices.tolist())
    special = False
    for item in case["queries"]:
        kind = item[0]
        if kind == "vertex":
            q = verts[item[1] % n]
        elif kind in ("edge", "line"):
            a, b = verts[item[1] % n], verts[(item[1] + 1) % n]
            q = [float(F(u) + F(item[2]) * (F(v) - F(u)))
                 for u, v in zip(a, b)]
            if form in INTEGERS and all(x == int(x) for x in q):
                q = [int(x) for x in q]
        elif kind == "inside":
            q = weighted(verts, item[1])
        elif kind == "scaled":
            v = verts[item[1] % n]
            q = [c + item[2] * (u - c) for u, c in zip(v, centre)]
        elif kind == "near":
            q = [u + d for u, d in zip(verts[item[1] % n], item[2:])]
        else:
            q = item[1:]
        want = locate(verts, q)
        if want is None:
            note("too close")
            continue
        for poly, v in zip(polygons, (verts, other)):
            for ref in refs:
                got = poly.LocationRelation(spell(q), spell(ref))
                expect(got is want, "Polygon({0}): {1} (reference {2}) is "
                       "{3} instead of {4}", v, q, ref, got, want)
        note(want.name)
        note(kind)
        special = special or kind in ("edge", "line")
    note("{0} vertices".format(n))
    return special


# -- with a tolerance of one's own -----------------------------------------------


@st.composite
def tolerance_case(draw):
    case = draw(polygon_case())
    idx = st.integers(0, 39)
    case["queries"] = draw(st.lists(st.tuples(
        idx, st.sampled_from([0, 0.25, 0.5, 0.75, 1.5, -0.5, 3]),
        st.sampled_from([0.004, -0.004, 0.3, 5, -5, 20, -20, 0])).map(list),
        min_size=1, max_size=5))
    case["tol"] = draw(st.sampled_from([1e-2, 1e-3, 1e-6]))
    return case


def roughly(verts, q, tol):
    """Location when points that close to a line or vertex are on it."""
    d = min(math.dist(v, q) for v in verts)
    if d <= tol / 2:
        return Location.CORNER
    if d < 2 * tol:
        return None
    n = len(verts)
    orient = orientation(verts)
    extension = False
    verdicts = set()
    for i in range(n):
        a, b = verts[i], verts[(i + 1) % n]
        full = math.dist(a, b)
        d = cross(a, b, q) * orient / full
        if abs(d) <= tol / 100:
            t = ((q[0] - a[0]) * (b[0] - a[0])
                 + (q[1] - a[1]) * (b[1] - a[1])) / full
            if 2 * tol < t < full - 2 * tol:
                verdicts.add(Location.BOUNDARY)
            elif t < -20 * tol or t > full + 20 * tol:
                extension = True
            else:
                return None
        elif abs(d) < 4 * tol:
            return None
        elif d < 0:
            verdicts.add(Location.OUTSIDE)
    if len(verdicts) > 1:
        return None
    if verdicts:
        return verdicts.pop()
    return Location.OUTSIDE if extension else Location.INSIDE


def check_tolerance(case, note):
    verts, tol = case["vertices"], case["tol"]
    n = len(verts)
    if n < 3:
        return False
    for i in range(n):
        dx, dy = (abs(u - v) for u, v in zip(verts[i], verts[(i + 1) % n]))
        if not (dx == 0 or dy == 0 or (dx > 4 * tol and dy > 4 * tol
                                       and dy <= 45 * dx)):
            note("steep or flat edge")
            return False
    ref = weighted(verts, case["refs"][0])
    if any(abs(cross(verts[i], verts[(i + 1) % n], ref))
           < 100 * tol * math.dist(verts[i], verts[(i + 1) % n])
           for i in range(n)):
        note("thin")
        return False
    if case["reverse"]:
        verts = verts[::-1]
    poly = Polygon(verts, tol=tol)
    special = False
    for i, t, shift in case["queries"]:
        a, b = verts[i % n], verts[(i + 1) % n]
        full = math.dist(a, b)
        normal = [(a[1] - b[1]) / full, (b[0] - a[0]) / full]
        q = [u + t * (v - u) + shift * tol * w
             for u, v, w in zip(a, b, normal)]
        want = roughly(verts, q, tol)
        if want is None:
            note("too close")
            continue
        got = poly.LocationRelation(q, ref, tol=tol)
        expect(got is want, "Polygon({0}): {1} (reference {2}) is {3} with "
               "tolerance {4} instead of {5}", verts, q, ref, got, tol, want)
        note(want.name)
        special = special or want in (Location.CORNER, Location.BOUNDARY)
    # vertices closer than the tolerance are not distinct
    i = case["start"] % n
    close = verts + [[verts[i][0] + 0.3 * tol, verts[i][1] - 0.3 * tol]]
    with raises(ValueError, "Polygon({0}, tol={1})".format(close, tol)):
        Polygon(close, tol=tol)
    apart = verts + [[verts[i][0] + 3 * tol, verts[i][1] - 3 * tol]]
    expect(Polygon(apart, tol=tol).vertices_num == n + 1, "vertices refused")
    return special


@st.composite
def invalid_case(draw):
    tri = [[0.0, 0.0], [2.0, 0.5], [1.0, 3.0], [-1.0, 2.0]]
    kind = draw(st.sampled_from(["few", "repeat", "shape"]))
    if kind == "few":
        return {"kind": kind, "vertices": tri[:draw(st.integers(1, 2))]}
    if kind == "repeat":
        v = draw(st.permutations(tri))
        v = list(v) + [list(draw(st.sampled_from(tri)))]
        return {"kind": kind, "vertices": [
            v[i] for i in draw(st.permutations(range(5)))]}
    return {"kind": kind, "vertices": draw(st.sampled_from(
        [[[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0], [1], [2]], [0, 1, 2], 4.0,
         [[[0, 0], [1, 1], [0, 1]]]]))}


def check_invalid(case, note):
    note(case["kind"])
    kinds = {"few": (AssertionError, ValueError),
             "repeat": ValueError,
             "shape": (AssertionError, ValueError)}[case["kind"]]
    with raises(kinds, "Polygon({0})".format(case["vertices"])):
        Polygon(case["vertices"])
    return False


SUBS = [
    Sub("convex", polygon_case, check, 8000, 160000, shards=7),
    Sub("integers", integer_case, check, 1200, 30000),
    Sub("tolerance", tolerance_case, check_tolerance, 800, 20000),
    Sub("invalid", invalid_case, check_invalid, 100, 1000),
]
