"""C21: rotations in three dimensions."""

import math

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from HamiltonianPy import rotation3d as rot

PROPERTY = "C21"
SCALE = 5
RULE = (
    "A case is a rotation request (about x, y, z, a general axis in either "
    "form and any container, or by Euler angles) with angles in radians or "
    "degrees and the inversion flag; or two angles about one axis; or one "
    "exported constant; or an invalid axis. Non-trivial: the angle is not a "
    "multiple of the full turn.")
ASSUMPTIONS = [
    "axes have a length between 0.001 and 1000000 (the library views "
    "coordinates below 1e-10 as zero)",
    "matrices compared to 1e-9, plus 1e-15 per radian of the angle, plus 1e-6 "
    "for axes shorter than 0.1",
]

ANGLES = st.one_of(
    st.sampled_from([0, 1, -1, 30, 45, 60, 90, 120, 180, 270, 360, -90, 450,
                     math.pi / 6, math.pi / 2, math.pi, -math.pi / 3,
                     2 * math.pi]),
    st.floats(-20, 20, allow_nan=False), st.integers(-720, 720))
COMPONENT = st.one_of(
    st.sampled_from([0, 1, -1, 2, 0.5, -0.25, 1e-5, -3]),
    st.floats(-5, 5, allow_nan=False))


def rodrigues(axis, angle):
    """Turn by `angle` counter-clockwise about `axis` (plain floats)."""
    x, y, z = (float(a) for a in axis)
    big = max(abs(x), abs(y), abs(z))
    x, y, z = x / big, y / big, z / big
    r = math.sqrt(x * x + y * y + z * z)
    k = np.array([x / r, y / r, z / r])
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return (np.identity(3) + math.sin(angle) * K
            + (1 - math.cos(angle)) * (K @ K)), k


def radians(angle, deg):
    return math.radians(angle) if deg else float(angle)


@st.composite
def general_case(draw):
    kind = draw(st.sampled_from(["x", "y", "z", "axis", "axis", "angles",
                                 "euler", "euler"]))
    return {"kind": kind, "theta": draw(ANGLES),
            "more": [draw(ANGLES), draw(ANGLES)],
            "axis": [draw(COMPONENT) for _ in range(3)],
            "scale": draw(st.sampled_from([1, 1, 10, 1e5, 0.01, 7])),
            "form": draw(st.sampled_from(["list", "tuple", "array", "view"] + TYPES)),
            "whole": draw(st.lists(st.one_of(
                st.sampled_from([0, 1, -1, 12, 100, -127, 128, 255]),
                st.integers(-1000, 1000)), min_size=3, max_size=3)),
            "deg": draw(st.sampled_from([None, True, False])),
            "inversion": draw(st.sampled_from([None, True, False]))}


#: arrays of integers, of which the values are whole numbers within the type
TYPES = ["int8", "uint8", "int16", "uint16", "int32", "int64"]


def whole(case):
    """The components of an axis that is an array of integers."""
    info = np.iinfo(case["form"])
    return [min(max(w, int(info.min)), int(info.max)) for w in case["whole"]]


def spell(axis, form):
    if form in TYPES:
        given = np.array(axis, dtype=form)
        return given if given.tolist() == list(axis) else np.array(axis)
    if form == "view":
        return np.array([list(axis), [7] * len(axis)]).T[:, 0]
    return {"list": list, "tuple": tuple, "array": np.array}[form](axis)


def verify(R, want, inversion, tol, what):
    expect(isinstance(R, np.ndarray) and R.shape == (3, 3), "{0}: {1}", what,
           getattr(R, "shape", type(R)))
    if inversion:
        want = -want
    off = float(np.max(np.abs(R - want)))
    expect(off <= tol, "{0}: off by {1}\n{2}\ninstead of\n{3}", what, off,
           R.tolist(), want.tolist())
    expect(np.max(np.abs(R @ R.T - np.identity(3))) < 1e-10,
           "{0}: not orthogonal", what)
    det = np.linalg.det(R)
    expect(abs(det - (-1 if inversion else 1)) < 1e-10,
           "{0}: determinant {1}", what, det)


def options(case):
    return {k: case[k] for k in ("deg", "inversion") if case[k] is not None}


def check_general(case, note):
    kind, kw = case["kind"], options(case)
    deg, inversion = bool(case["deg"]), bool(case["inversion"])
    theta = case["theta"]
    what = "{0}".format(case)
    note(kind)
    angle = radians(theta, deg)
    tol = 1e-9 + 1e-15 * abs(angle)
    if kind in "xyz":
        func = getattr(rot, "Rotation" + kind.upper())
        axis = [float(kind == c) for c in "xyz"]
        want, _ = rodrigues(axis, angle)
        R = func(theta, **kw)
        verify(R, want, inversion, tol, what)
        G = rot.RotationGeneral(spell(axis, case["form"]), theta, **kw)
        verify(G, want, inversion, tol, what + " (general form)")
    elif kind == "axis":
        axis = [a * case["scale"] for a in case["axis"]]
        if case["form"] in TYPES:
            axis = whole(case)
        length = math.sqrt(sum(float(a) ** 2 for a in axis))
        if not 1e-3 <= length <= 1e6:
            note("axis out of range")
            return False
        given = spell(axis, case["form"])
        want, k = rodrigues(axis, angle)
        R = rot.RotationGeneral(given, theta, **kw)
        if length < 0.1:
            tol += 1e-6
        verify(R, want, inversion, tol, what)
        expect(np.array_equal(given, axis), "{0}: axis modified", what)
        s = -1 if inversion else 1
        expect(np.max(np.abs(R @ k - s * k)) < 1e-9 + tol,
               "{0}: the axis is not kept", what)
    elif kind == "angles":
        a, b = (radians(x, deg) for x in case["more"])
        axis = [math.cos(a) * math.sin(b), math.sin(a) * math.sin(b),
                math.cos(b)]
        want, _ = rodrigues(axis, angle)
        tol += 1e-14 * (abs(a) + abs(b))
        R = rot.RotationGeneral(spell(case["more"], case["form"]), theta, **kw)
        verify(R, want, inversion, tol, what)
    else:
        a, b, c = theta, case["more"][0], case["more"][1]
        A, _ = rodrigues([0, 0, 1], radians(a, deg))
        B, _ = rodrigues([0, 1, 0], radians(b, deg))
        C, _ = rodrigues([0, 0, 1], radians(c, deg))
        R = rot.RotationEuler(a, b, c, **kw)
        verify(R, A @ B @ C, inversion, 1e-9, what)
        expect(np.max(np.abs(rot.RotationEuler(a, 0, c, **kw)
                             - rot.RotationZ(a + c, **kw))) < 1e-9,
               "{0}: z-0-z is not the sum of the angles", what)
    note("degrees" if deg else "radians")
    if inversion:
        note("inversion")
    return abs(math.sin(angle / 2)) > 1e-6


@st.composite
def compose_case(draw):
    return {"axis": [draw(COMPONENT) for _ in range(3)],
            "a": draw(ANGLES), "b": draw(ANGLES),
            "deg": draw(st.booleans()),
            "inv": [draw(st.booleans()), draw(st.booleans())]}


def check_compose(case, note):
    axis = case["axis"]
    if math.sqrt(sum(float(a) ** 2 for a in axis)) < 1e-1:
        return False
    deg = case["deg"]
    a, b = case["a"], case["b"]
    p, q = case["inv"]
    what = "{0}".format(case)
    one = rot.RotationGeneral(axis, a, deg=deg, inversion=p)
    two = rot.RotationGeneral(axis, b, deg=deg, inversion=q)
    both = rot.RotationGeneral(axis, a + b, deg=deg, inversion=p != q)
    expect(np.max(np.abs(one @ two - both)) < 1e-9,
           "{0}: angles do not add up", what)
    back = rot.RotationGeneral([-x for x in axis], -a, deg=deg, inversion=p)
    expect(np.max(np.abs(one - back)) < 1e-9,
           "{0}: opposite axis and angle differ", what)
    # turns are counter-clockwise: any perpendicular vector and its image
    k = np.array(axis, dtype=float) / np.linalg.norm(axis)
    v = np.cross(k, [1.0, 0, 0] if abs(k[0]) < 0.9 else [0, 1.0, 0])
    w = rot.RotationGeneral(axis, a, deg=deg) @ v
    angle = radians(a, deg)
    expect(abs(v @ w - math.cos(angle) * (v @ v)) < 1e-9
           and abs(np.cross(v, w) @ k - math.sin(angle) * (v @ v)) < 1e-9,
           "{0}: turned the wrong way", what)
    return True


def constant_table():
    table = {"E": np.identity(3), "INVERSION": -np.identity(3)}
    for axis, vec in (("X", [1, 0, 0]), ("Y", [0, 1, 0]), ("Z", [0, 0, 1])):
        for d in (30, 45, 60, 90, 180, 270):
            table["R{0}{1}".format(axis, d)] = rodrigues(
                vec, math.radians(d))[0]
    for d in (60, 120, 180, 240, 300):
        table["R111_{0}".format(d)] = rodrigues([1, 1, 1], math.radians(d))[0]
    # anti-cyclic permutations: exchange of the two other coordinates
    for i in range(3):
        m = np.identity(3)
        j, k = [x for x in range(3) if x != i]
        m[[j, k]] = m[[k, j]]
        table["AP{0}".format(i)] = m
    return table


def constant_case():
    return st.fixed_dictionaries(
        {"name": st.sampled_from(sorted(constant_table()))})


def check_constant(case, note):
    name = case["name"]
    want = constant_table()[name]
    got = getattr(rot, name)
    expect(isinstance(got, np.ndarray) and got.shape == (3, 3)
           and np.max(np.abs(got - want)) < 1e-12, "{0} is {1}", name, got)
    note(name[:2])
    return True


@st.composite
def invalid_case(draw):
    return {"axis": draw(st.one_of(
        st.sampled_from([[0, 0, 0], [0.0, -0.0, 0.0], [1e-12, 0, -1e-12]]),
        st.lists(COMPONENT, max_size=1), st.lists(
            COMPONENT, min_size=4, max_size=6),
        st.sampled_from(["set", "dict", "str", "None", "number", "frozenset",
                         "iterator"]))),
        "form": draw(st.sampled_from(["list", "tuple", "array", "view"] + TYPES)),
            "whole": draw(st.lists(st.one_of(
                st.sampled_from([0, 1, -1, 12, 100, -127, 128, 255]),
                st.integers(-1000, 1000)), min_size=3, max_size=3)),
        "theta": draw(ANGLES), "deg": draw(st.booleans())}


NO_SEQUENCE = {
    "set": {1.0, 2.0, 3.0}, "dict": {1.0: 0, 2.0: 1, 3.0: 2}, "str": "xyz",
    "None": None, "number": 1.0, "frozenset": frozenset([0.5, 2.0]),
    "iterator": None}


def check_invalid(case, note):
    if isinstance(case["axis"], str):
        note("no sequence")
        axis = NO_SEQUENCE[case["axis"]]
        if case["axis"] == "iterator":
            axis = iter([1.0, 2.0, 3.0])
        with raises((ValueError, AssertionError, TypeError),
                    "axis {0!r}".format(axis)):
            rot.RotationGeneral(axis, case["theta"], deg=case["deg"])
        return False
    note("zero" if len(case["axis"]) == 3 else "ill-formed")
    with raises((ValueError, AssertionError, TypeError),
                "axis {0}".format(case["axis"])):
        rot.RotationGeneral(spell(case["axis"], case["form"]), case["theta"],
                            deg=case["deg"])
    return False


SUBS = [
    Sub("general", general_case, check_general, 3000, 100000, shards=4),
    Sub("compose", compose_case, check_compose, 1000, 40000, shards=2),
    Sub("constant", constant_case, check_constant, 60, 60),
    Sub("invalid", invalid_case, check_invalid, 200, 3000),
]
