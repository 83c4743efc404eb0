"""C29: official representations, descriptions and LaTeX forms."""

import math
import re
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import HamiltonianPy
from core import Sub, expect, raises
from checks.common import (
    SPELLINGS, as_np, coefficients, site_lists, spelled)
from checks.lattices import build as build_lattice, lattice_strategy
from HamiltonianPy import (
    AoC, Bond, IndexTable, Line2D, NumberOperator, ParticleTerm, SiteID,
    SpinInteraction, SpinOperator, StateID)
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace

PROPERTY = "C29"
RULE = (
    "A case is a site, state, operator, term, bond, line, space, table or "
    "lattice with arbitrary coordinates in any spelling and the formatting "
    "options. Non-trivial: a non-integer or negative coordinate, or an "
    "option that is not the default.")
ASSUMPTIONS = [
    "coefficients are shown by str()",
    "rounded coordinates are compared as numbers, so -0.0 and 0.0 are the same",
]

NAMESPACE = {name: getattr(HamiltonianPy, name)
             for name in HamiltonianPy.__all__}
NAMESPACE.update(SimpleHilbertSpace=SimpleHilbertSpace,
                 HilbertSpace=HilbertSpace, __builtins__={
                     "True": True, "False": False})
VALUE = st.one_of(
    st.sampled_from([0, 1, -1, 2, 0.5, -0.25, 1 / 3, -2 / 3, math.sqrt(3) / 2,
                     0.00004, 0.00006, -0.00006, 12.34567, 100, 1e-7, 1e5]),
    st.integers(-30, 30), st.floats(-50, 50, allow_nan=False))
NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def numbers(text):
    return [float(x) for x in re.findall(NUMBER, text)]


def near(a, b, tol):
    return len(a) == len(b) and all(
        abs(x - y) <= tol * max(1, abs(y)) for x, y in zip(a, b))


def back(obj, what):
    text = repr(obj)
    try:
        return eval(text, dict(NAMESPACE))
    except Exception as exc:
        expect(False, "{0}: {1!r} does not evaluate: {2!r}", what, text, exc)


# -- sites, states, operators ------------------------------------------------------


CLASSES = ["SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"]


@st.composite
def option_strategy(draw):
    return {"ndigits": draw(st.sampled_from([None, None, 0, 1, 2, 4, 6])),
            "index": draw(st.sampled_from(["none", "none", "int", "table",
                                           "npint", "missing"])),
            "start": draw(st.sampled_from([0, 1, 7])),
            "number": draw(st.integers(0, 20)),
            "half": draw(st.sampled_from([None, True, False])),
            "suppress": draw(st.sampled_from([None, True, False]))}


@st.composite
def single_case(draw):
    site = draw(st.lists(VALUE, min_size=1, max_size=3))
    return {"cls": draw(st.sampled_from(CLASSES)), "site": site,
            "spin": draw(st.integers(0, 3)), "orbit": draw(st.integers(0, 2)),
            "otype": draw(st.sampled_from("xyzpm")),
            "spell": draw(SPELLINGS), "opt": draw(option_strategy())}


def make(case, site):
    spin, orbit = case["spin"], case["orbit"]
    cls = case["cls"]
    if cls == "SiteID":
        return SiteID(site)
    if cls == "StateID":
        return StateID(site, spin, orbit)
    if cls == "AoC":
        return AoC(len(case["otype"] + case["spell"]) % 2, site, spin, orbit)
    if cls == "NumberOperator":
        return NumberOperator(site, spin, orbit)
    return SpinOperator(case["otype"], site)


def options(opt, sites, me):
    """-> keyword arguments and the expected form of the site (or None)."""
    kw = {}
    if opt["ndigits"] is not None:
        kw["ndigits"] = opt["ndigits"]
    if opt["half"] is not None:
        kw["spin_one_half"] = opt["half"]
    if opt["suppress"] is not None:
        kw["suppress_orbit"] = opt["suppress"]
    index = None
    if opt["index"] in ("int", "npint"):
        index = opt["number"]
        kw["site_index"] = (np.int64(index) if opt["index"] == "npint"
                            else index)
    elif opt["index"] == "table":
        table = IndexTable([SiteID(s) for s in sites], start=opt["start"])
        kw["site_index"] = table
        index = opt["start"] + me
    return kw, index


def take_site(text, site, kw, index, what):
    """Strip the site form from the front; what is left."""
    if index is not None:
        want = str(index)
        expect(text.startswith(want), "{0}: {1!r} does not start with the "
               "site index {2}", what, text, want)
        return text[len(want):]
    m = re.match(r"\(([^()]*)\)", text)
    expect(m is not None, "{0}: {1!r} does not start with coordinates", what,
           text)
    parts = m.group(1).split(",")
    expect(len(parts) == len(site), "{0}: {1!r} has {2} coordinates", what,
           text, len(parts))
    nd = kw.get("ndigits", 4)
    for part, x in zip(parts, site):
        got = float(part)
        # half a unit of the last digit, and nothing beyond it
        expect(abs(Fraction(part) - Fraction(x))
               <= Fraction(1, 2 * 10 ** nd) + Fraction(abs(x)) / 10 ** 14,
               "{0}: {1!r} for the coordinate {2!r}", what, part, x)
        expect(abs(got * 10 ** nd - round(got * 10 ** nd)) < 1e-6 * max(
            1, abs(got * 10 ** nd)),
            "{0}: {1!r} has more than {2} digits", what, part, nd)
    return text[m.end():]


def take_state(text, site, spin, orbit, kw, index, what):
    rest = take_site(text, site, kw, index, what)
    half = kw.get("spin_one_half", True)
    if half and spin < 2:
        want = ["\\downarrow", "\\uparrow"][spin]
    else:
        want = str(spin)
    want = "," + want
    if not kw.get("suppress_orbit", True):
        want += "," + str(orbit)
    plain = rest.replace("$", "")
    expect(plain.startswith(want), "{0}: {1!r} instead of {2!r} after the "
           "site", what, rest, want)
    return plain[len(want):]


def take_operator(text, cls, op, kw, index, what):
    """One operator (no dollar signs) from the front of `text`."""
    letter = {"AoC": "c", "NumberOperator": "n", "SpinOperator": "S"}[cls]
    head = letter + "_{"
    expect(text.startswith(head), "{0}: {1!r} does not start with {2!r}",
           what, text, head)
    text = text[len(head):]
    if cls == "SpinOperator":
        text = take_site(text, op["site"], kw, index, what)
        tail = "}^{" + op["otype"] + "}"
    else:
        text = take_state(text, op["site"], op["spin"], op["orbit"], kw,
                          index, what)
        tail = "}^{\\dagger}" if cls == "AoC" and op["create"] else "}"
    expect(text.startswith(tail), "{0}: {1!r} instead of {2!r}", what, text,
           tail)
    return text[len(tail):]


def check_single(case, note):
    cls = case["cls"]
    site = case["site"]
    obj = make(case, spelled(site, case["spell"]))
    what = "{0} at {1}".format(cls, site)
    again = back(obj, what)
    expect(type(again) is type(obj) and again == obj
           and hash(again) == hash(obj),
           "{0}: {1!r} evaluates to {2!r}", what, repr(obj), again)
    expect([float(x) for x in again.coordinate] == [float(x) for x in site],
           "{0}: {1!r} lost the coordinates", what, repr(obj))
    for attribute in ("spin", "orbit", "otype"):
        if hasattr(obj, attribute):
            expect(getattr(again, attribute) == getattr(obj, attribute),
                   "{0}: {1!r} lost the {2}", what, repr(obj), attribute)
    expect(str(obj) == repr(obj), "{0}: str {1!r}", what, str(obj))

    opt = case["opt"]
    other = [x + 1 for x in site]
    if opt["index"] == "missing":
        table = IndexTable([SiteID(other)])
        with raises(KeyError, what + " with a table without the site"):
            obj.tolatex(site_index=table)
        return False
    me = opt["number"] % 2
    kw, index = options(opt, [site, other] if me == 0 else [other, site], me)
    what += ".tolatex({0})".format(kw)
    if not isinstance(site[0], (int, float)):
        return False
    text = obj.tolatex(**kw)
    if cls == "SiteID":
        rest = take_site(text, site, kw, index, what)
    elif cls == "StateID":
        rest = take_state(text, site, case["spin"], case["orbit"], kw, index,
                          what)
        if kw.get("spin_one_half", True) and case["spin"] < 2:
            expect(text.count("$") == 2, "{0}: {1!r}", what, text)
        else:
            expect("$" not in text, "{0}: {1!r}", what, text)
    else:
        expect(text[0] == "$" and text[-1] == "$" and "$" not in text[1:-1],
               "{0}: {1!r} is not one formula", what, text)
        op = {"site": site, "spin": case["spin"], "orbit": case["orbit"],
              "otype": case["otype"],
              "create": cls == "AoC" and obj.otype == 1}
        rest = take_operator(text[1:-1], cls, op, kw, index, what)
    expect(rest == "", "{0}: {1!r} left over", what, rest)
    note(cls)
    note("index " + opt["index"])
    return bool(kw) or any(x != int(x) or x < 0 for x in site)


# -- terms ----------------------------------------------------------------------------


@st.composite
def term_case(draw):
    sites = draw(site_lists(1, 3))
    return {"sites": sites, "spin": draw(st.booleans()),
            "ops": draw(st.lists(st.tuples(
                st.integers(0, len(sites) - 1), st.integers(0, 4),
                st.integers(0, 2), st.integers(0, 2)).map(list),
                min_size=1, max_size=4)),
            "coeff": draw(st.one_of(st.none(), coefficients(zero=True))),
            "np": draw(st.booleans()),
            "opt": draw(option_strategy())}


def check_term(case, note):
    sites = case["sites"]
    opt = dict(case["opt"])
    if opt["index"] != "table":
        opt["index"] = "none"
    ops, described = [], []
    for i, kind, spin, orbit in case["ops"]:
        op = {"site": sites[i], "spin": spin, "orbit": orbit, "i": i,
              "otype": "xyzpm"[kind], "create": kind % 2 == 1}
        described.append(op)
        ops.append(SpinOperator(op["otype"], sites[i]) if case["spin"]
                   else AoC(kind % 2, sites[i], spin, orbit))
    kw = {}
    coeff = 1.0
    if case["coeff"] is not None:
        coeff = as_np(case["coeff"], "np" if case["np"] else "")
        kw["coeff"] = coeff
    cls = SpinInteraction if case["spin"] else ParticleTerm
    term = cls(ops, **kw)
    what = "{0} {1} of {2}".format(coeff, cls.__name__, ops)
    options_kw, _ = options(opt, sites, 0)
    if "site_index" in options_kw:
        table = options_kw.pop("site_index")
        text = (term.tolatex(table, **options_kw) if opt["number"] % 2 else
                term.tolatex(indices_table=table, **options_kw))
    else:
        text = term.tolatex(**options_kw)
    expect(text[0] == "$" and text[-1] == "$" and "$" not in text[1:-1],
           "{0}: {1!r} is not one formula", what, text)
    rest = text[1:-1]
    expect(rest.startswith(str(coeff)), "{0}: {1!r} does not start with the "
           "coefficient", what, text)
    rest = rest[len(str(coeff)):]
    order = described
    if case["spin"]:
        # operators on different sites may have been moved past each other
        order = [next(d for d in described if d["otype"] == o.otype
                      and SiteID(d["site"]) == o.site_id)
                 for o in term.components]
    for op in order:
        index = opt["start"] + op["i"] if opt["index"] == "table" else None
        rest = take_operator(rest, "SpinOperator" if case["spin"] else "AoC",
                             op, options_kw, index, what)
    expect(rest == "", "{0}: {1!r} left over in {2!r}", what, rest, text)
    lines = str(term).split("\n")
    expect(str(coeff) in lines[0], "{0}: first line {1!r}", what, lines[0])
    shown = [line.strip() for line in lines if line.strip().startswith(
        ("AoC(", "SpinOperator("))]
    expect(shown == [repr(o) for o in term.components],
           "{0}: the description lists {1}", what, shown)
    note(cls.__name__)
    note("index " + opt["index"])
    return len(ops) > 1


# -- bonds, lines, spaces, tables, lattices ---------------------------------------


@st.composite
def object_case(draw):
    kind = draw(st.sampled_from(["bond", "bond", "line", "simple", "space",
                                 "table", "lattice"]))
    case = {"kind": kind, "flag": draw(st.booleans())}
    if kind == "bond":
        d = draw(st.integers(1, 3))
        case["p"] = draw(st.lists(st.lists(VALUE, min_size=d, max_size=d),
                                  min_size=2, max_size=2))
    elif kind == "line":
        case["p"] = draw(st.lists(st.lists(VALUE, min_size=2, max_size=2),
                                  min_size=2, max_size=2))
        if draw(st.integers(0, 2)) == 0:
            k = draw(st.integers(0, 1))
            case["p"][0][k] = case["p"][1][k]
    elif kind in ("simple", "space"):
        states = draw(st.lists(st.integers(0, 9), min_size=1, max_size=6,
                               unique=True))
        cut = draw(st.integers(1, len(states)))
        case["parts"] = [
            [p, draw(st.integers(-1, len(p)))]
            for p in (states[:cut], states[cut:]) if p]
    elif kind == "table":
        case["sites"] = draw(site_lists(1, 4))
        case["start"] = draw(st.sampled_from([0, 1, 10]))
    else:
        case["lattice"] = draw(lattice_strategy(3, strength=1))
    return case


def check_object(case, note):
    kind = case["kind"]
    note(kind)
    if kind == "bond":
        p0, p1 = case["p"]
        bond = Bond(p0, p1, directional=case["flag"])
        what = "Bond({0}, {1}, {2})".format(p0, p1, case["flag"])
        again = back(bond, what)
        expect(type(again) is Bond and again == bond
               and again.directional == bond.directional, "{0}: {1!r}", what,
               repr(bond))
        expect([list(map(float, p)) for p in again.endpoints]
               == [list(map(float, p)) for p in (p0, p1)],
               "{0}: {1!r} lost the endpoints", what, repr(bond))
        shown = {}
        for line in str(bond).split("\n"):
            title, _, content = line.partition(":")
            shown[title.strip()] = content.strip()
        expect(sorted(shown) == ["Azimuth", "Displace", "Length", "P0", "P1"],
               "{0}: described by {1}", what, sorted(shown))
        exact = {"P0": p0, "P1": p1, "Length": [math.dist(p0, p1)]}
        if case["flag"]:
            exact["Displace"] = [b - a for a, b in zip(p0, p1)]
            exact["Azimuth"] = np.atleast_1d(bond.getAzimuth()).tolist()
        else:
            for title in ("Displace", "Azimuth"):
                expect(shown[title] == "Undefined", "{0}: {1} {2!r}", what,
                       title, shown[title])
        for title, want in exact.items():
            scale = max([1] + [abs(x) for x in want])
            got = numbers(shown[title])
            expect(len(got) == len(want) and all(
                abs(g - w) <= 1e-7 * scale for g, w in zip(got, want)),
                "{0}: {1} shown as {2!r} instead of {3}", what, title,
                shown[title], want)
        return True
    if kind == "line":
        p0, p1 = case["p"]
        gaps = [abs(a - b) for a, b in zip(p0, p1)]
        if any(0 < g < 1e-6 for g in gaps) or not any(gaps):
            return False
        line = Line2D(p0, p1)
        what = "Line2D({0}, {1})".format(p0, p1)
        again = back(line, what)
        expect(type(again) is Line2D and np.array_equal(
            again.PointsFactory([0, 1, 3]), line.PointsFactory([0, 1, 3])),
            "{0}: {1!r}", what, repr(line))
        text = str(line)
        if gaps[1] == 0 or gaps[0] == 0:
            axis, value = ("y", p0[1]) if gaps[1] == 0 else ("x", p0[0])
            m = re.fullmatch(r"(\w) = (-?\d+\.\d{4})", text)
            expect(m is not None and m.group(1) == axis and abs(
                float(m.group(2)) - value) < 5.1e-5,
                "{0}: described as {1!r}", what, text)
        else:
            slope = (Fraction(p1[1]) - Fraction(p0[1])) / (
                Fraction(p1[0]) - Fraction(p0[0]))
            cross = Fraction(p0[1]) - slope * Fraction(p0[0])
            m = re.fullmatch(r"y = (-?\d+\.\d{4})x \+ (-?\d+\.\d{4})", text)
            expect(m is not None, "{0}: described as {1!r}", what, text)
            noise = 1e-12 * (float(abs(slope)) * (
                1 + abs(p0[0])) + abs(p0[1]))
            expect(all(abs(float(g) - float(w)) < 5.1e-5 + noise
                       for g, w in zip(m.groups(), (slope, cross))),
                   "{0}: described as {1!r}", what, text)
        return True
    if kind in ("simple", "space"):
        parts = case["parts"]
        if kind == "simple":
            space = SimpleHilbertSpace(tuple(parts[0][0]), parts[0][1])
            parts = parts[:1]
        else:
            space = HilbertSpace(*[[tuple(p), n] for p, n in parts])
        what = repr(space)
        again = back(space, what)
        expect(type(again) is type(space) and repr(again) == repr(space)
               and np.array_equal(again.base_vectors(), space.base_vectors()),
               "{0} evaluates to {1!r}", what, again)
        names = (("single_particle_states", "state_number",
                  "particle_number") if kind == "simple" else
                 ("subspace_number", "subspace_specifiers"))
        for name in names:
            expect(getattr(again, name) == getattr(space, name),
                   "{0}: {1} of the copy", what, name)
        text = str(space)
        for states, number in parts:
            expect(str(tuple(states)) in text and str(number) in text,
                   "{0}: described as {1!r}", what, text)
        return True
    if kind == "table":
        objs = [SiteID(s) for s in case["sites"]]
        table = IndexTable(objs, start=case["start"])
        rows = [line.split(None, 1) for line in str(table).split("\n")]
        rows = [(int(r[0]), r[1]) for r in rows
                if len(r) == 2 and r[0].isdigit()]
        want = [(case["start"] + i, repr(o)) for i, o in enumerate(objs)]
        expect(sorted(rows) == want, "table described as {0!r}", str(table))
        return len(objs) > 1
    lat, _, _ = build_lattice(case["lattice"])
    text = str(lat)
    blocks = re.split(r"(?m)^(\w[\w ]*):", text)
    shown = {blocks[i].strip(): blocks[i + 1]
             for i in range(1, len(blocks) - 1, 2)}
    for title, want in (
            ("Point Number", [lat.point_num]),
            ("Space Dimension", [lat.space_dim]),
            ("Translation Dimension", [lat.trans_dim]),
            ("Points", lat.points.ravel().tolist()),
            ("Vectors", lat.vectors.ravel().tolist()),
            ("Bs", lat.bs.ravel().tolist())):
        expect(title in shown, "lattice described as {0!r}", text)
        expect(near(numbers(shown[title]), want, 1e-7),
               "lattice: {0} shown as {1!r} instead of {2}", title,
               shown[title], want)
    return True


SUBS = [
    Sub("single", single_case, check_single, 5000, 100000, shards=3),
    Sub("term", term_case, check_term, 3000, 60000, shards=3),
    Sub("object", object_case, check_object, 3000, 60000, shards=3),
]
