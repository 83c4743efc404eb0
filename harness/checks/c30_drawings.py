"""C30: drawings show the objects they are made from."""

import contextlib
import io
import itertools
import math
import os
import runpy
import shutil
import sys
import tempfile

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib.collections import LineCollection  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402

from core import Sub, expect, raises
from checks.common import coefficients, site_lists, to_number
from checks.lattices import build as build_lattice, lattice_strategy
from HamiltonianPy import (
    AoC, IndexTable, Lattice, NumberOperator, ParticleTerm, SiteID,
    SpinInteraction, SpinOperator, StateID)
from HamiltonianPy.lattice import ShowFirstBZ, lattice_generator
from HamiltonianPy.line2d import Line2D
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.tools import Draw2DLattice

PROPERTY = "C30"
RULE = (
    "A case is a lattice with a scope, a pair of translation vectors, a line "
    "or a polygon with a query point, an operator or a term with formatting "
    "options, or a call of the lattice drawing tool with all its options, "
    "including where to save. Non-trivial: more than one marker or curve, a "
    "saved file, or an option that is not the default.")
ASSUMPTIONS = [
    "what is compared are the data of markers and curves and the texts and "
    "their places, not colours, sizes and order, except where they are "
    "arguments",
    "drawings are made with the Agg backend in a scratch folder; in most "
    "cases writing the picture itself is replaced by a stand-in that creates "
    "a small file at the same place",
]


S3 = math.sqrt(3)


class Drawn:
    """What was on a figure when it was shown or saved."""

    def __init__(self, fig):
        self.markers, self.curves, self.texts = [], [], []
        self.titles, self.limits, self.styles = [], [], []
        for ax in fig.axes:
            for line in ax.lines:
                data = np.asarray(line.get_xydata(), dtype=float)
                if line.get_marker() not in ("", " ", "None", None):
                    self.markers += [tuple(p) for p in data]
                    self.styles.append(("marker", to_rgba(line.get_color()),
                                        line.get_markersize()))
                if line.get_linestyle() not in ("", " ", "None", None):
                    self.curves.append(data)
                    self.styles.append(("curve", to_rgba(line.get_color()),
                                        line.get_linewidth(),
                                        line.get_linestyle()))
            for item in ax.collections:
                if isinstance(item, LineCollection):
                    for data in item.get_segments():
                        self.curves.append(np.asarray(data, dtype=float))
                else:
                    self.markers += [tuple(map(float, p)) for p in
                                     np.asarray(item.get_offsets())]
            for item in ax.patches:
                path = item.get_path().transformed(item.get_patch_transform())
                for data in path.to_polygons(closed_only=False):
                    self.curves.append(np.asarray(data, dtype=float))
            for text in ax.texts:
                self.texts.append((text.get_text(), tuple(
                    map(float, text.get_position()))))
            self.titles.append(ax.get_title())
            self.limits.append((ax.get_xlim(), ax.get_ylim()))
        # a gap in the data separates two curves, or shows no marker
        pieces = []
        for c in self.curves:
            gaps = np.nonzero(np.isnan(c).any(axis=1))[0]
            pieces += [p[~np.isnan(p).any(axis=1)]
                       for p in np.split(c, gaps)]
        self.curves = [c for c in pieces if len(c) > 1]
        self.markers = [p for p in self.markers if not np.isnan(p).any()]


@contextlib.contextmanager
def drawing(real=False):
    """Collect what is shown and what is saved; leaves no figure behind."""
    log = {"shown": [], "saved": []}
    old_show, old_save = plt.show, Figure.savefig

    def show(*args, **kwargs):
        log["shown"] += [Drawn(plt.figure(n)) for n in plt.get_fignums()]

    def save(self, fname, *args, **kwargs):
        log["saved"].append((os.path.abspath(os.fspath(fname)), Drawn(self)))
        if real:
            kwargs["dpi"] = 20
            return old_save(self, fname, *args, **kwargs)
        with open(fname, "w") as fp:
            fp.write("stand-in")

    plt.close("all")
    plt.show, Figure.savefig = show, save
    try:
        yield log
    finally:
        plt.show, Figure.savefig = old_show, old_save
        plt.close("all")


@contextlib.contextmanager
def scratch():
    """Run in a new folder inside the run's own scratch folder."""
    here = os.getcwd()
    folder = tempfile.mkdtemp(
        prefix="draw.", dir=os.environ.get("HPY_SCRATCH"))
    folder = os.path.realpath(folder)
    os.chdir(folder)
    try:
        yield folder
    finally:
        os.chdir(here)
        shutil.rmtree(folder, ignore_errors=True)


def files_below(folder):
    return sorted(
        os.path.relpath(os.path.join(base, f), folder)
        for base, _, names in os.walk(folder) for f in names)


def same_points(got, want, what, tol=1e-8):
    """Equal as multisets, up to rounding."""
    got = [tuple(map(float, p)) for p in got]
    want = [tuple(map(float, p)) for p in want]
    expect(len(got) == len(want), "{0}: {1} points instead of {2}", what,
           len(got), len(want))
    scale = max([1.0] + [abs(x) for p in want for x in p])
    key = lambda p: tuple(round(x / scale, 6) + 0.0 for x in p)  # noqa: E731
    if sorted(map(key, got)) == sorted(map(key, want)):
        return
    free = list(want)
    for p in got:
        hit = next((q for q in free if math.dist(p, q) <= tol * scale), None)
        expect(hit is not None, "{0}: {1} should not be there", what, p)
        free.remove(hit)


def the_only(log, what):
    expect(len(log["shown"]) == 1 and not log["saved"],
           "{0}: {1} figures shown, {2} saved", what, len(log["shown"]),
           len(log["saved"]))
    return log["shown"][0]


def on_segment(data, p, q, what, ends=True):
    """A curve that runs straight from p to q (in either direction)."""
    p, q = np.asarray(p, float), np.asarray(q, float)
    d = q - p
    scale = max(1.0, np.abs(p).max(), np.abs(q).max())
    cross = (data - p) @ np.array([-d[1], d[0]])
    expect(np.max(np.abs(cross)) <= 1e-8 * scale * np.linalg.norm(d),
           "{0}: the curve is not straight", what)
    t = (data - p) @ d / (d @ d)
    expect(abs(t.min()) <= 1e-8 * scale and abs(t.max() - 1) <= 1e-8 * scale,
           "{0}: the curve covers {1}..{2}", what, t.min(), t.max())


# -- lattices -----------------------------------------------------------------


@st.composite
def lattice_case(draw):
    return {"lattice": draw(lattice_strategy(3, strength=1)),
            "scope": draw(st.sampled_from([0, 1, 2, None])),
            "name": draw(st.sampled_from(["a", "", "my lattice", "x-1"])),
            "save": draw(st.booleans()),
            "real": draw(st.integers(0, 9)) == 0,
            "again": draw(st.booleans())}


def check_lattice(case, note):
    plain, _, _ = build_lattice(case["lattice"])
    lat = Lattice(plain.points, plain.vectors, name=case["name"])
    kw = {}
    if case["scope"] is not None:
        kw["scope"] = case["scope"]
    if case["save"]:
        kw["savefig"] = True
    scope = case["scope"] or 0
    what = "Lattice({0}, {1}).show({2})".format(
        lat.points.tolist(), lat.vectors.tolist(), kw)
    with scratch() as folder, drawing(case["real"]) as log:
        if lat.space_dim == 3:
            with raises(RuntimeError, what):
                lat.show(**kw)
            note("3d")
            expect(not files_below(folder), "{0}: left files", what)
            return False
        for bad in (-1, 1.5, "1"):
            with raises(AssertionError, "scope {0!r}".format(bad)):
                lat.show(bad)
        for key in log:
            log[key].clear()
        lat.show(**kw)
        if case["again"]:
            lat.show(**kw)
        times = 2 if case["again"] else 1
        if case["save"]:
            expect(not log["shown"], "{0}: shown as well", what)
            want = "{0},scope={1}.png".format(case["name"], scope)
            expect([os.path.relpath(p, folder) for p, _ in log["saved"]]
                   == [want] * times, "{0}: saved to {1}", what,
                   [p for p, _ in log["saved"]])
            expect(files_below(folder) == [want], "{0}: files {1}", what,
                   files_below(folder))
            drawn = log["saved"][-1][1]
            note("saved")
        else:
            expect(log["shown"] and not log["saved"]
                   and not files_below(folder), "{0}: saved files", what)
            drawn = log["shown"][-1]
    want = [p + np.dot(n, lat.vectors) for p in lat.points
            for n in itertools.product(range(-scope, scope + 1),
                                       repeat=lat.trans_dim)]
    if lat.space_dim == 1:
        want = [(p[0], 0.0) for p in want]
    same_points(drawn.markers, want, what)
    (left, right), (bottom, top) = drawn.limits[0]
    expect(all(left <= x <= right and bottom <= y <= top for x, y in want),
           "{0}: points outside the view", what)
    expect(len(drawn.titles) == 1 and case["name"] in drawn.titles[0]
           and str(scope) in drawn.titles[0].replace(case["name"], "", 1),
           "{0}: titled {1!r}", what, drawn.titles)
    note("{0}d".format(lat.space_dim))
    return len(want) > 1


# -- first Brillouin zone -----------------------------------------------------


@st.composite
def zone_case(draw):
    if draw(st.integers(0, 5)) == 0:
        return {"script": draw(st.sampled_from(["path", "module"]))}
    if draw(st.booleans()):
        As = draw(st.sampled_from(["square", "triangle", "honeycomb"]))
    else:
        values = st.sampled_from([1, 0, -1, 2, 0.5, -0.25, 3.2, 1.75])
        As = draw(st.lists(st.lists(values, min_size=2, max_size=2),
                           min_size=2, max_size=2).filter(
            lambda a: abs(a[0][0] * a[1][1] - a[0][1] * a[1][0]) > 0.2))
    return {"As": As, "scale": draw(st.sampled_from([None, 1, 0.5, 2, 3]))}


def check_script(how, note):
    """The script that draws the zone of the triangular lattice."""
    what = "BrillouinZone as a script"
    with scratch() as folder, drawing() as log:
        if how == "path":
            runpy.run_path(os.path.join(os.path.dirname(
                Draw2DLattice.__file__), "BrillouinZone.py"),
                run_name="__main__")
        else:
            runpy.run_module("HamiltonianPy.tools.BrillouinZone",
                             run_name="__main__")
        drawn = the_only(log, what)
        expect(not files_below(folder), "{0}: saved files", what)
    b1 = 2 * math.pi * np.array([1, -1 / S3])
    b2 = 2 * math.pi * np.array([0, 2 / S3])
    dual = {(i, j): i * b1 + j * b2 for i in (-1, 0, 1) for j in (-1, 0, 1)}
    mids = [p / 2 for ij, p in dual.items() if ij not in
            [(0, 0), (1, -1), (-1, 1)]]
    # corners: as far from three reciprocal vectors as from the origin
    corners = [4 * math.pi / 3 * np.array([math.cos(a), math.sin(a)])
               for a in np.arange(6) * math.pi / 3]
    same_points(drawn.markers, list(dual.values()) + [(0, 0)] + mids
                + corners, what)
    ends = []
    for ij, point in dual.items():
        if ij != (0, 0):
            normal = np.array([-point[1], point[0]])
            ends += [point / 2 + normal, point / 2 - normal]
    expect(len(drawn.curves) == 8, "{0}: {1} lines", what, len(drawn.curves))
    same_points([c[k] for c in drawn.curves for k in (0, -1)], ends, what)
    marks = [("\\Gamma", [(0, 0)]), ("{M}", mids), ("{K}", corners)]
    marks += [("({0}, {1})".format(*ij), [p]) for ij, p in dual.items()]
    for mark, points in marks:
        places = [pos for text, pos in drawn.texts if mark in text]
        expect(len(places) == len(points), "{0}: {1} labels {2}", what,
               len(places), mark)
        # every label stands closest to a point of its own
        shift = np.mean(places, axis=0) - np.mean(points, axis=0)
        expect(np.linalg.norm(shift) < 1, "{0}: labels {1} far off", what,
               mark)
        same_points(np.array(places) - shift, points, what + " " + mark,
                    tol=1e-6)
    expect(len(drawn.texts) == 22, "{0}: {1} labels", what, len(drawn.texts))
    note("script")
    return True


def check_zone(case, note):
    if "script" in case:
        return check_script(case["script"], note)
    if isinstance(case["As"], str):
        As = lattice_generator(case["As"]).vectors
    else:
        As = np.array(case["As"], dtype=float)
    kw = {} if case["scale"] is None else {"scale": case["scale"]}
    scale = case["scale"] or 1
    what = "ShowFirstBZ({0}, {1})".format(As.tolist(), kw)
    before = As.copy()
    with scratch() as folder, drawing() as log:
        for bad in ([[1, 0], [0, 1]], np.identity(3), np.array([1.0, 2.0])):
            with raises(AssertionError, "ShowFirstBZ({0!r})".format(bad)):
                ShowFirstBZ(bad)
        log["shown"].clear()
        plt.close("all")
        ShowFirstBZ(As, **kw)
        drawn = the_only(log, what)
        expect(not files_below(folder), "{0}: saved files", what)
    expect(np.array_equal(As, before), "{0}: changed its argument", what)
    (a, b), (c, d) = As
    det = a * d - b * c
    b1 = 2 * math.pi / det * np.array([d, -c])
    b2 = 2 * math.pi / det * np.array([-b, a])
    dual = {(i, j): i * b1 + j * b2 for i in (-1, 0, 1) for j in (-1, 0, 1)}
    same_points(drawn.markers, dual.values(), what)
    expect(len(drawn.texts) == 9, "{0}: {1} labels", what, len(drawn.texts))
    for ij, point in dual.items():
        places = [pos for text, pos in drawn.texts
                  if text.replace(" ", "") == "({0},{1})".format(*ij)]
        expect(len(places) == 1, "{0}: label {1}", what, ij)
        same_points(places, [point], what + " label")
    # the perpendicular bisectors, each at its own reciprocal vector
    want = []
    for ij, point in dual.items():
        if ij != (0, 0):
            normal = np.array([-point[1], point[0]])
            ends = sorted([tuple(point / 2 + scale * normal),
                           tuple(point / 2 - scale * normal)])
            want.append(np.concatenate(ends))
    got = []
    for curve in drawn.curves:
        ends = sorted([tuple(curve[0]), tuple(curve[-1])])
        on_segment(curve, ends[0], ends[1], what)
        got.append(np.concatenate(ends))
    expect(len(got) == 8, "{0}: {1} lines", what, len(got))
    free = list(want)
    norm = max(1.0, max(np.abs(w).max() for w in want))

    def match(g, w):
        # the ends may have sorted differently by rounding
        return min(np.abs(g - w).max(),
                   np.abs(g - np.concatenate([w[2:], w[:2]])).max()
                   ) <= 1e-8 * norm

    for g in got:
        k = next((k for k, w in enumerate(free) if match(g, w)), None)
        expect(k is not None, "{0}: line from {1} to {2} is not a bisector",
               what, g[:2], g[2:])
        free.pop(k)
    note("named" if isinstance(case["As"], str) else "generic")
    return True


# -- lines and polygons ---------------------------------------------------------


COORD = st.sampled_from([0, 1, -1, 2, 0.5, -3, 2.25, 7.1, -0.125])


@st.composite
def shape_case(draw):
    kind = draw(st.sampled_from(["line", "line", "polygon"]))
    point = st.lists(COORD, min_size=2, max_size=2)
    n = 2 if kind == "line" else draw(st.integers(3, 6))
    return {"kind": kind, "query": draw(st.one_of(st.none(), point)),
            "points": draw(st.lists(point, min_size=n, max_size=n,
                                    unique_by=tuple))}


def check_shape(case, note):
    points = case["points"]
    obj = (Line2D(*points) if case["kind"] == "line" else Polygon(points))
    what = "{0} {1}".format(type(obj).__name__, points)
    with scratch() as folder, drawing() as log:
        if case["query"] is not None:
            obj.ShowLocationRelation(case["query"])
            what += ".ShowLocationRelation({0})".format(case["query"])
        elif case["kind"] == "line":
            obj.ShowLine()
            what += ".ShowLine()"
        else:
            obj.ShowPolygon()
            what += ".ShowPolygon()"
        expect(not plt.get_fignums(), "{0}: figures left open", what)
        drawn = the_only(log, what)
        expect(not files_below(folder), "{0}: saved files", what)
    want = [] if case["query"] is None else [case["query"]]
    if case["kind"] == "polygon":
        places = {tuple(p) for p in points + want}
        same_points(set(drawn.markers), places, what)
        expect(len(drawn.curves) >= 1, "{0}: no boundary", what)
        # closed, from any vertex, in either direction, in any pieces
        got = [[tuple(map(float, p)) for p in c] for c in drawn.curves]
        edges = sorted(tuple(sorted([p, q])) for c in got
                       for p, q in zip(c, c[1:]) if p != q)
        ring = [tuple(map(float, p)) for p in points + points[:1]]
        expect(edges == sorted(tuple(sorted([p, q]))
                               for p, q in zip(ring, ring[1:])),
               "{0}: boundary {1}", what, got)
    else:
        p0, p1 = [np.array(p, dtype=float) for p in points]
        same_points(drawn.markers, want or points, what)
        expect(len(drawn.curves) == 1, "{0}: {1} curves", what,
               len(drawn.curves))
        on_segment(drawn.curves[0], 2 * p0 - p1, 2 * p1 - p0, what)
        expect(drawn.titles == [str(obj)], "{0}: titled {1}", what,
               drawn.titles)
        labels = ([("p", case["query"])] if want else
                  [("$p_0$", points[0]), ("$p_1$", points[1])])
        expect(sorted(drawn.texts) == sorted(
            (t, tuple(map(float, p))) for t, p in labels),
            "{0}: texts {1}", what, drawn.texts)
    note(case["kind"])
    return True


# -- operators and terms ------------------------------------------------------------


@st.composite
def formula_case(draw):
    sites = draw(site_lists(1, 3))
    return {"cls": draw(st.sampled_from(
        ["AoC", "NumberOperator", "SpinOperator", "ParticleTerm",
         "SpinInteraction"])), "sites": sites,
        "ops": draw(st.lists(st.tuples(
            st.integers(0, len(sites) - 1), st.integers(0, 4),
            st.integers(0, 2), st.integers(0, 2)).map(list),
            min_size=1, max_size=3)),
        "coeff": draw(coefficients()),
        "table": draw(st.booleans()), "ndigits": draw(st.sampled_from(
            [None, 2, 0, 6])),
        "half": draw(st.sampled_from([None, True, False])),
        "suppress": draw(st.sampled_from([None, True, False]))}


def check_formula(case, note):
    sites = case["sites"]
    cls = case["cls"]

    def one(op):
        i, kind, spin, orbit = op
        if cls in ("SpinOperator", "SpinInteraction"):
            return SpinOperator("xyzpm"[kind], sites[i])
        if cls == "NumberOperator":
            return NumberOperator(sites[i], spin, orbit)
        return AoC(kind % 2, sites[i], spin, orbit)

    kw = {}
    if case["ndigits"] is not None:
        kw["ndigits"] = case["ndigits"]
    if cls not in ("SpinOperator", "SpinInteraction"):
        if case["half"] is not None:
            kw["spin_one_half"] = case["half"]
        if case["suppress"] is not None:
            kw["suppress_orbit"] = case["suppress"]
    table = IndexTable([SiteID(s) for s in sites]) if case["table"] else None
    if cls in ("ParticleTerm", "SpinInteraction"):
        maker = ParticleTerm if cls == "ParticleTerm" else SpinInteraction
        obj = maker([one(op) for op in case["ops"]],
                    coeff=to_number(case["coeff"]))
        if table is not None:
            kw["indices_table"] = table
    else:
        obj = one(case["ops"][0])
        if table is not None:
            kw["site_index"] = table
    want = obj.tolatex(**kw)
    what = "show({0}) of {1!r}".format(sorted(kw), obj)
    with scratch() as folder, drawing() as log:
        obj.show(**kw)
        drawn = the_only(log, what)
        expect(not files_below(folder), "{0}: saved files", what)
    expect([t for t, _ in drawn.texts] == [want], "{0}: shows {1} instead "
           "of {2}", what, drawn.texts, want)
    expect(not drawn.markers and not drawn.curves, "{0}: draws more", what)
    note(cls)
    return bool(kw)


# -- the drawing tool ----------------------------------------------------------


CELLS = {
    "square": ([(0, 0)], [(1, 0), (0, 1)], 1.0),
    "triangle": ([(0, 0)], [(1, 0), (0.5, S3 / 2)], 1.0),
    "honeycomb": ([(0, 0), (0, 1 / S3)], [(1, 0), (0.5, S3 / 2)], 1 / S3),
    "kagome": ([(0, 0), (0.25, S3 / 4), (0.5, 0)], [(1, 0), (0.5, S3 / 2)],
               0.5),
}


@st.composite
def tool_case(draw):
    full = draw(st.sampled_from(sorted(CELLS)))
    opt = st.one_of
    return {"which": draw(st.sampled_from([full, full[0]])),
            "num0": draw(st.sampled_from([1, 2, 0, 3, None])),
            "num1": draw(st.sampled_from([1, 2, 0, 3])),
            "mc": draw(opt(st.none(), st.sampled_from(["red", "#102030"]))),
            "ms": draw(opt(st.none(), st.sampled_from([3, 9.5]))),
            "lc": draw(opt(st.none(), st.sampled_from(["blue", "k"]))),
            "lw": draw(opt(st.none(), st.sampled_from([1, 3.5]))),
            "ls": draw(opt(st.none(), st.sampled_from(["--", ":"]))),
            "link": draw(st.sampled_from([True, None, False])),
            "trim": draw(st.sampled_from([None, True, False])),
            "save": draw(st.sampled_from([None, True, False])),
            "path": draw(st.sampled_from([None, "", "out", "a/b", "."])),
            "exists": draw(st.booleans()),
            "name": draw(st.sampled_from([
                None, None, "fig.png", "x.pdf", "plain", "v1.2", "a.b.svg",
                "\u03c0 0.pdf", ".pdf"])),
            "real": draw(st.integers(0, 19)) == 0,
            "cli": draw(st.sampled_from([False, False, True])),
            "short": draw(st.booleans())}


def run_script(args, kw, short):
    """The same call from the command line."""
    argv = [Draw2DLattice.__file__, args[0]]
    if len(args) > 1:
        argv += ["--scope"] + [str(n) for n in args[1:]]
    for key in ("mc", "ms", "lc", "lw", "ls", "path", "name"):
        if key in kw:
            argv.append("--{0}={1}".format(key, kw[key]))
    if kw.get("link"):
        argv.append("-l" if short else "--link")
    if kw.get("trim"):
        argv.append("--trim")
    if not kw.get("save", True):
        argv.insert(1 if short else len(argv), "--nosave")
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(argv[0], run_name="__main__")
    finally:
        sys.argv = old


def call_tool(args, kw, case):
    if case.get("cli"):
        run_script(args, kw, case["short"])
    else:
        Draw2DLattice.show(*args, **kw)


def check_tool(case, note):
    which = case["which"]
    full = next(k for k in CELLS if k[0] == which[0])
    kw = {k: case[k] for k in (
        "mc", "ms", "lc", "lw", "ls", "link", "trim", "save", "path", "name")
        if case[k] is not None}
    num0, num1 = case["num0"], case["num1"]
    args = [which]
    if num0 is not None:
        args += [num0, num1]
    else:
        num0 = num1 = 8
        if kw.get("link"):
            kw["link"] = False
    # matplotlib itself completes or rejects names without a known suffix
    real = case["real"] and kw.get("name") not in ("plain", "v1.2", ".pdf")
    what = "Draw2DLattice.show({0}, {1})".format(args, kw)
    link = kw.get("link", False)
    points, vectors, bond = CELLS[full]
    want = [(x + i * vectors[0][0] + j * vectors[1][0],
             y + i * vectors[0][1] + j * vectors[1][1])
            for i in range(-num0, num0 + 1) for j in range(-num1, num1 + 1)
            for x, y in points]
    if link and len(want) < 2:
        return False
    with scratch() as folder, drawing(real) as log:
        if case["exists"] and kw.get("path"):
            os.makedirs(kw["path"], exist_ok=True)
        if case.get("cli"):
            what += " from the command line"
            note("command line")
            with raises(SystemExit, "unknown lattice"):
                run_script(["cube"], {"save": False}, case["short"])
        else:
            with raises(KeyError, "unknown lattice"):
                Draw2DLattice.show("cube", save=False)
        for key in log:
            log[key].clear()
        plt.close("all")
        call_tool(args, kw, case)
        expect(not plt.get_fignums(), "{0}: figures left open", what)
        expect(len(log["shown"]) == 1, "{0}: {1} figures shown", what,
               len(log["shown"]))
        drawn = log["shown"][0]
        if kw.get("save", True):
            target = os.path.normpath(os.path.join(
                kw.get("path", ""), kw.get("name", full + ".pdf")))
            expect(files_below(folder) == [target], "{0}: files {1} instead "
                   "of {2}", what, files_below(folder), target)
            expect(len(log["saved"]) == 1, "{0}: saved {1} times", what,
                   len(log["saved"]))
            same_points(log["saved"][0][1].markers, want, what + " (saved)")
            note("saved")
        else:
            expect(not files_below(folder) and not log["saved"],
                   "{0}: saved although not asked to", what)
    same_points(drawn.markers, want, what)
    expect(len(drawn.styles) >= 1, "{0}: nothing drawn", what)
    for style in drawn.styles:
        if style[0] == "marker":
            expect(style[1:] == (to_rgba(kw.get("mc", "black")), kw.get("ms", 6)),
                   "{0}: sites drawn as {1}", what, style)
        else:
            expect(style[1:] == (to_rgba(kw.get("lc", "gray")), kw.get("lw", 2),
                                 {"solid": "-"}.get(kw.get("ls", "solid"),
                                                    kw.get("ls"))),
                   "{0}: bonds drawn as {1}", what, style)
    if link:
        pairs = [(p, q) for p, q in itertools.combinations(want, 2)
                 if abs(math.dist(p, q) - bond) < 1e-3]
        if not pairs and len(want) > 1:
            # no bond of the lattice fits: the nearest points are linked
            shortest = min(math.dist(p, q) for p, q in
                           itertools.combinations(want, 2))
            pairs = [(p, q) for p, q in itertools.combinations(want, 2)
                     if abs(math.dist(p, q) - shortest) < 1e-3]
        centre = [((p[0] + q[0]) / 2, (p[1] + q[1]) / 2) for p, q in pairs]
        expect(all(len(c) == 2 for c in drawn.curves), "{0}: bonds of more "
               "than two points", what)
        same_points([c.mean(axis=0) for c in drawn.curves], centre,
                    what + " bonds")
        same_points([p for c in drawn.curves for p in c],
                    [p for pair in pairs for p in pair], what + " bond ends")
        note("linked")
    else:
        expect(not drawn.curves, "{0}: bonds although not asked for", what)
    (left, right), (bottom, top) = drawn.limits[0]
    inside = sum(left <= x <= right and bottom <= y <= top for x, y in want)
    if kw.get("trim"):
        # the view of the same drawing without trimming is larger
        with scratch(), drawing() as log:
            call_tool(args, dict(kw, trim=False, save=False), case)
            wide = log["shown"][0].limits[0]
        expect(right - left < wide[0][1] - wide[0][0]
               and top - bottom < wide[1][1] - wide[1][0],
               "{0}: not trimmed", what)
        note("trimmed")
    else:
        expect(inside == len(want), "{0}: sites outside the view", what)
    return len(want) > 1


SUBS = [
    Sub("lattice", lattice_case, check_lattice, 300, 6000, shards=3),
    Sub("zone", zone_case, check_zone, 120, 2500, shards=2),
    Sub("shape", shape_case, check_shape, 240, 5000, shards=2),
    Sub("formula", formula_case, check_formula, 400, 8000, shards=3),
    Sub("tool", tool_case, check_tool, 240, 5000, shards=4),
]
