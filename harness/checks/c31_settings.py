"""C31: module settings and default arguments."""

import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import issparse

from core import Sub, expect, raises
from checks.common import coefficients, to_number
from HamiltonianPy import (
    AoC, IndexTable, KPath, Lattice, NumberOperator, ParticleTerm, SiteID,
    SpinInteraction, SpinOperator, StateID, bond, lanczos, lattice, rotation3d)
from HamiltonianPy.hilbertspace import (
    HilbertSpace, SimpleHilbertSpace, base_vectors)
from HamiltonianPy.lanczos import KrylovRepresentation, MultiKrylov
from HamiltonianPy import GreenFunction as gf
from HamiltonianPy.lattice import lattice_generator
from HamiltonianPy.line2d import Line2D
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.quantumoperator import matrixrepr, quantumstate
from HamiltonianPy.quantumoperator import factory
from HamiltonianPy.tools import PandC, colorprint, runtimeenv

PROPERTY = "C31"
SCALE = 5
RULE = (
    "Settings: a history of changes of the five settings (a value, the "
    "default, something invalid), each followed by probes of what all five "
    "modules then treat as equal or as zero. Defaults: a function, valid "
    "arguments for it, and the subset of the defaulted arguments that is "
    "spelled out with the documented default. Non-trivial: a history that "
    "changes two settings or changes one twice; a non-empty subset.")
ASSUMPTIONS = [
    "probes stay away from the edge: numbers are 0.2, 0.4 or 1.2 units apart "
    "from a multiple of the precision, or half and twice the threshold",
    "objects whose identity depends on a precision are made after setting it, "
    "as documented",
]

SETTERS = {
    "site": (quantumstate.set_float_point_precision, "precision", 4),
    "bond": (bond.set_float_point_precision, "precision", 4),
    "lattice": (lattice.set_float_point_precision, "precision", 4),
    "rotation": (rotation3d.set_threshold, "threshold", 1e-10),
    "lanczos": (lanczos.set_threshold, "threshold", 1e-4),
}


@contextlib.contextmanager
def default_settings():
    """Whatever a case sets is undone afterwards."""
    try:
        yield
    finally:
        for setter, key, default in SETTERS.values():
            setter(**{key: default})


@st.composite
def settings_case(draw):
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        which = draw(st.sampled_from(sorted(SETTERS)))
        how = draw(st.sampled_from(["value", "value", "keyword", "default",
                                    "invalid"]))
        if SETTERS[which][1] == "precision":
            value = draw(st.integers(0, 8))
            bad = draw(st.sampled_from([-1, 1.0, "4", None, 2.5]))
        else:
            value = draw(st.sampled_from(
                [1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-3, 1e-2, 0.1]))
            bad = draw(st.sampled_from([-1e-3, 1, "1e-4", None, -1.0]))
        steps.append([which, how, bad if how == "invalid" else value])
    return {"steps": steps, "k": draw(st.integers(1, 400)),
            "negative": draw(st.booleans()), "dim": draw(st.integers(1, 3)),
            "axis": draw(st.integers(0, 2)),
            "theta": draw(st.sampled_from([0.3, 1.0, 2.5, -0.7]))}


def probe_site(p, case, what):
    unit = 10.0 ** -p
    sign = -1 if case["negative"] else 1
    dim = case["dim"]
    axis = case["axis"] % dim

    def site(f):
        res = [sign * 3 * unit * (i + 1.1) for i in range(dim)]
        res[axis] = sign * (case["k"] + f) * unit
        return res

    a, b, c = site(0.2), site(0.4), site(1.2)
    for make in (SiteID, StateID, lambda s: AoC(1, s), NumberOperator,
                 lambda s: SpinOperator("x", s)):
        one = make(a)
        expect(one == make(b) and hash(one) == hash(make(b))
               and not one != make(b),
               "{0}: {1} and {2} differ with precision {3}", what, a, b, p)
        expect(one != make(c) and not one == make(c),
               "{0}: {1} and {2} are equal with precision {3}", what, a, c, p)
        expect((one < make(c)) == (sign > 0) and (one > make(c)) == (sign < 0),
               "{0}: order of {1} and {2} with precision {3}", what, a, c, p)
    table = IndexTable([SiteID(a), SiteID(c)])
    expect(table(SiteID(b)) == table(SiteID(a)), "{0}: table", what)


def probe_bond(p, case, what):
    unit = 10.0 ** -p
    sign = -1 if case["negative"] else 1
    dim = case["dim"]
    axis = case["axis"] % dim
    far = [sign * (case["k"] + 50 + 7 * i) * 2 * unit + sign * 0.3 * unit
           for i in range(dim)]

    def make(f, swap, directional):
        p0 = [sign * 0.3 * unit] * dim
        p0[axis] = sign * (case["k"] + f) * unit
        p0, p1 = (far, p0) if swap else (p0, far)
        return bond.Bond(p0, p1, directional=directional)

    for swap in (False, True):
        for directional in (True, False):
            a, b, c = (make(f, swap, directional) for f in (0.2, 0.4, 1.2))
            expect(a == b and hash(a) == hash(b),
                   "{0}: {1!r} and {2!r} differ with precision {3}", what, a,
                   b, p)
            expect(a != c and not a == c,
                   "{0}: {1!r} and {2!r} are equal with precision {3}", what,
                   a, c, p)
    expect(make(0.2, False, False) == make(0.4, True, False),
           "{0}: direction matters", what)


def probe_lattice(p, case, what):
    unit = 10.0 ** -p
    k = 100 + case["k"]
    length = 2000.0 * unit
    xs = [0.0, k * unit + 0.3 * unit]

    def make(xs):
        return Lattice(np.array([[x] for x in xs]), np.array([[length]]))

    with raises(ValueError, what + ": points half a unit apart, precision "
                + str(p)):
        make(xs + [xs[1] + 0.5 * unit])
    far = make(xs + [xs[1] + 2 * unit])
    expect(far.point_num == 3, "{0}: points two units apart", what)
    lat = make(xs)
    for shift in (0, 1, -2):
        for i, x in enumerate(xs):
            for f in (0.0, 0.5, -0.5):
                site = np.array([x + f * unit + shift * length])
                got = lat.getIndex(site, fold=True)
                expect(got == i, "{0}: getIndex({1}, fold=True) is {2} with "
                       "precision {3}", what, site, got, p)
    for i, x in enumerate(xs):
        for f in (0.5, -0.5):
            site = np.array([x + f * unit])
            expect(lat.getIndex(site) == i, "{0}: getIndex({1})", what, site)
        for f in (2, -2):
            site = np.array([x + f * unit])
            with raises(KeyError, "{0}: getIndex({1}) with precision {2}"
                        .format(what, site, p)):
                lat.getIndex(site)
            with raises((KeyError, RuntimeError),
                        "{0}: getIndex({1}, fold=True) with precision {2}"
                        .format(what, site, p)):
                lat.getIndex(site, fold=True)
    want = sorted([xs[1], length - xs[1], length])
    got = [lat.neighbor_distance(0)]
    expect(abs(got[0]) < 1e-12, "{0}: distance 0 is {1}", what, got)
    got = [lat.neighbor_distance(n) for n in (1, 2)]
    for d, w in zip(got, want):
        expect(abs(d - w) <= 0.51 * unit and
               abs(d / unit - round(d / unit)) <= 1e-3,
               "{0}: distance {1} is {2} with precision {3}", what, w, d, p)


def probe_rotation(t, case, what):
    axis = np.zeros(3)
    axis[case["axis"]] = 0.5 * t
    general = rotation3d.RotationGeneral
    with raises(ValueError, "{0}: axis {1} with threshold {2}".format(
            what, axis, t)):
        general(axis, case["theta"])
    direction = np.array([1.0, -2.0, 3.0]) / np.sqrt(14)
    if case["axis"] == 1:
        direction = np.array([2.0 * t, -2.0 * t, 1.0])
        direction /= np.linalg.norm(direction)
        axis = direction
    else:
        axis = 4 * t * direction
    R = general(axis, case["theta"])
    expect(np.max(np.abs(R @ direction - direction)) < 1e-9,
           "{0}: axis {1} is not invariant with threshold {2}", what, axis, t)
    expect(abs(np.trace(R) - 1 - 2 * np.cos(case["theta"])) < 1e-9
           and np.max(np.abs(R @ R.T - np.eye(3))) < 1e-9,
           "{0}: rotation about {1} with threshold {2}", what, axis, t)


def probe_lanczos(t, case, what):
    e0 = np.array([1.0, 0.0, 0.0])
    M = np.diag([0.0, 1.0, -1.0])
    with raises(ValueError, "{0}: starting vector of half the threshold {1}"
                .format(what, t)):
        KrylovRepresentation(M, {}, 0.5 * t * e0)
    for factor, dim in ((0.5, 1), (2, 2)):
        M[0, 1] = M[1, 0] = factor * t
        T, vectors = KrylovRepresentation(M, {"a": e0}, 3 * t * e0)
        expect(T.shape == (dim, dim) and vectors["a"].shape == (dim,),
               "{0}: coupling of {1} times the threshold {2}: shape {3}", what,
               factor, t, T.shape)
        expect(abs(vectors["a"][0] - 1) < 1e-12, "{0}: overlap", what)
        Ts, _ = MultiKrylov(M, {"a": e0})
        expect(Ts["a"].shape == (dim, dim), "{0}: MultiKrylov {1}", what,
               Ts["a"].shape)


PROBES = {"site": probe_site, "bond": probe_bond, "lattice": probe_lattice,
          "rotation": probe_rotation, "lanczos": probe_lanczos}


def check_settings(case, note):
    model = {which: item[2] for which, item in SETTERS.items()}
    changed = []
    done = []
    with default_settings():
        for which, how, value in case["steps"]:
            setter, key, default = SETTERS[which]
            done.append("{0}({1})".format(
                which, "" if how == "default" else repr(value)))
            what = "after " + ", ".join(done)
            if how == "invalid":
                with raises(AssertionError, what):
                    setter(value)
            elif how == "default":
                setter()
                model[which] = default
            elif how == "keyword":
                setter(**{key: value})
                model[which] = value
            else:
                setter(value)
                model[which] = value
            changed.append(which)
            for name, probe in PROBES.items():
                probe(model[name], case, what)
        for which, how, _ in case["steps"]:
            note(which + " " + how)
    return len(changed) > 1


# -- default arguments ---------------------------------------------------------


def plain(x):
    """Results as nested plain data that can be compared with ==."""
    if issparse(x) and x.shape[0] * x.shape[1] > 10 ** 5:
        m = x.tocoo(copy=True)
        m.sum_duplicates()
        m = m.tocsr()
        m.eliminate_zeros()
        m.sort_indices()
        m = m.tocoo()
        return ("sparse", x.format, x.shape, plain(m.row), plain(m.col),
                plain(m.data))
    if issparse(x):
        m = x.toarray()
        return ("sparse", x.format, plain(m))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, [plain(v) for v in x.ravel().tolist()])
    if isinstance(x, Lattice):
        return ("lattice", x.name, plain(x.points), plain(x.vectors))
    if isinstance(x, (ParticleTerm, SpinInteraction)):
        return (type(x).__name__, x.coeff, [repr(o) for o in x.components],
                str(x), getattr(x, "classification", None))
    if isinstance(x, dict):
        return ("dict", sorted((repr(k), plain(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(v) for v in x])
    if isinstance(x, (bool, int, float, complex, str, type(None))):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "__next__"):
        return ("iterator", [plain(v) for v in x])
    return (type(x).__name__, repr(x))


S0, S1 = [0.5, -1.25], [2, 0.75]
HERMITIAN = {
    "creation": factory.Creator, "annihilation": factory.Annihilator}


def green_data(c):
    rng = np.random.default_rng(c["seed"])
    n = 5
    M = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    M = M + M.conj().T
    A, B = AoC(0, [0]), AoC(0, [1])
    ops = [A, B, A.dagger(), B.dagger()]
    kets = {op: rng.normal(size=n) + 1j * rng.normal(size=n) for op in ops}
    return A, B, M, kets


def exact(function, many):
    def call(c, **kw):
        A, B, M, kets = green_data(c)
        omegas = np.array([0.3, -0.2, 1.1])
        if many:
            return function(omegas, [A, B], [A, B], -1.5, M, kets, **kw)
        return function(0.3, A, B, -1.5, M, kets, **kw)
    return call


def krylov(function, many):
    def call(c, **kw):
        A, B, M, kets = green_data(c)
        Ms, vectors = MultiKrylov(M, kets)
        omegas = np.array([0.3, -0.2, 1.1])
        if many:
            return function(omegas, [A, B], [A, B], -1.5, Ms, vectors, **kw)
        return function(0.3, A, B, -1.5, Ms, vectors, **kw)
    return call


def lattice_of(c):
    return lattice_generator(["square", "honeycomb", "triangle", "kagome"][
        c["seed"] % 4], num0=2, num1=1)


def krylov_case(function):
    def call(c, **kw):
        n = 230
        M = np.diag(np.full(n - 1, 0.5), 1)
        M = M + M.T + np.diag(np.linspace(-1, 1, n) * (1 + c["seed"] % 3))
        vectors = {"a": np.ones(n), "b": np.eye(n)[0]}
        if function is KrylovRepresentation:
            return function(M, vectors, np.eye(n)[0], **kw)
        return function(M, {"b": vectors["b"]}, **kw)
    return call


def state(c):
    return (S0, c["seed"] % 3, c["num"] % 3)


def term_matrix(c, **kw):
    bases = base_vectors([6, 3])
    return matrixrepr.matrix_function(
        [(c["seed"] % 6, 1), (c["num"] % 6, 0)], bases, **kw)


def run_environment(c, **kw):
    """What happens to the file written inside the environment."""
    here = os.getcwd()
    folder = os.path.realpath(tempfile.mkdtemp(
        prefix="env.", dir=os.environ.get("HPY_SCRATCH")))
    os.chdir(folder)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            with runtimeenv.RunTimeEnv(**kw):
                print("something")
        return sorted(os.listdir(folder)), os.getcwd() == folder
    finally:
        os.chdir(here)
        shutil.rmtree(folder, ignore_errors=True)


def printed(function):
    def call(c, **kw):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            function("a", c["seed"], fg="red", **kw)
        return out.getvalue()
    return call


def cells(c):
    return ["square", "cubic", "chain" if False else "triangle",
            "honeycomb", "kagome"][c["seed"] % 5]


def kpath(c, **kw):
    points = [[0.0, 0.0], [c["num"] % 3 + 1.0, 0.0], [0.5, 2.0]]
    return KPath([np.array(p) for p in points], **kw)


SPIN = dict(spin=0, orbit=0)
PAIR = dict(spin0=0, spin1=0, orbit0=0, orbit1=0, coeff=1.0)
RATIOS = np.linspace(0, 1, 101)
TABLE = {
    "Bond": (lambda c, **kw: bond.Bond(S0, S1, **kw), {"directional": True}),
    "Bond.getLength": (lambda c, **kw: bond.Bond(S0, S1).getLength(**kw),
                       {"ndigits": None}),
    "Bond.getDisplace": (lambda c, **kw: bond.Bond(S0, S1).getDisplace(**kw),
                         {"ndigits": None}),
    "Bond.getAzimuth": (lambda c, **kw: bond.Bond(S0, S1).getAzimuth(**kw),
                        {"radian": False, "ndigits": None}),
    "SimpleHilbertSpace": (
        lambda c, **kw: SimpleHilbertSpace(list(range(c["num"] + 1)), **kw)
        .base_vectors(), {"number": -1}),
    "SimpleHilbertSpace.base_vectors": (
        lambda c, **kw: SimpleHilbertSpace([5, 3, 0, 7], 2).base_vectors(**kw),
        {"container": "array", "sort": True}),
    "HilbertSpace.base_vectors": (
        lambda c, **kw: HilbertSpace([[5, 3, 0], 2], [[1, 2], 1])
        .base_vectors(**kw), {"container": "array", "sort": True}),
    "base_vectors": (
        lambda c, **kw: base_vectors([[5, 3, 0], 2], [[1, 2], 1], **kw),
        {"container": "array", "sort": True}),
    "IndexTable": (
        lambda c, **kw: list(IndexTable("badc"[:c["num"] + 1], **kw)),
        {"start": 0}),
    "KrylovRepresentation": (krylov_case(KrylovRepresentation),
                             {"krylov_space_dim": 200}),
    "MultiKrylov": (krylov_case(MultiKrylov), {"krylov_space_dim": 200}),
    "Line2D.PointsFactory": (
        lambda c, **kw: Line2D(S0, S1).PointsFactory(**kw),
        {"ratios": [None, RATIOS]}),
    "Line2D": (
        lambda c, **kw: Line2D([1, 1], [1 + [5e-11, 2e-10][c["num"] % 2], 1],
                               **kw), {"tol": 1e-10}),
    "Line2D.LocationRelation": (
        lambda c, **kw: Line2D([0, 0], [1, 0]).LocationRelation(
            [0.5, [5e-11, 2e-10][c["num"] % 2]], **kw), {"tol": 1e-10}),
    "Line2D.Coordinate": (
        lambda c, **kw: Line2D(S0, S1).Coordinate(c["num"] / 2, **kw),
        {"which": "x"}),
    "Polygon": (
        lambda c, **kw: repr(Polygon([[0, 0], [1, 0], [1, 1 + [
            5e-11, 2e-10][c["num"] % 2]], [1, 1]], **kw).vertices.tolist()),
        {"tol": 1e-10}),
    "Polygon.LocationRelation": (
        lambda c, **kw: Polygon([[0, 0], [1, 0], [0, 1]]).LocationRelation(
            [0.5, [5e-11, 2e-10][c["num"] % 2]], [0.2, 0.2], **kw),
        {"tol": 1e-10}),
    "RotationX": (lambda c, **kw: rotation3d.RotationX(c["num"], **kw),
                  {"deg": False, "inversion": False}),
    "RotationY": (lambda c, **kw: rotation3d.RotationY(c["num"], **kw),
                  {"deg": False, "inversion": False}),
    "RotationZ": (lambda c, **kw: rotation3d.RotationZ(c["num"], **kw),
                  {"deg": False, "inversion": False}),
    "RotationGeneral": (
        lambda c, **kw: rotation3d.RotationGeneral(
            [(1, 2, 3), (1, 0.5)][c["num"] % 2], 1.5, **kw),
        {"deg": False, "inversion": False}),
    "RotationEuler": (
        lambda c, **kw: rotation3d.RotationEuler(1.5, c["num"], -0.5, **kw),
        {"deg": False, "inversion": False}),
    "Lattice": (
        lambda c, **kw: Lattice(np.array([S0, S1]), np.array(
            [[5.0, 0], [0, 7.0]]), **kw), {"name": ""}),
    "Lattice.getIndex": (
        lambda c, **kw: lattice_of(c).getIndex(lattice_of(c).points[1], **kw),
        {"fold": False}),
    "Lattice.bonds": (
        lambda c, **kw: lattice_of(c).bonds(1 + c["num"] % 2, **kw),
        {"only": True, "fold": False}),
    "KPath": (kpath, {"min_num": 100, "loop": True, "return_indices": True}),
    "lattice_generator": (
        lambda c, **kw: lattice_generator(cells(c), **kw),
        {"num0": 1, "num1": 1, "num2": 1}),
    "StateID": (lambda c, **kw: StateID(S0, **kw), SPIN),
    "AoC": (lambda c, **kw: AoC(c["num"] % 2, S0, **kw), SPIN),
    "NumberOperator": (lambda c, **kw: NumberOperator(S0, **kw), SPIN),
    "SiteID.tolatex": (
        lambda c, **kw: SiteID([1 / 3, 2 / 7]).tolatex(**kw),
        {"site_index": None, "ndigits": 4}),
    "StateID.tolatex": (
        lambda c, **kw: StateID([1 / 3, 2 / 7], c["num"] % 2, 2).tolatex(**kw),
        {"site_index": None, "ndigits": 4, "spin_one_half": True,
         "suppress_orbit": True}),
    "AoC.tolatex": (
        lambda c, **kw: AoC(0, [1 / 3, 2 / 7], c["num"] % 2, 2).tolatex(**kw),
        {"site_index": None, "ndigits": 4, "spin_one_half": True,
         "suppress_orbit": True}),
    "SpinOperator.tolatex": (
        lambda c, **kw: SpinOperator("x", [1 / 3, 2 / 7]).tolatex(**kw),
        {"site_index": None, "ndigits": 4}),
    "ParticleTerm": (
        lambda c, **kw: ParticleTerm([AoC(1, S0, 1), AoC(0, S1, 1)], **kw),
        {"coeff": 1.0, "classification": "general"}),
    "SpinInteraction": (
        lambda c, **kw: SpinInteraction(
            [SpinOperator("x", S0), SpinOperator("z", S1)], **kw),
        {"coeff": 1.0}),
    "ParticleTerm.tolatex": (
        lambda c, **kw: ParticleTerm([AoC(1, S0, 1, 1)], 0.5).tolatex(**kw),
        {"indices_table": None, "ndigits": 4, "spin_one_half": True,
         "suppress_orbit": True}),
    "SpinInteraction.tolatex": (
        lambda c, **kw: SpinInteraction([SpinOperator("x", S0)], 0.5)
        .tolatex(**kw), {"indices_table": None, "ndigits": 4}),
    "SpinInteraction.matrix_function": (
        lambda c, **kw: SpinInteraction.matrix_function(
            [(0, "x"), (c["num"] % 2, "y")], 3, **kw), {"coeff": 1.0}),
    "matrix_function": (term_matrix, {
        "left_bases": [None, base_vectors([6, 3])], "coeff": 1.0,
        "to_csr": True, "special_tag": "general"}),
    "Creator": (lambda c, **kw: factory.Creator(S0, **kw), SPIN),
    "Annihilator": (lambda c, **kw: factory.Annihilator(S0, **kw), SPIN),
    "CPFactory": (lambda c, **kw: factory.CPFactory(S0, **kw),
                  dict(SPIN, coeff=1.0)),
    "HoppingFactory": (
        lambda c, **kw: factory.HoppingFactory(S0, S1, **kw),
        dict(spin0=0, spin1=[None, 0], orbit0=0, orbit1=[None, 0],
             coeff=1.0)),
    "HoppingFactory one": (
        lambda c, **kw: factory.HoppingFactory(
            S0, S1, spin0=c["num"] % 3, orbit0=c["seed"] % 3, **kw),
        {"spin1": [None, "num"], "orbit1": [None, "seed"], "coeff": 1.0}),
    "PairingFactory": (
        lambda c, **kw: factory.PairingFactory(S0, S1, **kw),
        dict(PAIR, which="h")),
    "HubbardFactory": (lambda c, **kw: factory.HubbardFactory(S0, **kw),
                       {"orbit": 0, "coeff": 1.0}),
    "CoulombFactory": (
        lambda c, **kw: factory.CoulombFactory(S0, S1, **kw), PAIR),
    "HeisenbergFactory": (
        lambda c, **kw: factory.HeisenbergFactory(S0, S1, **kw),
        {"coeff": 1.0}),
    "IsingFactory": (
        lambda c, **kw: factory.IsingFactory(S0, S1, "xyz"[c["num"] % 3],
                                             **kw), {"coeff": 1.0}),
    "TwoSpinTermFactory": (
        lambda c, **kw: factory.TwoSpinTermFactory(S0, S1, "x", "z", **kw),
        {"coeff": 1.0}),
    "Permutation": (lambda c, **kw: PandC.Permutation(7, c["num"], **kw),
                    {"repeat": False}),
    "Combination": (lambda c, **kw: PandC.Combination(7, c["num"], **kw),
                    {"repeat": False}),
    "coloring": (
        lambda c, **kw: colorprint.coloring("a", **kw),
        {"fg": None, "bg": None, "bold": False, "color_scheme": 8}),
    "coloring fg": (
        lambda c, **kw: colorprint.coloring("a", fg=c["seed"] % 30, **kw),
        {"bg": None, "bold": False, "color_scheme": 8}),
    "color_print": (printed(colorprint.color_print), {
        "sep": " ", "end": "\n", "file": None, "flush": False, "bg": None,
        "bold": False, "color_scheme": 8}),
    "RunTimeEnv": (run_environment, {
        "rd": False, "path": ".", "threads_num": None}),
}
for prefix in ("", "R"):
    for method, wrap in (("Exact", exact), ("Lanczos", krylov)):
        for form in ("Single", "Multiple"):
            name = "{0}GFSolver{1}{2}".format(prefix, method, form)
            defaults = {"eta": 0.01, "sign": "+"}
            if form == "Multiple":
                defaults["structure"] = "array"
            TABLE[name] = (wrap(getattr(gf, name), form == "Multiple"),
                           defaults)


@st.composite
def defaults_case(draw):
    name = draw(st.sampled_from(sorted(TABLE)))
    keys = sorted(TABLE[name][1])
    given = draw(st.lists(st.sampled_from(keys), unique=True, min_size=1))
    return {"name": name, "given": sorted(given),
            "pick": draw(st.integers(0, 1)), "seed": draw(st.integers(0, 60)),
            "num": draw(st.integers(0, 5))}


def outcome(function, case, kw):
    try:
        return plain(function(case, **kw))
    except (ValueError, AssertionError, KeyError) as exc:
        return ("refused", type(exc).__name__)


def same(a, b):
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (int, float, complex)) and \
            isinstance(b, (int, float, complex)):
        return a == b or abs(a - b) <= 1e-12 * max(1, abs(a))
    return a == b


def check_defaults(case, note):
    function, defaults = TABLE[case["name"]]
    kw = {}
    for key in case["given"]:
        value = defaults[key]
        if isinstance(value, list):
            value = value[case["pick"]]
        if value in ("num", "seed") if isinstance(value, str) else False:
            value = case[value] % 3
        kw[key] = value
    short = outcome(function, case, {})
    full = outcome(function, case, kw)
    expect(same(short, full), "{0}: leaving out {1} gives {2} instead of {3}",
           case["name"], kw, str(short)[:400], str(full)[:400])
    note(case["name"])
    if isinstance(short, tuple) and short[0] == "refused":
        note("refused " + case["name"])
    return True


SUBS = [
    Sub("settings", settings_case, check_settings, 300, 6000, shards=3),
    Sub("defaults", defaults_case, check_defaults, 900, 12000, shards=4),
]
