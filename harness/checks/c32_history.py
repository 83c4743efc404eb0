"""C32: answers do not depend on what was asked before."""

import os
import pickle
import signal
import sys

import numpy as np
from hypothesis import strategies as st
from scipy import sparse
from scipy.sparse import issparse

from core import Sub, Violation, canonical, expect
from checks import c31_settings as defaults
from checks.c31_settings import plain, same
from HamiltonianPy import (
    AoC, CPFactory, CoulombFactory, HeisenbergFactory, HoppingFactory,
    HubbardFactory, IndexTable, IsingFactory, KPath, Lattice, NumberOperator,
    PairingFactory, ParticleTerm, SiteID, SpinInteraction, SpinOperator,
    StateID, averages, lattice_generator, rotation3d, special_cluster)
from HamiltonianPy import GreenFunction as gf
from HamiltonianPy.bond import Bond
from HamiltonianPy.hilbertspace import (
    HilbertSpace, SimpleHilbertSpace, base_vectors)
from HamiltonianPy.lanczos import KrylovRepresentation, MultiKrylov
from HamiltonianPy.line2d import Line2D
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.tools import PandC, TotalSpin, colorprint

PROPERTY = "C32"
SCALE = 1.5
RULE = (
    "A case is a sequence of 2-15 requests to objects and functions of the "
    "whole library, drawn from small families so that neighbouring requests "
    "share objects, equal keys, buffers changed in place, lengths or "
    "arguments. The sequence runs in one process and backwards in another; a "
    "request that is answered differently, and one picked at random, is also "
    "put alone to a process in which nothing has been asked. Non-trivial: at least "
    "two different requests of one family.")
ASSUMPTIONS = [
    "settings, the coefficient argument of matrix_repr, drawings and run-time "
    "environments have effects by design and are left to C31, C02/C06, C30 "
    "and C27; a coefficient that matters is set before every request",
]

# -- processes --------------------------------------------------------------------


def in_child(function, *args):
    """The result of a call in a forked copy of this process."""
    back, out = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(50)
            os.close(back)
            try:
                res = ("ok", function(*args))
            except BaseException as exc:        # reported by the parent
                res = ("failed", "{0}: {1}".format(type(exc).__name__, exc))
            with os.fdopen(out, "wb") as fp:
                pickle.dump(res, fp)
        finally:
            os._exit(0)
    os.close(out)
    try:
        with os.fdopen(back, "rb") as fp:
            data = fp.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise Violation("the process that was asked {0} died".format(args))
    kind, value = pickle.loads(data)
    if kind != "ok":
        raise Violation("asked {0}: {1}".format(args, value))
    return value


# -- what can be shared --------------------------------------------------------------


class Pool:
    """Objects and buffers that live as long as a sequence."""

    def __init__(self):
        self.objects = {}
        self.buffers = {}

    def get(self, key, make):
        key = canonical(key)
        if key not in self.objects:
            self.objects[key] = make()
        return self.objects[key]

    def buffer(self, name, data):
        """The same array object for data of the same shape and type."""
        data = np.array(data)
        key = name, data.shape, data.dtype.str
        if key not in self.buffers:
            self.buffers[key] = data
        self.buffers[key][...] = data
        return self.buffers[key]


#: sites, some of them equal by the library's precision and some in another type,
#: some with equal hashes (those of -1 and -2 agree)
SITES = [(0, 0), (1, 0), (1.0, 0.0), (0.5, -1.25), (0.50001, -1.25),
         (2, 0.75), (0.0, -0.0), (-1, 0), (-2, 0), (0, -2), (0, -1)]
#: states on four different sites
STATES = [((0, 0), 0, 0), ((1, 0), 1, 0), ((0.5, -1.25), 0, 1), ((2, 0.75), 1, 1)]
ORDERS = [[0, 1, 2, 3], [1, 0, 2, 3], [3, 2, 1, 0], [0, 2, 1, 3]]
STRINGS = [[[0, 1], [1, 0]], [[1, 1], [0, 0]], [[2, 1], [0, 0]], [[0, 1], [0, 0]],
           [[0, 1], [0, 0], [1, 1], [1, 0]], [[0, 1]], [[3, 0]],
           [[2, 0], [1, 0]], [[0, 1], [1, 1], [3, 0], [2, 0]]]
#: pairs of bases with the same number of kets and the same first one
BASES = [[list(range(16)), list(range(16))],
         [[1, 2, 4, 8], [1, 2, 5, 6]], [[0, 1, 2, 3], [0, 5, 6, 7]],
         [[3, 5, 6, 9, 10, 12], [3, 5, 6, 12, 13, 14]],
         [[1, 3, 5, 7, 9, 11, 13, 15], [1, 2, 3, 4, 8, 9, 10, 15]]]
COEFFS = [1, 1.0, -0.5, 2 + 1j, 0.0, -1, -2, -2.0, -1.0]
TAGS = {3: "number", 4: "Coulomb", 0: "hopping", 1: "hopping", 2: "hopping"}


def table_of(pool, order, start):
    return pool.get(["table", order, start], lambda: IndexTable(
        [StateID(*STATES[i]) for i in ORDERS[order]], start=start))


def aoc_of(i, t):
    site, spin, orbit = STATES[i]
    return AoC(t, site=site, spin=spin, orbit=orbit)


def term_of(pool, which, tag, coeff):
    label = TAGS.get(which, "general") if tag else "general"
    term = pool.get(["term", which, tag], lambda: ParticleTerm(
        [aoc_of(i, t) for i, t in STRINGS[which]], classification=label))
    term.coeff = COEFFS[coeff]
    return term


def fermion(pool, query, which, tag, coeff, order, start, basis, variant,
            left, csr):
    kets = BASES[basis][variant]
    term = term_of(pool, which, tag, coeff)
    if query == "matrix":
        kw = {"to_csr": csr}
        bits = 1 << start
        if left is not None:
            kw["left_bases"] = pool.buffer(
                "left", np.array(BASES[left][variant], dtype=np.uint64)
                * np.uint64(bits))
        right = pool.buffer("right", np.array(kets, dtype=np.uint64)
                            * np.uint64(bits))
        return term.matrix_repr(table_of(pool, order, start), right, **kw)
    if query == "aoc" or query == "number":
        site, spin, orbit = STATES[which % 4]
        obj = pool.get([query, which, tag], lambda: (
            aoc_of(which % 4, tag) if query == "aoc"
            else NumberOperator(site, spin, orbit)))
        right = pool.buffer("right", np.array(kets, dtype=np.uint64))
        return obj.matrix_repr(table_of(pool, order, 0), right, to_csr=csr)
    if query == "operator":
        site, spin, orbit = STATES[which % 4]
        obj = pool.get(["algebra", which, tag], lambda: (
            NumberOperator(site, spin, orbit) if tag
            else aoc_of(which % 4, which % 2)))
        other = pool.get(["factor", order, csr], lambda: aoc_of(order, csr))
        c = COEFFS[coeff]
        return [obj.toterm() if tag else obj.state, obj * other, other * obj,
                obj * c, c * obj, obj.dagger() * obj]
    if query == "function":
        right = pool.buffer("right", np.array(kets, dtype=np.uint64))
        ops = [(ORDERS[order].index(i), t) for i, t in STRINGS[which]]
        return matrix_function(
            ops, right, coeff=COEFFS[coeff], to_csr=csr,
            special_tag=TAGS.get(which, "general") if tag else "general")
    if query == "text":
        return [str(term), term.tolatex(), repr(term.components)]
    if query == "dagger":
        return [term.dagger(), term.check_compatibility()]
    if query == "normalize":
        return ParticleTerm.normalize(
            [term.components, list(term.components)][csr])
    other = pool.get(["factor", order, csr], lambda: aoc_of(order, csr))
    return [term * other, other * term, COEFFS[coeff] * term, term * term]


SPINS = [[[0, "p"], [1, "m"]], [[0, "m"], [1, "p"]], [[1, "x"]], [[2, "z"], [0, "z"]],
         [[0, "x"], [0, "y"]], [[0, "y"], [1, "x"], [2, "z"]]]
SPIN_SITES = [(0, 0), (1, 0), (0.5, -1.25), (2, 0.75)]
SPIN_ORDERS = [[0, 1, 2], [1, 0, 2], [2, 1, 0], [3, 0, 1, 2], [0, 1, 2, 3]]


def spin(pool, query, which, coeff, order):
    term = pool.get(["spin", which], lambda: SpinInteraction(
        [SpinOperator(t, site=SPIN_SITES[i]) for i, t in SPINS[which]]))
    term.coeff = COEFFS[coeff]
    table = pool.get(["sites", order], lambda: IndexTable(
        [SiteID(SPIN_SITES[i]) for i in SPIN_ORDERS[order]]))
    op = pool.get(["one", which], lambda: SpinOperator(
        SPINS[which][0][1], site=SPIN_SITES[SPINS[which][0][0]]))
    if query == "matrix":
        return term.matrix_repr(table)
    if query == "one":
        return [op.matrix_repr(table), op.matrix(), op.dagger()]
    if query == "static":
        return SpinInteraction.matrix_function(
            [(i, t) for i, t in SPINS[which]], 3 + order % 2,
            coeff=COEFFS[coeff])
    if query == "text":
        return [str(term), term.tolatex(), op.tolatex(), repr(op)]
    if query == "schwinger":
        return [list(term.Schwinger()), list(op.Schwinger())]
    return [term.dagger(), term * op, op * term, op * op]


SPECS = [[[[0, 1, 2], 1]], [[[0, 1, 2], 2]], [[[0, 1, 2], -1]],
         [[[0, 1], 1], [[2, 3], 1]], [[[0, 1], 1], [[3, 2], -1]],
         [[[2, 3], 1], [[0, 1], 1]], [[[0, 1, 2, 3], 2]], [[[1, 0, 5], 1]],
         [[[0], 1], [[1, 2, 3], 1]], [[[0, 1, 2], 1], [[3], 1]],
         [[[0, 1, 2, 3], -1]], [[[3, 2, 1, 0], 2]], [[[0, 1, 5, 6], 2]]]


def ordered(res):
    """A sorted copy; what was returned is used up."""
    copy = sorted(res)
    overwrite(res)
    return copy


def space(pool, query, which, container, order):
    spec = [(tuple(s), p) for s, p in SPECS[which]]
    kw = {"container": ["array", "list", "tuple"][container],
          "sort": not order}
    if query == "function":
        res = base_vectors(*spec, **kw)
        return [type(res).__name__, ordered(res) if order else res]
    if query == "simple":
        obj = pool.get(["simple", which], lambda: SimpleHilbertSpace(
            spec[0][0], spec[0][1]))
        res = obj.base_vectors(**kw)
        return [type(res).__name__, ordered(res) if order else res,
                str(obj), obj.state_number]
    obj = pool.get(["space", which], lambda: HilbertSpace(*spec))
    res = obj.base_vectors(**kw)
    return [type(res).__name__, ordered(res) if order else res,
            str(obj), repr(obj)]


def identity(pool, query, i, j, s, start):
    """Sites and states, some of them equal, in tables and texts."""
    a = pool.get(["state", i, s], lambda: StateID(SITES[i], spin=s))
    b = pool.get(["state", j, 0], lambda: StateID(SITES[j]))
    if query == "text":
        return [repr(a), a.tolatex(), str(a), repr(b), list(a.coordinate)]
    if query == "compare":
        return [a == b, a < b, a > b, a <= b, a >= b, a != b,
                hash(a) == hash(b)]
    if query == "latex":
        table = pool.get(["one site", i, start], lambda: IndexTable(
            [SiteID(SITES[i])], start=start))
        return [a.tolatex(site_index=table), SiteID(SITES[i]).tolatex(
            ndigits=start)]
    table = pool.get(["ids", i, start], lambda: IndexTable(
        [StateID(SITES[k], spin=2) for k in (3, 0, 5)]
        + [StateID(SITES[i], spin=1)], start=start))
    return [table.query_index(StateID(SITES[i], spin=1)),
            repr(table.query_object(start + j % 4)), len(table), str(table),
            list(map(repr, table))]


def geometry(pool, query, i, j, digits, flag):
    if query == "bond":
        if i == j:
            j = (i + 3) % len(SITES)
        p0, p1 = (pool.buffer("end", SITES[i]), SITES[j])
        obj = pool.get(["bond", i, j, flag],
                       lambda: Bond(p0, p1, directional=flag))
        res = [obj.getLength(ndigits=digits), repr(obj), str(obj),
               plain(obj.endpoints)]
        if flag:
            res += [obj.getDisplace(ndigits=digits), repr(obj.flip()),
                    obj.getAzimuth(radian=bool(digits), ndigits=digits)]
        return res
    if query == "line":
        p0, p1, tol = LINES[i % 8]
        obj = pool.get(["line", i % 8], lambda: Line2D(p0, p1, tol=tol))
        point = pool.buffer("point", np.array(SITES[j], dtype=float))
        return [str(obj), repr(obj), obj.IsHorizontal, obj.IsVertical,
                obj.LocationRelation(point).name,
                obj.LocationRelation(point, tol=10.0 ** -(digits or 2)).name,
                obj.PointsFactory(np.array([0.5, float(flag)]))]
    corners = [[0.0, 0.0], [2.0 + i % 2, 0.0], [2.0, 1.5], [0.5, 2.0]][
        :3 + j % 2]
    obj = pool.get(["polygon", i % 2, j % 2],
                   lambda: Polygon(pool.buffer("corners", corners)))
    point = pool.buffer("point", np.array(
        [[1.0, 0.5], [2.0, 0.0], [3.0, 3.0], [1.0, 0.0]][(digits or 0) % 4]))
    inside = pool.buffer("inside", [1.2 + 0.1 * flag, 0.4])
    return [obj.LocationRelation(point, inside).name,
            obj.LocationRelation(point + 0.002, inside,
                                 tol=10.0 ** -(digits or 2)).name,
            obj.vertices]


#: two points and a tolerance
LINES = [((0, 0), (0.5, -1.25), 1e-10), ((1, 0), (2, 0.75), 1e-10),
         ((0.5, -1.25), (1, 0), 1e-6), ((-1, 0), (0, 0), 1e-10),
         ((0.50001, -1.25), (1, 0), 1e-10), ((0, 0), (1, 1e-4), 1e-3),
         ((0, 0), (1e-4, 1), 1e-3), ((0, 0), (1, 1e-4), 1e-10)]


CELLS = [([[0, 0]], [[1, 0], [0, 1]]), ([[0, 0]], [[1, 0], [0.5, 1]]),
         ([[0, 0], [1, 0]], [[2, 0], [0, 1]]), ([[0, 0], [0.5, 0.5]], [[1, 0], [0, 1]]),
         ([[0.25, 0.25]], [[1, 0], [0, 1]]), ([[0, 0], [1, 0]], [[2, 0]]),
         # neighbours at nearly the same distances
         ([[0, 0]], [[1, 0], [0, 1.02]]),
         ([[0, 0], [0.52, 0.5]], [[1, 0], [0, 1.002]]),
         # other dimensions
         ([[0], [0.4]], [[1]]),
         ([[0, 0, 0], [0.5, 0.5, 0.5]], [[1, 0, 0], [0, 1, 0], [0, 0, 1.03]])]


def lattice_query(pool, query, which, nth, i, flag, fold):
    points, vectors = CELLS[which]

    def make():
        return Lattice(pool.buffer("points", np.array(points, dtype=float)),
                       pool.buffer("vectors", np.array(vectors, dtype=float)))

    obj = pool.get(["lattice", which], make)
    if query == "bonds":
        got = obj.bonds(nth, only=flag, fold=fold)
        res = [part if part is None else sorted(
            sorted(tuple(np.round(p, 6) + 0.0) for p in b.endpoints)
            for b in part) for part in got]
        overwrite(got)
        return res
    if query == "distance":
        return round(float(obj.neighbor_distance(nth)), 9)
    site = np.array(obj.points[i % len(points)])
    if fold:
        site = site + (nth - 2) * np.array(vectors[0]) + (
            i - 1) * np.array(vectors[-1])
    site = pool.buffer("site", site)
    if query == "decompose":
        return obj.decompose(site)
    if query == "index":
        return obj.getIndex(site, fold=flag)
    if query == "inside":
        return [obj.in_cluster(site), str(obj), obj.bs]
    return obj.getSite(i % len(points))


def matrices(seed, n, form):
    rng = np.random.default_rng(seed)
    M = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    M = M + M.conj().T
    v = rng.normal(size=(4, n)) + 1j * rng.normal(size=(4, n))
    return M, v


def green(pool, solver, seed, n, sign, eta, structure):
    M, v = matrices(seed, 4 + n, 0)
    A, B = AoC(0, [0]), AoC(0, [1])
    ops = [A, B, A.dagger(), B.dagger()]
    HM = pool.buffer("HM", M)
    kets = pool.get(["kets"], dict)
    kets.update({op: pool.buffer("ket {0}".format(k), v[k])
                 for k, op in enumerate(ops)})
    omegas = pool.buffer("omegas", np.linspace(-1, 1 + n, 3))
    kw = dict(eta=[0.01, 0.3][eta], sign="+-"[sign])
    if solver in ("krylov", "multi"):
        if solver == "krylov":
            vectors = {"a": v[1], "b": v[2]}
            return KrylovRepresentation(HM, vectors, kets[A],
                                        krylov_space_dim=2 + eta)
        return MultiKrylov(HM, {"a": kets[A], "b": kets[B]},
                           krylov_space_dim=2 + eta)
    many = "Multiple" in solver
    if many:
        kw["structure"] = ["array", "dict"][structure]
    which = ([A, B], [B]) if many else (A, B)
    GE = 0.25 * n
    om = omegas if many else float(omegas[seed % 3])
    if "Exact" in solver:
        return getattr(gf, solver)(om, *which, GE, HM, kets, **kw)
    pm, pv = pool.get(["multi krylov", seed, n],
                      lambda: MultiKrylov(np.array(M), {
                          op: np.array(v[k]) for k, op in enumerate(ops)}))
    return getattr(gf, solver)(om, *which, GE, pm, pv, **kw)


def numbers(pool, query, a, b, flag):
    if query == "permutation":
        return [PandC.Permutation(a + 3, b), PandC.Permutation(
            a + 3, b, repeat=flag)]
    if query == "combination":
        return [PandC.Combination(a + 3, b), PandC.Combination(
            a + 3, b, repeat=flag)]
    if query == "rotation":
        axis = pool.buffer("axis", [[1.0, 2.0, 2.0], [0.0, 0.0, 1.0]][b % 2])
        return [rotation3d.RotationX(a, deg=flag),
                rotation3d.RotationGeneral(axis, a, deg=flag),
                rotation3d.RotationEuler(a, b, 1, deg=flag)]
    if query == "path":
        points = [pool.buffer("p{0}".format(k), np.array(p, dtype=float))
                  for k, p in enumerate([[0, 0], [a + 1, 0], [1, b + 1]])]
        return KPath(points, min_num=5 + b, loop=flag)
    if query == "average":
        M, v = matrices(a % 4, 4, 0)
        return averages.QuantumAverages(
            pool.buffer("state", v[b]),
            pool.buffer("M", M + flag * np.eye(4)))
    if query == "total":
        return averages.TotalSpinMatrices(1 + a % 3)
    if query == "spin":
        state = pool.buffer("spin state", matrices(a % 4, 4, 0)[1][b])
        function = pool.get(["total spin"],
                            lambda: averages.TotalSpinAverages(2))
        return function(state)
    if query == "color":
        return colorprint.coloring("a" * b, fg=["red", a % 4, "#0a0b0{0}".format(
            a % 4)][b % 3], bold=flag, color_scheme=[8, 8, 24][b % 3])
    if query == "named":
        return lattice_generator(
            ["square", "triangle", "kagome", "honeycomb"][a % 4],
            num0=1 + b % 2, num1=1 + flag)
    return special_cluster(["square_cross", "square_z", "triangle_star",
                            "honeycomb_benzene"][a % 4])


WIDE = 1 << 11


def wide(pool, query, variant, kind, coeff):
    """
    Arrays so long that they are abbreviated when printed; the variants differ
    in one element somewhere in the middle.
    """
    at = 500 + 300 * kind
    if query in ("matrix", "aoc", "number", "function", "left"):
        # some kets are left out: the operators below map no ket to another
        # one of the same basis
        left_out = [[at, at + 1], [at + 30, at + 101], [at + 8, at + 9]][
            variant]
        kets = np.delete(np.arange(WIDE, dtype=np.uint64), left_out)
        diagonal = kind != 1
        right = pool.buffer("wide", kets)
        table = pool.get(["eleven"], lambda: IndexTable(
            [StateID((i, 0)) for i in range(11)]))
        if query == "function":
            ops = [(3, 1), (3, 0)]
            return matrix_function(
                ops, right, coeff=COEFFS[coeff],
                special_tag="number" if diagonal else "general")
        if query == "number":
            obj = pool.get(["wide number"], lambda: NumberOperator((4, 0)))
            return obj.matrix_repr(table, right)
        if query == "aoc":
            obj = pool.get(["wide aoc"], lambda: AoC(0, (10, 0)))
            return obj.matrix_repr(
                table, right, left_bases=np.arange(WIDE, dtype=np.uint64))
        term = pool.get(["wide term", diagonal], lambda: (
            CPFactory((4, 0)) if diagonal else CoulombFactory((4, 0), (7, 0))))
        term.coeff = COEFFS[coeff]
        if query == "left":
            return term.matrix_repr(
                table, np.arange(at + 200, at + 300, dtype=np.uint64),
                left_bases=right)
        return term.matrix_repr(table, right)
    if query == "table":
        objects = list(range(1100))
        objects[at], objects[at + variant] = objects[at + variant], objects[at]
        obj = IndexTable(objects)
        return [obj(at), obj.query_object(at + 1), str(obj)[at * 10:][:100]]
    if query == "green":
        omegas = np.linspace(-2, 2, 1100)
        omegas[at] += variant
        M, v = matrices(3, 3, 0)
        A = AoC(0, [0])
        kets = {A: v[0], A.dagger(): v[1]}
        return gf.GFSolverExactMultiple(
            pool.buffer("wide omegas", omegas), [A], [A], 0.5, M, kets,
            sign="-")[0, 0, 400:]
    if query == "lattice":
        points = np.array([(i, j) for i in range(30) for j in range(20)],
                          dtype=float)
        points[at // 2] += 0.25 * variant
        obj = Lattice(pool.buffer("wide points", points),
                      np.array([[30.0, 0.0], [0.0, 20.0]]))
        return [obj.in_cluster(points[at // 2]), obj.getIndex(points[at // 2]),
                obj.in_cluster(points[at // 2] + [0.0, 0.25])]
    n = 1200
    state = np.cos(np.arange(n)) + 1j * (np.arange(n) % 3)
    state[at] += variant
    diagonal = np.arange(n) % 7 - 2.0
    diagonal[at + 1] += variant * kind
    M = sparse.diags([diagonal, np.ones(n - 1), np.ones(n - 1)],
                     [0, 1, -1], format="csr")
    state = pool.buffer("wide state", state)
    if query == "average":
        return averages.QuantumAverages(state, M)
    return KrylovRepresentation(M, {"a": state[::-1].copy()}, state,
                                krylov_space_dim=3)


def make_terms(pool, which, i, j, coeff, s):
    if i == j:
        j = (i + 3) % len(SITES)
    a = pool.buffer("a", SITES[i])
    b = pool.buffer("b", SITES[j])
    kw = {"coeff": COEFFS[coeff]}
    if which == "hopping":
        return HoppingFactory(a, b, spin0=s, **kw)
    if which == "pairing":
        return PairingFactory(a, b, spin0=s, which="ph"[coeff % 2], **kw)
    if which == "coulomb":
        return CoulombFactory(a, b, spin1=s, **kw)
    if which == "potential":
        return CPFactory(a, spin=s, **kw)
    if which == "hubbard":
        return HubbardFactory(a, orbit=s, **kw)
    if which == "ising":
        return IsingFactory(a, b, "xyz"[s], **kw)
    return HeisenbergFactory(a, b, **kw)


def default(pool, name, c, given):
    function, values = defaults.TABLE[name]
    kw = {}
    for key in given:
        value = values[key]
        kw[key] = value[c["num"] % len(value)] if isinstance(
            value, list) else value
    return function(c, **kw)


def ints(n):
    return st.integers(0, n)


FAMILIES = {
    "fermion": (fermion, st.tuples(
        st.sampled_from(["matrix"] * 6 + ["aoc", "number", "operator", "function",
                                          "text", "dagger", "normalize",
                                          "mul"]),
        ints(len(STRINGS) - 1), ints(1), ints(len(COEFFS) - 1), ints(3),
        st.sampled_from([0, 0, 0, 2]), ints(len(BASES) - 1),
        ints(1), st.sampled_from([None, None, None, None, 0, 4]),
        st.sampled_from([True, True, False]))),
    "spin": (spin, st.tuples(
        st.sampled_from(["matrix", "matrix", "one", "static", "text",
                         "schwinger", "algebra"]),
        ints(len(SPINS) - 1), ints(len(COEFFS) - 1), ints(4))),
    "space": (space, st.tuples(
        st.sampled_from(["function", "simple", "space"]),
        ints(len(SPECS) - 1), ints(2), ints(1))),
    "identity": (identity, st.tuples(
        st.sampled_from(["text", "compare", "latex", "table"]),
        ints(len(SITES) - 1), ints(len(SITES) - 1), ints(1), ints(2))),
    "geometry": (geometry, st.tuples(
        st.sampled_from(["bond", "line", "polygon"]), ints(len(SITES) - 1),
        ints(len(SITES) - 1),
        st.sampled_from([None, 1, 3]), st.booleans())),
    "lattice": (lattice_query, st.tuples(
        st.sampled_from(["bonds", "bonds", "distance", "decompose", "index",
                         "inside", "site"]),
        ints(len(CELLS) - 1), ints(5), ints(2), st.booleans(),
        st.booleans())),
    "green": (green, st.tuples(
        st.sampled_from(
            ["krylov", "multi"]
            + [p + "GFSolver" + m + k for p in ("", "R")
               for m in ("Exact", "Lanczos") for k in ("Single", "Multiple")]),
        ints(2), ints(1), ints(1), ints(1), ints(1))),
    "numbers": (numbers, st.tuples(
        st.sampled_from(["permutation", "combination", "rotation", "path",
                         "average", "total", "spin", "color", "named",
                         "cluster"]),
        st.integers(-2, 3), ints(3), st.booleans())),
    "terms": (make_terms, st.tuples(
        st.sampled_from(["hopping", "pairing", "coulomb", "potential",
                         "hubbard", "ising", "heisenberg"]),
        ints(len(SITES) - 1), ints(len(SITES) - 1), ints(len(COEFFS) - 1),
        ints(1))),
    "wide": (wide, st.tuples(
        st.sampled_from(["matrix", "matrix", "aoc", "number", "function",
                         "left", "average", "krylov", "green", "lattice",
                         "table"]),
        ints(2), ints(2), st.sampled_from([0, 1, 3]))),
}


@st.composite
def default_request(draw):
    case = draw(defaults.defaults_case().filter(
        lambda c: c["name"] != "RunTimeEnv"))
    given = draw(st.sampled_from([[], case["given"]]))
    return [case["name"], {"seed": case["seed"] % 3, "num": case["num"] % 3},
            given]


@st.composite
def focused_case(draw):
    """One request, again and again, with one to three arguments changing."""
    name = draw(st.sampled_from(sorted(FAMILIES) + ["fermion"]))
    args = list(draw(FAMILIES[name][1]))
    free = draw(st.lists(st.integers(draw(st.sampled_from([0, 1, 1])),
                                     len(args) - 1),
                         min_size=1, max_size=3))
    requests = []
    for _ in range(draw(st.integers(3, 12))):
        other = draw(FAMILIES[name][1])
        args = [other[k] if k in free else args[k] for k in range(len(args))]
        requests.append([name, args])
    return {"requests": requests, "probe": draw(st.integers(0, 14))}


@st.composite
def changed_case(draw):
    """Two to four requests, each with one argument unlike the one before."""
    name = draw(st.sampled_from(sorted(FAMILIES) + ["fermion"] * 5))
    args = list(draw(FAMILIES[name][1]))
    requests = [[name, args]]
    for _ in range(draw(st.integers(1, 3))):
        other = draw(FAMILIES[name][1])
        k = draw(st.integers(min(1, len(args) - 1), len(args) - 1))
        args = args[:k] + [other[k]] + args[k + 1:]
        requests.append([name, args])
    return {"requests": requests, "probe": draw(st.integers(0, 3))}


@st.composite
def mixed_case(draw):
    names = draw(st.lists(st.sampled_from(sorted(FAMILIES) + ["default"]),
                          min_size=1, max_size=2, unique=True))
    requests = []
    for _ in range(draw(st.integers(2, 15))):
        name = draw(st.sampled_from(names))
        last = [r for r in requests if r[0] == name]
        if name == "default":
            args = draw(default_request())
        else:
            args = list(draw(FAMILIES[name][1]))
            if last and draw(st.integers(0, 4)):
                # like an earlier request but for one or two arguments
                old = draw(st.sampled_from(last))[1]
                new = draw(st.lists(st.integers(
                    draw(st.sampled_from([0, 1, 1, 1])), len(args) - 1),
                    min_size=1, max_size=draw(st.sampled_from([1, 1, 2]))))
                args = [args[k] if k in new else old[k]
                        for k in range(len(args))]
        requests.append([name, args])
    return {"requests": requests, "probe": draw(st.integers(0, 14))}


def sequence_case():
    return st.one_of(focused_case(), changed_case(), mixed_case())


def overwrite(x):
    """Change the data (of objects only coefficients) of an answer in place."""
    if isinstance(x, (ParticleTerm, SpinInteraction)):
        x.coeff = 2 * x.coeff + 3
    elif issparse(x):
        x.indices[...] = 0
        overwrite(x.data)
    elif isinstance(x, np.ndarray) and x.dtype != object:
        if x.flags.writeable:
            x[...] = np.logical_not(x) if x.dtype == bool else x * 2 + 3
    elif isinstance(x, (tuple, list)):
        for v in x:
            overwrite(v)
        if isinstance(x, list):
            x.append("changed")
    elif isinstance(x, dict):
        for v in x.values():
            overwrite(v)
        x.clear()


def answer(pool, request):
    name, args = request
    function = default if name == "default" else FAMILIES[name][0]
    try:
        got = function(pool, *args)
    except Exception as exc:            # the same one, if it is no accident
        return ("refused", type(exc).__name__)
    res = plain(got)
    overwrite(got)
    return res


def run_all(requests):
    pool = Pool()
    return [answer(pool, r) for r in requests]


def alone(request):
    return in_child(run_all, [request])[0]


def check(case, note):
    requests = case["requests"]
    one = in_child(run_all, requests)
    two = in_child(run_all, requests[::-1])[::-1]
    probe = case["probe"] % len(requests)
    for at, (request, got, other) in enumerate(zip(requests, one, two)):
        if at == probe or not same(got, other):
            want = alone(request)
            for res, before in ((got, requests[:at]),
                                (other, requests[:at:-1])):
                expect(same(res, want), "request {0}, {1}: {2} after {3}, and "
                       "{4} when it is the first", at, request, shorten(res),
                       before, shorten(want))
        note(request[0])
        if isinstance(got, tuple) and got[:1] == ("refused",):
            note(request[0] + " refused")
    kinds = {}
    for name, args in requests:
        kinds.setdefault(name, set()).add(canonical(args))
    return any(len(s) > 1 for s in kinds.values())


def shorten(x):
    text = repr(x)
    return text if len(text) < 400 else text[:400] + "..."


SUBS = [Sub("sequences", sequence_case, check, 4500, 60000, shards=8)]
