"""C28: objects own their data; arguments and constants are never changed."""

import copy
import math

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix, issparse

from core import Sub, expect
from checks.common import coefficients, site_lists, to_number
from checks.green import excited, gf_case, keywords, operators
from checks.lattices import build as build_lattice, lattice_strategy
from HamiltonianPy import (
    AoC, Bond, CPFactory, CoulombFactory, HeisenbergFactory, HoppingFactory,
    HubbardFactory, IndexTable, IsingFactory, KPath, Lattice, Line2D,
    NumberOperator, PairingFactory, ParticleTerm, RotationEuler,
    RotationGeneral, RotationX, RotationY, RotationZ, SiteID, SpinInteraction,
    SpinOperator, StateID, TwoSpinTermFactory, base_vectors, lattice_generator,
    special_cluster)
from HamiltonianPy import GreenFunction as gf
from HamiltonianPy import averages, lattice, quantumoperator, rotation3d
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.lanczos import KrylovRepresentation, MultiKrylov
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.quantumoperator import Annihilator, Creator
from HamiltonianPy.quantumoperator.particlesystem import SwapFermionError
from HamiltonianPy.tools.TotalSpin import TotalSpin

PROPERTY = "C28"
RULE = (
    "A case is an object of some class with its arguments, and a history: "
    "change an argument in place, ask a question, change the answer in place; "
    "every answer is compared with that of a twin built from untouched "
    "copies. Or it is a function with its arguments, called repeatedly while "
    "its results are changed. Non-trivial: at least one argument or answer "
    "that could be changed was changed.")
ASSUMPTIONS = [
    "the coefficient of a term is documented to be changed by its setter and "
    "by matrix_repr(coeff=...)",
]

# -- fingerprints and in-place changes ------------------------------------------


def fp(x):
    """A value that is equal for equal contents."""
    if issparse(x):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), fp(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fp(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, Bond):
        return ("bond", fp(x.endpoints), x.directional)
    if isinstance(x, Lattice):
        return ("lattice", fp(x.points), fp(x.vectors), x.name)
    if isinstance(x, IndexTable):
        return ("table", tuple((i, repr(o)) for i, o in x))
    if isinstance(x, (ParticleTerm, SpinInteraction)):
        return (type(x).__name__, repr(x.coeff), repr(x.components))
    if isinstance(x, (np.floating, np.complexfloating)):
        return x.item()
    return x if type(x) in (float, complex) else repr(x)


def same(a, b):
    """Equal up to the rounding of arithmetic on other memory addresses."""
    if a == b:
        return True
    if (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)
            and a):
        if a[0] == b[0] == "array" and a[1:3] == b[1:3]:
            if np.dtype(a[2]).kind not in "fc":
                return False
            x, y = (np.frombuffer(v[3], dtype=v[2]) for v in (a, b))
            return bool(np.allclose(x, y, rtol=1e-9, atol=1e-9,
                                    equal_nan=True))
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)):
        return abs(a - b) <= 1e-9 * max(1, abs(b))
    return False


def spoil(x):
    """Change everything that can be changed in place; how many things were."""
    if issparse(x):
        if x.indices.flags.writeable:
            x.indices[...] = 0        # still valid, if the memory is shared
        return spoil(x.data)
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            if x.dtype == object:
                return 0
            x[...] = np.logical_not(x) if x.dtype == bool else x * 2 + 3
            return 1
        return 0
    if isinstance(x, dict):
        n = sum(spoil(v) for v in x.values())
        x.clear()
        return n + 1
    if isinstance(x, list):
        n = sum(spoil(v) for v in x)
        x.reverse()
        x.append("spoiled")
        return n + 1
    if isinstance(x, tuple):
        return sum(spoil(v) for v in x)
    if isinstance(x, set):
        x.clear()
        return 1
    if isinstance(x, (ParticleTerm, SpinInteraction)):
        x.coeff = 2 * x.coeff + 3
        return 1
    if isinstance(x, Lattice):
        x.name = "spoiled"
        return 1
    return 0


def constants():
    for module in (quantumoperator, lattice, rotation3d, averages,
                   quantumoperator.constant):
        for name, value in sorted(vars(module).items()):
            if isinstance(value, np.ndarray):
                yield module.__name__ + "." + name, value
            elif isinstance(value, dict) and not name.startswith("__"):
                for key, item in sorted(value.items(), key=repr):
                    if isinstance(item, np.ndarray):
                        yield "{0}.{1}[{2!r}]".format(
                            module.__name__, name, key), item


CONSTANTS = {name: value for name, value in constants()}
PRISTINE = {name: value.copy() for name, value in CONSTANTS.items()}
TABLES = {name: {k: copy.deepcopy(v) for k, v in getattr(
    quantumoperator.constant, name).items()}
    for name in ("SPIN_MATRICES", "SIGMA_MATRICES")}


def constants_untouched(what):
    bad = []
    for name, value in CONSTANTS.items():
        if not np.array_equal(value, PRISTINE[name]):
            bad.append(name)
            value[...] = PRISTINE[name]
    for name, table in TABLES.items():
        now = getattr(quantumoperator.constant, name)
        if sorted(now) != sorted(table) or any(
                not np.array_equal(now[k], table[k]) for k in table):
            bad.append(name)
            now.clear()
            now.update({k: v.copy() for k, v in table.items()})
    expect(not bad, "{0}: changed the constants {1}", what, bad)


def asked(function, *args, **kwargs):
    """Call with arguments that must come back unchanged."""
    before = fp(args), fp(kwargs)
    res = function(*args, **kwargs)
    expect((fp(args), fp(kwargs)) == before,
           "{0} changed its arguments {1}", getattr(
               function, "__qualname__", function), args)
    return res


# -- objects ----------------------------------------------------------------------


def array(site):
    return np.array(site)


def make_site(case):
    cls = case["cls"]
    site = array(case["sites"][0])
    other = array(case["sites"][-1])
    spin, orbit = case["numbers"]
    build = {
        "SiteID": lambda s: SiteID(s),
        "StateID": lambda s: StateID(s, spin, orbit),
        "AoC": lambda s: AoC(spin % 2, s, spin, orbit),
        "NumberOperator": lambda s: NumberOperator(s, spin, orbit),
        "SpinOperator": lambda s: SpinOperator("xyzpm"[spin], s),
    }[cls]
    probes = {
        "coordinate": lambda o: o.coordinate,
        "site": lambda o: o.site,
        "repr": repr, "hash": hash, "tolatex": lambda o: o.tolatex(),
        "twin": lambda o: o == build(array(case["sites"][0])),
        "other": lambda o: o == build(other),
    }
    if cls in ("AoC", "NumberOperator"):
        probes["dagger"] = lambda o: o.dagger()
        probes["state"] = lambda o: o.state
        probes["state.site"] = lambda o: o.state.site
        probes["derive"] = lambda o: asked(o.derive, site=other)
        probes["double"] = lambda o: (2 * o, o * 2)
        probes["table"] = lambda o: asked(
            o.matrix_repr, IndexTable([o.state, StateID(other, 3, 3)]),
            np.arange(4, dtype=np.uint64))
        second = AoC(1, other, 3, 3)
        probes["times"] = lambda o: (
            asked(o.__mul__, second), second * o, o * o, 1 * o, o * 1.0)
    if cls == "NumberOperator":
        probes["toterm"] = lambda o: o.toterm()
    if cls == "SpinOperator":
        probes["times"] = lambda o: (o * o, 1 * o, o * 1.0)
        probes["matrix"] = lambda o: o.matrix()
        probes["dagger"] = lambda o: o.dagger()
        probes["Schwinger"] = lambda o: o.Schwinger()
        probes["site_id"] = lambda o: o.site_id.site
        probes["repr matrix"] = lambda o: o.matrix_repr(
            IndexTable([o.site_id]))
    return [site], lambda args: build(args[0]), probes


def make_bond(case):
    p0, p1 = array(case["sites"][0]), array(case["sites"][-1])
    probes = {
        "endpoints": lambda o: o.endpoints,
        "repr": repr, "str": str, "hash": hash,
        "length": lambda o: o.getLength(),
    }
    directional = case["flag"]
    if directional:
        probes["flip"] = lambda o: o.flip()
        probes["flip.endpoints"] = lambda o: o.flip().endpoints
        probes["displace"] = lambda o: o.getDisplace()
        probes["rounded"] = lambda o: o.getDisplace(ndigits=3)
        probes["azimuth"] = lambda o: o.getAzimuth()
    return [p0, p1], lambda a: Bond(
        a[0], a[1], directional=directional), probes


def make_line(case):
    q = array(case["points"][2])
    probes = {
        "repr": repr, "str": str,
        "kind": lambda o: (o.IsHorizontal, o.IsVertical),
        "points": lambda o: o.PointsFactory(),
        "ratios": lambda o: asked(o.PointsFactory, np.array([0.0, 1.0, 3.5])),
        "location": lambda o: asked(o.LocationRelation, q),
        "x": lambda o: None if o.IsVertical else o(1.5),
        "y": lambda o: None if o.IsHorizontal else o(1.5, "y"),
    }
    return [array(p) for p in case["points"][:2]], lambda a: Line2D(
        a[0], a[1]), probes


def make_polygon(case):
    n = 3 + case["numbers"][0]
    verts = np.array([[2 * math.cos(2 * math.pi * i / n + 0.3),
                       2 * math.sin(2 * math.pi * i / n + 0.3)]
                      for i in range(n)])
    q = array(case["points"][2])
    ref = np.array([0.1, -0.2])
    probes = {
        "vertices": lambda o: o.vertices,
        "number": lambda o: o.vertices_num,
        "location": lambda o: asked(o.LocationRelation, q, ref),
        "inside": lambda o: asked(o.LocationRelation, ref, ref),
        "corner": lambda o: asked(o.LocationRelation, verts[1].copy(), ref),
    }
    if case["flag"]:
        return [verts.copy()], lambda a: Polygon(a[0]), probes
    return [verts.tolist()], lambda a: Polygon(a[0]), probes


def lattice_probes(case, near):
    k = case["numbers"][1]

    def site(o):
        return o.getSite(k % o.point_num)

    def away(o):
        return o.getSite(k % o.point_num) + near[0] * o.vectors[0]

    def all_bonds(o, **kw):
        intra, inter = o.bonds(1, **kw)
        return sorted(repr(b) for b in intra), sorted(repr(b) for b in inter)

    def loose_bonds(o):
        # the answer itself, for spoiling; order is not part of it
        res = o.bonds(1)
        for group in res:
            group.sort(key=repr)
        return res

    return {
        "points": lambda o: o.points, "vectors": lambda o: o.vectors,
        "bs": lambda o: o.bs, "str": str, "getSite": site,
        "number": lambda o: (o.point_num, o.space_dim, o.trans_dim),
        "getIndex": lambda o: asked(o.getIndex, site(o)),
        "fold": lambda o: asked(o.getIndex, away(o), fold=True),
        "decompose": lambda o: asked(o.decompose, away(o)),
        "decompose inside": lambda o: asked(o.decompose, site(o)),
        "inside": lambda o: asked(o.in_cluster, away(o)),
        "distance": lambda o: [o.neighbor_distance(i) for i in range(3)],
        "onsite": lambda o: o.bonds(0),
        "onsite endpoints": lambda o: [b.endpoints for b in o.bonds(0)[0]],
        "bonds": loose_bonds, "all bonds": all_bonds,
        "folded": lambda o: all_bonds(o, fold=True),
    }


def make_lattice(case):
    lat, _, _ = build_lattice(case["lattice"])
    return ([lat.points, lat.vectors],
            lambda a: Lattice(a[0], a[1], "name"),
            lattice_probes(case, case["numbers"]))


NAMED = ["chain", "square", "triangle", "honeycomb", "kagome", "cubic"]
CLUSTERS = ["square_cross", "square_z", "square_s", "triangle_star",
            "honeycomb_benzene", "honeycomb_diphenyl"]


def make_named(case):
    i = case["numbers"][0] * 3 + case["numbers"][1]
    if case["flag"]:
        build = lambda a: lattice_generator(  # noqa: E731
            NAMED[i % 6], 1, 1 + case["numbers"][0] % 2)
    else:
        build = lambda a: special_cluster(CLUSTERS[i % 6])  # noqa: E731
    return [], build, lattice_probes(case, case["numbers"])


def make_table(case):
    objs = [SiteID(s) for s in case["sites"]]
    probes = {
        "items": list, "str": str, "len": len,
        "indices": lambda o: list(o.indices()),
        "objects": lambda o: list(o.objects()),
        "query": lambda o: o(SiteID(case["sites"][0])),
        "back": lambda o: o.query_object(case["numbers"][0]),
        "site": lambda o: o.query_object(case["numbers"][0]).site,
    }
    return [list(objs)], lambda a: IndexTable(
        a[0], start=case["numbers"][0]), probes


def make_space(case):
    n = 2 + case["numbers"][0]
    probes = {
        "repr": repr, "str": str,
        "vectors": lambda o: o.base_vectors(),
        "list": lambda o: o.base_vectors(container="list"),
        "tuple": lambda o: o(container="tuple", sort=False),
    }
    if case["flag"]:
        probes["states"] = lambda o: o.single_particle_states
        probes["numbers"] = lambda o: (o.state_number, o.particle_number)
        return [list(range(n))[::-1]], lambda a: SimpleHilbertSpace(
            a[0], 1), probes
    probes["specifiers"] = lambda o: o.subspace_specifiers
    return ([[[0, 2], 1], [list(range(3, 3 + n)), -1]],
            lambda a: HilbertSpace(*a), probes)


def normalized(term):
    ops = list(term.components)
    before = fp(ops)
    try:
        res = ParticleTerm.normalize(ops)
    except SwapFermionError:
        res = "rejected"
    expect(fp(ops) == before, "normalize changed its argument")
    if res != "rejected":
        answer = copy.copy(res[0]), res[1]
        spoil(res[0])
        expect(fp(ops) == before,
               "normalize: its argument changes with the answer")
        res = answer
    return res


def make_term(case):
    sites = case["sites"]
    ops = []
    for i, kind, spin in case["ops"]:
        site = array(sites[i % len(sites)])
        ops += ([AoC(1, site, spin), AoC(0, site, spin)] if kind == 2
                else [AoC(kind, site, spin)])
    table = IndexTable([StateID(s, spin) for s in sites for spin in (0, 1)])
    bases = np.arange(1 << len(table), dtype=np.uint64)
    coeff = to_number(case["coeff"])
    second = ParticleTerm([AoC(1, sites[0], 0), AoC(0, sites[-1], 1)], 0.5)
    probes = {
        "str": str, "coeff": lambda o: o.coeff,
        "components": lambda o: o.components,
        "class": lambda o: o.classification,
        "check": lambda o: o.check_compatibility(),
        "dagger": lambda o: o.dagger(),
        "tolatex": lambda o: o.tolatex(),
        "times": lambda o: (asked(o.__mul__, second), second * o),
        "scaled": lambda o: (2 * o, o * 2j),
        "unit": lambda o: (1 * o, o * 1, 1.0 * o, o * (1 + 0j)),
        "normalize": normalized,
        "matrix": lambda o: asked(o.matrix_repr, table, bases),
        "matrix left": lambda o: asked(
            o.matrix_repr, table, bases, left_bases=bases.copy()),
        "coordinates": lambda o: asked(
            o.matrix_repr, table, bases.copy(), to_csr=False),
    }
    return [ops], lambda a: ParticleTerm(a[0], coeff), probes


def make_spin_term(case):
    sites = case["sites"]
    ops = [SpinOperator("xyzpm"[(kind + 2 * spin) % 5],
                        array(sites[i % len(sites)]))
           for i, kind, spin in case["ops"]]
    table = IndexTable([SiteID(s) for s in sites])
    coeff = to_number(case["coeff"])
    second = SpinInteraction([SpinOperator("x", sites[0])], 0.5)
    probes = {
        "str": str, "coeff": lambda o: o.coeff,
        "components": lambda o: o.components,
        "dagger": lambda o: o.dagger(),
        "tolatex": lambda o: o.tolatex(),
        "times": lambda o: (asked(o.__mul__, second), second * o),
        "scaled": lambda o: (2 * o, o * 2j),
        "unit": lambda o: (1 * o, o * 1, 1.0 * o, o * (1 + 0j)),
        "Schwinger": lambda o: o.Schwinger(),
        "matrix": lambda o: asked(o.matrix_repr, table),
    }
    return [ops], lambda a: SpinInteraction(a[0], coeff), probes


def make_factory(case):
    name = case["factory"]
    coeff = to_number(case["coeff"])
    c = {"coeff": coeff}
    build = {
        "cp": lambda a: CPFactory(a[0], **c),
        "hopping": lambda a: HoppingFactory(a[0], a[1], **c),
        "pairing": lambda a: PairingFactory(a[0], a[1], **c),
        "hubbard": lambda a: HubbardFactory(a[0], **c),
        "coulomb": lambda a: CoulombFactory(a[0], a[1], **c),
        "heisenberg": lambda a: HeisenbergFactory(a[0], a[1], **c),
        "ising": lambda a: IsingFactory(a[0], a[1], "x", **c),
        "two": lambda a: TwoSpinTermFactory(a[0], a[1], "x", "z", **c),
        "creator": lambda a: Creator(a[0]),
        "annihilator": lambda a: Annihilator(a[0]),
    }[name]
    probes = {"str": lambda o: [str(t) for t in o]
              if isinstance(o, (list, tuple)) else str(o),
              "all": lambda o: fp(o)}
    return ([array(case["sites"][0]), array(case["sites"][-1])], build,
            probes)


MAKERS = {
    "site": make_site, "bond": make_bond, "line": make_line,
    "polygon": make_polygon, "lattice": make_lattice, "named": make_named,
    "table": make_table, "space": make_space, "term": make_term,
    "spin term": make_spin_term, "factory": make_factory,
}


@st.composite
def object_case(draw):
    kind = draw(st.sampled_from(sorted(MAKERS)))
    sites = draw(site_lists(2, 3))
    case = {"kind": kind, "sites": sites, "flag": draw(st.booleans()),
            "numbers": draw(st.lists(st.integers(0, 2), min_size=2,
                                     max_size=2)),
            "history": draw(st.lists(st.tuples(
                st.sampled_from(["ask", "spoil answer", "spoil argument"]),
                st.integers(0, 40)).map(list), min_size=1, max_size=10))}
    if kind == "site":
        case["cls"] = draw(st.sampled_from(
            ["SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"]))
    if kind in ("line", "polygon"):
        case["points"] = [[0.5, 1.0], draw(st.sampled_from(
            [[2.0, 1.0], [0.5, -1.0], [1.5, 3.0], [2, 3]])),
            draw(st.sampled_from([[0.5, 1.0], [1.0, 2.0], [0.0, 0.0],
                                  [4.0, 1.0]]))]
    if kind == "lattice":
        case["lattice"] = draw(lattice_strategy(3, strength=1, offset=1))
    if kind in ("term", "spin term"):
        case["ops"] = draw(st.lists(st.tuples(
            st.integers(0, 2), st.integers(0, 2), st.integers(0, 1)).map(list),
            min_size=1, max_size=4))
    if kind in ("term", "spin term", "factory"):
        case["coeff"] = draw(coefficients())
    if kind == "factory":
        case["factory"] = draw(st.sampled_from(
            ["cp", "hopping", "pairing", "hubbard", "coulomb", "heisenberg",
             "ising", "two", "creator", "annihilator"]))
    return case


def check_object(case, note):
    args, build, probes = MAKERS[case["kind"]](case)
    what = case["kind"] + (" " + case["cls"] if "cls" in case else "")
    names = sorted(probes)
    pristine = copy.deepcopy(args)
    before = fp(args)
    obj = build(args)
    expect(fp(args) == before, "{0}: building it changed its arguments", what)
    want = {}

    def wanted(name):
        if name not in want:
            # an own twin for every question: no history at all
            want[name] = fp(probes[name](build(copy.deepcopy(pristine))))
        return want[name]

    changed = 0
    done = []
    for step, number in case["history"]:
        if step == "spoil argument":
            if not args:
                continue
            index = number % len(args)
            n = spoil(args[index])
            done.append("argument {0} changed".format(index))
            changed += n
            if n:
                note("argument changed")
        else:
            name = names[number % len(names)]
            expected = wanted(name)
            answer = probes[name](obj)
            expect(same(fp(answer), expected),
                   "{0}: the answer to {1} changed after {2}", what, name,
                   done)
            done.append(name)
            if step == "spoil answer":
                n = spoil(answer)
                changed += n
                if n:
                    done[-1] += " (answer changed)"
                    note("answer changed")
    for name in names:
        expect(same(fp(probes[name](obj)), wanted(name)),
               "{0}: the answer to {1} changed after {2}", what, name, done)
    constants_untouched(what)
    note(what)
    return changed > 0


# -- functions ----------------------------------------------------------------------


def f_matrix_function(case, rng):
    n = 3
    sites = [[float(i)] for i in range(n)]
    ops = [AoC(kind, sites[i % n], 0) for i, kind, _ in case["ops"]]
    table = IndexTable([StateID(s) for s in sites])
    right = base_vectors([n, case["ops"][0][0] + 1])
    left = base_vectors(n)
    term = ParticleTerm(ops, to_number(case["coeff"]))
    return (lambda t, r, l, o: ParticleTerm(o, to_number(
        case["coeff"])).matrix_repr(t, r, left_bases=l)), [
        table, right, left, list(ops)], [term]


def f_krylov(case, rng):
    g = case["gf"]
    n = g["n"]
    M = rng.normal(size=(n, n))
    if g["complex"]:
        M = M + 1j * rng.normal(size=(n, n))
    M = M + M.conj().T
    As, Bs = operators(g)
    states = excited(rng, n, list(As) + list(Bs), g["states"])
    for v in states.values():
        v[0] = 5
    if case["flag"]:
        M = csr_matrix(M)
    # the recurrence may end early; only the arguments matter here
    if case["numbers"][0]:
        v0 = next(iter(states.values()))
        if case["numbers"][0] == 2:
            v0 = v0 / np.linalg.norm(v0)
        return (lambda a, b, c: KrylovRepresentation(
            a, b, c, krylov_space_dim=2)), [M, states, v0], []
    return (lambda a, b: MultiKrylov(a, b, krylov_space_dim=2)), [
        M, states], []


def f_green(case, rng):
    g = case["gf"]
    n = g["n"]
    H = rng.normal(size=(n, n))
    if g["complex"]:
        H = H + 1j * rng.normal(size=(n, n))
    H = H + H.conj().T
    As, Bs = operators(g)
    states = excited(rng, n, list(As) + list(Bs), g["states"])
    omegas = np.array(g["omegas"] + [0.25])
    kw = keywords(g)
    prefix = "RGF" if g["retarded"] else "GF"
    if case["flag"]:
        pms = {k: np.diag(np.arange(2.0)) + 0.5 for k in states}
        pvs = {k: {q: rng.normal(size=2) for q in states} for k in states}
        data = [pms, pvs]
        solver = "SolverLanczos"
    else:
        data = [H, states]
        solver = "SolverExact"
    if case["numbers"][0]:
        f = getattr(gf, prefix + solver + "Multiple")
        if g["structure"] is not None:
            kw["structure"] = g["structure"]
        return (lambda o, a, b, d: f(o, a, b, g["GE"], *d, **kw)), [
            omegas, list(As), list(Bs), data], []
    f = getattr(gf, prefix + solver + "Single")
    return (lambda d: f(0.25, As[0], Bs[0], g["GE"], *d, **kw)), [data], []


def f_kpath(case, rng):
    pts = [array(p) for p in ([0.0, 0.0], [1.0, 0.5], [2.0, 2.0])]
    pts = pts if case["flag"] else tuple(pts)
    if case["numbers"][0]:
        pts = np.array(pts)
    return (lambda p: KPath(p, min_num=3, loop=bool(
        case["numbers"][1]))), [pts], []


def f_rotation(case, rng):
    i = case["numbers"][0] + 3 * case["numbers"][1]
    kw = {"inversion": case["flag"]}
    axis = np.array([1.0, 2.0, -0.5])
    if i < 2:
        axis = np.array([[0.0, 0.0, 2.0], [0.0, 0.0, -1.5]][i])
    elif i == 2:
        axis = np.array([3.0, 4.0])
    return [
        lambda a: RotationGeneral(a, 0.7, **kw),
        lambda a: RotationGeneral(a, 0.7, **kw),
        lambda a: RotationGeneral(a, 0.7, **kw),
        lambda a: RotationGeneral(a, 40, deg=True, **kw),
        lambda a: RotationX(0.3, **kw), lambda a: RotationY(30, deg=True,
                                                            **kw),
        lambda a: RotationZ(1.0, **kw),
        lambda a: RotationEuler(0.1, 0.2, 0.3, **kw),
        lambda a: RotationX(0.0, **kw)][i], [axis], []


def f_bases(case, rng):
    specs = [[[0, 2], 1], [[1, 3, 4], -1]]
    container = ["array", "list", "tuple"][case["numbers"][0]]
    return (lambda *s: base_vectors(*s, container=container,
                                    sort=case["flag"])), specs, []


def f_total(case, rng):
    n = 1 + case["numbers"][0]
    f = averages.TotalSpinMatrices if case["flag"] else TotalSpin
    return (lambda: f(n)), [], []


def f_average(case, rng):
    n = 1 + case["numbers"][0]
    ket = rng.normal(size=1 << n) + (1j if case["flag"] else 0) * rng.normal(
        size=1 << n)
    if case["numbers"][1]:
        ket = ket.reshape((-1, 1))
    if case["numbers"][1] == 2:
        op = csr_matrix(rng.normal(size=(1 << n, 1 << n)))
        return averages.QuantumAverages, [ket, op], []
    return averages.TotalSpinAverages(n), [ket], []


def f_spin_matrix(case, rng):
    ops = [[i, "xyzpm"[(k + s) % 5]] for i, k, s in case["ops"]]
    ops = [tuple(o) for o in ops]
    return (lambda o: SpinInteraction.matrix_function(
        o, 3, to_number(case["coeff"]))), [ops], []


def f_lattice_names(case, rng):
    i = case["numbers"][0] + 3 * case["numbers"][1]
    if i < 6:
        size = 2 if case["flag"] else 1
        return (lambda: (lambda o: (o, o.points, o.vectors))(
            lattice_generator(NAMED[i], size))), [], []
    return (lambda: (lambda o: (o, o.points, o.vectors))(
        special_cluster(CLUSTERS[i - 6]))), [], []


FUNCTIONS = {
    "matrix": f_matrix_function, "krylov": f_krylov, "green": f_green,
    "kpath": f_kpath, "rotation": f_rotation, "bases": f_bases,
    "total spin": f_total, "average": f_average,
    "spin matrix": f_spin_matrix, "names": f_lattice_names,
}


@st.composite
def function_case(draw):
    kind = draw(st.sampled_from(sorted(FUNCTIONS) + ["green", "krylov"]))
    case = {"kind": kind, "flag": draw(st.booleans()),
            "numbers": draw(st.lists(st.integers(0, 2), min_size=2,
                                     max_size=2)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "between": draw(st.booleans())}
    if kind in ("matrix", "spin matrix"):
        case["ops"] = draw(st.lists(st.tuples(
            st.integers(0, 2), st.integers(0, 1), st.integers(0, 1)).map(list),
            min_size=1, max_size=4))
        case["coeff"] = draw(coefficients())
    if kind in ("krylov", "green"):
        case["gf"] = draw(gf_case(4))
    return case


def check_function(case, note):
    rng = np.random.default_rng(case["seed"])
    function, args, others = FUNCTIONS[case["kind"]](case, rng)
    what = case["kind"]
    pristine = copy.deepcopy(args)
    before = fp(args), fp(others)
    first = function(*args)
    expect((fp(args), fp(others)) == before,
           "{0}: the call changed its arguments", what)
    keep = fp(first)
    if case["between"]:
        # the result must not follow the arguments
        spoil(args)
        expect(same(fp(first), keep), "{0}: the result shares memory with the "
               "arguments", what)
        args = copy.deepcopy(pristine)
        note("arguments changed")
    n = spoil(first)
    expect(fp(args) == before[0],
           "{0}: the arguments share memory with the result", what)
    second = function(*args)
    expect(same(fp(second), keep),
           "{0}: a second call gives another result", what)
    third = function(*copy.deepcopy(pristine))
    expect(same(fp(third), keep), "{0}: equal arguments give another result",
           what)
    constants_untouched(what)
    note(what)
    if n:
        note("result changed")
    return n > 0


SUBS = [
    Sub("object", object_case, check_object, 8000, 100000, shards=6),
    Sub("function", function_case, check_function, 4000, 60000, shards=3),
]
