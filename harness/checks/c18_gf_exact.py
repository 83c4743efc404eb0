"""C18: Green functions from the whole Hamiltonian matrix."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from checks.green import Lehmann, excited, frequencies, gf_case, keywords, \
    many_case, operators, stored, tolerance
from HamiltonianPy import GreenFunction as gf

PROPERTY = "C18"
SCALE = 5
RULE = (
    "A case is a Hermitian matrix with known eigenvectors (possibly "
    "degenerate), a reference energy, lists of operators with arbitrary "
    "excited states, frequencies, broadening, sign and layout, for the plain "
    "or the retarded function. Non-trivial: dimension 2 or more and at least "
    "one frequency.")
ASSUMPTIONS = ["results compared to 1e-9 relative to |A||B|/eta"]


def spectrum(case):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    values = rng.choice([-2.0, -1.0, 0.0, 0.5, 1.0, 3.0], size=n)
    if case["seed"] % 3:
        values = rng.normal(size=n) * 3
    a = rng.normal(size=(n, n))
    if case["complex"]:
        a = a + 1j * rng.normal(size=(n, n))
    U, _ = np.linalg.qr(a)
    if case["seed"] % 5 == 0:
        U = np.identity(n)
    H = (U * values) @ U.conj().T
    return rng, values, U, (H + H.conj().T) / 2


def verify_many(got, case, omegas, As, Bs, value, tol, what):
    """value(A, B, i) is the right answer for the i-th frequency."""
    shape = (len(As), len(Bs), len(omegas))
    if case["structure"] == "dict":
        expect(isinstance(got, dict), "{0}: {1}", what, type(got))
        expect(set(got) == {(A, B) for A in As for B in Bs},
               "{0}: keys {1}", what, list(got))
        get = lambda i, j: got[(As[i], Bs[j])]
    else:
        expect(isinstance(got, np.ndarray) and got.shape == shape,
               "{0}: {1}", what, getattr(got, "shape", type(got)))
        get = lambda i, j: got[i, j]
    for i, A in enumerate(As):
        for j, B in enumerate(Bs):
            row = get(i, j)
            expect(isinstance(row, np.ndarray)
                   and row.shape == (len(omegas),), "{0}: entry {1},{2}: {3}",
                   what, i, j, getattr(row, "shape", type(row)))
            for k in range(len(omegas)):
                want = value(A, B, k)
                expect(abs(row[k] - want) <= tol,
                       "{0}: A={1!r} B={2!r} omega={3}: {4} instead of {5}",
                       what, A, B, omegas[k], row[k], want)


def check(case, note):
    rng, values, U, H = spectrum(case)
    As, Bs = operators(case)
    states = excited(rng, case["n"], list(As) + list(Bs), case["states"])
    copies = {k: v.copy() for k, v in states.items()}
    Hcopy = H.copy()
    H = stored(H, case.get("layout"))
    points, omegas = frequencies(case)
    given = omegas.copy()
    lehmann = Lehmann(values, U, case["GE"], case["eta"])
    tol = tolerance(states, case["eta"], 1e-9)
    retarded = case["retarded"]
    single = gf.RGFSolverExactSingle if retarded else gf.GFSolverExactSingle
    many = gf.RGFSolverExactMultiple if retarded else gf.GFSolverExactMultiple
    kw = keywords(case)
    what = "{0} {1}".format(many.__name__, case)

    def value(A, B, k):
        return lehmann.function(states, A, B, points[k], case["sign"],
                                retarded)

    A, B = As[-1], Bs[0]
    for k, omega in enumerate(points):
        got = single(omega, A, B, case["GE"], H, states, **kw)
        want = value(A, B, k)
        expect(np.ndim(got) == 0 and abs(got - want) <= tol,
               "{0} {1} omega={2}: {3} instead of {4}", single.__name__, case,
               omega, got, want)
    kw2 = dict(kw)
    if case["structure"] is not None:
        kw2["structure"] = case["structure"]
    got = many(omegas, As, Bs, case["GE"], H, states, **kw2)
    verify_many(got, case, points, As, Bs, value, tol, what)
    expect(np.array_equal(H, Hcopy), "{0}: matrix modified", what)
    expect(set(states) == set(copies) and all(
        np.array_equal(states[k], copies[k]) for k in copies),
        "{0}: excited states modified", what)
    expect(np.array_equal(omegas, given),
           "{0}: frequencies modified", what)
    note("retarded" if retarded else "plain")
    note("sign {0}".format(case["sign"]))
    note("layout {0}".format(case["structure"]))
    return case["n"] > 1 and bool(case["omegas"])


@st.composite
def large_case(draw):
    case = draw(gf_case(1))
    case["n"] = draw(st.sampled_from([40, 13, 20, 80, 30]))
    count = draw(st.sampled_from([60, 7, 300]))
    case["omegas"] = draw(st.sampled_from([
        np.linspace(-5, 5, count).tolist(), np.linspace(4, -4, count).tolist(),
        [0.25] * count]))
    return case


SUBS = [
    Sub("exact", lambda: gf_case(12), check, 1500, 40000, shards=8),
    Sub("many", lambda: many_case(8), check, 300, 6000, shards=2),
    Sub("large", large_case, check, 40, 1000, shards=4),
]
