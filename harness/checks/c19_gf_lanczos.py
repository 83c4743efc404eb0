"""C19: Green functions from Lanczos projections."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from oracles import krylov
from checks.c18_gf_exact import verify_many
from checks.green import Lehmann, excited, frequencies, gf_case, keywords, \
    many_case, operators, stored, tolerance
from HamiltonianPy import GreenFunction as gf
from HamiltonianPy.lanczos import MultiKrylov

PROPERTY = "C19"
SCALE = 5
RULE = (
    "A case is a Hermitian matrix with well-separated eigenvalues (up to 7 "
    "rows, or up to 100 with a Krylov space of up to 12), excited "
    "states, a reference energy, frequencies, broadening, sign and layout; the "
    "projections come from the library or from the harness's own fully "
    "re-orthogonalised Krylov spaces. Non-trivial: dimension 2 or more and at "
    "least one frequency.")
ASSUMPTIONS = [
    "only inputs on which the bare three-term recurrence is accurate to 1e-9 "
    "(decided by the harness's own copy) and, except where the space is cut, "
    "exhausts the Krylov space; the others are counted as 'unstable'",
    "results compared to 1e-8 relative to |A||B|/eta",
]


@st.composite
def lanczos_case(draw, base=gf_case):
    case = draw(base(7))
    case["source"] = draw(st.sampled_from(["library", "harness"]))
    case["dim"] = draw(st.sampled_from([None, "n", "more"]))
    # excited states inside an invariant subspace: the space is exhausted early
    case["support"] = draw(st.sampled_from(
        ["all", "all", "some", "balanced"]))
    case["minimal"] = draw(st.booleans())
    return case


@st.composite
def truncated_case(draw):
    """The Krylov space is smaller than what the start vector generates."""
    case = draw(lanczos_case())
    case["n"] = draw(st.sampled_from([8, 4, 15, 40, 100]))
    case["support"] = "all"
    case["dim"] = draw(st.integers(1, min(case["n"] - 1, 12)))
    return case


class Projected:
    """Resolvents of the projected matrices in the spaces of the kets."""

    def __init__(self, refs, states, GE, eta):
        self.refs, self.states, self.GE = refs, states, GE
        self.eta = 0.01 if eta is None else eta
        self.eigen = {k: np.linalg.eigh(T) for k, (_, T) in refs.items()}

    def plain(self, bra, ket, omega, sign):
        Q = self.refs[ket][0]
        values, U = self.eigen[ket]
        left = U.conj().T @ (Q.conj().T @ self.states[bra])
        right = U.conj().T @ (Q.conj().T @ self.states[ket])
        z = omega + 1j * self.eta
        e = values - self.GE
        return np.sum(left.conj() * right / (z + e if sign == "+" else z - e))

    def function(self, _, A, B, omega, sign, retarded):
        sign = "+" if sign is None else sign
        if not retarded:
            return self.plain(A.dagger(), B, omega, sign)
        one = self.plain(A.dagger(), B, omega, "-")
        two = self.plain(B.dagger(), A, omega, "+")
        return one + two if sign == "+" else one - two


def needed(As, Bs, pms, pvs, retarded):
    """Only the projections the documentation asks for."""
    pairs = [(A, B) for A in As for B in Bs]
    if retarded:
        pairs += [(B, A) for A, B in pairs]
    ms, vs = {}, {}
    for A, B in pairs:
        ms[B] = pms[B]
        vs.setdefault(B, {})[B] = pvs[B][B]
        vs[B][A.dagger()] = pvs[B][A.dagger()]
    return ms, vs


def check(case, note):
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    values = np.cumsum(rng.uniform(0.4, 1.5, size=n)) - 3
    if case["support"] == "balanced":
        values = (values - values[::-1]) / 2 + 0.25
    a = rng.normal(size=(n, n))
    if case["complex"]:
        a = a + 1j * rng.normal(size=(n, n))
    U, _ = np.linalg.qr(a)
    H = (U * values) @ U.conj().T
    H = (H + H.conj().T) / 2
    As, Bs = operators(case)
    states = excited(rng, n, list(As) + list(Bs), case["states"])
    if case["support"] == "some":
        for k, v in states.items():
            keep = rng.random(n) < 0.6
            keep[rng.integers(n)] = True
            c = (U.conj().T @ v) * keep
            states[k] = U @ c
    elif case["support"] == "balanced":
        # the projected matrices agree in their first element and trace
        for k, v in states.items():
            c = U.conj().T @ v
            states[k] = U @ (c + c[::-1])
    dim = {None: 200, "n": n, "more": n + 5}.get(case["dim"], case["dim"])
    cut = isinstance(case["dim"], int)
    refs = {}
    for key, v in states.items():
        if np.linalg.norm(v) < 1e-2:
            note("zero state")
            return False
        ref = krylov.stable(H, v, dim, 1e-4)
        if ref is not None and not cut:
            Q = ref[0]
            rest = H @ Q - Q @ (Q.conj().T @ (H @ Q))
            if np.max(np.abs(rest)) > 1e-8:
                ref = None
        if ref is None:
            note("unstable")
            return False
        refs[key] = ref
    if case["source"] == "library":
        kw = {} if case["dim"] is None else {"krylov_space_dim": dim}
        pms, pvs = MultiKrylov(H, states, **kw)
    else:
        pms = {k: stored(np.ascontiguousarray(r[1].real), case.get("layout"))
               for k, r in refs.items()}
        pvs = {k: {key: r[0].conj().T @ v for key, v in states.items()}
               for k, r in refs.items()}
    if case["minimal"]:
        pms, pvs = needed(As, Bs, pms, pvs, case["retarded"])
    keep_m = {k: m.copy() for k, m in pms.items()}
    keep_v = {k: {key: v.copy() for key, v in d.items()}
              for k, d in pvs.items()}
    retarded = case["retarded"]
    single = (gf.RGFSolverLanczosSingle if retarded
              else gf.GFSolverLanczosSingle)
    many = (gf.RGFSolverLanczosMultiple if retarded
            else gf.GFSolverLanczosMultiple)
    if cut:
        lehmann = Projected(refs, states, case["GE"], case["eta"])
    else:
        lehmann = Lehmann(values, U, case["GE"], case["eta"])
    tol = tolerance(states, case["eta"], 1e-8)
    kw = keywords(case)
    what = "{0} {1}".format(many.__name__, case)

    def value(A, B, k):
        return lehmann.function(states, A, B, points[k], case["sign"],
                                retarded)

    A, B = As[-1], Bs[0]
    points, omegas = frequencies(case)
    given = omegas.copy()
    for k, omega in enumerate(points):
        got = single(omega, A, B, case["GE"], pms, pvs, **kw)
        want = value(A, B, k)
        expect(np.ndim(got) == 0 and abs(got - want) <= tol,
               "{0} {1} omega={2}: {3} instead of {4}", single.__name__, case,
               omega, got, want)
    if case["structure"] is not None:
        kw["structure"] = case["structure"]
    got = many(omegas, As, Bs, case["GE"], pms, pvs, **kw)
    verify_many(got, case, points, As, Bs, value, tol, what)
    expect(set(pms) == set(keep_m) and all(
        np.array_equal(pms[k], keep_m[k]) for k in keep_m) and all(
        np.array_equal(pvs[k][key], v)
        for k, d in keep_v.items() for key, v in d.items()),
        "{0}: projections modified", what)
    expect(np.array_equal(omegas, given),
           "{0}: frequencies modified", what)
    note(case["source"])
    note("retarded" if retarded else "plain")
    note("sign {0}".format(case["sign"]))
    note("layout {0}".format(case["structure"]))
    return n > 1 and bool(case["omegas"])


SUBS = [
    Sub("lanczos", lanczos_case, check, 1500, 40000, shards=8),
    Sub("many", lambda: lanczos_case(many_case), check, 300, 6000, shards=2),
    Sub("truncated", truncated_case, check, 800, 20000, shards=4),
]
