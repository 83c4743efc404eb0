"""Operators, spectra and Lehmann sums for the Green-function checks."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from HamiltonianPy.quantumoperator import AoC, SpinOperator

OPERATORS = [
    AoC(otype, site=site, spin=spin, orbit=orbit)
    for otype, site, spin, orbit in itertools.product(
        (0, 1), ([0.0, 0.0], [0.5, 1.0]), (0, 1), (0,))
] + [
    SpinOperator(otype, [0.0, 1.0]) for otype in "xyzpm"
]


@st.composite
def gf_case(draw, top):
    n = draw(st.integers(1, top))
    ops = st.lists(st.integers(0, len(OPERATORS) - 1), min_size=1, max_size=3)
    value = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.5, -0.3]),
                      st.floats(-6, 6, allow_nan=False))
    return {
        "n": n, "seed": draw(st.integers(0, 10 ** 6)),
        "complex": draw(st.booleans()),
        "states": draw(st.sampled_from(["real", "complex", "int", "mixed"])),
        "As": draw(ops), "Bs": draw(ops),
        "GE": draw(value),
        "omegas": draw(st.lists(value, min_size=0, max_size=4)),
        "eta": draw(st.sampled_from([None, 0.01, 0.05, 0.3, 1.0, 1, -0.2,
                                     0])),
        "sign": draw(st.sampled_from(["+", "-", None])),
        "structure": draw(st.sampled_from(["array", "dict", None])),
        "container": draw(st.sampled_from(["list", "tuple"])),
        "retarded": draw(st.booleans()),
        "layout": draw(st.sampled_from(["C", "C", "F", "strided",
                                        "readonly"])),
        "whole": draw(st.booleans()),
    }


@st.composite
def many_case(draw, top):
    """As many operators as there are."""
    case = draw(gf_case(top))
    every = range(len(OPERATORS))
    case["As"] = list(draw(st.permutations(every)))[:draw(
        st.sampled_from([12, 5, 13, 8, 1]))]
    case["Bs"] = list(draw(st.permutations(every)))[:draw(
        st.sampled_from([13, 9, 11, 6, 2]))]
    return case


def frequencies(case):
    """
    The frequencies of a case; without broadening far from any energy. Also
    as integers where they are.
    """
    omegas = list(case["omegas"])
    if case["eta"] == 0:
        omegas = [w + math.copysign(300, w) for w in omegas]
    array = np.array(omegas, dtype=float)
    if case.get("whole") and omegas and all(w == int(w) for w in omegas):
        array = array.astype(int)
        omegas = [int(w) for w in omegas]
    return omegas, array


def stored(M, layout):
    if layout == "F":
        return np.asfortranarray(M)
    if layout == "strided":
        wide = np.zeros((len(M), 2 * len(M)), dtype=M.dtype)
        wide[:, 1::2] = M
        return wide[:, 1::2]
    if layout == "readonly":
        M = M.copy()
        M.flags.writeable = False
    return M


def operators(case):
    kind = tuple if case["container"] == "tuple" else list
    return (kind(OPERATORS[i] for i in case["As"]),
            kind(OPERATORS[i] for i in case["Bs"]))


def excited(rng, n, ops, kind):
    """Arbitrary vectors labelled by every operator and its conjugate."""
    res = {}
    for op in ops:
        for one in (op, op.dagger()):
            if one in res:
                continue
            if kind == "int":
                v = rng.integers(-3, 4, size=n)
            else:
                v = rng.normal(size=n)
                if kind == "complex" or kind == "mixed" and rng.random() < .5:
                    v = v + 1j * rng.normal(size=n)
            res[one] = v
    return res


def keywords(case):
    return {k: case[k] for k in ("eta", "sign") if case[k] is not None}


class Lehmann:
    def __init__(self, values, vectors, GE, eta):
        self.values = np.asarray(values)
        self.vectors = vectors
        self.GE = GE
        self.eta = 0.01 if eta is None else eta

    def plain(self, left, right, omega, sign):
        """<left| (z +/- (H - GE))^-1 |right>"""
        z = omega + 1j * self.eta
        lo = self.vectors.conj().T @ left
        ro = self.vectors.conj().T @ right
        e = self.values - self.GE
        denominators = z + e if sign == "+" else z - e
        return sum(l.conjugate() * r / d
                   for l, r, d in zip(lo, ro, denominators))

    def function(self, states, A, B, omega, sign, retarded):
        sign = "+" if sign is None else sign
        if not retarded:
            return self.plain(states[A.dagger()], states[B], omega, sign)
        one = self.plain(states[A.dagger()], states[B], omega, "-")
        two = self.plain(states[B.dagger()], states[A], omega, "+")
        return one + two if sign == "+" else one - two


def tolerance(states, eta, rel):
    eta = 0.01 if eta is None else abs(eta) or 1.0
    big = max(1.0, *(float(np.linalg.norm(v)) for v in states.values()))
    return rel * big * big / min(1.0, eta)
