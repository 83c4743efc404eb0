"""C24: averages over states, total-spin matrices and total-spin averages."""

import functools

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csc_matrix, csr_matrix, issparse

from core import Sub, expect, raises
from oracles import spin as ref
from checks import large
from checks.common import as_np, coefficients, expect_close, to_number, toarray
from HamiltonianPy import SpinOperator
from HamiltonianPy.averages import (
    QuantumAverages, TotalSpinAverages, TotalSpinMatrices)
from HamiltonianPy.tools.TotalSpin import TotalSpin

PROPERTY = "C24"
RULE = (
    "A case is a number of spins, or a sequence of real or complex states of "
    "1..12 spins (generated, polarised, products of singlets, single basis "
    "states) with a scale and a phase, as vectors or columns, or a sparse "
    "operator of any size with a state. Non-trivial: a state with at least "
    "two components that is not real and positive, of at least two spins.")
ASSUMPTIONS = [
    "states are not zero",
    "a scaled state gives the same averages up to 1e-10",
    "averages with components of uneven sizes up to 1e-9 of the sum of the "
    "absolute values of their terms",
]


@functools.lru_cache(maxsize=None)
def total(n):
    return {t: ref.dense([(1, [(i, t)]) for i in range(n)], n)
            for t in "xyz"}


@st.composite
def matrices_case(draw):
    return {"n": draw(st.integers(1, 7)), "bad": draw(st.sampled_from(
        [0, -1, 2.0, "3", None, -7, 1.5]))}


def check_matrices(case, note):
    n = case["n"]
    want = total(n)
    want = (want["x"], want["y"].imag, want["z"])
    sums = []
    for t in "xyz":
        acc = sum(SpinOperator.matrix_function((i, t), n) for i in range(n))
        acc = toarray(acc)
        sums.append(acc.imag if t == "y" else acc.real)
    for name, function in (("TotalSpinMatrices", TotalSpinMatrices),
                           ("TotalSpin", TotalSpin)):
        got = function(n)
        expect(len(got) == 3, "{0}({1}): {2} matrices", name, n, len(got))
        for which, g, w, s in zip("xyz", got, want, sums):
            what = "{0}({1}): {2} matrix".format(name, n, which)
            expect(issparse(g) and g.format == "csr", "{0}: {1}", what,
                   type(g))
            expect_close(g, w, what, 1e-14)
            expect_close(g, s, what + " and the sum of spin operators", 1e-14)
        sx, sy, sz = map(toarray, got)
        expect_close(sx @ (1j * sy) - (1j * sy) @ sx, 1j * sz,
                     "{0}({1}): [Sx, Sy]".format(name, n), 1e-13)
        with raises(AssertionError, "{0}({1!r})".format(name, case["bad"])):
            function(case["bad"])
    note("{0} spins".format(n))
    return n > 1


@st.composite
def ket_strategy(draw, dim):
    real = draw(st.booleans())
    entry = (st.sampled_from([0, 1, -1, 2, 0.5, -0.25, 3.5, 0.1]) if real
             else coefficients(zero=True))
    kind = draw(st.sampled_from(["dense", "dense", "basis", "sparse",
                                 "whole"]))
    if kind == "whole":
        entry = st.sampled_from(draw(st.sampled_from(
            [[1], [0, 1], [1, 100, 0], [-3, 100, 2, -127], [16, 0]])))
    if kind == "basis":
        picks = [[draw(st.integers(0, dim - 1)), draw(entry)]]
    elif kind == "sparse":
        picks = [[i, draw(entry)] for i in draw(st.lists(
            st.integers(0, dim - 1), min_size=1, max_size=4, unique=True))]
    else:
        values = draw(st.lists(entry, min_size=min(dim, 8),
                               max_size=min(dim, 8)))
        picks = [[i, values[(i * 5 + i // 8) % len(values)]]
                 for i in range(dim)]
    if not any(to_number(v) for _, v in picks):
        picks[0][1] = 1
    return picks


SHAPES = st.sampled_from(["vector", "column", "vector", "strided"])
DTYPES = st.sampled_from(["own", "own", "complex", "int", "int8", "uint8",
                          "uint16", "bool"])


def build_ket(picks, dim, scale=1, shape="vector", dtype="own"):
    values = [to_number(v) for _, v in picks]
    if any(isinstance(v, complex) for v in values) or dtype == "complex":
        kind = complex
    elif dtype == "bool" and set(values) == {1}:
        kind = bool
    elif (dtype in ("int", "int8", "uint8", "uint16")
          and all(v == int(v) for v in values)
          and (dtype[0] == "i" or min(values) >= 0)):
        kind = getattr(np, dtype, int)
    else:
        kind = float
    ket = np.zeros(dim, dtype=kind)
    for (i, _), v in zip(picks, values):
        ket[i] = v
    if scale != 1:
        ket = ket * scale
    if shape == "column":
        return ket.reshape((-1, 1))
    if shape == "strided":
        wide = np.zeros(2 * dim, dtype=ket.dtype)
        wide[::2] = ket
        return wide[::2]
    return ket


SCALES = st.sampled_from([1, 1, 2.5, -1, [0, 1], [0.6, -0.8], 1e-3, [0, -40],
                          1e-9, 1e6, "unit", "nearly", "nearly"])


def scaled_ket(picks, dim, scale, shape, dtype="own"):
    """Also with a norm of one, or close to one."""
    if isinstance(scale, str):
        ket = build_ket(picks, dim)
        factor = 1 / np.linalg.norm(ket)
        if scale == "nearly":
            factor *= 1.0005 if len(picks) % 2 else 0.9993
        return build_ket(picks, dim, factor, shape, dtype)
    return build_ket(picks, dim, to_number(scale), shape, dtype)


@st.composite
def spin_case(draw):
    n = draw(st.sampled_from([2, 3, 4, 1, 5, 6, 7]))
    kets = []
    for _ in range(draw(st.integers(1, 3))):
        special = draw(st.sampled_from(
            ["generated", "generated", "singlets", "tilted"]))
        if special == "generated":
            what = draw(ket_strategy(1 << n))
        elif special == "singlets":
            what = draw(st.permutations(range(n)))
        else:
            what = [draw(st.sampled_from([0, 30, 45, 90, 120, 180])),
                    draw(st.sampled_from([0, 45, 90, 200, 300]))]
        kets.append({"special": special, "what": what,
                     "scale": draw(SCALES), "shape": draw(SHAPES),
                     "dtype": draw(DTYPES)})
    return {"n": n, "kets": kets}


def special_ket(n, special, what):
    """-> picks, and the known averages when they are."""
    known = None
    if special == "singlets":
        # pairs of singlets; an odd spin left over points up
        pairs = [what[2 * k:2 * k + 2] for k in range(n // 2)]
        amps = {0: 1}
        for i, j in pairs:
            amps = {s | (1 << k): a * sign for s, a in amps.items()
                    for k, sign in ((j, 1), (i, -1))}
        known = (0.75, 0, 0, 0.5) if n % 2 else (0, 0, 0, 0)
        return [[s, a] for s, a in amps.items()], known
    theta, phi = np.radians(what)
    single = np.array([np.cos(theta / 2),
                       np.exp(1j * phi) * np.sin(theta / 2)])
    vec = np.array([1.0])
    for _ in range(n):
        vec = np.kron(single, vec)
    known = (n / 2 * (n / 2 + 1), n / 2 * np.sin(theta) * np.cos(phi),
             n / 2 * np.sin(theta) * np.sin(phi), n / 2 * np.cos(theta))
    return [[s, [float(a.real), float(a.imag)]]
            for s, a in enumerate(vec)], known


def check_spin(case, note):
    n = case["n"]
    calculator = TotalSpinAverages(n)
    s = total(n)
    s2 = sum(m @ m for m in s.values())
    nontrivial = False
    for item in case["kets"]:
        picks, known = item["what"], None
        if item["special"] != "generated":
            picks, known = special_ket(n, item["special"], item["what"])
        ket = scaled_ket(picks, 1 << n, item["scale"], item["shape"],
                         item["dtype"])
        before = ket.copy()
        got = calculator(ket)
        what = "averages of {0} spins in {1}".format(n, ket.ravel()[:8])
        expect(np.array_equal(ket, before) and ket.dtype == before.dtype,
               "{0}: the state was changed", what)
        flat = np.asarray(ket, dtype=complex).ravel()
        flat = flat / np.linalg.norm(flat)
        want = [np.vdot(flat, m @ flat)
                for m in (s2, s["x"], s["y"], s["z"])]
        expect(len(got) == 4, "{0}: {1} values", what, len(got))
        for name, g, w in zip(("S^2", "Sx", "Sy", "Sz"), got, want):
            expect_close(np.asarray(g), np.asarray(w),
                         "{0}: {1}".format(what, name))
        if known is not None:
            expect_close(np.array([complex(g) for g in got]),
                         np.array(known, dtype=complex),
                         "{0}: known values".format(what))
        vector = np.asarray(ket).ravel()
        for g, m in zip(got[1:], (s["x"], s["y"], s["z"])):
            expect_close(np.asarray(QuantumAverages(vector, csr_matrix(m))),
                         np.asarray(g),
                         "{0}: QuantumAverages".format(what))
        note(item["special"])
        note(item["shape"])
        nontrivial |= n > 1 and np.count_nonzero(flat) > 1 and bool(
            np.any(flat.imag) or np.any(flat.real < 0))
    note("{0} spins".format(n))
    return nontrivial


@st.composite
def operator_case(draw):
    dim = draw(st.integers(1, 9))
    entries = draw(st.dictionaries(
        st.tuples(st.integers(0, dim - 1), st.integers(0, dim - 1)),
        coefficients(), max_size=16))
    return {"dim": dim, "entries": [[i, j, v] for (i, j), v
                                    in entries.items()],
            "ket": draw(ket_strategy(dim)), "scale": draw(SCALES),
            "shape": draw(SHAPES), "dtype": draw(DTYPES),
            "form": draw(st.sampled_from(["csr", "csr", "csc", "dense"])),
            "np": draw(st.booleans())}


def check_operator(case, note):
    dim = case["dim"]
    dense = np.zeros((dim, dim), dtype=complex)
    for i, j, v in case["entries"]:
        dense[i, j] = as_np(v, "np" if case["np"] else "")
    if not np.any(dense.imag):
        dense = dense.real.copy()
        note("real operator")
    operator = {"csr": csr_matrix, "csc": csc_matrix,
                "dense": np.array}[case["form"]](dense)
    ket = scaled_ket(case["ket"], dim, case["scale"], case["shape"],
                     case["dtype"])
    before = ket.copy()
    got = QuantumAverages(ket, operator)
    flat = np.asarray(ket, dtype=complex).ravel()
    flat = flat / np.linalg.norm(flat)
    want = sum(np.conj(flat[i]) * dense[i, j] * flat[j]
               for i in range(dim) for j in range(dim))
    expect(np.ndim(got) == 0, "QuantumAverages is not a number: {0}", got)
    expect_close(np.asarray(got), np.asarray(want),
                 "QuantumAverages({0}, {1})".format(flat, dense.tolist()))
    expect(np.array_equal(before, ket)
           and np.array_equal(toarray(operator), dense),
           "QuantumAverages changed its arguments")
    expect_close(np.asarray(QuantumAverages(ket, csr_matrix(np.eye(dim)))),
                 np.asarray(1.0), "average of the identity")
    hermitian = not np.any(dense - dense.conj().T)
    note("hermitian" if hermitian else "not hermitian")
    return np.count_nonzero(flat) > 1 and not hermitian


@st.composite
def uneven_case(draw):
    return {"dim": draw(st.one_of(st.integers(1, 12), st.sampled_from(
                [64, 65, 100, 128, 200, 1000]))),
            "seed": draw(st.integers(0, 10 ** 6)),
            "low": draw(st.sampled_from([-3, -6, -10, -13])),
            "elements": draw(st.integers(1, 12)),
            "complex": draw(st.booleans()),
            "balanced": draw(st.integers(0, 4)) > 0,
            "form": draw(st.sampled_from(["csr", "csc", "dense"]))}


def check_uneven(case, note):
    """States and operators with components of very different sizes."""
    rng = np.random.default_rng(case["seed"])
    dim = case["dim"]
    sizes = 10.0 ** rng.uniform(case["low"], 0, size=dim)
    ket = sizes * rng.uniform(0.3, 1, size=dim) * rng.choice([-1, 1], size=dim)
    if case["complex"]:
        ket = ket * np.exp(1j * rng.uniform(0, 6.28, size=dim))
    dense = np.zeros((dim, dim), dtype=ket.dtype)
    small = np.argsort(sizes)[:max(2, dim // 4)]
    for _ in range(case["elements"]):
        i = rng.choice(small) if rng.random() < 0.6 else rng.integers(dim)
        j = rng.choice(small) if rng.random() < 0.6 else rng.integers(dim)
        dense[i, j] = rng.uniform(-1, 1)
        if case["balanced"]:
            # as much of the average as any other element
            dense[i, j] /= sizes[i] * sizes[j]
    operator = {"csr": csr_matrix, "csc": csc_matrix,
                "dense": np.array}[case["form"]](dense)
    before = ket.copy()
    got = QuantumAverages(ket, operator)
    terms = [np.conj(ket[i]) * dense[i, j] * ket[j]
             for i, j in zip(*np.nonzero(dense))]
    norm = float(np.sum(np.abs(ket) ** 2))
    want = sum(terms) / norm
    room = sum(abs(t) for t in terms) / norm
    expect(abs(got - want) <= 1e-9 * room,
           "QuantumAverages {0}: {1} instead of {2}", case, got, want)
    expect(np.array_equal(before, ket), "the state was changed")
    note("dimension above 64" if dim > 64 else "small")
    return dim > 1 and case["balanced"]


@st.composite
def large_case(draw):
    return {"n": draw(st.sampled_from([8, 10, 9, 12])),
            "seed": draw(st.integers(0, 10 ** 6)),
            "kind": draw(st.sampled_from(["complex", "real", "few",
                                          "singlets"])),
            "scale": draw(SCALES), "shape": draw(SHAPES)}


def raised(ket, n, which):
    res = np.zeros(len(ket), dtype=complex)
    for i in range(n):
        _, amp, row = large.spin_elements([(i, which)], n)
        res[row] += amp * ket
    return res


def check_large(case, note):
    """8 to 12 spins; sums of one-spin operators applied by bit moves."""
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    dim = 1 << n
    if case["kind"] == "singlets":
        picks, _ = special_ket(n, "singlets", rng.permutation(n).tolist())
    else:
        v = rng.normal(size=dim) + 0j
        if case["kind"] != "real":
            v = v + 1j * rng.normal(size=dim)
        if case["kind"] == "few":
            v = v * (rng.random(dim) < 0.01)
            v[rng.integers(dim)] = 1
        if case["kind"] == "real":
            picks = [[i, float(x.real)] for i, x in enumerate(v)]
        else:
            picks = [[i, [float(x.real), float(x.imag)]]
                     for i, x in enumerate(v)]
    ket = scaled_ket(picks, dim, case["scale"], case["shape"])
    before = ket.copy()
    got = TotalSpinAverages(n)(ket)
    expect(np.array_equal(ket, before), "the state was changed")
    flat = np.asarray(ket, dtype=complex).ravel()
    flat = flat / np.linalg.norm(flat)
    images = [raised(flat, n, which) for which in "xyz"]
    want = [sum(np.vdot(v, v).real for v in images)]
    want += [np.vdot(flat, v) for v in images]
    what = "averages of {0} spins, {1}".format(n, case)
    for name, g, w in zip(("S^2", "Sx", "Sy", "Sz"), got, want):
        expect_close(np.asarray(g), np.asarray(w),
                     "{0}: {1}".format(what, name), 1e-9)
    matrices = TotalSpinMatrices(n)
    for which, g, factor in zip("xyz", matrices, (1, 1j, 1)):
        image = factor * (g @ flat)
        off = np.abs(image - images["xyz".index(which)]).max()
        expect(g.shape == (dim, dim) and off < 1e-12,
               "TotalSpinMatrices({0}): {1} matrix off by {2}", n, which, off)
    note("{0} spins".format(n))
    note(case["kind"])
    return True


SUBS = [
    Sub("large", large_case, check_large, 24, 300, shards=4),
    Sub("matrices", matrices_case, check_matrices, 40, 60),
    Sub("spin", spin_case, check_spin, 1200, 20000, shards=4),
    Sub("operator", operator_case, check_operator, 2500, 50000, shards=3),
    Sub("uneven", uneven_case, check_uneven, 1500, 30000, shards=3),
]
