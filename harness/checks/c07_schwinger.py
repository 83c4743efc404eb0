"""C07: the Schwinger-fermion form of spin operators and interactions."""

from functools import reduce

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from oracles import fock, spin as ref
from checks.common import (
    as_np, coefficients, expect_close, near, site_lists, to_number)
from HamiltonianPy import (
    AoC, IndexTable, NumberOperator, ParticleTerm, SiteID, SpinInteraction,
    SpinOperator, StateID, base_vectors)

PROPERTY = "C07"
SCALE = 5
RULE = (
    "A case is 1..4 distinct sites, permutations that give the bit order of "
    "the 2n fermion states and the order of the spin sites, and 1..4 spin "
    "operators with repeated sites. Non-trivial: at least two operators.")
ASSUMPTIONS = [
    "the Schwinger form of an interaction without operators (a bare number) "
    "is outside the statement",
]
TYPES = "xyzpm"


@st.composite
def case_strategy(draw):
    n = draw(st.sampled_from([2, 3, 1, 4]))
    sites = draw(site_lists(n, n))
    n = len(sites)
    length = draw(st.sampled_from([2, 1, 3, 4]))
    if length <= n and draw(st.booleans()):
        where = draw(st.permutations(range(n)))[:length]
    else:
        where = draw(st.lists(st.integers(0, n - 1), min_size=length,
                              max_size=length))
    return {"sites": sites, "forder": draw(st.permutations(range(2 * n))),
            "sorder": draw(st.permutations(range(n))),
            "ops": [[i, draw(st.sampled_from(TYPES))] for i in where],
            "coeff": draw(coefficients(zero=True, wide=True)),
            "near": draw(st.integers(0, 3)),
            "basis": draw(st.sampled_from(["single", "full"]))}


def total(terms, table, bases):
    dim = len(bases)
    res = np.zeros((dim, dim), dtype=complex)
    for term in terms:
        expect(isinstance(term, ParticleTerm), "a term is a {0}", type(term))
        res += term.matrix_repr(table, bases).toarray()
    return res


def check(case, note):
    sites = case["sites"]
    n = len(sites)
    # state 2 i + s is (site i, spin s)
    states = [StateID(site=sites[k // 2], spin=k % 2) for k in range(2 * n)]
    table = IndexTable([states[k] for k in case["forder"]])
    bit = {k: case["forder"].index(k) for k in range(2 * n)}
    stable = IndexTable([SiteID(sites[i]) for i in case["sorder"]])
    index = [case["sorder"].index(i) for i in range(n)]
    ops = [SpinOperator(t, site=near(sites[i], k * case.get("near", 0)))
           for k, (i, t) in enumerate(case["ops"])]
    coeff = to_number(case["coeff"])
    term = SpinInteraction(ops, coeff=as_np(case["coeff"]))
    forms = [op.Schwinger() for op in ops]
    whole = term.Schwinger()
    for x in [y for f in forms for y in f] + list(whole):
        expect(isinstance(x, ParticleTerm), "a term is a {0}", type(x))
        for aoc in x.components:
            expect(aoc.spin in (0, 1) and aoc.orbit == 0,
                   "unexpected state {0}", aoc)
    for form, op in zip(forms, ops):
        expect(all(tuple(a.coordinate) == tuple(op.coordinate)
                   for x in form for a in x.components),
               "other sites than {0}", op)

    if case["basis"] == "full":
        bases = base_vectors((tuple(range(2 * n)), -1))
        mats = [total(f, table, bases) for f in forms]
        kets = [int(k) for k in bases]
        eye = np.identity(len(kets))
        for m, (i, t) in zip(mats, case["ops"]):
            up, down = bit[2 * i + 1], bit[2 * i]
            p = [[(up, 1), (down, 0)]]
            q = [[(down, 1), (up, 0)]]
            want = {
                "p": [(1, p[0])], "m": [(1, q[0])],
                "x": [(0.5, p[0]), (0.5, q[0])],
                "y": [(-0.5j, p[0]), (0.5j, q[0])],
                "z": [(0.5, [(up, 1), (up, 0)]),
                      (-0.5, [(down, 1), (down, 0)])],
            }[t]
            expect_close(m, fock.dense(want, kets), "fermion form of S" + t)
        want = coeff * reduce(np.matmul, mats, eye)
        expect_close(total(whole, table, bases), want,
                     "fermion form of {0}".format(term),
                     floor=abs(coeff) or 1.0)
        note("full")
    else:
        groups = [((bit[2 * i], bit[2 * i + 1]), 1) for i in range(n)]
        bases = base_vectors(*groups)
        expect(len(bases) == 1 << n, "sector has {0} states", len(bases))
        # spin basis state of every ket: bit index(site) is 0 for spin up; the
        # state |s1 s2 ...> is c+_(1 s1) c+_(2 s2) ... |vacuum>, so that a ket
        # stands for it up to the sign of bringing these creators in bit order
        rows = []
        signs = []
        for ket in bases:
            ket = int(ket)
            s = 0
            for i in range(n):
                if (ket >> bit[2 * i]) & 1:
                    s |= 1 << index[i]
            rows.append(s)
            made = fock.apply_string(
                [(bit[2 * i] if (ket >> bit[2 * i]) & 1 else bit[2 * i + 1], 1)
                 for i in range(n)], 0)
            expect(made is not None and made[1] == ket, "ket {0}", ket)
            signs.append(made[0])
        pick = np.ix_(rows, rows)
        gauge = np.outer(signs, signs)
        for f, op, (i, t) in zip(forms, ops, case["ops"]):
            m = gauge * total(f, table, bases)
            expect_close(m, op.matrix_repr(stable).toarray()[pick],
                         "singly occupied sector of {0}".format(op))
            expect_close(m, ref.dense([(1, [(index[i], t)])], n)[pick],
                         "singly occupied sector of S{0}".format(t))
        m = gauge * total(whole, table, bases)
        want = coeff * ref.dense(
            [(1, [(index[i], t) for i, t in case["ops"]])], n)
        expect_close(m, want[pick],
                     "singly occupied sector of {0}".format(term),
                     floor=abs(coeff) or 1.0)
        expect_close(m, term.matrix_repr(stable).toarray()[pick],
                     "spin and fermion matrices of {0}".format(term),
                     floor=abs(coeff) or 1.0)
        note("singly occupied")
    note("length {0}".format(len(ops)))
    if len({i for i, _ in case["ops"]}) < len(ops):
        note("repeated site")
    return len(ops) > 1


SUBS = [Sub("schwinger", case_strategy, check, 600, 12000, shards=4)]
