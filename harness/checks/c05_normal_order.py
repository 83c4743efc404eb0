"""C05: normal ordering of creation and annihilation operators."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from oracles import fock
from checks.common import (
    SPELLINGS, expect_close, identity, near, spelled, state_lists)
from HamiltonianPy import (
    AoC, IndexTable, ParticleTerm, StateID, base_vectors)
from HamiltonianPy.quantumoperator.particlesystem import SwapFermionError

PROPERTY = "C05"
RULE = (
    "A case is up to 5 states, and a sequence of up to 9 operators on them "
    "(indices with repeats, list or tuple). About half the sequences are made "
    "orderable by construction. Non-trivial: the sequence is not already "
    "ordered.")
ASSUMPTIONS = [
    "the matrices used to decide the sign come from the independent Fock "
    "reference and, where all states fit, from the code under test",
]


@st.composite
def case_strategy(draw):
    n = draw(st.sampled_from([4, 5, 3, 2, 1]))
    states = draw(state_lists(n, n))
    n = len(states)
    op = st.tuples(st.integers(0, n - 1), st.integers(0, 1)).map(list)
    length = draw(st.sampled_from([4, 6, 3, 5, 8, 2, 9, 1, 0]))
    if draw(st.integers(0, 3)) > 0:
        length = min(length, 2 * n)
        ops = draw(st.lists(op, min_size=length, max_size=length,
                            unique_by=tuple))
    else:
        ops = draw(st.lists(op, min_size=length, max_size=length))
    if draw(st.integers(0, 2)) > 0:
        # per state all creators first: orderable unless moved past another
        kinds = {}
        for k, (i, _) in enumerate(ops):
            kinds.setdefault(i, []).append(k)
        for i, where in kinds.items():
            types = sorted((ops[k][1] for k in where), reverse=True)
            for k, t in zip(where, types):
                ops[k] = [i, t]
    return {"states": states, "ops": ops,
            "order": draw(st.permutations(range(n))),
            "tuple": draw(st.booleans()),
            "spelling": draw(SPELLINGS), "near": draw(st.integers(0, 3))}


def model_key(states, op):
    """The documented order of operators, by plain tuples."""
    (site, spin, orbit), t = states[op[0]], op[1]
    key = (tuple(int(10000 * x) for x in site), spin, orbit)
    flat = list(key[0]) + [spin, orbit]
    return (0, flat) if t == 1 else (1, [-x for x in flat])


def check(case, note):
    states, ops = case["states"], case["ops"]
    aocs = [AoC(t, site=spelled(near(states[i][0], k * case.get("near", 0)),
                                case["spelling"]),
                spin=states[i][1], orbit=states[i][2])
            for k, (i, t) in enumerate(ops)]
    given = tuple(aocs) if case["tuple"] else list(aocs)
    # an annihilator that stands left of the creator of its own state has to
    # move past it
    blocked = any(
        ops[i][1] == 0 and ops[j] == [ops[i][0], 1]
        for i in range(len(ops)) for j in range(i + 1, len(ops)))
    try:
        res = ParticleTerm.normalize(given)
    except SwapFermionError as exc:
        expect(blocked, "refused although no annihilator has to pass the "
               "creator of its state: {0}", ops)
        expect(str(exc), "no message")
        expect(len(given) == len(aocs)
               and all(x is y for x, y in zip(given, aocs)),
               "the input was modified")
        note("refused")
        return True
    expect(not blocked, "not refused: {0}", ops)
    expect(len(given) == len(aocs) and all(
        x is y for x, y in zip(given, aocs)), "the input was modified")
    expect(len(res) == 2, "result is {0!r}", res)
    out, swaps = res
    expect(isinstance(out, list), "the operators are a {0}", type(out))
    expect(isinstance(swaps, (int, np.integer)) and swaps >= 0,
           "number of swaps {0!r}", swaps)
    model = sorted(range(len(ops)), key=lambda k: model_key(states, ops[k]))
    want = [ops[k] for k in model]
    expect(len(out) == len(want), "{0} operators instead of {1}",
           len(out), len(want))
    for x, (i, t) in zip(out, want):
        site, spin, orbit = states[i]
        expect(x.otype == t and x.spin == spin and x.orbit == orbit
               and identity(x.coordinate) == identity(site),
               "ordered {0} instead of {1}", out,
               [(states[a], b) for a, b in want])
    # sign, first by permutation parity (identical operators swap freely only
    # when the product vanishes), then by matrices
    inversions = sum(
        model_key(states, ops[i]) > model_key(states, ops[j])
        for i in range(len(ops)) for j in range(i + 1, len(ops)))
    repeated = len({tuple(o) for o in ops}) < len(ops)
    if not repeated:
        expect(swaps % 2 == inversions % 2,
               "{0} swaps for a permutation with {1} inversions",
               swaps, inversions)
    n = len(states)
    if n > 6:
        again, more = ParticleTerm.normalize(out)
        expect(again == out and more == 0, "ordering twice: {0} swaps", more)
        note("length {0}".format(len(ops) // 10 * 10))
        return inversions > 0
    kets = list(range(1 << n))
    bit = {k: case["order"].index(k) for k in range(n)}
    lhs = fock.dense([(1, [(bit[i], t) for i, t in ops])], kets)
    rhs = fock.dense(
        [((-1) ** int(swaps), [(bit[i], t) for i, t in want])], kets)
    expect_close(rhs, lhs, "reordered product of {0}".format(ops), 0)
    if ops:
        table = IndexTable([
            StateID(*states[i]) for i in case["order"]])
        bases = base_vectors((tuple(range(n)), -1))
        a = ParticleTerm(aocs).matrix_repr(table, bases)
        b = ParticleTerm(out, coeff=(-1) ** int(swaps)).matrix_repr(
            table, bases)
        expect_close(b, a.toarray(), "matrices of the two forms", 0)
    # ordering again changes nothing
    again, more = ParticleTerm.normalize(out)
    expect(again == out and more == 0, "ordering twice: {0} swaps", more)
    note("vanishing" if repeated else "ordered, {0} inversions".format(
        "odd" if inversions % 2 else "even"))
    note("length {0}".format(len(ops)))
    return inversions > 0


@st.composite
def long_case(draw):
    """Up to 60 operators on up to 30 states."""
    n = draw(st.sampled_from([30, 12, 20, 8]))
    states = [[[i % 5, 0.5 * (i // 5)], i % 2, i % 3] for i in range(n)]
    types = draw(st.sampled_from([[0], [1], [0, 1], [0, 1], [0, 1]]))
    ops = [[i, t] for i in range(n) for t in types]
    ops = draw(st.permutations(ops))[:draw(st.integers(7, len(ops)))]
    if draw(st.integers(0, 3)) == 0:
        ops.append(list(ops[draw(st.integers(0, len(ops) - 1))]))
    if draw(st.integers(0, 3)):
        kinds = {}
        for k, (i, _) in enumerate(ops):
            kinds.setdefault(i, []).append(k)
        for i, where in kinds.items():
            for k, t in zip(where, sorted((ops[k][1] for k in where),
                                          reverse=True)):
                ops[k] = [i, t]
    return {"states": states, "ops": ops, "order": list(range(n)),
            "tuple": draw(st.booleans()), "spelling": draw(SPELLINGS)}


SUBS = [
    Sub("normalize", case_strategy, check, 3000, 60000, shards=4),
    Sub("long", long_case, check, 300, 6000, shards=2),
]
