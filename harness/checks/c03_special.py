"""C03: specialised terms have the matrix of the general form."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from checks.c02_matrix import (
    basis_strategy, bit_pool, prepare, u64, verify)
from checks import large
from checks.common import (
    as_np, coefficients, near, state_lists, to_number)
from HamiltonianPy import (
    AoC, CoulombFactory, CPFactory, HoppingFactory, HubbardFactory,
    IndexTable, NumberOperator, PairingFactory, ParticleTerm, StateID)
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function

PROPERTY = "C03"
RULE = (
    "A case is a hopping, number or Coulomb operator pattern on up to 7 states "
    "with bit indices in 0..63, a source basis, no target / the source as "
    "target / a superset or shifted target / a target that misses an image, "
    "and a coefficient. Non-trivial: some ket has an image. For the "
    "compatibility query a case is any operator string with any label; "
    "non-trivial when the string is within one edit of a compatible one. For "
    "derived terms a case is a product of factory terms, then conjugates, "
    "multiples and further factors; non-trivial with three terms or more.")
ASSUMPTIONS = ["bases are sorted uint64 arrays without repeats"]

LABELS = ["hopping", "number", "Coulomb"]


def pattern(label, i, j):
    if label == "hopping":
        return [[i, 1], [j, 0]]
    if label == "number":
        return [[i, 1], [i, 0]]
    return [[i, 1], [i, 0], [j, 1], [j, 0]]


@st.composite
def case_strategy(draw):
    n = draw(st.sampled_from([4, 5, 3, 6, 7, 2]))
    contiguous = draw(st.booleans())
    label = draw(st.sampled_from(LABELS))
    i = draw(st.integers(0, n - 1))
    if label == "hopping":
        j = draw(st.integers(0, n - 2))
        j = j if j < i else j + 1
    else:
        j = draw(st.integers(0, n - 1))
    pool = draw(bit_pool(n, contiguous))
    case = {
        "label": label, "pool": pool, "ops": pattern(label, i, j),
        "right": draw(basis_strategy(n)),
        "left": draw(st.sampled_from(
            ["images", "none", "images", "missing", "right", "inner",
             "inner"])),
        "extra": draw(st.lists(st.integers(0, (1 << n) - 1), max_size=8,
                               unique=True)),
        "drop": draw(st.integers(0, 50)),
        "coeff": draw(coefficients(wide="all")),
        "objects": contiguous,
    }
    if contiguous:
        states = draw(state_lists(n, n))
        if len(states) < n:
            states = [[[k, 0], 0, 0] for k in range(n)]
        case["states"] = states
    return case


def check(case, note):
    ops, right, left, images = prepare(case)
    coeff = to_number(case["coeff"])
    given = as_np(case["coeff"])
    label = case["label"]
    note(label)
    note(label + " left=" + case["left"])
    if case["objects"]:
        states = [
            StateID(site=s, spin=sp, orbit=o) for s, sp, o in case["states"]]
        table = IndexTable(states, start=case["pool"][0])
        aocs = [AoC(c, site=near(states[i].coordinate, k * case["drop"]),
                    spin=states[i].spin, orbit=states[i].orbit)
                for k, (i, c) in enumerate(case["ops"])]

        def make(tag):
            term = ParticleTerm(aocs, coeff=given, classification=tag)
            expect(term.check_compatibility() is True,
                   "{0} term called incompatible", tag)
            expect(term.classification == tag, "classification")

            def call(r, lft, to_csr):
                kwargs = {} if lft is None else {"left_bases": lft}
                return term.matrix_repr(table, r, to_csr=to_csr, **kwargs)
            return call
    else:
        def make(tag):
            def call(r, lft, to_csr):
                kwargs = {} if lft is None else {"left_bases": lft}
                return matrix_function(
                    ops, r, coeff=given, to_csr=to_csr, special_tag=tag,
                    **kwargs)
            return call

    results = []
    for tag in (label, "general"):
        results.append(verify(
            make(tag), ops, right, left, coeff, tag))
    if results[0]:
        kwargs = None if left is None else u64(left)
        m0 = make(label)(u64(right), kwargs, True)
        m1 = make("general")(u64(right), kwargs, True)
        expect(m0.shape == m1.shape and abs(m0 - m1).nnz == 0,
               "{0} and general matrices differ", label)
    else:
        note("refused")
    return bool(images)


@st.composite
def compat_case(draw):
    base = pattern(draw(st.sampled_from(LABELS)),
                   draw(st.integers(0, 2)), draw(st.integers(0, 2)))
    ops = [list(op) for op in base]
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        kind = draw(st.sampled_from(["flip", "state", "drop", "add", "swap"]))
        at = draw(st.integers(0, max(0, len(ops) - 1)))
        if not ops:
            kind = "add"
        if kind == "flip":
            ops[at][1] ^= 1
        elif kind == "state":
            ops[at][0] = draw(st.integers(0, 2))
        elif kind == "drop":
            del ops[at]
        elif kind == "add":
            ops.insert(at, [draw(st.integers(0, 2)), draw(st.integers(0, 1))])
        else:
            to = draw(st.integers(0, len(ops) - 1))
            ops[at], ops[to] = ops[to], ops[at]
    states = draw(state_lists(3, 3))
    if len(states) < 3:
        states = [[[0.5], k, 0] for k in range(3)]
    return {"ops": ops, "states": states, "near": draw(st.integers(0, 3)),
            "label": draw(st.sampled_from(LABELS + ["general"]))}


def check_compat(case, note):
    ops = case["ops"]
    label = case["label"]
    states = case["states"]
    aocs = [AoC(c, site=near(states[i][0], k * case.get("near", 0)),
                spin=states[i][1], orbit=states[i][2])
            for k, (i, c) in enumerate(ops)]
    got = ParticleTerm(aocs, classification=label).check_compatibility()
    types = [c for _, c in ops]
    where = [i for i, _ in ops]
    want = {
        "general": True,
        "hopping": types == [1, 0] and where[:1] != where[1:],
        "number": types == [1, 0] and where[:1] == where[1:],
        "Coulomb": types == [1, 0, 1, 0] and where[:1] == where[1:2]
        and where[2:3] == where[3:],
    }[label]
    expect(got is want or got == want,
           "compatibility of {0} with {1!r} reported {2}", ops, label, got)
    note("{0}:{1}".format(label, want))
    return label != "general"


@st.composite
def derived_case(draw):
    """Terms made from labelled ones: products, multiples and conjugates."""
    n = draw(st.integers(2, 4))
    states = draw(state_lists(n, n))
    if len(states) < n:
        states = [[[k, 0], 0, 0] for k in range(n)]
    index = st.integers(0, n - 1)
    leaf = st.tuples(st.sampled_from(
        ["cp", "cp", "coulomb", "hopping", "pairing", "hubbard"]),
        index, index).map(list)
    return {"states": states,
            "leaves": draw(st.lists(leaf, min_size=1, max_size=3)),
            "steps": draw(st.lists(st.sampled_from(
                ["dagger", "left", "right", "creator", "number"]),
                min_size=1, max_size=3))}


def check_derived(case, note):
    states = case["states"]

    def make(kind, i, j):
        (a, sa, oa), (b, sb, ob) = states[i], states[j]
        two = dict(spin0=sa, spin1=sb, orbit0=oa, orbit1=ob)
        if kind == "cp":
            return CPFactory(a, spin=sa, orbit=oa, coeff=0.5)
        if kind == "hubbard":
            return HubbardFactory(a, orbit=oa)
        return {"coulomb": CoulombFactory, "hopping": HoppingFactory,
                "pairing": PairingFactory}[kind](a, b, **two)

    term = make(*case["leaves"][0])
    made = [term]
    for leaf in case["leaves"][1:]:
        term = term * make(*leaf)
        made.append(term)
    site, spin, orbit = states[0]
    for step in case["steps"]:
        if step == "dagger":
            term = term.dagger()
        elif step == "left":
            term = 2 * term
        elif step == "right":
            term = term * 1j
        elif step == "creator":
            term = term * AoC(1, site, spin, orbit)
        else:
            term = NumberOperator(site, spin, orbit) * term
        made.append(term)
    known = {StateID(s, sp, o) for s, sp, o in states}
    known |= {op.state for op in term.components}
    table = IndexTable(sorted(known))
    bases = np.arange(1 << len(known), dtype=np.uint64)
    for term in made:
        what = "{0} term of {1}".format(term.classification, term)
        expect(term.check_compatibility() is True, "{0}: does not fit", what)
        general = ParticleTerm(term.components, coeff=term.coeff)
        diff = (term.matrix_repr(table, bases)
                - general.matrix_repr(table, bases))
        expect(diff.nnz == 0 or abs(diff).max() == 0,
               "{0}: another matrix than the general term", what)
    note("{0} factors".format(len(case["leaves"])))
    return len(made) > 2


PATTERNS = {label: (lambda i, j, label=label: pattern(label, i, j))
            for label in LABELS}

SUBS = [
    Sub("large", lambda: large.matrix_case(PATTERNS),
        lambda case, note: large.check_matrix(matrix_function, case, note),
        150, 3000, shards=2),
    Sub("matrix", case_strategy, check, 2400, 40000, shards=4),
    Sub("derived", derived_case, check_derived, 600, 8000),
    Sub("compatibility", compat_case, check_compat, 1200, 10000),
]
