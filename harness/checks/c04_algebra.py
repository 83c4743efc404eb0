"""C04: the algebra of creation and annihilation operators."""

import itertools

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from oracles import fock
from checks.common import (
    ANY_SPELLINGS, as_np, coefficients, expect_close, spelled, state_lists,
    to_number, toarray)
from HamiltonianPy import (
    AoC, CPFactory, CoulombFactory, HoppingFactory, IndexTable,
    NumberOperator, PairingFactory, ParticleTerm, StateID, base_vectors)

PROPERTY = "C04"
SCALE = 5
RULE = (
    "A case is a set of up to 5 states (site, spin, orbit) in some bit order "
    "and start index, and either all pairs for the anticommutators or a random "
    "expression tree of operators, number operators, scalars (Python and "
    "numpy, real and complex), products and Hermitian conjugates, or a chain of "
    "classified terms multiplied in any grouping. Non-trivial: "
    "for trees, at least two factors and a non-zero matrix or at least three "
    "factors.")
ASSUMPTIONS = [
    "scalars multiply operators and terms, not each other; numpy scalars are "
    "generated on the right-hand side and Python scalars on both sides",
]


@st.composite
def table_strategy(draw, max_states=5):
    n = draw(st.sampled_from([3, 4, 2, 5, 1]))
    n = min(n, max_states)
    states = draw(state_lists(n, n))
    n = len(states)
    return {"states": states, "order": draw(st.permutations(range(n))),
            "start": draw(st.sampled_from([0, 0, 1, 7, 64 - n]))}


def build(tab):
    states = [StateID(site=s, spin=sp, orbit=o)
              for s, sp, o in tab["states"]]
    start = tab["start"]
    n = len(states)
    table = IndexTable([states[i] for i in tab["order"]], start=start)
    bits = [start + tab["order"].index(i) for i in range(n)]
    bases = base_vectors((tuple(range(start, start + n)), -1))
    return states, table, bits, bases


def aoc_of(tab, i, c, spelling="tuple"):
    s, sp, o = tab["states"][i]
    return AoC(c, site=spelled(s, spelling), spin=sp, orbit=o)


@st.composite
def car_case(draw):
    return {"tab": draw(table_strategy())}


def check_car(case, note):
    tab = case["tab"]
    states, table, bits, bases = build(tab)
    n = len(states)
    dim = 1 << n
    a = [toarray(aoc_of(tab, i, 0).matrix_repr(table, bases))
         for i in range(n)]
    c = [toarray(aoc_of(tab, i, 1).matrix_repr(table, bases))
         for i in range(n)]
    eye = np.identity(dim)
    for i in range(n):
        want = fock.dense([(1, [(bits[i], 0)])], [int(k) for k in bases])
        expect_close(a[i], want, "annihilator {0}".format(i), 0)
        expect_close(c[i], a[i].T.conj(), "creator {0}".format(i), 0)
        num = NumberOperator(
            site=states[i].coordinate, spin=states[i].spin,
            orbit=states[i].orbit)
        expect_close(num.matrix_repr(table, bases), c[i] @ a[i],
                     "number operator {0}".format(i), 0)
        expect_close(num.toterm().matrix_repr(table, bases), c[i] @ a[i],
                     "number operator as term", 0)
        for j in range(n):
            expect_close(a[i] @ c[j] + c[j] @ a[i], eye if i == j else 0 * eye,
                         "anticommutator a{0} c{1}".format(i, j), 0)
            expect_close(a[i] @ a[j] + a[j] @ a[i], 0 * eye,
                         "anticommutator a{0} a{1}".format(i, j), 0)
    note("n={0}".format(n))
    return n > 1


# -- expressions ---------------------------------------------------------------


#: terms that carry a classification
FACTORIES = ["cp", "coulomb", "hopping", "pairing", "term"]


def factory_leaf(tree, tab, mats):
    kind, i, j, c = tree[1], tree[2], tree[3], to_number(tree[4])
    given = as_np(tree[4])
    (s0, sp0, o0), (s1, sp1, o1) = tab["states"][i], tab["states"][j]
    kw = dict(spin0=sp0, spin1=sp1, orbit0=o0, orbit1=o1, coeff=given)
    (a0, c0), (a1, c1) = mats[i], mats[j]
    if kind == "cp":
        return CPFactory(s0, spin=sp0, orbit=o0, coeff=given), c * (c0 @ a0)
    if kind == "coulomb":
        return CoulombFactory(s0, s1, **kw), c * (c0 @ a0 @ c1 @ a1)
    if kind == "hopping":
        return HoppingFactory(s0, s1, **kw), c * (c0 @ a1)
    if kind == "pairing":
        return PairingFactory(s0, s1, **kw), c * (a0 @ a1)
    tag = "hopping" if i != j else "number"
    aocs = [aoc_of(tab, i, 1), aoc_of(tab, j, 0)]
    return ParticleTerm(aocs, coeff=given, classification=tag), c * (c0 @ a1)


@st.composite
def tree_strategy(draw, n, depth):
    """Trees that are not bare scalars."""
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        leaf = draw(st.integers(0, 5))
        if leaf == 0:
            return ["num", draw(st.integers(0, n - 1))]
        if leaf == 1:
            return ["fac", draw(st.sampled_from(FACTORIES)),
                    draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)),
                    draw(coefficients(zero=True, wide=True))]
        return ["op", draw(st.integers(0, n - 1)), draw(st.integers(0, 1)),
                draw(ANY_SPELLINGS)]
    kind = draw(st.sampled_from(
        ["mul", "mul", "mul", "mul", "scale", "scale", "dag"]))
    if kind == "mul":
        return ["mul", draw(tree_strategy(n, depth - 1)),
                draw(tree_strategy(n, depth - 1))]
    if kind == "dag":
        return ["dag", draw(tree_strategy(n, depth - 1))]
    side = draw(st.sampled_from(["left", "right", "npright"]))
    return ["scale", side, draw(coefficients(zero=True, wide=True)),
            draw(tree_strategy(n, depth - 1))]


@st.composite
def tree_case(draw):
    tab = draw(table_strategy(4))
    return {"tab": tab, "tree": draw(tree_strategy(
        len(tab["states"]), draw(st.sampled_from([2, 3, 1])))),
        "again": draw(coefficients(wide=True))}


def count(tree):
    if tree[0] in ("op", "num", "fac"):
        return 1
    if tree[0] == "mul":
        return count(tree[1]) + count(tree[2])
    return count(tree[-1])


def magnitude(tree):
    """The product of the coefficients in a tree (zeros left out)."""
    if tree[0] in ("op", "num"):
        return 1.0
    if tree[0] == "fac":
        return abs(to_number(tree[4])) or 1.0
    if tree[0] == "mul":
        return magnitude(tree[1]) * magnitude(tree[2])
    if tree[0] == "scale":
        return (abs(to_number(tree[2])) or 1.0) * magnitude(tree[3])
    return magnitude(tree[1])


def snapshot(obj):
    if isinstance(obj, ParticleTerm):
        return (obj.coeff, [repr(x) for x in obj.components],
                obj.classification)
    return repr(obj)


def evaluate(tree, tab, mats, note):
    """-> (library object, reference matrix)."""
    kind = tree[0]
    if kind == "op":
        return aoc_of(tab, tree[1], tree[2], tree[3]), mats[tree[1]][tree[2]]
    if kind == "num":
        s, sp, o = tab["states"][tree[1]]
        m = mats[tree[1]]
        return NumberOperator(site=s, spin=sp, orbit=o), m[1] @ m[0]
    if kind == "fac":
        note(tree[1])
        return factory_leaf(tree, tab, mats)
    if kind == "dag":
        obj, ref = evaluate(tree[1], tab, mats, note)
        before = snapshot(obj)
        res = obj.dagger()
        expect(snapshot(obj) == before, "dagger changed its operand")
        expect(isinstance(res, type(obj)), "dagger of {0} is {1}",
               type(obj).__name__, type(res).__name__)
        back = res.dagger()
        if isinstance(obj, ParticleTerm):
            expect(back.coeff == obj.coeff
                   and back.components == obj.components,
                   "dagger is not an involution: {0} {1}", obj, back)
        else:
            expect(back == obj, "dagger is not an involution")
        return res, ref.conj().T
    if kind == "scale":
        c = to_number(tree[2])
        obj, ref = evaluate(tree[3], tab, mats, note)
        before = snapshot(obj)
        if tree[1] == "left":
            res = c * obj
        else:
            res = obj * as_np(tree[2], "np" if tree[1] == "npright" else "")
        expect(snapshot(obj) == before, "scaling changed its operand")
        ref = c * ref
    else:
        lobj, lref = evaluate(tree[1], tab, mats, note)
        robj, rref = evaluate(tree[2], tab, mats, note)
        before = snapshot(lobj), snapshot(robj)
        note("{0}*{1}".format(type(lobj).__name__, type(robj).__name__))
        res = lobj * robj
        expect((snapshot(lobj), snapshot(robj)) == before,
               "a product changed its operands")
        ref = lref @ rref
    expect(isinstance(res, ParticleTerm), "product is a {0}",
           type(res).__name__)
    return res, ref


def check_again(obj, new):
    """The same relations after the coefficient has been changed."""
    aocs = list(obj.components)
    c = to_number(new)
    obj.coeff = as_np(new)
    op = AoC(1, site=aocs[0].coordinate, spin=5)
    for res, want, chain in (
            (obj.dagger(), c.conjugate(), [x.dagger() for x in aocs[::-1]]),
            (obj * 2, 2 * c, aocs), (0.5 * obj, c / 2, aocs),
            (obj * obj, c * c, aocs + aocs), (op * obj, c, [op] + aocs),
            (obj * op, c, aocs + [op])):
        expect(abs(res.coeff - want) <= 1e-6 * abs(want)
               and list(res.components) == chain,
               "after setting the coefficient to {0}: {1} instead of {2} {3}",
               c, res, want, chain)


def check_tree(case, note):
    tab = case["tab"]
    states, table, bits, bases = build(tab)
    kets = [int(k) for k in bases]
    mats = [[fock.dense([(1, [(b, t)])], kets) for t in (0, 1)] for b in bits]
    obj, ref = evaluate(case["tree"], tab, mats, note)
    got = obj.matrix_repr(table, bases)
    floor = magnitude(case["tree"])
    expect_close(got, ref, "matrix of {0}".format(obj), floor=floor)
    if isinstance(obj, ParticleTerm):
        conj = obj.dagger().matrix_repr(table, bases)
        expect_close(conj, ref.conj().T, "matrix of the conjugate term",
                     floor=floor)
        if obj.coeff != 0 and "again" in case:
            check_again(obj, case["again"])
    factors = count(case["tree"])
    zero = not np.any(ref)
    note("zero" if zero else "non-zero")
    return factors > 2 or (factors == 2 and not zero)


@st.composite
def chain_case(draw):
    """Products of terms that carry a classification, grouped at random."""
    tab = draw(table_strategy(5))
    n = len(tab["states"])
    kinds = draw(st.sampled_from([
        ["cp"], ["coulomb"], ["cp", "coulomb"], ["hopping", "cp"],
        ["term"], FACTORIES, ["hopping"], ["cp", "num"], ["coulomb", "op"]]))
    trees = []
    for _ in range(draw(st.sampled_from([3, 2, 4, 5]))):
        kind = draw(st.sampled_from(kinds))
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if kind == "num":
            tree = ["num", i]
        elif kind == "op":
            tree = ["op", i, draw(st.integers(0, 1)), "tuple"]
        else:
            tree = ["fac", kind, i, j, draw(coefficients())]
        mark = draw(st.integers(0, 5))
        if mark == 0:
            tree = ["dag", tree]
        elif mark == 1:
            tree = ["scale", draw(st.sampled_from(["left", "right"])),
                    draw(coefficients()), tree]
        trees.append(tree)
    while len(trees) > 1:
        at = draw(st.integers(0, len(trees) - 2))
        trees[at:at + 2] = [["mul", trees[at], trees[at + 1]]]
    return {"tab": tab, "tree": trees[0], "again": draw(coefficients())}


# -- rejected operands, relations ------------------------------------------------


@st.composite
def relation_case(draw):
    tab = draw(table_strategy())
    n = len(tab["states"])
    return {"tab": tab, "i": draw(st.integers(0, n - 1)),
            "j": draw(st.integers(0, n - 1)),
            "ti": draw(st.integers(0, 1)), "tj": draw(st.integers(0, 1)),
            "spelling": draw(ANY_SPELLINGS),
            "new": draw(st.lists(st.sampled_from(
                ["otype", "site", "spin", "orbit"]), unique=True))}


def check_relation(case, note):
    tab = case["tab"]
    i, j, ti, tj = case["i"], case["j"], case["ti"], case["tj"]
    x = aoc_of(tab, i, ti)
    y = aoc_of(tab, j, tj, case["spelling"])
    expect(x.same_state(y) == (i == j), "same_state({0}, {1})", x, y)
    expect(x.conjugate_of(y) == (i == j and ti != tj), "conjugate_of")
    expect(bool(x == y) == (i == j and ti == tj), "==")
    d = x.dagger()
    expect(d.otype == 1 - ti and d.state == x.state
           and d.spin == x.spin and d.orbit == x.orbit
           and tuple(d.coordinate) == tuple(x.coordinate), "dagger {0}", d)
    expect(x.conjugate_of(d) and d.conjugate_of(x), "conjugate of dagger")
    # derive: only the named attributes change
    changes = {k: getattr(y, {"site": "coordinate"}.get(k, k))
               for k in case["new"]}
    z = x.derive(**changes)
    for name in ("otype", "site", "spin", "orbit"):
        src = y if name in changes else x
        expect(np.array_equal(getattr(z, name), getattr(src, name)),
               "derive({0}): {1} is {2}", changes, name, getattr(z, name))
    num = NumberOperator(site=x.coordinate, spin=x.spin, orbit=x.orbit)
    expect(num.dagger() == num, "number operator is not self-conjugate")
    z = num.derive(**{k: v for k, v in changes.items() if k != "otype"})
    for name in ("site", "spin", "orbit"):
        src = y if name in changes else x
        expect(np.array_equal(getattr(z, name), getattr(src, name)),
               "NumberOperator.derive: {0}", name)
    for other in (num, 3, "x", x.state):
        with raises(TypeError, "conjugate_of({0!r})".format(other)):
            x.conjugate_of(other)
        with raises(TypeError, "same_state({0!r})".format(other)):
            x.same_state(other)
    for bad in ("x", [1], None, x.state):
        for op in (x, num, x * y):
            for pair in ((op, bad), (bad, op)):
                with raises(TypeError, "product with {0!r}".format(bad)):
                    pair[0] * pair[1]
    note("same" if i == j else "different")
    return True


SUBS = [
    Sub("anticommutators", car_case, check_car, 150, 2000, shards=2),
    Sub("expressions", tree_case, check_tree, 1500, 30000, shards=4),
    Sub("chains", chain_case, check_tree, 500, 10000, shards=2),
    Sub("relations", relation_case, check_relation, 400, 4000),
]
