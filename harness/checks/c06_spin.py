"""C06: matrices of spin operators and spin interactions."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect, raises
from oracles import spin as ref
from checks import large
from checks.common import (
    ANY_SPELLINGS, SPELLINGS, as_np, coefficients, expect_close, near,
    site_lists, spelled,
    to_number, toarray)
from HamiltonianPy import (
    IndexTable, SiteID, SpinInteraction, SpinOperator)
from HamiltonianPy.quantumoperator import constant

PROPERTY = "C06"
RULE = (
    "A case is 1..6 distinct sites in 1-3 dimensions, a permutation that maps "
    "them to site indices, and an operator string, an expression tree, or "
    "static calls with index/type pairs in any order. Non-trivial: at least "
    "two operators.")
ASSUMPTIONS = [
    "site index tables start at 0 (the definition of the matrix needs indices "
    "below the number of spins)",
]
TYPES = "xyzpm"


@st.composite
def table_strategy(draw, max_sites=5):
    n = draw(st.sampled_from([3, 4, 2, 5, 1, 6]))
    sites = draw(site_lists(min(n, max_sites), min(n, max_sites)))
    n = len(sites)
    return {"sites": sites, "order": draw(st.permutations(range(n)))}


def build(tab):
    table = IndexTable([SiteID(tab["sites"][i]) for i in tab["order"]])
    index = [tab["order"].index(i) for i in range(len(tab["sites"]))]
    return table, index


@st.composite
def string_case(draw):
    tab = draw(table_strategy(6))
    n = len(tab["sites"])
    length = draw(st.sampled_from([2, 3, 2, 1, 4, 5]))
    if length <= n and draw(st.integers(0, 2)) > 0:
        where = draw(st.permutations(range(n)))[:length]
    else:
        where = draw(st.lists(st.integers(0, n - 1), min_size=length,
                              max_size=length))
    ops = [[i, draw(st.sampled_from(TYPES))] for i in where]
    return {"tab": tab, "ops": ops, "coeff": draw(coefficients(zero=True, wide=True)),
            "np": draw(st.booleans()), "spelling": draw(SPELLINGS),
            "near": draw(st.integers(0, 3)),
            "newcoeff": draw(st.one_of(st.none(), coefficients(zero=True, wide=True)))}


def check_string(case, note):
    tab, ops = case["tab"], case["ops"]
    table, index = build(tab)
    n = len(index)
    sites = tab["sites"]
    coeff = to_number(case["coeff"])
    given = as_np(case["coeff"], "np" if case["np"] else "")
    spins = [SpinOperator(t, site=spelled(
        near(sites[i], k * case.get("near", 0)), case["spelling"]))
        for k, (i, t) in enumerate(ops)]
    iops = [(index[i], t) for i, t in ops]
    want = ref.dense([(1, iops)], n)

    for op, (i, t) in zip(spins, iops):
        single = ref.dense([(1, [(i, t)])], n)
        expect_close(op.matrix_repr(table), single,
                     "matrix of {0}".format(op), 0)
        expect_close(SpinOperator.matrix_function((i, t), n), single,
                     "SpinOperator.matrix_function({0}, {1})".format((i, t), n),
                     0)
        expect_close(op.matrix(), ref.dense([(1, [(0, t)])], 1),
                     "2x2 matrix of S{0}".format(t), 0)
        expect_close(op.dagger().matrix_repr(table), single.conj().T,
                     "matrix of the conjugate of {0}".format(op), 0)
    term = SpinInteraction(spins, coeff=given)
    floor = abs(coeff) or 1.0
    expect_close(term.matrix_repr(table), coeff * want,
                 "matrix of {0}".format(term), floor=floor)
    expect_close(
        SpinInteraction.matrix_function(iops, n, coeff=given), coeff * want,
        "SpinInteraction.matrix_function({0}, {1}, {2})".format(
            iops, n, given), floor=floor)
    expect_close(SpinInteraction.matrix_function(iops, n), want,
                 "SpinInteraction.matrix_function({0}, {1})".format(iops, n))
    conj = term.dagger()
    expect_close(conj.matrix_repr(table), (coeff * want).conj().T,
                 "matrix of the conjugate of {0}".format(term), floor=floor)
    # the same factors, in the same order on every site
    expect(len(term.components) == len(ops), "components {0}",
           term.components)
    for i, site in enumerate(sites):
        got = [o.otype for o in term.components if o.site_id == SiteID(site)]
        expect(got == [t for k, t in ops if k == i],
               "operators on one site changed order: {0}", term)
    expect(term.coeff == coeff, "coefficient {0}", term.coeff)
    new = case["newcoeff"]
    if new is not None:
        floor = abs(to_number(new)) or 1.0
        expect_close(term.matrix_repr(table, coeff=as_np(new)),
                     to_number(new) * want, "matrix with a new coefficient",
                     floor=floor)
        other = SpinInteraction(tuple(spins))
        other.coeff = as_np(new)
        expect_close(other.matrix_repr(table), to_number(new) * want,
                     "matrix after the coefficient was set", floor=floor)
    note("length {0}".format(len(ops)))
    if len({i for i, _ in ops}) < len(ops):
        note("repeated site")
    if len(ops) == 2 and ops[0][0] != ops[1][0]:
        note("two sites, index difference {0}".format(
            abs(iops[0][0] - iops[1][0])))
    return len(ops) > 1


# -- expression trees ------------------------------------------------------------


@st.composite
def tree_strategy(draw, n, depth):
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        return ["op", draw(st.integers(0, n - 1)),
                draw(st.sampled_from(TYPES))]
    kind = draw(st.sampled_from(["mul", "mul", "mul", "scale", "dag"]))
    if kind == "mul":
        return ["mul", draw(tree_strategy(n, depth - 1)),
                draw(tree_strategy(n, depth - 1))]
    if kind == "dag":
        return ["dag", draw(tree_strategy(n, depth - 1))]
    return ["scale", draw(st.sampled_from(["left", "right", "npright"])),
            draw(coefficients(zero=True, wide=True)), draw(tree_strategy(n, depth - 1))]


@st.composite
def tree_case(draw):
    tab = draw(table_strategy(4))
    return {"tab": tab, "tree": draw(tree_strategy(
        len(tab["sites"]), draw(st.sampled_from([2, 3, 1]))))}


def count(tree):
    if tree[0] == "op":
        return 1
    if tree[0] == "mul":
        return count(tree[1]) + count(tree[2])
    return count(tree[-1])


def magnitude(tree):
    """The product of the coefficients in a tree (zeros left out)."""
    if tree[0] == "op":
        return 1.0
    if tree[0] == "mul":
        return magnitude(tree[1]) * magnitude(tree[2])
    if tree[0] == "scale":
        return (abs(to_number(tree[2])) or 1.0) * magnitude(tree[3])
    return magnitude(tree[1])


def snapshot(obj):
    if isinstance(obj, SpinInteraction):
        return obj.coeff, [repr(o) for o in obj.components]
    return repr(obj)


def evaluate(tree, sites, mats, note):
    kind = tree[0]
    if kind == "op":
        return (SpinOperator(tree[2], site=sites[tree[1]]),
                mats[tree[1]][tree[2]])
    if kind == "dag":
        obj, ref_m = evaluate(tree[1], sites, mats, note)
        before = snapshot(obj)
        res = obj.dagger()
        expect(snapshot(obj) == before, "dagger changed its operand")
        expect(isinstance(res, type(obj)), "dagger is a {0}", type(res))
        return res, ref_m.conj().T
    if kind == "scale":
        c = to_number(tree[2])
        obj, ref_m = evaluate(tree[3], sites, mats, note)
        before = snapshot(obj)
        if tree[1] == "left":
            res = c * obj
        else:
            res = obj * as_np(tree[2], "np" if tree[1] == "npright" else "")
        expect(snapshot(obj) == before, "scaling changed its operand")
        ref_m = c * ref_m
    else:
        lobj, lref = evaluate(tree[1], sites, mats, note)
        robj, rref = evaluate(tree[2], sites, mats, note)
        before = snapshot(lobj), snapshot(robj)
        note("{0}*{1}".format(type(lobj).__name__, type(robj).__name__))
        res = lobj * robj
        expect((snapshot(lobj), snapshot(robj)) == before,
               "a product changed its operands")
        ref_m = lref @ rref
    expect(isinstance(res, SpinInteraction), "product is a {0}", type(res))
    return res, ref_m


def check_tree(case, note):
    tab = case["tab"]
    table, index = build(tab)
    n = len(index)
    mats = [{t: ref.dense([(1, [(i, t)])], n) for t in TYPES} for i in index]
    obj, want = evaluate(case["tree"], tab["sites"], mats, note)
    floor = magnitude(case["tree"])
    expect_close(obj.matrix_repr(table), want, "matrix of {0}".format(obj),
                 floor=floor)
    expect_close(obj.dagger().matrix_repr(table), want.conj().T,
                 "matrix of the conjugate of {0}".format(obj), floor=floor)
    return count(case["tree"]) > 1


# -- algebra, relations, rejections -------------------------------------------------


@st.composite
def relation_case(draw):
    tab = draw(table_strategy())
    n = len(tab["sites"])
    return {"tab": tab, "i": draw(st.integers(0, n - 1)),
            "j": draw(st.integers(0, n - 1)),
            "a": draw(st.sampled_from(TYPES)),
            "b": draw(st.sampled_from(TYPES)),
            "spelling": draw(ANY_SPELLINGS),
            "new": draw(st.lists(st.sampled_from(["otype", "site"]),
                                 unique=True))}


def check_relation(case, note):
    tab = case["tab"]
    table, index = build(tab)
    n = len(index)
    sites = tab["sites"]
    i, j, a, b = case["i"], case["j"], case["a"], case["b"]

    def mat(k, t):
        return toarray(SpinOperator(t, site=sites[k]).matrix_repr(table))

    # su(2) on each site, commuting between sites
    def comm(p, q):
        return p @ q - q @ p

    x, y, z, p, m = (mat(i, t) for t in TYPES)
    one = ref.dense([(1, [(0, a)])], 1)
    for name, scale in (("SPIN", 1), ("SIGMA", 2)):
        for got in (getattr(constant, name + "_" + a.upper()),
                    getattr(constant, name + "_MATRICES")[a]):
            expect_close(got, scale * one, "{0}_{1}".format(name, a))
    expect_close(comm(x, y), 1j * z, "[Sx, Sy]")
    expect_close(comm(y, z), 1j * x, "[Sy, Sz]")
    expect_close(comm(z, x), 1j * y, "[Sz, Sx]")
    expect_close(comm(p, m), 2 * z, "[S+, S-]")
    expect_close(p, x + 1j * y, "S+")
    expect_close(m, x - 1j * y, "S-")
    expect_close(x @ x + y @ y + z @ z, 0.75 * np.identity(1 << n), "S^2")
    if i != j:
        expect_close(comm(mat(i, a), mat(j, b)), np.zeros((1 << n, 1 << n)),
                     "operators on different sites")

    u = SpinOperator(a, site=sites[i])
    v = SpinOperator(b, site=spelled(sites[j], case["spelling"]))
    partner = {"p": "m", "m": "p"}.get(a, a)
    expect(u.same_site(v) == (i == j), "same_site({0}, {1})", u, v)
    expect(u.conjugate_of(v) == (i == j and b == partner),
           "conjugate_of({0}, {1})", u, v)
    expect(bool(u == v) == (i == j and a == b), "==")
    d = u.dagger()
    expect(d.otype == partner and tuple(d.coordinate) == tuple(u.coordinate),
           "dagger {0}", d)
    changes = {k: getattr(v, {"site": "coordinate"}.get(k, k))
               for k in case["new"]}
    w = u.derive(**changes)
    for name in ("otype", "coordinate"):
        src = v if {"coordinate": "site"}.get(name, name) in changes else u
        expect(getattr(w, name) == getattr(src, name), "derive {0}: {1}",
               changes, w)
    for other in (3, "x", u.site_id, None):
        with raises(TypeError, "conjugate_of({0!r})".format(other)):
            u.conjugate_of(other)
        with raises(TypeError, "same_site({0!r})".format(other)):
            u.same_site(other)
    for bad in ("x", [1], None, u.site_id):
        for op in (u, u * v):
            for pair in ((op, bad), (bad, op)):
                with raises(TypeError, "product with {0!r}".format(bad)):
                    pair[0] * pair[1]
    with raises(AssertionError, "unknown operator type"):
        SpinOperator("w", site=sites[i])
    with raises(AssertionError, "a coefficient that is no number"):
        SpinInteraction((u, v), coeff="1")
    note("same site" if i == j else "different sites")
    return True


# -- the same objects asked again and again ------------------------------------


@st.composite
def history_case(draw):
    sites = draw(site_lists(3, 5))
    n = len(sites)
    objects = []
    for _ in range(draw(st.integers(1, 2))):
        length = draw(st.sampled_from([2, 1, 2, 3]))
        objects.append({
            "ops": [[draw(st.integers(0, n - 1)), draw(st.sampled_from(TYPES))]
                    for _ in range(length)],
            "kind": draw(st.sampled_from(["term", "term", "operator"])),
            "coeff": draw(coefficients(wide=True))})
    used = sorted({i for o in objects for i, _ in o["ops"]})
    requests = []
    for _ in range(draw(st.integers(2, 6))):
        order = list(draw(st.permutations(range(n))))
        if draw(st.booleans()):
            # a smaller system
            drop = [i for i in order if i not in used]
            drop = drop[:draw(st.integers(0, len(drop)))]
            order = [i for i in order if i not in drop]
        requests.append({
            "object": draw(st.integers(0, len(objects) - 1)), "order": order,
            "how": draw(st.sampled_from(["plain", "plain", "coeff", "set",
                                         "dagger", "schwinger"])),
            "coeff": draw(coefficients(wide=True))})
    return {"sites": sites, "objects": objects, "requests": requests}


def check_history(case, note):
    """Every answer is right, whatever was asked before."""
    sites = case["sites"]
    objs, coeffs, ops = [], [], []
    for spec in case["objects"]:
        spins = [SpinOperator(t, site=sites[i]) for i, t in spec["ops"]]
        if spec["kind"] == "term":
            objs.append(SpinInteraction(spins, coeff=as_np(spec["coeff"])))
            coeffs.append(to_number(spec["coeff"]))
            ops.append(spec["ops"])
        else:
            objs.append(spins[0])
            coeffs.append(1)
            ops.append(spec["ops"][:1])
    asked = [set() for _ in objs]
    again = 0
    for at, req in enumerate(case["requests"]):
        which = req["object"]
        obj = objs[which]
        term = case["objects"][which]["kind"] == "term"
        order = req["order"]
        table = IndexTable([SiteID(sites[i]) for i in order])
        want = ref.dense(
            [(1, [(order.index(i), t) for i, t in ops[which]])], len(order))
        kwargs = {}
        how = req["how"]
        if how == "dagger":
            obj = obj.dagger()
            want = want.conj().T
            coeff = np.conj(coeffs[which])
        else:
            if how in ("coeff", "set") and term:
                coeffs[which] = to_number(req["coeff"])
                if how == "set":
                    obj.coeff = as_np(req["coeff"])
                else:
                    kwargs["coeff"] = as_np(req["coeff"])
            elif how == "schwinger":
                obj.Schwinger()
            coeff = coeffs[which]
        expect_close(obj.matrix_repr(table, **kwargs), coeff * want,
                     "request {0} ({1})".format(at, how),
                     floor=abs(coeff) or 1.0)
        key = (tuple(order), how == "dagger", str(coeff))
        again += bool(asked[which] - {key})
        asked[which].add(key)
    note("{0} changed questions".format(again))
    return again > 0


def check_large(case, note):
    """Up to 14 spins."""
    n, order = case["n"], case["order"]
    sites = [(i, 0.5 * i) for i in range(n)]
    table = IndexTable([SiteID(sites[i]) for i in order])
    ops = [(order.index(i), t) for i, t in case["ops"]]
    coeff = to_number(case["coeff"])
    spins = [SpinOperator(t, site=sites[i]) for i, t in case["ops"]]
    what = "{0} of {1} spins".format(ops, n)
    large.compare_spin(SpinInteraction(spins, coeff=coeff).matrix_repr(table),
                       ops, n, coeff, "SpinInteraction " + what)
    large.compare_spin(SpinInteraction.matrix_function(ops, n, coeff=coeff),
                       ops, n, coeff, "matrix_function " + what)
    large.compare_spin(spins[0].matrix_repr(table), ops[:1], n, 1,
                       "SpinOperator " + what)
    note("{0} spins".format(n))
    return len(ops) > 1


SUBS = [
    Sub("large", large.spin_case, check_large, 80, 1500),
    Sub("strings", string_case, check_string, 700, 15000, shards=4),
    Sub("expressions", tree_case, check_tree, 500, 12000, shards=2),
    Sub("relations", relation_case, check_relation, 200, 3000),
    Sub("history", history_case, check_history, 400, 6000),
]
