"""C02: matrix of a fermion operator string in any pair of bases."""

import numpy as np
from hypothesis import strategies as st

from core import Sub, Violation, expect
from oracles import fock
from checks import large
from checks.common import (
    as_np, coefficients, near, sparse_dict, state_lists, to_number)
from HamiltonianPy import AoC, IndexTable, NumberOperator, ParticleTerm, StateID
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function

PROPERTY = "C02"
RULE = (
    "A case is an operator string of length 1-6 over up to 8 states with bit "
    "indices in 0..63, a sorted source basis (any subset of the kets), a "
    "target basis (the source itself, a superset of the images, or one that "
    "misses an image) and a coefficient; through the matrix function or "
    "through operator objects and an index table. Or a history of requests to "
    "the same operator objects with changing bases, tables and coefficients "
    "(non-trivial: some object is asked something else than before). "
    "Non-trivial otherwise: at least one "
    "image exists (or is missing) and the sign depends on an occupied state, "
    "or the bases differ.")
ASSUMPTIONS = [
    "bases are sorted uint64 arrays without repeats (the documented input)",
    "operator strings are non-empty",
]


@st.composite
def bit_pool(draw, n, contiguous=False):
    if contiguous:
        start = draw(st.sampled_from([0, 0, 0, 1, 5, 31, 64 - n, 64 - n]))
        return list(range(start, start + n))
    high = draw(st.sampled_from([8, 12, 33, 63, 63]))
    pool = draw(st.lists(st.integers(0, max(high, n)), min_size=n, max_size=n,
                         unique=True))
    if draw(st.booleans()) and 63 not in pool:
        pool[draw(st.integers(0, n - 1))] = 63
    return sorted(pool)


def basis_strategy(n):
    full = list(range(1 << n))
    return st.one_of(
        st.just(full), st.just(full),
        st.integers(0, n).map(
            lambda p: [m for m in full if bin(m).count("1") == p]),
        st.lists(st.integers(0, (1 << n) - 1), min_size=1, max_size=20,
                 unique=True).map(sorted),
    )


def expand(mask, pool):
    ket = 0
    for i, bit in enumerate(pool):
        if mask >> i & 1:
            ket |= 1 << bit
    return ket


@st.composite
def ops_strategy(draw, n, right, max_len=6):
    """
    Mostly strings that do not annihilate a chosen ket of the source basis:
    the type of each factor, from the last to the first, is the one that acts.
    """
    length = draw(st.sampled_from([1, 2, 2, 3, 4, 4, 5, 6]))
    length = min(length, max_len)
    indices = draw(st.lists(st.integers(0, n - 1), min_size=length,
                            max_size=length))
    free = draw(st.integers(0, 9)) == 9
    ket = draw(st.sampled_from(right))
    ops = []
    for i in indices:
        occupied = ket >> i & 1
        c = draw(st.integers(0, 1)) if free else 1 - occupied
        if c != occupied:
            ket ^= 1 << i
        ops.append([i, c])
    return ops[::-1]


@st.composite
def case_strategy(draw, contiguous=False):
    n = draw(st.sampled_from([5, 4, 6, 3, 7, 2, 1]))
    pool = draw(bit_pool(n, contiguous))
    right = draw(basis_strategy(n))
    case = {
        "pool": pool,
        "ops": draw(ops_strategy(n, right)),
        "right": right,
        "left": draw(st.sampled_from(
            ["none", "none", "images", "images", "missing", "right",
             "inner"])),
        "extra": draw(st.lists(st.integers(0, (1 << n) - 1), max_size=6,
                               unique=True)),
        "drop": draw(st.integers(0, 50)),
        "coeff": draw(coefficients(wide="all")),
    }
    if contiguous:
        case["states"] = draw(state_lists(n, n))
        # the state list may be shorter than asked for on few sites
        k = len(case["states"])
        if k < n:
            case["states"] = [[[i, 0], 0, 0] for i in range(n)]
        case["via"] = draw(st.sampled_from(["term", "aoc", "number"]))
    return case


def prepare(case):
    pool = case["pool"]
    ops = [(pool[i], c) for i, c in case["ops"]]
    right = [expand(m, pool) for m in case["right"]]
    images = sorted({
        fock.apply_string(ops, k)[1] for k in right
        if fock.apply_string(ops, k) is not None})
    mode = case["left"]
    left = None
    if mode == "right":
        left = list(right)
    elif mode == "inner":
        # the source with one inner ket replaced
        left = list(right)
        free = [k for k in (expand(m, pool) for m in range(1 << len(pool)))
                if right[0] < k < right[-1] and k not in right]
        if free and len(right) > 2:
            left[1 + case["drop"] % (len(right) - 2)] = free[
                sum(case["extra"]) % len(free)]
            left.sort()
    elif mode == "images":
        left = sorted(set(images) | {expand(m, pool) for m in case["extra"]})
    elif mode == "missing":
        left = sorted(set(images) | {expand(m, pool) for m in case["extra"]})
        if images:
            left.remove(images[case["drop"] % len(images)])
    if left is not None and not left:
        left = [0]
        if images == [0]:
            left = [expand((1 << len(pool)) - 1, pool)]
            if left == images:
                left = None
    return ops, right, left, images


def u64(kets):
    return np.array(kets, dtype=np.uint64)


def verify(call, ops, right, left, coeff, what):
    """call(right, left, to_csr) against the reference."""
    target = right if left is None else left
    want, missing = fock.elements(ops, right, target)
    want = {k: coeff * s for k, s in want.items() if coeff != 0}
    r = u64(right)
    if len(ops) % 2 and left is not None:
        # every other element of a longer array
        r = np.repeat(r, 2)[::2]
    lft = None if left is None else u64(left)
    if missing:
        for to_csr in (True, False):
            try:
                call(r, lft, to_csr)
            except KeyError:
                continue
            raise Violation(
                "{0}: an image lies outside the target basis and the request "
                "was answered".format(what))
        return False
    m = call(r, lft, True)
    got = sparse_dict(m, what)
    expect(m.shape == (len(target), len(right)), "{0}: shape {1}", what,
           m.shape)
    expect(all(v != 0 for v in got.values()), "{0}: stored zeros", what)
    compare(got, want, what)
    entries, (rows, cols) = call(r, lft, False)
    entries, rows, cols = map(np.asarray, (entries, rows, cols))
    expect(entries.shape == rows.shape == cols.shape and entries.ndim == 1,
           "{0}: coordinate arrays of shapes {1} {2} {3}", what,
           entries.shape, rows.shape, cols.shape)
    coo = {}
    for v, i, j in zip(entries, rows, cols):
        expect((int(i), int(j)) not in coo, "{0}: repeated coordinate", what)
        if coeff != 0 or v != 0:
            coo[(int(i), int(j))] = v
    compare(coo, want, what + " (coordinate form)")
    expect(np.array_equal(r, u64(right)), "{0}: source basis modified", what)
    if left is not None:
        expect(np.array_equal(lft, u64(left)),
               "{0}: target basis modified", what)
    return True


def compare(got, want, what):
    if got == want:
        return
    bad = sorted(set(got) ^ set(want)) or [
        k for k in want if got[k] != want[k]]
    k = bad[0]
    expect(False, "{0}: element {1} is {2} instead of {3} ({4} differ)",
           what, k, got.get(k, 0), want.get(k, 0), len(bad))


def classify(case, ops, right, left, images, note):
    note("left=" + case["left"])
    if not images:
        note("annihilates everything")
        return False
    signs = {fock.apply_string(ops, k)[0] for k in right
             if fock.apply_string(ops, k) is not None}
    if len(signs) == 2:
        note("both signs")
    if max(case["pool"]) == 63:
        note("state 63")
    if max(case["pool"]) >= 32:
        note("states>=32")
    note("len={0}".format(len(ops)))
    c = case["coeff"]
    if isinstance(to_number(c), complex):
        note("complex coeff")
    if isinstance(c, dict):
        note(c["np"])
    return True


def check_function(case, note):
    ops, right, left, images = prepare(case)
    coeff = to_number(case["coeff"])
    given = as_np(case["coeff"])

    def call(r, lft, to_csr):
        kwargs = {} if lft is None else {"left_bases": lft}
        return matrix_function(
            ops, r, coeff=given, to_csr=to_csr, **kwargs)

    answered = verify(call, ops, right, left, coeff, "matrix")
    if not answered:
        note("refused")
    return classify(case, ops, right, left, images, note)


def check_objects(case, note):
    pool = case["pool"]
    states = [StateID(site=s, spin=sp, orbit=o) for s, sp, o in case["states"]]
    table = IndexTable(states, start=pool[0])
    via = case["via"]
    note("via=" + via)
    coeff = to_number(case["coeff"])
    given = as_np(case["coeff"])
    if via == "aoc":
        case = dict(case, ops=case["ops"][:1])
        coeff = 1
    elif via == "number":
        i = case["ops"][0][0]
        case = dict(case, ops=[[i, 1], [i, 0]])
        coeff = 1
        if case["left"] != "right":
            case["left"] = "none"
    ops, right, left, images = prepare(case)
    objs = []
    for k, (i, c) in enumerate(case["ops"]):
        s = states[i]
        objs.append(AoC(c, site=near(s.coordinate, k * case["drop"]),
                        spin=s.spin, orbit=s.orbit))

    def call(r, lft, to_csr):
        kwargs = {} if lft is None else {"left_bases": lft}
        if via == "aoc":
            return objs[0].matrix_repr(table, r, to_csr=to_csr, **kwargs)
        if via == "number":
            s = states[case["ops"][0][0]]
            op = NumberOperator(
                site=s.coordinate, spin=s.spin, orbit=s.orbit)
            return op.matrix_repr(table, r, to_csr=to_csr)
        term = ParticleTerm(objs, coeff=given)
        return term.matrix_repr(table, r, to_csr=to_csr, **kwargs)

    answered = verify(call, ops, right, left, coeff, via)
    if not answered:
        note("refused")
    return classify(case, ops, right, left, images, note)


def check_newcoeff(case, note):
    """The coefficient given with the request replaces the term's own."""
    pool = case["pool"]
    states = [StateID(site=s, spin=sp, orbit=o) for s, sp, o in case["states"]]
    table = IndexTable(states, start=pool[0])
    case = dict(case, left="images" if case["left"] != "none" else "none")
    if case["drop"] % 5 == 0:
        case["coeff"] = 0
    ops, right, left, images = prepare(case)
    if left is None:
        right = sorted(set(right) | set(images))
        for _ in range(len(ops) + 2):   # close the basis under the string
            more = {fock.apply_string(ops, k)[1] for k in right
                    if fock.apply_string(ops, k) is not None}
            right = sorted(set(right) | more)
    objs = []
    for i, c in case["ops"]:
        s = states[i]
        objs.append(AoC(c, site=s.coordinate, spin=s.spin, orbit=s.orbit))
    term = ParticleTerm(objs, coeff=5)
    new = to_number(case["coeff"])

    def call(r, lft, to_csr):
        kwargs = {} if lft is None else {"left_bases": lft}
        return term.matrix_repr(
            table, r, coeff=as_np(case["coeff"]), to_csr=to_csr, **kwargs)

    verify(call, ops, right, left, new, "new coefficient")
    expect(term.components == tuple(objs), "components changed")
    return bool(images)


# -- the same objects asked again and again --------------------------------------


def closed(ops, kets, length):
    """Up to so many of the kets, in this order, with all their images."""
    res = []
    for ket in kets:
        chain = []
        while ket is not None and ket not in res and ket not in chain:
            chain.append(ket)
            image = fock.apply_string(ops, ket)
            ket = None if image is None else image[1]
        if len(res) + len(chain) <= length:
            res += chain
    return sorted(res)


@st.composite
def history_case(draw):
    n = draw(st.sampled_from([4, 3, 5]))
    full = 1 << n
    objects = []
    for _ in range(draw(st.integers(1, 2))):
        kind = draw(st.sampled_from(["term", "term", "aoc", "number"]))
        ops = [[draw(st.integers(0, n - 1)), draw(st.integers(0, 1))]]
        if kind == "number":
            ops = [[ops[0][0], 1], [ops[0][0], 0]]
        elif kind == "term":
            ops = draw(ops_strategy(n, list(range(full)), 4))
        objects.append({"kind": kind, "ops": ops,
                        "coeff": draw(coefficients(wide="all"))})
    base = draw(basis_strategy(n))
    requests = []
    for _ in range(draw(st.integers(2, 6))):
        which = draw(st.integers(0, len(objects) - 1))
        ops = objects[which]["ops"]
        how = draw(st.sampled_from(
            ["same", "closed", "closed", "closed", "inner", "other"]))
        if how == "closed":
            # as many kets, mostly the same first one, and all their images
            kets = draw(st.permutations(range(full)))
            if draw(st.integers(0, 3)):
                kets = base[:1] + [k for k in kets if k > base[0]]
            right = closed(ops, kets, len(base)) or base
        elif how == "inner":
            # as many kets, the same first one and the same last one
            keep = {base[0], base[-1]}
            free = draw(st.permutations(range(base[0] + 1, base[-1] + 1)))
            free = [k for k in free if k not in keep]
            right = sorted(keep | set(free[:len(base) - len(keep)]))
        elif how == "same":
            right = base
        else:
            right = draw(basis_strategy(n))
        base = right
        requests.append({
            "object": which,
            "right": right,
            "order": (list(range(n)) if draw(st.integers(0, 2)) else
                      draw(st.permutations(range(n)))),
            "start": draw(st.sampled_from([0, 0, 0, 1, 60])) % (65 - n),
            "left": draw(st.sampled_from(
                ["images", "images", "missing", "right"]
                if how in ("inner", "other") else ["none", "none", "images"])),
            "extra": draw(st.lists(st.integers(0, full - 1), max_size=4,
                                   unique=True)),
            "drop": draw(st.integers(0, 50)),
            "coeff": draw(st.one_of(
                st.none(), st.none(), coefficients(wide="all"), st.just(0)))})
    states = draw(state_lists(n, n))
    if len(states) < n:
        states = [[[i, 0], 0, 0] for i in range(n)]
    return {"states": states, "objects": objects, "requests": requests}


def check_history(case, note):
    """Every answer is right, whatever was asked before."""
    states = case["states"]
    n = len(states)
    objs, coeffs = [], []
    for spec in case["objects"]:
        aocs = [AoC(c, site=states[i][0], spin=states[i][1],
                    orbit=states[i][2]) for i, c in spec["ops"]]
        if spec["kind"] == "term":
            objs.append(ParticleTerm(aocs, coeff=as_np(spec["coeff"])))
            coeffs.append(to_number(spec["coeff"]))
            continue
        if spec["kind"] == "number":
            site, spin, orbit = states[spec["ops"][0][0]]
            objs.append(NumberOperator(site=site, spin=spin, orbit=orbit))
        else:
            objs.append(aocs[0])
        coeffs.append(1)
    ids = [StateID(site=s, spin=sp, orbit=o) for s, sp, o in states]
    asked = {}
    again = 0
    for at, req in enumerate(case["requests"]):
        which = req["object"]
        spec = case["objects"][which]
        kind = spec["kind"]
        table = IndexTable([ids[i] for i in req["order"]], start=req["start"])
        pool = [req["start"] + req["order"].index(i) for i in range(n)]
        ops = [(pool[i], c) for i, c in spec["ops"]]
        # prepare() wants masks over a sorted pool
        order = sorted(pool)
        sub = dict(req, pool=order,
                   ops=[[order.index(b), c] for b, c in ops])
        if kind == "number" and sub["left"] != "none":
            sub["left"] = "none"
        _, right, left, images = prepare(sub)
        if kind == "term" and req["coeff"] is not None:
            coeffs[which] = to_number(req["coeff"])

        def call(r, lft, to_csr):
            kwargs = {} if lft is None else {"left_bases": lft}
            if kind == "term" and req["coeff"] is not None:
                kwargs["coeff"] = as_np(req["coeff"])
            return objs[which].matrix_repr(table, r, to_csr=to_csr, **kwargs)

        verify(call, ops, right, left, coeffs[which],
               "request {0} ({1})".format(at, kind))
        before = asked.setdefault(which, set())
        key = (tuple(right), None if left is None else tuple(left),
               tuple(ops), str(coeffs[which]))
        if any(key != k for k in before):
            again += 1
        before.add(key)
    note("{0} changed questions".format(again))
    return again > 0


SUBS = [
    Sub("large", large.matrix_case, lambda case, note: large.check_matrix(
        matrix_function, case, note), 150, 3000, shards=2),
    Sub("function", case_strategy, check_function, 2400, 40000, shards=4),
    Sub("objects", lambda: case_strategy(contiguous=True), check_objects,
        1500, 20000, shards=3),
    Sub("newcoeff", lambda: case_strategy(contiguous=True), check_newcoeff,
        300, 3000),
    Sub("history", history_case, check_history, 800, 12000, shards=2),
]
