"""C08: the term factories."""

from hypothesis import strategies as st

from core import Sub, expect, raises
from oracles import fock, spin as ref
from checks.common import (
    ANY_SPELLINGS, as_np, coefficients, expect_close, identity, near,
    site_lists, spelled, to_number)
from HamiltonianPy import (
    AoC, CPFactory, CoulombFactory, HeisenbergFactory, HoppingFactory,
    HubbardFactory, IndexTable, IsingFactory, NumberOperator, PairingFactory,
    ParticleTerm, SiteID, SpinInteraction, StateID, TwoSpinTermFactory,
    base_vectors)
from HamiltonianPy.quantumoperator import Annihilator, Creator

PROPERTY = "C08"
SCALE = 5
RULE = (
    "A case is a factory, two sites out of 1-3 (also equal ones) in some "
    "spelling, every optional argument given or left out, and a coefficient; "
    "the action is computed on all states the term or its documented default "
    "could touch, in a random bit order. Non-trivial: every case whose matrix "
    "is not zero.")
ASSUMPTIONS = [
    "complex coefficients are generated for every factory although some are "
    "documented for real ones",
]
PARTICLE = ["creator", "annihilator", "cp", "hopping", "pairing", "hubbard",
            "coulomb"]
SPIN = ["heisenberg", "ising", "twospin"]


@st.composite
def case_strategy(draw):
    kind = draw(st.sampled_from(["hopping", "pairing", "coulomb", "hubbard",
                                 "cp", "creator", "annihilator"]))
    sites = draw(site_lists(2, 3))
    i = draw(st.integers(0, len(sites) - 1))
    j = draw(st.integers(0, len(sites) - 1))
    small = st.sampled_from([1, 0, 2])
    opt = st.one_of(st.none(), small)      # None: argument left out
    return {"kind": kind, "sites": sites, "i": i, "j": j,
            "spin0": draw(opt), "spin1": draw(opt),
            "orbit0": draw(opt), "orbit1": draw(opt),
            "which": draw(st.sampled_from(["p", "h", "particle", "hole"])),
            "nowhich": draw(st.integers(0, 3)) == 0,
            "coeff": draw(st.one_of(st.none(),
                coefficients(zero=True, wide=True))),
            "np": draw(st.booleans()),
            "explicit_none": draw(st.booleans()),
            "spell": draw(ANY_SPELLINGS), "near": draw(st.integers(0, 3)),
            "perm": draw(st.integers(0, 10 ** 6))}


def shuffled(items, number):
    """A permutation picked by a number (factorial base)."""
    items = list(items)
    out = []
    while items:
        number, k = divmod(number, len(items))
        out.append(items.pop(k))
    return out


def check_particle(case, note):
    kind = case["kind"]
    s0 = case["sites"][case["i"]]
    s1 = case["sites"][case["j"]]
    a0 = spelled(s0, case["spell"])
    a1 = spelled(s1, case["spell"])
    if case.get("near"):
        a1 = near(s1, case["near"])
    kw = {}
    if case["coeff"] is not None and kind not in ("creator", "annihilator"):
        kw["coeff"] = as_np(case["coeff"], "np" if case["np"] else "")
    coeff = to_number(case["coeff"]) if "coeff" in kw else 1.0
    two = kind in ("hopping", "pairing", "coulomb")

    def put(name, value):
        if value is not None:
            kw[name] = value

    if two:
        for name in ("spin0", "spin1", "orbit0", "orbit1"):
            put(name, case[name])
        if kind == "hopping" and case["explicit_none"]:
            kw.setdefault("spin1", None)
            kw.setdefault("orbit1", None)
    else:
        if kind != "hubbard":
            put("spin", case["spin0"])
        put("orbit", case["orbit0"])
    spin0 = case["spin0"] or 0
    orbit0 = case["orbit0"] or 0
    if kind == "hopping":
        spin1 = spin0 if case["spin1"] is None else case["spin1"]
        orbit1 = orbit0 if case["orbit1"] is None else case["orbit1"]
    else:
        spin1 = case["spin1"] or 0
        orbit1 = case["orbit1"] or 0
    st0 = (tuple(s0), spin0, orbit0)
    st1 = (tuple(s1), spin1, orbit1)
    if kind == "creator":
        got, ops = Creator(a0, **kw), [(st0, 1)]
    elif kind == "annihilator":
        got, ops = Annihilator(a0, **kw), [(st0, 0)]
    elif kind == "cp":
        got, ops = CPFactory(a0, **kw), [(st0, 1), (st0, 0)]
    elif kind == "hopping":
        got, ops = HoppingFactory(a0, a1, **kw), [(st0, 1), (st1, 0)]
    elif kind == "pairing":
        if not case["nowhich"]:
            kw["which"] = case["which"]
        t = 1 if kw.get("which", "h") in ("p", "particle") else 0
        got, ops = PairingFactory(a0, a1, **kw), [(st0, t), (st1, t)]
    elif kind == "hubbard":
        up, down = (tuple(s0), 1, orbit0), (tuple(s0), 0, orbit0)
        got = HubbardFactory(a0, **kw)
        ops = [(up, 1), (up, 0), (down, 1), (down, 0)]
    else:
        got = CoulombFactory(a0, a1, **kw)
        ops = [(st0, 1), (st0, 0), (st1, 1), (st1, 0)]

    # the states of the operator plus the ones that a wrong default would hit
    states = []
    for state in [s for s, _ in ops] + [
            (tuple(s1), 0, 0), (tuple(s0), 0, 0), (tuple(s0), 1, orbit0)]:
        if state not in states:
            states.append(state)
    if kind in ("creator", "annihilator"):
        expect(isinstance(got, AoC), "{0} is a {1}", kind, type(got))
        parts = [got]
    else:
        expect(isinstance(got, ParticleTerm), "{0} is a {1}", kind, type(got))
        expect(got.coeff == coeff, "{0}: coefficient {1}", kind, got.coeff)
        expect(got.check_compatibility(), "{0}: label {1} does not fit {2}",
               kind, got.classification, got)
        parts = got.components
        conj = got.dagger()
        expect(conj.coeff == complex(coeff).conjugate(), "conjugate {0}", conj)
    for aoc in parts:
        state = (tuple(aoc.coordinate), aoc.spin, aoc.orbit)
        if all((identity(state[0]),) + state[1:] !=
               (identity(s[0]),) + s[1:] for s in states):
            states.append(state)          # wrong, and the matrix will tell
    order = shuffled(states, case["perm"])
    table = IndexTable([StateID(*s) for s in order])
    bases = base_vectors((tuple(range(len(order))), -1))
    kets = [int(k) for k in bases]
    want = fock.dense(
        [(coeff, [(order.index(s), t) for s, t in ops])], kets)
    expect_close(got.matrix_repr(table, bases), want,
                 "{0}({1}, {2}, {3})".format(kind, a0, a1, kw), 1e-13,
                 floor=abs(coeff) or 1.0)
    if kind == "hubbard":
        n_up = NumberOperator(site=s0, spin=1, orbit=orbit0)
        n_down = NumberOperator(site=s0, spin=0, orbit=orbit0)
        expect_close((coeff * (n_up * n_down)).matrix_repr(table, bases), want,
                     "U n_up n_down", 1e-13, floor=abs(coeff) or 1.0)
    note(kind)
    if two and st0 == st1:
        note(kind + " on one state")
    # refusals
    for bad in ("x", "H", "", None, "pair"):
        with raises(AssertionError, "which={0!r}".format(bad)):
            PairingFactory(a0, a1, which=bad)
    return bool(want.any())


@st.composite
def spin_case(draw):
    sites = draw(site_lists(2, 4))
    n = len(sites)
    return {"kind": draw(st.sampled_from(SPIN)), "sites": sites,
            "i": draw(st.integers(0, n - 1)), "j": draw(st.integers(0, n - 1)),
            "a": draw(st.sampled_from("xyz")),
            "b": draw(st.sampled_from("xyz")),
            "order": draw(st.permutations(range(n))),
            "coeff": draw(st.one_of(st.none(),
                coefficients(zero=True, wide=True))),
            "np": draw(st.booleans()), "spell": draw(ANY_SPELLINGS),
            "near": draw(st.integers(0, 3))}


def check_spin(case, note):
    kind, sites = case["kind"], case["sites"]
    n = len(sites)
    i, j, a, b = case["i"], case["j"], case["a"], case["b"]
    a0 = spelled(sites[i], case["spell"])
    a1 = spelled(sites[j], case["spell"])
    if case.get("near"):
        a1 = near(sites[j], case["near"])
    kw = {}
    if case["coeff"] is not None:
        kw["coeff"] = as_np(case["coeff"], "np" if case["np"] else "")
    coeff = to_number(case["coeff"]) if kw else 1.0
    table = IndexTable([SiteID(sites[k]) for k in case["order"]])
    p, q = case["order"].index(i), case["order"].index(j)
    if kind == "heisenberg":
        got = HeisenbergFactory(a0, a1, **kw)
        expect(isinstance(got, tuple) and len(got) == 3, "result {0!r}", got)
        wants = [[(coeff, [(p, "z"), (q, "z")])],
                 [(coeff / 2, [(p, "p"), (q, "m")])],
                 [(coeff / 2, [(p, "m"), (q, "p")])]]
    elif kind == "ising":
        got = (IsingFactory(a0, a1, a, **kw),)
        wants = [[(coeff, [(p, a), (q, a)])]]
    else:
        got = (TwoSpinTermFactory(a0, a1, a, b, **kw),)
        wants = [[(coeff, [(p, a), (q, b)])]]
    total = 0
    for term, want in zip(got, wants):
        expect(isinstance(term, SpinInteraction), "{0}", type(term))
        expect_close(term.matrix_repr(table), ref.dense(want, n),
                     "{0}({1}, {2}, {3}): {4}".format(kind, a0, a1, kw, term),
                     floor=abs(coeff) or 1.0)
        total = total + term.matrix_repr(table).toarray()
    if kind == "heisenberg":
        want = ref.dense([(coeff, [(p, t), (q, t)]) for t in "xyz"], n)
        expect_close(total, want, "the three terms are J S.S",
                     floor=abs(coeff) or 1.0)
    for bad in ("p", "m", "w", "X", "", None):
        with raises(AssertionError, "Ising alpha={0!r}".format(bad)):
            IsingFactory(a0, a1, bad)
        with raises(AssertionError, "alpha0={0!r}".format(bad)):
            TwoSpinTermFactory(a0, a1, bad, b)
        with raises(AssertionError, "alpha1={0!r}".format(bad)):
            TwoSpinTermFactory(a0, a1, a, bad)
    note(kind)
    if i == j:
        note(kind + " on one site")
    return coeff != 0


SUBS = [
    Sub("particles", case_strategy, check_particle, 1200, 30000, shards=3),
    Sub("spins", spin_case, check_spin, 500, 10000, shards=2),
]
