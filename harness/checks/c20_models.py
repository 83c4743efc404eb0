"""C20: models assembled from bonds, factories, tables and base vectors."""

import itertools

import numpy as np
from hypothesis import strategies as st

from core import Sub, expect
from oracles import fock, krylov, spin as ref
from oracles.lattice import Crystal, HarnessBound
from checks.c15_database import ALIAS, CLUSTERS, PARENTS
from checks.common import close, expect_close, site_lists
from HamiltonianPy import (
    CPFactory, CoulombFactory, HeisenbergFactory, HoppingFactory,
    HubbardFactory, IndexTable, IsingFactory, Lattice, PairingFactory, SiteID,
    StateID, TwoSpinTermFactory, base_vectors, lattice_generator,
    special_cluster)
from HamiltonianPy import GreenFunction as gf
from HamiltonianPy.hilbertspace import HilbertSpace
from HamiltonianPy.lanczos import MultiKrylov
from HamiltonianPy.quantumoperator import Annihilator, Creator

PROPERTY = "C20"
RULE = (
    "A case is a named lattice or cluster with a twist and a neighbour order "
    "(spectrum against Bloch theory), a cluster whose Green function is "
    "extended to the infinite lattice by the bonds that leave it, a quadratic Hamiltonian with complex "
    "hopping and pairing on arbitrary states in a random bit order (spectrum "
    "and Green functions against the single-particle matrix), an interacting "
    "fermion model, or a spin model on a random set of bonds. Non-trivial: "
    "at least two sites or states and a non-zero coupling.")
ASSUMPTIONS = [
    "at most 8 single-particle states in a full Fock space, 24 sites in the "
    "one- and two-particle sectors, 5 spins",
    "spectra compared to 1e-8, Green functions to 1e-7 with a broadening of "
    "0.05 or more",
]

VALUES = [1.0, -1.0, 0.5, 2.0, -0.7, 0.3]


def occupations(levels, count):
    """Sorted many-particle energies of `count` particles."""
    return np.sort([sum(c) for c in itertools.combinations(levels, count)]
                   or [0.0][:int(count == 0)])


def spectrum(H, what):
    H = H.toarray() if hasattr(H, "toarray") else np.asarray(H)
    expect_close(H, H.conj().T, what + ": not Hermitian")
    return np.linalg.eigvalsh(H) if len(H) else np.array([])


def add(terms, table, right, left=None):
    """Sum of the matrices of the terms, as the library does it."""
    H = 0
    for term in terms:
        H = H + term.matrix_repr(table, right, left_bases=left)
    return H


def shuffled(items, number):
    items = list(items)
    out = []
    while items:
        number, k = divmod(number, len(items))
        out.append(items.pop(k))
    return out


# -- Bloch theory -------------------------------------------------------------


@st.composite
def bloch_case(draw):
    if draw(st.booleans()):
        name, nums = draw(st.sampled_from(sorted(ALIAS))), None
        d = 2
    else:
        name = draw(st.sampled_from(sorted(PARENTS)))
        d = len(PARENTS[name][0])
        nums = [draw(st.integers(1, {1: 8, 2: 4, 3: 2}[d])) for _ in range(d)]
    return {"name": name, "nums": nums,
            "hop": draw(st.lists(st.sampled_from(VALUES + [0.0]), min_size=1,
                                 max_size=3)),
            "mu": draw(st.sampled_from([0.0, 1.0, -0.4])),
            "k": draw(st.lists(st.sampled_from(
                [0.0, 0.3, -1.1, 2.0, 3.5]), min_size=d, max_size=d)),
            "fold": draw(st.sampled_from(["decompose", "index", "bonds"])),
            "count": draw(st.sampled_from([1, 2, 1, 3])),
            "spin": draw(st.booleans()),
            "perm": draw(st.integers(0, 10 ** 9))}


def bloch_levels(parent, reciprocal, hop, mu, k, count):
    """
    Energies of the whole parent lattice at k plus every reciprocal vector of
    the cluster, from the textbook unit cell alone.
    """
    cell, basis = (np.array(x, dtype=float) for x in PARENTS[parent])
    crystal = Crystal(basis, cell)
    shells, pairs = crystal.shells(len(hop) + 1)
    bs = 2 * np.pi * np.linalg.inv(cell).T
    box = Crystal(np.zeros((1, len(cell))), bs)
    qs = []
    r = 0
    while len(qs) < count:
        # integer combinations, nearest first, distinct modulo bs
        for n in itertools.product(range(-r, r + 1), repeat=len(cell)):
            if max(map(abs, n)) != r:
                continue
            q = np.array(n) @ reciprocal
            if not any(box.in_lattice(q - p) is not None for p in qs):
                qs.append(q)
        r += 1
    levels = []
    for q in qs:
        H = np.diag(np.full(len(basis), mu, dtype=complex))
        for dist, i, j, n in pairs:
            for t, d in zip(hop, shells[1:]):
                if abs(dist - d) < 1e-6:
                    v = np.array(n) @ cell + basis[j] - basis[i]
                    H[i, j] += t * np.exp(1j * ((k + q) @ v))
        levels += list(np.linalg.eigvalsh(H))
    return sorted(levels)


def check_bloch(case, note):
    name, nums = case["name"], case["nums"]
    if nums is None:
        parent = CLUSTERS[ALIAS[name]][1]
        lat = special_cluster(name)
    else:
        parent = name
        lat = lattice_generator(name, *nums)
    what = "{0}".format(case)
    n = lat.point_num
    k = np.array(case["k"])
    folded = case["fold"] == "bonds"
    if folded:
        # bonds that end inside the cluster do not tell the phase
        k = 0 * k
    spins = (0, 1) if case["spin"] else (0,)
    if n * len(spins) > 60:
        note("too many states")
        return False
    terms = []
    for order, t in enumerate(case["hop"], 1):
        intra, inter = lat.bonds(order, fold=folded)
        for bond in list(intra) + list(inter):
            p, q = bond.endpoints
            ends = [p, q] if folded else []
            for x in () if folded else (p, q):
                if case["fold"] == "index":
                    ends.append(lat.getSite(lat.getIndex(x, fold=True)))
                else:
                    ends.append(lat.decompose(x)[0])
            phase = np.exp(1j * (k @ (q - p)))
            for s in spins:
                terms.append(HoppingFactory(
                    ends[0], ends[1], spin0=s, coeff=t * phase))
    terms += [term.dagger() for term in terms]
    for p in lat.points:
        for s in spins:
            terms.append(CPFactory(p, spin=s, coeff=case["mu"]))
    states = [StateID(site=p, spin=s) for p in lat.points for s in spins]
    table = IndexTable(shuffled(states, case["perm"]))
    levels = bloch_levels(parent, lat.bs, case["hop"], case["mu"], k,
                          n // len(PARENTS[parent][1]))
    expect(len(levels) == n, "{0}: {1} points", what, n)
    count = case["count"]
    if case["spin"]:
        # (a, b) particles of either spin
        a, b = {1: (1, 0), 2: (1, 1), 3: (0, 2)}[count]
        groups = [
            (tuple(table(StateID(site=p, spin=s)) for p in lat.points), m)
            for s, m in ((0, a), (1, b))]
        want = np.sort([x + y for x in occupations(levels, a)
                        for y in occupations(levels, b)])
    else:
        groups = [(n, count)]
        want = occupations(levels, count) if count <= n else None
        if want is None:
            return False
    if len(want) > 400 or len(want) == 0:
        note("large sector")
        return False
    bases = base_vectors(*groups)
    expect(len(bases) == len(want), "{0}: sector of {1} states", what,
           len(bases))
    got = spectrum(add(terms, table, bases), what)
    expect(close(np.sort(got), want, 1e-8),
           "{0}: energies {1} instead of {2}", what, got[:8].tolist(),
           want[:8].tolist())
    note(parent)
    note("sector {0}{1}".format(count, " spins" if case["spin"] else ""))
    return n > 1 and any(case["hop"])


# -- quadratic Hamiltonians ---------------------------------------------------


@st.composite
def quadratic_case(draw):
    sites = draw(site_lists(1, 4))
    pool = [[i, s, o] for i in range(len(sites))
            for s in (0, 1) for o in (0, 1)]
    n = draw(st.integers(2, 6))
    states = draw(st.lists(st.sampled_from(pool), min_size=min(n, len(pool)),
                           max_size=min(n, len(pool)), unique_by=tuple))
    n = len(states)
    number = st.sampled_from(VALUES)
    pair = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1),
                     number, number).map(list)
    return {"sites": sites, "states": states,
            "hop": draw(st.lists(pair, min_size=1, max_size=8)),
            "onsite": draw(st.lists(
                st.tuples(st.integers(0, n - 1), number).map(list),
                max_size=4)),
            "pair": draw(st.one_of(st.just([]), st.lists(pair, max_size=5))),
            "which": draw(st.sampled_from(["p", "h"])),
            "perm": draw(st.integers(0, 10 ** 6)),
            "count": draw(st.integers(0, n)),
            "level": draw(st.integers(0, 3)),
            "omega": draw(st.sampled_from([0.0, 0.7, -1.3])),
            "eta": draw(st.sampled_from([0.05, 0.2, 1.0])),
            "solver": draw(st.sampled_from(["exact", "lanczos"]))}


def check_quadratic(case, note):
    sites = case["sites"]
    states = [(tuple(sites[i]), s, o) for i, s, o in case["states"]]
    n = len(states)
    h = np.zeros((n, n), dtype=complex)
    delta = np.zeros((n, n), dtype=complex)    # 1/2 sum delta c+ c+ + h.c.
    terms = []
    for i, j, re, im in case["hop"]:
        (p, s0, o0), (q, s1, o1) = states[i], states[j]
        t = complex(re, im)
        terms.append(HoppingFactory(p, q, spin0=s0, spin1=s1, orbit0=o0,
                                    orbit1=o1, coeff=t))
        h[i, j] += t
        h[j, i] += np.conj(t)
    for i, j, re, im in case["pair"]:
        if i == j:
            continue
        (p, s0, o0), (q, s1, o1) = states[i], states[j]
        t = complex(re, im)
        terms.append(PairingFactory(
            p, q, spin0=s0, spin1=s1, orbit0=o0, orbit1=o1, coeff=t,
            which=case["which"]))
        # t c+_i c+_j, or t c_i c_j = (t* c+_j c+_i)^+
        a, b, x = (i, j, t) if case["which"] == "p" else (j, i, np.conj(t))
        delta[a, b] += x
        delta[b, a] -= x
    terms += [term.dagger() for term in terms]
    for i, mu in case["onsite"]:
        p, s, o = states[i]
        terms.append(CPFactory(p, spin=s, orbit=o, coeff=mu))
        h[i, i] += mu
    ids = [StateID(site=p, spin=s, orbit=o) for p, s, o in states]
    table = IndexTable(shuffled(ids, case["perm"]))
    # pairing terms that cancel still do not fit in one sector each
    conserving = all(i == j for i, j, _, _ in case["pair"])
    what = "quadratic {0}".format(case)
    full = base_vectors([n, -1])
    H = add(terms, table, full)
    got = spectrum(H, what)
    bdg = np.block([[h, delta], [-delta.conj(), -h.conj()]])
    energies, modes = np.linalg.eigh(bdg)
    positive = energies[n:]
    # particle-hole symmetry of the reference itself
    if not np.allclose(energies, -energies[::-1], atol=1e-9):
        raise ValueError("oracle: bad Bogoliubov matrix")
    shift = np.trace(h).real / 2 - positive.sum() / 2
    want = np.sort([shift + sum(c) for m in range(n + 1)
                    for c in itertools.combinations(positive, m)])
    expect(close(got, want, 1e-8), "{0}: energies {1} instead of {2}", what,
           got[:8].tolist(), want[:8].tolist())
    levels = np.linalg.eigvalsh(h)
    z = case["omega"] + 1j * case["eta"]
    green = np.linalg.inv(z * np.identity(2 * n) - bdg)[:n, :n]
    As = [Annihilator(p, spin=s, orbit=o) for p, s, o in states]
    Bs = [a.dagger() for a in As]

    if conserving:
        count = case["count"]
        sector = {m: base_vectors([n, m]) for m in range(n + 1)}
        Hs = {m: np.atleast_2d(add(terms, table, sector[m]).toarray())
              for m in (count - 1, count, count + 1) if 0 <= m <= n}
        for m, block in Hs.items():
            expect(close(spectrum(block, what), occupations(levels, m), 1e-8),
                   "{0}: energies of {1} particles", what, m)
        values, vectors = np.linalg.eigh(Hs[count])
        pick = min(case["level"], len(values) - 1)
        state, energy = vectors[:, pick], values[pick]
        # a degenerate or not, any eigenvector will do: the anticommutator
        # of c(t) and c+ is a number
        total = np.zeros((n, n), dtype=complex)
        for m, ops, sign in ((count + 1, Bs, "-"), (count - 1, As, "+")):
            if m not in Hs:
                continue
            ex = {op: op.matrix_repr(
                table, sector[count], left_bases=sector[m]).dot(
                state) for op in ops}
            if sign == "-":
                # <c_i (z - (H - E))^-1 c+_j>
                part = gf.GFSolverExactMultiple(
                    np.array([case["omega"]]), As, Bs, energy, Hs[m], ex,
                    eta=case["eta"], sign="-")
                total += part[:, :, 0]
            else:
                # <c+_j (z + (H - E))^-1 c_i>
                part = gf.GFSolverExactMultiple(
                    np.array([case["omega"]]), Bs, As, energy, Hs[m], ex,
                    eta=case["eta"], sign="+")
                total += part[:, :, 0].T
        expect(close(total, green, 1e-7),
               "{0}: sector Green function\n{1}\ninstead of\n{2}", what,
               total.round(6).tolist(), green.round(6).tolist())
        note("sectors")
    dense = H.toarray()
    values, vectors = np.linalg.eigh(dense)
    pick = min(case["level"], len(values) - 1)
    state, energy = vectors[:, pick], values[pick]
    excited = {op: op.matrix_repr(table, full).dot(state) for op in As + Bs}
    omegas = np.array([case["omega"]])
    if case["solver"] == "exact":
        res = gf.RGFSolverExactMultiple(
            omegas, As, Bs, energy, dense, excited, eta=case["eta"], sign="+")
    else:
        for key in list(excited):
            v = excited[key]
            norm = np.linalg.norm(v)
            if norm < 3e-4 or krylov.stable(dense, v, 200, 1e-4) is None:
                note("unstable")
                return False
        pms, pvs = MultiKrylov(H, excited)
        res = gf.RGFSolverLanczosMultiple(
            omegas, As, Bs, energy, pms, pvs, eta=case["eta"], sign="+")
    tol = 1e-7 if case["solver"] == "exact" else 1e-6 / case["eta"]
    expect(close(res[:, :, 0], green, tol),
           "{0}: Green function\n{1}\ninstead of\n{2}", what,
           res[:, :, 0].round(6).tolist(), green.round(6).tolist())
    note(case["solver"])
    note("conserving" if conserving else "pairing")
    return True


# -- interacting fermions -----------------------------------------------------


@st.composite
def interacting_case(draw):
    sites = draw(site_lists(1, 4))
    m = len(sites)
    number = st.sampled_from(VALUES)
    index = st.integers(0, m - 1)
    return {"sites": sites, "order": draw(st.permutations(range(2 * m))),
            "order2": draw(st.permutations(range(2 * m))),
            "hop": draw(st.lists(st.tuples(
                index, index, number, number, st.integers(0, 1),
                st.integers(0, 1)).map(list), min_size=1, max_size=5)),
            "flip": draw(st.booleans()),
            "U": draw(st.lists(st.tuples(index, number).map(list),
                               max_size=4)),
            "V": draw(st.lists(st.tuples(
                index, index, st.integers(0, 1), st.integers(0, 1),
                number).map(list), max_size=4)),
            "count": draw(st.integers(0, 2 * m)),
            "split": draw(st.booleans())}


def check_interacting(case, note):
    sites = [tuple(s) for s in case["sites"]]
    m = len(sites)
    n = 2 * m
    what = "interacting {0}".format(case)
    ids = [StateID(site=sites[k // 2], spin=k % 2) for k in range(n)]

    def bit(order, i, s):
        return order.index(2 * i + s)

    order, order2 = case["order"], case["order2"]
    terms, model = [], []
    for i, j, re, im, s0, s1 in case["hop"]:
        if not case["flip"]:
            s1 = s0
        t = complex(re, im)
        terms.append(HoppingFactory(sites[i], sites[j], spin0=s0, spin1=s1,
                                    coeff=t))
        a, b = bit(order, i, s0), bit(order, j, s1)
        model += [(t, [(a, 1), (b, 0)]), (np.conj(t), [(b, 1), (a, 0)])]
    terms += [t.dagger() for t in terms]
    for i, u in case["U"]:
        terms.append(HubbardFactory(sites[i], coeff=u))
        a, b = bit(order, i, 1), bit(order, i, 0)
        model.append((u, [(a, 1), (a, 0), (b, 1), (b, 0)]))
    for i, j, s0, s1, v in case["V"]:
        terms.append(CoulombFactory(sites[i], sites[j], spin0=s0, spin1=s1,
                                    coeff=v))
        a, b = bit(order, i, s0), bit(order, j, s1)
        model.append((v, [(a, 1), (a, 0), (b, 1), (b, 0)]))
    table = IndexTable([ids[k] for k in order])
    full = base_vectors([n, -1])
    H = add(terms, table, full).toarray()
    kets = [int(x) for x in full]
    expect_close(H, fock.dense(model, kets), what)
    spectrum(H, what)
    N = np.diag([bin(x).count("1") for x in kets]).astype(float)
    expect_close(H @ N, N @ H, what + ": particle number is not conserved")
    if not case["flip"]:
        up = [bit(order, i, 1) for i in range(m)]
        S = np.diag([float(sum((x >> b) & 1 for b in up)) for x in kets])
        expect_close(H @ S, S @ H, what + ": spin is not conserved")
    # a sector is the block of the full matrix
    count = case["count"]
    if case["split"] and not case["flip"]:
        ups = tuple(bit(order, i, 1) for i in range(m))
        downs = tuple(bit(order, i, 0) for i in range(m))
        a = count // 2
        sector = HilbertSpace([ups, a], [downs, min(count - a, m)])
        part = sector.base_vectors()
        note("spin sector")
    else:
        part = base_vectors([n, count])
        note("number sector")
    where = np.searchsorted(full, part)
    block = add(terms, table, part)
    block = block.toarray() if len(part) else np.zeros((0, 0))
    expect_close(block, H[np.ix_(where, where)],
                 what + ": sector is not the block of the full matrix")
    # another bit order, the same spectrum
    table2 = IndexTable([ids[k] for k in order2])
    H2 = add(terms, table2, full).toarray()
    expect(close(np.linalg.eigvalsh(H2), np.linalg.eigvalsh(H), 1e-8),
           "{0}: spectrum depends on the bit order", what)
    return m > 1


# -- spin models --------------------------------------------------------------


@st.composite
def spin_case(draw):
    kind = draw(st.sampled_from(["heisenberg", "complete", "general", "ring"]))
    if kind == "ring":
        d = draw(st.sampled_from(["chain", "square", "triangle"]))
        nums = {"chain": st.integers(2, 5).map(lambda x: [x])}.get(
            d, st.sampled_from([[2, 2], [1, 3], [4, 1]]))
        return {"kind": kind, "name": d, "nums": draw(nums),
                "shift": draw(st.lists(st.integers(-2, 2), min_size=10,
                                       max_size=10)),
                "J": draw(st.sampled_from(VALUES)),
                "nth": draw(st.integers(1, 2))}
    sites = draw(site_lists(2, 5 if kind != "heisenberg" else 3))
    m = len(sites)
    index = st.integers(0, m - 1)
    bonds = draw(st.lists(st.tuples(
        index, index, st.sampled_from(VALUES), st.sampled_from("xyz"),
        st.sampled_from("xyz")).map(list), min_size=1, max_size=6))
    return {"kind": kind, "sites": sites, "bonds": bonds,
            "J": draw(st.sampled_from(VALUES)),
            "perm": draw(st.permutations(range(m))),
            "forder": draw(st.permutations(range(2 * m)))}


def total_spin(n):
    mats = []
    for t in "xyz":
        mats.append(ref.dense([(1.0, [(i, t)]) for i in range(n)], n))
    return mats


def check_spin(case, note):
    kind = case["kind"]
    note(kind)
    what = "spin {0}".format(case)
    if kind == "ring":
        lat = lattice_generator(case["name"], *case["nums"])
        n = lat.point_num
        shifts = [
            np.array(case["shift"][:len(lat.vectors)]) @ lat.vectors
            if (i + case["shift"][5]) % 2 else
            np.array(case["shift"][-len(lat.vectors):]) @ lat.vectors
            for i in range(n)]
        other = Lattice(lat.points + np.array(shifts), lat.vectors)
        spectra = []
        for one in (lat, other):
            table = IndexTable([SiteID(p) for p in one.points])
            terms = []
            intra, inter = one.bonds(case["nth"], fold=True)
            for bond in list(intra) + list(inter):
                p, q = bond.endpoints
                if np.array_equal(p, q):
                    continue
                terms += HeisenbergFactory(p, q, coeff=case["J"])
            if not terms:
                return False
            H = sum(
                t.matrix_repr(table) for t in terms)
            spectra.append(spectrum(H, what))
        expect(close(spectra[0], spectra[1], 1e-8),
               "{0}: spectrum depends on how the lattice is cut", what)
        if case["name"] == "chain" and case["nth"] == 1 and n == 4:
            want = -2 * case["J"] if case["J"] > 0 else case["J"]
            expect(abs(spectra[0][0] - want) < 1e-8,
                   "{0}: ground energy {1} of the four-site ring", what,
                   spectra[0][0])
        return True
    sites = [tuple(s) for s in case["sites"]]
    n = len(sites)
    index = case["perm"]              # spin index of site i
    table = IndexTable(
        [SiteID(sites[index.index(k)]) for k in range(n)])
    terms, model = [], []
    if kind == "complete":
        bonds = [(i, j, case["J"], None, None)
                 for i, j in itertools.combinations(range(n), 2)]
    else:
        bonds = [b for b in case["bonds"] if b[0] != b[1]]
        if not bonds:
            return False
    for i, j, J, a, b in bonds:
        if kind == "general":
            if a == b:
                terms.append(IsingFactory(sites[i], sites[j], a, coeff=J))
            else:
                terms.append(TwoSpinTermFactory(sites[i], sites[j], a, b,
                                                coeff=J))
            model.append((J, [(index[i], a), (index[j], b)]))
        else:
            terms += HeisenbergFactory(sites[i], sites[j], coeff=J)
            model += [(J, [(index[i], t), (index[j], t)]) for t in "xyz"]
    H = sum(t.matrix_repr(table) for t in terms).toarray()
    expect_close(H, ref.dense(model, n), what)
    energies = spectrum(H, what)
    if kind != "general":
        sx, sy, sz = total_spin(n)
        s2 = sx @ sx + sy @ sy + sz @ sz
        for label, op in (("Sx", sx), ("Sz", sz), ("S^2", s2)):
            expect_close(H @ op, op @ H,
                         "{0}: {1} is not conserved".format(what, label))
        if kind == "complete":
            want = case["J"] / 2 * (np.linalg.eigvalsh(s2) - 0.75 * n)
            expect(close(energies, np.sort(want), 1e-8),
                   "{0}: energies {1} instead of {2}", what,
                   energies.tolist(), np.sort(want).tolist())
    if n <= 3:
        # the fermion form on singly occupied states
        forder = case["forder"]
        ids = [StateID(site=sites[k // 2], spin=k % 2) for k in range(2 * n)]
        ftable = IndexTable([ids[k] for k in forder])
        groups = [((forder.index(2 * i), forder.index(2 * i + 1)), 1)
                  for i in range(n)]
        bases = base_vectors(*groups)
        F = 0
        for term in terms:
            for x in term.Schwinger():
                F = F + x.matrix_repr(ftable, bases)
        expect(close(spectrum(F, what), energies, 1e-8),
               "{0}: the fermion form has another spectrum", what)
        note("fermion form")
    return True


# -- clusters coupled by the bonds between them ---------------------------------


@st.composite
def coupled_case(draw):
    name, nums, d = draw(st.sampled_from([
        ("chain", 5, 1), ("square", 4, 2), ("triangle", 4, 2),
        ("honeycomb", 2, 2), ("kagome", 1, 2), ("cubic", 2, 3),
        ("honeycomb_benzene", None, 2)]))
    if nums is not None:
        most = {"kagome": 3, "honeycomb": 3}.get(name, 6)
        nums = [draw(st.integers(1, nums)) for _ in range(d)]
        while int(np.prod(nums)) > most:
            nums[nums.index(max(nums))] -= 1
    return {"name": name, "nums": nums,
            "hop": draw(st.lists(st.sampled_from(VALUES + [0.0]), min_size=1,
                                 max_size=3)),
            "mu": draw(st.sampled_from([0.0, 1.0, -0.4])),
            "k": draw(st.lists(st.sampled_from(
                [0.0, 0.3, -1.1, 2.0, 3.5]), min_size=d, max_size=d)),
            "omegas": draw(st.lists(st.sampled_from(
                [0.0, 0.7, -1.3, 2.2]), min_size=1, max_size=3)),
            "eta": draw(st.sampled_from([0.05, 0.2, 1.0])),
            "count": draw(st.integers(0, 6)),
            "level": draw(st.integers(0, 3)),
            "spin": draw(st.booleans()),
            "solver": draw(st.sampled_from(["exact", "exact", "lanczos"])),
            "structure": draw(st.sampled_from(["dict", "array"])),
            "shuffle": draw(st.integers(0, 10 ** 9)),
            "perm": draw(st.integers(0, 10 ** 9))}


def check_coupled(case, note):
    """
    Without interactions the Green function of a cluster, with the bonds that
    leave it as a perturbation, is the one of the infinite lattice.
    """
    name, nums = case["name"], case["nums"]
    lat = (special_cluster(name) if nums is None
           else lattice_generator(name, *nums))
    what = "coupled clusters {0}".format(case)
    n = lat.point_num
    spin = int(case["spin"])
    k = np.array(case["k"])
    points = lat.points
    hop = case["hop"]
    # the lattice, from its points and translation vectors alone
    crystal = Crystal(points, lat.vectors)
    try:
        shells, pairs = crystal.shells(len(hop) + 1)
    except HarnessBound:
        note("too many pairs")
        return False
    h = np.diag(np.full(n, case["mu"], dtype=complex))
    for dist, i, j, m in pairs:
        for t, d in zip(hop, shells[1:]):
            if abs(dist - d) < 1e-6:
                h[i, j] += t * np.exp(1j * (k @ (np.array(m) @ lat.vectors)))
    want = [np.linalg.inv((w + 1j * case["eta"]) * np.identity(n) - h)
            for w in case["omegas"]]

    # the cluster
    terms = []
    links = []
    for order, t in enumerate(hop, 1):
        intra, inter = lat.bonds(order)
        for bond in intra:
            terms.append(HoppingFactory(*bond.endpoints, spin0=spin, coeff=t))
        links += [(bond, t) for bond in inter]
    terms += [term.dagger() for term in terms]
    terms += [CPFactory(p, spin=spin, coeff=case["mu"]) for p in points]
    table = IndexTable(shuffled(
        [StateID(site=p, spin=spin) for p in points], case["perm"]))
    count = min(max(case["count"], 1), n - 1)
    if n == 1 or case["count"] == 0:
        middle = below = above = base_vectors(n)
        note("all numbers of particles")
    else:
        below, middle, above = [
            base_vectors([n, count + x]) for x in (-1, 0, 1)]
        note("one number of particles")
    H = {}
    for key, basis in (("-", below), ("0", middle), ("+", above)):
        H[key] = np.atleast_2d(add(terms, table, basis).toarray())
    values, vectors = np.linalg.eigh(H["0"])
    pick = min(case["level"], len(values) - 1)
    energy, state = values[pick], vectors[:, pick]
    Cs = [Creator(p, spin=spin) for p in points]
    As = [c.dagger() for c in Cs]
    states = {"-": {a: a.matrix_repr(table, middle, left_bases=below).dot(
        state) for a in As},
        "+": {c: c.matrix_repr(table, middle, left_bases=above).dot(state)
              for c in Cs}}
    order = shuffled(range(n), case["shuffle"])
    omegas = np.array(case["omegas"])
    tol = 1e-7
    kw = {"eta": case["eta"], "structure": case["structure"]}
    rows, cols = [As[i] for i in order], Cs
    if case["solver"] == "lanczos":
        for key in "-+":
            for v in states[key].values():
                if np.linalg.norm(v) < 3e-4 or krylov.stable(
                        H[key], v, 200, 1e-4) is None:
                    note("unstable")
                    return False
        pms, pvs = MultiKrylov(H["+"], states["+"])
        lower = MultiKrylov(H["-"], states["-"])
        pms.update(lower[0])
        pvs.update(lower[1])
        res = gf.RGFSolverLanczosMultiple(
            omegas, rows, cols, energy, pms, pvs, **kw)
        tol = 1e-6 / case["eta"]
    elif middle is below:
        res = gf.RGFSolverExactMultiple(
            omegas, rows, cols, energy, H["0"],
            {**states["-"], **states["+"]}, **kw)
    else:
        res = [gf.GFSolverExactMultiple(
            omegas, rows, cols, energy, H["+"], states["+"], sign="-", **kw),
            gf.GFSolverExactMultiple(
            omegas, cols, rows, energy, H["-"], states["-"], sign="+", **kw)]
        if case["structure"] == "dict":
            res = {(a, c): res[0][a, c] + res[1][c, a]
                   for a in rows for c in cols}
        else:
            res = res[0] + res[1].transpose(1, 0, 2)
    V = np.zeros((n, n), dtype=complex)
    for bond, t in links:
        ends = [lat.decompose(p) for p in bond.endpoints]
        i, j = [lat.getIndex(p) for p, _ in ends]
        V[i, j] += t * np.exp(1j * (k @ (ends[1][1] - ends[0][1])))
    V += V.conj().T
    for w in range(len(omegas)):
        G = np.empty((n, n), dtype=complex)
        for r, i in enumerate(order):
            for j in range(n):
                G[i, j] = (res[As[i], Cs[j]][w]
                           if case["structure"] == "dict" else res[r, j, w])
        got = np.linalg.inv(np.linalg.inv(G) - V)
        expect(close(got, want[w], 20 * tol / case["eta"]),
               "{0}: at {1}\n{2}\ninstead of\n{3}", what, omegas[w],
               got.round(6).tolist(), want[w].round(6).tolist())
    note(name)
    note(case["solver"])
    return any(hop)


SUBS = [
    Sub("bloch", bloch_case, check_bloch, 240, 6000, shards=4),
    Sub("quadratic", quadratic_case, check_quadratic, 300, 10000, shards=4),
    Sub("coupled", coupled_case, check_coupled, 300, 10000, shards=4),
    Sub("interacting", interacting_case, check_interacting, 240, 8000,
        shards=4),
    Sub("spin", spin_case, check_spin, 300, 8000, shards=4),
]
