"""C17: Lanczos projection."""

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from core import Sub, expect, raises
from oracles import krylov
from HamiltonianPy import lanczos
from HamiltonianPy.quantumoperator import AoC, SpinOperator

PROPERTY = "C17"
RULE = (
    "A case is a Hermitian matrix with a planned Krylov chain (chosen "
    "diagonal and off-diagonal elements, hidden by a random unitary) or a "
    "random sparse one, real or complex, dense or sparse, with labelled "
    "vectors, a subspace size and a threshold. Non-trivial: a Krylov space of "
    "dimension 3 or more.")
ASSUMPTIONS = [
    "only inputs on which the bare three-term recurrence (the harness's own "
    "copy) agrees with full re-orthogonalisation to 1e-9 and no step lies "
    "within a factor 1.05 of the threshold; the others are counted as 'unstable'",
    "results compared to 1e-7",
]
TOL = 1e-7


def hidden(rng, n, complex_):
    a = rng.normal(size=(n, n))
    if complex_:
        a = a + 1j * rng.normal(size=(n, n))
    q, _ = np.linalg.qr(a)
    return q


@st.composite
def planned_case(draw):
    m = draw(st.integers(1, 14))
    alphas = draw(st.lists(st.sampled_from(
        [0, 1, -1, 0.5, 2, -2.5, 3, 0.25]), min_size=m, max_size=m))
    betas = draw(st.lists(st.sampled_from([1, 0.5, 2, 1.5, 0.75]),
                          min_size=m - 1, max_size=m - 1))
    small = draw(st.sampled_from([None, None, 5e-3, 1e-3, 2e-5, 1e-6]))
    threshold = draw(st.sampled_from([None, None, None, 1e-8, 1e-2, 1e-3]))
    if small is None:
        # next to the threshold, on either side
        small = draw(st.sampled_from([None, None, 1.2, 0.8, 1.6, 2.5]))
        if small is not None:
            small *= threshold or 1e-4
    if small is not None and m > 1:
        betas[draw(st.integers(0, m - 2))] = small
    return {"alphas": alphas, "betas": betas,
            "rest": draw(st.integers(0, 10)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "complex": draw(st.booleans()),
            "sparse": draw(st.sampled_from(FORMS)), "store": draw(STORES),
            "norm": draw(st.sampled_from([1.0, 2.5, 0.1, 100.0, 1e-2, 1e-6, 1.00007,
                                          0.99994, 1 - 3e-6, 1.2e-4, 8e-5])),
            "dim": draw(st.one_of(st.integers(1, m + 3), st.just(200))),
            "threshold": threshold,
            "labels": draw(st.integers(0, 4))}


def make(form, M):
    if form == "csr":
        return sparse.csr_matrix(M)
    if form == "csc":
        return sparse.csc_matrix(M)
    if form in ("coo", "lil", "bsr", "dia"):
        return getattr(sparse, form + "_matrix")(M)
    if form == "F":
        return np.asfortranarray(M)
    if form == "strided":
        wide = np.zeros((len(M), 2 * len(M)), dtype=M.dtype)
        wide[:, 1::2] = M
        return wide[:, 1::2]
    if form == "readonly":
        M = M.copy()
        M.flags.writeable = False
    return M


def store(v, how):
    """The same vector, otherwise stored."""
    if how == "reversed":
        return v[::-1].copy()[::-1]
    if how == "column":
        wide = np.zeros((len(v), 3), dtype=v.dtype)
        wide[:, 1] = v
        return wide[:, 1]
    if how == "readonly":
        v = v.copy()
        v.flags.writeable = False
    if how == "narrow" and v.dtype.kind == "i":
        return v.astype(np.int8)
    return v


FORMS = ["dense", "csr", "csc", "F", "dense", "csr", "coo", "lil", "bsr",
         "dia", "strided", "readonly"]
STORES = st.sampled_from([None, None, "reversed", "column", "readonly",
                          "narrow"])


LABELS = [
    "a", 7, ("b", 1), AoC(1, site=[0, 0], spin=1), SpinOperator("x", [1, 0]),
    AoC(0, site=[0, 0], spin=1), 0.5, frozenset([1])]


class threshold:
    def __init__(self, value):
        self.value = value

    def __enter__(self):
        if self.value is not None:
            lanczos.set_threshold(self.value)
        return 1e-4 if self.value is None else self.value

    def __exit__(self, *exc):
        lanczos.set_threshold()


def verify(result, Q, T, vectors, what):
    expect(isinstance(result, tuple) and len(result) == 2, "{0}: {1}", what,
           type(result))
    pm, pv = result
    expect(isinstance(pm, np.ndarray) and pm.shape == T.shape,
           "{0}: projected matrix {1} instead of {2}", what,
           getattr(pm, "shape", type(pm)), T.shape)
    expect(not np.iscomplexobj(pm), "{0}: complex projected matrix", what)
    expect(np.array_equal(pm, pm.T), "{0}: not symmetric", what)
    expect(not np.any(np.triu(pm, 2)), "{0}: not tridiagonal", what)
    scale = max(1.0, float(np.max(np.abs(T))))
    off = float(np.max(np.abs(pm - T)))
    expect(off <= TOL * scale, "{0}: projected matrix off by {1}\n{2}\n{3}",
           what, off, pm.tolist(), T.tolist())
    expect(set(pv) == set(vectors), "{0}: labels {1}", what, list(pv))
    for key, v in vectors.items():
        want = Q.conj().T @ v
        got = pv[key]
        expect(isinstance(got, np.ndarray) and got.shape == want.shape,
               "{0}: components of {1!r} have shape {2}", what, key,
               getattr(got, "shape", type(got)))
        off = float(np.max(np.abs(got - want)))
        expect(off <= TOL * max(1.0, float(np.linalg.norm(v))),
               "{0}: components of {1!r} off by {2}", what, key, off)


class Unchanged:
    def __init__(self, M, vectors, what):
        self.what = what
        self.M = M
        self.vectors = vectors
        self.keys = list(vectors)
        self.values = list(vectors.values())
        self.dense = self.copy_of(M)
        self.copies = [v.copy() for v in self.values]

    @staticmethod
    def copy_of(M):
        return M.toarray() if sparse.issparse(M) else M.copy()

    def check(self):
        expect(np.array_equal(self.copy_of(self.M), self.dense),
               "{0}: the matrix was modified", self.what)
        expect(list(self.vectors) == self.keys and all(
            a is b for a, b in zip(self.vectors.values(), self.values)),
            "{0}: the dictionary was modified", self.what)
        expect(all(np.array_equal(a, b)
                   for a, b in zip(self.values, self.copies)),
               "{0}: a vector was modified", self.what)


def moments(M, v0, pm, what):
    """The projection keeps 2 * dim - 1 moments along v0."""
    k = len(pm)
    e = np.zeros(k)
    e[0] = 1
    v = v0 / np.linalg.norm(v0)
    size = max(1.0, float(np.max(np.abs(np.linalg.eigvalsh(M)))))
    left, small = v, e
    for p in range(min(2 * k, 9)):
        a = np.vdot(v, left)
        b = e @ small
        expect(abs(a - b) <= 1e-7 * size ** p, "{0}: moment {1} is {2} "
               "instead of {3}", what, p, b, a)
        left, small = M @ left, pm @ small


def check_planned(case, note):
    m = len(case["alphas"])
    n = m + case["rest"]
    rng = np.random.default_rng(case["seed"])
    T = np.diag(np.array(case["alphas"], dtype=float))
    if m > 1:
        b = np.array(case["betas"], dtype=float)
        T += np.diag(b, 1) + np.diag(b, -1)
    block = np.zeros((n, n))
    block[:m, :m] = T
    block[m:, m:] = np.diag(rng.integers(-3, 4, size=case["rest"]))
    U = hidden(rng, n, case["complex"])
    M = U @ block @ U.conj().T
    M = (M + M.conj().T) / 2
    v0 = U[:, 0] * case["norm"]
    # with an exact basis at hand there is nothing to re-orthogonalise
    vectors = {}
    for i in range(case["labels"]):
        v = rng.normal(size=n)
        if case["complex"] or i % 2:
            v = v + 1j * rng.normal(size=n)
        vectors[LABELS[i]] = v
    with threshold(case["threshold"]) as thr:
        if case["norm"] < thr * 1.05:
            if case["norm"] < thr / 1.05:
                note("zero start")
                with raises(ValueError, "start of norm {0}, threshold {1}"
                            .format(case["norm"], thr)):
                    lanczos.KrylovRepresentation(M, vectors, v0)
            return False
        ref = krylov.stable(M, v0, case["dim"], thr, factor=1.05)
        if ref is None:
            note("unstable")
            return False
        stop = m
        for i, beta in enumerate(case["betas"]):
            if beta <= thr:
                stop = i + 1
                break
        size = min(stop, case["dim"])
        Q, T_ref = U[:, :size], T[:size, :size]
        if ref[0].shape[1] != size or max(
                np.max(np.abs(ref[1] - T_ref)),
                np.max(np.abs(ref[0] - Q))) > 1e-9:
            note("unstable")
            return False
        what = "KrylovRepresentation {0}".format(case)
        form = make(case["sparse"], M)
        vectors = {k: store(v, case["store"]) for k, v in vectors.items()}
        v0 = store(v0, case["store"])
        guard = Unchanged(form, vectors, what)
        copy = v0.copy()
        if case["dim"] == 200:
            got = lanczos.KrylovRepresentation(form, vectors, v0)
        else:
            got = lanczos.KrylovRepresentation(
                form, vectors, v0, krylov_space_dim=case["dim"])
        guard.check()
        expect(np.array_equal(copy, v0), "{0}: v0 modified", what)
        verify(got, Q, T_ref, vectors, what)
        if case["threshold"] is None and size == min(m, case["dim"]):
            moments(M, v0, got[0], what)
    note("dim {0}".format(min(size, 12)))
    note("early stop" if size < case["dim"] else "full")
    note(case["sparse"])
    note("complex" if case["complex"] else "real")
    return size >= 3


@st.composite
def random_case(draw):
    n = draw(st.integers(1, 40))
    return {"n": n, "seed": draw(st.integers(0, 10 ** 6)),
            "kind": draw(st.sampled_from(
                ["int", "real", "complex", "banded", "diagonal", "zero"])),
            "v": draw(st.sampled_from(
                ["int", "real", "complex", "unit", "sparse"])),
            "form": draw(st.sampled_from(FORMS)), "store": draw(STORES),
            "dim": draw(st.one_of(st.integers(1, min(n, 12)),
                                  st.integers(1, n), st.just(200))),
            "labels": draw(st.integers(1, 4)),
            "zero": draw(st.sampled_from([False, False, False, True])),
            "tiny": draw(st.booleans())}


def random_matrix(rng, n, kind):
    if kind == "int":
        a = rng.integers(-2, 3, size=(n, n))
        return (a + a.T)
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "diagonal":
        return np.diag(rng.integers(-4, 5, size=n).astype(float))
    a = rng.normal(size=(n, n))
    if kind == "complex":
        a = a + 1j * rng.normal(size=(n, n))
    if kind == "banded":
        a = np.triu(np.tril(a, 2), -2)
    return (a + a.conj().T) / 2


def random_vector(rng, n, kind):
    if kind == "int":
        return rng.integers(-3, 4, size=n)
    if kind == "unit":
        v = np.zeros(n)
        v[rng.integers(n)] = 1.0
        return v
    if kind == "sparse":
        return rng.normal(size=n) * (rng.random(n) < 0.3)
    v = rng.normal(size=n)
    return v + 1j * rng.normal(size=n) if kind == "complex" else v


def check_random(case, note):
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    M = random_matrix(rng, n, case["kind"])
    vectors = {}
    for i in range(case["labels"]):
        kind = case["v"] if i == 0 else ["real", "complex", "int"][i % 3]
        vectors[LABELS[(i + case["seed"]) % len(LABELS)]] = random_vector(
            rng, n, kind)
    if case["zero"]:
        key = list(vectors)[-1]
        vectors[key] = vectors[key] * 0
        if case["tiny"]:
            # viewed as zero as long as the norm stays below the threshold
            vectors[key] = vectors[key] + (
                [1e-6, 8e-5, 1.3e-4][case["seed"] % 3] / np.sqrt(n))
    norms = {k: float(np.linalg.norm(v)) for k, v in vectors.items()}
    if any(9.5e-5 < x < 1.05e-4 for x in norms.values()):
        return False
    form = make(case["form"], M)
    vectors = {k: store(v, case["store"]) for k, v in vectors.items()}
    what = "MultiKrylov {0}".format(case)
    kw = {} if case["dim"] == 200 else {"krylov_space_dim": case["dim"]}
    guard = Unchanged(form, vectors, what)
    zero = [k for k, x in norms.items() if x < 1e-4]
    if zero:
        note("zero start")
        with raises(ValueError, what):
            lanczos.MultiKrylov(form, vectors, **kw)
        with raises(ValueError, what):
            lanczos.KrylovRepresentation(form, vectors, vectors[zero[0]], **kw)
        guard.check()
        return False
    refs = {}
    for key, v in vectors.items():
        refs[key] = krylov.stable(M, v, case["dim"], 1e-4, factor=1.05)
    if all(r is None for r in refs.values()):
        note("unstable")
        return False
    pms, pvs = lanczos.MultiKrylov(form, vectors, **kw)
    guard.check()
    expect(set(pms) == set(vectors) and set(pvs) == set(vectors),
           "{0}: labels {1} {2}", what, list(pms), list(pvs))
    deep = False
    for key, ref in refs.items():
        if ref is None:
            continue
        Q, T = ref
        single = lanczos.KrylovRepresentation(form, vectors, vectors[key],
                                              **kw)
        verify(single, Q, T.real, vectors, "{0} start {1!r}".format(what, key))
        verify((pms[key], pvs[key]), Q, T.real, vectors,
               "{0} label {1!r}".format(what, key))
        moments(M, vectors[key], single[0], what)
        deep = deep or Q.shape[1] >= 3
        note("exhausted" if Q.shape[1] < min(case["dim"], n) else "size")
    guard.check()
    note(case["kind"])
    return deep


@st.composite
def large_case(draw):
    """Chains longer than the default size of the subspace."""
    case = draw(planned_case())
    m = draw(st.sampled_from([230, 60, 120, 201, 200, 30]))
    rng = np.random.default_rng(case["seed"])
    # nearly uniform: no Ritz value converges, so rounding errors stay small
    case["alphas"] = (np.round(0.04 * rng.uniform(-1, 1, size=m), 3) + draw(
        st.sampled_from([0, 0.5, -2]))).tolist()
    case["betas"] = np.round(draw(st.sampled_from([1, 0.5, 2]))
                             + 0.01 * rng.uniform(-1, 1, size=m - 1),
                             3).tolist()
    case["dim"] = draw(st.sampled_from([200, 25, m - 1, m, m // 2, 201]))
    if draw(st.integers(0, 3)) == 0:
        case["betas"][int(rng.integers(m // 2, m - 1))] = draw(
            st.sampled_from([1e-6, 5e-3, 2e-5]))
    case["labels"] = draw(st.integers(0, 2))
    case["threshold"] = None
    case["rest"] = 0
    case["norm"] = draw(st.sampled_from([1.0, 2.5, 100.0, 1e-2, 1.00007]))
    return case


SUBS = [
    Sub("large", large_case, check_planned, 60, 1000, shards=4),
    Sub("planned", planned_case, check_planned, 3000, 60000, shards=4),
    Sub("random", random_case, check_random, 2000, 40000, shards=4),
]
