"""C25: permutations and combinations, exactly."""

import math

from hypothesis import strategies as st

from core import Sub, expect, raises
from HamiltonianPy.tools.PandC import Combination, Permutation

PROPERTY = "C25"
SCALE = 5
RULE = (
    "A case is n up to 2000 and 0 <= k <= n; small ones are also enumerated. "
    "Non-trivial: n above 20, where floating point is no longer exact.")
ASSUMPTIONS = ["with and without repetition, k never exceeds n"]


@st.composite
def count_case(draw):
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 200),
                       st.integers(0, 2000)))
    k = draw(st.one_of(st.sampled_from([0, 1, 2]), st.integers(0, n),
                       st.sampled_from([n, n - 1, n // 2])))
    return {"n": n, "k": max(0, min(k, n))}


def exact(value, want, what):
    expect(isinstance(value, int) and not isinstance(value, bool),
           "{0}: {1!r} is not an integer", what, value)
    expect(value == want, "{0}: {1} instead of {2}", what, value, want)


def check(case, note):
    n, k = case["n"], case["k"]
    exact(Permutation(n, k), math.perm(n, k), "Permutation{0}".format((n, k)))
    exact(Combination(n, k), math.comb(n, k), "Combination{0}".format((n, k)))
    exact(Permutation(n, k, repeat=True), n ** k,
          "Permutation({0}, {1}, repeat=True)".format(n, k))
    # multisets: n = 0 leaves the empty one only
    want = 1 if k == 0 else math.comb(n + k - 1, k)
    exact(Combination(n, k, repeat=True), want,
          "Combination({0}, {1}, repeat=True)".format(n, k))
    exact(Permutation(n, k, False), math.perm(n, k), "repeat=False")
    exact(Combination(n, k, True), want, "repeat given by position")
    if 0 < k < n:
        exact(Combination(n - 1, k - 1) + Combination(n - 1, k),
              Combination(n, k), "Pascal's rule for {0}".format((n, k)))
        exact(Combination(n, k) * math.factorial(k), Permutation(n, k),
              "orders of a choice of {0}".format((n, k)))
    if n <= 6:
        from itertools import (
            combinations, combinations_with_replacement, permutations, product)
        for f, kw, every in (
                (Permutation, {}, permutations(range(n), k)),
                (Combination, {}, combinations(range(n), k)),
                (Permutation, {"repeat": True}, product(range(n), repeat=k)),
                (Combination, {"repeat": True},
                 combinations_with_replacement(range(n), k))):
            exact(f(n, k, **kw), sum(1 for _ in every),
                  "{0}{1} {2}".format(f.__name__, (n, k), kw))
        note("enumerated")
    note("n > 170" if n > 170 else "n > 20" if n > 20 else "n <= 20")
    if k == n:
        note("k = n")
    return n > 20


@st.composite
def invalid_case(draw):
    n = draw(st.integers(0, 30))
    kind = draw(st.sampled_from(["n<0", "k<0", "k>n", "n type", "k type"]))
    k = draw(st.integers(0, n))
    if kind == "n<0":
        n = -1 - n
    elif kind == "k<0":
        k = -1 - k
    elif kind == "k>n":
        k = n + 1 + k
    elif kind == "n type":
        n = draw(st.sampled_from([float(n), str(n), None, [n], n + 0.5]))
    else:
        k = draw(st.sampled_from([float(k), str(k), None, [k], k + 0.5]))
    return {"n": n, "k": k, "repeat": draw(st.booleans()), "kind": kind}


def check_invalid(case, note):
    note(case["kind"])
    for f in (Permutation, Combination):
        with raises((AssertionError, TypeError, ValueError),
                    "{0}({1!r}, {2!r}, {3})".format(
                        f.__name__, case["n"], case["k"], case["repeat"])):
            f(case["n"], case["k"], repeat=case["repeat"])
    return False


SUBS = [
    Sub("count", count_case, check, 3000, 60000, shards=5),
    Sub("invalid", invalid_case, check_invalid, 500, 5000),
]
