"""
Independent reference for spin-1/2 systems: every basis state is an integer,
bit i is 0 for spin up and 1 for spin down on site i, operators act on them one
at a time.
"""

import numpy as np


def act(otype, bit):
    """S^otype on one spin -> [(amplitude, new bit)]."""
    if otype == "z":
        return [(0.5 if bit == 0 else -0.5, bit)]
    if otype == "x":
        return [(0.5, 1 - bit)]
    if otype == "y":
        return [(0.5j if bit == 0 else -0.5j, 1 - bit)]
    if otype == "p":
        return [(1.0, 0)] if bit == 1 else []
    if otype == "m":
        return [(1.0, 1)] if bit == 0 else []
    raise ValueError(otype)


def apply_string(ops, state):
    """Product [(site, otype)] on one basis state, the last factor first."""
    amps = {state: 1.0}
    for site, otype in reversed(ops):
        new = {}
        for s, a in amps.items():
            for amp, bit in act(otype, (s >> site) & 1):
                t = (s & ~(1 << site)) | (bit << site)
                new[t] = new.get(t, 0) + a * amp
        amps = new
    return amps


def dense(terms, n):
    """Matrix of a sum [(coeff, [(site, otype)])] on n spins."""
    dim = 1 << n
    out = np.zeros((dim, dim), dtype=complex)
    for coeff, ops in terms:
        for col in range(dim):
            for row, amp in apply_string(ops, col).items():
                out[row, col] += coeff * amp
    return out
