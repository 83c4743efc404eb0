"""
Independent reference for fermions in the occupation-number representation.

Kets are Python integers, operators act on them one at a time; nothing here
shares code or integer widths with the library.
"""


def enumerate_space(groups):
    """All kets of disjoint groups [(states, p)], p < 0: unconstrained."""
    kets = [0]
    for states, p in groups:
        states = list(states)
        local = []
        for mask in range(1 << len(states)):
            if p >= 0 and bin(mask).count("1") != p:
                continue
            ket = 0
            for i, s in enumerate(states):
                if mask & (1 << i):
                    ket |= 1 << s
            local.append(ket)
        kets = [a | b for a in kets for b in local]
    return sorted(kets)


def apply_op(index, creation, ket):
    """-> (sign, ket) or None. sign counts occupied states below `index`."""
    occupied = (ket >> index) & 1
    if bool(creation) == bool(occupied):
        return None
    below = ket & ((1 << index) - 1)
    sign = -1 if bin(below).count("1") & 1 else 1
    return sign, ket ^ (1 << index)


def apply_string(ops, ket):
    """Apply a product [(index, creation)], the last factor first."""
    sign = 1
    for index, creation in reversed(ops):
        res = apply_op(index, creation, ket)
        if res is None:
            return None
        sign *= res[0]
        ket = res[1]
    return sign, ket


def elements(ops, right, left):
    """
    -> ({(row, col): sign}, missing) where `missing` tells that some image is
    outside of `left`.
    """
    where = {int(ket): i for i, ket in enumerate(left)}
    res = {}
    missing = False
    for col, ket in enumerate(right):
        image = apply_string(ops, int(ket))
        if image is None:
            continue
        if image[1] not in where:
            missing = True
            continue
        res[(where[image[1]], col)] = image[0]
    return res, missing


def dense(terms, right, left=None):
    """Dense matrix of a sum [(coeff, ops)]; images outside are an error."""
    import numpy as np
    if left is None:
        left = right
    out = np.zeros((len(left), len(right)), dtype=complex)
    for coeff, ops in terms:
        elems, missing = elements(ops, right, left)
        if missing:
            raise ValueError("oracle: an image lies outside the target basis")
        for (i, j), sign in elems.items():
            out[i, j] += coeff * sign
    return out
