"""
Independent reference for a cluster of points with translation vectors:
rigorous enumeration of every lattice point within a given distance.
"""

import itertools

import numpy as np


class HarnessBound(Exception):
    """The enumeration would be too large to be worth it."""


class Crystal:
    """points (n, d) + all integer combinations of the rows of basis (k, d)."""

    def __init__(self, points, basis):
        self.points = np.asarray(points, dtype=float)
        self.basis = np.asarray(basis, dtype=float)
        # dual vectors in the span: dual[i] . basis[j] = delta_ij
        self.dual = np.linalg.pinv(self.basis).T

    def coefficients(self, v):
        return self.dual @ np.asarray(v, dtype=float)

    def in_lattice(self, v, tol=1e-6):
        """-> integer combination equal to v, or None."""
        n = np.rint(self.coefficients(v))
        if np.max(np.abs(n @ self.basis - v)) < tol:
            return tuple(int(x) for x in n)
        return None

    def locate(self, p, tol=1e-6):
        """-> (j, n) with p = points[j] + n . basis, or None."""
        found = []
        for j, q in enumerate(self.points):
            n = self.in_lattice(np.asarray(p, dtype=float) - q, tol)
            if n is not None:
                found.append((j, n))
        if len(found) > 1:
            raise ValueError("oracle: equivalent points in the cluster")
        return found[0] if found else None

    def pairs(self, radius, limit=400000):
        """All (dist, i, j, n): points[j] + n . basis - points[i]."""
        lows, highs = [], []
        for dual in self.dual:
            proj = self.points @ dual
            # n_i = dual_i . (r - (p_j - p_i)) with |r| <= radius
            spread = proj.max() - proj.min()
            bound = np.linalg.norm(dual) * radius + spread + 1e-6
            highs.append(int(np.floor(bound)))
        mesh = np.array(list(itertools.product(
            *[range(-h, h + 1) for h in highs])))
        count = len(mesh) * len(self.points) ** 2
        if count > limit:
            raise HarnessBound("{0} pairs".format(count))
        shift = mesh @ self.basis
        res = []
        for i, p in enumerate(self.points):
            for j, q in enumerate(self.points):
                dist = np.linalg.norm(shift + (q - p), axis=1)
                for k in np.nonzero(dist <= radius)[0]:
                    res.append((float(dist[k]), i, j,
                                tuple(int(x) for x in mesh[k])))
        return res

    def shells(self, count):
        """
        The first `count` distinct distances (0 first) and all pairs up to the
        last one; None when two of them nearly coincide.
        """
        radius = 1.2 * float(np.min(np.linalg.norm(self.basis, axis=1)))
        while True:
            pairs = sorted(self.pairs(radius))
            dists = []
            for d, _, _, _ in pairs:
                if not dists or d - dists[-1] > 1e-7:
                    dists.append(d)
            if len(dists) > count:
                break
            radius *= 1.4
        gaps = np.diff(dists)
        if np.any(gaps < 1e-3):
            return None
        dists = dists[:count]
        return dists, [p for p in pairs if p[0] <= dists[-1] + 1e-6]

    def distance_to_lattice(self, p):
        """Distance from p to the nearest lattice point, if below 1."""
        best = 1.0
        for q in self.points:
            one = Crystal([q], self.basis)
            frac = one.coefficients(np.asarray(p, dtype=float) - q)
            base = np.floor(frac)
            reach = [int(np.ceil(np.linalg.norm(d))) + 1 for d in self.dual]
            for off in itertools.product(*[
                    range(-r, r + 2) for r in reach]):
                r = (base + off) @ self.basis + q - p
                best = min(best, float(np.linalg.norm(r)))
        return best


def canonical_pair(i, j, n):
    """One representative of a pair up to reversal."""
    back = (j, i, tuple(-x for x in n))
    return min((i, j, tuple(n)), back)
