"""
Krylov spaces built two ways by the harness itself: with full
re-orthogonalisation (the reference) and with the bare three-term recurrence
(only to tell for which inputs that recurrence is numerically meaningful).
"""

import numpy as np


def reference(M, v0, dim, threshold):
    """-> (Q with orthonormal columns, T)"""
    n = M.shape[0]
    q = np.asarray(v0) / np.linalg.norm(v0)
    Q = [q]
    last = None
    while len(Q) < min(dim, n):
        w = M @ Q[-1]
        for _ in range(3):
            for p in Q:
                w = w - np.vdot(p, w) * p
        last = np.linalg.norm(w)
        if last <= threshold:
            break
        Q.append(w / last)
    Q = np.array(Q).T
    T = Q.conj().T @ (M @ Q)
    return Q, T


def plain(M, v0, dim, threshold):
    q = np.asarray(v0) / np.linalg.norm(v0)
    old = np.zeros(len(q), dtype=np.result_type(q, M))
    Q, alphas, betas = [q], [], []
    while True:
        w = M @ q
        a = np.vdot(q, w).real
        alphas.append(a)
        w = w - a * q - (betas[-1] if betas else 0.0) * old
        b = np.linalg.norm(w)
        if len(Q) == dim or b <= threshold:
            break
        betas.append(b)
        old, q = q, w / b
        Q.append(q)
    T = np.diag(alphas) + np.diag(betas, 1) + np.diag(betas, -1)
    return np.array(Q).T, T, b


def stable(M, v0, dim, threshold, tol=1e-9, factor=3):
    """
    The reference, or None when rounding errors of the bare recurrence exceed
    tol or a step is too close to the threshold to say which side it is on.
    Rounding errors are judged by the recurrence itself and by its answers for
    matrices that differ from M by a few units in the last place: another
    order of the same operations has errors of that size.
    """
    Q, T = reference(M, v0, dim, threshold)
    scale = max(1.0, float(np.max(np.abs(T))))
    size = float(np.max(np.abs(M)))
    rng = np.random.default_rng(len(M))
    steps = []
    for ulps in (0, 1, 2, 4):
        N = M
        if ulps:
            a = rng.normal(size=M.shape)
            if np.iscomplexobj(M):
                a = a + 1j * rng.normal(size=M.shape)
            N = M + 1e-16 * ulps * size * (a + a.conj().T)
        P, S, rest = plain(N, v0, dim, threshold)
        if P.shape != Q.shape:
            return None
        if np.max(np.abs(P - Q)) > tol or np.max(np.abs(S - T)) > tol * scale:
            return None
        found = list(np.diag(S, 1))
        if Q.shape[1] < dim:
            # what is left outside the space
            found.append(rest)
        steps.append(found)
    exact = list(np.abs(np.diag(T, 1)))
    if Q.shape[1] < dim:
        w = M @ Q[:, -1]
        for _ in range(3):
            w = w - Q @ (Q.conj().T @ w)
        exact.append(np.linalg.norm(w))
    for values in zip(exact, *steps):
        if any(threshold / factor < b < threshold * factor for b in values):
            return None
        spread = max(values) - min(values)
        if 100 * spread > min(abs(b - threshold) for b in values):
            return None
    return Q, T
