"""Reference definitions for complexes: analysed by the same engine, never run."""
import numpy as np


def B1(nodes, edges):
    M = np.zeros((len(nodes), len(edges)))
    for j in range(len(edges)):
        M[edges[j][0], j] = -1
        M[edges[j][1], j] = 1
    return M


def down(B):
    return B.T @ B


def up(B):
    return B @ B.T


def hodge(Bk, Bk1):
    return Bk.T @ Bk + Bk1 @ Bk1.T


def adjacency(nodes, edges):
    A = np.zeros((len(nodes), len(nodes)))
    for u, v in edges:
        A[u, v] = 1
        A[v, u] = 1
    return A


def adjacency_from_B1(B1):
    n, m = B1.shape
    A = np.zeros((n, n))
    for j in range(m):
        e = np.where(B1[:, j] != 0)[0]
        A[e[0], e[1]] = 1
        A[e[1], e[0]] = 1
    return A


def lower_shift(B1, f, k):
    L = B1.T @ B1
    for _ in range(k):
        f = L @ f
    return f


def upper_shift(B2, f, k):
    L = B2 @ B2.T
    for _ in range(k):
        f = L @ f
    return f


def k_step(B1, B2, f, k):
    return lower_shift(B1, f, k) + upper_shift(B2, f, k)


def divergence(B1, f):
    return B1 @ f


def curl(B2, f):
    return B2.T @ f


def gradient_flow(B1, f):
    return B1.T @ (np.linalg.pinv(B1.T) @ f)


def curl_flow(B2, f):
    return B2 @ (np.linalg.pinv(B2) @ f)


def harmonic_flow(B1, B2, f):
    return f - gradient_flow(B1, f) - curl_flow(B2, f)


def rounded(x, d):
    return np.round(x, d)


def total_variance(B1):
    L = B1 @ B1.T
    w, U = np.linalg.eigh(L)
    return np.diag(U.T @ L @ U)


def spectrum(L):
    w, U = np.linalg.eigh(L)
    w[np.abs(w) < np.finfo(float).eps] = 0
    return U, w


def plain_spectrum(L):
    w, U = np.linalg.eigh(L)
    return U, w


def nonzero_pairs(L, tol):
    U, w = spectrum(L)
    keep = w > tol
    return U[:, keep], w[keep]


def zero_pairs(L, tol):
    U, w = spectrum(L)
    keep = w <= tol
    return U[:, keep], w[keep]


def plain_nonzero_pairs(L, tol):
    w, U = np.linalg.eigh(L)
    keep = w > tol
    return U[:, keep], w[keep]


def plain_zero_pairs(L, tol):
    w, U = np.linalg.eigh(L)
    keep = w <= tol
    return U[:, keep], w[keep]


def embed(U, f):
    return U.T @ f


def names_of(features):
    if len(features) == 0:
        return []
    return list(list(features.values())[0].keys())


def column(features, name):
    return {k: v[name] for k, v in features.items()}


def simplices(nodes, edges, triangles):
    return [(n,) for n in nodes] + edges + triangles
