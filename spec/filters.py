"""Reference definitions of the filters: analysed by the same engine, never run."""
import cvxpy as cp
import numpy as np


def nrmse(a, b):
    return np.linalg.norm(a - b) / np.linalg.norm(b)


def coefficients(component, L1, Uh, eh, Uc, ec, eg, listed):
    values = np.concatenate((eh, ec, eg))
    # one place per edge, or per eigenvalue found: the order reads the same ones
    mask = np.zeros(len(values)) if listed else np.zeros(L1.shape[0])
    nh = Uh.shape[1]
    nc = Uc.shape[1]
    if component == "harmonic":
        mask[:nh] = 1
    elif component == "curl":
        mask[nh:nh + nc] = 1
    else:
        mask[nh + nc:] = 1
    return mask[np.argsort(values)]


def learned(f, f_true, P, U, x, alpha, L):
    A = np.zeros((len(x), L))
    errors = np.zeros(L)
    responses = np.zeros((L, len(U)))
    estimate = None
    H = None
    for l in range(L):
        A[:, l] = x ** l
        h = np.linalg.lstsq(A, alpha, rcond=None)[0]
        H = np.zeros(P.shape, dtype=float)
        for i in range(L):
            H += h[i] * np.linalg.matrix_power(P, i)
        estimate = H @ f
        errors[l] = nrmse(estimate, f_true)
        responses[l] = np.diag(U.T @ H @ U)
    return {"filter": H, "f_estimated": estimate, "frequency_responses": responses,
            "extracted_component_error": errors}


def distinct(w, tol):
    return np.unique(np.where(np.abs(w) < tol, 0, w))


def above_zero(w):
    return np.where(w > 0, 1, 0)


def iterate(P, n):
    v = np.ones(P.shape[0])
    for _ in range(n):
        v = P @ v
        v = v / np.linalg.norm(v)
    return v + np.finfo(float).eps


def largest(P, n):
    v = iterate(P, n)
    return np.mean((P @ v) / v)


def grid(P, m, n):
    return np.linspace(0, largest(P, n), m)


def low_pass(x, mu):
    return 1 / (1 + mu * x)


def logistic(x, cut, steep):
    return 1 / (1 + np.exp(-steep * (x - cut)))


def denoised(f, f_true, P, U, mus):
    n = P.shape[0]
    errors = np.zeros(len(mus))
    responses = np.zeros((len(mus), n))
    H = None
    estimate = None
    for i in range(len(mus)):
        H = np.linalg.inv(np.eye(n) + mus[i] * P)
        estimate = H @ f
        errors[i] = nrmse(estimate, f_true)
        responses[i] = np.diag(U.T @ H @ U)
    return {"filter": H, "f_estimated": estimate, "frequency_responses": responses,
            "extracted_component_error": errors}


def response_at(w, mus):
    responses = np.zeros((len(mus), len(w)))
    for i in range(len(mus)):
        responses[i] = 1 / (1 + mus[i] * w)
    return responses


def cheb_sum(P, c, a, order):
    I = np.eye(P.shape[0])
    X = (P - a * I) / a
    T = [I, X]
    for k in range(2, order):
        T.append(2 * X @ T[k - 1] - T[k - 2])
    total = np.zeros(P.shape)
    for k in range(order):
        total = total + c[k] * T[k]
    return total


def ideal(U, c):
    return U @ np.diag(c) @ U.T


def noise_power(flow, snr_db, n):
    snr = 10 ** (snr_db / 10)
    return np.linalg.norm(flow, 2) / snr / n, snr


def summary(flow, D, out, levels, runs):
    """Means over the realisations of every level."""
    errors = np.zeros((levels, runs))
    sizes = np.zeros((levels, runs))
    corrs = np.zeros((levels, runs))
    for i in range(levels):
        for j in range(runs):
            errors[i, j] = nrmse(out[:, i, j], flow)
            sizes[i, j] = np.linalg.norm(D @ out[:, i, j])
            corrs[i, j] = np.corrcoef(flow, out[:, i, j])[0, 1]
    return {"errors": np.mean(errors, axis=1), "component_flow": np.mean(sizes, axis=1), "correlations": np.mean(corrs, axis=1)}


def quadratic(P, n, mu):
    return np.linalg.inv(np.eye(n) + mu * P)


def trend_l2(flow, P, n, runs, snr_db, mu):
    power, snr = noise_power(flow, snr_db, n)
    H = quadratic(P, n, mu)
    out = np.zeros((n, len(snr), runs))
    for i in range(len(snr)):
        for j in range(runs):
            noisy = flow + power[i] * np.random.randn(n, 1).flatten()
            out[:, i, j] = H @ noisy
    return out


def solved(n, data, R, weight):
    x = cp.Variable(n)
    objective = cp.Minimize(1 * cp.norm(data - x) + weight * cp.norm(R @ x, p=1))
    problem = cp.Problem(objective)
    problem.solve()
    return x.value


def trend_l1(flow, R, n, runs, snr_db, weight):
    power, snr = noise_power(flow, snr_db, n)
    out = np.zeros((n, len(snr), runs))
    for i in range(len(snr)):
        for j in range(runs):
            noisy = flow + power[i] * np.random.randn(n, 1).flatten()
            out[:, i, j] = solved(n, noisy, R, weight)
    return out


def trend_interpolation(flow, R, n, runs, ratio, weight):
    out = np.zeros((n, len(ratio), runs))
    for i in range(len(ratio)):
        M = np.floor(n * ratio[i]).astype(int)
        for j in range(runs):
            mask = np.zeros(n)
            mask[np.random.choice(n, M, replace=False)] = 1
            S = np.diag(mask)
            S = S[np.any(S, axis=1), :]
            known = flow * mask
            x = cp.Variable(n)
            objective = cp.Minimize(1 * cp.norm(x - known) + weight * cp.norm(R @ x, p=1))
            problem = cp.Problem(objective, [S @ x == S @ known])
            problem.solve()
            out[:, i, j] = x.value
    return out


def cheb_scale(P):
    top = largest(P, 50)
    return top / 2, top


def cheb_record(H, f, f_true, U, ideal, L, n):
    est = np.zeros((L, n))
    emb = np.zeros((L, n))
    err = np.zeros(L)
    ferr = np.zeros(L)
    for k in range(L):
        M = np.squeeze(H[k, :, :])
        ferr[k] = np.linalg.norm(M - ideal, ord=2)
        est[k] = M @ f
        err[k] = nrmse(est[k], f_true)
        emb[k] = U.T @ est[k]
    return {"f_estimated": est, "frequency_responses": emb, "extracted_component_error": err, "filter_error": ferr}


def cheb_record_wrong(H, f, f_true, U, ideal, L, n):
    est = np.zeros((L, n))
    by = np.zeros(L)
    plain = np.zeros(L)
    against = np.zeros(L)
    fro = np.zeros(L)
    for k in range(L):
        M = np.squeeze(H[k, :, :])
        est[k] = M @ f
        by[k] = nrmse(f_true, est[k])
        plain[k] = np.linalg.norm(est[k] - f_true)
        against[k] = nrmse(est[k], f)
        fro[k] = np.linalg.norm(M - ideal)
    return {"by": by, "plain": plain, "against": against, "fro": fro}


def iterate_plain(P, iterations):
    v = np.ones(P.shape[0])
    for _ in range(iterations):
        v = P @ v
    return v + np.finfo(float).eps
