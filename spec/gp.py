"""Reference definitions of the Gaussian-process part: analysed by the same engine, never run."""
import numpy as np
import torch
from sklearn.model_selection import train_test_split


def laplacians(sc):
    return [sc.hodge_laplacian_matrix(rank=1).toarray(), sc.lower_laplacian_matrix(rank=1).toarray(),
            sc.upper_laplacian_matrix(rank=1).toarray()]


def incidence(sc):
    return [sc.incidence_matrix(rank=1).toarray(), sc.incidence_matrix(rank=2).toarray()]


def eigenpairs(sc, tolerance):
    Uh, lh = sc.get_component_eigenpair(component="harmonic", tolerance=tolerance)
    Ug, lg = sc.get_component_eigenpair(component="gradient", tolerance=tolerance)
    Uc, lc = sc.get_component_eigenpair(component="curl", tolerance=tolerance)
    return [Uh, Ug, Uc, lh, lg, lc]


# ------------------------------------------------------------------ kernels
def diffusion(k, lh, lg, lc):
    return torch.exp(-lh), torch.exp(-k.kappa_down * lg), torch.exp(-k.kappa_up * lc)


def diffusion_non_hc(k, lh, lg, lc):
    return torch.exp(-lh), torch.exp(-k.kappa_down * lg), torch.exp(-k.kappa_down * lc)


def matern(k, lh, lg, lc):
    return (k.mu.expand(lh.shape[0], -1).squeeze(),
            torch.pow(2 * k.mu_down / k.kappa_down / k.kappa_down + lg, -k.mu_down),
            torch.pow(2 * k.mu_up / k.kappa_up / k.kappa_up + lc, -k.mu_up))


def matern_non_hc(k, lh, lg, lc):
    a = 2 * k.mu_down / k.kappa_down / k.kappa_down
    return torch.pow(a + lh, -k.mu_down), torch.pow(a + lg, -k.mu_down), torch.pow(a + lc, -k.mu_down)


def laplacian(k, lh, lg, lc):
    return 1 / (1e-3 + lh), 1 / lg, 1 / lc


def weights(k):
    return k.h, k.h_down, k.h_up


def equal_weights(k):
    return 1, 1, 1


def laplacian_weights(k):
    return k.mu, k.kappa_down, k.kappa_up


def covariance(Uh, Ug, Uc, k0, k1, k2, w0, w1, w2, x1, x2):
    a = x1.long().squeeze(-1)
    b = x2.long().squeeze(-1)
    return (w0 * (Uh[a, :] * k0 @ Uh[b, :].T) + w1 * (Ug[a, :] * k1 @ Ug[b, :].T)
            + w2 * (Uc[a, :] * k2 @ Uc[b, :].T))


def dropping(Uh, Ug, Uc, k0, k1, k2, w0, w1, w2, x1, x2):
    a = x1.long().squeeze()
    b = x2.long().squeeze()
    return (w0 * (Uh[a, :] * k0 @ Uh[b, :].T) + w1 * (Ug[a, :] * k1 @ Ug[b, :].T)
            + w2 * (Uc[a, :] * k2 @ Uc[b, :].T))


def diagonal(K):
    return K.diag()


# ------------------------------------------------------------------ trainer
def normalised(a, b, c):
    m, s = torch.mean(a), torch.std(a)
    return (a - m) / s, (b - m) / s, (c - m) / s


def split(sc, y, ratio, normalise, seed):
    x = np.arange(sc.incidence_matrix(rank=1).shape[1])
    parts = train_test_split(x, y, train_size=ratio, random_state=seed)
    a, b, c, d = torch.tensor(parts[0]), torch.tensor(parts[1]), torch.tensor(parts[2]), torch.tensor(parts[3])
    e, f = torch.tensor(x), torch.tensor(y)
    if normalise:
        c, d, f = normalised(c, d, f)
    return a, c, b, d, e, f


def parameters(model):
    k = model.covar_module.base_kernel
    return {
        "raw_noise": model.likelihood.noise_covar.noise.item(),
        "raw_mu": k.mu.item(), "raw_mu_down": k.mu_down.item(), "raw_mu_up": k.mu_up.item(),
        "raw_kappa": k.kappa.item(), "raw_kappa_down": k.kappa_down.item(), "raw_kappa_up": k.kappa_up.item(),
        "raw_h": k.h.item(), "raw_h_down": k.h_down.item(), "raw_h_up": k.h_up.item(),
        "raw_outputscale": model.covar_module.outputscale.item(),
    }


def rebuilt(model, sc):
    p = parameters(model)
    Uh, lh = sc.get_component_eigenpair(component="harmonic")
    Ug, lg = sc.get_component_eigenpair(component="gradient")
    Uc, lc = sc.get_component_eigenpair(component="curl")
    k0 = np.full(len(lh), p["raw_mu"])
    k1 = np.power(2 * p["raw_mu_down"] / p["raw_kappa_down"] / p["raw_kappa_down"] + lg, -p["raw_mu_down"])
    k2 = np.power(2 * p["raw_mu_up"] / p["raw_kappa_up"] / p["raw_kappa_up"] + lc, -p["raw_mu_up"])
    return p["raw_outputscale"] * (p["raw_h"] * (Uh * k0 @ Uh.T) + p["raw_h_down"] * (Ug * k1 @ Ug.T)
                                   + p["raw_h_up"] * (Uc * k2 @ Uc.T))


def variance(K):
    v = np.diag(K)
    if np.isclose(v.min(), v.max()):
        return 0.0
    return v
