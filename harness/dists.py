"""Distributions: parameter vectors and responses for the scenarios (nothing here uses the implementation's functions)."""
import numpy as np

LAWS = ["Normal", "NormalMeanVariance", "StudentT", "JSU", "Beta", "BetaInflated", "BetaInflatedZero", "Gamma", "ZeroAdjustedGamma",
        "LogNormal", "LogNormalMedian", "Logistic", "Exponential", "Gumbel", "ReverseGumbel", "InverseGaussian", "InverseGamma"]
REAL = {"Normal", "NormalMeanVariance", "StudentT", "JSU", "Logistic", "Gumbel", "ReverseGumbel"}
UNIT = {"Beta", "BetaInflated", "BetaInflatedZero"}
ATOMS = {"BetaInflated": (0.0, 1.0), "BetaInflatedZero": (0.0,), "ZeroAdjustedGamma": (0.0,)}
NPAR = {"Exponential": 1, "StudentT": 3, "BetaInflatedZero": 3, "ZeroAdjustedGamma": 3, "JSU": 4, "BetaInflated": 4}
REGIMES = ["core", "wide", "edge"]


def npar(law):
    return NPAR.get(law, 2)


def cls(law):
    import ondil.distributions as D
    return getattr(D, law)


def logu(r, a, b, n):
    return np.exp(r.uniform(np.log(a), np.log(b), n))


def theta(r, law, n, regime):
    """n parameter vectors"""
    core, wide = regime == "core", regime == "wide"
    if law in REAL:
        mu = r.normal(size=n) * (2 if core else 50)
        sg = logu(r, 0.5, 2, n) if core else logu(r, 0.02, 50, n) if wide else logu(r, 1e-4, 1e4, n)
        cols = [mu, sg]
        if law == "StudentT":
            cols.append(logu(r, 2.5, 20, n) if core else logu(r, 0.4, 1e3, n) if wide else r.choice([1.0, 2.0, 1.5, 2.001, 1e4, 3.0], n))
        if law == "JSU":
            cols += [r.normal(size=n) * (0.7 if core else 3), logu(r, 0.8, 3, n) if core else logu(r, 0.3, 10, n)]
    elif law in UNIT:
        mu = r.uniform(0.2, 0.8, n) if core else r.uniform(0.02, 0.98, n)
        sg = r.uniform(0.2, 0.7, n) if core else r.uniform(0.05, 0.95, n)
        cols = [mu, sg]
        for _ in range(npar(law) - 2):
            cols.append(logu(r, 0.1, 3, n) if core else logu(r, 1e-3, 1e3, n) if wide else logu(r, 1e-5, 1e5, n))
    else:
        mu = logu(r, 0.5, 3, n) if core else logu(r, 0.02, 100, n) if wide else logu(r, 1e-3, 1e4, n)
        if law == "LogNormal":
            mu = np.log(mu)
        if law == "InverseGaussian":
            mu = np.clip(mu, 0.03, 100)
        cols = [mu]
        if law != "Exponential":
            cols.append(logu(r, 0.3, 1.2, n) if core else logu(r, 0.05, 3, n) if wide else logu(r, 0.03, 2, n))
        if law == "ZeroAdjustedGamma":
            cols.append(r.uniform(0.1, 0.8, n) if core else r.uniform(0.001, 0.999, n) if wide else r.choice([1e-4, 1e-3, 0.02, 0.5, 0.98, 0.995, 0.9999], n))
    return np.column_stack(cols)


def response(r, law, th, regime):
    """one response per parameter vector, inside the support"""
    n = len(th)
    if law in REAL:
        s = np.sqrt(th[:, 1]) if law == "NormalMeanVariance" else th[:, 1]
        z = r.normal(size=n) if regime == "core" else r.standard_t(2, size=n) * 1.5
        y = th[:, 0] + s * np.clip(z, -25, 6 if law == "Gumbel" else 25)
        if law == "ReverseGumbel":
            y = th[:, 0] + s * np.clip(z, -5.5, 25)
    elif law in UNIT:
        y = r.beta(2, 2, n) if regime == "core" else r.beta(0.6, 0.6, n)
        y = np.clip(y, 1e-9, 1 - 1e-9)
    else:
        m = np.exp(th[:, 0]) if law == "LogNormal" else th[:, 0]
        s = np.minimum(th[:, 1], 1.5) if th.shape[1] > 1 else 1.0
        if law == "InverseGaussian":
            s = np.minimum(s * np.sqrt(m), 1.5)
        y = m * np.exp(np.clip(s * r.normal(size=n) * (1 if regime == "core" else 1.8), -4, 3))
    for a in ATOMS.get(law, ()):
        y = np.where(r.random(n) < 0.2, a, y)
    return y


def middle(law, th):
    return np.exp(th[:, 0]) if law == "LogNormal" else th[:, 0]


def spread(law, th):
    """rough scale of the law around its middle"""
    if law in REAL:
        return np.sqrt(th[:, 1]) if law == "NormalMeanVariance" else th[:, 1]
    return middle(law, th) * (np.minimum(th[:, 1], 1) if th.shape[1] > 1 else 1)
