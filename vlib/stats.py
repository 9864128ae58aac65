"""Goodness-of-fit oracles with two-stage confirmation, thresholds far below any multiple-testing concern."""
import numpy as np
from scipy import stats as st

P1 = 1e-5   # first stage: suspicious
P2 = 1e-7   # second stage (fresh, larger sample) must also be below: joint false-alarm rate <= 1e-12


def gof_p(idx, p):
    """p-value of observed state indices against probabilities p (lumps small cells)."""
    p = np.asarray(p, float)
    p = np.clip(p, 0, None)
    p = p / p.sum()
    n = len(idx)
    obs = np.bincount(idx, minlength=len(p)).astype(float)
    order = np.argsort(p)
    exp = p[order] * n
    o = obs[order]
    # lump the smallest cells until the lump has expectation >= 5
    c = np.cumsum(exp)
    k = int(np.searchsorted(c, 5.0))
    big_o, big_e = o[k + 1:], exp[k + 1:]
    lump_o, lump_e = o[:k + 1].sum(), exp[:k + 1].sum()
    if lump_e < 1e-6 * n and lump_o > max(5, 50 * lump_e + 5):
        return 0.0
    if len(big_e) == 0:
        return 1.0
    # the lump may have small expectation: merge it if < 5
    if lump_e < 5:
        j = int(np.argmin(big_e))
        if lump_o > 30 + 10 * lump_e:
            return 0.0
        big_o[j] += lump_o
        big_e[j] += lump_e
        O, E = big_o, big_e
    else:
        O, E = np.append(big_o, lump_o), np.append(big_e, lump_e)
    if len(E) < 2:
        return 1.0
    chi = ((O - E) ** 2 / E).sum()
    return float(st.chi2.sf(chi, len(E) - 1))


def confirm_gof(draw, p, n, grow=3):
    """draw(n)->indices. Returns None if consistent, else (p1, p2, observed, expected)."""
    i1 = draw(n)
    p1 = gof_p(i1, p)
    if p1 > P1:
        return None
    i2 = draw(n * grow)
    p2 = gof_p(i2, p)
    if p2 > P2:
        return None
    f = np.bincount(i2, minlength=len(p)) / len(i2)
    worst = np.argsort(-np.abs(f - p / p.sum()))[:4]
    return p1, p2, {int(w): (float(f[w]), float(p[w] / p.sum())) for w in worst}


def ks_p(sample, cdf_x, cdf_y):
    """KS p-value of a sample against a tabulated cdf."""
    u = np.interp(np.asarray(sample, float), cdf_x, cdf_y)
    return float(st.kstest(u, "uniform").pvalue)


def confirm_ks(draw, cdf_x, cdf_y, n, grow=3):
    p1 = ks_p(draw(n), cdf_x, cdf_y)
    if p1 > P1:
        return None
    p2 = ks_p(draw(n * grow), cdf_x, cdf_y)
    if p2 > P2:
        return None
    return p1, p2


def independence_p(a, b, ka, kb):
    """chi-square independence test of two index sequences."""
    t = np.zeros((ka, kb))
    np.add.at(t, (a, b), 1)
    t = t[t.sum(1) > 20][:, :]
    t = t[:, t.sum(0) > 20]
    if min(t.shape) < 2:
        return 1.0
    e = t.sum(1, keepdims=True) * t.sum(0, keepdims=True) / t.sum()
    if e.min() < 2:
        keep_r = (e.min(1) >= 2)
        t = t[keep_r]
        if min(t.shape) < 2:
            return 1.0
        e = t.sum(1, keepdims=True) * t.sum(0, keepdims=True) / t.sum()
    chi = ((t - e) ** 2 / e).sum()
    return float(st.chi2.sf(chi, (t.shape[0] - 1) * (t.shape[1] - 1)))


def two_sample_p(a, b, rng, coords=32, projections=8):
    """Smallest p-value (Bonferroni-corrected) of a battery of two-sample tests between the rows of a and b: single
    coordinates, random projections and random pairwise products. KS is conservative on ties."""
    a, b = a.reshape(len(a), -1).astype(float), b.reshape(len(b), -1).astype(float)
    D = a.shape[1]
    both = np.concatenate([a, b])
    vary = np.nonzero(both.std(0) > 0)[0]
    if len(vary) == 0:
        return 1.0 if np.array_equal(a[0], b[0]) else 0.0
    mu, sd = both[:, vary].mean(0), both[:, vary].std(0)
    za, zb = (a[:, vary] - mu) / sd, (b[:, vary] - mu) / sd
    ps = []
    for j in rng.permutation(len(vary))[:coords]:
        u = np.unique(both[:, vary[j]])
        if len(u) <= 24:
            t = np.array([[(v[:, vary[j]] == w).sum() for w in u] for v in (a, b)], float)
            t = t[:, t.sum(0) >= 10]
            if t.shape[1] >= 2:
                ps.append(float(st.chi2_contingency(t, correction=False).pvalue))
        else:
            ps.append(float(st.ks_2samp(za[:, j], zb[:, j]).pvalue))
    for _ in range(projections):
        w = rng.normal(size=len(vary))
        ps.append(float(st.ks_2samp(za @ w, zb @ w).pvalue))
        i, j = rng.integers(len(vary), size=2)
        ps.append(float(st.ks_2samp(za[:, i] * za[:, j], zb[:, i] * zb[:, j]).pvalue))
    return min(1.0, min(ps) * len(ps)) if ps else 1.0

