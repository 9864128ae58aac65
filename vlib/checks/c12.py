"""C12: leaf layers compute, sample and maximise the documented densities."""
import numpy as np
import torch
from scipy import stats as st
from scipy.special import expit, gammaln, log_softmax

from .. import models as M
from .. import ref
from ..core import Violation, close, expect, maxdiff
from ..stats import P1, P2, independence_p

LEVEL = "exploration"
RULE = ("one evaluation = one leaf density compared with its float64 definition, one drawn value in a probability-"
        "integral-transform test of the selected leaf, or one mode compared; distinct = distinct (leaf type, shape, "
        "parameter regime)")
MIN_EVALS, MIN_DISTINCT = 100000, 80
ASSUMPTIONS = ("differentiable Binomial draws use the documented Gaussian relaxation: bounds and moments only",)

KINDS = ["normal", "ratnormal", "bernoulli", "binomial", "categorical", "mvn", "multi"]


def kwargs(kind, rng, F):
    if kind == "ratnormal":
        lo = float(rng.choice([0.01, 0.1, 0.5]))
        kw = dict(min_sigma=lo, max_sigma=lo + float(rng.choice([0.2, 1.0, 5.0])))
        b = int(rng.integers(0, 8))
        if b == 1:
            kw.update(min_mean=-2.0, max_mean=0.0)
        elif b == 2:
            kw.update(min_mean=0.0, max_mean=1.0)
        elif b == 3:
            kw.update(min_mean=-3.0, max_mean=-1.0)
        elif b == 4:
            kw.update(min_mean=-6.0, max_mean=6.0)
        elif b == 5:
            kw.update(min_mean=2.0, max_mean=3.0)
        elif b >= 6:
            lo = float(rng.uniform(-8, 8))
            kw.update(min_mean=lo, max_mean=lo + float(rng.uniform(0.1, 6)))
        return kw
    if kind == "binomial":
        return {"total_count": int(rng.choice([1, 2, 7, 31, 255]))}
    if kind == "categorical":
        return {"num_bins": int(rng.choice([2, 3, 8, 32]))}
    if kind == "mvn":
        return {"cardinality": int(rng.integers(1, 5))}
    if kind == "multi":
        perm = [int(i) for i in rng.permutation(F)]
        cuts = sorted(rng.choice(np.arange(1, F), size=min(F - 1, int(rng.integers(1, 4))), replace=False).tolist())
        parts = [perm[a:b] for a, b in zip([0] + cuts, cuts + [F])]
        out = []
        for p in parts:
            k = str(rng.choice(["normal", "ratnormal", "bernoulli", "binomial", "categorical"]))
            out.append((p, M.LEAVES[k], kwargs(k, rng, len(p))))
        return {"scopes_to_dist": out}
    return {}


def make(kind, rng, scale, F=None):
    F = F or int(rng.integers(2, 9))
    C, I, R = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    kw = kwargs(kind, rng, F)
    leaf = M.LEAVES[kind](num_features=F, num_channels=C, num_leaves=I, num_repetitions=R, **kw)
    if scale is not None:
        with torch.no_grad():
            for nm, p in leaf.named_parameters():
                if p.requires_grad:
                    v = rng.normal(0, scale, size=tuple(p.shape))
                    if "logvar" in nm or "L_diag" in nm:
                        v = np.clip(v * 0.5, -4, 4)
                    p.copy_(torch.tensor(v, dtype=p.dtype))
    return leaf, dict(F=F, C=C, I=I, R=R), kw


def spec(leaf, kind, kw):
    return type(leaf).__name__, leaf.state_dict()


def data(kind, kw, rng, n, C, F, spread=2.0):
    def one(k, w, f):
        if k in ("normal", "ratnormal", "mvn", "Normal", "RatNormal", "MultivariateNormal"):
            return rng.normal(0, spread, size=(n, C, f))
        hi = {"bernoulli": 2, "Bernoulli": 2}.get(k) or (w.get("total_count", -1) + 1 or w.get("num_bins"))
        return rng.integers(0, hi, size=(n, C, f)).astype(float)

    if kind != "multi":
        return one(kind, kw, F)
    x = np.zeros((n, C, F))
    for scope, cls, w in kw["scopes_to_dist"]:
        x[:, :, list(scope)] = one(cls.__name__, w, len(scope))
    return x


def raw_logits(kind, sd, prefix, kw, C, F, I, R):
    """|logit| and trial count of probability-parameterised leaves (0 for the others)."""
    z, n = np.zeros((C, F, I, R)), np.zeros((C, F, I, R))
    if kind in ("bernoulli", "Bernoulli"):
        return ref.npd(sd[prefix + "probs"])[0], n + 1
    if kind in ("binomial", "Binomial"):
        return ref.npd(sd[prefix + "logits"])[0], n + kw["total_count"]
    if kind == "multi":
        for j, (scope, cls, w) in enumerate(kw["scopes_to_dist"]):
            z[:, list(scope)], n[:, list(scope)] = raw_logits(cls.__name__, sd, f"dists.{j}.", w, C, len(scope), I, R)
    return z, n


def density(rng, ctx, kind, scale):
    leaf, d, kw = make(kind, rng, scale)
    C, F, I, R = d["C"], d["F"], d["I"], d["R"]
    name, sd = spec(leaf, kind, kw)
    for spread in (1.0, 8.0):
        x = data(kind, kw, rng, 12, C, F, spread).astype(np.float32).astype(np.float64)
        want = ref.leaf_logpdf(name, sd, "", x, kw, C, F, I, R)
        with torch.no_grad():
            got = leaf(torch.tensor(x, dtype=torch.float32), None)
            again = leaf(torch.tensor(x, dtype=torch.float32), marginalized_scopes=None)
        expect(tuple(got.shape) == want.shape, "shape", f"leaf output {tuple(got.shape)}, expected {want.shape}")
        expect(torch.equal(got, again), "not-deterministic", "two forward passes differ")
        ctx.tick(want.size)
        g = got.double().numpy()
        z, nt = raw_logits(kind, sd, "", kw, C, want.shape[2], I, R)
        # torch's Bernoulli/Binomial take probabilities: 1-p loses eps*exp(|z|) relative accuracy in float32
        tol = 2e-3 * (1 if kind in ("binomial", "mvn", "multi") else 0.15) + 2e-4 * np.abs(want)
        tol = tol + (nt * 5e-7 * np.exp(np.minimum(np.abs(z), 12)))[None]
        judged = np.broadcast_to(np.abs(z) <= 12, want.shape)
        bad = judged & (np.abs(g - want) > tol)
        expect(not bad.any(), "density", f"{kind} density off by {np.abs(g - want)[judged].max(initial=0.0)}; "
               f"{kw if kind != 'multi' else [(s, c.__name__) for s, c, _ in kw['scopes_to_dist']]}", got=g[bad][:3], want=want[bad][:3])
        # saturated probabilities are clamped at float32 resolution: only the side is judged
        far = ~judged & (want < -11)
        near = ~judged & (want > -1e-3)
        expect((g[far] < -8).all() and (np.abs(g[near]) < 1e-2).all() and not np.isnan(g).any(), "density-saturated",
               f"{kind} density of saturated leaves: {g[far][:3]}, {g[near][:3]}")
        # a missing value contributes log 1, others are untouched
        if kind != "mvn":
            m = rng.random(x.shape) < 0.4
            xm = np.where(m, np.nan, x)
            with torch.no_grad():
                gm = leaf(torch.tensor(xm, dtype=torch.float32), None).double().numpy()
            expect((gm[m] == 0).all(), "missing-not-marginalised", "missing value does not contribute log 1")
            expect(close(gm[~m], g[~m], 1e-6, 1e-6), "missing-affects-others", "a missing value changed other densities")
            ctx.tick(m.size)
            sc = sorted(int(i) for i in rng.choice(F, size=int(rng.integers(1, F + 1)), replace=False))
            keep = [f for f in range(F) if f not in sc]
            with torch.no_grad():
                gs = leaf(torch.tensor(x, dtype=torch.float32), sc).double().numpy()
            expect((gs[:, :, sc] == 0).all() and close(gs[:, :, keep], g[:, :, keep], 1e-6, 1e-6), "scopes-wrong",
                   f"marginalised scopes {sc} not exactly those contributing log 1")
    ctx.seen(f"{kind}-{d}-{scale}")


def bounds(rng, ctx):
    """RatNormal sigma and mean stay inside their bounds for any raw parameter, read off the density alone."""
    for _ in range(6):
        leaf, d, kw = make("ratnormal", rng, None)
        with torch.no_grad():
            for p in leaf.parameters():
                if p.requires_grad:
                    p.copy_(torch.tensor(rng.choice([-60.0, -8.0, 0.0, 8.0, 60.0], size=tuple(p.shape)), dtype=p.dtype))
        leaf = leaf.double()
        C, F = d["C"], d["F"]
        h = 0.5
        with torch.no_grad():
            f = {v: leaf(torch.full((1, C, F), v, dtype=torch.double), None)[0].numpy() for v in (-h, 0.0, h)}
        curv = (f[h] - 2 * f[0.0] + f[-h]) / h**2  # = -1/sigma^2
        sig = np.sqrt(-1 / curv)
        mu = (f[h] - f[-h]) / (2 * h) * sig**2
        ctx.tick(sig.size)
        t = 1e-4
        expect((sig >= kw["min_sigma"] - t).all() and (sig <= kw["max_sigma"] + t).all(), "sigma-bounds",
               f"sigma in [{sig.min()}, {sig.max()}] for bounds {kw}")
        if kw.get("max_mean") is not None:
            expect((mu >= kw["min_mean"] - 1e-3).all() and (mu <= kw["max_mean"] + 1e-3).all(), "mean-bounds",
                   f"mean in [{mu.min()}, {mu.max()}] for bounds {kw}")
        ctx.seen(f"bounds-{kw}")


def context(n, d, rng, diff, i_idx, r_idx, **kw):
    from simple_einet.sampling_utils import SamplingContext

    I, R = d["I"], d["R"]
    io, ir = torch.tensor(i_idx), torch.tensor(r_idx)
    if diff:
        io = torch.nn.functional.one_hot(io, I).float()
        ir = torch.nn.functional.one_hot(ir, R).float()
    return SamplingContext(num_samples=n, indices_out=io, indices_repetition=ir, is_differentiable=diff,
                           num_repetitions=R, **kw)


def pit(kind, sd, prefix, kw, x, i_idx, r_idx, rng, C):
    """Probability integral transform of draws x [n, C, F] of leaf (i_idx[n, F], r_idx[n])."""
    n, _, F = x.shape
    f = np.arange(F)[None, None, :]
    c = np.arange(C)[None, :, None]
    i = i_idx[:, None, :]
    r = r_idx[:, None, None]
    npd = ref.npd

    def pick(t):
        t = t.reshape((C, F) + t.shape[-2:]) if t.ndim == 5 else t
        return t[c, f, i, r]

    if kind == "Normal":
        return st.norm.cdf(x, pick(npd(sd[prefix + "means"])), np.exp(0.5 * pick(npd(sd[prefix + "logvar"]))))
    if kind == "RatNormal":
        mu, s = pick(npd(sd[prefix + "means"])), pick(npd(sd[prefix + "stds"]))
        if kw.get("max_mean") is not None:
            mu = kw["min_mean"] + (kw["max_mean"] - kw["min_mean"]) * expit(mu)
        return st.norm.cdf(x, mu, kw["min_sigma"] + (kw["max_sigma"] - kw["min_sigma"]) * expit(s))
    v = rng.random(x.shape)
    if kind == "Bernoulli":
        p = expit(pick(npd(sd[prefix + "probs"])))
        bad = ~np.isin(x, (0.0, 1.0))
        lo, pr = np.where(x > 0.5, 1 - p, 0.0), np.where(x > 0.5, p, 1 - p)
    elif kind == "Binomial":
        p, N = expit(pick(npd(sd[prefix + "logits"]))), kw["total_count"]
        bad = (x < 0) | (x > N) | (x != np.round(x))
        lo, pr = st.binom.cdf(x - 1, N, p), st.binom.pmf(x, N, p)
    elif kind == "Categorical":
        lg = npd(sd[prefix + "logits"])[0]
        P = np.exp(log_softmax(lg, -1))[c, f, i, r]  # [n, C, F, B]
        bad = (x < 0) | (x >= P.shape[-1]) | (x != np.round(x))
        xi = np.clip(np.round(x), 0, P.shape[-1] - 1).astype(int)[..., None]
        cum = np.cumsum(P, -1)
        pr = np.take_along_axis(P, xi, -1)[..., 0]
        lo = np.take_along_axis(cum, xi, -1)[..., 0] - pr
    if bad.any():
        raise Violation("out-of-domain", f"{kind} draw {x[bad][:3]} outside its domain")
    return lo + v * pr


def draws(rng, ctx, kind, diff):
    leaf, d, kw = make(kind, rng, float(rng.choice([0.5, 2.0])))
    C, F, I, R = d["C"], d["F"], d["I"], d["R"]
    name, sd = spec(leaf, kind, kw)

    def once(n):
        i_idx = rng.integers(0, I, size=(n, F))
        if kind == "mvn":  # all features of one multivariate leaf belong to one component
            k = kw["cardinality"]
            G = -(-F // k)
            i_idx = np.repeat(rng.integers(0, I, size=(n, G)), k, axis=1)[:, :F]
        r_idx = rng.integers(0, R, size=n)
        with torch.no_grad():
            x = leaf.sample(context(n, d, rng, diff, i_idx, r_idx))
        expect(tuple(x.shape) == (n, C, F), "shape", f"leaf sample shape {tuple(x.shape)}, expected {(n, C, F)}")
        x = x.double().numpy()
        expect(np.isfinite(x).all(), "non-finite", "non-finite leaf sample")
        ctx.tick(x.size)
        if kind == "mvn":
            u = mvn_white(sd, kw, x, i_idx, r_idx, C, F)
        elif kind == "multi":
            u = np.zeros_like(x)
            for j, (scope, cls, w) in enumerate(kw["scopes_to_dist"]):
                s = list(scope)
                if diff and cls.__name__ == "Binomial":
                    relaxed(x[:, :, s], w)
                    u[:, :, s] = rng.random(u[:, :, s].shape)
                else:
                    u[:, :, s] = pit(cls.__name__, sd, f"dists.{j}.", w, x[:, :, s], i_idx[:, s], r_idx, rng, C)
        elif kind == "binomial" and diff:
            relaxed(x, kw)
            return 1.0, "relaxed"
        else:
            u = pit(name, sd, "", kw, x, i_idx, r_idx, rng, C)
        ps = {}
        for c in range(C):
            for f in range(F):
                ps[f"u{c},{f}"] = st.kstest(u[:, c, f], "uniform").pvalue
        b = (u * 4).clip(0, 3).astype(int).reshape(n, -1)
        for a in range(b.shape[1] - 1):
            ps[f"dep{a}"] = independence_p(b[:, a], b[:, a + 1], 4, 4)
        ps["rows"] = independence_p(b[:-1, 0], b[1:, 0], 4, 4)
        # the draw must depend on the selected component and repetition: joint with the index
        k = min(ps, key=ps.get)
        return ps[k], k

    p1, k = once(1500)
    if p1 < P1:
        p2, k2 = once(4000)
        if p2 < P2:
            raise Violation("draws" + ("-diff" if diff else ""), f"{kind} draws do not follow the selected leaf: {k2}, p={p2:.1e}",
                            shape=d)
    ctx.seen(f"draw-{kind}-{d}-{diff}")


def relaxed(x, kw):
    expect((x >= 0).all() and (x <= kw["total_count"]).all(), "out-of-domain", "relaxed binomial draw out of bounds")


def mvn_white(sd, kw, x, i_idx, r_idx, C, F):
    k = kw["cardinality"]
    mu, ld, lo = (ref.npd(sd[n]) for n in ("means", "L_diag_log", "L_offdiag"))
    u = np.zeros_like(x)
    n = x.shape[0]
    for c in range(C):
        for g in range(mu.shape[1]):
            i, r = i_idx[:, g * k], r_idx
            m = min(k, F - g * k)
            L = np.zeros((n, k, k))
            L += np.tril(lo[c, g, i, r], -1)
            L[:, np.arange(k), np.arange(k)] = np.exp(ld[c, g, i, r])
            diff = x[:, c, g * k:g * k + m] - mu[c, g, i, r][:, :m]
            z = np.linalg.solve(L[:, :m, :m], diff[..., None])[..., 0]
            u[:, c, g * k:g * k + m] = st.norm.cdf(z)
    return u


def modes(rng, ctx, kind, scale):
    leaf, d, kw = make(kind, rng, scale)
    C, F, I, R = d["C"], d["F"], d["I"], d["R"]
    name, sd = spec(leaf, kind, kw)
    want_all = ref.leaf_mode(name, sd, "", kw, C, F, I, R)
    n = 20
    for diff in (False, True):
        for flag in ("is_mpe", "mpe_at_leaves"):
            i_idx, r_idx = rng.integers(0, I, size=(n, F)), rng.integers(0, R, size=n)
            with torch.no_grad():
                got = leaf.sample(context(n, d, rng, diff, i_idx, r_idx, **{flag: True}))
            expect(tuple(got.shape) == (n, C, F), "shape", f"leaf mode shape {tuple(got.shape)}")
            want = want_all[np.arange(C)[None, :, None], np.arange(F)[None, None], i_idx[:, None, :], r_idx[:, None, None]]
            g = got.double().numpy()
            ok = np.isnan(want) | (np.abs(g - want) <= 1e-4 * (1 + np.abs(want)))
            ctx.tick(g.size)
            expect(ok.all(), "mode", f"{kind} mode {g[~ok][:3]} expected {want[~ok][:3]} (diff={diff}, {flag})", shape=d)
    # the mode maximises the layer's own density among sampled alternatives
    ctx.seen(f"mode-{kind}-{d}-{scale}")


def relaxed_moments(rng, ctx):
    """Differentiable binomial draws: mean and variance of the relaxation match the binomial away from the bounds."""
    from simple_einet.layers.distributions.binomial import Binomial

    leaf = Binomial(num_features=3, num_channels=1, num_leaves=2, num_repetitions=2, total_count=200)
    n = 4000
    d = dict(I=2, R=2)
    p = torch.sigmoid(leaf.logits.detach()).double().numpy()[0, 0]
    for i in range(2):
        for r in range(2):
            with torch.no_grad():
                x = leaf.sample(context(n, d, rng, True, np.full((n, 3), i), np.full(n, r))).double().numpy()[:, 0]
            mu, var = 200 * p[:, i, r], 200 * p[:, i, r] * (1 - p[:, i, r])
            z = (x.mean(0) - mu) / np.sqrt(var / n)
            expect(np.abs(z).max() < 7, "relaxed-mean", f"relaxed binomial mean off by {np.abs(z).max():.1f} sigma")
            ratio = x.var(0) / var
            expect((np.abs(ratio - 1) < 0.2).all(), "relaxed-variance", f"relaxed variance ratio {ratio}")
            ctx.tick(n)


# ---- binomial leaves conditioned on other features ----
class Cond(torch.nn.Module):
    def __init__(self, C, out, rng):
        super().__init__()
        self.conv = torch.nn.Conv2d(C, out, 3, padding=1)
        with torch.no_grad():
            for q in self.parameters():
                q.copy_(torch.tensor(rng.normal(0, 0.8, size=tuple(q.shape)), dtype=q.dtype))

    def forward(self, x):
        return self.conv(x.float())


def conditional_parts(rng, half=None):
    half = half or int(rng.choice([1, 4]))
    C = int(rng.integers(1, 3)) if half == 1 else 1
    I, R, tc = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 4)) if half == 1 else 1
    F = 2 * half
    given = sorted(rng.permutation(np.arange(half, F)).tolist())
    return F, C, I, R, tc, dict(total_count=tc, cond_fn=Cond(C, C * I * R, rng), cond_idxs=given if rng.random() < .5 else torch.tensor(given))


def spread_out(leaf, rng):
    with torch.no_grad():
        for q in (leaf.probs_conditioned_base, leaf.probs_unconditioned):
            q.copy_(torch.tensor(rng.normal(0, 1.2, size=tuple(q.shape)), dtype=q.dtype))


def conditional_density(rng, ctx):
    from simple_einet.layers.distributions.binomial import ConditionalBinomial
    F, C, I, R, tc, kw = conditional_parts(rng, int(rng.choice([1, 4, 9])))
    leaf = ConditionalBinomial(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R, **kw)
    spread_out(leaf, rng)
    half, hw, n = F // 2, int(round(np.sqrt(F // 2))), int(rng.integers(1, 7))
    x = torch.tensor(rng.integers(0, tc + 1, size=(n, C, F)), dtype=torch.float32)
    keep = x.clone()
    drop = rng.random((n, C, half)) < 0.3 if rng.random() < .5 else np.zeros((n, C, half), bool)
    x[:, :, :half][torch.tensor(drop)] = torch.nan
    scopes = sorted(rng.choice(half, size=int(rng.integers(0, half)), replace=False).tolist()) if rng.random() < .3 and not drop.any() else None
    before = x.clone()
    with torch.no_grad():
        got = leaf(x, scopes).double().numpy()
        w, b = (q.detach().double().numpy() for q in kw["cond_fn"].conv.parameters())
    expect(torch.equal(x.nan_to_num(-7), before.nan_to_num(-7)), "conditional-input", "the input was changed")
    img = keep[:, :, torch.as_tensor(kw["cond_idxs"])].double().numpy().reshape(n, C, hw, hw)
    pad = np.pad(img, ((0, 0), (0, 0), (1, 1), (1, 1)))
    out = np.zeros((n, C * I * R, hw, hw)) + b[None, :, None, None]
    for i in range(3):
        for j in range(3):
            out += np.einsum("ncyx,oc->noyx", pad[:, :, i:i + hw, j:j + hw], w[:, :, i, j])
    cond = np.moveaxis(out.reshape(n, C, I, R, half), -1, 2)
    lg = np.concatenate([leaf.probs_conditioned_base.detach().double().numpy() + cond,
                         np.broadcast_to(leaf.probs_unconditioned.detach().double().numpy(), (n, C, half, I, R))], 2)
    k = keep.double().numpy()[..., None, None]
    lp = gammaln(tc + 1) - gammaln(k + 1) - gammaln(tc - k + 1) - k * np.logaddexp(0, -lg) - (tc - k) * np.logaddexp(0, lg)
    full = np.concatenate([drop, np.zeros((n, C, F - half), bool)], 2)
    lp[full] = 0.0
    if scopes:
        lp[:, :, scopes] = 0.0
    expect(close(got, lp, 1e-4, 1e-4), "conditional-density", f"F={F} C={C} I={I} R={R} count {tc}: log-density differs from its definition", diff=maxdiff(got, lp))
    ctx.tick(lp.size)
    ctx.seen(f"conditional-density-{F}-{C}-{I}-{R}-{tc}-{drop.any()}-{bool(scopes)}")


def conditional_circuit(rng, ctx, structure):
    """A circuit over conditional leaves is normalised, and fills missing features from its exact conditional."""
    import itertools
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import ConditionalBinomial
    from ..stats import confirm_gof
    F, C, I, R, tc, kw = conditional_parts(rng)
    K = int(rng.integers(1, 3))
    m = Einet(EinetConfig(num_features=F, num_channels=C, depth=int(rng.integers(1, 3)) if F > 2 else 1, num_sums=2, num_leaves=I, num_repetitions=R, num_classes=K,
                          leaf_type=ConditionalBinomial, leaf_kwargs=kw, layer_type="linsum" if structure == "bottom-up" else str(rng.choice(["linsum", "einsum"])), structure=structure, dropout=0.0))
    for q in m.modules():
        if isinstance(q, ConditionalBinomial):
            spread_out(q, rng)
    m.eval()
    half = F // 2
    states = torch.tensor(list(itertools.product(range(tc + 1), repeat=C * half)), dtype=torch.float32).reshape(-1, C, half)
    total = torch.zeros(K, dtype=torch.double)
    with torch.no_grad():
        for g in states:
            x = torch.cat([states, g.expand(len(states), -1, -1)], 2)
            total += m(x).double().exp().sum(0)
    expect(close(total, np.ones(K), 1e-4, 1e-4), "conditional-mass", f"{structure}, F={F} C={C} count {tc}: total mass {total.tolist()}")
    g = states[int(rng.integers(len(states)))]
    x = torch.cat([states, g.expand(len(states), -1, -1)], 2)
    with torch.no_grad():
        ll = m(x).double().numpy()
        marg = x[:1].clone()
        marg[:, :, :half] = torch.nan
        both = m(marg).double().numpy()[0], m(x[:1], marginalized_scopes=list(range(half))).double().numpy()[0]
    for b in both:
        expect(close(np.exp(b), np.exp(ll).sum(0), 1e-5, 1e-4), "conditional-marginal", f"{structure}: marginal {b}, sum over the missing features {np.log(np.exp(ll).sum(0))}")
    p = np.exp(ll).sum(1)
    p /= p.sum()
    base = (tc + 1) ** np.arange(C * half)[::-1]

    def draw(n):
        out = []
        for lo in range(0, n, 2000):
            ev = x[:1].repeat(min(2000, n - lo), 1, 1)
            if nan:
                ev[:, :, :half] = torch.nan
                s = m.sample(evidence=ev)
            else:
                s = m.sample(evidence=ev, marginalized_scopes=list(range(half)))
            expect(s.shape == ev.shape and torch.equal(s[:, :, half:], ev[:, :, half:]), "conditional-observed", f"{structure}: observed features changed")
            out.append(s[:, :, :half].reshape(len(s), -1).double().numpy() @ base)
        v = np.concatenate(out)
        expect(bool((v == np.round(v)).all() and v.min() >= 0 and v.max() < len(p)), "conditional-domain", f"{structure}: draws outside 0..{tc}")
        ctx.tick(len(v))
        return v.astype(int)

    for nan in (False, True):
        bad = confirm_gof(draw, p, 6000)
        expect(bad is None, "conditional-draws", f"{structure}, F={F} C={C} K={K} count {tc}: draws do not follow the conditional", detail=bad)
    e = x[:1].clone()
    a, b = (m.mpe(evidence=e.clone(), marginalized_scopes=list(range(half))) for _ in range(2))
    expect(torch.equal(a, b) and torch.equal(a[:, :, half:], e[:, :, half:]) and 0 <= float(a.min()) and float(a.max()) <= tc, "conditional-mpe", f"{structure}: mpe completion {a.tolist()}")
    # leaf modes only: a single leaf per feature and channel leaves no choice
    c1 = Cond(C, C, rng)
    one = Einet(EinetConfig(num_features=F, num_channels=C, depth=1, num_sums=2, num_leaves=1, num_repetitions=1, num_classes=1, leaf_type=ConditionalBinomial,
                            leaf_kwargs=dict(kw, cond_fn=c1), structure=structure, dropout=0.0)).eval()
    for q in one.modules():
        if isinstance(q, ConditionalBinomial):
            spread_out(q, rng)
    ev = x[torch.tensor(rng.integers(0, len(x), size=64))].clone()
    got = one.sample(evidence=ev.clone(), marginalized_scopes=list(range(half)), mpe_at_leaves=True)
    want = one.mpe(evidence=ev.clone(), marginalized_scopes=list(range(half)))
    expect(torch.equal(got, want), "conditional-leaf-modes", f"{structure}, F={F} C={C} count {tc}: draws at the leaf modes are {int((got != want).sum())} times not the mode of the only leaf")
    with torch.no_grad():
        best = float(one(want[:1]))
        for f in range(half):  # factorised: the mode is the maximum in each coordinate
            for c in range(C):
                for v in range(tc + 1):
                    y = want[:1].clone()
                    y[0, c, f] = v
                    expect(float(one(y)) <= best + 1e-4, "conditional-leaf-modes", f"{structure}: value {v} is likelier than the mode {float(want[0, c, f])}")
                    ctx.tick()
    ctx.seen(f"conditional-{structure}-{F}-{C}-{I}-{R}-{tc}-{K}")


def check(ctx):
    for i in range(ctx.n(20, 200)):
        ctx.run(f"cond-dens-{i}", {"leaf": "conditional binomial"}, conditional_density, ctx)
    for i in range(ctx.n(8, 60)):
        for st_ in ("top-down", "bottom-up"):
            ctx.run(f"cond-circuit-{st_}-{i}", {"leaf": "conditional binomial", "structure": st_}, conditional_circuit, ctx, st_)
    for rep in range(ctx.n(12, 60)):
        for kind in KINDS:
            for scale in (None, 1.0, 6.0, 40.0):
                if scale == 40.0 and kind in ("mvn", "normal"):
                    continue
                ctx.run(f"dens-{rep}-{kind}-{scale}", {"leaf": kind, "scale": scale}, density, ctx, kind, scale)
                ctx.run(f"mode-{rep}-{kind}-{scale}", {"leaf": kind, "scale": scale}, modes, ctx, kind, scale)
    for rep in range(ctx.n(8, 40)):
        ctx.run(f"bounds-{rep}", {}, bounds, ctx)
        for kind in KINDS:
            for diff in (False, True):
                ctx.run(f"draw-{rep}-{kind}-{diff}", {"leaf": kind, "differentiable": diff}, draws, ctx, kind, diff)
    ctx.run("relaxed-moments", {}, relaxed_moments, ctx)
