"""C04: unconditional samples follow the model's own likelihood."""
import itertools

import numpy as np
import torch
from scipy import stats as st

from .. import models as M
from .. import ref
from ..core import Violation, expect
from ..stats import P1, P2, confirm_gof, independence_p, two_sample_p

LEVEL = "exploration"
RULE = ("one evaluation = one sampled row judged by a goodness-of-fit monitor against the model's enumerated joint "
        "(discrete) or its Rosenblatt transform (continuous); distinct = distinct (configuration, differentiable?, "
        "oracle); two-stage confirmation, joint false-alarm rate < 1e-12 per test")
MIN_EVALS, MIN_DISTINCT = 100000, 60
ASSUMPTIONS = ("differentiable Binomial leaves use the documented Gaussian relaxation and are only checked for bounds "
               "and moments",)


def draw(model, n, diff):
    x = model.sample(num_samples=n, is_differentiable=diff)
    return x.detach()


def discrete(rng, ctx, combo, leaf, diff):
    for _ in range(60):
        cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
        if M.n_states(cfg) <= 400:
            break
    else:
        cfg = M.make_cfg(rng, leaf="bernoulli", F=max(2, 2 ** combo["depth"]), C=1, **combo)
    model = M.build(cfg, rng, scale=1.8, leaf_scale=1.8)
    p = M.joint_table(model, cfg).mean(0)

    def d(n):
        x = draw(model, n, diff)
        expect(tuple(x.shape) == (n, cfg.num_channels, cfg.num_features), "wrong-shape", f"sample shape {tuple(x.shape)}")
        ctx.tick(n)
        return M.state_index(cfg, x)

    n = 4000 if not ctx.thorough else 12000
    bad = confirm_gof(d, p, n)
    if bad:
        raise Violation("distribution" + ("-diff" if diff else ""),
                        f"samples do not follow the likelihood: p1={bad[0]:.1e} p2={bad[1]:.1e}; state: (observed, expected) {bad[2]}")
    # independence of consecutive rows of one call
    top = np.argsort(-p)[:8]
    remap = np.full(len(p), 8)
    remap[top] = np.arange(len(top))

    def ind(n):
        i = remap[d(n)]
        return independence_p(i[:-1], i[1:], 9, 9)

    if ind(n) < P1 and ind(3 * n) < P2:
        raise Violation("dependent-draws", "consecutive samples of one call are not independent")
    ctx.count("states", len(p))
    ctx.seen(M.key(cfg) + f"diff{diff}")


def precise(rng, ctx, combo, diff):
    """Very many samples of a small circuit with skewed weights: also small deviations count."""
    cfg = M.make_cfg(rng, leaf="bernoulli", F=max(2, 2 ** combo["depth"]), C=1, S=3, I=3, **combo)
    model = M.build(cfg, rng, scale=2.0, leaf_scale=3.0)
    p = M.joint_table(model, cfg).mean(0)

    def d(n):
        out = []
        for k in range(0, n, 100000):
            x = draw(model, min(100000, n - k), diff)
            ctx.tick(len(x))
            out.append(M.state_index(cfg, x))
        return np.concatenate(out)

    bad = confirm_gof(d, p, 500000 if not ctx.thorough else 1500000)
    if bad:
        raise Violation("distribution-precise" + ("-diff" if diff else ""),
                        f"samples do not follow the likelihood: p1={bad[0]:.1e} p2={bad[1]:.1e}; state: (observed, expected) {bad[2]}",
                        config=M.desc(cfg))
    ctx.seen(M.key(cfg) + f"precise{diff}")


@torch.no_grad()
def rosenblatt(model, cfg, x, class_lls=None, given=None):
    """u[j] = F(x_j | x_<j) per sampled row, from forward() on a grid with the later features missing.
    `given`: boolean [C*F] of evidence entries that are never integrated (already conditioned on)."""
    n = x.shape[0]
    flat = x.reshape(n, -1).clone()
    D = flat.shape[1]
    order = list(range(D))
    lo, hi = float(flat.min()) - 14, float(flat.max()) + 14
    for nm, p in model.named_parameters():
        if nm.endswith("means"):
            lo, hi = min(lo, float(p.min()) - 14), max(hi, float(p.max()) + 14)
    G = 701
    grid = torch.linspace(lo, hi, G)
    us = {}
    free = [j for j in order if given is None or not given[j]]
    for t, j in enumerate(free):
        base = flat.clone()
        for jj in free[t:]:
            base[:, jj] = torch.nan
        rep = base.unsqueeze(1).repeat(1, G, 1)
        rep[:, :, j] = grid
        ll = []
        rr = rep.view(n * G, *x.shape[1:])
        for i in range(0, len(rr), 200000):
            ll.append(torch.logsumexp(model(rr[i:i + 200000]).double(), dim=1))
        dens = torch.cat(ll).view(n, G)
        dens = (dens - dens.max(1, keepdim=True)[0]).exp().numpy()
        cdf = np.concatenate([np.zeros((n, 1)), np.cumsum((dens[:, 1:] + dens[:, :-1]) / 2, axis=1)], axis=1)
        cdf /= cdf[:, -1:]
        g = grid.numpy()
        xv = flat[:, j].numpy()
        us[j] = np.array([np.interp(xv[i], g, cdf[i]) for i in range(n)])
    return us


def continuous(rng, ctx, combo, leaf, diff, C=None):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=4, C=C or int(rng.choice([1, 2])), **{**combo, "depth": min(combo["depth"], 1 + int(rng.integers(2)))})
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.5)
    with torch.no_grad():
        for nm, p in model.named_parameters():
            if nm.endswith("logvar"):
                p.clamp_(-2.2, 1.2)

    def test(n):
        x = draw(model, n, diff)
        expect(tuple(x.shape) == (n, cfg.num_channels, cfg.num_features), "wrong-shape", f"sample shape {tuple(x.shape)}")
        expect(bool(torch.isfinite(x).all()), "non-finite", "non-finite sample")
        us = rosenblatt(model, cfg, x)
        ctx.tick(n * len(us))
        ps = {j: st.kstest(u, "uniform").pvalue for j, u in us.items()}
        # dependence between any two transforms (should be independent uniforms)
        js = list(us)
        for a, b in itertools.combinations(js, 2):
            q = independence_p((us[a] * 4).clip(0, 3).astype(int), (us[b] * 4).clip(0, 3).astype(int), 4, 4)
            ps[f"{a}-{b}"] = q
        q = independence_p((us[js[0]][:-1] * 4).clip(0, 3).astype(int), (us[js[0]][1:] * 4).clip(0, 3).astype(int), 4, 4)
        ps["row-row"] = q
        return ps

    n = 260 if not ctx.thorough else 900
    p1 = test(n)
    if min(p1.values()) < P1:
        p2 = test(2 * n)
        k = min(p2, key=p2.get)
        if p2[k] < P2:
            raise Violation("distribution-continuous" + ("-diff" if diff else ""),
                            f"Rosenblatt transform of samples is not uniform/independent: coordinate {k}, p={p2[k]:.1e}")
    ctx.seen(M.key(cfg) + f"cdiff{diff}")


def mvn(rng, ctx, j, diff):
    combo = dict(structure="top-down", layer=M.LAYERS[j % 3], R=1 + (j // 3) % 2, K=1 + j % 2, depth=j % 3 if j % 3 < 2 else 0)
    k = 2 + (j % 2)
    F = k * max(2 ** combo["depth"], int(rng.integers(1, 4)))
    if F < 2 or F // k < 2 ** combo["depth"]:
        F = 2 * k
    F += int(rng.integers(0, k))  # incomplete last group
    cfg = M.make_cfg(rng, leaf="mvn", F=F, C=1 + j % 2, kwargs={"cardinality": k}, **combo)
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.5)

    def test(n):
        x = draw(model, n, diff)
        expect(tuple(x.shape) == (n, cfg.num_channels, cfg.num_features), "wrong-shape", f"sample shape {tuple(x.shape)}")
        y = ref.sample(model, n, rng)
        ctx.tick(n)
        a, b = x.double().numpy().reshape(n, -1), y.reshape(n, -1)
        ps = []
        for w in list(np.eye(a.shape[1])) + [rng.normal(size=a.shape[1]) for _ in range(6)]:
            ps.append(st.ks_2samp(a @ w, b @ w).pvalue)
        return min(ps)

    n = 1200
    if test(n) < P1 and test(2 * n) < P2:
        raise Violation("distribution-mvn" + ("-diff" if diff else ""), "multivariate-normal leaf samples deviate from the circuit")
    ctx.seen(M.key(cfg) + f"mvn{diff}")


def large(rng, ctx, j, diff):
    """Image-sized models (wide Binomial/Categorical domains, many features/sums/repetitions): two-sample tests of the
    model's samples against an independent ancestral sampler, and membership of the leaf supports."""
    cfg = M.large_cfg(rng, j)
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.5)
    relaxed = diff and any(c.__name__ == "Binomial" for c in [cfg.leaf_type] + [
        d[1] for d in cfg.leaf_kwargs.get("scopes_to_dist", ())])

    def test(n):
        x = draw(model, n, diff)
        expect(tuple(x.shape) == (n, cfg.num_channels, cfg.num_features), "wrong-shape", f"sample shape {tuple(x.shape)}")
        ctx.tick(n)
        if relaxed:
            return 1.0
        b = M.in_domain(cfg, x.round() if diff and bool(((x - x.round()).abs() < 1e-4).all()) else x)
        expect(b is None, "outside-support", f"sample: {b}", config=M.desc(cfg))
        return two_sample_p(x.double().numpy(), ref.sample(model, n, rng), rng)

    if test(1500) < P1 and (q := test(3000)) < P2:
        raise Violation("distribution-large" + ("-diff" if diff else ""), f"samples of an image-sized model deviate, p={q:.1e}",
                        config=M.desc(cfg))
    ctx.seen(M.key(cfg) + f"large{diff}")


def check(ctx):
    for j in range(ctx.n(14, 56)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j, False)
        if j % 3 == 0:
            ctx.run(f"large-diff-{j}", {"large": j}, large, ctx, j, True)
    for j, (layer, depth, structure, R) in enumerate([("einsum", 1, "top-down", 1), ("linsum", 1, "top-down", 3), ("linsum2", 2, "top-down", 1),
                                                      ("einsum", 1, "bottom-up", 2), ("linsum", 2, "bottom-up", 1), ("einsum", 0, "top-down", 2)]):
        combo = dict(structure=structure, layer=layer, depth=depth, R=R, K=1 + j % 2)
        ctx.run(f"precise-diff-{j}", combo, precise, ctx, combo, True)
        if ctx.thorough or j % 3 == ctx.seed % 3:
            ctx.run(f"precise-{j}", combo, precise, ctx, combo, False)
    combos = M.covering(ctx.thorough)
    leaves = ["categorical", "bernoulli", "binomial", "multi", "categorical"]
    i = 0
    for rep in range(ctx.n(2, 6)):
        for j, combo in enumerate(combos):
            leaf = leaves[(i + rep) % 5]
            ctx.run(f"disc-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, discrete, ctx, combo, leaf, False)
            dl = ["categorical", "bernoulli"][(i + rep) % 2]
            ctx.run(f"diff-{rep}-{j}-{dl}", {**combo, "leaf": dl, "differentiable": True}, discrete, ctx, combo, dl, True)
            i += 1
    for j, combo in enumerate(combos):
        if ctx.thorough or j % 3 == ctx.seed % 3:
            leaf = ["normal", "ratnormal"][(j // 3) % 2]
            ctx.run(f"cont-{j}-{leaf}", {**combo, "leaf": leaf}, continuous, ctx, combo, leaf, bool(j % 2))
    # several channels: nothing but the circuit may couple them
    for j in range(ctx.n(8, 24)):
        combo = dict(structure="top-down", layer=M.LAYERS[j % 3], R=1 + j % 2, K=1 + (j // 2) % 2, depth=1)
        leaf = ["normal", "ratnormal"][j % 2]
        diff = bool((j // 2) % 2)
        ctx.run(f"chan-{j}-{leaf}", {**combo, "leaf": leaf, "channels": 2 + j % 2}, continuous, ctx, combo, leaf, diff, 2 + j % 2)
    for j in range(ctx.n(6, 18)):
        ctx.run(f"mvn-{j}", {"mvn": j}, mvn, ctx, j, False)
        ctx.run(f"mvn-diff-{j}", {"mvn": j}, mvn, ctx, j, True)
