"""C03: marginal queries equal exact sums/integrals of the joint."""
import numpy as np
import torch

from .. import models as M
from .. import ref
from ..core import Violation, close, expect, maxdiff

LEVEL = "exploration"
RULE = ("one evaluation = one (evidence row, missing set, class, way of asking) compared with the sum of the model's own "
        "joint over the missing entries (complete enumeration) or with quadrature; distinct = distinct (configuration, "
        "missing pattern)")
MIN_EVALS, MIN_DISTINCT = 2000, 100
ASSUMPTIONS = ("multivariate-normal leaves document that marginalisation is unsupported and are out of scope",)


@torch.no_grad()
def discrete(rng, ctx, combo, leaf, scale):
    for _ in range(60):
        cfg = M.make_cfg(rng, leaf=leaf, max_F=8, **combo)
        if M.n_states(cfg) <= 1500:
            break
    else:
        cfg = M.make_cfg(rng, leaf="bernoulli", F=max(2, 2 ** combo["depth"]), C=1, **combo)
    model = M.build(cfg, rng, scale=scale, leaf_scale=scale)
    table = M.joint_table(model, cfg)  # [K, states]
    ds = M.domain_sizes(cfg) * cfg.num_channels
    T = table.reshape([cfg.num_classes] + ds)
    C, F = cfg.num_channels, cfg.num_features
    pats = [np.ones(F, bool), np.zeros(F, bool)] + [rng.random(F) < q for q in (0.2, 0.5, 0.8, 0.5)]
    pats += [np.arange(F) == 0, np.arange(F) == F - 1]
    x = M.random_x(cfg, rng, 5)
    flat = x.view(5, -1).numpy().astype(int)
    joint_ll = model(x.clone()).double().numpy()
    for miss in pats:
        m_full = np.tile(miss, C)
        mt = T.sum(axis=tuple(1 + np.nonzero(m_full)[0])) if m_full.any() else T
        want = np.array([mt[(slice(None),) + tuple(row[~m_full])] for row in flat])
        want = np.log(want)
        xn = x.clone()
        xn[:, :, torch.tensor(miss)] = torch.nan
        got = model(xn.clone()).double().numpy()
        expect(got.shape == want.shape, "shape", f"shape {got.shape}")
        ctx.tick(got.size)
        expect(np.isfinite(got).all(), "non-finite", f"NaN-marginal not finite, missing={miss.nonzero()[0].tolist()}")
        expect(close(got, want, 5e-4, 5e-4), "nan-marginal", f"NaN marginal off by {maxdiff(got, want)}; missing={miss.nonzero()[0].tolist()}",
               got=got[:2], want=want[:2])
        expect((got >= joint_ll - 5e-4 * (1 + np.abs(joint_ll))).all(), "below-joint", "marginal likelihood below the joint")
        if miss.all():
            expect(np.abs(got).max() < 2e-4, "all-missing", f"everything missing gives {got.ravel()[:3]}, expected 0")
        if True:  # nothing listed is a query like any other
            scopes = [int(i) for i in np.nonzero(miss)[0]]
            rng.shuffle(scopes)
            # values given at marginalised scopes are irrelevant (valid values, any other row's values)
            xo = x.clone()
            other = M.random_x(cfg, rng, 5)
            xo[:, :, torch.tensor(miss)] = other[:, :, torch.tensor(miss)]
            for form, arg in (("list", scopes), ("tensor", torch.tensor(scopes, dtype=torch.long)), ("repeated", scopes + scopes[:1])):
                for inp, nm in ((x, "given"), (xo, "other-values"), (xn, "nan")):
                    g2 = model(inp.clone(), marginalized_scopes=arg).double().numpy()
                    ctx.tick(g2.size)
                    expect(close(g2, want, 5e-4, 5e-4), "scope-marginal",
                           f"marginalized_scopes ({form}, {nm}) off by {maxdiff(g2, want)}; scopes={scopes}")
            ctx.count("scope_queries", 9)
        ctx.seen(M.key(cfg) + str(miss.astype(int).tolist()))
    # different rows, different patterns in one batch; channel-wise missing entries
    ent = rng.random((5, C * F)) < 0.4
    xm = x.view(5, -1).clone()
    xm[torch.tensor(ent)] = torch.nan
    got = model(xm.view(5, C, F)).double().numpy()
    for r in range(5):
        mt = T.sum(axis=tuple(1 + np.nonzero(ent[r])[0])) if ent[r].any() else T
        want = np.log(mt[(slice(None),) + tuple(flat[r][~ent[r]])])
        ctx.tick(cfg.num_classes)
        expect(close(got[r], want, 5e-4, 5e-4), "nan-marginal-entrywise",
               f"entry-wise missing row off by {maxdiff(got[r], want)}")


@torch.no_grad()
def continuous(rng, ctx, combo, leaf):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=9, C=int(rng.choice([1, 2])), **combo)
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.2)
    for nm, p in model.named_parameters():
        if nm.endswith("logvar"):
            p.clamp_(-2.0, 1.5)
    C, F = cfg.num_channels, cfg.num_features
    x = M.random_x(cfg, rng, 3, spread=1.5)
    lo, hi = -14.0, 14.0
    for nm, p in model.named_parameters():
        if nm.endswith("means"):
            lo, hi = min(lo, float(p.min()) - 12), max(hi, float(p.max()) + 12)
    G = 1201
    grid = torch.linspace(lo, hi, G)
    h = float(grid[1] - grid[0])
    for trial in range(3):
        perm = rng.permutation(F)
        miss = sorted(perm[: int(rng.integers(0, F))].tolist())
        j = int(perm[-1])
        ch = int(rng.integers(0, C))
        base = x.clone()
        base[:, :, miss] = torch.nan
        # integrate entry (ch, j)
        rep = base.unsqueeze(1).repeat(1, G, 1, 1)
        rep[:, :, ch, j] = grid
        ll = model(rep.view(-1, C, F)).double().view(3, G, -1)
        want = torch.logsumexp(ll, dim=1).numpy() + np.log(h)
        q = base.clone()
        q[:, ch, j] = torch.nan
        got = model(q).double().numpy()
        ctx.tick(got.size)
        ctx.count("quadrature_points", rep.shape[0] * G)
        expect(close(got, want, 2e-3, 5e-4), "nan-marginal-continuous", f"marginal off by {maxdiff(got, want)}")
        # scopes = missing features in all channels
        sc = [int(i) for i in miss]
        if sc:
            a = model(x.clone(), marginalized_scopes=sc).double().numpy()
            b = model(base.clone()).double().numpy()
            expect(close(a, b, 1e-4, 1e-5), "scope-vs-nan", f"marginalized_scopes and NaN disagree by {maxdiff(a, b)}")
        ctx.seen(M.key(cfg) + str(miss) + f"/{j}")
    got = model(torch.full((2, C, F), torch.nan)).double().numpy()
    expect(np.abs(got).max() < 2e-4, "all-missing", f"everything missing gives {got.ravel()[:3]}, expected 0")


@torch.no_grad()
def large(rng, ctx, j):
    """Image-sized models: marginals against the independent float64 circuit, by NaN and by scopes, rows that differ in
    what is missing."""
    cfg = M.large_cfg(rng, j)
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.2)
    C, F = cfg.num_channels, cfg.num_features
    x = M.large_x(cfg, rng, 8)
    miss = rng.random(x.shape) < np.array([0.0, 0.05, 0.3, 0.5, 0.7, 0.95, 1.0, 0.5])[:, None, None]
    miss[7] = np.arange(F)[None] < F // 2
    q = x.clone()
    q[torch.tensor(miss)] = torch.nan
    want = ref.log_likelihood(model, q.double().numpy())
    got = model(q.clone()).double().numpy()
    ctx.tick(got.size)
    expect(close(got, want, 1e-3, 3e-5), "nan-marginal-large", f"marginal off by {maxdiff(got, want)}", config=M.desc(cfg))
    expect(np.abs(got[6]).max() < 5e-4, "all-missing", f"everything missing gives {got[6][:3]}, expected 0", config=M.desc(cfg))
    for sc in ([int(i) for i in rng.permutation(F)[: F // 2]], [0], list(range(F - 1)), list(range(F))):
        y = x.clone()
        y[:, :, sc] = torch.nan
        want = ref.log_likelihood(model, y.double().numpy())
        for form in (sc, torch.tensor(sc)):
            got = model(x.clone(), marginalized_scopes=form).double().numpy()
            ctx.tick(got.size)
            expect(close(got, want, 1e-3, 3e-5), "scope-marginal-large", f"marginal of {len(sc)} scopes off by {maxdiff(got, want)}",
                   config=M.desc(cfg))
    ctx.seen(M.key(cfg) + "large")


def check(ctx):
    for j in range(ctx.n(28, 140)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j)
    combos = M.covering(ctx.thorough)
    leaves = ["categorical", "bernoulli", "binomial", "multi"]
    i = 0
    for rep in range(ctx.n(2, 8)):
        for j, combo in enumerate(combos):
            leaf = leaves[(i + rep) % 4]
            scale = [1.5, 5.0][rep % 2]
            ctx.run(f"disc-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, discrete, ctx, combo, leaf, scale)
            i += 1
    for j, combo in enumerate(combos):
        ctx.run(f"cont-{j}", {**combo, "leaf": "normal"}, continuous, ctx, combo, ["normal", "ratnormal"][j % 2])
