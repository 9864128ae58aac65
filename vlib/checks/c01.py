"""C01: normalisation. Monitor: total mass of exp(forward) over the fully enumerated (or quadrature) domain."""
import numpy as np
import torch

from .. import models as M
from ..core import Violation, expect

LEVEL = "exploration"
RULE = ("one evaluation = one class mass of one model over its complete domain (every joint state enumerated for "
        "discrete leaves; tensor-product quadrature or importance sums for continuous ones); a case is non-trivial "
        "when the model has heterogeneous random/trained parameters; distinct = distinct (configuration, parameter "
        "history)")
MIN_EVALS, MIN_DISTINCT = 60, 30
ASSUMPTIONS = ("float32 models: mass tolerance 2e-4", "continuous domains integrated by midpoint quadrature on a grid "
               "wide enough that the truncated mass is < 1e-6")


def mass_discrete(ctx, cfg, model, hist):
    p = M.joint_table(model, cfg)
    expect(p.shape[0] == cfg.num_classes, "shape", f"forward returned {p.shape[0]} classes")
    expect(np.isfinite(p).all(), "non-finite", "likelihood is not finite on the domain")
    for k in range(p.shape[0]):
        s = float(p[k].sum())
        ctx.tick()
        ctx.count("states_enumerated", p.shape[1])
        expect(abs(s - 1) < 2e-4, "mass", f"class {k}: total mass {s:.6f} over {p.shape[1]} states after {hist}",
               mass=s, history=hist)
    ctx.seen(M.key(cfg) + hist)


def grid_1d(model, cfg, n=241):
    """Quadrature nodes wide enough for every leaf component."""
    leaf = getattr(model.leaf, "base_leaf", model.leaf)
    lo, hi = -12.0, 12.0
    for nm, p in model.named_parameters():
        if nm.endswith("means"):
            lo, hi = min(lo, float(p.min()) - 11), max(hi, float(p.max()) + 11)
    h = (hi - lo) / n
    return torch.linspace(lo + h / 2, hi - h / 2, n), h


@torch.no_grad()
def mass_continuous(ctx, cfg, model, hist):
    x, h = grid_1d(model, cfg, 301)
    d = cfg.num_channels * cfg.num_features
    assert d == 2
    g = torch.cartesian_prod(x, x).view(-1, cfg.num_channels, cfg.num_features)
    tot = np.zeros(cfg.num_classes)
    for i in range(0, len(g), 20000):
        tot += model(g[i:i + 20000].clone()).double().exp().sum(0).numpy()
    tot *= h * h
    ctx.count("quadrature_points", len(g))
    for k in range(cfg.num_classes):
        ctx.tick()
        expect(abs(tot[k] - 1) < 2e-3, "mass-continuous", f"class {k}: integral {tot[k]:.6f} after {hist}", history=hist)
    ctx.seen(M.key(cfg) + hist)


def discrete_case(rng, ctx, combo, leaf, hist, k=None):
    for _ in range(50):
        cfg = M.make_cfg(rng, leaf=leaf, max_F=6, k=k, **combo)
        if M.n_states(cfg) <= 5000:
            break
    else:
        cfg = M.make_cfg(rng, leaf=leaf, F=max(2, 2 ** combo.get("depth", 1)), C=1, k=2, **combo)
    model = M.build(cfg, rng, mode="init" if hist == "init" else "random")
    if hist == "extreme":
        M.randomize(model, rng, 12.0, 6.0)
    elif hist == "trained":
        M.train_steps(model, M.random_x(cfg, rng, 16), steps=6, lr=0.2)
    elif hist == "train-sgd":
        M.train_steps(model, M.random_x(cfg, rng, 8), steps=4, lr=0.5, opt="sgd")
    elif hist == "one-hot":
        with torch.no_grad():
            for nm, p in model.named_parameters():
                if "leaf" not in nm and p.requires_grad:
                    p.mul_(40.0)
    mass_discrete(ctx, cfg, model, hist)


def check(ctx):
    hists = ["init", "random", "trained", "extreme", "train-sgd", "one-hot"]
    leaves = ["categorical", "bernoulli", "binomial", "multi"]
    combos = M.covering(ctx.thorough)
    i = 0
    for rep in range(ctx.n(2, 8)):
        for j, combo in enumerate(combos):
            leaf = leaves[(i + rep) % len(leaves)]
            h = hists[(i // len(leaves) + rep * 2 + j) % len(hists)]
            cid = f"disc-{rep}-{j}-{leaf}-{h}"
            ctx.run(cid, {**combo, "leaf": leaf, "history": h}, discrete_case, ctx, combo, leaf, h)
            i += 1
    # wide: many features in one leaf group, odd feature counts
    for j in range(ctx.n(10, 40)):
        def wide(rng):
            combo = dict(structure=["top-down", "bottom-up"][j % 2], layer=M.LAYERS[j % 3], R=1 + j % 3, K=1 + (j // 2) % 2,
                         depth=int(rng.integers(1, 4)))
            F = int(rng.integers(2 ** combo["depth"], 11))
            F = max(F, 2 ** combo["depth"])
            cfg = M.make_cfg(rng, leaf="bernoulli", F=F, C=1, **combo)
            mass_discrete(ctx, cfg, M.build(cfg, rng), "random")
        ctx.run(f"wide-{j}", {"wide": j}, wide)

    # continuous
    for j in range(ctx.n(14, 60)):
        def cont(rng):
            leaf = ["normal", "ratnormal", "normal", "mvn"][j % 4]
            if leaf == "mvn":
                cfg = M.make_cfg(rng, leaf=leaf, F=2, C=1, depth=0, structure="top-down")
            else:
                F, C = (2, 1)
                cfg = M.make_cfg(rng, leaf=leaf, F=F, C=C, depth=int(rng.integers(0, 2)))
            model = M.build(cfg, rng, leaf_scale=1.0)
            h = "random"
            if j % 3 == 0:
                M.train_steps(model, M.random_x(cfg, rng, 16), steps=5, lr=0.05)
                h = "trained"
            # very narrow components need a finer grid than we use
            with torch.no_grad():
                for nm, p in model.named_parameters():
                    if nm.endswith("logvar"):
                        p.clamp_(-2.5, 2.0)
                    if "L_diag_log" in nm:
                        p.clamp_(-0.8, 0.8)
            mass_continuous(ctx, cfg, model, h)
        ctx.run(f"cont-{j}", {"continuous": j}, cont)
