"""C22: leaf parameters returned by sampling are those of the leaves the sample comes from."""
import numpy as np
import torch

from simple_einet.layers.distributions.bernoulli import Bernoulli
from simple_einet.layers.distributions.binomial import Binomial
from simple_einet.layers.distributions.categorical import Categorical
from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
from simple_einet.layers.distributions.normal import Normal, RatNormal

from .. import models as M
from ..core import close, expect, maxdiff

LEVEL = "exploration"
RULE = ("one evaluation = one (sample, channel, feature) parameter vector matched with the leaf a tracer model and the leaf modes "
        "name for the same random stream; distinct = distinct (configuration, mode of use)")
MIN_EVALS, MIN_DISTINCT = 20000, 150
ASSUMPTIONS = ("parameters are compared in the parameterisation of each layer's get_params; leaves without per-feature parameters "
               "(multivariate Gaussian, piecewise linear) may refuse with NotImplementedError but must not return anything else",)


def raw_params(kind, kw, sd, prefix, C, F, I, R):
    """Parameter vectors [C, F, I, R, P] of the leaf layer in the parameterisation of get_params, read off the state dict."""
    g = lambda n: sd[prefix + n].double()[0]
    if kind is Normal:
        return torch.stack([g("means"), g("logvar")], -1)
    if kind is RatNormal:
        lo, hi = kw.get("min_sigma", 0.1), kw.get("max_sigma", 1.0)
        mu = g("means")
        if kw.get("max_mean") is not None:
            mu = kw["min_mean"] + (kw["max_mean"] - kw["min_mean"]) * torch.sigmoid(mu)
        return torch.stack([mu, lo + (hi - lo) * torch.sigmoid(g("stds"))], -1)
    if kind is Bernoulli:
        return g("probs").unsqueeze(-1)
    if kind is Binomial:
        return g("logits").unsqueeze(-1)
    if kind is Categorical:
        return g("logits")
    if kind is MultiDistributionLayer:
        parts = []
        for j, (scope, cls, kws) in enumerate(kw["scopes_to_dist"]):
            parts.append((list(scope), raw_params(cls, kws, sd, f"{prefix}dists.{j}.", C, len(scope), I, R)))
        P = max(p.shape[-1] for _, p in parts)
        out = torch.zeros(C, F, I, R, P, dtype=torch.float64)
        for scope, p in parts:
            out[:, scope, ..., :p.shape[-1]] = p
        return out
    raise AttributeError(kind)


def mode_of(kind, kw, p):
    """Mode implied by parameter vectors p[..., P] (of one feature's distribution)."""
    if kind in (Normal, RatNormal):
        return p[..., 0]
    if kind is Bernoulli:
        return (p[..., 0] >= 0).double()
    if kind is Binomial:
        return torch.floor(torch.sigmoid(p[..., 0]) * (kw["total_count"] + 1)).clamp(max=kw["total_count"])
    if kind is Categorical:
        return p[..., :kw["num_bins"]].argmax(-1).double()


def feature_dists(cfg):
    if cfg.leaf_type is MultiDistributionLayer:
        out = [None] * cfg.num_features
        for scope, cls, kw in cfg.leaf_kwargs["scopes_to_dist"]:
            for s in scope:
                out[s] = (cls, kw)
        return out
    return [(cfg.leaf_type, cfg.leaf_kwargs)] * cfg.num_features


def tracer(model, cfg):
    """Same circuit with Gaussian leaves whose mean is a unique number per (channel, feature, leaf, repetition)."""
    from simple_einet.einet import Einet, EinetConfig

    C, F, I, R = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions
    t = Einet(EinetConfig(num_features=F, num_channels=C, num_sums=cfg.num_sums, num_leaves=I, num_repetitions=R,
                          num_classes=cfg.num_classes, depth=cfg.depth, dropout=0.0, leaf_type=Normal, leaf_kwargs={},
                          layer_type=cfg.layer_type, structure=cfg.structure))
    own = t.state_dict()
    for k, v in model.state_dict().items():
        if k in own and own[k].shape == v.shape and "base_leaf" not in k and not k.endswith(("means", "logvar")):
            own[k] = v.clone()
    t.load_state_dict(own)
    leaf = t.leaf.base_leaf if cfg.structure == "top-down" else t.leaf
    with torch.no_grad():
        leaf.means.copy_(torch.arange(C * F * I * R, dtype=torch.float32).view(1, C, F, I, R))
        leaf.logvar.zero_()
    t.eval()
    return t


def case(rng, ctx, combo, leaf):
    kwargs = None
    combo = dict(combo, C=int(rng.choice([1, 2, 3])))  # unequal extents: mixed up axes cannot agree by accident
    if leaf == "multi3":
        F = 2 ** combo["depth"] + 3 + int(rng.integers(0, 3))
        perm = [int(i) for i in rng.permutation(F)]
        kwargs = {"scopes_to_dist": [(perm[:2], Normal, {}), (perm[2:3], Categorical, {"num_bins": 3}), (perm[3:], Bernoulli, {})]}
        if rng.random() < 0.5:
            kwargs["scopes_to_dist"].insert(1, kwargs["scopes_to_dist"].pop())
        cfg = M.make_cfg(rng, leaf="multi", F=F, kwargs=kwargs, **combo)
    elif leaf == "ratnormal-bounded":
        cfg = M.make_cfg(rng, leaf="ratnormal", kwargs={"min_sigma": 0.2, "max_sigma": 1.5, "min_mean": -3.0, "max_mean": 2.0}, max_F=9, **combo)
    else:
        cfg = M.make_cfg(rng, leaf=leaf, max_F=9, **combo)
    model = M.build(cfg, rng).double()
    C, F, I, R = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions
    pre = "leaf.base_leaf." if cfg.structure == "top-down" else "leaf."
    table = raw_params(cfg.leaf_type, cfg.leaf_kwargs, model.state_dict(), pre, C, F, I, R)
    P = table.shape[-1]
    dists = feature_dists(cfg)
    before = {k: v.clone() for k, v in model.state_dict().items()}
    trace = tracer(model, cfg).double()
    n = int(rng.choice([1, 2, 5, 23]))
    seed = int(rng.integers(0, 2**31))

    def modes(p):
        return torch.stack([mode_of(k, kw, p[:, :, f]) for f, (k, kw) in enumerate(dists)], -1)

    def judge(what, kw, evidence=None):
        call = dict(kw, seed=seed)
        if evidence is not None:
            call["evidence"] = evidence.clone()
        p = model.sample(**dict(call, return_leaf_params=True))
        N = evidence.shape[0] if evidence is not None else (len(kw["class_index"]) if isinstance(kw.get("class_index"), list) else n)
        expect(tuple(p.shape) == (N, C, F, P), "shape", f"{what}: parameters have shape {tuple(p.shape)}, expected {(N, C, F, P)}")
        q = p.detach().double()
        ctx.tick(N * C * F)
        ctx.seen(M.key(cfg) + what)
        if evidence is None:
            ids = trace.sample(**dict(call, mpe_at_leaves=True)).detach().round().long()
            want = table.reshape(-1, P)[ids.reshape(-1)].view(N, C, F, P)
            expect(close(q, want, 1e-5, 1e-5), "wrong-leaf", f"{what}: parameters are not those of the selected leaf (by {maxdiff(q, want)})",
                   case=M.desc(cfg))
        else:
            # every vector belongs to a leaf of its own feature and all features of a row use one repetition
            d = (q[:, :, :, None, None, :] - table[None]).abs().amax(-1)  # [N, C, F, I, R]
            per_r = d.amin(3).amax((1, 2))  # [N, R]
            expect(float(per_r.amin(1).max()) < 1e-4, "wrong-leaf", f"{what}: parameters belong to no leaf of the feature", case=M.desc(cfg))
        mode = model.sample(**dict(call, mpe_at_leaves=True)).detach().double()
        got = modes(q)
        mask = torch.ones_like(got, dtype=torch.bool) if evidence is None else torch.isnan(evidence)
        expect(close(got[mask], mode[mask], 1e-5, 1e-5), "mode", f"{what}: modes of the returned parameters are not the modes drawn with the same seed "
               f"(by {maxdiff(got[mask], mode[mask])})", case=M.desc(cfg))
        if evidence is None and not kw.get("is_mpe") and not kw.get("is_differentiable"):
            # the actual draw is a draw from the named leaf
            x = model.sample(**call).detach().double()
            for f, (k, kws) in enumerate(dists):
                if k in (Normal, RatNormal):
                    sig = q[:, :, f, 1] if k is RatNormal else (0.5 * q[:, :, f, 1]).exp()
                    z = (x[:, :, f] - q[:, :, f, 0]) / sig
                    expect(float(z.abs().max()) < 7, "draw", f"{what}: sample is {float(z.abs().max()):.1f} sigma from the returned leaf")
                elif k is Bernoulli:
                    lp = -torch.nn.functional.softplus(-(2 * x[:, :, f] - 1) * q[:, :, f, 0])
                    expect(float(lp.min()) > -25, "draw", f"{what}: sample impossible under the returned leaf")
        if p.requires_grad:
            model.zero_grad()
            p.sum().backward()
            g = [(nm, v.grad) for nm, v in model.named_parameters() if v.requires_grad and nm.startswith(pre) and v.grad is not None]
            expect(g and all(bool(torch.isfinite(v).all()) for _, v in g) and any(float(v.abs().sum()) > 0 for _, v in g), "gradient",
                   f"{what}: no finite gradient reaches the leaf parameters")
        else:
            with torch.no_grad():
                p.fill_(1234.5)  # a result, not a window into the model
        for k, v in model.state_dict().items():
            expect(torch.equal(v, before[k]), "aliasing", f"{what}: writing to the returned parameters changes {k}")

    K = cfg.num_classes
    plain = [("draw", {}), ("mpe", {"is_mpe": True}), ("diff", {"is_differentiable": True}), ("diff-mpe", {"is_differentiable": True, "is_mpe": True}),
             ("modes", {"mpe_at_leaves": True})]
    for name, kw in plain:
        judge(name, dict(kw, num_samples=n))
    judge("hot", dict(num_samples=n, temperature_sums=3.0))
    if K > 1:
        c = int(rng.integers(K))
        cl = [int(v) for v in rng.integers(0, K, size=6)]
        for diff in (False, True):
            judge(f"class-{diff}", dict(num_samples=n, class_index=c, is_differentiable=diff))
            judge(f"classes-{diff}", dict(class_index=cl, is_differentiable=diff))
    x = model.sample(num_samples=n).detach().double()
    miss = torch.tensor(rng.random(x.shape) < rng.choice([0.2, 0.6, 1.0], size=(n, 1, 1)))
    miss[0, 0, 0] = True
    x[miss] = torch.nan
    for name, kw in plain:
        judge("evidence-" + name, kw, x)


def conv(rng, ctx, leaf, structure, order):
    from . import c19

    C = int(rng.integers(1, 4))
    size, ch = c19.configs(rng, leaf, structure, order, False)
    model, cfg = c19.make(rng, leaf, structure, order, size, C, ch)
    H, W = size
    I = model.leaf_data.num_leaves
    kind, kw = cfg.leaf_type, cfg.leaf_kwargs
    table = raw_params(kind, kw, model.state_dict(), "leaf_data.", C, H * W, I, 1)[..., 0, :].view(C, H, W, I, -1)
    n, seed = int(rng.choice([1, 3, 7])), int(rng.integers(0, 2**31))
    x = model.sample(num_samples=n).detach().round()
    x = x.clamp(0, c19.CARD.get(leaf, 1000) - 1) if leaf in c19.CARD else x
    x[torch.tensor(rng.random(x.shape) < 0.5)] = torch.nan
    x[0, 0, 0, 0] = torch.nan
    for name, call in (("conv", dict(num_samples=n)), ("conv-mpe", dict(num_samples=n, is_mpe=True)), ("conv-evidence", dict(evidence=x)),
                       ("conv-evidence-mpe", dict(evidence=x, is_mpe=True)), ("conv-hot", dict(num_samples=n, temperature_sums=2.0))):
        call = {k: v.clone() if torch.is_tensor(v) else v for k, v in call.items()}
        p = model.sample(**dict(call, return_leaf_params=True, seed=seed)).detach().double()
        expect(tuple(p.shape) == (n, C, H, W, table.shape[-1]), "shape", f"{name}: parameters have shape {tuple(p.shape)}")
        ctx.tick(n * C * H * W)
        ctx.seen(f"{name}-{leaf}-{structure}-{order}-{size}-{ch}-{C}")
        d = (p.unsqueeze(4) - table[None]).abs().amax(-1)  # [N, C, H, W, I]
        # one leaf channel per pixel, shared by the data channels
        expect(float(d.amax(1).amin(-1).max()) < 1e-4, "wrong-leaf", f"{name}: parameters belong to no leaf of the pixel")
        mode = model.sample(**dict(call, mpe_at_leaves=True, seed=seed)).detach().double()
        got = mode_of(kind, kw, p)
        mask = torch.isnan(x) if "evidence" in call else torch.ones_like(got, dtype=torch.bool)
        expect(close(got[mask], mode[mask], 1e-5, 1e-5), "mode", f"{name}: modes of the returned parameters are not the modes drawn with the same seed")


def unsupported(rng, ctx, which):
    """Leaves without per-feature parameters: refuse rather than return something unrelated."""
    cfg = M.make_cfg(rng, leaf="mvn", structure="top-down", depth=1, F=4)
    model = M.build(cfg, rng)
    try:
        p = model.sample(num_samples=3, return_leaf_params=True)
    except (NotImplementedError, AttributeError) as e:
        ctx.count("refused", 1)
        ctx.tick()
        return
    expect(p.shape[:3] == (3, cfg.num_channels, cfg.num_features), "unsupported", f"multivariate leaves return {tuple(p.shape)}")


def check(ctx):
    leaves = ["normal", "ratnormal", "ratnormal-bounded", "bernoulli", "binomial", "categorical", "multi", "multi3"]
    combos = M.covering(ctx.thorough)
    for rep in range(ctx.n(1, 3)):
        for i, combo in enumerate(combos):
            for j, leaf in enumerate(leaves):
                if not ctx.thorough and (i + j + ctx.seed) % 4:
                    continue
                tag = "-".join(str(v) for v in combo.values())
                ctx.run(f"{tag}-{leaf}-{rep}", dict(combo, leaf=leaf), case, ctx, combo, leaf)
    k = 0
    for structure in ("bottom-up", "top-down"):
        for order in ("sum-prod", "prod-sum"):
            for leaf in ("normal", "ratnormal", "bernoulli", "binomial", "categorical"):
                k += 1
                for rep in range(ctx.n(1, 6)):
                    ctx.run(f"conv-{structure}-{order}-{leaf}-{rep}", {"leaf": leaf}, conv, ctx, leaf, structure, order)
    ctx.run("unsupported", {}, unsupported, ctx, "mvn")
