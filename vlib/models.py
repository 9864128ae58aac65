"""Model/configuration generators and parameter histories shared by the checks."""
import itertools

import numpy as np
import torch

from simple_einet.einet import Einet, EinetConfig
from simple_einet.layers.distributions.bernoulli import Bernoulli
from simple_einet.layers.distributions.binomial import Binomial
from simple_einet.layers.distributions.categorical import Categorical
from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
from simple_einet.layers.distributions.normal import Normal, RatNormal

LEAVES = {
    "bernoulli": Bernoulli,
    "binomial": Binomial,
    "categorical": Categorical,
    "normal": Normal,
    "ratnormal": RatNormal,
    "mvn": MultivariateNormal,
    "multi": MultiDistributionLayer,
}
LAYERS = ["linsum", "linsum2", "einsum"]


def leaf_kwargs(name, rng, num_features=None, k=None, depth=None):
    if name == "binomial":
        return {"total_count": int(k - 1) if k else int(rng.integers(1, 4))}
    if name == "categorical":
        return {"num_bins": int(k) if k else int(rng.integers(2, 5))}
    if name == "ratnormal":
        kw = {"min_sigma": 0.2, "max_sigma": 1.5}
        if rng.random() < 0.5:
            kw = {"min_sigma": float(rng.uniform(0.1, 0.5)), "max_sigma": float(rng.uniform(0.9, 2.0))}
        if rng.random() < 0.4:
            kw["min_mean"] = float(rng.choice([-3.0, -1.0, 0.0, 0.5]))
            kw["max_mean"] = kw["min_mean"] + float(rng.uniform(0.5, 4.0))
        return kw
    if name == "mvn":
        fits = [c for c in (1, 2, 3) if depth is None or not num_features or num_features // c >= 2**depth]
        return {"cardinality": int(rng.choice([2] + fits)) if num_features else 2}
    if name == "multi":
        perm = [int(i) for i in rng.permutation(num_features)]
        h = max(1, num_features // 2)
        if rng.random() < 0.5:
            return {"scopes_to_dist": [(perm[:h], Bernoulli, {}), (perm[h:], Binomial, {"total_count": 2})]}
        cuts = sorted({0, num_features, h, int(rng.integers(1, num_features)) if num_features > 1 else 1})
        kinds = [[(Bernoulli, {}), (Binomial, {"total_count": int(rng.integers(1, 3))}),
                  (Categorical, {"num_bins": int(rng.integers(2, 4))})][i] for i in rng.permutation(3)]
        return {"scopes_to_dist": [(perm[a:b], *kinds[i]) for i, (a, b) in enumerate(zip(cuts, cuts[1:]))]}
    return {}


def desc(cfg):
    d = dict(D=cfg.depth, F=cfg.num_features, C=cfg.num_channels, S=cfg.num_sums, I=cfg.num_leaves,
             R=cfg.num_repetitions, K=cfg.num_classes, layer=cfg.layer_type, structure=cfg.structure,
             leaf=cfg.leaf_type.__name__)
    kw = {k: v for k, v in cfg.leaf_kwargs.items() if k != "scopes_to_dist"}
    if kw:
        d["leaf_kwargs"] = kw
    if cfg.dropout:
        d["dropout"] = cfg.dropout
    return d


def key(cfg):
    return "-".join(f"{k}{v}" for k, v in desc(cfg).items())


def make_cfg(rng, leaf="categorical", structure=None, layer=None, R=None, K=None, depth=None, F=None, C=None, S=None,
             I=None, k=None, max_F=6, dropout=0.0, kwargs=None):
    structure = structure or rng.choice(["top-down", "top-down", "bottom-up"])
    if structure == "bottom-up":
        layer = "linsum"
    layer = layer or str(rng.choice(LAYERS))
    R = int(R or rng.choice([1, 1, 2, 3]))
    K = int(K or rng.choice([1, 1, 2, 3]))
    C = int(C or rng.choice([1, 1, 1, 2]))
    wide = R > 3 or K > 9
    S = int(S or (rng.integers(5, 10) if wide else rng.integers(1, 5)))
    I = int(I or (rng.integers(5, 10) if wide else rng.integers(1, 5)))
    if depth is None:
        depth = int(rng.integers(0, 3))
    if F is None:
        F = int(rng.integers(max(2, 2**depth), max(max_F, 2**depth) + 1))
    kw = leaf_kwargs(leaf, rng, F, k, depth) if kwargs is None else kwargs
    return EinetConfig(num_features=int(F), num_channels=C, num_sums=S, num_leaves=I, num_repetitions=R, num_classes=K,
                       depth=int(depth), dropout=float(dropout), leaf_type=LEAVES[leaf], leaf_kwargs=kw,
                       layer_type=str(layer), structure=str(structure))


@torch.no_grad()
def randomize(model, rng, scale=1.5, leaf_scale=1.5):
    """Heterogeneous parameters: every trainable parameter gets its own value."""
    for name, p in model.named_parameters():
        if not p.requires_grad or not p.is_floating_point():
            continue
        s = leaf_scale if "leaf" in name else scale
        p.copy_(torch.tensor(rng.normal(0.0, s, size=tuple(p.shape)), dtype=p.dtype))
        if "logvar" in name:
            p.mul_(0.5)
        if "L_diag_log" in name:
            p.mul_(0.3)
    return model


def build(cfg, rng, scale=1.5, leaf_scale=1.5, mode="random"):
    m = Einet(cfg)
    if mode == "random":
        randomize(m, rng, scale, leaf_scale)
    m.eval()
    return m


def domain_sizes(cfg):
    """Number of values of each feature (all channels alike) for discrete leaves, else None."""
    lt = cfg.leaf_type
    if lt is Bernoulli:
        return [2] * cfg.num_features
    if lt is Binomial:
        return [cfg.leaf_kwargs["total_count"] + 1] * cfg.num_features
    if lt is Categorical:
        return [cfg.leaf_kwargs["num_bins"]] * cfg.num_features
    if lt is MultiDistributionLayer:
        out = [0] * cfg.num_features
        for scope, d, kw in cfg.leaf_kwargs["scopes_to_dist"]:
            n = {Bernoulli: lambda: 2, Binomial: lambda: kw["total_count"] + 1, Categorical: lambda: kw["num_bins"]}
            if d not in n:
                return None
            for s in scope:
                out[s] = n[d]()
        return out
    return None


def n_states(cfg):
    ds = domain_sizes(cfg)
    return None if ds is None else int(np.prod([float(d) for d in ds]) ** cfg.num_channels)


def enumerate_domain(cfg):
    """All points of the domain as float tensor [n, C, F] in C-order of the flattened (channel, feature) index."""
    ds = domain_sizes(cfg)
    grids = [range(d) for _ in range(cfg.num_channels) for d in ds]
    pts = np.array(list(itertools.product(*grids)), dtype=np.float32)
    return torch.tensor(pts).view(-1, cfg.num_channels, cfg.num_features)


def state_index(cfg, x):
    """Index of each row of x [n, C, F] in enumerate_domain(cfg); raises on out-of-domain values."""
    from .core import Violation

    ds = np.array(domain_sizes(cfg) * cfg.num_channels)
    v = x.detach().double().cpu().numpy().reshape(x.shape[0], -1)
    if v.shape[1] != len(ds):
        raise Violation("wrong-shape", f"result has {v.shape[1]} values per row, expected {len(ds)}")
    r = np.round(v)
    if not np.isfinite(v).all() or np.abs(v - r).max() > 1e-4:
        raise Violation("out-of-domain", "non-integer or non-finite value in a discrete model's result",
                        values=v[~np.isfinite(v).all(1) | (np.abs(v - r) > 1e-4).any(1)][:3].tolist())
    r = r.astype(np.int64)
    if (r < 0).any() or (r >= ds).any():
        bad = (r < 0) | (r >= ds)
        raise Violation("out-of-domain", f"value outside the leaf domain: {r[bad.any(1)][0].tolist()} sizes {ds.tolist()}")
    mult = np.concatenate([np.cumprod(ds[::-1])[::-1][1:], [1]])
    return (r * mult).sum(1)


@torch.no_grad()
def joint_table(model, cfg, batch=4096):
    """p[k, state] from the model's own likelihood (float64)."""
    pts = enumerate_domain(cfg)
    out = []
    for i in range(0, len(pts), batch):
        out.append(model(pts[i:i + batch].clone()).double())
    return torch.cat(out).exp().numpy().T


def train_steps(model, data, steps=5, lr=0.1, opt="adam"):
    model.train()
    o = torch.optim.Adam(model.parameters(), lr=lr) if opt == "adam" else torch.optim.SGD(model.parameters(), lr=lr)
    for _ in range(steps):
        o.zero_grad()
        loss = -model(data).mean()
        loss.backward()
        o.step()
    model.eval()
    return model


def random_x(cfg, rng, n, spread=1.0):
    """Random data in the leaf domain [n, C, F]."""
    ds = domain_sizes(cfg)
    if ds is None:
        return torch.tensor(rng.normal(0, spread, size=(n, cfg.num_channels, cfg.num_features)), dtype=torch.float32)
    x = np.stack([rng.integers(0, d, size=(n, cfg.num_channels)) for d in ds], axis=-1)
    return torch.tensor(x, dtype=torch.float32)


# A fixed covering set of structural combinations: every (structure, layer) x R in {1,>1} x K in {1,>1} x depth 0/1/2.
def covering(thorough=False):
    combos = []
    for structure, layer in [("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"),
                             ("bottom-up", "linsum")]:
        for R in ([1, 2, 3] if thorough else [1, 2]):
            for K in ([1, 2, 3] if thorough else [1, 2]):
                for depth in ([0, 1, 2] if not thorough else [0, 1, 2, 3]):
                    combos.append(dict(structure=structure, layer=layer, R=R, K=K, depth=depth))
    # wide circuits: many repetitions, classes, sums and leaves (see make_cfg) at both ends of the depth range
    combos += [dict(structure="top-down", layer="linsum", R=5, K=7, depth=3), dict(structure="top-down", layer="linsum2", R=6, K=4, depth=1),
               dict(structure="top-down", layer="einsum", R=4, K=5, depth=3), dict(structure="bottom-up", layer="linsum", R=5, K=6, depth=3),
               dict(structure="bottom-up", layer="linsum", R=9, K=1, depth=1), dict(structure="top-down", layer="einsum", R=1, K=12, depth=2)]
    return combos


def large_cfg(rng, j, leaf=None, K=None, F=None):
    """Image-sized configurations: many features, sums, leaves, repetitions and wide leaf domains. j cycles the
    structure and leaf families."""
    structure, layer = [("top-down", "linsum"), ("bottom-up", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum")][j % 4]
    leaf = leaf or ["binomial", "categorical", "normal", "binomial", "bernoulli", "ratnormal", "multi"][(j + j // 4) % 7]
    F = int(F or rng.choice([16, 36, 49, 64, 100]))
    D = int(rng.integers(2, 5))
    kw = leaf_kwargs(leaf, rng, F)
    if leaf == "binomial":
        kw = {"total_count": int(rng.choice([16, 31, 63, 128, 255]))}
    elif leaf == "categorical":
        kw = {"num_bins": int(rng.choice([10, 17, 33, 64]))}
    elif leaf == "multi":
        perm = [int(i) for i in rng.permutation(F)]
        a, b = F // 3, 2 * F // 3
        kw = {"scopes_to_dist": [(perm[:a], Binomial, {"total_count": 255}), (perm[a:b], Normal, {}),
                                 (perm[b:], Categorical, {"num_bins": 20})]}
    return make_cfg(rng, leaf=leaf, structure=structure, layer=layer, F=F, depth=D, C=int(rng.choice([1, 1, 3])),
                    S=int(rng.integers(5, 13)), I=int(rng.integers(5, 13)), R=int(rng.integers(1, 9)),
                    K=int(K or rng.choice([1, 3, 10, 12])), kwargs=kw)


def large_x(cfg, rng, n):
    """Data in the leaf domains of a large configuration (continuous features included)."""
    x = np.empty((n, cfg.num_channels, cfg.num_features), dtype=np.float32)

    def fill(scope, cls, kw):
        shp = (n, cfg.num_channels, len(scope))
        if cls is Bernoulli:
            v = rng.integers(0, 2, shp)
        elif cls is Binomial:
            v = rng.integers(0, kw["total_count"] + 1, shp)
        elif cls is Categorical:
            v = rng.integers(0, kw["num_bins"], shp)
        else:
            v = rng.normal(0, 1.5, shp)
        x[:, :, scope] = v

    if cfg.leaf_type is MultiDistributionLayer:
        for scope, cls, kw in cfg.leaf_kwargs["scopes_to_dist"]:
            fill(list(scope), cls, kw)
    else:
        fill(list(range(cfg.num_features)), cfg.leaf_type, cfg.leaf_kwargs)
    return torch.tensor(x)


def in_domain(cfg, x):
    """None if every entry of x lies in its leaf's support, else a description."""
    v = x.detach().double().cpu().numpy()

    def bad(scope, cls, kw):
        w = v[:, :, scope]
        if not np.isfinite(w).all():
            return f"non-finite value of a {cls.__name__} feature"
        hi = {Bernoulli: lambda: 1, Binomial: lambda: kw["total_count"], Categorical: lambda: kw["num_bins"] - 1}
        if cls in hi and ((w != np.round(w)).any() or w.min() < 0 or w.max() > hi[cls]()):
            o = w[(w != np.round(w)) | (w < 0) | (w > hi[cls]())][0]
            return f"value {o} is no element of {{0..{hi[cls]()}}} ({cls.__name__})"
        return None

    if cfg.leaf_type is MultiDistributionLayer:
        for scope, cls, kw in cfg.leaf_kwargs["scopes_to_dist"]:
            if (b := bad(list(scope), cls, kw)) is not None:
                return b
        return None
    return bad(list(range(cfg.num_features)), cfg.leaf_type, cfg.leaf_kwargs)
