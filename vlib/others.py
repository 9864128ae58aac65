"""The models besides a plain Einet over ordinary leaves, behind one interface: ConvPc, Mixture (of Einets and of ConvPcs),
Einet over piecewise-linear leaves, Einet over multivariate-normal leaves. Used by the checks of the generic guarantees
(C06, C07, C08, C10, C13, C14), which hold for every model of the library alike."""
import copy

import numpy as np
import torch

from . import models as M

KINDS = ["conv", "mix", "pwl", "conv", "mixconv", "mvn"]
CONV_LEAVES = ["normal", "categorical", "bernoulli", "ratnormal", "binomial"]


class Other:
    """model, its kind, the shape of one item, number of classes, and which queries it has."""

    def __init__(self, kind, model, cfg, shape, K=1, leaf="", pool=None, data_shape=None):
        self.kind, self.model, self.cfg, self.shape, self.K, self.leaf = kind, model, cfg, tuple(shape), K, leaf
        self.pool, self.data_shape = pool, data_shape
        self.nan = kind != "mvn"
        self.scopes = kind in ("mix", "pwl")  # ConvPc has no marginalized scopes
        self.differentiable = kind in ("pwl", "mvn")  # as an argument; ConvPc samples are always differentiable
        self.posterior = kind in ("pwl", "mvn") and K > 1
        self.features = self.shape[-1] if len(self.shape) == 2 else int(np.prod(self.shape[1:]))
        self.key = f"{kind}-{leaf}-{shape}-{M.key(cfg) if hasattr(cfg, 'depth') else (cfg.channels, cfg.structure, cfg.order)}"
        self.desc = {"kind": kind, "leaf": leaf, "shape": list(self.shape), "classes": K}

    # ---- data ----
    def x(self, rng, n):
        if self.pool is not None:
            return self.pool[torch.tensor(rng.integers(len(self.pool), size=n))].clone()
        k = {"bernoulli": 2, "categorical": 3, "binomial": 4}.get(self.leaf)
        if k:
            return torch.tensor(rng.integers(0, k, size=(n, *self.shape)), dtype=torch.float32)
        return torch.tensor(rng.normal(0, 1.5, size=(n, *self.shape)), dtype=torch.float32)

    def ev(self, rng, n, p=0.5):
        x = self.x(rng, n)
        x[torch.tensor(rng.random(x.shape) < p)] = torch.nan
        return x

    # ---- queries ----
    def ll(self, m, x, scopes=None):
        if scopes is None:
            return m(x)
        return m(x, marginalized_scope=scopes) if self.kind.startswith("mix") else m(x, marginalized_scopes=scopes)

    def mpe(self, m, x=None, scopes=None, **kw):
        if self.kind == "conv":
            return m.sample(evidence=x, is_mpe=True, **({"num_samples": 1} if x is None else {}), **kw).detach()
        if scopes is not None:
            kw["marginalized_scopes"] = scopes
        return m.mpe(evidence=x, **kw).detach()

    def sample(self, m, **kw):
        return m.sample(**kw).detach()

    def samplers(self, rng, n):
        """name -> fn(model, seed): every way of drawing something random."""
        q = {"plain": lambda m, s: self.sample(m, num_samples=n, seed=s),
             "leaf-mode": lambda m, s: self.sample(m, num_samples=n, seed=s, mpe_at_leaves=True),
             "tempered": lambda m, s: self.sample(m, num_samples=n, seed=s, temperature_sums=0.7)}
        if self.nan:
            ev = self.ev(rng, n, 0.6)
            ev.view(n, -1)[:, 0] = torch.nan
            q["evidence"] = lambda m, s: self.sample(m, evidence=ev, seed=s)
        if self.scopes:
            x, sc = self.x(rng, n), list(range(self.features - 1)) or [0]
            q["scopes"] = lambda m, s: self.sample(m, evidence=x, marginalized_scopes=sc, seed=s)
        if self.kind.startswith("mix"):
            k = 1 + n // self.model.n_components
            q["per-cluster"] = lambda m, s: self.sample(m, num_samples_per_cluster=k, seed=s)
        if self.differentiable:
            q["diff"] = lambda m, s: self.sample(m, num_samples=n, seed=s, is_differentiable=True)
            if self.nan:
                q["diff-evidence"] = lambda m, s: self.sample(m, evidence=ev, seed=s, is_differentiable=True)
        if self.K > 1:
            cl = [int(i) for i in rng.integers(0, self.K, size=n)]
            q["class-list"] = lambda m, s: self.sample(m, class_index=cl, seed=s)
            q["class"] = lambda m, s: self.sample(m, num_samples=n, class_index=self.K - 1, seed=s)
        return q

    def all_queries(self, rng, n):
        """name -> fn(model): everything a user can ask; deterministic or drawing from the global generator."""
        x, xs = self.x(rng, n), self.x(rng, n)
        q = {"ll": lambda m: self.ll(m, x), "mpe-none": lambda m: self.mpe(m)}
        for k, f in self.samplers(rng, n).items():
            q[k] = lambda m, f=f: f(m, None)
            q[k + "-seed"] = lambda m, f=f: f(m, 3)
        if self.nan:
            ev = self.ev(rng, n, float(rng.choice([0.2, 0.6, 1.0])))
            q["ll-missing"] = lambda m: self.ll(m, ev)
            q["mpe"] = lambda m: self.mpe(m, ev)
        if self.scopes:
            sc = list(int(i) for i in rng.choice(self.features, size=max(1, self.features // 2), replace=False))
            q["ll-scopes"] = lambda m: self.ll(m, xs, sc)
            q["mpe-scopes"] = lambda m: self.mpe(m, xs, sc)
        if self.posterior:
            q["posterior"] = lambda m: m.posterior(x)
        return q

    def mistakes(self):
        s = (2, *self.shape[:-1], self.shape[-1] + 1)
        q = {"bad-evidence": lambda m: m.sample(evidence=torch.zeros(s), seed=3),
             "bad-temperature": lambda m: m.sample(num_samples=3, temperature_sums="a", seed=3),
             "bad-count": lambda m: m.sample(num_samples=-2, seed=3),
             "bad-x": lambda m: m(torch.zeros(s)),
             "bad-class": lambda m: m.sample(num_samples=2, class_index=self.K + 4, seed=2)}
        if self.scopes:
            q["bad-scope"] = lambda m: m.sample(evidence=torch.zeros(2, *self.shape), marginalized_scopes=[self.features + 3], seed=3)
        return q

    def probe(self, rng, n=4):
        """fn(model) -> {name: tensor}; bitwise comparable between equal models."""
        x = self.x(rng, n)
        ev = self.ev(rng, n) if self.nan else None
        qs = self.samplers(rng, n)

        def run(m):
            out = {"ll": self.ll(m, x).detach(), "mpe-none": self.mpe(m)}
            if ev is not None:
                out["ll-missing"] = self.ll(m, ev).detach()
                out["mpe"] = self.mpe(m, ev)
            for k, f in qs.items():
                out[k] = f(m, 3)
            if self.posterior:
                out["posterior"] = m.posterior(x).detach()
            return out

        return run

    # ---- copies ----
    def empty(self):
        from simple_einet.conv_pc import ConvPc
        from simple_einet.einet import Einet
        from simple_einet.mixture import Mixture

        if self.kind == "conv":
            return ConvPc(self.cfg, self.data_shape)
        if self.kind.startswith("mix"):
            return Mixture(self.model.n_components, self.cfg, self.data_shape)
        return Einet(self.cfg)

    def fresh(self, model=None):
        """A new model of the same configuration with the same state; the global generator is left alone."""
        model = model or self.model
        st = torch.get_rng_state()
        f = self.empty()
        torch.set_rng_state(st)
        f.load_state_dict(copy.deepcopy(model.state_dict()))
        return f.train(model.training)


def build(rng, kind, j=0):
    """A random model of the given kind; j cycles through leaf types and structures."""
    if kind in ("conv", "mixconv"):
        from .checks import c19

        leaf = CONV_LEAVES[j % 5]
        structure = ["bottom-up", "top-down"][(j // 2) % 2]
        order = ["sum-prod", "prod-sum"][j % 2]
        C = int(rng.choice([1, 1, 2]))
        size, ch = c19.configs(rng, leaf, structure, order, bool(rng.random() < 0.5))
        m, cfg = c19.make(rng, leaf, structure, order, size, C, ch)
        if kind == "conv":
            return Other(kind, m, cfg, (C, *size), leaf=leaf, data_shape=m.data_shape)
        from simple_einet.mixture import Mixture

        n = int(rng.integers(2, 4))
        mix = Mixture(n, cfg, m.data_shape)
        for k in mix.models:
            M.randomize(k, rng)
        o = Other(kind, mix, cfg, (C, *size), leaf=leaf, data_shape=m.data_shape)
        data = spread(rng, o.x(rng, 60), leaf, n)
        mix.initialize(data=data)
        mix.eval()
        o.pool = data
        return o
    if kind == "mix":
        from .checks import c18

        combos = M.covering()
        leaf = ["normal", "categorical", "bernoulli", "ratnormal"][j % 4]
        mix, cfg, data = c18.build(rng, leaf, combos[(5 * j + 1) % len(combos)], K=int(rng.integers(2, 4)))
        return Other(kind, mix, cfg, data.shape[1:], K=cfg.num_classes, leaf=leaf, pool=data)
    if kind == "pwl":
        from .checks import c20

        which = ["discrete", "continuous", "mixed"][j % 3]
        m, cfg, base, data, doms = c20.build(rng, ["top-down", "bottom-up"][j % 2], which, C=int(rng.choice([1, 2])),
                                             K=1 + j % 2)
        # components of the product that never meet in one cluster leave rows without mass: keep rows with finite likelihood
        with torch.no_grad():
            ok = torch.isfinite(m(data)).all(1)
        return Other(kind, m, cfg, data.shape[1:], K=cfg.num_classes, leaf=which, pool=data[ok])
    combos = [c for c in M.covering() if c["structure"] == "top-down"]
    combo = combos[(5 * j + 2) % len(combos)]
    cfg = M.make_cfg(rng, leaf="mvn", F=2 * 2 ** combo["depth"] + int(rng.integers(0, 3)), C=int(rng.choice([1, 2])), **combo)
    m = M.build(cfg, rng)
    return Other("mvn", m, cfg, (cfg.num_channels, cfg.num_features), K=cfg.num_classes, leaf="mvn")


def spread(rng, x, leaf, n):
    if leaf not in ("normal", "ratnormal"):
        return x
    blob = rng.normal(0, 5.0, size=(n, *x.shape[1:]))
    return x + torch.tensor(blob[rng.integers(n, size=len(x))], dtype=torch.float32)
