"""C18: Mixture routes every row to its cluster's model and keeps order; unconditional draws follow the weights."""
import copy
import io

import numpy as np
import torch
from scipy import stats as st

from simple_einet.conv_pc import ConvPcConfig
from simple_einet.data import Shape
from simple_einet.mixture import Mixture

from .. import models as M
from ..core import Violation, close, expect
from ..stats import P1, P2

LEVEL = "exploration"
RULE = ("one evaluation = one row of a likelihood / MPE / sample result judged against the component the reference distance "
        "selects, or one drawn component index; distinct = distinct (configuration, query form)")
MIN_EVALS, MIN_DISTINCT = 5000, 100
ASSUMPTIONS = ("the absent dependency fast_pytorch_kmeans is replaced by a stand-in with its public API (vlib/env.py)",
               "rows whose two nearest centroids differ by less than 1e-3 relative squared distance are not judged")


def route(mix, x, scopes=None):
    """Reference: index of the nearest centroid on observed features per row, -1 where it is a near tie."""
    c = mix.centroids.double().numpy()
    n = x.shape[0]
    xs = x.double().numpy().reshape(n, -1).copy()
    if scopes is not None:
        F = x.reshape(n, -1).shape[1] // mix.config.num_channels
        cols = [i for i in range(xs.shape[1]) if i % F in set(int(s) for s in scopes)]
        xs[:, cols] = np.nan
    d = np.nansum((xs[:, None] - c[None]) ** 2, -1)
    s = np.sort(d, 1)
    best = d.argmin(1)
    if d.shape[1] > 1:
        scale = np.nansum(xs ** 2, 1) + (c ** 2).sum(1).max() + 1e-6
        best[(s[:, 1] - s[:, 0]) < 1e-4 * scale] = -1
    return best


def build(rng, leaf, combo, K=None, n_data=60, how=None, spread=6.0):
    """A Mixture over a random Einet configuration, initialised from data with as many blobs as components."""
    n = int(K or rng.integers(1, 5))
    cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
    mix = Mixture(n, cfg)
    for m in mix.models:
        M.randomize(m, rng)
    data = M.random_x(cfg, rng, n_data)
    if leaf == "normal":
        blob = rng.normal(0, spread, size=(n, *data.shape[1:]))
        data = data + torch.tensor(blob[rng.integers(n, size=n_data)], dtype=torch.float32)
    how = how or str(rng.choice(["data", "loader"]))
    if how == "data":
        mix.initialize(data=data)
    else:
        ds = torch.utils.data.TensorDataset(data, torch.zeros(n_data))
        mix.initialize(dataloader=torch.utils.data.DataLoader(ds, batch_size=16), device="cpu")
    return mix.eval(), cfg, data


def initialise(rng, ctx, leaf, combo):
    mix, cfg, data = build(rng, leaf, combo)
    n = mix.n_components
    D = cfg.num_features * cfg.num_channels
    expect(tuple(mix.mixture_weights.shape) == (n,), "weights-shape", f"{n} components, weights {tuple(mix.mixture_weights.shape)}")
    expect(tuple(mix.centroids.shape) == (n, D), "centroids-shape", f"centroids {tuple(mix.centroids.shape)}, expected {(n, D)}")
    expect(close(mix.mixture_weights.sum(), 1.0, 1e-5) and bool((mix.mixture_weights >= 0).all()), "weights-sum",
           f"mixture weights {mix.mixture_weights.tolist()}")
    scale = cfg.leaf_kwargs["total_count"] if leaf == "binomial" else 1.0
    c = mix.centroids.double().numpy() / scale
    x = data.double().numpy().reshape(len(data), -1)
    d = ((x[:, None] - c[None]) ** 2).sum(-1)
    a = d.argmin(1)
    counts = np.bincount(a, minlength=n)
    ctx.tick(n)
    srt = np.sort(d, 1)
    if n == 1 or (srt[:, 1] - srt[:, 0]).min() > 1e-3:
        expect(close(counts / len(x), mix.mixture_weights.double().numpy(), 1e-5), "weights",
               "mixture weights are not the fractions of the data nearest to each centroid",
               got=mix.mixture_weights, want=counts / len(x))
        for k in range(n):
            if counts[k]:
                expect(close(x[a == k].mean(0), c[k], 0.05, 0.02), "centroids", f"centroid {k} is not the mean of its data",
                       got=c[k][:5], want=x[a == k].mean(0)[:5])
    ctx.seen("init-" + M.key(cfg) + str(n))


def per_row(mix, cfg, x, k, scopes):
    """Component result of each row on its own."""
    out = []
    for i in range(len(x)):
        m = mix.models[int(k[i])]
        out.append(m(x[i:i + 1].clone(), torch.tensor(scopes, dtype=torch.long)) if scopes is not None else m(x[i:i + 1].clone()))
    return torch.cat(out)


def likelihood(rng, ctx, leaf, combo):
    mix, cfg, data = build(rng, leaf, combo)
    for form in ("full", "nan", "nan-rows", "scopes", "scopes-list", "scopes-none"):
        x = data[torch.tensor(rng.permutation(len(data))[:int(rng.integers(1, 14))])].clone()
        x = x + (torch.tensor(rng.normal(0, 1, size=x.shape), dtype=torch.float32) if leaf == "normal" else 0)
        scopes = None
        if form == "nan":
            x[torch.tensor(rng.random(x.shape) < 0.4)] = torch.nan
        elif form == "nan-rows":
            x[::2][torch.tensor(rng.random(x[::2].shape) < 0.8)] = torch.nan
        elif form.startswith("scopes"):
            scopes = list(int(s) for s in rng.permutation(cfg.num_features)[:int(rng.integers(1, cfg.num_features))])
            scopes = [] if form == "scopes-none" else scopes
        k = route(mix, x, scopes)
        arg = None if scopes is None else (torch.tensor(scopes) if form == "scopes" else list(scopes))
        with torch.no_grad():
            x0 = x.clone()
            got = mix(x, marginalized_scope=arg) if scopes is not None else mix(x)
            expect(torch.equal(torch.nan_to_num(x, 77.), torch.nan_to_num(x0, 77.)), "input-modified", "forward changed its input")
            expect(got.shape == (len(x), cfg.num_classes), "shape", f"likelihood shape {tuple(got.shape)}")
            want = per_row(mix, cfg, x, np.where(k < 0, 0, k), scopes)
            # 4-D / 2-D forms
        for i in range(len(x)):
            ctx.tick()
            if k[i] < 0:
                ctx.count("near_ties")
                continue
            ctx.count(f"component_{k[i]}")
            expect(close(got[i], want[i], 1e-4, 1e-4), f"likelihood-{form}",
                   f"row {i} ({form}) is not the likelihood of its nearest component {k[i]}", got=got[i], want=want[i])
        # any order, any composition
        p = rng.permutation(len(x))
        with torch.no_grad():
            y = mix(x[p], marginalized_scope=arg) if scopes is not None else mix(x[p])
            one = mix(x[:1], marginalized_scope=arg) if scopes is not None else mix(x[:1])
        ok = k[p] >= 0
        ctx.tick(len(x))
        expect(close(y[torch.tensor(ok)], got[p][torch.tensor(ok)], 1e-4, 1e-4), "order", f"permuting the batch changes the results ({form})")
        if k[0] >= 0:
            expect(close(one[0], got[0], 1e-4, 1e-4), "batch-of-one", f"a row alone gives another value ({form})")
        ctx.seen(M.key(cfg) + form)


def completion(rng, ctx, leaf, combo):
    mix, cfg, data = build(rng, leaf, combo)
    for form in ("nan", "scopes"):
        x = data[torch.tensor(rng.permutation(len(data))[:int(rng.integers(1, 10))])].clone()
        scopes = None
        if form == "nan":
            miss = torch.tensor(rng.random(x.shape) < 0.4)
            miss[:, :, 0] = True
            x[miss] = torch.nan
        else:
            scopes = list(int(s) for s in rng.permutation(cfg.num_features)[:int(rng.integers(1, cfg.num_features))])
            miss = torch.zeros(x.shape, dtype=torch.bool)
            miss[:, :, scopes] = True
        k = route(mix, x, scopes)
        arg = None if scopes is None else torch.tensor(scopes)
        x0 = x.clone()
        y = mix.mpe(evidence=x, marginalized_scopes=arg)
        s1 = mix.sample(evidence=x, marginalized_scopes=arg, seed=11)
        torch.rand(3)
        s2 = mix.sample(evidence=x, marginalized_scopes=arg, seed=11)
        s3 = mix.sample(evidence=x, marginalized_scopes=arg, mpe_at_leaves=True)
        s4 = mix.sample(evidence=x, marginalized_scopes=arg)
        expect(torch.equal(torch.nan_to_num(x, 77.), torch.nan_to_num(x0, 77.)), "input-modified", "evidence was changed")
        for name, z in (("mpe", y), ("seeded", s1), ("mpe_at_leaves", s3), ("plain", s4)):
            ctx.tick(len(x))
            expect(z.shape == x.shape, "shape", f"{name} ({form}): shape {tuple(z.shape)} for evidence {tuple(x.shape)}")
            expect(torch.equal(z[~miss], x0[~miss]), "evidence-lost", f"{name} ({form}): observed values changed or rows reordered")
            expect(bool(torch.isfinite(z).all()), "not-filled", f"{name} ({form}): missing values left")
        expect(torch.equal(s1, s2), "seed", f"conditional samples with the same seed differ ({form})")
        for i in range(len(x)):
            if k[i] < 0:
                continue
            want = mix.models[int(k[i])].mpe(evidence=x0[i:i + 1].clone(), marginalized_scopes=arg)
            ctx.tick()
            expect(close(y[i], want[0], 1e-4, 1e-4), f"mpe-routing-{form}",
                   f"MPE completion of row {i} is not that of its nearest component {k[i]}", got=y[i], want=want[0])
        ctx.seen(M.key(cfg) + "completion-" + form)


def marked(rng, combo, n, K_classes=1, sigma=0.05):
    """Components that reveal themselves: component j lives around 100 * j, leaf i of it at offset i."""
    cfg = M.make_cfg(rng, leaf="normal", max_F=5, **combo)
    mix = Mixture(n, cfg)
    for j, m in enumerate(mix.models):
        M.randomize(m, rng)
        with torch.no_grad():
            for name, p in m.named_parameters():
                if name.endswith("means"):
                    p.copy_(100.0 * j + torch.arange(p.shape[3]).view(1, 1, 1, -1, 1).float())
                if name.endswith("logvar"):
                    p.fill_(2 * np.log(sigma))
    w = rng.dirichlet(np.ones(n) * 0.8) * 0.9 + 0.1 / n
    mix.mixture_weights.data = torch.tensor(w / w.sum(), dtype=torch.float32)
    mix.centroids.data = torch.arange(n).float().view(n, 1).repeat(1, cfg.num_features * cfg.num_channels) * 100.0
    return mix.eval(), cfg


def who(s):
    """Component of each row from its values."""
    v = s.detach().numpy().reshape(len(s), -1)
    k = np.floor((v + 40) / 100).astype(int)
    if not (k == k[:, :1]).all():
        raise Violation("mixed-components", "one row mixes values of several components", row=v[(k != k[:, :1]).any(1)][0])
    return k[:, 0]


def draws(rng, ctx, combo):
    n = int(rng.integers(2, 5))
    mix, cfg = marked(rng, combo, n)
    w = mix.mixture_weights.double().numpy()
    w = w / w.sum()
    cls = {} if cfg.num_classes == 1 else {"class_index": int(rng.integers(cfg.num_classes))}
    # counts and shape
    for m in (1, 2, 7):
        s = mix.sample(num_samples=m, **cls)
        expect(tuple(s.shape) == (m, cfg.num_channels, cfg.num_features), "shape", f"{m} samples requested, got {tuple(s.shape)}")
        who(s)
    expect(len(mix.sample(**cls)) == 1, "default-count", "sample() without a number returned more than one row")
    for per in (1, 3):
        s = mix.sample(num_samples_per_cluster=per, **cls)
        ctx.tick(len(s))
        expect(len(s) == per * n and (np.bincount(who(s), minlength=n) == per).all(), "per-cluster",
               f"num_samples_per_cluster={per}: got components {who(s).tolist()}")
        for kw in (dict(is_mpe=True), dict(mpe_at_leaves=True), dict(temperature_sums=2.0)):
            s = mix.sample(num_samples_per_cluster=per, **cls, **kw)
            ctx.tick(len(s))
            expect(len(s) == per * n and (np.bincount(who(s), minlength=n) == per).all(), "per-cluster",
                   f"num_samples_per_cluster={per}, {kw}: got components {who(s).tolist()}")
    # component frequencies: overall and by row position
    N = ctx.n(1500, 4000)
    k = who(mix.sample(num_samples=N, **cls))
    ctx.tick(N)
    p = st.chisquare(np.bincount(k, minlength=n), w * N).pvalue
    if p < P1:
        N2 = 4 * N
        p2 = st.chisquare(np.bincount(who(mix.sample(num_samples=N2, **cls)), minlength=n), w * N2).pvalue
        expect(p2 > P2, "weights", f"components are not drawn with the mixture weights (p={p:.2g},{p2:.2g})", weights=w)
    calls = ctx.n(250, 700)

    def positions(c):
        return np.stack([who(mix.sample(num_samples=3, **cls)) for _ in range(c)])

    t = positions(calls)
    ctx.tick(t.size)

    def pvals(t):
        out = [st.chisquare(np.bincount(t[:, i], minlength=n), w * len(t)).pvalue for i in range(3)]
        joint = np.zeros((n, n))
        np.add.at(joint, (t[:, 0], t[:, 2]), 1)
        e = np.outer(w, w) * len(t)
        out.append(st.chi2.sf(((joint - e) ** 2 / e).sum(), n * n - 1) if e.min() >= 1 else 1.0)
        return min(out)

    if pvals(t) < P1:
        expect(pvals(positions(4 * calls)) > P2, "row-distribution",
               "the component of a row depends on its position in the result or on other rows", weights=w)
    # MPE without evidence
    for m in (1, 4):
        s = mix.sample(num_samples=m, is_mpe=True, **cls)
        want = mix.models[int(w.argmax())].sample(num_samples=m, is_mpe=True, **cls)
        ctx.tick(m)
        expect(s.shape == want.shape and close(s, want, 1e-5), "mpe-unconditional",
               f"MPE with {m} samples: shape {tuple(s.shape)} or not the mode of the heaviest component")
    s = mix.mpe()
    expect(len(s) == 1, "mpe-unconditional", "mpe() returned several rows")
    # leaf options reach the components
    s = mix.sample(num_samples=20, mpe_at_leaves=True, **cls)
    ctx.tick(20)
    expect(close(s, s.round(), 1e-3), "mpe-at-leaves", "mpe_at_leaves did not yield leaf modes")
    s = mix.sample(num_samples=20, temperature_leaves=0.0, **cls)
    expect(close(s, s.round(), 1e-3), "temperature-leaves", "temperature_leaves=0 did not yield leaf means")
    ev = torch.full((8, cfg.num_channels, cfg.num_features), torch.nan)
    kk = rng.integers(n, size=8)
    ev[:, :, 0] = torch.tensor(kk * 100.0, dtype=torch.float32).view(-1, 1)
    for kw in ({}, {"mpe_at_leaves": True}, {"temperature_leaves": 0.0}, {"seed": 3}, {"is_mpe": True}):
        s = mix.sample(evidence=ev, **kw)
        ctx.tick(8)
        expect((who(s) == kk).all(), "conditional-routing", f"conditional samples ({kw}) come from components {who(s)}, expected {kk}")
        if "seed" not in kw and kw:
            expect(close(s, s.round(), 1e-3), "leaf-option-conditional", f"{kw} did not reach the leaves")
    ctx.seen(M.key(cfg) + f"draws{n}")


def seeds(rng, ctx, combo):
    n = int(rng.integers(2, 4))
    mix, cfg = marked(rng, combo, n, sigma=0.3)
    cls = {} if cfg.num_classes == 1 else {"class_index": 0}
    for kw in (dict(num_samples=12), dict(num_samples_per_cluster=4)):
        torch.manual_seed(int(rng.integers(1 << 30)))
        st0 = torch.get_rng_state()
        a = mix.sample(seed=5, **kw, **cls)
        expect(torch.equal(st0, torch.get_rng_state()), "global-rng", "a seeded call changed the global RNG state")
        torch.rand(17)
        b = mix.sample(seed=5, **kw, **cls)
        c = mix.sample(seed=6, **kw, **cls)
        ctx.tick(3)
        expect(a.shape == b.shape and torch.equal(a, b), "seed", f"same seed, different samples ({kw})")
        expect(a.shape != c.shape or not torch.equal(a, c), "seed-ignored", f"different seeds, same samples ({kw})")
        torch.manual_seed(9)
        d = mix.sample(**kw, **cls)
        torch.manual_seed(9)
        e = mix.sample(**kw, **cls)
        expect(torch.equal(d, e), "unseeded-global", "an unseeded call is not determined by the global generator")
    # identical components must draw independently of each other under one seed
    for m in mix.models[1:]:
        m.load_state_dict(mix.models[0].state_dict())
    s = mix.sample(num_samples_per_cluster=6, seed=3, **cls).reshape(n, 6, -1)
    ctx.tick(6 * n)
    expect(not torch.equal(s[0], s[1]), "correlated-clusters", "clusters return the same draws under one seed")
    for i in range(6):
        expect(not torch.equal(s[0, i], s[1, i]), "correlated-clusters", "clusters return the same draws under one seed")
    # a failing component call restores the generator
    st0 = torch.get_rng_state()
    try:
        mix.sample(num_samples=3, num_samples_per_cluster=2, seed=3)
    except AssertionError:
        pass
    expect(torch.equal(st0, torch.get_rng_state()), "global-rng", "a refused seeded call changed the global RNG state")
    ctx.seen(M.key(cfg) + f"seeds{n}")


def state(rng, ctx, leaf, combo):
    """State dict, pickling, copying keep weights, centroids and routing."""
    mix, cfg, data = build(rng, leaf, combo)
    buf = io.BytesIO()
    torch.save(mix.state_dict(), buf)
    buf.seek(0)
    other = Mixture(mix.n_components, cfg)
    other.load_state_dict(torch.load(buf))
    other.eval()
    cls = {} if cfg.num_classes == 1 else {"class_index": 0}
    for what, m in (("state_dict", other), ("deepcopy", copy.deepcopy(mix))):
        ctx.tick(3)
        with torch.no_grad():
            expect(torch.equal(m(data[:9]), mix(data[:9])), f"copy-{what}", "likelihoods of the copy differ")
        expect(torch.equal(m.sample(num_samples=6, seed=2, **cls), mix.sample(num_samples=6, seed=2, **cls)), f"copy-{what}",
               "seeded samples of the copy differ")
        ev = data[:5].clone()
        ev[:, :, 0] = torch.nan
        expect(torch.equal(m.mpe(evidence=ev), mix.mpe(evidence=ev)), f"copy-{what}", "MPE of the copy differs")
    ctx.seen(M.key(cfg) + "state")


def empty_cluster(rng, ctx, combo):
    """Fewer distinct points than components: weights stay a distribution over all components."""
    cfg = M.make_cfg(rng, leaf="normal", max_F=4, **combo)
    mix = Mixture(4, cfg)
    x = torch.tensor([[1.0], [5.0]]).repeat(10, 1).view(20, 1, 1).repeat(1, cfg.num_channels, cfg.num_features)
    mix.initialize(data=x)
    ctx.tick()
    expect(tuple(mix.mixture_weights.shape) == (4,) and close(mix.mixture_weights.sum(), 1.0, 1e-5), "weights-empty-cluster",
           f"weights {mix.mixture_weights.tolist()} for 4 components")
    cls = {} if cfg.num_classes == 1 else {"class_index": 0}
    expect(len(mix.sample(num_samples=8, **cls)) == 8, "shape", "wrong number of samples")
    other = Mixture(4, cfg)
    other.load_state_dict(mix.state_dict())
    ctx.seen(M.key(cfg) + "empty")


def conv(rng, ctx):
    """Components that are convolutional circuits."""
    C = int(rng.integers(1, 3))
    shape = Shape(channels=C, height=4, width=4)
    cfg = ConvPcConfig(channels=[2, 3], kernel_size=2, num_channels=C, leaf_type=M.LEAVES["normal"], structure="bottom-up")
    mix = Mixture(3, cfg, data_shape=shape)
    for j, m in enumerate(mix.models):
        with torch.no_grad():
            m.leaf_data.means.copy_(100.0 * j + torch.arange(2).view(1, 1, 1, -1, 1).float())
            m.leaf_data.logvar.fill_(-4.0)
    mix.mixture_weights.data = torch.tensor([0.2, 0.3, 0.5])
    mix.centroids.data = torch.arange(3).float().view(3, 1).repeat(1, 16 * C) * 100.0
    mix.eval()
    k = rng.integers(3, size=9)
    x = torch.tensor(k * 100.0, dtype=torch.float32).view(-1, 1, 1, 1) + torch.tensor(rng.normal(0, 1, (9, C, 4, 4)), dtype=torch.float32)
    with torch.no_grad():
        got = mix(x)
        want = torch.stack([mix.models[int(k[i])](x[i:i + 1])[0] for i in range(9)])
        ctx.tick(9)
        expect(close(got.view(-1), want.view(-1), 1e-4, 1e-4), "conv-likelihood", "row is not routed to its component (ConvPc)")
        s = mix.sample(num_samples=7)
        ctx.tick(7)
        expect(tuple(s.shape) == (7, C, 4, 4), "conv-shape", f"{tuple(s.shape)}")
        who(s)
        a, b = mix.sample(num_samples=7, seed=3), mix.sample(num_samples=7, seed=3)
        expect(torch.equal(a, b), "seed", "same seed, different samples (ConvPc)")
        s = mix.sample(num_samples_per_cluster=2)
        expect((np.bincount(who(s), minlength=3) == 2).all(), "per-cluster", "per cluster counts (ConvPc)")
        ev = x.clone()
        miss = torch.tensor(rng.random(ev.shape) < 0.5)
        miss[:, 0, 0, 0] = False
        ev[miss] = torch.nan
        for kw in ({}, {"is_mpe": True}, {"mpe_at_leaves": True}):
            s = mix.sample(evidence=ev, **kw)
            ctx.tick(9)
            expect(s.shape == x.shape and torch.equal(s[~miss], x[~miss]), "evidence-lost", f"ConvPc evidence ({kw})")
            expect((who(s) == k).all(), "conditional-routing", f"ConvPc components {who(s)}, expected {k}")
    ctx.seen(f"conv-{C}")


def check(ctx):
    combos = [c for c in M.covering(ctx.thorough) if c["depth"] < 3]
    leaves = ["normal", "bernoulli", "binomial", "categorical", "normal"]
    for rep in range(ctx.n(1, 3)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 5]
            ctx.run(f"init-{rep}-{j}", combo, initialise, ctx, leaf, combo)
            ctx.run(f"ll-{rep}-{j}", combo, likelihood, ctx, leaf, combo)
            ctx.run(f"completion-{rep}-{j}", combo, completion, ctx, leaf, combo)
            ctx.run(f"state-{rep}-{j}", combo, state, ctx, leaf, combo)
            ctx.run(f"seeds-{rep}-{j}", combo, seeds, ctx, combo)
            if (j + rep) % (2 if ctx.thorough else 6) == 0:
                ctx.run(f"draws-{rep}-{j}", combo, draws, ctx, combo)
                ctx.run(f"empty-{rep}-{j}", combo, empty_cluster, ctx, combo)
    for i in range(ctx.n(4, 15)):
        ctx.run(f"conv-{i}", {}, conv, ctx)
