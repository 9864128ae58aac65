"""C20: piecewise-linear leaves are proper densities over their domain; histogram helpers agree with numpy."""
import copy
import io
import itertools

import numpy as np
import torch

from simple_einet import histogram as hg
from simple_einet.dist import DataType, Domain
from simple_einet.einet import Einet, EinetConfig
from simple_einet.layers.distributions import piecewise_linear as pw
from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear, interp

from ..core import Violation, close, expect
from ..stats import confirm_gof, confirm_ks

LEVEL = "exploration"
RULE = ("one evaluation = one density integrated/summed or compared with the numpy histogram reference, one sample "
        "judged against the leaf's own density, or one bin-edge computation; distinct = distinct (data shape, domain, configuration)")
MIN_EVALS, MIN_DISTINCT = 20000, 90


# ---- data sets ----
def feature(rng, n, kind, labels, spread):
    """One column and its domain. Values depend on the row's cluster label."""
    if kind == "range":
        lo, k = int(rng.integers(-3, 4)), int(rng.integers(2, 7))
        c = rng.integers(0, k, size=labels.max() + 1)
        v = lo + np.clip(c[labels] + rng.integers(-1, 2, size=n), 0, k - 1)
        return v.astype(float), Domain.discrete_range(lo, lo + k - 1)
    if kind == "bins":
        vals = np.cumsum(rng.choice([0.5, 1, 2, 3], size=int(rng.integers(2, 6)))) + int(rng.integers(-2, 3))
        p = rng.dirichlet(np.ones(len(vals)), size=labels.max() + 1)
        v = np.array([rng.choice(vals, p=p[l]) for l in labels])
        return v, Domain.discrete_bins([float(t) for t in vals])
    c = rng.normal(0, spread, size=labels.max() + 1)
    shape = rng.choice(["normal", "uniform", "exp", "const", "two"])
    e = {"normal": lambda: rng.normal(size=n), "uniform": lambda: rng.random(n), "exp": lambda: rng.exponential(size=n),
         "const": lambda: np.zeros(n), "two": lambda: rng.integers(0, 2, size=n).astype(float)}[shape]()
    v = c[labels] + e * float(rng.choice([0.1, 1.0]))
    if rng.random() < 0.5:
        return v, Domain.continuous_range(float(v.min()) - 1, float(v.max()) + 1)
    return v, Domain.continuous_inf_support()


def dataset(rng, n, C, kinds, clusters, spread=4.0):
    labels = rng.integers(0, clusters, size=n)
    cols, doms = [], []
    for k in kinds:
        v, d = feature(rng, n, k, labels, spread)
        ch = [v]
        for _ in range(C - 1):
            if d.data_type == DataType.DISCRETE:
                ch.append(np.array(d.values, float)[rng.integers(0, len(d.values), size=n)])
            else:
                ch.append(v + rng.normal(0, 0.5, size=n))
        cols.append(np.stack(ch, 1))
        doms.append(d)
    return torch.tensor(np.stack(cols, -1), dtype=torch.float32), doms  # [n, C, F]


def density(leaf, F, C, f, values):
    """Density of every leaf of feature f at the values: [V, C, I, R] (all channels get the same value)."""
    x = torch.full((len(values), C, F), float("nan"))
    x[:, :, f] = torch.as_tensor(np.asarray(values), dtype=torch.float32)[:, None]
    with torch.no_grad():
        out = leaf(x, marginalized_scopes=None)
    other = [g for g in range(F) if g != f]
    if other:
        expect(bool((out[:, :, other] == 0).all()), "marginal", "missing features do not contribute log 1")
    return out[:, :, f].double().exp().numpy()


# ---- references ----
def ref_discrete(col, dom, alpha):
    vals = np.asarray(dom.values, float)
    if len(col) == 0:
        return np.ones(len(vals)) / len(vals)
    c = np.array([(np.abs(col - v) < 1e-4).sum() for v in vals], float)
    return (c + alpha) / (c.sum() + alpha * len(vals))


def ref_continuous(col, alpha):
    """knots and heights of the normalised function, or None where the number of bins is numerically ambiguous."""
    col = np.asarray(col, np.float64)
    if len(col) == 0:
        return None
    lo, hi = col.min(), col.max()
    iqr = np.subtract(*np.percentile(col, [75, 25]))
    fd = 2 * iqr * len(col) ** (-1 / 3)
    st = (hi - lo) / (np.log2(len(col)) + 1)
    if 0 < iqr < 1e-5 * max(1, abs(lo), abs(hi)):
        return None
    w = min(fd, st) if fd else st
    nb = 1
    if w:
        q = (hi - lo) / w
        if abs(q - round(q)) < 1e-3 * max(1, q):
            return None  # ceil() depends on rounding
        nb = int(np.ceil(q))
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    edges = np.linspace(lo, hi, nb + 1)
    d = np.histogram(col, bins=edges, density=True)[0]
    if alpha > 0:
        return None  # relative weight of smoothing and counts is not specified for densities
    x = np.concatenate([[lo], (edges[1:] + edges[:-1]) / 2, [hi]])
    y = np.concatenate([[0], d, [0]])
    return x, y / np.trapezoid(y, x) if hasattr(np, "trapezoid") else y / np.trapz(y, x)


def partitions(data):
    """Assignments of the latest clusterings that fit this data set."""
    import fast_pytorch_kmeans as fk

    out = []
    flat = data.reshape(len(data), -1).float()
    for km in getattr(fk.KMeans, "recent", []):
        if km.centroids is not None and km.centroids.shape[1] == flat.shape[1]:
            out.append(km.max_sim(a=flat, b=km.centroids)[1].numpy())
    return out


def judge(ctx, leaf, data, doms, C, F, I, R, alpha, key):
    """All densities of an initialised leaf layer against the data it was initialised from."""
    arr = data.numpy().astype(np.float64)
    grids, dens = [], []
    for f, d in enumerate(doms):
        if d.data_type == DataType.DISCRETE:
            vals = np.asarray(d.values, float)
            p = density(leaf, F, C, f, vals)  # [V, C, I, R]
            ctx.tick(p[0].size)
            expect(bool(np.isfinite(p).all() and (p >= 0).all()), "not-a-density", "pmf not finite and non-negative", key=key)
            expect(close(p.sum(0), np.ones_like(p[0]), 1e-3), "not-normalised", "pmf does not sum to one over the domain",
                   sums=p.sum(0), values=vals, key=key)
            out = density(leaf, F, C, f, [vals[0] - 1.0, vals[-1] + 1.0])
            expect(float(out.max()) < 1e-6, "mass-outside", "mass outside the domain", key=key)
            grids.append(vals)
            dens.append(p)
        else:
            # (a cluster without data may have any proper density, e.g. on the unit interval)
            lo, hi = min(arr[:, :, f].min() - 1.5, -0.5), max(arr[:, :, f].max() + 1.5, 1.5)
            g = np.unique(np.concatenate([np.linspace(lo, hi, 12001), [lo - 1e4, hi + 1e4]]))
            p = density(leaf, F, C, f, g)
            ctx.tick(p[0].size)
            expect(bool(np.isfinite(p).all() and (p >= 0).all()), "not-a-density", "density not finite and non-negative", key=key)
            inner = g[1:-1]
            mass = (p[1:-1][1:] + p[1:-1][:-1]).__mul__(np.diff(inner)[:, None, None, None] / 2).sum(0)
            # a grid cannot resolve functions much narrower than its step
            width = np.diff(inner).max() * p.max(0)
            ok = width < 0.05
            expect(bool((np.abs(mass - 1)[ok] < 2e-2).all()), "not-normalised", "density does not integrate to one",
                   mass=mass, key=key)
            expect(float(p[[0, -1]].max()) < 1e-6, "mass-outside", "density far outside the data", key=key)
            grids.append(inner)
            dens.append(p[1:-1])
    # each leaf represents one cluster of the data, consistently over features and channels
    parts = partitions(data)
    if not parts:
        ctx.count("no_partition")
        return grids, dens
    for r in range(R):
        ok_any, weights_ok, seen_w, best = False, False, [], ""
        for asg in parts[::-1]:
            cand = []  # per leaf the set of clusters explaining it
            for l in range(I):
                good = set()
                for k in range(I):
                    rows = arr[asg == k]
                    fine = True
                    for f, d in enumerate(doms):
                        for c in range(C):
                            col = rows[:, c, f]
                            q = dens[f][:, c, l, r]
                            if d.data_type == DataType.DISCRETE:
                                if not close(q, ref_discrete(col, d, alpha), 2e-3):
                                    fine = False
                            else:
                                rf = ref_continuous(col, alpha)
                                if rf is None:
                                    if len(col) == 0:
                                        continue
                                    # at least: support = range of the cluster
                                    e = 0.55 if col.min() == col.max() else 1e-3 * (1 + abs(col).max())
                                    supp = grids[f][q > 1e-6 * max(q.max(), 1e-9)]
                                    if len(supp) and (supp.min() < col.min() - e or supp.max() > col.max() + e):
                                        fine = False
                                    continue
                                h = np.interp(grids[f], rf[0], rf[1], left=0, right=0)
                                tv = 0.5 * (np.abs(h - q)[1:] * np.diff(grids[f])).sum()
                                res = (np.diff(grids[f]).max() * rf[1].max())
                                # rounding may move a few rows across an edge
                                if res < 0.05 and tv > 3.5 / max(len(col), 1) + 2e-2:
                                    fine = False
                                    best = f"f={f} c={c} leaf={l} tv={tv:.3f} n={len(col)}"
                            if not fine:
                                break
                        if not fine:
                            break
                    if fine:
                        good.add(k)
                cand.append(good)
            if matching(cand):
                ok_any = True
                # the published mixture weights are the cluster fractions
                w = leaf.mixture_weights[r].double().numpy()
                frac = np.bincount(asg, minlength=I) / len(asg)
                # (partitions of several repetitions may differ by single rows and explain the same leaves)
                if I <= 4:
                    fits = any(all(pm[l] in cand[l] and abs(w[l] - frac[pm[l]]) < 1e-4 for l in range(I))
                               for pm in itertools.permutations(range(I)))
                else:
                    fits = close(np.sort(w), np.sort(frac), 1e-4)
                if fits:
                    weights_ok = True
                    break
                seen_w.append((w, frac))
        ctx.tick(I)
        if ok_any:
            expect(weights_ok, "mixture-weights", f"mixture weights of repetition {r} are not the fractions of the clusters "
                   "its leaves represent", seen=seen_w[:3], key=key)
        expect(ok_any, "cluster-mass", f"no data cluster explains the leaves of repetition {r} {best}", key=key)
    return grids, dens


def matching(cand):
    used = {}

    def go(l, seen):
        for k in cand[l]:
            if k not in seen:
                seen.add(k)
                if k not in used or go(used[k], seen):
                    used[k] = l
                    return True
        return False

    return all(go(l, set()) for l in range(len(cand)))


def kinds_for(rng, F, which):
    if which == "discrete":
        return [str(rng.choice(["range", "bins"])) for _ in range(F)]
    if which == "continuous":
        return ["cont"] * F
    return [str(rng.choice(["range", "bins", "cont"])) for _ in range(F)]


# ---- cases ----
def leaf_case(rng, ctx, which):
    F, C = int(rng.integers(1, 4)), int(rng.choice([1, 1, 2, 3]))
    I, R = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    n = int(rng.choice([1, 2, 5, 40, 300, 1000]))
    n = max(n, I)  # k-means needs at least as many rows as clusters
    alpha = float(rng.choice([0.0, 0.0, 0.5, 3.0]))
    data, doms = dataset(rng, n, C, kinds_for(rng, F, which), int(rng.integers(1, I + 2)))
    if rng.random() < 0.15:
        data = data[:1].repeat(n, 1, 1)  # all rows equal: empty clusters
    if rng.random() < 0.3:
        data = data.permute(2, 1, 0).contiguous().permute(2, 1, 0)
    snap = data.clone()
    leaf = PiecewiseLinear(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R, alpha=alpha)
    try:
        leaf(data, marginalized_scopes=None)
        raise Violation("uninitialised", "an uninitialised leaf layer answers")
    except ValueError:
        ctx.tick()
    leaf.initialize(data, domains=doms)
    expect(torch.equal(data, snap), "input-modified", "initialisation changed the data")
    key = f"{which}-F{F}C{C}I{I}R{R}n{n}a{alpha}"
    judge(ctx, leaf, data, doms, C, F, I, R, alpha, key)
    with torch.no_grad():
        ll = leaf(data, marginalized_scopes=None)
    ctx.tick(len(data))
    expect(tuple(ll.shape) == (n, C, F, I, R), "shape", f"leaf output {tuple(ll.shape)}")
    expect(bool(torch.isfinite(ll).all()), "not-finite", "log-density of a training row not finite")
    # every training row of a discrete feature has mass in at least one leaf
    for f, d in enumerate(doms):
        if d.data_type == DataType.DISCRETE:
            expect(float(ll[:, :, f].amax((-1, -2)).min()) > np.log(0.5 / (n + 3 * 8)), "cluster-mass", "a training value has no mass")
    # domain objects of another call: re-initialisation replaces everything
    data2, doms2 = dataset(rng, 50, C, ["range"] * F, 2)
    leaf.reset()
    leaf.initialize(data2, domains=doms2)
    judge(ctx, leaf, data2, doms2, C, F, I, R, alpha, key + "-again")
    ctx.seen(key)


def build(rng, structure, which, F=None, C=1, K=1, n=200, alpha=0.0):
    F = F or int(rng.integers(2, 5))
    I, R = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    depth = 1 if F < 4 else int(rng.integers(1, 3))
    cfg = EinetConfig(num_features=F, num_channels=C, depth=depth, num_sums=int(rng.integers(1, 4)), num_leaves=I,
                      num_repetitions=R, num_classes=K, dropout=0.0, leaf_type=PiecewiseLinear, leaf_kwargs={"alpha": alpha},
                      layer_type="linsum" if structure == "bottom-up" else str(rng.choice(["linsum", "linsum2", "einsum"])), structure=structure)
    m = Einet(cfg)
    with torch.no_grad():
        for p in m.parameters():
            if p.requires_grad:
                p.copy_(torch.tensor(rng.normal(0, 1.5, size=p.shape)))
    m.eval()
    kinds = kinds_for(rng, F, which)
    if which == "discrete":
        kinds = kinds[:]
    data, doms = dataset(rng, n, C, kinds, 3)
    base = m.leaf.base_leaf if structure == "top-down" else m.leaf
    base.initialize(data, domains=doms)
    return m, cfg, base, data, doms


def discrete_circuit(rng, ctx, structure):
    """The whole circuit over discrete piecewise-linear leaves, by enumeration."""
    C = int(rng.choice([1, 1, 2]))
    for _ in range(20):
        m, cfg, base, data, doms = build(rng, structure, "discrete", F=int(rng.integers(2, 5)) if C == 1 else 2, C=C,
                                         alpha=float(rng.choice([0.0, 1.0])))
        sizes = [len(d.values) for d in doms] * C
        if np.prod(sizes) <= 900:
            break
    else:
        return
    F = cfg.num_features
    key = f"enum-{structure}-{cfg.layer_type}-F{F}C{C}I{cfg.num_leaves}R{cfg.num_repetitions}-{sizes}"
    vals = [np.asarray(doms[f].values, float) for c in range(C) for f in range(F)]
    idx = np.array(list(itertools.product(*[range(len(v)) for v in vals])))
    dom = np.stack([vals[j][idx[:, j]] for j in range(len(vals))], 1)
    x = torch.tensor(dom, dtype=torch.float32).view(-1, C, F)
    with torch.no_grad():
        p = m(x).double().view(-1).exp().numpy()
        ctx.tick(len(p))
        expect(close(p.sum(), 1.0, 2e-3), "not-normalised", f"circuit mass {p.sum():.5f}", key=key)
        for _ in range(5):
            q = data[int(rng.integers(len(data)))].clone().view(1, C, F)
            miss = rng.random(C * F) < 0.5
            q.view(-1)[torch.tensor(miss)] = torch.nan
            ok = (np.abs(dom[:, ~miss] - q.view(-1).numpy()[~miss]) < 1e-4).all(1)
            ctx.tick()
            expect(close(float(m(q).exp()), p[ok].sum(), 1e-4, 2e-3), "marginal", "marginal is not the sum", key=key)

    def states(s, n):
        v = s.detach().double().numpy().reshape(len(s), -1)
        expect(len(v) == n, "shape", f"{len(v)} samples, asked for {n}")
        out = np.zeros(len(v), int)
        for j, col in enumerate(vals):
            d = np.abs(v[:, j:j + 1] - col[None])
            expect(float(d.min(1).max()) < 1e-3, "out-of-domain", "sample is no value of the domain",
                   values=col, got=v[:5, j], key=key)
            out = out * len(col) + d.argmin(1)
        return out

    n = ctx.n(600, 5000)
    ctx.tick(n)
    bad = confirm_gof(lambda k: states(m.sample(num_samples=k), k), p, n)
    expect(bad is None, "samples", f"samples do not follow the circuit {bad}", key=key)
    # conditional on an observed training value
    row = data[int(rng.integers(len(data)))].reshape(-1)
    j = int(rng.integers(C * F))
    e = torch.full((1, C * F), torch.nan)
    e[0, j] = row[j]
    ok = np.abs(dom[:, j] - float(row[j])) < 1e-4
    if p[ok].sum() > 1e-6:
        q = np.where(ok, p, 0)
        ctx.tick(n)
        bad = confirm_gof(lambda k: states(m.sample(evidence=e.view(1, C, F).repeat(k, 1, 1)), k), q / q.sum(), n)
        expect(bad is None, "conditional", f"conditional samples do not follow the exact conditional {bad}", key=key)
    modes(rng, ctx, m, base, cfg, doms, data, key)
    persistence(ctx, m, cfg, data, key)
    ctx.seen(key)


def modes(rng, ctx, m, base, cfg, doms, data, key):
    """Leaf-mode sampling yields maximisers of a leaf's density."""
    C, F = cfg.num_channels, cfg.num_features
    z = m.sample(num_samples=12, mpe_at_leaves=True).detach().reshape(12, C, F)
    z = torch.cat([z, m.sample(num_samples=1, is_mpe=True).detach().reshape(1, C, F)])
    for f, d in enumerate(doms):
        if d.data_type == DataType.DISCRETE:
            g = np.asarray(d.values, float)
        else:
            col = data[:, :, f].numpy()
            g = np.linspace(col.min() - 0.6, col.max() + 0.6, 4001)
        top = density(base, F, C, f, g).max(0)  # [C, I, R]
        for c in range(C):
            v = z[:, c, f].numpy()
            here = density(base, F, C, f, v)[:, c]  # [V, I, R]
            ctx.tick(len(v))
            rel = (here / top[c][None]).reshape(len(v), -1).max(1)
            expect(float(rel.min()) > 0.97, "mode", "leaf-mode sample maximises the density of no leaf", rel=rel, feature=f, key=key)
    ev = data[:6].clone()
    miss = torch.tensor(rng.random(ev.shape) < 0.5)
    ev[miss] = torch.nan
    z = m.sample(evidence=ev, is_mpe=True).detach()
    ctx.tick(6)
    expect(torch.equal(z[~miss], data[:6][~miss]), "evidence-lost", "observed values changed")
    expect(bool(torch.isfinite(z).all()), "not-filled", "missing values left")


def persistence(ctx, m, cfg, data, key):
    with torch.no_grad():
        want = m(data[:20])
        buf = io.BytesIO()
        torch.save(m.state_dict(), buf)
        buf.seek(0)
        o = Einet(cfg)
        o.load_state_dict(torch.load(buf, weights_only=False))
        o.eval()
        c = copy.deepcopy(m)
        ctx.tick(2)
        expect(torch.equal(o(data[:20]), want), "state-dict", "model restored from its state dict differs", key=key)
        expect(torch.equal(c(data[:20]), want), "state-dict", "copied model differs", key=key)
        a, b = m.sample(num_samples=5, seed=3), o.sample(num_samples=5, seed=3)
        expect(torch.equal(a, b), "state-dict", "restored model samples differently", key=key)


def support(base, data, f):
    """Range the samples of feature f stay in: that of the data, and of [0, 1] when a cluster came out empty (its
    histogram is the uniform one on the unit interval)."""
    lo, hi = float(data[:, :, f].min()) - 0.7, float(data[:, :, f].max()) + 0.7
    if bool((base.mixture_weights == 0).any()):
        lo, hi = min(lo, -0.2), max(hi, 1.2)
    return lo, hi


def continuous_circuit(rng, ctx, structure):
    """Samples of each feature follow the circuit's marginal density (and, given another feature, its conditional)."""
    m, cfg, base, data, doms = build(rng, structure, "continuous", F=int(rng.integers(2, 4)), n=int(rng.choice([3, 30, 300])))
    F = cfg.num_features
    f = int(rng.integers(F))
    key = f"cont-{structure}-{cfg.layer_type}-F{F}I{cfg.num_leaves}R{cfg.num_repetitions}n{len(data)}"
    lo, hi = support(base, data, f)
    g = np.linspace(lo, hi, 20001)

    def cdf(given=None):
        x = torch.full((len(g), 1, F), torch.nan)
        if given is not None:
            x[:, 0, given[0]] = given[1]
        x[:, 0, f] = torch.tensor(g, dtype=torch.float32)
        with torch.no_grad():
            d = m(x).double().view(-1).exp().numpy()
        c = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2 * np.diff(g))])
        return c, d.max() * (g[1] - g[0])

    c, res = cdf()
    if res > 0.02:
        ctx.count("unresolved")
        return
    ctx.tick()
    expect(close(c[-1], 1.0, 2e-2), "not-normalised", f"marginal density integrates to {c[-1]:.4f}", key=key)
    n = ctx.n(800, 5000)

    def draw(k):
        s = m.sample(num_samples=k).detach().reshape(k, -1)[:, f].numpy()
        expect(bool((s >= lo).all() and (s <= hi).all()), "out-of-domain", "sample outside the support", key=key)
        return s

    ctx.tick(n)
    bad = confirm_ks(draw, g, c / c[-1], n)
    expect(bad is None, "samples", f"samples do not follow the density {bad}", key=key)
    h = (f + 1) % F
    row = int(rng.integers(len(data)))
    # a value where the density is clearly positive
    v = float(m.sample(num_samples=1).reshape(-1)[h])
    cc, _ = cdf((h, v))
    if cc[-1] > 1e-6:
        e = torch.full((1, 1, F), torch.nan)
        e[0, 0, h] = v

        def cond(k):
            s = m.sample(evidence=e.repeat(k, 1, 1)).detach().reshape(k, -1)
            expect(bool((s[:, h] == e[0, 0, h]).all()), "evidence-lost", "observed value changed")
            return s[:, f].numpy()

        ctx.tick(n)
        bad = confirm_ks(cond, g, cc / cc[-1], n)
        expect(bad is None, "conditional", f"conditional samples do not follow the conditional {bad}", key=key)
    modes(rng, ctx, m, base, cfg, doms, data, key)
    persistence(ctx, m, cfg, data, key)
    ctx.seen(key)


def mixed_circuit(rng, ctx, structure):
    """Mixed domains: sampled columns stay in their own domains; densities are finite on data."""
    m, cfg, base, data, doms = build(rng, structure, "mixed", F=int(rng.integers(3, 7)), C=int(rng.choice([1, 2])),
                                     K=int(rng.choice([1, 3])))
    key = f"mixed-{structure}-{cfg.layer_type}-F{cfg.num_features}C{cfg.num_channels}K{cfg.num_classes}"
    s = m.sample(num_samples=60).detach().reshape(60, cfg.num_channels, cfg.num_features).numpy()
    d = m.sample(num_samples=5, is_differentiable=True).detach().reshape(5, cfg.num_channels, cfg.num_features).numpy()
    e = data[:30].clone()
    e[torch.tensor(rng.random(e.shape) < 0.5)] = torch.nan
    t = m.sample(evidence=e).detach().reshape(30, cfg.num_channels, cfg.num_features).numpy()
    for f, dom in enumerate(doms):
        for name, v in (("sample", s), ("differentiable sample", d), ("conditional sample", t)):
            ctx.tick(len(v))
            col = v[:, :, f]
            if dom.data_type == DataType.DISCRETE:
                gap = np.abs(col[..., None] - np.asarray(dom.values, float)).min(-1).max()
                expect(gap < 1e-3, "out-of-domain", f"{name} of feature {f} is no value of its domain", key=key, gap=gap)
            else:
                lo, hi = support(base, data, f)
                expect(bool((col >= lo).all() and (col <= hi).all()), "out-of-domain",
                       f"{name} of feature {f} outside the range of its data", key=key)
    with torch.no_grad():
        ll = m(data)
    ctx.tick(len(data))
    expect(bool(torch.isfinite(ll).all()), "not-finite", "likelihood of training data not finite")
    ctx.seen(key)


def histograms(rng, ctx):
    if not ctx.has(hg, "_get_bin_edges_np", "_get_bin_edges_torch"):
        return
    for _ in range(40):
        n = int(rng.choice([1, 2, 3, 10, 57, 400]))
        kind = rng.choice(["normal", "uniform", "exp", "const", "int", "outlier", "two"])
        a = {"normal": lambda: rng.normal(size=n), "uniform": lambda: rng.random(n) * 10, "exp": lambda: rng.exponential(size=n),
             "const": lambda: np.full(n, 2.5), "int": lambda: rng.integers(0, 9, size=n).astype(float),
             "outlier": lambda: np.append(rng.normal(size=n), 40.0), "two": lambda: rng.integers(0, 2, size=n).astype(float)}[kind]()
        a = a.astype(np.float32).astype(np.float64)
        # numpy port
        for kw in ({"bins": "auto"}, {"bins": int(rng.integers(1, 20))}, {"bins": "auto", "range": (float(a.min()) - 1, float(a.max()) + 2)},
                   {"bins": int(rng.integers(1, 9)), "range": (-1.0, 3.0)}, {"bins": np.sort(rng.normal(size=5))},
                   {"bins": "auto", "range": (float(np.median(a)), float(a.max()))}):
            ctx.tick()
            got, uni = hg._get_bin_edges_np(a, **kw)
            want = np.histogram_bin_edges(a, bins=kw["bins"], range=kw.get("range"))
            expect(close(got, want, 1e-9, 1e-9), "bin-edges-np", f"bin edges differ from numpy for {kind} n={n} {kw}", got=got, want=want)
            if uni is not None:
                expect(uni[2] == len(want) - 1 and close(uni[0], want[0], 1e-9) and close(uni[1], want[-1], 1e-9), "bin-edges-np",
                       "reported range or number of bins differ", uni=uni)
        # torch port
        for rg in (None, (float(a.min()) - 1, float(a.max()) + 2), (float(np.median(a)), float(a.max()) + 1)):
            t = torch.tensor(a, dtype=torch.float32)
            if rng.random() < 0.5:
                t = t.view(-1, 1)
            ctx.tick()
            got, uni = hg._get_bin_edges_torch(t, range=rg)
            want = np.histogram_bin_edges(a, bins="auto", range=rg)
            b = a if rg is None else a[(a >= rg[0]) & (a <= rg[1])]
            nb = len(want) - 1
            sel = None
            if len(b):
                iqr = np.subtract(*np.percentile(b, [75, 25]))
                fd, stg = 2 * iqr * len(b) ** (-1 / 3), (b.max() - b.min()) / (np.log2(len(b)) + 1)
                w = min(fd, stg) if fd else stg
                sel = (want[-1] - want[0]) / w if w else None
            if sel is not None and abs(sel - round(sel)) < 1e-3 * max(1, sel):
                ctx.count("ambiguous_bins")
                expect(abs(len(got) - len(want)) <= 1, "bin-edges-torch", f"{len(got) - 1} bins, numpy has {nb}")
                continue
            expect(len(got) == len(want), "bin-edges-torch", f"{len(got) - 1} bins for {kind} n={n} range={rg}, numpy has {nb}")
            expect(close(got, want, 1e-3, 1e-5), "bin-edges-torch", "bin edges differ from numpy", got=got, want=want)
            expect(uni[2] == nb and close(uni[0], want[0], 1e-3) and close(uni[1], want[-1], 1e-3), "bin-edges-torch",
                   "reported range or number of bins differ", uni=uni)
        for f in (lambda: hg._get_bin_edges_np(a, "auto", weights=a), lambda: hg._get_bin_edges_torch(torch.tensor(a), weights=torch.tensor(a)),
                  lambda: hg._get_bin_edges_np(a, 0), lambda: hg._get_bin_edges_np(a, "auto", range=(3, 1)),
                  lambda: hg._get_bin_edges_torch(torch.tensor(a), range=(3.0, 1.0)), lambda: hg._get_bin_edges_np(a, np.array([3.0, 1.0]))):
            ctx.tick()
            try:
                f()
            except (TypeError, ValueError):
                continue
            raise Violation("bin-edges-reject", "an invalid histogram request is accepted")
        # interpolation
        k = int(rng.integers(2, 9))
        xp = np.sort(rng.normal(0, 3, size=k)) + np.arange(k) * 0.05
        fp = rng.random(k) * 3
        x = np.concatenate([rng.normal(0, 4, size=30), xp, [xp[0] - 5, xp[-1] + 5]])
        got = interp(torch.tensor(x), torch.tensor(xp), torch.tensor(fp))
        ctx.tick(len(x))
        expect(close(got, np.interp(x, xp, fp), 1e-7, 1e-7), "interp", "interpolation differs from numpy")
        lin = interp(torch.tensor(x), torch.tensor(xp), torch.tensor(fp), extrapolate="linear")
        inside = (x > xp[0]) & (x < xp[-1])
        expect(close(lin.numpy()[inside], np.interp(x, xp, fp)[inside], 1e-6, 1e-6), "interp", "linear mode differs inside the range")
    ctx.seen(f"hist-{rng.integers(1 << 30)}")


def check(ctx):
    for i in range(ctx.n(14, 90)):
        for which in ("discrete", "continuous", "mixed"):
            ctx.run(f"leaf/{which}/{i}", {"kind": which}, leaf_case, ctx, which)
    for i in range(ctx.n(16, 90)):
        for s in ("top-down", "bottom-up"):
            ctx.run(f"discrete/{s}/{i}", {"structure": s}, discrete_circuit, ctx, s)
            ctx.run(f"continuous/{s}/{i}", {"structure": s}, continuous_circuit, ctx, s)
            ctx.run(f"mixed/{s}/{i}", {"structure": s}, mixed_circuit, ctx, s)
    for i in range(ctx.n(8, 50)):
        ctx.run(f"hist/{i}", {}, histograms, ctx)
