"""C19: ConvPc is a normalized distribution over images with exact inference."""
import copy

import numpy as np
import torch
from scipy.special import logsumexp

from simple_einet import conv_pc as cp
from simple_einet.data import Shape

from .. import models as M
from .. import ref
from ..core import Violation, close, expect
from ..stats import P1, P2, confirm_gof, confirm_ks, gof_p, ks_p

LEVEL = "exploration"
RULE = ("one evaluation = one likelihood compared with the float64 reference circuit, one probability table summed, one "
        "marginal compared with the enumerated sum, or one sample / completion judged; distinct = distinct (configuration, query)")
MIN_EVALS, MIN_DISTINCT = 20000, 150
ASSUMPTIONS = ("Binomial leaves of ConvPc are sampled with the documented differentiable (normal) relaxation: only their "
               "range, evidence handling and shape are judged, not their distribution",)

LEAF_KW = {"bernoulli": {}, "categorical": {"num_bins": 3}, "normal": {}, "binomial": {"total_count": 3},
           "ratnormal": {"min_sigma": 0.2, "max_sigma": 1.5}}
CARD = {"bernoulli": 2, "categorical": 3, "binomial": 4}


def make(rng, leaf, structure, order, size, C, channels=None):
    h, w = size
    if channels is None:
        n = {("bottom-up"): int(rng.integers(1, 3)), "top-down": int(rng.integers(1, 3))}[structure]
        channels = [int(c) for c in rng.integers(1, 5, size=n)]
    cfg = cp.ConvPcConfig(channels=channels, kernel_size=2, num_channels=C, leaf_type=M.LEAVES[leaf],
                          leaf_kwargs=dict(LEAF_KW[leaf]), structure=structure, order=order)
    m = cp.ConvPc(cfg, Shape(channels=C, height=h, width=w))
    M.randomize(m, rng, scale=1.8, leaf_scale=1.8)
    m.eval()
    return m, cfg


def configs(rng, leaf, structure, order, small):
    """A geometry the structure supports; `small` keeps the domain enumerable."""
    if structure == "bottom-up":
        choices = [((2, 2), [2]), ((2, 2), [3]), ((2, 2), [2, 3]), ((2, 4), [2, 3]), ((4, 2), [3, 2]), ((2, 2), [1, 2])]
        if not small:
            choices += [((4, 4), [2, 3, 2]), ((4, 4), [3, 2]), ((8, 4), [2, 2]), ((4, 4), [1, 1]), ((6, 2), [2, 3])]
    else:
        choices = [((2, 2), [2]), ((2, 2), [3]), ((2, 4), [2]), ((4, 2), [3]), ((2, 2), [1])]
        if not small:
            choices += [((4, 4), [2, 3]), ((8, 4), [2, 2]), ((4, 4), [3]), ((6, 4), [2]), ((8, 8), [2, 1, 3])]
    size, ch = choices[int(rng.integers(len(choices)))]
    return size, ch


# ---- float64 reference ----
def levels(m):
    """[('sum', logits) | ('prod', kh, kw)] bottom to top."""
    out = []

    def add(layer):
        if isinstance(layer, cp.SumProdLayer):
            parts = [layer.sum_layer, layer.prod_conv]
            for q in (parts if layer.order == "sum-prod" else parts[::-1]):
                add(q)
        elif isinstance(layer, cp.SumLayer):
            out.append(("sum", layer.logits.detach().double().numpy()))
        elif isinstance(layer, cp.ProdConv):
            out.append(("prod", layer.kernel_size_h, layer.kernel_size_w))
        else:
            raise Violation("unknown-layer", f"layer {type(layer)}")

    for layer in m.layers:
        add(layer)
    return out


def log_softmax(a, axis, t=1.0):
    a = a / t
    return a - logsumexp(a, axis=axis, keepdims=True)


def leaf_ll(m, x):
    """[N, I, H, W] log densities of the leaf components, missing entries marginalised."""
    N = x.shape[0]
    C, H, W = m.data_shape.channels, m.data_shape.height, m.data_shape.width
    leaf = m.leaf_data
    v = ref.leaf_logpdf(type(leaf).__name__, leaf.state_dict(), "", np.asarray(x, float).reshape(N, C, H * W),
                        m.config.leaf_kwargs, C, H * W, m.config.channels[0], 1)  # [N, C, F, I, R]
    return v.sum(1)[..., 0].transpose(0, 2, 1).reshape(N, -1, H, W)


def forward(m, x, trace=None):
    v = leaf_ll(m, x)
    for lv in levels(m):
        if trace is not None:
            trace.append(v)
        if lv[0] == "sum":
            lw = log_softmax(lv[1], 1)
            v = logsumexp(v[:, None] + lw[None], axis=2)
        else:
            N, K, H, W = v.shape
            v = v.reshape(N, K, H // lv[1], lv[1], W // lv[2], lv[2]).sum((3, 5))
    return v.reshape(len(v))


class Tie(Exception):
    pass


def leaf_modes(m):
    """[C, F, I, R] modes of the leaf components."""
    C, H, W = m.data_shape.channels, m.data_shape.height, m.data_shape.width
    leaf = m.leaf_data
    return ref.leaf_mode(type(leaf).__name__, leaf.state_dict(), "", m.config.leaf_kwargs, C, H * W, m.config.channels[0], 1)


def greedy(m, x):
    """Reference MPE completion of each row (None where a near tie occurs)."""
    trace = []
    forward(m, x, trace)
    lvs = levels(m)
    modes = leaf_modes(m)  # [C, F, I, R]
    out = []
    for n in range(len(x)):
        try:
            idx = np.zeros((1, 1), int)
            for lv, v in zip(lvs[::-1], trace[::-1]):
                if lv[0] == "prod":
                    idx = np.repeat(np.repeat(idx, lv[1], 0), lv[2], 1)
                else:
                    lw = log_softmax(lv[1], 1)
                    H, W = idx.shape
                    new = np.zeros_like(idx)
                    for i in range(H):
                        for j in range(W):
                            s = lw[idx[i, j], :, i, j] + v[n, :, i, j]
                            o = np.sort(s)
                            if len(o) > 1 and o[-1] - o[-2] < 1e-3:
                                raise Tie
                            new[i, j] = s.argmax()
                    idx = new
            f = idx.reshape(-1)
            y = modes[:, np.arange(len(f)), f, 0].reshape(x[n].shape)
            o = np.asarray(x[n], float)
            out.append(np.where(np.isnan(o), y, o))
        except Tie:
            out.append(None)
    return out


def data(rng, m, leaf, n):
    C, H, W = m.data_shape.channels, m.data_shape.height, m.data_shape.width
    if leaf in CARD:
        return torch.tensor(rng.integers(0, CARD[leaf], size=(n, C, H, W)), dtype=torch.float32)
    return torch.tensor(rng.normal(0, 1.5, size=(n, C, H, W)), dtype=torch.float32)


def domain(m, leaf):
    C, H, W = m.data_shape.channels, m.data_shape.height, m.data_shape.width
    g = np.indices((CARD[leaf],) * (C * H * W)).reshape(C * H * W, -1).T
    return torch.tensor(g, dtype=torch.float32).view(-1, C, H, W)


def index(x, k):
    v = x.detach().double().numpy().reshape(len(x), -1)
    r = np.round(v)
    if not np.isfinite(v).all() or np.abs(v - r).max() > 1e-3 or (r < 0).any() or (r >= k).any():
        raise Violation("out-of-domain", "sample outside the leaf domain", row=v[0])
    return (r.astype(np.int64) * (k ** np.arange(v.shape[1])[::-1])).sum(1)


# ---- cases ----
def likelihood(rng, ctx, leaf, structure, order):
    size, ch = configs(rng, leaf, structure, order, False)
    C = int(rng.choice([1, 1, 2, 3]))
    m, cfg = make(rng, leaf, structure, order, size, C, ch)
    key = f"{leaf}-{structure}-{order}-{size}-{C}-{ch}"
    x = data(rng, m, leaf, 12)
    x[4:8][torch.tensor(rng.random((4, *x.shape[1:])) < 0.4)] = torch.nan
    x[8:10, :, 0] = torch.nan
    x[10] = torch.nan
    x0 = x.clone()
    with torch.no_grad():
        got = m(x)
        want = forward(m, x.numpy())
        ctx.tick(len(x))
        expect(got.numel() == len(x), "shape", f"likelihood shape {tuple(got.shape)}")
        expect(close(got.view(-1), want, 1e-3, 1e-4), "likelihood", "likelihood differs from the circuit the parameters define",
               got=got.view(-1)[:6], want=want[:6], key=key)
        expect(abs(float(got.view(-1)[10])) < 1e-4, "all-missing", f"all pixels missing: {float(got.view(-1)[10])}")
        expect(torch.equal(torch.nan_to_num(x, 77.), torch.nan_to_num(x0, 77.)), "input-modified", "forward changed its input")
        for i in (0, 5, 9):
            ctx.tick()
            expect(close(m(x[i:i + 1]).view(-1), got.view(-1)[i:i + 1], 1e-4, 1e-5), "batch", "row alone gives another value")
        xt = x.permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
        expect(close(m(xt).view(-1), got.view(-1), 1e-5, 1e-5), "layout", "non-contiguous image gives another value")
        # underflow: many small factors stay finite
        if leaf == "normal":
            far = data(rng, m, leaf, 3) * 30
            ctx.tick(3)
            expect(close(m(far).view(-1), forward(m, far.numpy()), 1e-2, 1e-4), "underflow", "far data inaccurate")
    # nearly deterministic sums, as training produces: the tiny weights decide where only their child explains the data
    if leaf in ("normal", "categorical"):
        sharp = copy.deepcopy(m)
        with torch.no_grad():
            for n, p in sharp.named_parameters():
                if n.endswith("logits") and not n.startswith("leaf"):
                    p.mul_(float(rng.choice([10.0, 30.0])))
                elif leaf == "categorical" and n.startswith("leaf") and p.requires_grad:
                    p.mul_(12.0)
            y = data(rng, sharp, leaf, 24) * (float(rng.choice([2.0, 6.0])) if leaf == "normal" else 1)
            y[12:][torch.tensor(rng.random((12, *y.shape[1:])) < 0.4)] = torch.nan
            ctx.tick(len(y))
            ctx.count("sharp_rows", len(y))
            expect(close(sharp(y).view(-1), forward(sharp, y.numpy()), 1e-2, 1e-4), "sharp-weights",
                   "with very uneven weights the likelihood differs from the circuit the parameters define", key=key)
    # gradients exist, are finite, and repeatedly querying leaves the parameters alone
    m.zero_grad()
    m(x).sum().backward()
    for n, p in m.named_parameters():
        if p.requires_grad:
            ctx.tick()
            expect(p.grad is not None and bool(torch.isfinite(p.grad).all()), "gradient", f"gradient of {n} missing or not finite")
    # state dict
    o = cp.ConvPc(cfg, m.data_shape)
    o.load_state_dict(m.state_dict())
    o.eval()
    with torch.no_grad():
        expect(torch.equal(o(x), m(x)), "state-dict", "reloaded model differs")
    ctx.seen(key)


def normalised(rng, ctx, leaf, structure, order):
    size, ch = configs(rng, leaf, structure, order, True)
    C = int(rng.choice([1, 2])) if size == (2, 2) and leaf == "bernoulli" else 1
    if leaf != "bernoulli":
        size, ch = (2, 2), ch if structure == "bottom-up" or size == (2, 2) else [2]
    m, cfg = make(rng, leaf, structure, order, size, C, ch)
    key = f"norm-{leaf}-{structure}-{order}-{size}-{C}-{ch}"
    dom = domain(m, leaf)
    with torch.no_grad():
        p = m(dom).double().view(-1).exp().numpy()
        ctx.tick(len(p))
        expect(close(p.sum(), 1.0, 1e-4), "not-normalised", f"total mass {p.sum():.6f}", key=key)
        # marginals by enumeration
        flat = dom.view(len(dom), -1).numpy()
        for _ in range(6):
            x = data(rng, m, leaf, 1)
            miss = rng.random(flat.shape[1]) < rng.choice([0.25, 0.5, 0.8])
            xm = x.view(1, -1).clone()
            xm[0, torch.tensor(miss)] = torch.nan
            ok = (flat[:, ~miss] == x.view(-1).numpy()[~miss]).all(1)
            got = float(m(xm.view(x.shape)).view(-1)[0])
            ctx.tick()
            expect(close(np.exp(got), p[ok].sum(), 1e-5, 1e-3), "marginal", "marginal is not the sum over the missing pixels",
                   got=np.exp(got), want=p[ok].sum(), key=key)
        # samples
        if leaf != "binomial":
            k = CARD[leaf]
            s = m.sample(num_samples=ctx.n(1500, 10000))
            expect(s.shape[1:] == x.shape[1:], "shape", f"sample shape {tuple(s.shape)}")
            first = [index(s, k)]

            def draw(n):
                return first.pop() if first and len(first[0]) == n else index(m.sample(num_samples=n), k)

            ctx.tick(len(s))
            bad = confirm_gof(draw, p, len(s))
            expect(bad is None, "samples", f"samples do not follow the likelihood {bad}", key=key)
            # conditional
            for _ in range(2):
                x = m.sample(num_samples=1)[:1]
                miss = rng.random(flat.shape[1]) < 0.5
                miss[int(rng.integers(len(miss)))] = True
                e = x.reshape(1, -1).clone()
                e[0, torch.tensor(miss)] = torch.nan
                obs = torch.tensor(~miss)
                ok = (flat[:, ~miss] == x.reshape(-1).numpy().round()[~miss]).all(1)
                e[0, obs] = e[0, obs].round()
                q = np.where(ok, p, 0)
                q = q / q.sum()
                # a second row with other evidence in the same batch
                other = data(rng, m, leaf, 1).view(1, -1)

                def draw(n):
                    ev = torch.cat([e.repeat(n, 1), other.repeat(3, 1)]).view(-1, *dom.shape[1:])
                    return index(m.sample(evidence=ev)[:n], k)

                ctx.tick(ctx.n(800, 5000))
                bad = confirm_gof(draw, q, ctx.n(800, 5000))
                expect(bad is None, "conditional", f"conditional samples do not follow the exact conditional {bad}", key=key)
    ctx.seen(key)


def continuous(rng, ctx, leaf, structure, order):
    size, ch = configs(rng, leaf, structure, order, True)
    m, cfg = make(rng, leaf, structure, order, size, int(rng.choice([1, 2])), ch)
    key = f"cont-{leaf}-{structure}-{order}-{size}-{ch}"
    shape = (m.data_shape.channels, *size)
    D = int(np.prod(shape))
    grid = torch.linspace(-30, 30, 1201)
    a, b = [int(i) for i in rng.permutation(D)[:2]] if D > 1 else (0, 0)

    def cdf(pos, given=None):
        x = torch.full((len(grid), D), torch.nan)
        if given is not None:
            x[:, given[0]] = given[1]
        x[:, pos] = grid
        with torch.no_grad():
            d = m(x.view(-1, *shape)).double().view(-1).exp().numpy()
        c = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2) * (60 / 1200)])
        return c

    c = cdf(a)
    ctx.tick()
    expect(close(c[-1], 1.0, 5e-3), "not-normalised", f"pixel density integrates to {c[-1]:.4f}", key=key)
    gx = grid.numpy()
    n = ctx.n(600, 4000)

    def draw(k):
        return m.sample(num_samples=k).detach().reshape(k, -1)[:, a].numpy()

    ctx.tick(n)
    bad = confirm_ks(draw, gx, c / c[-1], n)
    expect(bad is None, "samples", f"pixel samples do not follow the pixel marginal {bad}", key=key)

    def dependence(k):
        s = m.sample(num_samples=k).detach().reshape(k, -1).numpy()
        u = []
        for row in s:
            cc = cdf(b, (a, float(row[a])))
            u.append(np.interp(row[b], gx, cc / cc[-1]))
        return np.array(u)

    from scipy import stats as st

    k = ctx.n(60, 300)
    ctx.tick(k)
    if st.kstest(dependence(k), "uniform").pvalue < P1:
        p2 = st.kstest(dependence(3 * k), "uniform").pvalue
        expect(p2 > P2, "dependence", f"dependence between two pixels of a sample is wrong (p={p2:.2g})", key=key)

    # conditional on one pixel
    val = float(draw(1)[0])
    cc = cdf(b, (a, val))
    ev = torch.full((1, D), torch.nan)
    ev[0, a] = val

    def cond(k):
        s = m.sample(evidence=ev.repeat(k, 1).view(-1, *shape)).detach().reshape(k, -1)
        expect(bool((s[:, a] == ev[0, a]).all()), "evidence-lost", "observed pixel changed")
        return s[:, b].numpy()

    ctx.tick(n)
    bad = confirm_ks(cond, gx, cc / cc[-1], n)
    expect(bad is None, "conditional", f"conditional pixel samples do not follow the conditional {bad}", key=key)
    # leaf temperature 0: leaf means only
    s = m.sample(num_samples=10, temperature_leaves=0.0).detach()
    ctx.seen(key)
    if leaf != "normal" and not ctx.has(m.leaf_data, "_get_base_distribution"):
        return
    means = (m.leaf_data.means if leaf == "normal" else m.leaf_data._get_base_distribution().mu).detach()[0, ..., 0]  # [C, F, I]
    dd = (s.reshape(10, *means.shape[:2]).unsqueeze(-1) - means).abs().min(-1)[0].max()
    ctx.tick(10)
    expect(float(dd) < 1e-3, "temperature-leaves", "temperature_leaves=0 does not yield leaf means")
    ctx.seen(key)


def completion(rng, ctx, leaf, structure, order):
    size, ch = configs(rng, leaf, structure, order, False)
    C = int(rng.choice([1, 2]))
    m, cfg = make(rng, leaf, structure, order, size, C, ch)
    key = f"mpe-{leaf}-{structure}-{order}-{size}-{C}-{ch}"
    x = data(rng, m, leaf, 8)
    miss = torch.tensor(rng.random(x.shape) < 0.5)
    miss[0] = True
    miss[1] = False
    ev = x.clone()
    ev[miss] = torch.nan
    snap = ev.clone()
    before = {k: v.clone() for k, v in m.state_dict().items()}
    with torch.no_grad():
        base = m(x).clone()
    torch.manual_seed(4)
    st0 = torch.get_rng_state()
    a = m.sample(evidence=ev, is_mpe=True, seed=8).detach()
    s1 = m.sample(evidence=ev, seed=8).detach()
    expect(torch.equal(st0, torch.get_rng_state()), "global-rng", "seeded calls changed the global RNG state")
    torch.rand(5)
    b = m.sample(evidence=ev, is_mpe=True).detach()
    s2 = m.sample(evidence=ev, seed=8).detach()
    s3 = m.sample(evidence=ev, seed=9).detach()
    u1, u2 = m.sample(num_samples=4, seed=3).detach(), m.sample(num_samples=4, seed=3).detach()
    ctx.tick(5)
    expect(torch.equal(s1, s2) and torch.equal(u1, u2), "seed", "same seed, different samples")
    if leaf in ("normal", "ratnormal"):
        expect(not torch.equal(s1, s3), "seed-ignored", "different seeds, same samples")
    expect(torch.equal(a, b), "mpe-not-deterministic", "MPE differs between calls")
    expect(torch.equal(torch.nan_to_num(ev, 77.), torch.nan_to_num(snap, 77.)), "input-modified", "evidence was changed")
    lim = {"bernoulli": 1, "categorical": 2, "binomial": 3}.get(leaf)
    for name, z in (("mpe", a), ("sample", s1)):
        ctx.tick(len(x))
        expect(z.shape == x.shape, "shape", f"{name} shape {tuple(z.shape)}")
        expect(torch.equal(z[~miss], x[~miss]), "evidence-lost", f"{name}: observed pixels changed")
        expect(bool(torch.isfinite(z).all()), "not-filled", f"{name}: missing pixels left")
        if lim:
            expect(bool((z >= -1e-4).all() and (z <= lim + 1e-4).all()), "out-of-domain", f"{name}: value outside the domain")
            if leaf != "binomial" or name == "mpe":
                expect(close(z, z.round(), 1e-3), "out-of-domain", f"{name}: non-integer value of a discrete leaf")
    want = greedy(m, ev.double().numpy())
    for i, wnt in enumerate(want):
        if wnt is None:
            ctx.count("ties")
            continue
        ctx.tick()
        wnt = np.where(np.isnan(wnt), a[i].numpy(), wnt)  # leaf mode (nearly) tied
        expect(close(a[i], wnt, 1e-3, 1e-3), "mpe", f"MPE completion of row {i} is not the greedy max completion",
               got=a[i].flatten()[:8], want=wnt.flatten()[:8], key=key)
    w0 = greedy(m, np.full((1, *x.shape[1:]), np.nan))[0]
    z = m.sample(num_samples=3, is_mpe=True).detach()
    ctx.tick(3)
    expect(z.shape == (3, *x.shape[1:]), "shape", f"mpe shape {tuple(z.shape)}")
    if w0 is not None:
        for row in z:
            expect(close(row, np.where(np.isnan(w0), row.numpy(), w0), 1e-3, 1e-3), "mpe", "unconditional MPE is not the greedy mode", key=key)
    # mpe_at_leaves yields leaf modes only
    z = m.sample(num_samples=6, mpe_at_leaves=True).detach().reshape(6, C, -1)
    modes = torch.tensor(leaf_modes(m)[..., 0], dtype=torch.float32)
    ctx.tick(6)
    gap = torch.nan_to_num((z.unsqueeze(-1) - modes).abs(), 0.0)  # tied leaf modes are not judged
    expect(float(gap.min(-1)[0].max()) < 1e-3, "mpe-at-leaves", "value is no leaf mode")
    # no trace
    with torch.no_grad():
        ctx.tick()
        expect(torch.equal(m(x), base), "trace", "likelihood changed after sampling")
    expect(all(torch.equal(before[k], v) for k, v in m.state_dict().items()), "trace", "parameters changed")
    expect(torch.equal(m.sample(num_samples=4, seed=3).detach(), u1), "trace", "seeded samples changed after conditional sampling")
    # a call that raises leaves no trace either
    bad = ev[:, :, :, :1] if size[1] > 1 else ev[:, :, :1]
    st0 = torch.get_rng_state()
    try:
        m.sample(evidence=bad, seed=2)
    except Exception:
        ctx.count("raised")
    expect(torch.equal(st0, torch.get_rng_state()), "global-rng", "a raising seeded call changed the global RNG state")
    expect(torch.equal(m.sample(num_samples=4, seed=3).detach(), u1), "trace", "seeded samples changed after a call that raised")
    ctx.seen(key)


def independence(rng, ctx, structure, order):
    """Rows of one call are independent, and temperatures at sums act as w^(1/T)."""
    m, cfg = make(rng, "normal", structure, order, (2, 2), 1, [3])
    with torch.no_grad():
        m.leaf_data.means.copy_(torch.arange(3).view(1, 1, 1, 3, 1).float() * 100)
        m.leaf_data.logvar.fill_(-6)
    n = ctx.n(2000, 12000)
    for T in (0.5, 2.0):
        lvs = levels(m)

        # exact marginal of the leaf component of pixel 0 under tempered weights
        dist = np.ones((1, 1, 1))  # [K, H, W] distribution of the selected node per position
        for lv in lvs[::-1]:
            if lv[0] == "prod":
                dist = np.repeat(np.repeat(dist, lv[1], 1), lv[2], 2)
            else:
                w = np.exp(log_softmax(lv[1], 1, T))
                dist = np.einsum("ohw,oihw->ihw", dist, w)

        def draw(k):
            s = m.sample(num_samples=k, temperature_sums=T).detach().reshape(k, -1)
            return np.clip(np.round(s[:, 0].numpy() / 100).astype(int), 0, 2)

        ctx.tick(n)
        bad = confirm_gof(draw, dist[:, 0, 0], n)
        expect(bad is None, "temperature-sums", f"tempered component frequencies wrong {bad}")
    ctx.seen(f"temp-{structure}-{order}-{rng.integers(9)}")


def sumconv(rng, ctx):
    """The patch-sharing sum layer on its own: forward and sampling use the weights of the position inside the patch."""
    K = int(rng.choice([1, 2, 3]))
    Ci, Co = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    H, W = K * int(rng.integers(1, 4)), K * int(rng.integers(1, 4))
    layer = cp.SumConv(Ci, Co, K)
    M.randomize(layer, rng)
    x = torch.tensor(rng.normal(0, 3, size=(5, Ci, H, W)), dtype=torch.float32)
    lw = log_softmax(layer.logits.detach().double().numpy(), 1)
    full = np.tile(lw, (1, 1, H // K, W // K))
    want = logsumexp(x.double().numpy()[:, None] + full[None], axis=2)
    with torch.no_grad():
        ctx.tick(5)
        expect(close(layer(x), want, 1e-4, 1e-4), "sumconv-forward", "SumConv forward is not the weighted sum of its patch weights")
        N = ctx.n(800, 4000)
        o = rng.integers(Co, size=(H, W))

        def draw(k):
            oh = torch.zeros(k, Co, H, W)
            for i in range(H):
                for j in range(W):
                    oh[:, o[i, j], i, j] = 1
            c = cp.SamplingContext(num_samples=k, is_differentiable=True, indices_out=oh)
            idx = layer.sample(c).indices_out
            expect(idx.shape == (k, Ci, H, W), "sumconv-shape", f"{tuple(idx.shape)}")
            expect(close(idx.sum(1), np.ones((k, H, W)), 1e-4), "sumconv-onehot", "indices are not one-hot")
            return idx.argmax(1).numpy()

        s = draw(N)
        for i in range(H):
            for j in range(W):
                p = np.exp(full[o[i, j], :, i, j])
                ctx.tick(N)
                if gof_p(s[:, i, j], p) < P1:
                    expect(gof_p(draw(3 * N)[:, i, j], p) > P2, "sumconv-sample", f"SumConv child frequencies at {(i, j)} wrong")
    ctx.seen(f"sumconv-{K}-{Ci}-{Co}-{H}-{W}")


def check(ctx):
    combos = [(s, o) for s in ("bottom-up", "top-down") for o in ("sum-prod", "prod-sum")]
    for rep in range(ctx.n(5, 30)):
        for j, (s, o) in enumerate(combos):
            for leaf in ("bernoulli", "categorical", "normal", "binomial", "ratnormal"):
                d = dict(leaf=leaf, structure=s, order=o)
                ctx.run(f"ll-{rep}-{s}-{o}-{leaf}", d, likelihood, ctx, leaf, s, o)
                ctx.run(f"mpe-{rep}-{s}-{o}-{leaf}", d, completion, ctx, leaf, s, o)
            for leaf in ("bernoulli", "categorical", "binomial"):
                ctx.run(f"norm-{rep}-{s}-{o}-{leaf}", dict(leaf=leaf, structure=s, order=o), normalised, ctx, leaf, s, o)
            if rep < ctx.n(2, 10):
                leaf = "normal" if rep % 2 == 0 else "ratnormal"
                ctx.run(f"cont-{rep}-{s}-{o}", dict(leaf=leaf, structure=s, order=o), continuous, ctx, leaf, s, o)
                ctx.run(f"temp-{rep}-{s}-{o}", dict(structure=s, order=o), independence, ctx, s, o)
        ctx.run(f"sumconv-{rep}", {}, sumconv, ctx)
