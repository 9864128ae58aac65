"""C30: the model is the same distribution in single, double and mixed precision."""
import copy

import numpy as np
import torch

from simple_einet.conv_pc import ConvPc  # noqa: F401

from .. import models as M
from .. import ref
from ..core import Violation, close, expect, maxdiff
from ..stats import confirm_gof
from . import c19

LEVEL = "exploration"
RULE = ("one evaluation = one value of a model in double, mixed or cast precision judged against the double-precision "
        "reference; distinct = distinct (configuration, precision, query)")
MIN_EVALS, MIN_DISTINCT = 5000, 100
ASSUMPTIONS = ("mixed precision is torch.autocast on the CPU with bfloat16 and float16, as Fabric and Lightning set it up",
               "sampling rounds values to single precision; only likelihoods are claimed to double precision")

F64 = 1e-9


def worst(got, want):
    got, want = np.asarray(got.detach().double().numpy()), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("shape", f"result {got.shape}, expected {want.shape}")
    if np.isnan(got).any():
        return float("inf")
    with np.errstate(invalid="ignore"):
        d = np.abs(got - want) / (1 + np.abs(want))
    return float(np.nanmax(np.where(got == want, 0.0, d))) if d.size else 0.0


def inputs(rng, cfg, x):
    """The query forms: complete rows, missing entries, missing features."""
    yield "full", x, None
    nan_ok = not any(k in cfg.leaf_type.__name__ for k in ("Multivariate",))
    if nan_ok:
        y = x.clone()
        y[torch.tensor(rng.random(x.shape) < 0.3)] = torch.nan
        yield "nan", y, None
        s = sorted(int(v) for v in rng.permutation(cfg.num_features)[:int(rng.integers(1, cfg.num_features))])
        yield "scopes", x, s


def wanted(m, x, scopes):
    z = x.double().numpy().copy()
    if scopes is not None:
        z[:, :, scopes] = np.nan
    return ref.log_likelihood(m, z)


def call(m, x, scopes):
    return m(x) if scopes is None else m(x, torch.tensor(scopes))


def double(rng, ctx, combo, leaf, scale):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=9, **combo) if leaf != "mvn" else M.make_cfg(rng, leaf="mvn", **{**combo, "F": int(rng.integers(4, 9)), "depth": min(1, combo["depth"]), "structure": "top-down"})
    m = M.build(cfg, rng, scale=scale, leaf_scale=1.5)
    # probabilities far below what single precision resolves next to one
    sharp = leaf in ("bernoulli", "binomial", "categorical") and rng.random() < 0.4
    if sharp:
        with torch.no_grad():
            for name, p in m.named_parameters():
                if name.startswith("leaf") and p.requires_grad:
                    p.copy_(-torch.tensor(rng.uniform(0, 26, size=tuple(p.shape)), dtype=p.dtype))
    x = M.random_x(cfg, rng, int(rng.integers(1, 14)), spread=float(rng.choice([1.0, 4.0])))
    before = {k: v.clone() for k, v in m.state_dict().items()}
    with torch.no_grad():
        single = m(x)  # whatever the first evaluation leaves behind must not survive the cast
    d = m.double() if rng.random() < 0.5 else copy.deepcopy(m).to(torch.float64)
    for form, y, s in inputs(rng, cfg, x):
        want = wanted(d, y, s)
        with torch.no_grad():
            got = call(d, y.double(), s)
        expect(got.dtype == torch.float64, "dtype", f"double model gives {got.dtype} ({form})")
        off = worst(got, want)
        expect(off <= F64, "double", f"{form}: off by {off:.2e} in double precision, parameters define {want.flatten()[:4]}", got=got.flatten()[:4])
        ctx.tick(got.numel())
        if form == "full" and not sharp:
            expect(worst(single, want) <= 1e-4, "single", f"single precision is off by {worst(single, want):.2e}")
    # posterior
    if cfg.num_classes > 1:
        with torch.no_grad():
            post = d.posterior(x.double())
        ll = wanted(d, x, None)
        top = ll.max(1, keepdims=True)
        want = ll - top - np.log(np.exp(ll - top).sum(1, keepdims=True))
        expect(post.dtype == torch.float64 and worst(post, want) <= F64, "double-posterior", f"posterior off by {worst(post, want):.2e}")
        ctx.tick(post.numel())
    # most probable completions and draws stay in the domain and keep what was observed
    y = x.double().clone()
    y[torch.tensor(rng.random(x.shape) < 0.4)] = torch.nan
    if leaf != "mvn":
        got = d.mpe(evidence=y.clone())
        draw = d.sample(evidence=y.clone(), seed=3)
        for r, what in ((got, "mpe"), (draw, "sample")):
            r = r.view(y.shape).double()
            seen = ~torch.isnan(y)
            expect(bool(torch.isfinite(r).all()) and close(r[seen], y[seen], 1e-6, 1e-6), "double-" + what, f"{what} of the double model changes observed values or is not finite")
            ctx.tick()
    # there and back
    back = d.float()
    for k, v in back.state_dict().items():
        expect(v.dtype == before[k].dtype and torch.equal(v, before[k]), "cast-back", f"{k} changes when the model is cast to double and back: {v.dtype}")
    with torch.no_grad():
        again = back(x)
    expect(again.dtype == torch.float32 and close(again, single, 1e-5, 1e-5), "cast-back", "model cast to double and back computes something else", off=maxdiff(again, single))
    ctx.seen(f"double-{M.key(cfg)}-{scale}")


def large(rng, ctx, j):
    cfg = M.large_cfg(rng, j)
    m = M.build(cfg, rng).double()
    x = M.large_x(cfg, rng, 4)
    for form, y, s in inputs(rng, cfg, x):
        want = wanted(m, y, s)
        with torch.no_grad():
            got = call(m, y.double(), s)
        expect(got.dtype == torch.float64 and worst(got, want) <= F64, "double", f"{form}: {cfg.num_features} features off by {worst(got, want):.2e}")
        ctx.tick(got.numel())
    ctx.seen(f"large-{M.key(cfg)}")


def gradients(rng, ctx, combo, leaf):
    """Double precision leaves finite differences no excuse."""
    cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
    m = M.build(cfg, rng).double()
    x = M.random_x(cfg, rng, 5).double()
    if rng.random() < 0.5:
        x[torch.tensor(rng.random(x.shape) < 0.3)] = torch.nan
    w = torch.tensor(rng.normal(size=(5, cfg.num_classes)))
    m.zero_grad()
    (m(x) * w).sum().backward()
    params = [(n, p) for n, p in m.named_parameters() if p.requires_grad and not n.startswith("_class_sampling_root")]
    h = 1e-5
    for _ in range(12):
        n, p = params[int(rng.integers(len(params)))]
        i = int(rng.integers(p.numel()))
        got = 0.0 if p.grad is None else float(p.grad.view(-1)[i])
        v = []
        with torch.no_grad():
            keep = float(p.view(-1)[i])
            for s in (h, -h, 2 * h, -2 * h):
                p.view(-1)[i] = keep + s
                v.append(float((torch.tensor(ref.log_likelihood(m, x.numpy())) * w).sum()))
            p.view(-1)[i] = keep
        want = (8 * (v[0] - v[1]) - (v[2] - v[3])) / (12 * h)
        expect(abs(got - want) <= 1e-6 * (1 + abs(want)), "double-gradient", f"derivative by {n}[{i}] is {got}, the likelihood's is {want}")
        ctx.tick()
    ctx.seen(f"grad-{M.key(cfg)}")


def autocast(rng, ctx, combo, leaf, dtype):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=9, **combo) if leaf != "mvn" else M.make_cfg(rng, leaf="mvn", **{**combo, "F": int(rng.integers(4, 9)), "depth": min(1, combo["depth"]), "structure": "top-down"})
    m = M.build(cfg, rng)
    x = M.random_x(cfg, rng, int(rng.integers(2, 14)))
    tol = 0.03 if dtype == torch.bfloat16 else 0.01
    # each einsum layer rounds its sums once, products add up the roundings of their factors
    tol *= max(1, cfg.depth)
    name = str(dtype)[6:]
    for form, y, s in inputs(rng, cfg, x):
        want = wanted(m, y, s)
        with torch.no_grad(), torch.autocast("cpu", dtype=dtype):
            got = call(m, y, s)
        expect(got.dtype in (torch.float32, dtype) and worst(got, want) <= tol, "autocast", f"{name} {form}: off by {worst(got, want):.2e}", got=got.flatten()[:4], want=want.flatten()[:4])
        ctx.tick(got.numel())
    if leaf != "mvn":
        y = x.clone()
        y[torch.tensor(rng.random(x.shape) < 0.4)] = torch.nan
        seen = ~torch.isnan(y)
        with torch.autocast("cpu", dtype=dtype):
            a, b = m.mpe(evidence=y.clone()), m.mpe(evidence=y.clone())
            c = m.sample(evidence=y.clone())
        expect(torch.equal(a, b), "autocast-mpe", f"{name}: the most probable completion differs between calls")
        for r, what in ((a, "mpe"), (c, "sample")):
            r = r.view(y.shape)
            expect(bool(torch.isfinite(r).all()) and torch.equal(r[seen].float(), y[seen]), "autocast-" + what, f"{name}: {what} changes observed values or is not finite")
            if M.domain_sizes(cfg):
                M.state_index(cfg, r)
            ctx.tick()
    # one training step
    m.train()
    opt = torch.optim.SGD(m.parameters(), lr=1e-3)
    with torch.autocast("cpu", dtype=dtype):
        loss = -m(x).mean()
    loss.backward()
    mixed = {n: p.grad.clone() for n, p in m.named_parameters() if p.grad is not None}
    m.zero_grad()
    (-m(x).mean()).backward()
    for n, p in m.named_parameters():
        if p.grad is None:
            continue
        expect(n in mixed and mixed[n].dtype == torch.float32 and bool(torch.isfinite(mixed[n]).all()), "autocast-gradient", f"{name}: no finite gradient for {n}")
        scale = float(p.grad.abs().max()) + 0.5  # cancelling terms keep their absolute rounding
        expect(float((mixed[n] - p.grad).abs().max()) <= 0.1 * scale, "autocast-gradient", f"{name}: gradient of {n} is off by {float((mixed[n] - p.grad).abs().max()):.2e} of {scale:.2e}")
        ctx.tick()
    opt.step()
    m.eval()
    ctx.seen(f"autocast-{name}-{M.key(cfg)}")


def autocast_draws(rng, ctx, combo, dtype, cond):
    for _ in range(60):
        cfg = M.make_cfg(rng, leaf=str(rng.choice(["bernoulli", "categorical"])), max_F=4, **combo)
        if M.n_states(cfg) <= 300:
            break
    else:
        cfg = M.make_cfg(rng, leaf="bernoulli", F=4, C=1, **combo)
    m = M.build(cfg, rng)
    pts = M.enumerate_domain(cfg).numpy()
    p = np.exp(ref.log_likelihood(m, pts)).mean(1)
    ev = None
    if cond:
        ev = M.random_x(cfg, rng, 1)
        ev[:, :, 1:] = torch.nan
        ok = (pts[:, :, 0] == ev.numpy()[:, :, 0]).all(1)
        p = np.where(ok, p, 0)
    p = p / p.sum()
    # reduced precision may tilt every probability by a few percent: draws must fit a mixture of the exact and a tilted table
    n = 3000

    def draw(k):
        with torch.no_grad(), torch.autocast("cpu", dtype=dtype):
            x = m.sample(num_samples=k) if ev is None else m.sample(evidence=ev.expand(k, -1, -1).clone())
        ctx.tick(k)
        return M.state_index(cfg, x)

    freq = np.bincount(draw(n), minlength=len(p)) / n
    tv, slack = 0.5 * np.abs(freq - p).sum(), 0.05 + 0.5 * np.sqrt(2 / np.pi) * np.sqrt(p * (1 - p) / n).sum() + 4 * np.sqrt(1 / n)
    if tv > slack:
        n2 = 6 * n
        freq = np.bincount(draw(n2), minlength=len(p)) / n2
        tv, slack = 0.5 * np.abs(freq - p).sum(), 0.05 + 0.5 * np.sqrt(2 / np.pi) * np.sqrt(p * (1 - p) / n2).sum() + 4 * np.sqrt(1 / n2)
        expect(tv <= slack, "autocast-distribution", f"{dtype}: draws differ from the model's distribution by {tv:.3f} in total variation (allowed {slack:.3f})")
    ctx.seen(f"draws-{dtype}-{cond}-{M.key(cfg)}")


def conv(rng, ctx, leaf, structure, order):
    size, ch = c19.configs(rng, leaf, structure, order, False)
    m, cfg = c19.make(rng, leaf, structure, order, size, int(rng.integers(1, 3)), ch)
    x = c19.data(rng, m, leaf, 6)
    x = torch.as_tensor(x, dtype=torch.float32)
    want = c19.forward(m, x.numpy())
    for dt, tol in ((torch.bfloat16, 0.03), (torch.float16, 0.01)):
        with torch.no_grad(), torch.autocast("cpu", dtype=dt):
            got = m(x).view(-1)
        expect(worst(got, want) <= tol, "autocast", f"convolutional circuit, {dt}: off by {worst(got, want):.2e}")
        ctx.tick(6)
    d = copy.deepcopy(m).double()
    y = x.double()
    for form in ("full", "nan"):
        if form == "nan":
            y = y.clone()
            y[torch.tensor(rng.random(y.shape) < 0.3)] = torch.nan
        with torch.no_grad():
            got = d(y)
        want = c19.forward(d, y.numpy())
        expect(got.dtype == torch.float64 and worst(got.view(-1), want) <= F64, "double", f"convolutional circuit, {form}: {got.dtype}, off by {worst(got.view(-1), want):.2e}")
        ctx.tick(6)
    ctx.seen(f"conv-{leaf}-{structure}-{order}-{size}-{ch}")


def default_dtype(rng, ctx, combo, leaf):
    """Programs that work in double precision throughout."""
    torch.set_default_dtype(torch.float64)
    try:
        cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
        m = M.build(cfg, rng)
        x = M.random_x(cfg, rng, 5).double()
        want = wanted(m, x, None)
        with torch.no_grad():
            got = m(x)
        expect(got.dtype == torch.float64 and worst(got, want) <= F64, "double", f"default dtype double: {got.dtype}, off by {worst(got, want):.2e}")
        s = m.sample(num_samples=6)
        expect(bool(torch.isfinite(s).all()) and torch.isfinite(m(s.double())).all(), "double-sample", "samples are not in the domain")
        ctx.tick(got.numel() + 6)
        ctx.seen(f"default-{M.key(cfg)}")
    finally:
        torch.set_default_dtype(torch.float32)


def inference(rng, ctx, combo, leaf):
    """torch.inference_mode, as trainers use for evaluation, gives the values of no_grad and leaves training possible."""
    cfg = M.make_cfg(rng, leaf=leaf, max_F=9, **combo)
    m = M.build(cfg, rng)
    x = M.random_x(cfg, rng, 6)
    want = wanted(m, x, None)
    with torch.inference_mode():
        got = m(x)
        s = m.sample(num_samples=3, seed=5)
        y = x.clone()
        y[:, :, 0] = torch.nan
        e = m.mpe(evidence=y)
    t = m.sample(num_samples=3, seed=5)
    expect(worst(got, want) <= 1e-4, "inference-mode", f"off by {worst(got, want):.2e}")
    expect(torch.equal(s.clone(), t) and torch.equal(e.clone(), m.mpe(evidence=y.clone())), "inference-mode", "samples or completions differ from those outside inference mode")
    m.train()
    (-m(x).mean()).backward()
    expect(all(p.grad is None or bool(torch.isfinite(p.grad).all()) for p in m.parameters()) and any(p.grad is not None and bool(p.grad.abs().sum() > 0) for p in m.parameters()),
           "inference-mode", "no gradients after an evaluation in inference mode")
    m.eval()
    ctx.tick(got.numel() + 5)
    ctx.seen(f"inference-{M.key(cfg)}")


def check(ctx):
    combos = M.covering(ctx.thorough)
    leaves = ["normal", "bernoulli", "categorical", "binomial", "ratnormal", "multi", "mvn"]
    for rep in range(ctx.n(1, 4)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 7]
            if combo["structure"] == "bottom-up" and leaf in ("mvn", "multi"):
                leaf = "normal"
            other = leaves[(j + rep + 3 + ctx.seed) % 5]
            ctx.run(f"double-{rep}-{j}", {**combo, "leaf": leaf}, double, ctx, combo, leaf, [1.5, 12.0][(j // 7 + rep) % 2])
            ctx.run(f"grad-{rep}-{j}", {**combo, "leaf": other}, gradients, ctx, combo, other)
            dt = [torch.bfloat16, torch.float16][(j + rep) % 2]
            ctx.run(f"autocast-{rep}-{j}", {**combo, "leaf": leaf, "dtype": str(dt)}, autocast, ctx, combo, leaf, dt)
            if (j + rep) % 3 == 0:
                ctx.run(f"draws-{rep}-{j}", {**combo, "dtype": str(dt)}, autocast_draws, ctx, combo, dt, bool((j // 3) % 2))
            if (j + rep) % 2 == 0:
                ctx.run(f"default-{rep}-{j}", combo, default_dtype, ctx, combo, other)
            ctx.run(f"inference-{rep}-{j}", combo, inference, ctx, combo, other)
    for j in range(ctx.n(8, 40)):
        ctx.run(f"large-{j}", {}, large, ctx, j)
    for rep in range(ctx.n(1, 6)):
        for leaf in ("normal", "bernoulli", "binomial", "categorical"):
            for structure in ("top-down", "bottom-up"):
                for order in ("sum-prod", "prod-sum"):
                    ctx.run(f"conv-{leaf}-{structure}-{order}-{rep}", {}, conv, ctx, leaf, structure, order)
