"""C02: forward value equals an independent float64 evaluation of the circuit."""
import numpy as np
import torch

from .. import models as M
from .. import ref
from ..core import close, expect, maxdiff

LEVEL = "exploration"
RULE = ("one evaluation = one (row, class) log-likelihood compared with the float64 reference circuit; distinct = "
        "distinct (configuration, parameter regime, input regime)")
MIN_EVALS, MIN_DISTINCT = 1000, 60
ASSUMPTIONS = ("the reference reads parameters and structure buffers from the state dict by their checkpoint names",
               "float32 tolerance: 2e-4 absolute + 2e-5 relative on log values")


def compare(ctx, cfg, model, x, tag, mech="value"):
    with torch.no_grad():
        got = model(x.clone())
    want = ref.log_likelihood(model, x.double().numpy())
    expect(tuple(got.shape) == want.shape, "shape", f"forward returned {tuple(got.shape)}, expected {want.shape}")
    g = got.double().numpy()
    expect(np.isfinite(g).all(), "non-finite", f"non-finite log-likelihood where the circuit value is finite ({tag})",
           want=want[~np.isfinite(g)][:3])
    ctx.tick(g.size)
    expect(close(g, want, 3e-4, 3e-5), mech, f"log-likelihood differs from the circuit by {maxdiff(g, want)} ({tag})",
           got=g[:3], want=want[:3], tag=tag)
    return want


def case(rng, ctx, combo, leaf, regime, xr):
    mk = {}
    if leaf == "mvn":
        k = int(rng.integers(2, 4))
        F = k * 2 ** combo["depth"] + int(rng.integers(0, 5))
        mk = dict(F=F, C=int(rng.integers(1, 3)), kwargs={"cardinality": k})
        combo = {**combo, "structure": "top-down"}
    cfg = M.make_cfg(rng, leaf=leaf, max_F=13, **combo, **mk)
    scale = {"mild": 1.0, "wild": 6.0, "extreme": 40.0}[regime]
    # leaf parameters stay where float32 is accurate (an ill-conditioned covariance or 1 - sigmoid(12) is not)
    model = M.build(cfg, rng, scale=scale, leaf_scale=min(scale, {"normal": 1.5, "mvn": 1.0}.get(leaf, 3.0)))
    with torch.no_grad():
        for name, p in model.named_parameters():
            if "leaf" in name and leaf in ("bernoulli", "binomial", "multi") and ("probs" in name or "logits" in name):
                p.clamp_(-7.0, 7.0)
            if combo["layer"] == "einsum" and name.endswith("logits") and "leaf" not in name:
                p.clamp_(-28.0, 28.0)  # smaller weights underflow in EinsumLayer: the known finding below
    n = int(rng.integers(1, 9))
    x = M.random_x(cfg, rng, n, spread=2.0)
    if M.domain_sizes(cfg) is None and xr == "tail":
        x = x * 25.0
    compare(ctx, cfg, model, x, f"{regime}/{xr}")
    if leaf != "mvn" and n > 1:
        xm = x.clone()
        miss = torch.tensor(rng.random((n, cfg.num_features)) < 0.4)
        xm = torch.where(miss.unsqueeze(1), torch.nan, xm)
        compare(ctx, cfg, model, xm, "missing", "value-missing")
    with torch.no_grad():
        a = model(x.clone())
        if cfg.num_channels == 1:
            b = model(x[:, 0].clone())
            expect(torch.equal(a, b), "input-rank", "2-D input gives a different value than 3-D")
        for h in range(2, cfg.num_features):
            if cfg.num_features % h == 0:
                b = model(x.view(n, cfg.num_channels, h, -1).clone())
                expect(torch.equal(a, b), "input-rank", "4-D input gives a different value than 3-D")
                x4 = x.view(n, cfg.num_channels, h, -1)
                wide = torch.zeros(n, cfg.num_channels, h, x4.shape[3] + 2)
                wide[..., 1:-1] = x4
                for name, y in (("channels-last", x4.contiguous(memory_format=torch.channels_last)), ("slice", wide[..., 1:-1]),
                                ("transposed", x4.transpose(2, 3).contiguous().transpose(2, 3)),
                                ("batch-last", x4.permute(1, 2, 3, 0).contiguous().permute(3, 0, 1, 2))):
                    expect(close(model(y).numpy(), a.numpy(), 1e-4, 1e-5), "input-layout", f"4-D input in {name} layout gives a different value")
                    ctx.tick(n)
                ctx.count("rank4")
                break
    ctx.seen(M.key(cfg) + regime + xr)


def deep(rng, ctx, j):
    """Many features: joint probabilities underflow float32 by hundreds of orders of magnitude."""
    combo = dict(structure=["top-down", "top-down", "top-down", "bottom-up"][j % 4], layer=M.LAYERS[j % 3],
                 R=1 + j % 3, depth=int(rng.integers(2, 5)))
    F = int(rng.integers(40, 120))
    leaf = ["normal", "binomial", "categorical"][(j // 2) % 3]
    kw = {"total_count": 255} if leaf == "binomial" else ({"num_bins": 64} if leaf == "categorical" else {})
    cfg = M.make_cfg(rng, leaf=leaf, F=F, kwargs=kw, C=int(rng.integers(1, 4)), **combo)
    model = M.build(cfg, rng, scale=2.0, leaf_scale=1.0)
    x = M.random_x(cfg, rng, 4, spread=10.0)
    want = compare(ctx, cfg, model, x, "deep", "value-underflow")
    ctx.count("underflowing_rows", int((want < -104).sum()))
    ctx.seen(M.key(cfg) + "deep")


def image(rng, ctx, j):
    """The sizes of the image experiments: up to 1024 features, deep trees, hundreds of rows."""
    combo = dict(structure=["top-down", "bottom-up"][j % 2], layer=M.LAYERS[(j // 2) % 3], R=[1, 4, 10][j % 3], depth=int(rng.integers(3, 10)),
                 S=int(rng.integers(2, 11)), I=int(rng.integers(2, 11)), K=[1, 10][(j // 3) % 2])
    F = [784, 256, 1024, 529][j % 4]
    combo["depth"] = min(combo["depth"], F.bit_length() - 1)
    leaf = ["normal", "bernoulli", "ratnormal", "categorical"][(j + j // 4) % 4]
    cfg = M.make_cfg(rng, leaf=leaf, F=F, C=[1, 3][(j // 2) % 2], **combo)
    model = M.build(cfg, rng, scale=2.0, leaf_scale=1.0)
    compare(ctx, cfg, model, M.random_x(cfg, rng, int(rng.choice([3, 130, 300])), spread=3.0), "image")
    ctx.seen(M.key(cfg) + "image")


def einsum_underflow(rng, ctx):
    """Known finding: EinsumLayer weighs in the linear domain, so a term whose weight underflows float32 is lost even
    where it is the largest one."""
    from simple_einet.layers.einsum import EinsumLayer

    layer = EinsumLayer(num_features=2, num_sums_in=2, num_sums_out=1).eval()
    with torch.no_grad():
        layer.logits.copy_(torch.tensor([200.0, 0.0, 0.0, 0.0]).view(layer.logits.shape))
        for left, want in ((-1.0, -2.0), (-300.0, -200.0)):
            x = torch.tensor([[left, 0.0], [left, 0.0]]).view(1, 2, 2, 1)
            got = float(layer(x))
            ctx.tick(1)
            expect(not (left < -100 and got == -float("inf")), "einsum-weight-underflow",
                   "EinsumLayer returned -inf where the value of the layer is -200")
            expect(abs(got - want) < 1e-3, "einsum-value", f"EinsumLayer returned {got}, expected {want}")


def check(ctx):
    ctx.run("einsum-weight-underflow", {}, einsum_underflow, ctx)
    combos = M.covering(True)
    leaves = ["normal", "categorical", "ratnormal", "binomial", "bernoulli", "multi", "mvn"]
    regimes = ["mild", "wild", "extreme"]
    i = 0
    for rep in range(ctx.n(1, 7)):
        for j, combo in enumerate(combos):
            leaf = leaves[(i + rep) % len(leaves)]
            if leaf == "mvn" and combo["structure"] == "bottom-up":
                leaf = "normal"
            regime = regimes[(i + j // 3) % 3]
            xr = ["body", "tail"][(i // 2) % 2]
            ctx.run(f"c-{rep}-{j}-{leaf}", {**combo, "leaf": leaf, "regime": regime, "x": xr}, case, ctx, combo, leaf,
                    regime, xr)
            i += 1
    for j in range(ctx.n(12, 60)):
        ctx.run(f"deep-{j}", {"deep": j}, deep, ctx, j)
    for j in range(ctx.n(8, 40)):
        ctx.run(f"image-{j}", {"image": j}, image, ctx, j)
