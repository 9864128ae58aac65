"""C16: dropout acts in training only, drops about a fraction p of the sum children and never kills a node."""
import copy

import numpy as np
import torch
from scipy import stats as st

from simple_einet.abstract_layers import AbstractSumLayer
from simple_einet.layers.einsum import EinsumLayer
from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2
from simple_einet.layers.mixing import MixingLayer
from simple_einet.layers.sum import SumLayer

from .. import models as M
from ..core import expect, close

LEVEL = "exploration"
RULE = ("one evaluation = one training-mode likelihood or decoded sum-node mask compared with the bounds of the property; "
        "distinct = distinct (configuration, dropout rate) and distinct masks decoded per layer type")
MIN_EVALS, MIN_DISTINCT = 5000, 150


def layer_masks(rng, ctx, kind, S, p, R, F):
    """Decode from the output of a layer which children each sum node kept: child j carries the value 2^j."""
    n_out = int(rng.integers(1, 3))
    if kind == "mixing":
        layer = MixingLayer(num_features=1, num_sums_in=S, num_sums_out=n_out, dropout=p)
    else:
        cls = {"sum": SumLayer, "linsum": LinsumLayer, "linsum2": LinsumLayer2, "einsum": EinsumLayer}[kind]
        layer = cls(num_features=F, num_sums_in=S, num_sums_out=n_out, num_repetitions=R, dropout=p)
    with torch.no_grad():
        layer.logits.zero_()  # uniform weights
    N = ctx.n(150, 600)
    bits = torch.tensor([float(2 ** j) for j in range(S)])
    if kind == "mixing":
        x = bits.log().view(1, 1, 1, S).repeat(N, 1, n_out, 1)
    else:
        x = bits.log().view(1, 1, S, 1).repeat(N, F, 1, R)
        if kind == "einsum":
            x[:, 1::2] = (2.0 ** (S * torch.arange(S).float())).log().view(1, 1, S, 1)
        elif kind in ("linsum", "linsum2"):
            x[:, 1::2] = 0.0
    x0 = x.clone()
    layer.eval()
    with torch.no_grad():
        base = [layer(x.clone()) for _ in range(2)]
        expect(torch.equal(*base), "eval-not-deterministic", "evaluation mode output is random")
        layer.train()
        x_in = x.clone()
        out = layer(x_in)
    expect(torch.equal(x_in, x0), "input-modified", f"{kind} layer with dropout modified its input")
    expect(bool(torch.isfinite(out).all()), "node-killed", f"{kind} layer: training output not finite",
           nonfinite=int((~torch.isfinite(out)).sum()))
    expect(out.shape == base[0].shape, "shape", "training output shape differs")
    o = out.double().exp().numpy()
    b = base[0].double().exp().numpy()
    # undo the normalisation: base is the sum over all children
    if kind == "einsum":
        full = (2 ** S - 1) * sum(2 ** (S * j) for j in range(S))
    else:
        full = 2 ** S - 1
    if kind == "linsum2":  # the right sums (all children 1) shrink as well: decode the left sums only with unit right
        return linsum2_masks(ctx, layer, S, p, R, F, n_out)
    v = o / b * full
    r = np.round(v)
    expect(np.abs(v - r).max() < 0.02 * (1 if kind != "einsum" else 5), "not-a-subset", f"{kind}: output is no subset sum",
           worst=float(np.abs(v - r).max()))
    ctx.tick(r.size)
    if kind == "einsum":
        r = r.astype(np.int64)
        digits = np.stack([(r >> (S * j)) & (2 ** S - 1) for j in range(S)], -1)  # per right child: the left subset or 0
        left = digits.max(-1)
        right = (digits > 0)
        expect(bool((((digits == left[..., None]) | (digits == 0)).all())), "not-a-product-subset", "einsum mask is no product of subsets")
        kept_l = np.stack([(left >> j) & 1 for j in range(S)], -1)
        kept = np.concatenate([kept_l.reshape(-1, S), right.reshape(-1, S).astype(np.int64)])
        # every output sum and every product shares the children masks: take one output node
        kl = kept_l[:, :, 0].reshape(-1, S)
        kr = right[:, :, 0].reshape(-1, S).astype(np.int64)
        kept_indep = np.concatenate([kl, kr])
    else:
        r = r.astype(np.int64)
        kept = np.stack([(r >> j) & 1 for j in range(S)], -1)
        kept_indep = kept.reshape(-1, S) if kind == "mixing" else kept[:, :, 0].reshape(-1, S)
    judge(ctx, kind, kept_indep, S, p)


def linsum2_masks(ctx, layer, S, p, R, F, n_out):
    """linsum2: sums first, then the product; the product of two subset sums is decoded with base-2^S digits."""
    N = ctx.n(150, 600)
    x = torch.zeros(N, F, S, R)
    x[:, 0::2] = (2.0 ** torch.arange(S).float()).log().view(1, 1, S, 1)
    x[:, 1::2] = (2.0 ** (S * torch.arange(S).float())).log().view(1, 1, S, 1)
    with torch.no_grad():
        layer.eval()
        b = layer(x.clone()).double().exp().numpy()
        layer.train()
        o = layer(x.clone()).double().exp().numpy()
    pairs = F // 2
    full = (2 ** S - 1) * sum(2 ** (S * j) for j in range(S))
    v = (o / b * full)[:, :pairs]
    r = np.round(v)
    expect(np.abs(v - r).max() < 0.1, "not-a-subset", "linsum2: output is no product of subset sums",
           worst=float(np.abs(v - r).max()))
    ctx.tick(r.size)
    r = r.astype(np.int64)
    digits = np.stack([(r >> (S * j)) & (2 ** S - 1) for j in range(S)], -1)
    left = digits.max(-1)
    kl = np.stack([(left >> j) & 1 for j in range(S)], -1)[:, :, 0].reshape(-1, S)
    kr = (digits > 0)[:, :, 0].reshape(-1, S).astype(np.int64)
    judge(ctx, "linsum2", np.concatenate([kl, kr]), S, p)


def judge(ctx, kind, kept, S, p):
    n = kept.shape[0]
    expect(bool((kept.sum(1) >= 1).all()), "node-killed", f"{kind}: a sum node lost all its children")
    for row in np.unique(kept, axis=0):
        ctx.seen(f"{kind}-S{S}-" + "".join(map(str, row)))
    # P(child dropped | not all dropped)
    q = (p - p ** S) / (1 - p ** S)
    dropped = n * S - kept.sum()
    if S == 1:
        expect(dropped == 0, "node-killed", "single child dropped")
        return
    per_child = n - kept.sum(0)
    for j in range(S):
        pv = st.binomtest(int(per_child[j]), n, q).pvalue
        expect(pv > 1e-9, "dropout-rate", f"{kind}: child {j} dropped {per_child[j]} of {n} times, expected fraction {q:.3f}",
               pvalue=pv)
    # children are dropped independently of each other (up to the at-least-one rule): compare the mask distribution
    codes = (kept * (2 ** np.arange(S))).sum(1)
    probs = np.array([p ** (S - bin(c).count("1")) * (1 - p) ** bin(c).count("1") for c in range(1, 2 ** S)])
    probs /= probs.sum()
    cnt = np.bincount(codes, minlength=2 ** S)[1:]
    exp = probs * n
    big = exp >= 5
    if big.sum() >= 2:
        o = np.append(cnt[big], cnt[~big].sum())
        e = np.append(exp[big], exp[~big].sum())
        if e[-1] == 0:
            o, e = o[:-1], e[:-1]
        chi = ((o - e) ** 2 / e).sum()
        pv = st.chi2.sf(chi, len(o) - 1)
        expect(pv > 1e-9, "dropout-joint", f"{kind}: masks of the children are not independent draws", pvalue=pv)
    ctx.count(f"masks_{kind}", n)


def visible(layer, a):
    """Number of independent sum-node evaluations in which a dropped dominant child must visibly lower the output."""
    lw = layer.logits.detach()
    if isinstance(layer, MixingLayer):  # a [N, D, O, S], weights [D, O, S]
        t = (a + lw.log_softmax(2)).movedim(3, -1)[:, :, 0]
    elif isinstance(layer, EinsumLayer):  # a [N, D, S, R], weights [P, O, R, S, S]
        left, right = a[:, 0::2].movedim(2, 3), a[:, 1::2].movedim(2, 3)
        w = lw.flatten(3).log_softmax(3).view_as(lw)[:, 0]
        t = (left[..., :, None] + right[..., None, :] + w).logsumexp(-1)
    else:  # a [N, D, S, R], weights [D or P, S, O, R]
        w = lw.log_softmax(1)[:, :, 0]
        if isinstance(layer, LinsumLayer):
            left, right = a[:, 0::2], a[:, 1::2]
            n = min(left.shape[1], right.shape[1])
            a, w = left[:, :n] + right[:, :n], w[:n]
        t = (a + w).movedim(2, -1)
    if t.shape[-1] < 2:
        return 0
    top = t.topk(2, -1).values
    return int(((top[..., 0] - top[..., 1] < 3) & (top[..., 0].abs() < 1e4)).sum())


def model_case(rng, ctx, combo, leaf, p):
    F = 2 ** combo["depth"] * 2 if leaf == "mvn" else None
    cfg = M.make_cfg(rng, leaf=leaf, max_F=8, F=F, dropout=p, **combo)
    m = M.build(cfg, rng, scale=float(rng.choice([0.3, 1.5])))
    from simple_einet.einet import Einet

    ref = Einet(M.make_cfg(rng, leaf=leaf, structure=combo["structure"], layer=combo["layer"], R=combo["R"], K=combo["K"],
                           depth=combo["depth"], F=cfg.num_features, C=cfg.num_channels, S=cfg.num_sums, I=cfg.num_leaves,
                           kwargs=cfg.leaf_kwargs))
    expect(ref.config.dropout == 0.0, "harness", "reference has dropout")
    sd = {k: v for k, v in m.state_dict().items() if not k.endswith("dropout")}
    r = ref.load_state_dict(sd, strict=False)
    expect(not r.unexpected_keys and all(k.endswith("dropout") for k in r.missing_keys), "state-dict-keys",
           f"parameters differ between a dropout and a dropout-free model: {r}")
    ref.eval()
    x = M.random_x(cfg, rng, 6)
    if leaf != "mvn" and rng.random() < 0.3:
        x[torch.tensor(rng.random(x.shape) < 0.3)] = torch.nan
    with torch.no_grad():
        base = ref(x.clone())
        for _ in range(2):
            m.eval()
            got = m(x.clone())
            ctx.tick()
            expect(torch.equal(got, base), "eval-dropout-active", "evaluation likelihood differs from the dropout-free model",
                   got=got.flatten()[:4], want=base.flatten()[:4])
        if combo["K"] > 1:
            ctx.tick()
            expect(torch.equal(m.posterior(x.clone()), ref.posterior(x.clone())), "eval-dropout-active",
                   "evaluation posterior differs from the dropout-free model")
        if leaf != "mvn":
            ev = x.clone()
            ev[:, :, 0] = torch.nan
            ctx.tick(2)
            expect(torch.equal(m.mpe(evidence=ev), ref.mpe(evidence=ev)), "eval-dropout-active", "MPE differs")
            expect(torch.equal(m.sample(evidence=ev, seed=3), ref.sample(evidence=ev, seed=3)), "eval-dropout-active",
                   "conditional samples differ")
        ctx.tick()
        expect(torch.equal(m.sample(num_samples=4, seed=3), ref.sample(num_samples=4, seed=3)), "eval-dropout-active",
               "samples differ from the dropout-free model")
        # training draws
        m.train()
        reps = ctx.n(12, 60)
        moved = 0
        for _ in range(reps):
            y = m(x.clone())
            ctx.tick(y.numel())
            expect(y.shape == base.shape, "shape", "shape of training likelihoods")
            expect(bool(torch.isfinite(y[torch.isfinite(base)]).all()), "train-ll-not-finite",
                   f"training log-likelihood not finite with dropout {p}", y=y.flatten()[:6])
            over = (y - base).max()
            expect(float(over) <= 1e-3 + 1e-4 * float(base.abs().max()), "train-ll-above-eval",
                   f"dropout raised a likelihood by {float(over):.4g}")
            moved += int((y < base - 1e-5).sum())
            ctx.count("train_draws", y.numel())
        ctx.count("train_draws_lowered", moved)
        # children counts of the sum layers (the merging root sum of bottom-up structures is documented without dropout)
        n_children = max(cfg.num_leaves, cfg.num_sums if combo["depth"] >= 2 else 1, combo["R"])
        if p >= 0.3 and n_children >= 3 and not torch.isnan(x).any(dim=1).all():
            expect(moved > 0, "dropout-inert", f"no training likelihood of {reps} passes was lowered by dropout {p}")
        # every sum layer of the circuit takes part: its output on the input it was given, with and without dropout
        layers = [(n, l) for n, l in m.named_modules() if isinstance(l, AbstractSumLayer) and "_class_sampling_root" not in n]
        if combo["structure"] == "bottom-up":  # the merging root sum of bottom-up structures is documented without dropout
            root = [l for l in m.layers if isinstance(l, SumLayer)][-1]
            layers = [(n, l) for n, l in layers if l is not root]
        seen = {n: [] for n, _ in layers}
        hooks = [l.register_forward_hook(lambda mod, a, out, n=n: seen[n].append((a[0].clone(), out.clone()))) for n, l in layers]
        try:
            for _ in range(3):
                m(x.repeat(20, 1, 1))
        finally:
            for h in hooks:
                h.remove()
        m.eval()
        for n, l in layers:
            expect(len(seen[n]) == 3, "layer-not-used", f"sum layer {n} evaluated {len(seen[n])} times in 3 passes")
            low = entries = 0
            for a, out in seen[n]:
                want = l(a)
                fin = torch.isfinite(want)
                ctx.tick(out.numel())
                over = (out - want)[fin]
                if over.numel():
                    expect(float(over.max()) <= 1e-3 + 1e-4 * float(want[fin].abs().max()), "train-ll-above-eval",
                           f"dropout raised the output of {n} by {float(over.max()):.4g}")
                low += int((over < -1e-5).sum())
                # dropped children far below the kept ones are invisible: count the nodes whose children are comparable
                entries += int(fin.sum())
            # children with comparable values: judged where a single dropped child must be visible
            vis = sum(visible(l, a) for a, _ in seen[n])
            if vis * p / (1 + p) >= 60:
                expect(low > 0, "dropout-inert", f"none of {entries} outputs of sum layer {n} ({type(l).__name__}) was lowered by dropout {p}")
                ctx.count("layers_judged")
        m.eval()
        got = m(x.clone())
        ctx.tick()
        expect(torch.equal(got, base), "eval-dropout-active", "likelihood differs after going back to evaluation mode")
    # gradients
    m.train()
    m.zero_grad()
    y = m(x.clone())
    fin = torch.isfinite(base).all()
    if fin:
        y.mean().backward()
        for n, q in m.named_parameters():
            if q.grad is not None:
                ctx.tick()
                expect(bool(torch.isfinite(q.grad).all()), "train-grad-not-finite", f"gradient of {n} not finite with dropout")
    # a few optimiser steps keep the model valid
    if leaf in ("normal", "bernoulli") and fin:
        M.train_steps(m, x, steps=3)
        with torch.no_grad():
            y = m(x.clone())
        expect(bool(torch.isfinite(y).all()), "train-invalid", "non-finite likelihood after training with dropout")
    ctx.seen(M.key(cfg) + str(p))


def check(ctx):
    for kind in ["sum", "linsum", "linsum2", "einsum", "mixing"]:
        for S in ([1, 2, 3] if kind in ("einsum", "linsum2") else [1, 2, 3, 5]):
            for p in [0.05, 0.3, 0.5, 0.8]:
                for R in ([1, 3] if kind != "mixing" else [1]):
                    for F in ([2, 4] if kind in ("einsum", "linsum2") else [1, 3, 4] if kind == "sum" else
                              [1] if kind == "mixing" else [2, 4]):
                        ctx.run(f"mask-{kind}-{S}-{p}-{R}-{F}", dict(kind=kind, S=S, p=p, R=R, F=F), layer_masks, ctx, kind, S,
                                p, R, F)
    leaves = ["normal", "categorical", "bernoulli", "binomial", "ratnormal", "multi", "mvn"]
    for rep in range(ctx.n(2, 12)):
        for j, combo in enumerate(M.covering(ctx.thorough)):
            leaf = leaves[(j + 3 * rep + ctx.seed) % 7]
            if leaf == "mvn" and combo["structure"] == "bottom-up":
                leaf = "normal"
            p = [0.1, 0.3, 0.5, 0.9][(j + rep) % 4]
            ctx.run(f"model-{rep}-{j}-{leaf}-{p}", {**combo, "leaf": leaf, "p": p}, model_case, ctx, combo, leaf, p)
