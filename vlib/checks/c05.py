"""C05: conditional samples follow the exact conditional of the model's own joint."""
import numpy as np
import torch
from scipy import stats as st

from .. import models as M
from .. import ref
from ..core import Violation, expect
from ..stats import P1, P2, gof_p, two_sample_p
from .c04 import rosenblatt

LEVEL = "exploration"
RULE = ("one evaluation = one conditionally sampled row, judged per distinct evidence row against the conditional "
        "obtained by enumerating the model's joint (or by Rosenblatt transform for continuous leaves); distinct = "
        "distinct (configuration, missing pattern, query form)")
MIN_EVALS, MIN_DISTINCT = 100000, 80
ASSUMPTIONS = ("class prior uniform, as in posterior()", "differentiable Binomial uses a documented relaxation: not judged")


def discrete(rng, ctx, combo, leaf, diff, form):
    for _ in range(60):
        cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
        if M.n_states(cfg) <= 300:
            break
    else:
        cfg = M.make_cfg(rng, leaf="bernoulli", F=max(2, 2 ** combo["depth"]), C=1, **combo)
    model = M.build(cfg, rng, scale=1.8, leaf_scale=1.8)
    p = M.joint_table(model, cfg).mean(0)
    C, F = cfg.num_channels, cfg.num_features
    ds = np.array(M.domain_sizes(cfg) * C)
    states = M.enumerate_domain(cfg).view(-1, C * F).numpy().astype(int)
    B = 4
    # evidence rows drawn uniformly from the domain: includes improbable evidence, where the posterior matters most
    ev = M.random_x(cfg, rng, B)
    flat = ev.view(B, -1).numpy().astype(int)
    if form == "scopes":
        nm = int(rng.integers(1, F)) if F > 1 else 1
        feats = [int(i) for i in rng.permutation(F)[:nm]]
        fm = np.zeros(F, bool)
        fm[feats] = True
        miss = np.tile(np.tile(fm, C), (B, 1))
    else:
        fm = rng.random((B, F)) < 0.5
        for b in range(B):  # every row misses something; sometimes keeps nothing
            if not fm[b].any():
                fm[b, rng.integers(F)] = True
        if not fm.all(1).any() and rng.random() < 0.2:
            fm[0] = True
        miss = np.tile(fm, (1, C)).reshape(B, C * F)
        if form == "entry":
            miss = rng.random((B, C * F)) < 0.5
            miss[:, rng.integers(C * F)] = True
    cond = []
    for b in range(B):
        ok = (states[:, ~miss[b]] == flat[b][~miss[b]]).all(1)
        q = np.where(ok, p, 0.0)
        cond.append(q / q.sum())

    def draw(n):
        e = ev.view(B, -1).clone()
        arg = None
        if form == "scopes":
            arg = feats
        else:
            e[torch.tensor(miss)] = torch.nan
        rows = torch.arange(B).repeat(n)  # interleaved: neighbours in the batch have different evidence
        x = model.sample(evidence=e.view(B, C, F)[rows].clone(), marginalized_scopes=arg, is_differentiable=diff).detach()
        expect(tuple(x.shape) == (n * B, C, F), "wrong-shape", f"shape {tuple(x.shape)}")
        ctx.tick(n * B)
        return M.state_index(cfg, x).reshape(n, B)

    n = 1500 if not ctx.thorough else 5000
    s = draw(n)
    ps = [gof_p(s[:, b], cond[b]) for b in range(B)]
    if min(ps) < P1:
        s2 = draw(3 * n)
        p2 = [gof_p(s2[:, b], cond[b]) for b in range(B)]
        b = int(np.argmin(p2))
        if p2[b] < P2:
            f = np.bincount(s2[:, b], minlength=len(p)) / len(s2)
            w = np.argsort(-np.abs(f - cond[b]))[:4]
            raise Violation("conditional" + ("-diff" if diff else "") + ("-multiclass" if cfg.num_classes > 1 else ""),
                            f"conditional samples deviate: p={p2[b]:.1e}; observed/expected "
                            f"{[(round(float(f[i]), 4), round(float(cond[b][i]), 4)) for i in w]}",
                            evidence=np.where(miss[b], np.nan, flat[b]), config=M.desc(cfg), form=form)
    ctx.seen(M.key(cfg) + form + str(diff) + str(miss.astype(int).tolist()))


def continuous(rng, ctx, combo, leaf, diff):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=5, C=1, **combo)
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.5)
    with torch.no_grad():
        for nm, p in model.named_parameters():
            if nm.endswith("logvar"):
                p.clamp_(-2.2, 1.2)
    F = cfg.num_features
    k = int(rng.integers(1, min(3, F)))
    miss = np.zeros(F, bool)
    miss[rng.permutation(F)[:k]] = True
    # an ordinary or an improbable row, every other row of the batch being a neighbour of another magnitude
    e = M.random_x(cfg, rng, 1, spread=1.5) * float(rng.choice([1.0, 1.0, 6.0]))
    other = M.random_x(cfg, rng, 1, spread=1.0)

    def test(n):
        ee = torch.cat([e, other])
        ee[:, :, torch.tensor(miss)] = torch.nan
        x = model.sample(evidence=ee.repeat(n, 1, 1), is_differentiable=diff).detach()
        expect(tuple(x.shape) == (2 * n, 1, F), "wrong-shape", f"shape {tuple(x.shape)}")
        x = x[::2]
        expect(bool(torch.isfinite(x).all()), "non-finite", "non-finite sample")
        ctx.tick(n)
        us = rosenblatt(model, cfg, x, given=~miss)
        return min(st.kstest(u, "uniform").pvalue for u in us.values())

    n = 500
    if test(n) < P1 and (q := test(3 * n)) < P2:
        raise Violation("conditional-continuous" + ("-diff" if diff else ""), f"conditional samples deviate, p={q:.1e}",
                        config=M.desc(cfg))
    ctx.seen(M.key(cfg) + f"c{diff}")


def large(rng, ctx, j, diff):
    """Image-sized models: conditional samples of two different evidence rows (interleaved in one batch) against an
    independent conditional ancestral sampler."""
    cfg = M.large_cfg(rng, j, leaf="categorical" if diff else None)
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.0)
    C, F = cfg.num_channels, cfg.num_features
    # evidence near the model's own samples, else the posterior is a point mass and hides most weights
    ev = torch.tensor(ref.sample(model, 2, rng), dtype=torch.float32)
    keep = int(rng.choice([2, 4, F // 2]))
    feats = [int(i) for i in rng.permutation(F)[keep:]]
    form = "scopes" if j % 3 == 1 else "nan"

    def test(n):
        e = ev.repeat(n, 1, 1)
        if form == "nan":
            e[:, :, feats] = torch.nan
        x = model.sample(evidence=e, marginalized_scopes=feats if form == "scopes" else None, is_differentiable=diff).detach()
        expect(tuple(x.shape) == (2 * n, C, F), "wrong-shape", f"shape {tuple(x.shape)}")
        b = M.in_domain(cfg, x.round() if diff and bool(((x - x.round()).abs() < 1e-4).all()) else x)
        expect(b is None, "outside-support", f"conditional sample: {b}", config=M.desc(cfg))
        ctx.tick(2 * n)
        ps = []
        for b in range(2):
            q = ev[b].double().numpy()
            q[:, feats] = np.nan
            ps.append(two_sample_p(x[b::2].double().numpy(), ref.sample(model, n, rng, x=q), rng))
        return min(ps)

    if test(700) < P1 and (q := test(1800)) < P2:
        raise Violation("conditional-large" + ("-diff" if diff else ""), f"conditional samples of an image-sized model deviate, p={q:.1e}",
                        config=M.desc(cfg), form=form, kept=keep)
    ctx.seen(M.key(cfg) + f"large{diff}{keep}{form}")


def check(ctx):
    for j in range(ctx.n(10, 48)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j, False)
        if j % 4 == 3:
            ctx.run(f"large-diff-{j}", {"large": j}, large, ctx, j, True)
    combos = M.covering(ctx.thorough)
    leaves = ["categorical", "bernoulli", "binomial", "multi"]
    forms = ["nan", "entry", "scopes", "nan"]
    i = 0
    for rep in range(ctx.n(2, 6)):
        for j, combo in enumerate(combos):
            leaf = leaves[(i + rep) % 4]
            form = forms[(i // 2 + rep) % 4]
            ctx.run(f"disc-{rep}-{j}-{leaf}-{form}", {**combo, "leaf": leaf, "form": form}, discrete, ctx, combo, leaf,
                    False, form)
            dl = ["categorical", "bernoulli"][(i + rep) % 2]
            form = forms[(i + rep + 1) % 4]
            ctx.run(f"diff-{rep}-{j}-{dl}-{form}", {**combo, "leaf": dl, "form": form, "diff": True}, discrete, ctx, combo,
                    dl, True, form)
            i += 1
    for j, combo in enumerate(combos):
        if ctx.thorough or j % 2 == ctx.seed % 2:
            ctx.run(f"cont-{j}", {**combo}, continuous, ctx, combo, ["normal", "ratnormal"][j % 2], j % 4 == 3)
