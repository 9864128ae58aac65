"""C15: the leaf cache is transparent: history monitor with a shadow map index -> input that filled it."""
import copy

import torch

from .. import models as M
from ..core import expect

LEVEL = "exploration"
RULE = ("one evaluation = one forward pass of a history compared with a cache-free copy of the model evaluated on the input "
        "the shadow map predicts; distinct = distinct (configuration, kind of pass)")
MIN_EVALS, MIN_DISTINCT = 1000, 100


def expected(model, x, marg):
    m = copy.deepcopy(model)
    m.reset_cache()
    return m(x.clone(), marginalized_scopes=marg).detach()


def case(rng, ctx, combo, leaf, steps):
    F = 2 ** combo["depth"] * 2 if leaf == "mvn" else None
    cfg = M.make_cfg(rng, leaf=leaf, max_F=8, F=F, **combo)
    models = [M.build(cfg, rng), M.build(cfg, rng)]
    shadow = [dict(), dict()]
    indices = [0, 1, -1, -2, 2**61 - 1, "train", (0, 1), True] if rng.random() < 0.3 else [0, 1, 2, 3]
    held = []  # outputs returned earlier must not change
    with torch.set_grad_enabled(False):
        for step in range(steps):
            k = int(rng.random() < 0.3)
            model, sh = models[k], shadow[k]
            op = rng.choice(["cached", "plain", "reset", "weights", "sample", "user", "other"],
                            p=[.55, .12, .04, .11, .08, .05, .05])
            x = M.random_x(cfg, rng, int(rng.integers(1, 5)))
            marg = None
            if leaf != "mvn" and rng.random() < 0.3:
                if rng.random() < 0.5:
                    x[torch.tensor(rng.random(x.shape) < 0.4)] = torch.nan
                else:
                    marg = torch.tensor(sorted(rng.choice(cfg.num_features, size=int(rng.integers(1, cfg.num_features)),
                                                          replace=False).tolist()))
            kind = str(op)
            if op == "cached":
                idx = indices[int(rng.integers(len(indices)))]
                hit = idx in sh
                src = sh[idx] if hit else (x.clone(), marg)
                want = expected(model, *src)
                x_in = x.clone()
                got = model(x_in, marginalized_scopes=marg, cache_index=idx)
                sh.setdefault(idx, src)
                ctx.tick()
                kind = "hit" if hit else "fill"
                ctx.count(kind)
                expect(got.shape == want.shape and torch.equal(got, want), f"cache-{kind}",
                       f"step {step}: forward with index {idx!r} ({kind}) is not the value of the filling input",
                       got=got.flatten()[:4], want=want.flatten()[:4])
                x_in.fill_(0.0)  # the caller reuses its buffer
                held.append((got, got.clone()))
            elif op == "plain":
                want = expected(model, x, marg)
                got = model(x.clone(), marginalized_scopes=marg)
                ctx.tick()
                expect(torch.equal(got, want), "plain-pass-uses-cache",
                       f"step {step}: forward without an index differs from a fresh model",
                       got=got.flatten()[:4], want=want.flatten()[:4])
            elif op == "reset":
                model.reset_cache()
                sh.clear()
            elif op == "weights":
                for n, p in model.named_parameters():
                    if "leaf" not in n and p.requires_grad:
                        p.add_(torch.tensor(rng.normal(0, 0.7, size=tuple(p.shape)), dtype=p.dtype))
            elif op == "sample":
                model.sample(num_samples=2)
                if leaf != "mvn":
                    ev = x.clone()
                    ev[:, :, :1] = torch.nan
                    model.sample(evidence=ev)
                    model.mpe(evidence=ev)
            elif op == "user":
                if held:
                    held[int(rng.integers(len(held)))][0].fill_(123.0)
                    held = [h for h in held if not (h[0] == 123.0).all()]
            elif op == "other":
                model.train() if rng.random() < 0.5 else model.eval()
            for got, snap in held[-6:]:
                expect(torch.equal(got, snap), "earlier-result-changed", f"step {step} ({kind}) altered an earlier result")
            ctx.seen(M.key(cfg) + kind)
            ctx.count(f"op_{op}")


@torch.no_grad()
def many(rng, ctx, combo, leaf):
    """Hundreds of indices, as when every batch of an epoch has its own: all stay filled, in any order of use."""
    cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
    m = M.build(cfg, rng)
    fresh = copy.deepcopy(m)
    n = int(rng.choice([40, 150, 400]))
    xs = [M.random_x(cfg, rng, 1 + i % 3) for i in range(n - 1)] + [M.random_x(cfg, rng, 1300)]
    names = [int(v) for v in rng.permutation(10 * n)[:n]]
    want = [fresh(x.clone()) for x in xs]
    for i in range(n):
        expect(torch.equal(m(xs[i].clone(), cache_index=names[i]), want[i]), "cache-fill", f"index {i} of {n} returns something else than its own input")
    for i in rng.permutation(n):
        other = M.random_x(cfg, rng, 2)
        ctx.tick()
        got = m(other, cache_index=names[i])
        expect(got.shape == want[i].shape and torch.equal(got, want[i]), "cache-hit", f"index {names[i]}, filled as number {i} of {n}, no longer returns its value")
    m.reset_cache()
    for i in (0, n // 2, n - 1):
        x = M.random_x(cfg, rng, 2)
        expect(torch.equal(m(x.clone(), cache_index=names[i]), fresh(x)), "cache-reset", "an index survives the reset")
        ctx.tick()
    ctx.seen(M.key(cfg) + f"many{n}")


def gradients(rng, ctx, combo):
    """A filling pass and a plain pass have the same gradients; a pass on the filled index follows changed sum weights."""
    cfg = M.make_cfg(rng, leaf="normal", max_F=6, **combo)
    a = M.build(cfg, rng)
    b = copy.deepcopy(a)
    x = M.random_x(cfg, rng, 4)
    a(x.clone(), cache_index=0).sum().backward()
    b(x.clone()).sum().backward()
    for (n, p), (_, q) in zip(a.named_parameters(), b.named_parameters()):
        ctx.tick()
        expect((p.grad is None) == (q.grad is None) and (p.grad is None or torch.equal(p.grad, q.grad)), "cache-gradient",
               f"gradient of {n} differs between cached and plain pass")
    ctx.seen(M.key(cfg) + "grad")


def check(ctx):
    leaves = ["normal", "categorical", "bernoulli", "binomial", "ratnormal", "multi", "mvn"]
    for rep in range(ctx.n(1, 6)):
        for j, combo in enumerate(M.covering(ctx.thorough)):
            leaf = leaves[(j + rep + ctx.seed) % 7]
            if leaf == "mvn" and combo["structure"] == "bottom-up":
                leaf = "normal"
            ctx.run(f"hist-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, case, ctx, combo, leaf, ctx.n(60, 150))
            ctx.run(f"grad-{rep}-{j}", combo, gradients, ctx, combo)
            if j % 3 == 0:
                ctx.run(f"many-{rep}-{j}", combo, many, ctx, combo, leaf if leaf != "mvn" else "normal")
    if not ctx.counters["hit"] or not ctx.counters["fill"]:
        ctx.incon.append(("reach", "no cache hit or fill observed"))
