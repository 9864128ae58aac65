"""C09: the class posterior is Bayes' rule with a uniform prior."""
import numpy as np
import torch
from scipy.special import log_softmax

from .. import models as M
from .. import ref
from ..core import Violation, close, expect, maxdiff

LEVEL = "exploration"
RULE = ("one evaluation = one posterior row compared with Bayes' rule on the model's own likelihoods and on the float64 "
        "reference circuit, plus its normalisation; distinct = distinct (configuration, input kind)")
MIN_EVALS, MIN_DISTINCT = 2000, 80


def judge(ctx, cfg, post, ll, what, refll=None):
    expect(tuple(post.shape) == tuple(ll.shape), "shape", f"posterior shape {tuple(post.shape)} for {tuple(ll.shape)}")
    p, l = post.detach().double().numpy(), ll.detach().double().numpy()
    ctx.tick(len(p))
    expect(np.isfinite(p).all(), "not-finite", f"posterior of {what} input not finite: {p[~np.isfinite(p).all(1)][:2]}",
           ll=l[~np.isfinite(p).all(1)][:2])
    eps = np.finfo(np.float32).eps
    tol = 1e-4 + 8 * eps * np.abs(l).max(1)
    norm = np.abs(np.logaddexp.reduce(p, axis=1))
    expect((norm <= tol).all(), "not-normalised", f"posterior of {what} input sums to exp({norm.max()})",
           row=p[norm.argmax()], ll=l[norm.argmax()])
    want = log_softmax(l, axis=1)
    err = np.abs(p - want)
    rel = tol[:, None] + 1e-4 * np.abs(want)
    expect((err <= rel).all(), "not-bayes", f"posterior of {what} input differs from Bayes' rule by {err.max()}",
           got=p[(err > rel).any(1)][:1], want=want[(err > rel).any(1)][:1])
    gap = np.sort(l, 1)
    clear = gap[:, -1] - gap[:, -2] > 2 * tol
    expect((p.argmax(1) == l.argmax(1))[clear].all(), "argmax", f"most probable class is not the most likely one ({what})")
    ctx.count("clear_argmax", int(clear.sum()))
    if refll is not None:
        w = log_softmax(refll, axis=1)
        t = (2e-3 + 40 * eps * np.abs(refll).max(1))[:, None] + 2e-3 * np.abs(w)
        expect((np.abs(p - w) <= t).all(), "not-bayes-circuit",
               f"posterior of {what} input differs from the circuit's by {np.abs(p - w).max()}")


def case(rng, ctx, combo, leaf):
    K = int(rng.choice([2, 2, 3, 5, 10]))
    F = 2 ** combo["depth"] * 2 + int(rng.integers(0, 3)) if leaf == "mvn" else None
    cfg = M.make_cfg(rng, leaf=leaf, max_F=9, F=F, **{**combo, "K": K})
    model = M.build(cfg, rng, scale=float(rng.choice([1.0, 4.0])))
    n = int(rng.choice([1, K, 12]))
    C, F = cfg.num_channels, cfg.num_features
    x = M.random_x(cfg, rng, n, spread=1.0)
    kinds = [("ordinary", x)]
    if leaf in ("normal", "ratnormal"):
        kinds += [("large", x * 1e2), ("huge", x * 1e4)]
    if leaf != "mvn":
        xm = x.clone()
        xm[torch.tensor(rng.random(x.shape) < 0.5)] = torch.nan
        xa = x.clone()
        xa[0] = torch.nan
        kinds += [("missing", xm), ("all-missing", xa)]
        if leaf in ("normal",):
            xh = x * 3e3
            xh[torch.tensor(rng.random(x.shape) < 0.5)] = torch.nan
            kinds += [("missing-huge", xh)]
    for what, v in kinds:
        with torch.no_grad():
            ll = model(v.clone())
            post = model.posterior(v.clone())
        r = ref.log_likelihood(model, v.double().numpy()) if what in ("ordinary", "missing", "large", "all-missing") else None
        judge(ctx, cfg, post, ll, what, r)
        if what == "all-missing":
            expect(np.abs(post[0].exp().numpy() - 1 / K).max() < 1e-3, "prior-not-uniform",
                   f"posterior without any evidence is {post[0].exp().tolist()}, expected uniform")
        if what == "ordinary":
            if C == 1:
                expect(torch.equal(model.posterior(v.view(n, F)), post), "layout", "2-D input has another posterior")
            v4 = v.view(n, C, 1, F)
            expect(torch.equal(model.posterior(v4), post), "layout", "4-D input has another posterior")
        ctx.seen(M.key(cfg) + what)


def underflow(rng, ctx, j):
    """Many features: every class likelihood underflows float32 (and float64)."""
    combo = M.covering()[j % len(M.covering())]
    cfg = M.make_cfg(rng, leaf=["bernoulli", "normal", "categorical"][j % 3], F=900, S=3, I=3, C=1, **{**combo, "K": 4, "depth": 2})
    model = M.build(cfg, rng)
    x = M.random_x(cfg, rng, 6)
    with torch.no_grad():
        ll, post = model(x), model.posterior(x)
    expect(float(ll.max()) < -150, "harness", "no underflow reached")
    judge(ctx, cfg, post, ll, "underflow", ref.log_likelihood(model, x.double().numpy()))
    ctx.seen(M.key(cfg) + "underflow")


def function(rng, ctx):
    """The module-level function on raw log-likelihood rows."""
    from simple_einet.einet import posterior

    for K in (2, 3, 7, 1000):
        for off in (0.0, -1e3, -1e5, 1e3):
            ll = torch.tensor(rng.normal(0, 5, size=(20, K)) + off, dtype=torch.float32)
            judge(ctx, None, posterior(ll.clone(), K), ll, f"raw{off}")
        ll = torch.tensor(rng.normal(0, 5, size=(20, K)), dtype=torch.float32)
        ll[:, 0] = -torch.inf  # impossible class
        p = posterior(ll.clone(), K).double().numpy()
        want = log_softmax(ll.double().numpy()[:, 1:], axis=1)
        expect((p[:, 0] == -np.inf).all() and close(p[:, 1:], want, 1e-4), "impossible-class", f"{p[0][:3]}")
        ctx.tick(20)
        ctx.seen(f"raw{K}")


def refuse(rng, ctx, combo):
    cfg = M.make_cfg(rng, leaf="normal", **{**combo, "K": 1})
    model = M.build(cfg, rng)
    try:
        r = model.posterior(M.random_x(cfg, rng, 3))
    except Exception:
        ctx.tick()
        ctx.count("refused")
        return
    raise Violation("single-class-accepted", f"posterior of a single-class model returned {r[:1].tolist()}")


def check(ctx):
    combos = M.covering(ctx.thorough)
    leaves = ["normal", "categorical", "bernoulli", "binomial", "ratnormal", "multi", "mvn"]
    for rep in range(ctx.n(8, 30)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 7]
            if leaf == "mvn" and combo["structure"] == "bottom-up":
                leaf = "normal"
            ctx.run(f"post-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, case, ctx, combo, leaf)
    for j in range(ctx.n(12, 24)):
        ctx.run(f"under-{j}", {"j": j}, underflow, ctx, j)
    ctx.run("function", {}, function, ctx)
    for j, combo in enumerate(combos[:6]):
        ctx.run(f"refuse-{j}", combo, refuse, ctx, combo)
