"""C13: gradients are correct, finite and reach every used parameter."""
import numpy as np
import torch

from .. import models as M
from .. import others as O
from ..core import Violation, close, expect, maxdiff
from ..stats import confirm_gof

LEVEL = "exploration"
RULE = ("one evaluation = one parameter/input element whose analytic gradient is compared with a central difference in "
        "float64, or one gradient entry checked for finiteness / straight-through conservation; distinct = distinct "
        "(configuration, parameter tensor, data kind)")
MIN_EVALS, MIN_DISTINCT = 20000, 300
ASSUMPTIONS = ("differentiable sampling gradients are the documented straight-through estimator (SIMPLE)",)


def numeric(rng, ctx, combo, leaf):
    F = 2 ** combo["depth"] * 2 + int(rng.integers(0, 3)) if leaf == "mvn" else None
    cfg = M.make_cfg(rng, leaf=leaf, max_F=6, F=F, **combo)
    model = M.build(cfg, rng, scale=1.2, leaf_scale=1.0).double()
    if rng.random() < 0.5:
        model.train()  # dropout 0: same function
    n = int(rng.choice([1, 4]))
    kinds = ["complete"] + (["missing", "scopes"] if leaf != "mvn" else [])
    for kind in kinds:
        x = M.random_x(cfg, rng, n, spread=1.5).double()
        sc = None
        if kind == "missing":
            miss = torch.tensor(rng.random(x.shape) < 0.5)
            x[miss] = torch.nan
        if kind == "scopes":
            sc = list(int(i) for i in rng.choice(cfg.num_features, size=max(1, cfg.num_features // 2), replace=False))
            miss = torch.zeros(x.shape, dtype=torch.bool)
            miss[:, :, sc] = True
        w = torch.tensor(rng.normal(size=(n, cfg.num_classes)))
        use_post = cfg.num_classes > 1 and sc is None and rng.random() < 0.4
        f = (lambda v: (model.posterior(v) * w).sum()) if use_post else (lambda v: (model(v, marginalized_scopes=sc) * w).sum())
        xi = x.clone().requires_grad_(True)
        model.zero_grad(set_to_none=True)
        f(xi).backward()
        ctx.tick()
        h = 1e-5
        for name, p in model.named_parameters():
            if not p.requires_grad:
                expect(p.grad is None, "grad-on-constant", f"{name} is not trainable but received a gradient")
                continue
            g = torch.zeros_like(p) if p.grad is None else p.grad
            expect(bool(torch.isfinite(g).all()), "not-finite", f"gradient of {name} not finite ({kind})")
            flat = p.data.view(-1)
            idx = rng.choice(len(flat), size=min(len(flat), 5), replace=False)
            for i in idx:
                old = flat[i].item()
                with torch.no_grad():
                    flat[i] = old + h
                    a = f(x).item()
                    flat[i] = old - h
                    b = f(x).item()
                    flat[i] = old
                num = (a - b) / (2 * h)
                ana = g.reshape(-1)[i].item()
                ctx.tick()
                expect(abs(num - ana) <= 1e-5 + 1e-4 * max(abs(num), abs(ana)), "wrong-gradient",
                       f"d/d {name}[{i}]: analytic {ana:.6g}, numeric {num:.6g} ({kind})")
            ctx.seen(M.key(cfg) + name + kind)
        gx = xi.grad if xi.grad is not None else torch.zeros_like(x)
        if kind != "complete":
            expect(bool((gx[miss] == 0).all()), "missing-input-gradient", f"gradient at missing inputs: {gx[miss][:4].tolist()}")
            ctx.tick(int(miss.sum()))
        expect(bool(torch.isfinite(gx).all()), "not-finite", f"input gradient not finite ({kind})")
        if leaf in ("normal", "ratnormal", "mvn"):
            flat = x.view(-1)
            for i in rng.choice(len(flat), size=min(len(flat), 6), replace=False):
                if torch.isnan(flat[i]):
                    continue
                old = flat[i].item()
                with torch.no_grad():
                    flat[i] = old + h
                    a = f(x.clone()).item()
                    flat[i] = old - h
                    b = f(x.clone()).item()
                    flat[i] = old
                num, ana = (a - b) / (2 * h), gx.reshape(-1)[i].item()
                ctx.tick()
                expect(abs(num - ana) <= 1e-5 + 1e-4 * max(abs(num), abs(ana)), "wrong-input-gradient",
                       f"d/d x[{i}]: analytic {ana:.6g}, numeric {num:.6g} ({kind})")


def finite(rng, ctx, combo, leaf):
    """float32, extreme data and parameters: every gradient is finite."""
    cfg = M.make_cfg(rng, leaf=leaf, max_F=8, **combo)
    for scale, leaf_scale in ((1.5, 1.5), (5.0, 20.0)):
        model = M.build(cfg, rng, scale=scale, leaf_scale=leaf_scale)
        with torch.no_grad():
            for nm, p in model.named_parameters():
                if nm.endswith("logvar"):
                    p.clamp_(-6, 6)
        model.train(bool(rng.integers(2)))
        for kind in ("ordinary", "large", "missing", "row-missing", "all-missing"):
            x = M.random_x(cfg, rng, 5, spread=1.0)
            if kind == "large" and leaf in ("normal", "ratnormal"):
                x = x * 1e4
            if kind == "missing":
                x[torch.tensor(rng.random(x.shape) < 0.6)] = torch.nan
            if kind == "row-missing":
                x[1:3] = torch.nan
            if kind == "all-missing":
                x[:] = torch.nan
            m0 = torch.isnan(x)
            x.requires_grad_(True)
            model.zero_grad(set_to_none=True)
            ll = model(x)
            expect(bool(torch.isfinite(ll).all()), "ll-not-finite", f"log-likelihood not finite ({kind}, scale {scale})")
            (ll * torch.tensor(rng.normal(size=tuple(ll.shape)), dtype=torch.float32)).sum().backward()
            for nm, p in list(model.named_parameters()) + [("x", x)]:
                if p.grad is None:
                    continue
                ctx.tick(p.grad.numel())
                expect(bool(torch.isfinite(p.grad).all()), "not-finite", f"gradient of {nm} not finite ({kind}, scale {scale})")
            if x.grad is not None:
                expect(bool((x.grad[m0] == 0).all()), "missing-input-gradient", f"gradient at missing inputs ({kind})")
        ctx.seen(M.key(cfg) + f"finite{scale}")


def sampling(rng, ctx, combo, leaf, extreme):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
    model = M.build(cfg, rng, scale=8.0 if extreme else 1.2, leaf_scale=20.0 if extreme else 1.0)
    with torch.no_grad():
        for nm, p in model.named_parameters():
            if nm.endswith("logvar"):
                p.clamp_(-5, 3)
    n, C, F = 6, cfg.num_channels, cfg.num_features
    calls = {"plain": (dict(num_samples=n), None), "mpe": (dict(num_samples=n, is_mpe=True), None)}
    x = M.random_x(cfg, rng, n)
    ent = torch.tensor(rng.random(x.shape) < 0.5)
    ent[0, 0, 0] = True
    ev = x.clone()
    ev[ent] = torch.nan
    calls["evidence"] = (dict(evidence=ev), ent)
    calls["mpe-evidence"] = (dict(evidence=ev, is_mpe=True), ent)
    if cfg.num_classes > 1:
        calls["class"] = (dict(class_index=[int(i) for i in rng.integers(0, cfg.num_classes, n)]), None)
    for name, (kw, mask) in calls.items():
        model.zero_grad(set_to_none=True)
        s = model.sample(is_differentiable=True, **kw)
        expect(tuple(s.shape) == (n, C, F), "shape", f"{name}: {tuple(s.shape)}")
        grads_expected = leaf in ("normal", "ratnormal")
        if not s.requires_grad:
            expect(leaf in ("categorical", "bernoulli") and cfg.num_repetitions == cfg.num_sums == cfg.num_leaves == 1 or leaf == "never",
                   "no-gradient", f"differentiable {name} sampling returned a tensor without gradient")
            continue
        v = s.detach()
        if leaf in ("categorical", "bernoulli"):
            expect(float((v - v.round()).abs().max()) < 1e-4, "not-hard", f"{name}: soft value {v.flatten()[:4].tolist()}")
        cw = torch.tensor(rng.normal(size=tuple(s.shape)), dtype=torch.float32)
        (s * cw).sum().backward()
        got_sum = False
        for nm, p in model.named_parameters():
            if p.grad is None:
                continue
            ctx.tick(p.grad.numel())
            expect(bool(torch.isfinite(p.grad).all()), "sampling-gradient-not-finite",
                   f"{name}: gradient of {nm} not finite (extreme={extreme})")
            if "leaf" not in nm and float(p.grad.abs().max()) > 0:
                got_sum = True
        if grads_expected and not extreme:
            base = "leaf.base_leaf." if cfg.structure == "top-down" else "leaf."
            pm = dict(model.named_parameters())[base + "means"]
            expect(pm.grad is not None, "no-leaf-gradient", f"{name}: leaf means receive no gradient")
            if leaf == "normal" and mask is None:  # (evidence also reaches the means through the posterior weights)
                # straight-through: exactly one leaf per entry receives the upstream gradient
                want = (cw * (mask.float() if mask is not None else 1.0)).sum(0).double().numpy()
                got = pm.grad.double().sum((-1, -2))[0].numpy()
                expect(close(got, want, 1e-4, 1e-4), "leaf-gradient", f"{name}: gradient of the means does not go to exactly the "
                       f"selected leaves: {maxdiff(got, want)}")
                ctx.tick(want.size)
            if max(cfg.num_sums, cfg.num_leaves) > 1 and cfg.num_leaves > 1:
                expect(got_sum, "no-sum-gradient", f"{name}: no sum weight receives a gradient")
        ctx.seen(M.key(cfg) + name + str(extreme))


def simple(rng, ctx, j):
    """The straight-through categorical itself: hard forward, exact frequencies, softmax gradient, any dim."""
    from simple_einet.sampling_utils import SIMPLE, index_one_hot, sample_categorical_differentiably, DiffSampleMethod

    dim = [-1, 1, 2, 0][j % 4]
    shape = [int(i) for i in rng.integers(2, 5, size=3)]
    scale = float(rng.choice([1.0, 10.0, 60.0]))
    for via in ("logits", "log_weights"):
        for mpe in (False, True):
            for fn in (SIMPLE, sample_categorical_differentiably):
                base = torch.tensor(rng.normal(0, scale, size=shape), dtype=torch.float32)
                arg = base if via == "logits" else torch.log_softmax(base, dim)
                arg = arg.clone().requires_grad_(True)
                kw = dict(dim=dim, is_mpe=mpe, **{via: arg})
                if fn is not SIMPLE:
                    kw.update(hard=False, tau=1.0)
                y = fn(**kw)
                v = y.detach()
                ctx.tick(v.numel())
                expect(tuple(y.shape) == tuple(shape), "shape", "one-hot shape")
                expect(float(torch.minimum(v.abs(), (v - 1).abs()).max()) < 1e-5 and float((v.sum(dim) - 1).abs().max()) < 1e-5,
                       "not-one-hot", f"forward value is not one-of-K: {v.flatten()[:6].tolist()}")
                if mpe:
                    expect(torch.equal(v.argmax(dim), arg.detach().argmax(dim)), "not-argmax", "MPE choice is not the largest weight")
                c = torch.tensor(rng.normal(size=shape), dtype=torch.float32)
                (y * c).sum().backward()
                ref = arg.detach().clone().requires_grad_(True)
                r = torch.softmax(ref, dim) if via == "logits" else ref.exp()
                (r * c).sum().backward()
                expect(bool(torch.isfinite(arg.grad).all()), "not-finite", "gradient of the straight-through choice not finite")
                expect(torch.allclose(arg.grad, ref.grad, atol=1e-5, rtol=1e-4), "straight-through-gradient",
                       "gradient is not that of the relaxed probabilities")
                ctx.seen(f"simple-{shape}-{dim}-{via}-{mpe}-{fn.__name__}")
    # the other documented method: straight-through Gumbel softmax
    G = DiffSampleMethod.GUMBEL
    base = torch.tensor(rng.normal(0, 2.0, size=shape), dtype=torch.float32)
    for via in ("logits", "log_weights"):
        src = base if via == "logits" else torch.log_softmax(base, dim)
        for hard, tau in ((True, 1.0), (True, 0.3), (False, 1.0), (False, 0.05)):
            arg = src.clone().requires_grad_(True)
            y = sample_categorical_differentiably(dim=dim, is_mpe=False, hard=hard, tau=tau, method=G, **{via: arg})
            v = y.detach()
            expect(tuple(v.shape) == tuple(shape) and float((v.sum(dim) - 1).abs().max()) < 1e-5 and float(v.min()) > -1e-6, "gumbel", f"choice {v.flatten()[:6].tolist()} is no distribution along {dim}")
            one = float(torch.minimum(v.abs(), (v - 1).abs()).max()) < 1e-5
            expect(one == hard or (not hard and tau < 0.5), "gumbel-hard", f"hard={hard}, tau={tau}: {v.flatten()[:6].tolist()}")
            (y * torch.tensor(rng.normal(size=shape), dtype=torch.float32)).sum().backward()
            expect(arg.grad is not None and bool(torch.isfinite(arg.grad).all()) and (tau < 0.5 or float(arg.grad.abs().max()) > 0), "gumbel-gradient", "no or no finite gradient")
            ctx.tick(3)
        arg = src.clone().requires_grad_(True)
        y = sample_categorical_differentiably(dim=dim, is_mpe=True, hard=True, tau=1.0, method=G, **{via: arg})
        expect(torch.equal(y.detach().round(), torch.zeros_like(src).scatter_(dim, src.argmax(dim, keepdim=True), 1.0)), "gumbel-mode", "mode is not the largest weight")
    few = torch.tensor(rng.normal(0, 1.2, size=(1, 4)), dtype=torch.float32)

    def gd(n):
        ctx.tick(n)
        return sample_categorical_differentiably(dim=-1, is_mpe=False, hard=True, tau=0.7, logits=few.expand(n, -1).clone(), method=G).argmax(-1).numpy()

    bad = confirm_gof(gd, torch.softmax(few.double(), -1)[0].numpy(), 5000)
    expect(bad is None, "gumbel-frequencies", f"Gumbel choices do not follow the weights {bad}")
    ctx.seen(f"gumbel-{shape}-{dim}")
    # frequencies
    lg = torch.tensor(rng.normal(0, 1.5, size=(1, 5)), dtype=torch.float32)
    p = torch.softmax(lg.double(), -1)[0].numpy()

    def d(n):
        ctx.tick(n)
        return SIMPLE(logits=lg.expand(n, -1).clone(), dim=-1).argmax(-1).numpy()

    bad = confirm_gof(d, p, 5000)
    expect(bad is None, "choice-frequencies", f"straight-through choices do not follow the weights {bad}")
    # index_one_hot selects exactly the indexed slice
    t = torch.tensor(rng.normal(size=(2, 3, 4)), dtype=torch.float32)
    for dd in range(3):
        k = int(rng.integers(t.shape[dd]))
        oh = torch.zeros([t.shape[i] if i == dd else 1 for i in range(3)])
        oh.select(dd, k).fill_(1.0)
        expect(torch.allclose(index_one_hot(t, oh, dd), t.select(dd, k)), "index-one-hot", "index_one_hot picks another slice")
        ctx.tick()


def pathwise(rng, ctx, kind):
    """Differentiable leaf draws x = mean + scale * noise: the gradient reaches both parameters of exactly the chosen leaf."""
    from .c12 import context, make

    leaf, d, kw = make(kind, rng, float(rng.choice([0.5, 1.5])))
    C, F, I, R = d["C"], d["F"], d["I"], d["R"]
    n = 40
    i_idx, r_idx = rng.integers(0, I, size=(n, F)), rng.integers(0, R, size=n)
    for mode in ("sample", "is_mpe", "mpe_at_leaves"):
        c = context(n, d, rng, True, i_idx, r_idx, **({mode: True} if mode != "sample" else {}))
        c.indices_out.requires_grad_(True)
        leaf.zero_grad(set_to_none=True)
        x = leaf.sample(c)
        w = rng.normal(size=(n, C, F))
        (x * torch.tensor(w, dtype=x.dtype)).sum().backward()
        g = {k: (torch.zeros_like(p) if p.grad is None else p.grad).double().numpy().reshape(C, F, I, R)
             for k, p in leaf.named_parameters() if p.requires_grad}
        P = {k: p.detach().double().numpy().reshape(C, F, I, R) for k, p in leaf.named_parameters() if p.requires_grad}
        xs = x.detach().double().numpy()
        sel = (np.arange(C)[None, :, None], np.arange(F)[None, None], i_idx[:, None, :], r_idx[:, None, None])

        def sg(z):
            return 1 / (1 + np.exp(-z))

        if kind == "normal":
            mu = P["means"][sel]
            local = {"means": np.ones_like(mu), "logvar": (xs - mu) / 2}
        elif kind == "ratnormal":
            raw, st = P["means"][sel], P["stds"][sel]
            dmu, mu = np.ones_like(raw), raw
            if kw.get("max_mean") is not None:
                mu = kw["min_mean"] + (kw["max_mean"] - kw["min_mean"]) * sg(raw)
                dmu = (kw["max_mean"] - kw["min_mean"]) * sg(raw) * (1 - sg(raw))
            sig = kw["min_sigma"] + (kw["max_sigma"] - kw["min_sigma"]) * sg(st)
            dsig = (kw["max_sigma"] - kw["min_sigma"]) * sg(st) * (1 - sg(st))
            local = {"means": dmu, "stds": (xs - mu) / sig * dsig}
        else:  # relaxed binomial
            N, z = kw["total_count"], P["logits"][sel]
            p = sg(z)
            sd = np.sqrt(N * p * (1 - p))
            eps = (xs - N * p) / np.maximum(sd, 1e-12)
            inside = (xs > 1e-6) & (xs < N - 1e-6)
            local = {"logits": np.where(inside, N * p * (1 - p) + eps * 0.5 * sd * (1 - 2 * p), 0.0)}
            if mode != "sample":
                local = {}  # the mode of a binomial is a step function
        for k, v in local.items():
            if mode != "sample" and k in ("logvar", "stds"):
                v = np.zeros_like(v)
            want = np.zeros((C, F, I, R))
            np.add.at(want, tuple(np.broadcast_to(s, v.shape) for s in sel), w * v)
            expect(close(g[k], want, 2e-3, 2e-3), "pathwise-gradient",
                   f"{kind} ({mode}): gradient of {k} is not that of the drawn value: {maxdiff(g[k], want)}", shape=d)
            ctx.tick(want.size)
        gi = c.indices_out.grad
        expect(gi is not None and bool(torch.isfinite(gi).all()), "no-index-gradient", f"{kind} ({mode}): the leaf choice receives no gradient")
        if mode != "sample" and kind != "binomial":  # d x / d choice = the value of that leaf
            v = P["means"]
            if kind == "ratnormal" and kw.get("max_mean") is not None:
                v = kw["min_mean"] + (kw["max_mean"] - kw["min_mean"]) * sg(v)
            want = np.einsum("ncf,ncfi->nfi", w, v[np.arange(C)[None, :, None], np.arange(F)[None, None], :, r_idx[:, None, None]])
            expect(close(gi.double().numpy(), want, 2e-3, 2e-3), "choice-gradient", f"{kind} ({mode}): gradient of the leaf choice")
            ctx.tick(want.size)
        ctx.seen(f"pathwise-{kind}-{mode}-{d}")


def other_numeric(rng, ctx, kind, j):
    """Analytic against numeric gradients for ConvPc (float64), Mixture and piecewise-linear Einets (float32)."""
    o = O.build(rng, kind, j)
    m = o.model
    dbl = kind == "conv"
    dt = torch.float64 if dbl else torch.float32
    if dbl:
        m.double()
    n = 5
    for form in ("complete", "missing"):
        x = o.x(rng, n).to(dt)
        miss = torch.zeros(x.shape, dtype=torch.bool)
        if form == "missing":
            miss = torch.tensor(rng.random(x.shape) < 0.5)
            miss[1] = True
            x[miss] = torch.nan
        probe = m(x)
        w = torch.tensor(rng.normal(size=tuple(probe.shape)), dtype=dt)
        xi = x.clone().requires_grad_(True)
        m.zero_grad(set_to_none=True)
        (m(xi) * w).sum().backward()
        h, tol = (1e-5, 1e-4) if dbl else (2e-2, 2e-2)

        def f():
            with torch.no_grad():
                return float((m(x).double() * w.double()).sum())

        for name, p in m.named_parameters():
            if not p.requires_grad:
                continue
            g = torch.zeros_like(p) if p.grad is None else p.grad
            ctx.tick()
            expect(bool(torch.isfinite(g).all()), "not-finite", f"{kind}: gradient of {name} not finite ({form})")
            if not dbl and "leaf" in name:
                continue
            flat = p.data.view(-1)
            order = rng.choice(len(flat), size=min(len(flat), 6 if dbl else 3), replace=False)
            for i in order:
                old = flat[i].item()
                flat[i] = old + h
                a = f()
                flat[i] = old - h
                b = f()
                flat[i] = old
                num, ana = (a - b) / (2 * h), g.reshape(-1)[i].item()
                ctx.tick()
                slack = (1e-5 if dbl else 3e-3 + 1e-6 * abs(a) / h)
                expect(abs(num - ana) <= slack + tol * max(abs(num), abs(ana)), "wrong-gradient",
                       f"{kind}: d/d {name}[{i}]: analytic {ana:.6g}, numeric {num:.6g} ({form})")
            ctx.seen(o.key + name + form)
        if xi.grad is not None:
            ctx.tick(int(miss.sum()) + 1)
            expect(bool(torch.isfinite(xi.grad).all()), "not-finite", f"{kind}: input gradient not finite ({form})")
            expect(bool((xi.grad[miss] == 0).all()), "missing-input-gradient", f"{kind}: gradient at missing inputs")
            if dbl and o.leaf in ("normal", "ratnormal"):
                flat = x.view(-1)
                for i in rng.choice(len(flat), size=min(len(flat), 6), replace=False):
                    if torch.isnan(flat[i]):
                        continue
                    old = flat[i].item()
                    flat[i] = old + h
                    a = f()
                    flat[i] = old - h
                    b = f()
                    flat[i] = old
                    num, ana = (a - b) / (2 * h), xi.grad.reshape(-1)[i].item()
                    ctx.tick()
                    expect(abs(num - ana) <= 1e-5 + 1e-4 * max(abs(num), abs(ana)), "wrong-input-gradient",
                           f"{kind}: d/d x[{i}]: analytic {ana:.6g}, numeric {num:.6g} ({form})")
    if kind.startswith("mix"):
        # exactly the components the rows are routed to are trained, each as if it had seen its rows alone
        from .c18 import route

        x = o.x(rng, 12)
        k = route(m, x)
        if (k < 0).any():
            return
        w = torch.tensor(rng.normal(size=tuple(m(x).shape)), dtype=torch.float32)
        m.zero_grad(set_to_none=True)
        (m(x) * w).sum().backward()
        got = {nm: None if p.grad is None else p.grad.clone() for nm, p in m.named_parameters()}
        m.zero_grad(set_to_none=True)
        for c in set(k.tolist()):
            rows = torch.tensor(k == c)
            (m.models[c](x[rows]) * w[rows]).sum().backward()
        for nm, p in m.named_parameters():
            if not p.requires_grad:
                continue
            a = torch.zeros_like(p) if got[nm] is None else got[nm]
            b = torch.zeros_like(p) if p.grad is None else p.grad
            ctx.tick(a.numel())
            expect(close(a, b, 1e-3, 1e-3), "mixture-gradient", f"{kind}: gradient of {nm} is not that of the rows of its component: {maxdiff(a, b)}")


def other_sampling(rng, ctx, kind, j, extreme):
    """Differentiable draws of ConvPc and piecewise-linear Einets: hard choices, finite and conserving gradients."""
    o = O.build(rng, kind, j)
    m = o.model
    if extreme:
        M.randomize(m, rng, 8.0, 20.0)
        with torch.no_grad():
            for nm, p in m.named_parameters():
                if nm.endswith("logvar"):
                    p.clamp_(-5, 3)
    n = 6
    kw = {} if kind == "conv" else {"is_differentiable": True}
    calls = {"plain": dict(num_samples=n), "mpe": dict(num_samples=n, is_mpe=True)}
    mask = None
    if not extreme or kind == "conv":
        ev = o.ev(rng, n)
        ev.view(n, -1)[:, 0] = torch.nan
        mask = torch.isnan(ev)
        calls.update({"evidence": dict(evidence=ev), "mpe-evidence": dict(evidence=ev, is_mpe=True)})
    for name, c in calls.items():
        m.zero_grad(set_to_none=True)
        s = m.sample(**kw, **c)
        v = s.detach()
        if o.leaf in ("categorical", "bernoulli"):
            ctx.tick(v.numel())
            expect(float((v - v.round()).abs().max()) < 1e-4, "not-hard", f"{kind} {name}: soft value {v.flatten()[:4].tolist()}")
        if not s.requires_grad:
            ctx.count("no_gradient_path")
            expect(not (kind == "conv" and o.leaf in ("normal", "ratnormal")), "no-gradient", f"{kind}: {name} sampling returned a tensor without gradient")
            continue
        cw = torch.tensor(rng.normal(size=tuple(s.shape)), dtype=torch.float32)
        (s * cw).sum().backward()
        reached = 0.0
        for nm, p in m.named_parameters():
            if p.grad is None:
                continue
            ctx.tick(p.grad.numel())
            expect(bool(torch.isfinite(p.grad).all()), "sampling-gradient-not-finite", f"{kind} {name}: gradient of {nm} not finite (extreme={extreme})")
            if "leaf" not in nm:
                reached = max(reached, float(p.grad.abs().max()))
        if kind == "conv" and o.leaf == "normal" and not extreme:
            means = m.leaf_data.means
            expect(means.grad is not None, "no-leaf-gradient", f"conv {name}: leaf means receive no gradient")
            if "evidence" not in name:
                got = means.grad.double().sum((-1, -2)).reshape(-1).numpy()
                want = cw.double().sum(0).reshape(-1).numpy()
                ctx.tick(want.size)
                expect(close(got, want, 1e-3, 1e-3), "leaf-gradient", f"conv {name}: gradient of the means does not go to exactly the "
                       f"selected leaves: {maxdiff(got, want)}")
            if m.config.channels[0] > 1:
                expect(reached > 0, "no-sum-gradient", f"conv {name}: no sum weight receives a gradient")
        ctx.seen(o.key + name + str(extreme))


def check(ctx):
    combos = M.covering(ctx.thorough)
    leaves = ["normal", "categorical", "bernoulli", "binomial", "ratnormal", "multi", "mvn"]
    for rep in range(ctx.n(1, 5)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 7]
            if leaf == "mvn" and combo["structure"] == "bottom-up":
                leaf = "normal"
            ctx.run(f"num-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, numeric, ctx, combo, leaf)
    for rep in range(ctx.n(1, 5)):
        for j, combo in enumerate(combos):
            l2 = ["normal", "categorical", "bernoulli", "ratnormal"][(j + rep + ctx.seed) % 4]
            ctx.run(f"finite-{rep}-{j}-{l2}", {**combo, "leaf": l2}, finite, ctx, combo, l2)
            l3 = ["normal", "ratnormal", "categorical", "bernoulli", "binomial", "normal"][(j + rep) % 6]
            ctx.run(f"diff-{rep}-{j}-{l3}", {**combo, "leaf": l3}, sampling, ctx, combo, l3, False)
            l4 = ["normal", "ratnormal", "categorical", "bernoulli", "binomial"][(j + rep + 1) % 5]
            ctx.run(f"diffx-{rep}-{j}-{l4}", {**combo, "leaf": l4}, sampling, ctx, combo, l4, True)
    for j in range(ctx.n(12, 60)):
        for k in ("normal", "ratnormal", "binomial"):
            ctx.run(f"path-{j}-{k}", {"leaf": k}, pathwise, ctx, k)
    for j in range(ctx.n(8, 40)):
        ctx.run(f"simple-{j}", {"j": j}, simple, ctx, j)
    for j in range(ctx.n(8, 40)):
        for kind in ("conv", "mix", "pwl", "mixconv"):
            ctx.run(f"other-num-{j}-{kind}", {"kind": kind, "j": j}, other_numeric, ctx, kind, j + ctx.seed)
        for kind in ("conv", "pwl"):
            for x in (False, True):
                ctx.run(f"other-diff-{j}-{kind}-{x}", {"kind": kind, "j": j, "extreme": x}, other_sampling, ctx, kind, j + ctx.seed, x)
