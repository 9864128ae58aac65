"""C06: observed values survive, results have the evidence's shape, inputs and parameters are never modified."""
import numpy as np
import torch

from .. import models as M
from .. import others as O
from ..core import Violation, expect

LEVEL = "exploration"
RULE = ("one evaluation = one entry of a result compared bitwise with the evidence (observed) or checked for finiteness "
        "and domain (missing), or one argument/parameter snapshot compared before/after a query; distinct = distinct "
        "(configuration, layout, query, way of stating missingness)")
MIN_EVALS, MIN_DISTINCT = 5000, 150


def snap(t):
    """Bitwise snapshot of the visible tensor, its storage neighbourhood and metadata."""
    base = t
    while base._base is not None:
        base = base._base
    return (t.detach().clone().contiguous().numpy().tobytes(), base.detach().clone().contiguous().numpy().tobytes(),
            tuple(t.shape), t.stride(), t.dtype, t.requires_grad, t._version)


def layouts(x, C, F, rng):
    """The same values in different shapes / memory layouts. Yields (name, tensor)."""
    n = x.shape[0]
    yield "3d", x.clone()
    if C == 1:
        yield "2d", x.clone().view(n, F)
        big = torch.randn(n, 2 * F)
        big[:, ::2] = x.view(n, F)
        yield "2d-strided", big[:, ::2]
    yield "3d-transposed", x.permute(2, 1, 0).contiguous().permute(2, 1, 0)
    big = torch.randn(n, C, F + 3)
    big[:, :, 1:F + 1] = x
    yield "3d-slice", big[:, :, 1:F + 1]
    for h in range(2, F):
        if F % h == 0:
            x4 = x.clone().view(n, C, h, F // h)
            yield "4d", x4
            yield "4d-channels-last", x4.contiguous(memory_format=torch.channels_last)
            yield "4d-permuted", x4.permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
            break


def domain_ok(cfg, v, ch, f):
    ds = M.domain_sizes(cfg)
    if ds is None:
        return np.isfinite(v)
    return abs(v - round(v)) < 1e-4 and 0 <= round(v) < ds[f]


def case(rng, ctx, combo, leaf):
    F = max(int(rng.choice([4, 6, 8])), 2 ** combo["depth"])
    cfg = M.make_cfg(rng, leaf=leaf, F=F, C=int(rng.choice([1, 2, 3])) if combo["R"] % 2 else 1, **combo)
    model = M.build(cfg, rng)
    C = cfg.num_channels
    n = int(rng.choice([1, 3, 5]))
    x = M.random_x(cfg, rng, n)
    if leaf in ("normal", "ratnormal"):
        x = x * 3 + 0.123456789  # values with full mantissas
    marginal_ok = leaf != "mvn"
    qs = []
    ent = rng.random(x.shape) < 0.45
    ent[0] = False  # a fully observed row
    if n > 1:
        ent[1] = True  # a fully missing row
    xn = x.clone()
    xn[torch.tensor(ent)] = torch.nan
    scopes = list(int(i) for i in rng.choice(F, size=int(rng.integers(1, F)), replace=False))
    ms = np.zeros(x.shape, bool)
    ms[:, :, scopes] = True
    params0 = {k: v.detach().clone() for k, v in model.state_dict().items()}
    rg0 = {k: (p.requires_grad, p.grad is None) for k, p in model.named_parameters()}
    lsc = list(scopes)
    tsc = torch.tensor(scopes)
    for nm, ev in layouts(xn, C, F, rng):
        evs = snap(ev)
        for q in ("ll", "posterior", "sample", "mpe", "sample-diff", "mpe-diff"):
            if q == "posterior" and cfg.num_classes == 1:
                continue
            r = call(model, q, ev, None)
            verify(ctx, cfg, q, ev, torch.tensor(ent).reshape(ev.shape), r, nm)
            expect(snap(ev) == evs, "evidence-mutated", f"{q} modified the tensor passed in (layout {nm})")
            expect(r.data_ptr() != ev.data_ptr(), "aliases-evidence", f"{q} returned the evidence itself")
            ctx.tick(2)
            ctx.seen(M.key(cfg) + nm + q)
    for nm, ev in layouts(x, C, F, rng):
        evs = snap(ev)
        for q in ("ll", "sample", "mpe", "sample-diff", "mpe-diff"):
            for arg, kind in ((lsc, "list"), (tsc, "tensor")):
                r = call(model, q, ev, arg)
                if nm[0] == "4" and False:
                    continue
                verify(ctx, cfg, q, ev, torch.tensor(ms).reshape(ev.shape), r, nm + kind)
                expect(snap(ev) == evs, "evidence-mutated", f"{q} with scopes modified the tensor passed in (layout {nm})")
                expect(lsc == scopes and tsc.tolist() == scopes, "scopes-mutated", f"{q} modified the scope list")
                ctx.tick(2)
        ctx.seen(M.key(cfg) + nm + "scopes")
    for q in ("sample", "mpe", "sample-diff", "mpe-diff"):  # nothing listed, nothing filled
        r = call(model, q, x, [])
        ctx.tick(r.numel())
        expect(torch.equal(r.detach(), x), "observed-changed", f"{q} with an empty scope list changed observed values")
    # double / integer evidence: result values equal those given
    evd = xn.double()
    s0 = snap(evd)
    r = model.sample(evidence=evd.float())
    expect(snap(evd) == s0, "evidence-mutated", "float evidence")
    params1 = model.state_dict()
    expect(params0.keys() == params1.keys(), "state-changed", "state dict keys changed")
    for k in params0:
        ctx.tick()
        expect(torch.equal(params0[k], params1[k]) or (params0[k].isnan() == params1[k].isnan()).all() and
               torch.equal(params0[k].nan_to_num(), params1[k].nan_to_num()), "parameters-mutated", f"{k} changed by queries")
    for k, p in model.named_parameters():
        expect(rg0[k] == (p.requires_grad, p.grad is None), "grad-state", f"{k} gradient state changed")
    # class index lists
    if cfg.num_classes > 1:
        cl = [int(i) for i in rng.integers(0, cfg.num_classes, size=4)]
        c0 = list(cl)
        for diff in (False, True):
            model.sample(class_index=cl, is_differentiable=diff)
            expect(cl == c0, "class-list-mutated", "class_index list modified")


def call(model, q, ev, scopes):
    if q == "ll":
        return model(ev, marginalized_scopes=scopes)
    if q == "posterior":
        return model.posterior(ev)
    if q.startswith("sample"):
        return model.sample(evidence=ev, marginalized_scopes=scopes, is_differentiable=q.endswith("diff"))
    return model.mpe(evidence=ev, marginalized_scopes=scopes, is_differentiable=q.endswith("diff"))


def verify(ctx, cfg, q, ev, miss, r, nm):
    if q in ("ll", "posterior"):
        expect(tuple(r.shape) == (ev.shape[0], cfg.num_classes), "ll-shape", f"{q} of {nm} has shape {tuple(r.shape)}")
        expect(bool(torch.isfinite(r).all()), "ll-not-finite", f"{q} of {nm}: {r.flatten()[:4].tolist()}")
        ctx.tick(r.numel())
        return
    expect(tuple(r.shape) == tuple(ev.shape), "shape", f"{q} ({nm}) returned {tuple(r.shape)} for {tuple(ev.shape)}")
    r = r.detach()
    obs = ~miss
    ctx.tick(r.numel())
    a, b = r[obs].double(), ev[obs].double()
    if not torch.equal(a, b):
        i = int((a != b).nonzero()[0])
        raise Violation("observed-changed", f"{q} ({nm}) changed an observed value {float(b[i])!r} to {float(a[i])!r}")
    v = r[miss]
    expect(bool(torch.isfinite(v).all()), "missing-not-filled", f"{q} ({nm}): missing entry not finite")
    ds = M.domain_sizes(cfg)
    if ds is not None and not (q.endswith("diff") and "binomial" in cfg.leaf_type.__name__.lower()):
        n, C, F = ev.shape[0], cfg.num_channels, cfg.num_features
        r3, m3 = r.reshape(n, C, F).double(), miss.reshape(n, C, F)
        top = torch.tensor(ds, dtype=torch.double) - 1
        # differentiable binomial leaves use the documented Gaussian relaxation: bounds only
        tol = 1e-4
        bad = m3 & ((r3 < -tol) | (r3 > top + tol))
        if not q.endswith("diff"):
            bad |= m3 & ((r3 - r3.round()).abs() > tol)
        expect(not bool(bad.any()), "fill-out-of-domain", f"{q} ({nm}): filled value {r3[bad][:3].tolist()} outside the domain")


@torch.no_grad()
def mvn(rng, ctx, combo):
    F = 8
    cfg = M.make_cfg(rng, leaf="mvn", F=F, C=int(rng.choice([1, 2])), **{**combo, "depth": min(combo["depth"], 2)})
    model = M.build(cfg, rng)
    x = M.random_x(cfg, rng, 3)
    base = model(x.clone())
    for nm, ev in layouts(x, cfg.num_channels, F, rng):
        s = snap(ev)
        r = model(ev)
        expect(tuple(r.shape) == (3, cfg.num_classes), "ll-shape", f"{nm} {tuple(r.shape)}")
        expect(torch.allclose(r, base, atol=1e-4), "layout-changes-value", f"mvn layout {nm}")
        expect(snap(ev) == s, "evidence-mutated", f"mvn ll modified its input ({nm})")
        ctx.tick(5)
    ctx.seen(M.key(cfg) + "mvn")


def image_layouts(x, rng):
    """An item batch [n, C, ...] flattened and laid out differently in memory."""
    n, C = x.shape[:2]
    yield "plain", x.clone()
    yield "flat-features", x.clone().view(n, C, -1)
    if C == 1:
        yield "2d", x.clone().view(n, -1)
    yield "reversed-strides", x.permute(*reversed(range(x.dim()))).contiguous().permute(*reversed(range(x.dim())))
    big = torch.randn(n, C, *x.shape[2:-1], x.shape[-1] + 3)
    big[..., 1:-2] = x
    yield "slice", big[..., 1:-2]
    if x.dim() == 4:
        yield "channels-last", x.contiguous(memory_format=torch.channels_last)
    two = torch.randn(2 * n, *x.shape[1:])
    two[::2] = x
    yield "row-strided", two[::2]


def in_domain(o, v, x0):
    """Filled values v [n, C, F] lie in the leaf domain of model o (relaxed binomials: in its range)."""
    if o.kind == "pwl":
        base = o.model.leaf.base_leaf if o.cfg.structure == "top-down" else o.model.leaf
        for f, d in enumerate(base.domains):
            if d.values is not None:
                vals = torch.tensor([float(t) for t in d.values], dtype=torch.double)
                if not bool(((v[:, :, f].reshape(-1, 1) - vals).abs().min(1).values < 1e-4).all()):
                    return False
        return True
    kw = o.cfg.leaf_kwargs
    top = {"bernoulli": 1, "categorical": kw.get("num_bins", 0) - 1, "binomial": kw.get("total_count", 0)}.get(o.leaf)
    if top is None:
        return True
    ok = bool(((v >= -1e-4) & (v <= top + 1e-4)).all())
    return ok and (o.leaf == "binomial" or bool(((v - v.round()).abs() < 1e-4).all()))


def flat_state(sd, path=""):
    """Every tensor of a (nested) state dict."""
    out = {}
    for k, v in (sd.items() if isinstance(sd, dict) else enumerate(sd)):
        if isinstance(v, torch.Tensor):
            out[f"{path}{k}"] = v.detach().clone()
        elif isinstance(v, (dict, list, tuple)):
            out.update(flat_state(v, f"{path}{k}."))
    return out


def other(rng, ctx, kind, j):
    o = O.build(rng, kind, j)
    m = o.model
    n = int(rng.choice([1, 3, 6]))
    x = o.x(rng, n)
    if o.leaf in ("normal", "ratnormal"):
        x = x * 3 + 0.123456789
    miss = rng.random(x.shape) < 0.5
    miss[0] = False
    if n > 1:
        miss[1] = True
    miss = torch.tensor(miss)
    xn = x.clone()
    xn[miss] = torch.nan
    state0 = flat_state(m.state_dict())
    scopes = sorted(int(i) for i in rng.permutation(o.features)[:max(1, o.features // 2)])[::-1] if o.scopes else None
    tsc = torch.tensor(scopes) if scopes else None
    smiss = torch.zeros_like(miss)
    if scopes:
        smiss.view(n, o.shape[0], -1)[:, :, scopes] = True

    def judge(ev, mk, r, what):
        expect(tuple(r.shape) == tuple(ev.shape), "shape", f"{kind}: {what} returned {tuple(r.shape)} for {tuple(ev.shape)}")
        r, e, mk = r.detach().reshape(x.shape), ev.reshape(x.shape), mk.reshape(x.shape)
        ctx.tick(r.numel())
        a, b = r[~mk].double(), e[~mk].double()
        if not torch.equal(a, b):
            i = int((a != b).nonzero()[0])
            raise Violation("observed-changed", f"{kind}: {what} changed an observed value {float(b[i])!r} to {float(a[i])!r}")
        expect(bool(torch.isfinite(r).all()), "missing-not-filled", f"{kind}: {what}: missing entry not finite")
        fill = torch.where(mk, r.double(), 0.0).reshape(n, o.shape[0], -1)
        if o.kind == "pwl":
            fill = torch.where(mk, r.double(), x.double()).reshape(n, o.shape[0], -1)
        expect(in_domain(o, fill, x), "fill-out-of-domain", f"{kind}: {what} filled a value outside the domain")

    forms = [("sample", lambda e, kw: m.sample(evidence=e, **kw)), ("mpe", lambda e, kw: m.sample(evidence=e, is_mpe=True, **kw)),
             ("leafmode", lambda e, kw: m.sample(evidence=e, mpe_at_leaves=True, **kw))]
    if o.differentiable:
        forms += [("sample-diff", lambda e, kw: m.sample(evidence=e, is_differentiable=True, **kw)),
                  ("mpe-diff", lambda e, kw: m.mpe(evidence=e, is_differentiable=True, **kw))]
    for base, mk, sc in [(xn, miss, None)] + ([(x, smiss, list(scopes)), (x, smiss, tsc)] if scopes else []):
        for nm, ev in image_layouts(base, rng):
            before = snap(ev)
            ll = o.ll(m, ev, sc)
            expect(ll.shape[0] == n and bool(torch.isfinite(ll).all()), "ll-not-finite", f"{kind}: likelihood of {nm}: {ll.flatten()[:4]}")
            expect(snap(ev) == before, "evidence-mutated", f"{kind}: likelihood modified the tensor passed in (layout {nm})")
            for q, f in forms:
                r = f(ev, {} if sc is None else {"marginalized_scopes": sc})
                judge(ev, mk, r, f"{q} ({nm})")
                expect(snap(ev) == before, "evidence-mutated", f"{kind}: {q} modified the tensor passed in (layout {nm})")
                expect(r.untyped_storage().data_ptr() != ev.untyped_storage().data_ptr(), "aliases-evidence",
                       f"{kind}: {q} returned the evidence itself")
                if sc is not None:
                    expect([int(i) for i in sc] == scopes, "scopes-mutated", f"{kind}: {q} modified the scope list")
                ctx.tick(2)
            ctx.seen(o.key + nm + str(sc is not None))
    if o.K > 1:
        cl = [int(i) for i in rng.integers(0, o.K, size=4)]
        c0 = list(cl)
        m.sample(class_index=cl)
        expect(cl == c0, "class-list-mutated", f"{kind}: class_index list modified")
    for k, v in flat_state(m.state_dict()).items():
        ctx.tick()
        expect(torch.equal(v.nan_to_num(7.0), state0[k].nan_to_num(7.0)), "parameters-mutated", f"{kind}: {k} changed by queries")


def large(rng, ctx, j):
    """Image-sized models: observed entries come back bitwise, missing ones are filled inside the leaf supports."""
    cfg = M.large_cfg(rng, j)
    model = M.build(cfg, rng)
    F = cfg.num_features
    n = int(rng.choice([1, 3, 130, 300]))
    x = M.large_x(cfg, rng, n)
    miss = torch.tensor(rng.random(x.shape) < rng.choice([0.1, 0.5, 0.9], size=(n, 1, 1)))
    sc = [int(i) for i in rng.permutation(F)[: max(1, F // 3)]]
    for form in ("nan", "scopes"):
        ev, m, arg = x.clone(), miss.clone(), None
        if form == "nan":
            ev[m] = torch.nan
        else:
            m[:] = False
            m[:, :, sc] = True
            arg = list(sc)
        keep = snap(ev)
        for q in ("sample", "mpe", "sample-diff", "mpe-diff"):
            r = call(model, q, ev, arg).detach()
            expect(snap(ev) == keep and arg in (None, sc), "evidence-mutated", f"{q} ({form}) modified its arguments")
            verify(ctx, cfg, q, x, m, r, f"{form} of an image-sized model")
            if q != "sample-diff":  # relaxed samples of Binomial leaves are continuous
                b = M.in_domain(cfg, r.round() if q == "mpe-diff" and bool(((r - r.round()).abs() < 1e-4).all()) else r)
                expect(b is None, "fill-out-of-domain", f"{q} ({form}): {b}", config=M.desc(cfg))
    ctx.seen(M.key(cfg) + f"large{n}")


def check(ctx):
    for j in range(ctx.n(14, 70)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j)
    combos = M.covering(ctx.thorough)
    leaves = ["categorical", "normal", "bernoulli", "binomial", "ratnormal", "multi"]
    for rep in range(ctx.n(1, 4)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 6]
            ctx.run(f"ev-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, case, ctx, combo, leaf)
    for j, combo in enumerate(combos):
        if combo["structure"] == "top-down" and j % 3 == 0:
            ctx.run(f"mvn-{j}", {**combo, "leaf": "mvn"}, mvn, ctx, combo)
    for j in range(ctx.n(6, 24)):
        for kind in ("conv", "mix", "pwl", "mixconv"):
            ctx.run(f"other-{j}-{kind}", {"kind": kind, "j": j}, other, ctx, kind, j + ctx.seed)
