"""C11: MPE is the deterministic greedy max completion."""
import numpy as np
import torch

from .. import models as M
from .. import others as O
from .. import ref
from ..core import Violation, close, expect

LEVEL = "exploration"
RULE = ("one evaluation = one MPE completion compared with the reference greedy pass over the float64 circuit, with the "
        "brute-force argmax, or with its own repetition / differentiable variant; distinct = distinct (configuration, "
        "missing pattern); rows whose greedy pass meets a near tie are counted but not judged")
MIN_EVALS, MIN_DISTINCT = 2500, 150


def call(model, ev, diff, sc=None):
    return model.mpe(evidence=ev, is_differentiable=diff, marginalized_scopes=sc).detach()


def against_reference(rng, ctx, combo, leaf):
    F = 2 * 2**combo["depth"] + int(rng.integers(0, 4)) if leaf == "mvn" else None
    cfg = M.make_cfg(rng, leaf=leaf, max_F=7, F=F, C=int(rng.choice([1, 1, 2])), **combo)
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.5)
    C, F = cfg.num_channels, cfg.num_features
    # without evidence
    want = ref.mpe(model)[0]
    torch.manual_seed(int(rng.integers(1 << 30)))
    outs = [call(model, None, False), call(model, None, False), call(model, None, True)]
    outs += [model.sample(num_samples=3, is_mpe=True).detach(), model.sample(num_samples=2, is_mpe=True, seed=4).detach()]
    for o in outs:
        expect(o.shape[1:] == (C, F), "shape", f"mpe shape {tuple(o.shape)}")
        for row in o:
            ctx.tick()
            expect(close(row, outs[0][0], 1e-5, 1e-5), "not-deterministic",
                   "MPE without evidence differs between calls / rows / differentiable variant", a=row, b=outs[0][0])
    if want is None:
        ctx.count("ties")
    else:
        ok = any(close(outs[0][0], w, 1e-4, 1e-4) for w in want)
        expect(ok, "not-greedy-mode", "MPE without evidence is not the mode along the most probable branches",
               got=outs[0][0], want=want[:2])
        if cfg.num_classes > 1:
            for c in range(cfg.num_classes):
                o = model.sample(num_samples=2, class_index=c, is_mpe=True).detach()
                ctx.tick(2)
                expect(close(o[0], want[c], 1e-4, 1e-4) and close(o[1], want[c], 1e-4, 1e-4), "not-greedy-mode-class",
                       f"MPE of class {c} is not the mode along the most probable branches", got=o[0], want=want[c])
    ctx.seen(M.key(cfg))
    if leaf == "mvn":
        return
    n = 10
    x = M.random_x(cfg, rng, n, spread=1.5)
    miss = rng.random(x.shape) < rng.choice([0.2, 0.5, 0.8], size=(n, 1, 1))
    miss[0] = True
    miss[1] = False
    ev = x.clone()
    ev[torch.tensor(miss)] = torch.nan
    want = ref.mpe(model, ev.double().numpy())
    a = call(model, ev, False)
    torch.rand(5)
    check_rows(ctx, ev, a, want, "nan")
    for o, nm in ((call(model, ev, False), "second call"), (call(model, ev, True), "differentiable"),
                  (model.sample(evidence=ev, is_mpe=True, seed=5).detach(), "sample(is_mpe)")):
        for i in range(n):
            ctx.tick()
            if want[i] is None:
                continue
            expect(close(o[i], a[i], 1e-5, 1e-5) or len(want[i]) > 1 and any(close(o[i], w, 1e-4) for w in want[i]),
                   "not-deterministic" if nm == "second call" else f"variant-differs-{nm.split('(')[0]}",
                   f"{nm} gives a different completion", a=a[i], b=o[i])
    # every row asked for on its own
    for i in range(n):
        check_rows(ctx, ev[i:i + 1], call(model, ev[i:i + 1], bool(i % 2)), want[i:i + 1], "single row")
    # the same with scopes
    sc = list(int(i) for i in rng.choice(F, size=int(rng.integers(1, F + 1)), replace=False))
    ev2 = x.clone()
    ev2[:, :, sc] = torch.nan
    want2 = ref.mpe(model, ev2.double().numpy())
    for diff in (False, True):
        check_rows(ctx, ev2, call(model, x, diff, sc), want2, "scopes")
        check_rows(ctx, ev2, call(model, ev2, diff), want2, "nan")
    ctx.seen(M.key(cfg) + str(miss.sum()))


def check_rows(ctx, ev, got, want, how):
    for i in range(len(want)):
        ctx.tick()
        if want[i] is None:
            ctx.count("ties")
            continue
        ctx.count("rows_judged")
        expect(any(close(got[i], w, 1e-4, 1e-4) for w in want[i]), "not-greedy-completion",
               f"MPE completion ({how}) is not the most probable branch / leaf mode given the evidence",
               evidence=ev[i], got=got[i], want=want[i][0])


def exact(rng, ctx, j, leaf):
    """Plain products and dominant branches: the completion is the brute-force argmax of the joint."""
    combo = dict(structure=["top-down", "top-down", "top-down", "bottom-up"][j % 4], layer=M.LAYERS[j % 3])
    dominant = bool(j % 2)
    for _ in range(60):
        cfg = M.make_cfg(rng, leaf=leaf, max_F=7, depth=int(j // 4) % 3, C=int(rng.choice([1, 2])),
                         **(dict(K=1 + j % 3, **combo) if dominant else dict(S=1, I=1, R=1, K=1, **combo)))
        if M.n_states(cfg) <= 800:
            break
    else:
        return
    model = M.build(cfg, rng, scale=1.0, leaf_scale=1.5)
    if dominant:
        with torch.no_grad():
            for nm, p in model.named_parameters():
                if "logits" in nm and "leaf" not in nm and "_class" not in nm:
                    dim = {5: -1, 4: 1, 3: 2}[p.dim()] if "mixing" not in nm else p.dim() - 1
                    if p.dim() == 5:  # einsum: [D, O, R, Si, Sj]
                        flat = torch.zeros(p.shape[:3] + (p.shape[3] * p.shape[4],))
                        k = torch.tensor(rng.integers(0, flat.shape[-1], size=flat.shape[:3]))
                        flat.scatter_(3, k.unsqueeze(-1), 40.0)
                        p.copy_(flat.view_as(p))
                    else:
                        k = torch.tensor(rng.integers(0, p.shape[dim], size=[1 if i == dim % p.dim() else s for i, s in enumerate(p.shape)]))
                        p.zero_().scatter_(dim, k, 40.0)
    pts = M.enumerate_domain(cfg)
    with torch.no_grad():
        table = torch.cat([model.double()(pts[i:i + 4096].double()) for i in range(0, len(pts), 4096)]).numpy()
    model.float()
    P = pts.view(len(pts), -1).numpy()
    n = 8
    x = M.random_x(cfg, rng, n)
    miss = rng.random(x.shape) < 0.6
    miss[0] = True
    ev = x.clone()
    ev[torch.tensor(miss)] = torch.nan
    for diff in (False, True):
        got = call(model, ev, diff).view(n, -1).numpy()
        for i in range(n):
            m = miss[i].ravel()
            rows = np.nonzero((P[:, ~m] == x[i].view(-1).numpy()[~m]).all(1))[0]
            lls = table[rows].max(1) if not dominant else None
            if dominant:  # the class is the one with the highest evidence likelihood
                ev_ll = np.log(np.exp(table[rows] - table[rows].max()).sum(0))
                o = np.sort(ev_ll)
                if len(o) > 1 and o[-1] - o[-2] < 1e-3:
                    ctx.count("ties")
                    continue
                lls = table[rows][:, int(ev_ll.argmax())]
            o = np.sort(lls)
            g = np.nonzero((P[rows] == np.round(got[i])).all(1))[0]
            expect(len(g) == 1, "out-of-domain", f"completion {got[i]} is not a completion of the evidence")
            ctx.tick()
            ctx.count("brute_force_rows")
            expect(lls[g[0]] >= o[-1] - 1e-3, "not-most-probable",
                   f"completion has log-likelihood {lls[g[0]]:.5f}, best is {o[-1]:.5f} (diff={diff}, dominant={dominant})",
                   got=got[i], best=P[rows][int(lls.argmax())])
    ctx.seen(M.key(cfg) + f"exact{dominant}")


def extreme(rng, ctx, leaf):
    """Saturated leaf parameters: modes stay in the domain."""
    for combo in (dict(structure="top-down", layer="linsum", R=1), dict(structure="top-down", layer="einsum", R=2),
                  dict(structure="bottom-up", layer="linsum", R=2)):
        cfg = M.make_cfg(rng, leaf=leaf, depth=1, F=4, K=2, **combo)
        model = M.build(cfg, rng)
        with torch.no_grad():
            for nm, p in model.named_parameters():
                if "leaf" in nm and p.requires_grad:
                    p.copy_(torch.tensor(rng.choice([-200.0, -40.0, -17.5, 17.5, 40.0, 200.0], size=tuple(p.shape)), dtype=p.dtype))
        ev = M.random_x(cfg, rng, 6)
        ev[torch.tensor(rng.random(ev.shape) < 0.7)] = torch.nan
        for o in (call(model, None, False), call(model, None, True), call(model, ev, False), call(model, ev, True)):
            M.state_index(cfg, o)
            ctx.tick(o.shape[0])
        ctx.seen(M.key(cfg) + "extreme")


def component_mpe(m, ev):
    """Reference completions of the rows by one Einet or ConvPc: list of candidate arrays, or None at near ties."""
    from . import c19

    e = ev.double().numpy()
    if hasattr(m, "data_shape"):
        return [None if g is None else [g] for g in c19.greedy(m, e)]
    return ref.mpe(m, e)


def other(rng, ctx, kind, j):
    """ConvPc, Mixture and Einets over piecewise-linear leaves."""
    o = O.build(rng, kind, j)
    m = o.model
    n = 8
    x = o.x(rng, n)
    ev = x.clone()
    miss = rng.random(x.shape) < rng.choice([0.2, 0.5, 0.8], size=(n,) + (1,) * (x.dim() - 1))
    miss[0], miss[1] = True, False
    ev[torch.tensor(miss)] = torch.nan
    torch.manual_seed(int(rng.integers(1 << 30)))
    a = o.mpe(m, ev)
    torch.rand(3)
    variants = {"second call": lambda: o.mpe(m, ev), "sample(is_mpe)": lambda: m.sample(evidence=ev, is_mpe=True).detach(),
                "seeded": lambda: m.sample(evidence=ev, is_mpe=True, seed=int(rng.integers(1000))).detach(),
                "leaf mode": lambda: m.sample(evidence=ev, is_mpe=True, mpe_at_leaves=True).detach()}
    if o.differentiable:
        variants["differentiable"] = lambda: o.mpe(m, ev, is_differentiable=True)
    for nm, f in variants.items():
        b = f()
        expect(tuple(b.shape) == tuple(ev.shape), "shape", f"{kind} {nm}: mpe shape {tuple(b.shape)}")
        for i in range(n):
            ctx.tick()
            expect(close(b[i], a[i], 1e-5, 1e-5), "not-deterministic" if nm == "second call" else f"variant-differs-{nm.split('(')[0]}",
                   f"{kind}: {nm} gives a different completion of row {i}", a=a[i], b=b[i])
    p0 = [o.mpe(m) for _ in range(3)] + [m.sample(num_samples=2, is_mpe=True).detach()]
    for p in p0:
        for row in p:
            ctx.tick()
            expect(close(row, p0[0][0], 1e-5, 1e-5), "not-deterministic", f"{kind}: MPE without evidence differs between calls / rows")
    ctx.seen(o.key)
    if kind == "pwl":
        return
    none = torch.full((1, *o.shape), torch.nan)
    if kind == "conv":
        rows = [(ev, a, component_mpe(m, ev), "nan"), (none, p0[0], component_mpe(m, none), "no evidence")]
    else:
        from .c18 import route

        w = np.sort(m.mixture_weights.double().numpy())
        rows = []
        if w[-1] - w[-2] > 1e-6:
            top = m.models[int(m.mixture_weights.argmax())]
            want = component_mpe(top, none) if o.K == 1 else [None]  # with several classes: see C24
            rows.append((none, p0[0], want, "no evidence"))

        def routed(e, k):
            return [None if k[i] < 0 else component_mpe(m.models[int(k[i])], e[i:i + 1])[0] for i in range(n)]

        rows.append((ev, a, routed(ev, route(m, ev)), "nan"))
        if o.scopes:
            sc = list(int(i) for i in rng.permutation(o.features)[:max(1, o.features // 2)])
            e2 = x.clone()
            e2[:, :, sc] = torch.nan
            rows.append((e2, o.mpe(m, x, sc), routed(e2, route(m, x, sc)), "scopes"))
    for e, got, want, how in rows:
        for i in range(len(want)):
            ctx.tick()
            if want[i] is None:
                ctx.count("ties")
                continue
            ctx.count("rows_judged")
            if o.leaf == "binomial" and kind != "mix":  # the relaxation's mode is judged by C19
                continue
            w = [np.asarray(v, float).reshape(o.shape) for v in want[i]]
            w = [np.where(np.isnan(v), got[i].numpy(), v) for v in w]  # (nearly) tied leaf modes are not judged
            expect(any(close(got[i], v, 1e-3, 1e-4) for v in w), "not-greedy-completion",
                   f"{kind}: MPE completion ({how}) of row {i} is not the most probable branch / leaf mode given the evidence",
                   evidence=e[i], got=got[i], want=w[0])


def large(rng, ctx, j):
    """Image-sized models against the independent greedy pass (rows with a near tie are not judged)."""
    cfg = M.large_cfg(rng, j)
    model = M.build(cfg, rng, scale=2.0, leaf_scale=1.5).double()
    want = ref.mpe(model)[0]
    got = [call(model, None, d) for d in (False, True)]
    ctx.tick(2)
    if want is not None:
        ctx.count("rows_judged")
        for g in got:
            expect(any(close(g[0], w, 1e-4, 1e-4) for w in want), "not-greedy-mode",
                   "MPE of an image-sized model is not the mode along the most probable branches", config=M.desc(cfg))
    n = 6
    x = M.large_x(cfg, rng, n).double()
    miss = rng.random(x.shape) < np.array([0.05, 0.3, 0.5, 0.7, 0.95, 1.0])[:, None, None]
    ev = x.clone()
    ev[torch.tensor(miss)] = torch.nan
    want = ref.mpe(model, ev.numpy())
    for diff in (False, True):
        check_rows(ctx, ev, call(model, ev.clone(), diff), want, "nan")
    sc = list(int(i) for i in rng.permutation(cfg.num_features)[: cfg.num_features // 2])
    ev = x.clone()
    ev[:, :, sc] = torch.nan
    check_rows(ctx, ev, call(model, x.clone(), False, sc), ref.mpe(model, ev.numpy()), "scopes")
    ctx.seen(M.key(cfg) + "large")


def flatten(m):
    """Every sum node (and mixture weight) uniform: the most probable branch is an exact tie everywhere."""
    with torch.no_grad():
        for nm, p in m.named_parameters():
            if "logits" in nm and "leaf" not in nm or nm == "mixture_weights":
                p.fill_(0.0 if "logits" in nm else 1.0 / p.numel())


def ties(rng, ctx, build, what):
    """Exactly tied branches: whichever branch is taken, every repetition of a call takes the same one."""
    m, x, call_mpe, shape = build(rng)
    flatten(m)
    none = torch.full((4, *shape), torch.nan)
    part = x.clone()
    part[torch.tensor(rng.random(x.shape) < 0.5)] = torch.nan
    calls = {"no evidence": lambda: call_mpe(m), "nothing observed": lambda: call_mpe(m, none.clone()),
             "partial": lambda: call_mpe(m, part.clone()),
             "sample(is_mpe)": lambda: m.sample(num_samples=3, is_mpe=True).detach(),
             "sample(is_mpe, evidence)": lambda: m.sample(evidence=none.clone(), is_mpe=True).detach()}
    for nm, f in calls.items():
        first = None
        for k in range(8):
            torch.manual_seed(int(rng.integers(1 << 30)))
            got = f()
            first = got if first is None else first
            ctx.tick()
            ctx.count("tied_repetitions")
            expect(torch.equal(got, first), "not-deterministic",
                   f"{what}: with tied branches, repetition {k} of MPE ({nm}) gives a different completion", a=first, b=got)
    ctx.seen(f"ties {what}")


def tied_einet(rng, combo, leaf, diff):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=8, C=int(rng.choice([1, 2])), **{**combo, "K": max(2, combo["K"])})
    model = M.build(cfg, rng, scale=1.5, leaf_scale=1.5)
    return (model, M.random_x(cfg, rng, 5), lambda m, ev=None: call(m, ev, diff), (cfg.num_channels, cfg.num_features))


def tied_other(rng, kind, j, diff):
    o = O.build(rng, kind, j)
    kw = {"is_differentiable": True} if diff and o.differentiable else {}
    return o.model, o.x(rng, 5), lambda m, *a: o.mpe(m, *a, **kw), o.shape


def check(ctx):
    for j, combo in enumerate(M.covering(ctx.thorough)):
        leaf = ["normal", "categorical"][j % 2]
        ctx.run(f"ties-{j}", {**combo, "leaf": leaf}, ties, ctx,
                lambda r, c=combo, lf=leaf, d=bool(j // 2 % 2): tied_einet(r, c, lf, d), f"{combo['structure']} {combo['layer']} {leaf}")
    for j in range(ctx.n(4, 20)):
        for kind in ("conv", "mix", "mixconv"):
            ctx.run(f"ties-{kind}-{j}", {"kind": kind, "j": j}, ties, ctx,
                    lambda r, k=kind, jj=j + ctx.seed: tied_other(r, k, jj, bool(jj % 2)), kind)
    for j in range(ctx.n(28, 140)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j)
    combos = M.covering(ctx.thorough)
    leaves = ["categorical", "normal", "bernoulli", "binomial", "ratnormal", "multi"]
    for rep in range(ctx.n(6, 20)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 6]
            ctx.run(f"ref-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, against_reference, ctx, combo, leaf)
    for j, combo in enumerate(combos):
        if combo["structure"] == "top-down" and combo["depth"] < 2:
            ctx.run(f"mvn-{j}", {**combo, "leaf": "mvn"}, against_reference, ctx, combo, "mvn")
    for j in range(ctx.n(60, 300)):
        leaf = ["categorical", "bernoulli", "binomial"][(j // 2) % 3]
        ctx.run(f"exact-{j}-{leaf}", {"leaf": leaf, "j": j}, exact, ctx, j, leaf)
    for leaf in ("bernoulli", "binomial", "categorical", "multi"):
        ctx.run(f"extreme-{leaf}", {"leaf": leaf}, extreme, ctx, leaf)
    for j in range(ctx.n(12, 60)):
        for kind in ("conv", "mix", "pwl", "mixconv"):
            ctx.run(f"other-{j}-{kind}", {"kind": kind, "j": j}, other, ctx, kind, j + ctx.seed)
