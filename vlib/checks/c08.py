"""C08: queries leave no trace in the model, also when they raise half-way."""
import copy

import numpy as np
import torch

from .. import faults
from .. import models as M
from .. import others as O
from ..core import Violation, expect

LEVEL = "fault_enumeration"
RULE = ("one evaluation = one probe query on the used model compared bitwise with a fresh copy of the same parameters, "
        "or one state/mode snapshot compared; distinct = distinct (configuration, history step or injected call)")
MIN_EVALS, MIN_DISTINCT = 3000, 800
ASSUMPTIONS = ("faults are raised at Python-level torch calls",
               "forward passes with a cache index are C15's subject and not part of the histories")


class Probe:
    def __init__(self, cfg, rng):
        self.x = M.random_x(cfg, rng, 3)
        self.ev = self.x.clone()
        self.ev[torch.tensor(rng.random(self.x.shape) < 0.5)] = torch.nan
        self.ev[0, :, 0] = torch.nan
        self.cfg = cfg

    def __call__(self, m):
        out = {
            "ll": m(self.x).detach(),
            "ll-missing": m(self.ev).detach(),
            "sample": m.sample(num_samples=5, seed=3),
            "cond": m.sample(evidence=self.ev, seed=4),
            "mpe": m.mpe(evidence=self.ev),
            "sample-diff": m.sample(num_samples=5, seed=3, is_differentiable=True).detach(),
        }
        if self.cfg.num_classes > 1:
            out["class"] = m.sample(num_samples=4, class_index=0, seed=9)
            out["posterior"] = m.posterior(self.x).detach()
        return out


def fresh(model, cfg):
    from simple_einet.einet import Einet

    st = torch.get_rng_state()
    f = Einet(cfg)
    torch.set_rng_state(st)
    f.load_state_dict(copy.deepcopy(model.state_dict()))
    f.train(model.training)
    return f


def ops(cfg, rng):
    n = int(rng.integers(1, 7))
    x = M.random_x(cfg, rng, n)
    ev = x.clone()
    ev[torch.tensor(rng.random(ev.shape) < rng.choice([0.2, 0.6, 1.0]))] = torch.nan
    sc = list(int(i) for i in rng.choice(cfg.num_features, size=int(rng.integers(1, cfg.num_features)), replace=False))
    o = [
        ("ll", lambda m: m(x)),
        ("ll-missing", lambda m: m(ev)),
        ("ll-scopes", lambda m: m(x, marginalized_scopes=sc)),
        ("sample", lambda m: m.sample(num_samples=n)),
        ("sample-seed", lambda m: m.sample(num_samples=n, seed=1)),
        ("cond", lambda m: m.sample(evidence=ev)),
        ("cond-seed", lambda m: m.sample(evidence=ev, seed=2)),
        ("cond-scopes", lambda m: m.sample(evidence=x, marginalized_scopes=sc)),
        ("mpe", lambda m: m.mpe(evidence=ev)),
        ("mpe-scopes", lambda m: m.mpe(evidence=x, marginalized_scopes=sc)),
        ("mpe-none", lambda m: m.mpe()),
        ("diff", lambda m: m.sample(num_samples=n, is_differentiable=True)),
        ("diff-cond", lambda m: m.sample(evidence=ev, is_differentiable=True)),
        ("diff-mpe", lambda m: m.mpe(evidence=ev, is_differentiable=True)),
        ("tempered", lambda m: m.sample(num_samples=n, temperature_sums=0.3, temperature_leaves=2.0)),
        ("leafmode", lambda m: m.sample(num_samples=n, mpe_at_leaves=True)),
    ]
    if cfg.num_classes > 1:
        o += [("posterior", lambda m: m.posterior(ev)), ("class", lambda m: m.sample(num_samples=n, class_index=1)),
              ("class-list", lambda m: m.sample(class_index=[1, 0])),
              ("class-diff", lambda m: m.sample(class_index=[1, 0], is_differentiable=True))]
    bad = [
        ("bad-scope", lambda m: m.sample(evidence=x, marginalized_scopes=[cfg.num_features + 2])),
        ("bad-shape", lambda m: m.sample(evidence=torch.zeros(2, cfg.num_channels, cfg.num_features + 1))),
        ("bad-both", lambda m: m.sample(num_samples=3, evidence=x)),
        ("bad-temperature", lambda m: m.sample(evidence=ev, temperature_sums="x")),
        ("bad-x", lambda m: m(torch.zeros(2, cfg.num_channels, cfg.num_features - 1))),
    ]
    return o, bad


def same(a, b, where):
    for k in b:
        if not (a[k].shape == b[k].shape and torch.equal(a[k], b[k])):
            raise Violation(f"trace-left-{k.split('-')[0]}", f"after {where}: probe '{k}' differs from a fresh copy of the same "
                            f"parameters", got=a[k].flatten()[:6], fresh=b[k].flatten()[:6])


def compare(ctx, model, probe, want, base, where, cfg):
    same(probe(model), want, where)
    ctx.tick(len(want))
    now = faults.stored_tensors(model)
    if now != base:
        d = {k: (base.get(k), now.get(k)) for k in set(now) | set(base) if now.get(k) != base.get(k)}
        raise Violation("stored-tensors", f"after {where}: stored tensors changed: {dict(list(d.items())[:4])}")


def modes(model):
    return (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), model.training,
            tuple(m.training for m in model.modules()), tuple(p.requires_grad for p in model.parameters()),
            torch.get_default_dtype(), torch.is_anomaly_enabled())


def warm(model, probe, cfg, rng):
    """Lets lazily created constants exist, then records the set of stored tensors."""
    probe(model)
    o, _ = ops(cfg, rng)
    for _, q in o:
        q(model)
    probe(model)
    return faults.stored_tensors(model)


def scatter_modes(rng, model):
    """Layers of one model put into different modes, some parameters frozen (dropout is 0: no value depends on it)."""
    for m in model.modules():
        m.training = bool(rng.random() < 0.5)
    for p in [p for p in model.parameters() if p.requires_grad][1:]:
        if rng.random() < 0.3:
            p.requires_grad_(False)


def history(rng, ctx, combo, leaf, steps):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
    model = M.build(cfg, rng)
    probe = Probe(cfg, rng)
    twin = fresh(model, cfg)
    want = probe(twin)
    base = warm(model, probe, cfg, rng)
    if rng.random() < 0.5:
        scatter_modes(rng, model)
        ctx.count("mixed_mode_histories")
    hist = []
    for s in range(steps):
        o, bad = ops(cfg, rng)
        name, q = _pick(rng, o, bad)
        grad = bool(rng.random() < 0.5)
        with torch.set_grad_enabled(grad):
            before = modes(model)
            try:
                if rng.random() < 0.3:
                    op, exc, _ = faults.inject(lambda: q(model), int(rng.integers(1, 200)))
                    if exc is not None:
                        name += f"!{op}"
                        ctx.count("faults_in_history")
                else:
                    q(model)
            except Exception as e:
                name += f"!{type(e).__name__}"
                ctx.count("refused_calls")
            after = modes(model)
        hist.append(name)
        ctx.tick()
        expect(before == after, "mode-changed", f"after {name}: modes {before} -> {after}")
        compare(ctx, model, probe, want, base, f"history {hist[-6:]}", cfg)
        ctx.seen(M.key(cfg) + f"{s}{name}")
        if rng.random() < 0.08:  # parameters moved by hand, the fresh copy follows
            hist.append("edit-" + edit(rng, model))
            want = probe(fresh(model, cfg))
            compare(ctx, model, probe, want, base, f"history {hist[-6:]}", cfg)
        if rng.random() < 0.06:  # a training step in between: parameters move, the fresh copy follows
            M.train_steps(model, M.random_x(cfg, rng, 8), steps=1)
            for p in model.parameters():
                p.grad = None
            want = probe(fresh(model, cfg))
            hist.append("train")
            base = faults.stored_tensors(model)


def _pick(rng, o, bad):
    src = bad if rng.random() < 0.25 else o
    return src[int(rng.integers(len(src)))]


def enumerate_faults(rng, ctx, combo, leaf, budget):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=5, **combo)
    model = M.build(cfg, rng)
    probe = Probe(cfg, rng)
    want = probe(fresh(model, cfg))
    base = warm(model, probe, cfg, rng)
    o, _ = ops(cfg, rng)
    for name, q in o:
        total = faults.count_ops(lambda: q(model))
        ctx.count("fault_positions_total", total)
        for at in faults.positions(rng, total, budget):
            before = modes(model)
            op, exc, _ = faults.inject(lambda: q(model), at)
            ctx.count("faults_raised" if exc is not None else "faults_absorbed")
            expect(modes(model) == before, "mode-changed-on-error", f"{name} raised in {op} (call {at}/{total})")
            compare(ctx, model, probe, want, base, f"{name} raised in {op} (torch call {at}/{total})", cfg)
            ctx.seen(M.key(cfg) + f"{name}@{at}")


def edit(rng, model):
    """Parameters moved the way users do it: in place, through .data, by loading, by replacing the tensor."""
    how = str(rng.choice(["data", "no_grad", "load", "replace"]))
    ps = [(n, p) for n, p in model.named_parameters() if p.requires_grad]
    new = {n: torch.tensor(rng.normal(0, 0.8, size=tuple(p.shape)), dtype=p.dtype) for n, p in ps}
    if how == "load":
        sd = model.state_dict()
        model.load_state_dict({**sd, **new})
        return how
    for n, p in ps:
        if how == "data":
            p.data.copy_(new[n])
        elif how == "replace":
            p.data = new[n]
        else:
            with torch.no_grad():
                p.copy_(new[n])
    return how


def others(rng, ctx, kind, j, steps, budget):
    """Histories of queries, faults and parameter edits on the other models, probed against a fresh copy."""
    o = O.build(rng, kind, j)
    m = o.model
    probe = o.probe(rng)
    want = probe(o.fresh())
    for q in o.all_queries(rng, 3).values():
        q(m)
    probe(m)
    base = faults.stored_tensors(m)

    def judge(where):
        same(probe(m), want, where)
        ctx.tick(len(want))
        now = faults.stored_tensors(m)
        if now != base:
            d = {k: (base.get(k), now.get(k)) for k in set(now) | set(base) if now.get(k) != base.get(k)}
            raise Violation("stored-tensors", f"{kind}: after {where}: stored tensors changed: {dict(list(d.items())[:4])}")

    if rng.random() < 0.5:
        scatter_modes(rng, m)
        ctx.count("mixed_mode_histories")
    hist = []
    for s in range(steps):
        qs, bad = o.all_queries(rng, int(rng.integers(1, 6))), o.mistakes()
        src = bad if rng.random() < 0.25 else qs
        name = sorted(src)[int(rng.integers(len(src)))]
        with torch.set_grad_enabled(bool(rng.random() < 0.5)):
            before = modes(m)
            try:
                if rng.random() < 0.35:
                    op, exc, _ = faults.inject(lambda: src[name](m), int(rng.integers(1, 150)))
                    if exc is not None:
                        name += f"!{op}"
                        ctx.count("faults_in_history")
                else:
                    src[name](m)
            except Exception as e:
                name += f"!{type(e).__name__}"
                ctx.count("refused_calls")
            after = modes(m)
        hist.append(name)
        ctx.tick()
        expect(before == after, "mode-changed", f"{kind}: after {name}: modes {before} -> {after}")
        if rng.random() < 0.15:
            hist.append("edit-" + edit(rng, m))
            want = probe(o.fresh())
        judge(f"history {hist[-6:]}")
        ctx.seen(o.key + f"{s}{name}")
    for name, q in o.all_queries(rng, 3).items():
        total = faults.count_ops(lambda: q(m))
        ctx.count("fault_positions_total", total)
        for at in faults.positions(rng, total, budget):
            before = modes(m)
            op, exc, _ = faults.inject(lambda: q(m), at)
            ctx.count("faults_raised" if exc is not None else "faults_absorbed")
            expect(modes(m) == before, "mode-changed-on-error", f"{kind}: {name} raised in {op} (call {at}/{total})")
            judge(f"{name} raised in {op} (torch call {at}/{total})")
            ctx.seen(o.key + f"{name}@{at}")


def check(ctx):
    combos = M.covering(ctx.thorough)
    leaves = ["normal", "categorical", "bernoulli", "ratnormal", "binomial", "multi"]
    for rep in range(ctx.n(1, 4)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 6]
            ctx.run(f"hist-{rep}-{j}", {**combo, "leaf": leaf}, history, ctx, combo, leaf, ctx.n(14, 60))
    for j, combo in enumerate(combos):
        if not ctx.thorough and (j + ctx.seed) % 6:
            continue
        leaf = leaves[j % 6]
        ctx.run(f"fault-{j}", {**combo, "leaf": leaf}, enumerate_faults, ctx, combo, leaf, ctx.n(6, 100000))
    for j in range(ctx.n(3, 12)):
        for i, kind in enumerate(O.KINDS):
            ctx.run(f"other-{j}-{i}-{kind}", {"kind": kind, "j": j}, others, ctx, kind, 2 * j + ctx.seed + i // 3,
                    ctx.n(10, 40), ctx.n(1, 100000))
    ctx.extra["fault_enumeration"] = {"complete_positions": ctx.thorough}
