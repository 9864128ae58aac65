"""C07: seeded sampling is reproducible and leaves the global RNG alone, also when the call raises."""
import copy
import random

import numpy as np
import torch

from .. import faults
from .. import models as M
from .. import others as O
from ..core import Violation, expect

LEVEL = "fault_enumeration"
RULE = ("one evaluation = one seeded (or fault-injected) sampling call whose result and generator state are compared "
        "bitwise; distinct = distinct (configuration, query, injected call position)")
MIN_EVALS, MIN_DISTINCT = 1500, 800
ASSUMPTIONS = ("faults are raised at Python-level torch calls",)

# pairwise distinct in the 32 bits torch's generator uses; some pairs differ in one high bit only
SEEDS = [0, 1, 7, 123456789, 2**40 + 3, 1 + 2**16, 7 + 2**24, 1 + 2**31, 2**32 - 2]


def rng_state():
    return (torch.get_rng_state().numpy().tobytes(), str(np.random.get_state()), str(random.getstate()))


def queries(cfg, rng, n=24):
    """name -> fn(model, seed); every query draws enough randomness for draws to differ."""
    x = M.random_x(cfg, rng, n)
    ev = x.clone()
    ev[torch.tensor(rng.random(ev.shape) < 0.6)] = torch.nan
    ev[:, :, 0] = torch.nan
    sc = list(range(cfg.num_features - 1))
    q = {
        "plain": lambda m, s: m.sample(num_samples=n, seed=s),
        "evidence": lambda m, s: m.sample(evidence=ev, seed=s),
        "scopes": lambda m, s: m.sample(evidence=x, marginalized_scopes=sc, seed=s),
        "leaf-mode": lambda m, s: m.sample(num_samples=n, seed=s, mpe_at_leaves=True),
        "tempered": lambda m, s: m.sample(num_samples=n, seed=s, temperature_sums=0.7, temperature_leaves=1.3),
        "diff": lambda m, s: m.sample(num_samples=n, seed=s, is_differentiable=True).detach(),
        "diff-evidence": lambda m, s: m.sample(evidence=ev, seed=s, is_differentiable=True).detach(),
    }
    if cfg.num_classes > 1:
        q["class"] = lambda m, s: m.sample(num_samples=n, class_index=1, seed=s)
        cl = [int(i) for i in rng.integers(0, cfg.num_classes, size=n)]
        q["class-list"] = lambda m, s: m.sample(class_index=cl, seed=s)
    if cfg.leaf_type.__name__ in ("Normal",) and cfg.structure == "top-down":
        q["leaf-params"] = lambda m, s: m.sample(num_samples=n, seed=s, return_leaf_params=True)
    return q


def disturb(model, cfg, rng):
    k = int(rng.integers(0, 6))
    x = M.random_x(cfg, rng, 3)
    if k == 0:
        torch.manual_seed(int(rng.integers(0, 1000)))
    elif k == 1:
        torch.rand(17)
    elif k == 2:
        model.sample(num_samples=2)
    elif k == 3:
        x[:, :, 0] = torch.nan
        model.sample(evidence=x, seed=int(rng.integers(1000)))
    elif k == 4:
        model(x)
    else:
        x[:, :, 0] = torch.nan
        model.mpe(evidence=x)


def repro(rng, ctx, combo, leaf):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=8, **combo)
    model = M.build(cfg, rng, scale=0.7, leaf_scale=0.5)
    for name, q in queries(cfg, rng).items():
        ref = {}
        for s in SEEDS:
            st = rng_state()
            ref[s] = q(model, s).clone()
            expect(rng_state() == st, "global-rng-changed", f"seeded call ({name}, seed {s}) changed the global generators")
            nxt = torch.rand(4)
            torch.set_rng_state(torch.from_numpy(np.frombuffer(st[0], dtype=np.uint8).copy()))
            expect(torch.equal(nxt, torch.rand(4)), "global-rng-changed", "random stream differs after a seeded call")
            ctx.tick(2)
        for s in SEEDS + [SEEDS[int(rng.integers(len(SEEDS)))]]:
            for _ in range(int(rng.integers(1, 4))):
                disturb(model, cfg, rng)
            r = q(model, np.int64(s) if rng.random() < 0.25 else s)
            ctx.tick()
            expect(torch.equal(r, ref[s]), "not-reproducible", f"same seed {s}, different result for query {name}")
        if not (name == "leaf-mode" and cfg.num_sums == 1 and cfg.num_leaves == 1):
            vals = {ref[s].numpy().tobytes() for s in SEEDS}
            if name not in ("leaf-mode", "leaf-params"):
                expect(len(vals) == len(SEEDS), "seed-ignored", f"different seeds give the same draws for query {name}")
        # no seed: determined by the global generator, and successive calls differ
        torch.manual_seed(11)
        a = q(model, None)
        b = q(model, None)
        torch.manual_seed(11)
        a2 = q(model, None)
        expect(torch.equal(a, a2), "global-generator-ignored", f"unseeded {name} is not a function of the global generator")
        if name not in ("leaf-mode", "leaf-params"):
            expect(not torch.equal(a, b), "unseeded-repeats", f"consecutive unseeded {name} calls repeat")
        ctx.tick(3)
        ctx.seen(M.key(cfg) + name)


def faulty(rng, ctx, combo, leaf, budget):
    cfg = M.make_cfg(rng, leaf=leaf, max_F=6, **combo)
    model = M.build(cfg, rng, scale=0.7, leaf_scale=0.5)
    for name, q in queries(cfg, rng, n=4).items():
        want = q(model, 5).clone()
        total = faults.count_ops(lambda: q(model, 5))
        ctx.count("fault_positions_total", total)
        for at in faults.positions(rng, total, budget):
            torch.manual_seed(1000 + at)
            st = rng_state()
            op, exc, r = faults.inject(lambda: q(model, 5), at)
            ctx.tick()
            ctx.seen(M.key(cfg) + name + f"@{at}")
            if exc is None:
                ctx.count("faults_absorbed")
                continue
            ctx.count("faults_raised")
            expect(rng_state() == st, "rng-not-restored-on-error",
                   f"a seeded {name} call that raised in {op} (torch call {at}/{total}) left the global generator changed")
        expect(torch.equal(q(model, 5), want), "not-reproducible-after-error", f"{name} differs after failed calls")
    # ordinary mistakes
    x = M.random_x(cfg, rng, 3)
    wrong = {
        "bad-scope": lambda: model.sample(evidence=x, marginalized_scopes=[cfg.num_features + 3], seed=3),
        "bad-shape": lambda: model.sample(evidence=torch.zeros(2, cfg.num_channels, cfg.num_features + 1), seed=3),
        "bad-temperature": lambda: model.sample(num_samples=3, temperature_sums="a", seed=3),
    }
    if cfg.num_classes > 1:
        wrong["bad-class"] = lambda: model.sample(num_samples=3, class_index=cfg.num_classes + 5, seed=3)
    for name, q in wrong.items():
        st = rng_state()
        try:
            q()
            ctx.count("mistakes_accepted")
        except Exception:
            ctx.count("mistakes_refused")
        expect(rng_state() == st, "rng-not-restored-on-error", f"{name}: global generator changed by a refused call")
        ctx.tick()


def disturb_other(o, rng):
    k = int(rng.integers(0, 4))
    if k == 0:
        torch.manual_seed(int(rng.integers(0, 1000)))
    elif k == 1:
        torch.rand(17)
    else:
        q = o.all_queries(rng, 3)
        names = sorted(q)
        for i in range(k - 1):
            q[names[int(rng.integers(len(names)))]](o.model)


def others(rng, ctx, kind, j, budget):
    """The same for ConvPc, Mixture, and Einets over piecewise-linear and multivariate-normal leaves."""
    o = O.build(rng, kind, j)
    narrow = kind == "pwl" and o.leaf != "continuous"  # few values, possibly one per cluster
    for name, q in o.samplers(rng, 24).items():
        ref = {}
        for s in SEEDS:
            st = rng_state()
            ref[s] = q(o.model, s).clone()
            ctx.tick()
            expect(rng_state() == st, "global-rng-changed", f"{kind}: seeded call ({name}, seed {s}) changed the global generators")
        for s in SEEDS:
            disturb_other(o, rng)
            ctx.tick()
            expect(torch.equal(q(o.model, s), ref[s]), "not-reproducible", f"{kind}: same seed {s}, different result for query {name}")
        vals = {r.numpy().tobytes() for r in ref.values()}
        if name != "leaf-mode":
            expect(len(vals) == len(SEEDS) or narrow and len(vals) > 1, "seed-ignored",
                   f"{kind}: different seeds give the same draws for query {name}")
        torch.manual_seed(11)
        a, b = q(o.model, None), q(o.model, None)
        torch.manual_seed(11)
        ctx.tick(2)
        expect(torch.equal(a, q(o.model, None)), "global-generator-ignored",
               f"{kind}: unseeded {name} is not a function of the global generator")
        if name != "leaf-mode" and not narrow:
            expect(not torch.equal(a, b), "unseeded-repeats", f"{kind}: consecutive unseeded {name} calls repeat")
        ctx.seen(o.key + name)
    for name, q in o.samplers(rng, 4).items():
        want = q(o.model, 5).clone()
        total = faults.count_ops(lambda: q(o.model, 5))
        ctx.count("fault_positions_total", total)
        for at in faults.positions(rng, total, budget):
            torch.manual_seed(1000 + at)
            st = rng_state()
            op, exc, _ = faults.inject(lambda: q(o.model, 5), at)
            ctx.tick()
            ctx.seen(o.key + name + f"@{at}")
            ctx.count("faults_absorbed" if exc is None else "faults_raised")
            if exc is not None:
                expect(rng_state() == st, "rng-not-restored-on-error",
                       f"{kind}: a seeded {name} call that raised in {op} (torch call {at}/{total}) left the global generator changed")
        expect(torch.equal(q(o.model, 5), want), "not-reproducible-after-error", f"{kind}: {name} differs after failed calls")
    for name, q in o.mistakes().items():
        st = rng_state()
        try:
            q(o.model)
            ctx.count("mistakes_accepted")
        except Exception:
            ctx.count("mistakes_refused")
        ctx.tick()
        expect(rng_state() == st, "rng-not-restored-on-error", f"{kind}: {name}: global generator changed by a refused call")


def large(rng, ctx, j):
    """Image-sized models and batches: the same seed gives the same result whatever happened before."""
    cfg = M.large_cfg(rng, j)
    model = M.build(cfg, rng)
    n = int(rng.choice([1, 100, 300]))
    x = M.large_x(cfg, rng, n)
    ev = x.clone()
    ev[torch.tensor(rng.random(ev.shape) < 0.6)] = torch.nan
    sc = list(range(cfg.num_features // 2))
    qs = {"plain": lambda s: model.sample(num_samples=n, seed=s), "evidence": lambda s: model.sample(evidence=ev, seed=s),
          "scopes": lambda s: model.sample(evidence=x, marginalized_scopes=sc, seed=s),
          "diff": lambda s: model.sample(num_samples=n, seed=s, is_differentiable=True).detach()}
    for name, q in qs.items():
        st = rng_state()
        a = q(11)
        expect(rng_state() == st, "global-rng-changed", f"{name} of an image-sized model changed the global generators")
        disturb(model, cfg, rng) if cfg.leaf_type.__name__ != "MultiDistributionLayer" else torch.rand(3)
        b = q(11)
        ctx.tick(2)
        expect(torch.equal(a, b), "not-reproducible", f"{name} of an image-sized model differs with the same seed", config=M.desc(cfg))
        c = q(12)
        expect(not torch.equal(a, c), "seed-ignored", f"{name} of an image-sized model: two seeds give the same result",
               config=M.desc(cfg))
        if n > 1 and name == "plain":
            expect(not torch.equal(a[0], a[1]), "rows-identical", "rows of one seeded draw are identical", config=M.desc(cfg))
    ctx.seen(M.key(cfg) + f"large{n}")


def check(ctx):
    for j in range(ctx.n(14, 70)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j)
    combos = M.covering(ctx.thorough)
    leaves = ["normal", "categorical", "bernoulli", "ratnormal"]
    for rep in range(ctx.n(1, 4)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 4]
            ctx.run(f"repro-{rep}-{j}", {**combo, "leaf": leaf}, repro, ctx, combo, leaf)
    for rep in range(ctx.n(1, 2)):
        for j, combo in enumerate(combos):
            if not ctx.thorough and (j + ctx.seed) % 3:
                continue
            leaf = leaves[(j + rep) % 4]
            ctx.run(f"fault-{rep}-{j}", {**combo, "leaf": leaf}, faulty, ctx, combo, leaf, ctx.n(25, 100000))
    for j in range(ctx.n(3, 12)):
        for i, kind in enumerate(O.KINDS):
            ctx.run(f"other-{j}-{i}-{kind}", {"kind": kind, "j": j}, others, ctx, kind, 2 * j + ctx.seed + i // 3,
                    ctx.n(8, 100000))
    ctx.extra["fault_enumeration"] = {"complete_positions": ctx.thorough}
