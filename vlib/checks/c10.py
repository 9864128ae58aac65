"""C10: rows of a batch do not influence each other."""
import numpy as np
import torch

from .. import models as M
from .. import others as O
from ..core import Violation, close, expect, maxdiff

LEVEL = "exploration"
RULE = ("one evaluation = one row's likelihood / posterior / MPE completion compared between two batch compositions; "
        "distinct = distinct (configuration, batch composition, query)")
MIN_EVALS, MIN_DISTINCT = 10000, 300


def queries(cfg, marginal):
    q = {"ll": lambda m, x: m(x)}
    if cfg.num_classes > 1:
        q["posterior"] = lambda m, x: m.posterior(x)
    if marginal:
        q["mpe"] = lambda m, x: m.mpe(evidence=x)
        q["mpe-diff"] = lambda m, x: m.mpe(evidence=x, is_differentiable=True)
        sc = [cfg.num_features - 1, 0]
        q["ll-scopes"] = lambda m, x: m(x.nan_to_num(0.0), marginalized_scopes=sc)
        q["mpe-scopes"] = lambda m, x: m.mpe(evidence=x.nan_to_num(0.0), marginalized_scopes=sc)
    return q


def unseen(name, row):
    row = row.clone()
    if name.endswith("scopes"):
        row[:, [0, -1]] = torch.nan
    return bool(torch.isnan(row).all())


def case(rng, ctx, combo, leaf):
    F = 2 ** combo["depth"] * 2 + int(rng.integers(0, 3)) if leaf == "mvn" else None
    cfg = M.make_cfg(rng, leaf=leaf, F=F, max_F=8, **combo)
    model = M.build(cfg, rng).double()  # double: summation order cannot flip an arg-max
    marginal = leaf != "mvn"
    n = 9
    x = M.random_x(cfg, rng, n, spread=2.0).double()
    if marginal:
        miss = rng.random(x.shape) < rng.choice([0.0, 0.3, 0.7], size=(n, 1, 1))
        miss[0], miss[1] = False, True
        x[torch.tensor(miss)] = torch.nan
    if leaf == "normal":
        x[2] *= 1e3
    other = M.random_x(cfg, rng, n, spread=50.0).double()
    if leaf in ("normal", "ratnormal"):
        other *= 1e3
    allmiss = torch.full_like(x, torch.nan)
    sizes = sorted({1, 2, cfg.num_repetitions, cfg.num_classes, cfg.num_features, cfg.num_channels, cfg.num_leaves, cfg.num_sums} - {0})
    for name, q in queries(cfg, marginal).items():
        base = q(model, x.clone()).detach()
        expect(base.shape[0] == n, "shape", f"{name}: {tuple(base.shape)}")

        def compare(y, rows, what):
            y = y.detach()
            expect(y.shape == (len(rows),) + tuple(base.shape[1:]), "shape", f"{name} of {what}: shape {tuple(y.shape)}")
            if name.startswith("mpe") and cfg.num_classes > 1:
                # nothing observed: all classes are equally likely, rounding decides among them
                seen = [k for k, r in enumerate(rows) if not unseen(name, x[r])]
                y, rows = y[seen], [rows[k] for k in seen]
            b = base[rows]
            ctx.tick(len(rows))
            ctx.seen(M.key(cfg) + name + what)
            if not close(y, b, 1e-6, 1e-7):
                bad = [r for k, r in enumerate(rows) if not close(y[k], b[k], 1e-6, 1e-7)]
                raise Violation(f"batch-dependent-{name.split('-')[0]}", f"{name} of row(s) {bad} differs in batch '{what}' "
                                f"by {maxdiff(y, b)}")

        for r in range(n):
            compare(q(model, x[r:r + 1].clone()), [r], "alone")
        perm = [int(i) for i in rng.permutation(n)]
        compare(q(model, x[perm].clone()), perm, "permuted")
        for s in sizes:
            rows = [int(i) for i in rng.integers(0, n, size=s)]
            compare(q(model, x[rows].clone()), rows, f"size{s}")
        keep = [int(i) for i in rng.choice(n, size=4, replace=False)]
        for fill, what in ((other, "others-replaced"), (allmiss, "others-missing")):
            if fill is allmiss and not marginal:
                continue
            y = fill.clone()
            y[keep] = x[keep]
            compare(q(model, y)[keep], keep, what)
        y = torch.cat([x, x, other, x[:1]])
        compare(q(model, y)[n:2 * n], list(range(n)), "embedded")
        full = [r for r in range(n) if not torch.isnan(x[r]).any()]
        compare(q(model, x[full].clone()), full, "only-complete")
    # float32 as used in practice: the likelihood only up to rounding
    m32 = model.float()
    x32 = x.float()
    with torch.no_grad():
        b = m32(x32.clone())
        for r in range(n):
            a = m32(x32[r:r + 1].clone())
            ctx.tick()
            expect(close(a[0], b[r], 1e-4, 2e-6), "batch-dependent-ll", f"float32 row {r} off by {maxdiff(a[0], b[r])}")
        big = m32(x32.repeat(40, 1, 1))
        expect(close(big, b.repeat(40, 1), 1e-4, 2e-6), "batch-dependent-ll", "float32 large batch")
        # a batch of a few thousand rows whose missing values come late
        k = int(rng.choice([520, 1030, 2050]))
        lead = M.random_x(cfg, rng, 1).expand(k, -1, -1)
        for name, q in queries(cfg, marginal).items():
            if name == "mpe-diff":
                continue
            late = q(m32, torch.cat([lead, x32]))[k:]
            one = q(m32, x32.clone())
            ctx.tick(n)
            ctx.seen(M.key(cfg) + name + f"late{k}")
            if name.startswith("mpe"):
                off = ~torch.isclose(late.double(), one.double(), atol=1e-5, rtol=1e-5)
                if cfg.num_classes > 1:
                    off[[r for r in range(n) if unseen(name, x[r])]] = False
                # float32 ties may fall either way; more than one row differing does not happen by rounding
                expect(int(off.flatten(1).any(1).sum()) <= 1, f"batch-dependent-{name.split('-')[0]}", f"{name} of rows after {k} others differs")
            else:
                expect(close(late, one, 1e-4, 2e-6), f"batch-dependent-{name.split('-')[0]}", f"{name} of rows after {k} others off by {maxdiff(late, one)}")
    # sampling and MPE for one row have the shapes of any other batch
    for k in (1, 2):
        for diff in (False, True):
            s = m32.sample(num_samples=k, is_differentiable=diff)
            expect(tuple(s.shape) == (k, cfg.num_channels, cfg.num_features), "shape", f"{k} samples: {tuple(s.shape)}")
            ctx.tick()


def other(rng, ctx, kind, j):
    """ConvPc, Mixture, Einets over piecewise-linear and multivariate-normal leaves: the same row in different company."""
    o = O.build(rng, kind, j)
    m = o.model
    n = 9
    x = o.x(rng, n)
    if o.nan:
        miss = rng.random(x.shape) < rng.choice([0.0, 0.3, 0.7], size=(n,) + (1,) * (x.dim() - 1))
        miss[0], miss[1] = False, True
        x[torch.tensor(miss)] = torch.nan
    far = o.x(rng, n)
    if o.leaf in ("normal", "ratnormal", "mvn"):
        x[2] *= 30
        far *= 1e3
    judged = np.ones(n, bool)
    if kind.startswith("mix"):
        from .c18 import route

        judged = route(m, x) >= 0
    qs = {"ll": lambda v: o.ll(m, v)}
    if o.nan:
        qs["mpe"] = lambda v: o.mpe(m, v)
    if o.posterior:
        qs["posterior"] = lambda v: m.posterior(v)
    if o.scopes and (o.kind != "pwl"):
        sc = [0]
        qs["ll-scopes"] = lambda v: o.ll(m, v.nan_to_num(0.0), sc)
        ms = route(m, x.nan_to_num(0.0), sc) >= 0
        judged = judged & ms
    with torch.no_grad():
        for name, q in qs.items():
            base = q(x.clone()).detach()
            # float32 rounding of a posterior is relative to the likelihoods it is the difference of
            slack = 2e-4 + (2e-6 * o.ll(m, x).abs().amax(1) if name == "posterior" else torch.zeros(n)).numpy()
            expect(base.shape[0] == n, "shape", f"{kind} {name}: {tuple(base.shape)}")

            def compare(y, rows, what):
                expect(y.shape == (len(rows),) + tuple(base.shape[1:]), "shape", f"{kind} {name} of {what}: shape {tuple(y.shape)}")
                for k, r in enumerate(rows):
                    if not judged[r] or name == "mpe" and o.K > 1 and bool(torch.isnan(x[r]).all()):
                        ctx.count("near_ties")
                        continue
                    ctx.tick()
                    if not close(y[k], base[r], slack[r], 5e-6):
                        raise Violation(f"batch-dependent-{name.split('-')[0]}", f"{kind}: {name} of row {r} differs in batch "
                                        f"'{what}' by {maxdiff(y[k], base[r])}")
                ctx.seen(o.key + name + what)

            for r in range(n):
                compare(q(x[r:r + 1].clone()), [r], "alone")
            perm = [int(i) for i in rng.permutation(n)]
            compare(q(x[perm].clone()), perm, "permuted")
            for s in (1, 2, 3):
                rows = [int(i) for i in rng.integers(0, n, size=s)]
                compare(q(x[rows].clone()), rows, f"size{s}")
            keep = [int(i) for i in rng.choice(n, size=4, replace=False)]
            for fill, what in ((far, "others-replaced"), (torch.full_like(x, torch.nan), "others-missing")):
                if what == "others-missing" and not o.nan or kind == "pwl" and what == "others-replaced":
                    continue
                y = fill.clone()
                y[keep] = x[keep]
                compare(q(y)[keep], keep, what)
            k = int(rng.choice([520, 1030])) if x[0].numel() < 40 else 140
            lead = o.x(rng, 1).expand(k, *o.shape)
            compare(q(torch.cat([lead, x]))[k:], list(range(n)), "late")
            full = [r for r in range(n) if not torch.isnan(x[r]).any()]
            compare(q(x[full].clone()), full, "only-complete")


@torch.no_grad()
def large(rng, ctx, j):
    """Hundreds of rows through an image-sized model: every row alone, in parts and in another order."""
    cfg = M.large_cfg(rng, j)
    model = M.build(cfg, rng).double()
    n = int(rng.choice([65, 130, 257, 520]))
    x = M.large_x(cfg, rng, n).double()
    miss = rng.random(x.shape) < rng.choice([0.0, 0.3, 0.7, 0.9], size=(n, 1, 1))  # all missing: classes tie
    x[torch.tensor(miss)] = torch.nan
    perm = torch.tensor(rng.permutation(n))
    parts = [[int(i)] for i in rng.permutation(n)[:4]] + [list(range(0, n, 7)), list(range(n // 2, n)), list(range(64)), [n - 1, 0]]
    for name, q in queries(cfg, True).items():
        if name == "mpe-diff" and n > 130:
            continue
        base = q(model, x.clone())
        y = q(model, x[perm].clone())
        ctx.tick(n)
        expect(close(y, base[perm], 1e-6, 1e-7), f"batch-dependent-{name.split('-')[0]}", f"{name} changes when {n} rows are permuted",
               config=M.desc(cfg))
        for rows in parts:
            y = q(model, x[rows].clone())
            ctx.tick(len(rows))
            expect(close(y, base[rows], 1e-6, 1e-7), f"batch-dependent-{name.split('-')[0]}",
                   f"{name} of {len(rows)} rows differs from the same rows in a batch of {n}", config=M.desc(cfg), rows=rows[:10])
        ctx.seen(M.key(cfg) + name + f"large{n}")


def check(ctx):
    for j in range(ctx.n(14, 70)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j)
    combos = M.covering(ctx.thorough)
    leaves = ["normal", "categorical", "bernoulli", "binomial", "ratnormal", "multi", "mvn"]
    for rep in range(ctx.n(1, 5)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 7]
            if leaf == "mvn" and combo["structure"] == "bottom-up":
                leaf = "normal"
            ctx.run(f"rows-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, case, ctx, combo, leaf)
    for j in range(ctx.n(8, 40)):
        for kind in ("conv", "mix", "pwl", "mixconv", "mvn"):
            ctx.run(f"other-{j}-{kind}", {"kind": kind, "j": j}, other, ctx, kind, j + ctx.seed)
