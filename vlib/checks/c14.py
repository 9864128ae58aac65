"""C14: saving, loading and copying preserve the model."""
import copy
import io
import pickle

import numpy as np
import torch

from .. import models as M
from .. import others as O
from ..core import Violation, expect

LEVEL = "exploration"
RULE = ("one evaluation = one bitwise comparison of a likelihood or seeded sample tensor between original and copy, or one "
        "storage-disjointness/independence comparison; distinct = distinct (configuration, way of copying)")
MIN_EVALS, MIN_DISTINCT = 5000, 200


def probes(cfg, rng, leaf):
    x = M.random_x(cfg, rng, 5)
    ev = x.clone()
    ev[torch.tensor(rng.random(ev.shape) < 0.5)] = torch.nan

    def run(m):
        out = {"ll": m(x).detach(), "sample": m.sample(num_samples=6, seed=3),
               "sample-diff": m.sample(num_samples=4, seed=3, is_differentiable=True).detach(), "mpe0": m.mpe()}
        if leaf != "mvn":
            out["ll-missing"] = m(ev).detach()
            out["cond"] = m.sample(evidence=ev, seed=4)
            out["mpe"] = m.mpe(evidence=ev)
        if cfg.num_classes > 1:
            out["class"] = m.sample(num_samples=4, class_index=1, seed=5)
            out["posterior"] = m.posterior(x).detach()
        return out

    return run


def same(ctx, a, b, what):
    for k in a:
        ctx.tick()
        if not (a[k].shape == b[k].shape and a[k].dtype == b[k].dtype and torch.equal(a[k], b[k])):
            raise Violation(f"copy-differs-{what}", f"{what}: probe '{k}' differs from the original",
                            got=b[k].flatten()[:5], want=a[k].flatten()[:5])


def storages(m):
    out = {}
    for mod_name, mod in m.named_modules():
        for d in (mod._parameters, mod._buffers):
            for k, t in d.items():
                if t is not None:
                    out[f"{mod_name}.{k}"] = t.untyped_storage().data_ptr()
    return out


def ways(cfg, model):
    from simple_einet.einet import Einet

    def reload(via):
        buf = io.BytesIO()
        if via == "file":
            torch.save(model.state_dict(), buf)
            buf.seek(0)
            sd = torch.load(buf)
        else:
            sd = model.state_dict()
        m = Einet(cfg)
        r = m.load_state_dict(sd)
        expect(not r.missing_keys and not r.unexpected_keys, "state-dict-keys", f"{r}")
        return m.eval()

    def whole():
        buf = io.BytesIO()
        torch.save(model, buf)
        buf.seek(0)
        return torch.load(buf, weights_only=False)

    def twice():
        a = reload("file")
        b = Einet(cfg)
        b.load_state_dict(copy.deepcopy(a.state_dict()))
        return b.eval()

    return {"state_dict": lambda: reload("direct"), "checkpoint": lambda: reload("file"), "torch.save": whole,
            "pickle": lambda: pickle.loads(pickle.dumps(model)), "deepcopy": lambda: copy.deepcopy(model),
            "reload-twice": twice, "copy-of-copy": lambda: copy.deepcopy(pickle.loads(pickle.dumps(model)))}


def case(rng, ctx, combo, leaf):
    F = 2 ** combo["depth"] * 2 + int(rng.integers(0, 3)) if leaf == "mvn" else None
    dropout = float(rng.choice([0.0, 0.0, 0.3]))
    cfg = M.make_cfg(rng, leaf=leaf, max_F=9, F=F, dropout=dropout, **combo)
    mode = rng.choice(["init", "random", "trained"])
    model = M.build(cfg, rng, mode="random" if mode != "init" else "init")
    probe = probes(cfg, rng, leaf)
    if mode == "trained":
        M.train_steps(model, M.random_x(cfg, rng, 16), steps=3)
    if rng.random() < 0.5:
        probe(model)  # a used model
    want = probe(model)
    # mode switches
    model.train()
    model.eval()
    same(ctx, want, probe(model), "train-eval")
    if dropout == 0.0:
        model.train()
        same(ctx, want, probe(model), "train-mode")
        model.eval()
    src = storages(model)
    for what, make in ways(cfg, model).items():
        torch.manual_seed(int(rng.integers(1 << 30)))
        c = make()
        expect(not c.training, "mode-lost", f"{what}: training mode changed")
        same(ctx, want, probe(c), what)
        same(ctx, want, probe(model), f"original-after-{what}")
        if dropout > 0:  # the same dropout draws for the same generator state
            x = M.random_x(cfg, rng, 4)
            outs = []
            for m in (model, c):
                m.train()
                torch.manual_seed(5)
                outs.append(m(x.clone()).detach())
                m.eval()
            ctx.tick()
            expect(torch.equal(*outs), f"copy-differs-dropout", f"{what}: training-mode likelihoods differ for the same seed")
        # independence in both directions
        dst = storages(c)
        expect(src.keys() == dst.keys(), "storages", f"{what}: different tensors {set(src) ^ set(dst)}")
        shared = [k for k in src if src[k] == dst[k] and src[k] != 0]
        expect(not shared, "shared-storage", f"{what}: copy shares memory with the original: {shared[:3]}")
        ctx.tick(len(src))
        M.randomize(c, rng)
        with torch.no_grad():
            for b in c.buffers():
                b.zero_()
        same(ctx, want, probe(model), f"original-after-changing-{what}")
        ctx.seen(M.key(cfg) + what)
    c = ways(cfg, model)[str(rng.choice(["deepcopy", "checkpoint", "pickle"]))]()
    M.train_steps(model, M.random_x(cfg, rng, 8), steps=1)
    same(ctx, want, probe(c), "copy-after-training-original")
    # two models of one configuration object share nothing
    from simple_einet.einet import Einet

    first, second = Einet(cfg), Einet(cfg)
    a, b = storages(first), storages(second)
    expect(not [k for k in a if a[k] == b.get(k) and a[k] != 0], "shared-storage", "two models of one configuration share memory")
    # the state dict restores a model whose random structure differs
    other = Einet(cfg)
    other.load_state_dict(model.state_dict())
    other.eval()
    same(ctx, probe(model), probe(other), "restore-structure")


def other(rng, ctx, kind, j):
    """ConvPc, Mixture, Einets over piecewise-linear and multivariate-normal leaves."""
    o = O.build(rng, kind, j)
    m = o.model
    probe = o.probe(rng, 5)
    if rng.random() < 0.5:
        for q in o.all_queries(rng, 3).values():
            q(m)
    want = probe(m)
    m.train()
    m.eval()
    same(ctx, want, probe(m), "train-eval")

    def reload(via):
        sd = m.state_dict()
        if via == "file":
            buf = io.BytesIO()
            torch.save(sd, buf)
            buf.seek(0)
            sd = torch.load(buf, weights_only=False)
        c = o.empty()
        r = c.load_state_dict(sd)
        expect(not r.missing_keys and not r.unexpected_keys, "state-dict-keys", f"{kind}: {r}")
        return c.eval()

    def whole():
        buf = io.BytesIO()
        torch.save(m, buf)
        buf.seek(0)
        return torch.load(buf, weights_only=False)

    def over():
        """Loaded over a model that was already set up otherwise."""
        c = O.build(np.random.default_rng(j + 99), kind, j).model if kind in ("conv",) else o.empty()
        try:
            c.load_state_dict(m.state_dict())
        except RuntimeError:  # another geometry
            c = o.empty()
            c.load_state_dict(m.state_dict())
        return c.eval()

    def twice():
        c = o.empty()
        c.load_state_dict(copy.deepcopy(reload("file").state_dict()))
        return c.eval()

    for what, make in {"state_dict": lambda: reload("direct"), "checkpoint": lambda: reload("file"), "torch.save": whole,
                       "pickle": lambda: pickle.loads(pickle.dumps(m)), "deepcopy": lambda: copy.deepcopy(m), "reload-over": over,
                       "reload-twice": twice, "copy-of-copy": lambda: copy.deepcopy(pickle.loads(pickle.dumps(m)))}.items():
        torch.manual_seed(int(rng.integers(1 << 30)))
        c = make()
        expect(not c.training, "mode-lost", f"{kind} {what}: training mode changed")
        same(ctx, want, probe(c), what)
        same(ctx, want, probe(m), f"original-after-{what}")
        src, dst = everything(m), everything(c)
        shared = [k for k in src if k in dst and src[k] == dst[k] and src[k] != 0]
        ctx.tick(len(src))
        expect(not shared, "shared-storage", f"{kind} {what}: copy shares memory with the original: {shared[:3]}")
        M.randomize(c, rng)
        with torch.no_grad():
            for b in c.buffers():
                b.zero_()
        same(ctx, want, probe(m), f"original-after-changing-{what}")
        ctx.seen(o.key + what)
    # a copy does not follow the original
    c = copy.deepcopy(m) if rng.random() < 0.5 else reload("file")
    M.randomize(m, rng, 0.7, 0.7)
    same(ctx, want, probe(c), "copy-after-changing-original")
    # nor does a snapshot of the state taken before
    d = o.empty()
    snap = copy.deepcopy(c.state_dict())
    M.randomize(c, rng, 0.7, 0.7)
    d.load_state_dict(snap)
    same(ctx, want, probe(d.eval()), "state-taken-before")


def everything(m):
    """Storage addresses of every tensor reachable from the modules, buffers and plain attributes alike."""
    out = {}

    def walk(t, path, depth):
        if isinstance(t, torch.Tensor):
            if t.numel():
                out[path] = t.untyped_storage().data_ptr()
        elif depth < 5 and isinstance(t, dict):
            for k, v in t.items():
                walk(v, f"{path}.{k}", depth + 1)
        elif depth < 5 and isinstance(t, (list, tuple)):
            for i, v in enumerate(t):
                walk(v, f"{path}.{i}", depth + 1)

    for name, mod in m.named_modules():
        for k, v in mod.__dict__.items():
            if k != "_modules":
                walk(v, f"{name}.{k}", 0)
    return out


def check(ctx):
    combos = M.covering(ctx.thorough)
    leaves = ["normal", "categorical", "bernoulli", "binomial", "ratnormal", "multi", "mvn"]
    for rep in range(ctx.n(1, 8)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + 2 * rep + ctx.seed) % 7]
            if leaf == "mvn" and combo["structure"] == "bottom-up":
                leaf = "normal"
            ctx.run(f"copy-{rep}-{j}-{leaf}", {**combo, "leaf": leaf}, case, ctx, combo, leaf)
    for j in range(ctx.n(6, 40)):
        for kind in ("conv", "mix", "pwl", "mixconv", "mvn"):
            ctx.run(f"other-{j}-{kind}", {"kind": kind, "j": j}, other, ctx, kind, j + ctx.seed)
