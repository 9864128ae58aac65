"""C26: training utilities optimise and report the true objective and leave batches alone."""
import contextlib
import copy
import io
import os
import re
import sys
import tempfile
from types import SimpleNamespace

import numpy as np
import torch
from omegaconf import OmegaConf
from scipy.special import log_softmax, logsumexp

from .. import env, ref
from .. import models as M
from ..core import Violation, close, expect, maxdiff
from simple_einet.dist import Dist
from simple_einet.einet import Einet, EinetConfig
from simple_einet.layers.distributions.normal import Normal
from simple_einet.mixture import Mixture
from simple_einet.sampling_utils import init_einet_stats
from simple_einet.utils import calc_bpd

LEVEL = "exploration"
RULE = ("one evaluation = one reported loss, metric or initialised parameter compared with its independent float64 value; "
        "distinct = distinct (utility, configuration, kind of batch)")
MIN_EVALS, MIN_DISTINCT = 3000, 150
ASSUMPTIONS = ("the training modules are driven on CPU with a recording stand-in for the experiment logger",
               "generative training is judged for single-class models (the loss of several class heads is their mean)")


def lit():
    """models_pl and main are scripts of the repository's top level; they read ./PROJECT_NAME when imported."""
    cwd = os.getcwd()
    try:
        os.chdir(env.REPO)
        import main
        import models_pl
    finally:
        os.chdir(cwd)
    for m in (main, models_pl):
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(env.REPO)), m.__file__
    return models_pl, main


SHAPES = {"digits": (1, 8, 8), "wine": (1, 13, 1), "breast_cancer": (1, 30, 1), "synth-2-clusters": (1, 2, 1), "mnist-16": (1, 16, 16)}


def make_cfg(rng, dist, dataset, classes, mixture=False, n_bits=8, structure=None, layer=None, depth=None, model="einet", epochs=10, lr=0.05):
    C, H, W = SHAPES[dataset]
    F = H * W
    structure = structure or str(rng.choice(["top-down", "bottom-up"]))
    if dist == "multivariate_normal" or mixture:
        structure = "top-down"
    if F == 1:
        structure, depth = "top-down", 0
    layer = layer or str(rng.choice(["linsum", "linsum2", "einsum"]))
    if structure == "bottom-up":
        layer = "linsum"
    d = depth if depth is not None else int(rng.integers(1, 4))
    if structure == "bottom-up":
        while F % 2 ** d:
            d -= 1
    if dist == "multivariate_normal":
        d = min(d, int(np.log2(F // 2)))
    return OmegaConf.create(dict(
        dataset=dataset, dist=dist, n_bits=n_bits, min_sigma=0.01, max_sigma=2.0, multivariate_cardinality=2,
        einet=dict(D=d, S=int(rng.integers(2, 5)), I=int(rng.integers(2, 5)), R=int(rng.integers(1, 4)), layer_type=layer, structure=structure),
        convpc=dict(channels=[3, 4], order="sum-prod", structure="top-down", kernel_size=2),
        dropout=0.0, mixture=mixture, tag=None, epochs=epochs, lr=lr, num_classes=classes, model=model)), (C, H, W)


def levels(rng, n, shape):
    return torch.from_numpy(rng.integers(0, 256, size=(n, *shape))).to(torch.uint8)


def batch(rng, dist, n, shape):
    """(batch as a data loader delivers it, 8-bit levels or None)"""
    if dist in ("binomial", "categorical"):
        lv = levels(rng, n, shape)
        return lv.float().div(255), lv.double().numpy()
    return torch.from_numpy(rng.normal(size=(n, *shape))).float(), None


def wanted_input(x, lv, dist, n_bits):
    if lv is None:
        return x.double().numpy()
    return lv if n_bits == 8 else np.floor(lv / 2 ** (8 - n_bits))


def flat(a):
    return a.reshape(a.shape[0], a.shape[1], -1)


def recorder(mod):
    rec = {}
    mod.log = lambda name, value, *a, **k: rec.__setitem__(name, float(value))
    return rec


def model_ll(spn, x):
    if isinstance(spn, Einet):
        return ref.log_likelihood(spn, flat(x))
    with torch.no_grad():
        m = copy.deepcopy(spn)
        m.eval()
        out = m(torch.from_numpy(x).float())
    return out.double().numpy().reshape(x.shape[0], -1)


def tol_of(ref_ll):
    return dict(atol=2e-3, rtol=2e-5)


def same_batch(before, after, what):
    expect(torch.equal(before[0], after[0]) and torch.equal(before[1], after[1]), "batch-altered", f"{what} changed the batch it was given",
           change=maxdiff(before[0], after[0]))


def gen_case(rng, ctx, dist, dataset, n_bits, model="einet"):
    models_pl, _ = lit()
    cfg, shape = make_cfg(rng, dist, dataset, 1, n_bits=n_bits, model=model)
    cfg.dist = Dist[dist.upper()]
    mod = models_pl.SpnGenerative(cfg, steps_per_epoch=1)
    if model == "einet":
        M.randomize(mod.spn, rng, 1.0, 0.7)
    mod.eval()
    rec = recorder(mod)
    tag = f"generative {model} {dist} {dataset} {n_bits} bits"
    for n in (1, 2, 9):
        x, lv = batch(rng, dist, n, shape)
        y = torch.from_numpy(rng.integers(0, 5, size=n))
        b = (x, y)
        keep = (x.clone(), y.clone())
        inp = wanted_input(x, lv, dist, n_bits)
        want = -model_ll(mod.spn, inp)[:, 0]
        for i, (name, step) in enumerate([("Train/loss", mod.training_step), ("Val/loss", mod.validation_step), ("Test/val_nll", None),
                                          ("Train/loss", mod.training_step)]):
            if step is None:
                mod.test_step(b, 0, 1)
                got = rec["Test/val_nll"]
            else:
                out = step(b, 0)
                got = float(out)
                expect(out.requires_grad, "no-gradient", f"{tag}: the loss is detached from the model")
                expect(rec[name] == got, "reported-loss", f"{tag}: logs {rec[name]} as {name}, optimises {got}")
            same_batch(keep, b, f"{tag} step {i}")
            expect(close(got, want.mean(), **tol_of(want)), "wrong-loss",
                   f"{tag}: step {i} reports {got:.6g}, the mean negative log-likelihood is {want.mean():.6g}", config=dict(cfg.einet))
            ctx.tick()
        d = mod.preprocess(x.clone())
        s = mod.negative_log_likelihood(d, reduction="sum")
        expect(close(float(s.detach()), want.sum(), **tol_of(want)), "wrong-loss", f"{tag}: sum reduction {float(s)} instead of {want.sum()}")
        ctx.tick()
        ctx.seen(f"{tag}|{dict(cfg.einet)}|n{n}")
    try:
        mod.negative_log_likelihood(mod.preprocess(x), reduction="median")
    except ValueError:
        pass
    else:
        raise Violation("not-refused", "an unknown reduction is accepted")
    if dist == "multivariate_normal":
        return
    for diff in (False, True) if model == "einet" else (False,):
        with torch.no_grad():
            s = mod.generate_samples(num_samples=5, differentiable=diff)
        expect(tuple(s.shape) == (5, *shape), "sample-shape", f"{tag}: generated samples have shape {tuple(s.shape)}")
        expect(bool(torch.isfinite(s).all()), "sample-value", f"{tag}: generated samples are not finite")


def disc_case(rng, ctx, dist, dataset, n_bits):
    models_pl, _ = lit()
    K = int(rng.integers(2, 6))
    cfg, shape = make_cfg(rng, dist, dataset, K, n_bits=n_bits)
    cfg.dist = Dist[dist.upper()]
    mod = models_pl.SpnDiscriminative(cfg, steps_per_epoch=1)
    M.randomize(mod.spn, rng, 1.0, 0.7)
    rec = recorder(mod)
    tag = f"discriminative {dist} {dataset} {n_bits} bits, {K} classes"
    for n in (1, 3, 16):
        x, lv = batch(rng, dist, n, shape)
        inp = wanted_input(x, lv, dist, n_bits)
        ll = model_ll(mod.spn, inp)
        post = log_softmax(ll, axis=1)
        y = np.where(rng.random(n) < 0.5, post.argmax(1), rng.integers(0, K, size=n))
        b = (x, torch.from_numpy(y))
        keep = (x.clone(), b[1].clone())
        ce = -post[np.arange(n), y].mean()
        top = np.sort(post, 1)
        clear = bool((top[:, -1] - top[:, -2] > 1e-3).all())
        acc = (post.argmax(1) == y).mean()
        for i, (pre, step) in enumerate([("Train", mod.training_step), ("Val", mod.validation_step), ("Test", None), ("Train", mod.training_step)]):
            if step is None:
                mod.test_step(b, 0, 2)
                a = rec["Test/test_accuracy"]
            else:
                got = float(step(b, 0))
                expect(rec[f"{pre}/loss"] == got, "reported-loss", f"{tag}: logs {rec[f'{pre}/loss']}, optimises {got}")
                scale = np.abs(ll).max()
                expect(close(got, ce, atol=2e-4 + 3e-6 * scale, rtol=1e-4), "wrong-loss",
                       f"{tag}: {pre} step reports {got:.6g}, the cross-entropy of the posterior is {ce:.6g}", config=dict(cfg.einet))
                a = rec[f"{pre}/accuracy"]
            if clear:
                expect(abs(a - acc) < 1e-6, "wrong-accuracy", f"{tag}: reports accuracy {a}, {acc} of the predictions are right")
            same_batch(keep, b, f"{tag} step {i}")
            ctx.tick(2)
        ctx.seen(f"{tag}|{dict(cfg.einet)}|n{n}")


def script_case(rng, ctx, classification, dist):
    """main.py: the loss that train() back-propagates and the average loss test() prints."""
    _, main = lit()
    K = int(rng.integers(2, 5)) if classification else 1
    n_bits = int(rng.choice([2, 4, 8]))
    leaf = {"binomial": "binomial", "categorical": "categorical", "normal": "normal"}[dist]
    cfg = M.make_cfg(rng, leaf=leaf, structure="top-down", R=int(rng.integers(1, 3)), K=K, depth=int(rng.integers(1, 3)), F=int(rng.integers(4, 9)),
                     C=int(rng.integers(1, 3)), k=2 ** n_bits)
    model = M.build(cfg, rng, scale=1.0, leaf_scale=0.7)
    fed, losses = [], []
    model.register_forward_pre_hook(lambda m, a: fed.append(a[0].detach().clone()))
    shape = (cfg.num_channels, cfg.num_features)
    data, want_in = [], []
    for n in (1, 5, 3):
        lv = levels(rng, n, shape)
        data.append((lv.float().div(255), torch.from_numpy(rng.integers(0, K, size=n))))
        want_in.append(lv.double().numpy() if n_bits == 8 else np.floor(lv.double().numpy() / 2 ** (8 - n_bits)))

    class Loader(list):
        dataset = [0] * sum(len(b[0]) for b in data)

    expected = []

    def backward(loss):
        x = fed[len(losses)]  # the likelihood of this step is the first evaluation since the previous step
        losses.append(float(loss.detach()))
        ll = ref.log_likelihood(model, x.double().numpy())
        y = data[len(losses) - 1][1].numpy()
        if classification:
            expected.append(-log_softmax(ll, axis=1)[np.arange(len(y)), y].mean())
        else:
            expected.append(-ll.mean())
        loss.backward()
        del fed[len(losses):]

    main.args = SimpleNamespace(debug=False, classification=classification, log_interval=1, dry_run=False)
    main.n_bits, main.n_bins, main.has_gauss_dist = n_bits, 2 ** n_bits, dist == "normal"
    main.fabric = SimpleNamespace(backward=backward)
    opt = torch.optim.Adam(model.parameters(), lr=0.01)
    keep = [(x.clone(), y.clone()) for x, y in data]
    tag = f"main.train {'classification' if classification else 'density'} {dist} {n_bits} bits"
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        main.train(main.args, model, "cpu", Loader(data), opt, 1)
    expect(len(losses) == len(data), "missing-step", f"{tag}: {len(losses)} optimisation steps for {len(data)} batches")
    for i, (g, w) in enumerate(zip(losses, expected)):
        expect(close(g, w, atol=1e-3, rtol=1e-4), "wrong-loss", f"{tag}: batch {i} optimises {g:.6g} where the objective is {w:.6g}", config=M.desc(cfg))
        same_batch(keep[i], data[i], tag)
        x = fed[i].double().numpy()
        if dist == "normal":
            lo = want_in[i] / 2 ** n_bits - 0.5
            off = x - lo
            expect(bool((off >= -1e-5).all() and (off <= 1 / 2 ** n_bits + (1 / 255 * 1e-3) + 1e-5).all()), "wrong-input",
                   f"{tag}: the dequantised input leaves its bin (offset {off.min():.4g}..{off.max():.4g})")
        else:
            expect(np.array_equal(x, want_in[i]), "wrong-input", f"{tag}: the model was not fed the reduced levels", diff=maxdiff(x, want_in[i]))
        ctx.tick(2)
    # evaluation: printed average loss over the data set
    fed.clear()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        main.test(model, "cpu", Loader(data), "Val")
    ll = np.concatenate([ref.log_likelihood(model, x.double().numpy()) for x in fed])
    avg = -(logsumexp(ll, axis=1) - np.log(K)).mean()
    m = re.search(r"Val set: Average loss: (-?[\d.]+|nan|-?inf)", out.getvalue())
    expect(m is not None, "no-report", f"main.test printed {out.getvalue()!r}")
    expect(close(float(m.group(1)), avg, atol=2e-3, rtol=1e-4), "wrong-report", f"main.test prints {m.group(1)}, average is {avg:.5f}", config=M.desc(cfg))
    if classification:
        ys = np.concatenate([b[1].numpy() for b in data])
        s = np.sort(ll, 1)
        if (s[:, -1] - s[:, -2]).min() > 1e-3:
            acc = 100 * (ll.argmax(1) == ys).mean()
            m = re.search(r"Accuracy: ([\d.]+)", out.getvalue())
            expect(m is not None and abs(float(m.group(1)) - acc) < 0.006, "wrong-report", f"main.test prints {out.getvalue()!r}, accuracy is {acc:.2f}")
    for i, b in enumerate(data):
        same_batch(keep[i], b, "main.test")
    ctx.tick(2)
    ctx.seen(f"{tag}|{M.key(cfg)}")
    # the helper
    o = torch.from_numpy(rng.normal(size=(6, 4)) * 5)
    t = torch.from_numpy(rng.integers(0, 4, size=6))
    expect(close(main.log_likelihoods(o).numpy().reshape(-1), logsumexp(o.numpy(), axis=1) - np.log(4), 1e-5, 1e-5), "wrong-report", "log_likelihoods without targets")
    expect(close(main.log_likelihoods(o, t).numpy().reshape(-1), o.numpy()[np.arange(6), t.numpy()], 1e-6, 1e-6), "wrong-report", "log_likelihoods with targets")


def init_case(rng, ctx, kind, form):
    F = int(rng.integers(2, 9)) if kind != "bottom-up" else int(rng.choice([2, 4, 8]))
    C = int(rng.integers(1, 4))
    depth = 0 if F < 2 else int(rng.integers(0, int(np.log2(F)) + 1))
    cfg = EinetConfig(num_features=F, num_channels=C, depth=depth, num_sums=2, num_leaves=int(rng.integers(1, 8)), num_repetitions=int(rng.integers(1, 4)),
                      num_classes=1, leaf_type=Normal, leaf_kwargs={}, layer_type="linsum",
                      structure="bottom-up" if kind == "bottom-up" else "top-down")
    N = int(rng.integers(20, 60))
    loc = rng.normal(size=(C, F)) * 5
    sc = np.exp(rng.normal(size=(C, F)))
    x = loc + sc * rng.normal(size=(N, C, F))
    if form == "sorted":
        x = x[np.argsort(x[:, 0, 0])]
        x = x + np.linspace(0, 8, N)[:, None, None] * rng.normal(size=(1, C, F))
    if form == "offset":
        x = x + 3000.0
    if form == "constant":
        x[:, 0, 0] = 2.5
    dt = torch.float32
    if form == "levels":
        x = np.round(np.clip(x * 5 + 100, 0, 255))
        dt = torch.uint8
    if form == "double":
        dt = torch.float64
    t = torch.from_numpy(x).to(dt)
    bs = {"ones": 1, "last": max(2, N // 2 - 1), "whole": N}.get(form, int(rng.integers(2, N)))
    if form == "last":
        N = 2 * bs + 1
        t = t[: N] if len(t) >= N else torch.cat([t, t])[:N]
    x = t.double().numpy()
    batches = [(t[i: i + bs].clone(), torch.zeros(min(bs, len(t) - i))) for i in range(0, len(t), bs)]
    keep = [b[0].clone() for b in batches]
    if kind == "mixture":
        model = Mixture(n_components=3, config=cfg)
        nets = list(model.models)
    else:
        model = Einet(cfg)
        nets = [model]
    before = {k: v.clone() for k, v in model.state_dict().items()}
    ids = {n: (id(p), p.requires_grad) for n, p in model.named_parameters()}
    with contextlib.redirect_stderr(io.StringIO()):
        init_einet_stats(model, batches)
    tag = f"init_einet_stats {kind} {form} (N={len(t)}, batch {bs})"
    for b, k in zip(batches, keep):
        expect(torch.equal(b[0], k), "batch-altered", f"{tag} changed the data")
    expect({n: (id(p), p.requires_grad) for n, p in model.named_parameters()} == ids, "parameters-replaced", f"{tag}: parameters are no longer the same objects")
    for k, v in model.state_dict().items():
        if not k.endswith(("means", "logvar")):
            same = torch.equal(torch.nan_to_num(v), torch.nan_to_num(before[k]))  # centroids are undefined before initialize()
            expect(same, "parameters-changed", f"{tag} changed {k}")
    mu, var = x.mean(0), x.var(0)
    one = 1.0 / max(len(x) - 1, 1) * len(x)
    I, R = cfg.num_leaves, cfg.num_repetitions
    sd_mu = float(np.std(mu)) if mu.size > 1 else 0.0
    sd_mu *= np.sqrt(mu.size * I * R / max(mu.size * I * R - 1, 1))
    sd_v = float(np.std(var * one)) * np.sqrt(mu.size * I * R / max(mu.size * I * R - 1, 1)) if mu.size > 1 else 0.0
    for j, net in enumerate(nets):
        leaf = net.leaf.base_leaf if hasattr(net.leaf, "base_leaf") else net.leaf
        m, lv = ref.npd(leaf.means).reshape(C, F, I, R), ref.npd(leaf.logvar).reshape(C, F, I, R)
        expect(bool(np.isfinite(m).all() and np.isfinite(lv).all()), "not-finite", f"{tag}: leaf parameters are not finite", model=j,
               means=m.reshape(-1)[:4], logvar=lv.reshape(-1)[:4])
        scale = 1e-5 * (1 + np.abs(mu).max())
        d = np.abs(m - mu[:, :, None, None]).max()
        expect(d <= 0.65 * sd_mu + scale, "not-centred", f"{tag}: a leaf mean is {d:.4g} away from the feature's mean (spread of the means {sd_mu:.4g})")
        if I * R * C * F >= 30:
            z = (m - mu[:, :, None, None]) / (0.1 * sd_mu + scale)
            expect(abs(z.mean()) * np.sqrt(z.size) < 6.5, "not-centred", f"{tag}: leaf means are not centred on the data means (bias {z.mean():.3f} noise sd)")
        v = np.exp(lv)
        lo, hi = var * (1 - 1e-4), var * one * (1 + 1e-4) + 1e-3 + 0.65 * sd_v
        slack = 1e-6 + 1e-6 * np.abs(var)
        if form == "offset":
            slack = slack + 1e-3 * (1 + var)
        bad = (v < (lo - slack)[:, :, None, None]) | (v > (hi + slack)[:, :, None, None] + 1e-6)
        expect(not bad.any(), "wrong-variance", f"{tag}: leaf variances {v[bad][:3]} for features with variance "
               f"{np.broadcast_to(var[:, :, None, None], v.shape)[bad][:3]}")
        ctx.tick(m.size * 2)
        if sd_mu > 0 and I * R > 1 and mu.size > 1:
            expect(np.ptp(m.reshape(C * F, -1), axis=1).max() > 0, "no-noise", f"{tag}: all leaves of a feature are identical")
    if len(nets) > 1 and mu.size > 1:
        lf = [ref.npd(n.leaf.base_leaf.means) for n in nets]
        expect(not np.array_equal(lf[0], lf[1]), "no-noise", f"{tag}: all mixture components are identical")
        st = [n.leaf.base_leaf.means.data_ptr() for n in nets]
        expect(len(set(st)) == len(st), "shared", f"{tag}: components share their parameters")
    with torch.no_grad():
        out = model(t[:5].float())
    expect(bool(torch.isfinite(out).all()), "not-finite", f"{tag}: likelihoods after the initialisation are not finite")
    ctx.seen(f"init|{kind}|{form}|{F},{C},{I},{R},{depth}")


def init_refuse(rng, ctx):
    from simple_einet.layers.distributions.bernoulli import Bernoulli

    cfg = EinetConfig(num_features=4, num_channels=1, depth=1, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=1, leaf_type=Bernoulli,
                      leaf_kwargs={}, layer_type="linsum", structure="top-down")
    m = Einet(cfg)
    before = copy.deepcopy(m.state_dict())
    with contextlib.redirect_stderr(io.StringIO()):
        init_einet_stats(m, [(torch.rand(5, 1, 4), torch.zeros(5))])
    for k, v in m.state_dict().items():
        expect(torch.equal(v, before[k]), "parameters-changed", f"init_einet_stats changed {k} of a Bernoulli model")
    ctx.tick()


def bpd_case(rng, ctx):
    n_bits = int(rng.integers(1, 9))
    n_bins = 2 ** n_bits
    shape = tuple(int(v) for v in rng.integers(1, 30, size=3))
    D = int(np.prod(shape))
    lp = rng.normal(size=int(rng.integers(1, 20))) * D - D
    for gauss in (False, True):
        for form in ("tensor", "column"):
            t = torch.from_numpy(lp)
            t = t if form == "tensor" else t[:, None]
            got = float(calc_bpd(t, shape, gauss, n_bins))
            # density of the dequantised image x n_bins^-D = probability of the levels
            p = lp - (D * np.log(n_bins) if gauss else 0.0)
            want = (-p / np.log(2) / D).mean()
            expect(close(got, want, 1e-6, 1e-6), "wrong-bpd", f"calc_bpd returns {got:.6f} for {n_bits}-bit images of {D} dimensions "
                   f"({'dequantised densities' if gauss else 'probabilities'}), exact {want:.6f}")
            ctx.tick()
    # a model that knows nothing costs exactly n_bits per dimension
    got = float(calc_bpd(torch.zeros(3, dtype=torch.float64), shape, True, n_bins))
    expect(abs(got - n_bits) < 1e-9, "wrong-bpd", f"the uniform density costs {got} bits per dimension at {n_bits} bits")
    got = float(calc_bpd(torch.full((3,), -D * np.log(n_bins), dtype=torch.float64), shape, False, n_bins))
    expect(abs(got - n_bits) < 1e-9, "wrong-bpd", f"the uniform distribution costs {got} bits per dimension at {n_bits} bits")
    ctx.seen(f"bpd|{n_bits}|{D}")


def train_case(rng, ctx, combo, leaf):
    for _ in range(60):
        cfg = M.make_cfg(rng, leaf=leaf, max_F=5, **combo)
        if M.n_states(cfg) is None or M.n_states(cfg) <= 300:
            break
    model = M.build(cfg, rng, mode="init")
    n = 64
    if M.domain_sizes(cfg) is not None:
        pts = M.enumerate_domain(cfg)
        p = rng.dirichlet(np.full(len(pts), 0.3))
        x = pts[rng.choice(len(pts), size=n, p=p)]
    else:
        z = rng.normal(size=(n, 1, 1))
        x = torch.from_numpy(z * rng.normal(size=(1, cfg.num_channels, cfg.num_features)) + 0.5 * rng.normal(size=(n, cfg.num_channels, cfg.num_features))).float()
    y = torch.from_numpy(rng.integers(0, cfg.num_classes, size=n))
    model.train()
    opt = torch.optim.Adam(model.parameters(), lr=0.03)
    hist = []
    start = {k: v.detach().clone() for k, v in model.named_parameters() if v.requires_grad}
    with torch.no_grad():  # the reported objective is the true one before ...
        want = -ref.log_likelihood(model, x.double().numpy())
    want0 = want[np.arange(n), y.numpy()].mean()
    for _ in range(40):
        opt.zero_grad()
        loss = -model(x).gather(1, y[:, None]).mean()
        loss.backward()
        opt.step()
        hist.append(float(loss.detach()))
    model.eval()
    tag = M.desc(cfg)
    expect(close(hist[0], want0, 1e-3, 1e-4), "wrong-loss", f"training starts from {hist[0]}, the negative log-likelihood is {want0}", config=tag)
    expect(bool(np.isfinite(hist).all()), "training-diverges", "training loss is not finite", config=tag, losses=hist[:5])
    final = -ref.log_likelihood(model, x.double().numpy())[np.arange(n), y.numpy()].mean()  # ... and after training
    expect(final < hist[0] - 1e-3, "no-progress", f"40 gradient steps changed the negative log-likelihood from {hist[0]:.5f} to {final:.5f}", config=tag)
    for k, v in model.named_parameters():
        expect(bool(torch.isfinite(v).all()), "not-finite", f"{k} is not finite after training", config=tag)
    if M.domain_sizes(cfg) is not None:
        t = M.joint_table(model, cfg)
        expect(bool((np.abs(t.sum(1) - 1) < 2e-4).all()), "invalid-after-training", f"after training the model sums to {t.sum(1)}", config=tag)
    moved = sum(int(not torch.equal(v, dict(model.named_parameters())[k])) for k, v in start.items())
    ctx.count("parameters_trained", moved)
    ctx.tick(len(hist) + 2)
    ctx.seen(f"train|{M.key(cfg)}")


def trainer_case(rng, ctx, disc, dist):
    """The whole loop through the Lightning trainer: logged metrics are those of the data, learning rate drops as configured."""
    import lightning.pytorch as pl
    from lightning.pytorch.loggers import Logger

    class Rec(Logger):
        images, metrics = [], []

        @property
        def name(self):
            return "rec"

        @property
        def version(self):
            return 0

        def log_metrics(self, metrics, step=None):
            self.metrics.append(dict(metrics))

        def log_hyperparams(self, *a, **k):
            pass

        def log_image(self, key, images, **k):
            self.images.append((key, images))

    models_pl, _ = lit()
    K = 3 if disc else 1
    E = int(rng.integers(5, 9))
    n_bits = int(rng.choice([3, 8]))
    cfg, shape = make_cfg(rng, dist, "digits", K, n_bits=n_bits, epochs=E, lr=0.02)
    cfg.dist = Dist[dist.upper()]
    # two recognisable classes
    n = 40
    y = torch.from_numpy(rng.integers(0, K, size=n))
    proto = torch.from_numpy(rng.integers(0, 256, size=(K, *shape)))
    lv = (proto[y] + torch.from_numpy(rng.integers(-20, 21, size=(n, *shape)))).clamp(0, 255)
    x = lv.float() / 255 if dist in ("binomial", "categorical") else (lv.float() / 255 - 0.5) * 3
    inp = wanted_input(x, lv.double().numpy() if dist in ("binomial", "categorical") else None, dist, n_bits)
    ds = torch.utils.data.TensorDataset(x, y)
    mk = lambda: torch.utils.data.DataLoader(ds, batch_size=16)  # noqa: E731  (last batch is smaller)
    mod = (models_pl.SpnDiscriminative if disc else models_pl.SpnGenerative)(cfg, steps_per_epoch=3)
    if disc:
        mod.on_train_epoch_end = lambda: None
    lrs = []
    keep = x.clone()
    first = -model_ll(mod.spn, inp)

    class Watch(pl.Callback):
        def on_train_epoch_start(self, trainer, m):
            lrs.append(trainer.optimizers[0].param_groups[0]["lr"])

    log = Rec()
    log.images, log.metrics = [], []
    with tempfile.TemporaryDirectory(dir=env.SCRATCH) as tmp, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        tr = pl.Trainer(max_epochs=E, logger=log, accelerator="cpu", devices=1, enable_checkpointing=False, enable_progress_bar=False,
                        enable_model_summary=False, default_root_dir=tmp, log_every_n_steps=1, num_sanity_val_steps=0, callbacks=[Watch()])
        tr.fit(mod, mk(), mk())
        res = tr.test(mod, [mk(), mk(), mk()], verbose=False)
    tag = f"Trainer {'discriminative' if disc else 'generative'} {dist}"
    expect(torch.equal(x, keep), "batch-altered", f"{tag}: the training set itself was changed", change=maxdiff(x, keep))
    want_lr = [cfg.lr * 0.1 ** sum(e >= m for m in (int(0.7 * E), int(0.9 * E))) for e in range(E)]
    if int(0.7 * E) != int(0.9 * E):
        expect(np.allclose(lrs, want_lr), "learning-rate", f"{tag}: learning rates {lrs}, configured {want_lr}")
    mod.spn.eval()
    ll = model_ll(mod.spn, inp)
    got = {k: v for d in res for k, v in d.items()}
    for name in ("train", "val", "test"):
        if disc:
            k = f"Test/{name}_accuracy"
            s = np.sort(ll, 1)
            want = (ll.argmax(1) == y.numpy()).mean()
            ok = (s[:, -1] - s[:, -2]).min() < 1e-2 or abs(got.get(k, -1) - want) < 1e-5
        else:
            k = f"Test/{name}_nll"
            want = -ll[:, 0].mean()
            ok = k in got and close(got[k], want, atol=5e-2, rtol=1e-4)
        expect(ok, "wrong-report", f"{tag}: {k} is reported as {got.get(k)}, it is {want}", config=dict(cfg.einet))
        ctx.tick()
    ce = -log_softmax(ll, axis=1)[np.arange(n), y.numpy()].mean() if disc else -ll[:, 0].mean()
    ce0 = -log_softmax(-first, axis=1)[np.arange(n), y.numpy()].mean() if disc else first[:, 0].mean()
    expect(ce < ce0, "no-progress", f"{tag}: objective {ce0:.4f} before and {ce:.4f} after training")
    if not disc:
        expect(len(log.images) == E, "no-images", f"{tag}: {len(log.images)} sample grids for {E} epochs")
    ctx.tick(3)
    ctx.seen(f"{tag}|{dict(cfg.einet)}|{n_bits}")


def tools_case(rng, ctx):
    """Seeding, anomaly detection and annealing helpers of exp_utils."""
    import random

    lit()  # puts exp_utils within reach
    cwd = os.getcwd()
    try:
        os.chdir(env.REPO)
        import exp_utils as X
    finally:
        os.chdir(cwd)

    def draws():
        return (random.random(), float(np.random.rand()), float(torch.rand(())))

    old = os.environ.get("PYTHONHASHSEED")
    s = int(rng.integers(1 << 31))
    try:
        X.seed_all_rng(s)
        a = draws()
        draws()
        X.seed_all_rng(s)
        expect(draws() == a, "seeding", f"seed_all_rng({s}) does not determine the random, numpy and torch generators")
        X.seed_all_rng(s + 1)
        b = draws()
        expect(all(p != q for p, q in zip(a, b)), "seeding", "different seeds give the same draws")
        X.seed_all_rng()  # a random seed
        c = draws()
        X.seed_all_rng()
        expect(draws() != c and c != a, "seeding", "seed_all_rng() without a seed repeats itself")
        seen = []
        for w in range(4):
            torch.manual_seed(s)
            X.worker_init_reset_seed(w)
            seen.append(draws())
        expect(all(len({t[i] for t in seen}) == 4 for i in range(3)), "seeding", "workers share their random streams")
        torch.manual_seed(s)
        X.worker_init_reset_seed(2)
        expect(draws() == seen[2], "seeding", "a worker's seed does not follow from the global one")
    finally:
        if old is None:
            os.environ.pop("PYTHONHASHSEED", None)
        else:
            os.environ["PYTHONHASHSEED"] = old
    for bad in (float("nan"), float("inf"), -float("inf")):
        t = torch.zeros(5)
        t[int(rng.integers(5))] = bad
        try:
            X.detect_anomaly(t, 3)
        except FloatingPointError:
            pass
        else:
            raise Violation("anomaly-missed", f"detect_anomaly accepts a loss of {bad}")
    X.detect_anomaly(torch.tensor([3e38, -3e38, 0.0]), 3)
    E = int(rng.integers(1, 100))
    taus = [X.anneal_tau(e, E) for e in range(E + 1)]
    expect(taus[0] == 1.0 and min(taus) >= 0.5 and all(p >= q for p, q in zip(taus, taus[1:])), "anneal", f"annealed temperatures {taus[:5]}..{taus[-1]}")
    p = torch.nn.Linear(int(rng.integers(1, 9)), 3)
    n = X.count_params(p)
    p.bias.requires_grad_(False)
    expect(n - X.count_params(p) == 3 and n == p.weight.numel() + 3, "count-params", "count_params is not the number of trainable parameters")
    ctx.tick(12)
    ctx.seen(f"tools|{E}")


def run_main_pl(main_pl, cfg, ds, batch_size, tmp):
    """main_pl.main(cfg) with the experiment logger, hydra's run directory and the data set replaced."""
    from lightning.pytorch.loggers import Logger

    class Rec(Logger):
        def __init__(self, **k):
            super().__init__()
            Rec.metrics = []

        name = property(lambda self: "rec")
        version = property(lambda self: 0)
        save_dir = property(lambda self: None)

        def log_metrics(self, metrics, step=None):
            Rec.metrics.append(dict(metrics))

        def log_hyperparams(self, *a, **k):
            pass

        def log_image(self, key, images, **k):
            pass

    asked = {}

    def loaders(**k):
        asked.update(k)
        return tuple(torch.utils.data.DataLoader(ds, batch_size=batch_size) for _ in range(3))

    old = {k: getattr(main_pl, k) for k in ("HydraConfig", "WandbLogger", "wandb", "build_dataloader")}
    cwd = os.getcwd()
    env_old = dict(os.environ)
    try:
        os.chdir(tmp)
        main_pl.HydraConfig = SimpleNamespace(get=lambda: SimpleNamespace(runtime=SimpleNamespace(output_dir=tmp)))
        main_pl.WandbLogger = Rec
        main_pl.wandb = SimpleNamespace(Settings=lambda **k: None, finish=lambda: None)
        main_pl.build_dataloader = loaders
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            main_pl.main(cfg)
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env_old)
        for k, v in old.items():
            setattr(main_pl, k, v)
    out = {}
    for m in Rec.metrics:
        out.update(m)
    return out, asked


def main_pl_case(rng, ctx, dist, form):
    """The Lightning script as a whole: reported test metrics are those of the saved model on the data, runs are reproducible."""
    models_pl, _ = lit()
    hook = sys.excepthook
    cwd = os.getcwd()
    try:
        os.chdir(env.REPO)
        import main_pl
    finally:
        os.chdir(cwd)
        sys.excepthook = hook  # rich installs its own
    disc = form == "classification"
    K = 3 if disc else (2 if form == "mixture" else 1)
    n = 30
    base, shape = make_cfg(rng, dist, "digits", K, n_bits=int(rng.choice([2, 8])) if form != "mixture" else 8)
    proto = torch.from_numpy(rng.integers(0, 256, size=(3, *shape)))
    y = torch.from_numpy(rng.integers(0, 3, size=n))
    lv = (proto[y] + torch.from_numpy(rng.integers(-30, 31, size=(n, *shape)))).clamp(0, 255)
    discrete = dist in ("binomial", "categorical")
    x = lv.float() / 255 if discrete else (lv.float() / 255 - 0.5) * 3
    keep = x.clone()
    ds = torch.utils.data.TensorDataset(x, y)
    cfg = OmegaConf.load(os.path.join(env.REPO, "conf", "config.yaml"))
    for k in ("defaults", "hydra"):
        cfg.pop(k, None)
    runs = []
    for i in range(2):
        with tempfile.TemporaryDirectory(dir=env.SCRATCH) as tmp:
            c = OmegaConf.merge(cfg, base, dict(data_dir=tmp, results_dir=tmp, seed=int(ctx.seed) + 5, tag="t", group_tag="g", epochs=2, lr=0.02, dist=dist,
                                                gpu=0, profiler=None, precision="32", classification=disc, mixture=form == "mixture",
                                                einet=dict(structure="top-down") if form == "mixture" else {},
                                                init_leaf_data=form == "init", num_workers=0, batch_size=12, debug=False))
            torch.manual_seed(int(rng.integers(1 << 30)))  # whatever state the process is in
            got, asked = run_main_pl(main_pl, c, ds, 12, tmp)
            path = os.path.join(tmp, "model.pt")
            expect(os.path.exists(path), "no-checkpoint", f"main_pl {dist} {form}: no checkpoint was saved")
            cls = models_pl.SpnDiscriminative if disc else models_pl.SpnGenerative
            mod = cls.load_from_checkpoint(path, weights_only=False)
            mod.eval()
        runs.append((got, mod))
    expect(torch.equal(x, keep), "batch-altered", f"main_pl {dist} {form}: the data set was changed", change=maxdiff(x, keep))
    expect(asked.get("normalize") == (dist in ("normal", "normal_rat", "multivariate_normal")) and asked.get("loop") is False and
           asked.get("dataset_name") == "digits" and asked.get("batch_size") == 12, "wrong-data", f"main_pl {dist}: asks for data with {asked}")
    a, b = runs[0][1].state_dict(), runs[1][1].state_dict()
    expect(a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a), "not-reproducible", f"main_pl {dist} {form}: two runs with one seed differ",
           keys=[k for k in a if k in b and not torch.equal(a[k], b[k])][:5])
    got, mod = runs[1]
    with torch.no_grad():
        if form == "mixture":
            if not discrete:
                expect(bool(torch.isfinite(mod.spn.centroids).all()), "not-finite", "mixture centroids")
            # the checkpoint does not hold the clusters' assignment function, judge the reported value only for finiteness
            expect(np.isfinite(got["Test/test_nll"]), "wrong-report", f"main_pl {dist} mixture: reports {got}")
        else:
            inp = wanted_input(x, lv.double().numpy() if discrete else None, dist, c.n_bits)
            ll = model_ll(mod.spn, inp)
            for name in ("train", "val", "test"):
                if disc:
                    k, want = f"Test/{name}_accuracy", (ll.argmax(1) == y.numpy()).mean()
                    s = np.sort(ll, 1)
                    ok = (s[:, -1] - s[:, -2]).min() < 1e-2 or abs(got.get(k, -1) - want) < 1e-5
                else:
                    k, want = f"Test/{name}_nll", -ll[:, 0].mean()
                    ok = k in got and close(got[k], want, atol=5e-2, rtol=1e-4)
                expect(ok, "wrong-report", f"main_pl {dist} {form}: {k} reported as {got.get(k)}, the saved model has {want}", config=dict(base.einet))
    ctx.tick(6)
    ctx.seen(f"main_pl|{dist}|{form}|{dict(base.einet)}")


def check(ctx):
    for dist in ("normal", "normal_rat", "binomial", "categorical", "multivariate_normal"):
        for ds in ("digits", "wine", "breast_cancer", "mnist-16"):
            if dist == "multivariate_normal" and ds == "wine":
                continue
            for i in range(ctx.n(1, 8)):
                bits = [8, 3, 1, 5, 8, 2, 6, 4][i] if i else int(np.random.default_rng(ctx.seed + len(ds) + len(dist)).integers(1, 9))
                if dist not in ("binomial", "categorical"):
                    bits = 8
                ctx.run(f"gen-{dist}-{ds}-{i}", {"dist": dist, "dataset": ds}, gen_case, ctx, dist, ds, bits)
                ctx.run(f"disc-{dist}-{ds}-{i}", {"dist": dist, "dataset": ds}, disc_case, ctx, dist, ds, bits)
        if dist in ("binomial", "categorical"):
            for b in range(1, 9):
                ctx.run(f"gen-{dist}-bits{b}", {"dist": dist, "bits": b}, gen_case, ctx, dist, "digits", b)
    for dist in ("normal", "binomial"):
        for i in range(ctx.n(1, 5)):
            ctx.run(f"gen-conv-{dist}-{i}", {"dist": dist}, gen_case, ctx, dist, "digits", 8, "convpc")
    for cl in (False, True):
        for dist in ("normal", "binomial", "categorical"):
            for i in range(ctx.n(3, 30)):
                ctx.run(f"main-{cl}-{dist}-{i}", {"dist": dist}, script_case, ctx, cl, dist)
    for kind in ("top-down", "bottom-up", "mixture"):
        for form in ("plain", "ones", "last", "whole", "sorted", "offset", "constant", "levels", "double"):
            for i in range(ctx.n(3, 40)):
                ctx.run(f"init-{kind}-{form}-{i}", {"kind": kind, "form": form}, init_case, ctx, kind, form)
    for i in range(ctx.n(5, 40)):
        ctx.run(f"tools-{i}", {}, tools_case, ctx)
    ctx.run("init-other-leaf", {}, init_refuse, ctx)
    for i in range(ctx.n(40, 400)):
        ctx.run(f"bpd-{i}", {}, bpd_case, ctx)
    combos = M.covering(ctx.thorough)
    for i, c in enumerate(combos if ctx.thorough else combos[::3]):
        leaf = ("categorical", "bernoulli", "normal", "binomial", "ratnormal")[i % 5]
        ctx.run(f"train-{i}", {"combo": c, "leaf": leaf}, train_case, ctx, c, leaf)
    for disc in (False, True):
        for dist in ("normal", "binomial", "categorical") if ctx.thorough else ("normal", "categorical"):
            for i in range(ctx.n(1, 4)):
                ctx.run(f"trainer-{disc}-{dist}-{i}", {"dist": dist}, trainer_case, ctx, disc, dist)
    for dist, form in (("normal", "plain"), ("normal", "init"), ("binomial", "plain"), ("categorical", "classification"), ("normal", "classification"),
                       ("binomial", "mixture"), ("normal", "mixture"), ("normal_rat", "plain")):
        for i in range(ctx.n(1, 3)):
            ctx.run(f"main_pl-{dist}-{form}-{i}", {"dist": dist, "form": form}, main_pl_case, ctx, dist, form)
