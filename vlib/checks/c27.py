"""C27: the training scripts do what their options say, end to end (main.py and main_pl.py are run for real)."""
import contextlib
import copy
import io
import os
import re
import runpy
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np
import torch
from omegaconf import OmegaConf
from PIL import Image
from scipy.special import log_softmax, logsumexp
from torch.optim.optimizer import register_optimizer_step_post_hook

from .. import env, ref
from ..core import Violation, close, expect, maxdiff
import simple_einet.data as sd
from simple_einet.einet import Einet, EinetConfig
from simple_einet.dist import Dist
from simple_einet.layers.distributions.binomial import Binomial
from simple_einet.layers.distributions.categorical import Categorical
from simple_einet.layers.distributions.normal import Normal, RatNormal
from simple_einet.mixture import Mixture
from .c26 import SHAPES, lit

LEVEL = "exploration"
RULE = ("one evaluation = one observed effect of a script run (model built, batch fed, parameter, printed or logged metric, file, "
        "picture tile) compared with what the options ask for; distinct = distinct option combinations that ran to the end")
MIN_EVALS, MIN_DISTINCT = 2000, 30
ASSUMPTIONS = ("CPU only; the wandb client and hydra's run directory are replaced by recording stand-ins",
               "main.py trains in the 16-bit mixed precision it asks for, printed losses are compared within 2 %",
               "image datasets that are not available offline are represented by in-memory loaders of the same shape")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c27-", dir=env.SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def process_state(home):
    """argv, environment, working directory, streams and default threads are put back whatever the script did."""
    argv, environ, cwd = sys.argv, dict(os.environ), os.getcwd()
    try:
        os.environ["HOME"] = home
        os.chdir(env.REPO)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.argv = argv
        os.environ.clear()
        os.environ.update(environ)
        os.chdir(cwd)


@contextlib.contextmanager
def steps_taken():
    """Learning rates of every optimizer step, whoever takes it."""
    log = []

    def hook(opt, args, kwargs):
        log.append([g["lr"] for g in opt.param_groups])

    h = register_optimizer_step_post_hook(hook)
    try:
        yield log
    finally:
        h.remove()


# ---------------------------------------------------------------- main.py
class Run:
    def __init__(self):
        self.asked, self.sample, self.mpe, self.forward, self.out, self.models = [], [], [], [], "", []


def run_main(argv, loaders, home):
    r = Run()
    real = (sd.build_dataloader, Einet.sample, Einet.mpe, Einet.forward, Einet.__init__)

    def created(self, *a, **k):
        real[4](self, *a, **k)
        r.models.append(self)

    depth = [0]

    def record(log, f):
        def g(self, *a, **k):
            depth[0] += 1
            try:
                x = f(self, *a, **k)
            finally:
                depth[0] -= 1
            if not depth[0]:  # what the script asked for, not what a query does inside
                log.append((a, k, x.detach().clone(), torch.is_grad_enabled(), self.training))
            return x

        return g

    def build(*a, **k):
        r.asked.append((a, k))
        return loaders

    out = io.StringIO()
    try:
        sd.build_dataloader = build
        Einet.sample, Einet.mpe, Einet.forward = record(r.sample, real[1]), record(r.mpe, real[2]), record(r.forward, real[3])
        Einet.__init__ = created
        with process_state(home), steps_taken() as r.rates:
            sys.argv = ["main.py"] + argv
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(os.path.join(env.REPO, "main.py"), run_name="__main__")
    finally:
        sd.build_dataloader, Einet.sample, Einet.mpe, Einet.forward, Einet.__init__ = real
    r.out = out.getvalue()
    return r


def in_memory(rng, shape, sizes, batch, levels=256):
    out = []
    for n in sizes:
        x = torch.from_numpy(rng.integers(0, levels, size=(n, *shape))).float() / (levels - 1)
        y = torch.from_numpy(rng.integers(0, 10, size=n))
        out.append(torch.utils.data.DataLoader(torch.utils.data.TensorDataset(x, y), batch_size=batch))
    return tuple(out)


def tensors(loader):
    xs, ys = zip(*[(x, y) for x, y in loader])
    return torch.cat(xs), torch.cat(ys)


def pixel_levels(x, n_bits):
    lv = torch.round(x.double() * 255 * 1e4) / 1e4  # float32 noise of k/255 or k/16
    return torch.round(lv) if n_bits >= 8 else torch.floor(lv / 2 ** (8 - n_bits) + 1e-6)


LEAF = {"normal": Normal, "normal_rat": RatNormal, "binomial": Binomial, "categorical": Categorical}


def read_tiles(path, shape, n):
    """Tiles of a picture made of 10 images per row with one pixel of padding."""
    img = np.asarray(Image.open(path)).astype(float)
    C, H, W = shape
    if img.ndim == 2:
        img = np.repeat(img[:, :, None], 3, 2)
    out = []
    for i in range(n):
        r, c = divmod(i, 10)
        t = img[1 + r * (H + 1):1 + r * (H + 1) + H, 1 + c * (W + 1):1 + c * (W + 1) + W]
        expect(t.shape[:2] == (H, W), "picture-size", f"{os.path.basename(path)} is {img.shape}, tile {i} of {n} does not fit")
        out.append(np.moveaxis(t[..., :C], -1, 0))
    return np.stack(out), img.shape


def shows(path, x, shape, gauss):
    """The picture must show exactly these images: gray values are the clipped, affinely scaled pixel values."""
    x = x.detach().double().numpy().reshape(-1, *shape)
    n = len(x)
    if n == 1:  # a single image is stored without padding
        img = np.asarray(Image.open(path)).astype(float)
        t = np.moveaxis(img[..., : shape[0]], -1, 0)[None]
        expect(t.shape == (1, *shape), "picture-size", f"{os.path.basename(path)} has shape {img.shape}")
    else:
        t, _ = read_tiles(path, shape, n)
    if gauss:
        want = np.clip(x + 0.5, 0, 1) * 255
    else:
        lo, hi = x.min(), x.max()
        want = (x - lo) / max(hi - lo, 1e-5) * 255
    bad = np.abs(t - want).max()
    expect(bad <= 1.01, "picture-content", f"{os.path.basename(path)} does not show the images that were generated", off=float(bad))
    return n


def noise(what, d):
    """Dequantised levels carry uniform noise over one level: offsets d in units of a level."""
    n = d.numel()
    expect(n < 64 or (abs(float(d.mean()) - 0.5) <= 6 * 0.289 / n ** 0.5 + 1e-3 and 0.2 < float(d.std()) < 0.38), "dequantisation",
           f"{what}: level offsets have mean {float(d.mean()):.3f} and deviation {float(d.std()):.3f} (uniform noise: 0.5 and 0.289)")


def main_case(rng, ctx, opt):
    dist, classification, shape, n_bits = opt["dist"], opt["classification"], opt["shape"], opt["n_bits"]
    C, H, W = shape
    dataset = {(1, 8, 8): "digits", (3, 32, 32): "cifar", (1, 16, 16): "mnist-16"}[shape]
    D, S, I, R = opt["D"], opt["S"], opt["I"], opt["R"]
    seed, lr, batch = int(rng.integers(1, 1000)), float(rng.choice([0.1, 0.03])), int(rng.choice([16, 7]))
    epochs = int(rng.integers(1, 3)) if opt["mode"] == "full" else 1
    sizes = (40, 20, 30)
    tl = opt.get("temperature_leaves", 1.0)
    argv = ["--dataset", dataset, "--dist", dist, "--device", "cpu", "--epochs", str(epochs), "-R", str(R), "-D", str(D), "-S", str(S), "-I", str(I),
            "--n-bits", str(n_bits), "--layer", opt["layer"], "--structure", opt["structure"], "--seed", str(seed), "--lr", str(lr), "--batch-size", str(batch)]
    if classification:
        argv.append("--classification")
    if opt["mode"] == "dry":
        argv += ["--dry-run", "--log-interval", "1"]
    if opt["mode"] == "debug":
        argv += ["--debug"]
    if dist == "normal_rat":
        argv += ["--min-sigma", "0.05", "--max-sigma", "1.5"]
    if tl != 1.0:
        argv += ["--temperature-leaves", str(tl)]
    loaders = in_memory(rng, shape, sizes, batch)
    data = [tensors(l) for l in loaders]
    gauss = dist in ("normal", "normal_rat")
    n_bins, F, what = 2 ** n_bits, H * W, f"main.py {' '.join(argv)}"

    with scratch() as home:
        r1 = run_main(argv + ["--train"], loaders, home)
        res = os.path.join(home, "results", "simple-einet", dataset)
        expect(os.path.isfile(os.path.join(res, "model.pth")), "no-model-file", f"{what}: no model.pth after training")
        # ---- the options reach the data and the model ----
        (a, k), = r1.asked
        want = dict(dataset_name=dataset, batch_size=batch, loop=False, normalize=False, seed=seed)
        for name, v in want.items():
            expect(k.get(name, None) == v, "loader-options", f"{what}: data loaders were asked for {name}={k.get(name)}, not {v}")
            ctx.tick()
        expect(len(r1.models) == 1, "model-options", f"{what}: built {len(r1.models)} models")
        c = r1.models[0].config
        kw = {"normal": {}, "normal_rat": dict(min_sigma=0.05, max_sigma=1.5), "binomial": dict(total_count=n_bins - 1),
              "categorical": dict(num_bins=n_bins)}[dist]
        K = 10 if classification else 1
        mine = EinetConfig(num_features=F, num_channels=C, depth=D, num_sums=S, num_leaves=I, num_repetitions=R, num_classes=K, leaf_type=LEAF[dist],
                           leaf_kwargs=kw, layer_type=opt["layer"], structure=opt["structure"], dropout=0.0)
        for name in ("num_features", "num_channels", "depth", "num_sums", "num_leaves", "num_repetitions", "num_classes", "leaf_type", "leaf_kwargs",
                     "layer_type", "structure"):
            expect(getattr(c, name) == getattr(mine, name), "model-options", f"{what}: {name} is {getattr(c, name)}, asked for {getattr(mine, name)}")
            ctx.tick()
        # ---- training ----
        sd_saved = torch.load(os.path.join(res, "model.pth"), weights_only=True)
        torch.manual_seed(seed)
        init = Einet(mine)
        model = Einet(mine)
        expect(set(sd_saved) == set(model.state_dict()), "model-file", f"{what}: the file holds other entries than the model it describes",
               odd=sorted(set(sd_saved) ^ set(model.state_dict()))[:6])
        model.load_state_dict(sd_saved)
        model.eval()
        live = r1.models[0].state_dict()
        for n_, p in sd_saved.items():
            q = live[n_]
            expect(torch.equal(p, q), "model-file", f"{what}: {n_} in the file is not the trained parameter")
            expect(bool(torch.isfinite(p).all()) if p.is_floating_point() else True, "model-file", f"{what}: {n_} is not finite after training")
            ctx.tick()
        nb = -(-sizes[0] // batch)
        steps = {"full": nb * epochs, "dry": epochs, "debug": min(nb, 3) * epochs}[opt["mode"]]
        # one forward pass per step (the posterior of classifiers runs another one)
        fed = [f for f in r1.forward if f[3] and f[4]]
        expect(len(fed) in (steps, 2 * steps), "training-steps", f"{what}: {len(fed)} training passes, {steps} batches to learn from")
        expect(r1.rates == [[lr]] * steps, "learning-rate", f"{what}: {len(r1.rates)} optimizer steps with rates {sorted({v for g in r1.rates for v in g})}, expected {steps} with {lr}")
        per = len(fed) // steps
        for s in range(steps):
            b = s % (nb if opt["mode"] == "full" else {"dry": 1, "debug": min(nb, 3)}[opt["mode"]])
            raw = data[0][0][b * batch:(b + 1) * batch]
            lv = pixel_levels(raw, n_bits)
            for x in (fed[s * per + j][0][0].double() for j in range(per)):
                expect(x.shape == lv.shape, "training-data", f"{what}: step {s} was fed {tuple(x.shape)}, batch is {tuple(lv.shape)}")
                if gauss:  # levels mapped to [-.5, .5] plus at most one level of noise
                    d = (x - (lv / n_bins - 0.5)) * n_bins
                    # (16-bit precision of the script does not touch the inputs)
                    expect(float(d.min()) > -1e-3 and float(d.max()) < 1 + 1e-3, "training-data", f"{what}: step {s} was not fed the batch", off=[float(d.min()), float(d.max())])
                    noise(f"{what}: step {s}", d)
                else:
                    expect(torch.equal(x, lv), "training-data", f"{what}: step {s} was not fed the pixel levels of its batch", off=float((x - lv).abs().max()))
                ctx.tick()
        moved, lead = 0, 0.0
        for (n_, p), q in zip(init.named_parameters(), (sd_saved[m] for m, _ in init.named_parameters())):
            d = (q - p.detach()).abs().max().item()
            moved += d > 0
            lead = max(lead, d)
            expect(d <= 3.2 * lr * steps + 1e-6, "learning-rate", f"{what}: {n_} moved by {d} in {steps} steps of {lr} (Adam moves at most {3.2 * lr} a step)")
            ctx.tick()
        expect(moved >= 2 and lead > 0.5 * lr, "not-trained", f"{what}: parameters moved by at most {lead} from their seeded start")
        if steps == 1:
            expect(abs(lead - lr) < 0.02 * lr, "learning-rate", f"{what}: first step is {lead}, learning rate {lr}")
        # ---- second run: evaluation of the stored model ----
        before = {f: open(os.path.join(res, f), "rb").read() for f in os.listdir(res)}
        r2 = run_main(argv, loaders, home)
        expect(open(os.path.join(res, "model.pth"), "rb").read() == before["model.pth"], "model-file", f"{what}: evaluation rewrote the model file")
        st2 = r2.models[0].state_dict()
        for n_, p in sd_saved.items():
            expect(torch.equal(p, st2[n_]), "evaluated-model", f"{what}: {n_} differs from the stored model")
        got = re.findall(r"(Train|Val|Test) set: Average loss: (\S+)", r2.out)
        expect([g[0] for g in got] == ["Train", "Val", "Test"], "evaluation-output", f"{what}: printed {got}")
        accs = re.findall(r"Accuracy: (\S+)", r2.out)
        expect(len(accs) == (3 if classification else 0), "evaluation-output", f"{what}: {len(accs)} accuracies printed")
        ev = [f for f in r2.forward if not f[3] and not f[4]]
        pos = 0
        for i, (tag, val) in enumerate(got):
            x, y = data[i]
            nbi = -(-len(x) // batch)
            xs = torch.cat([f[0][0] for f in ev[pos:pos + nbi]]).double()
            pos += nbi
            lv = pixel_levels(x, n_bits)
            d = (xs - (lv / n_bins - 0.5)) * n_bins if gauss else xs - lv
            expect(float(d.min()) > -1e-3 and float(d.max()) < (1 + 1e-3 if gauss else 1e-3), "evaluation-data", f"{what}: {tag} set was not fed to the model")
            if gauss:
                noise(f"{what}: {tag} set", d)
            ll = ref.log_likelihood(model, xs.numpy().reshape(len(x), C, F))
            nll = -(logsumexp(ll, -1) - np.log(K))
            expect(abs(float(val) - nll.mean()) <= 0.02 * max(1.0, np.abs(nll).mean()), "evaluation-loss",
                   f"{what}: prints {val} as the average loss of the {tag} set, it is {nll.mean():.4f}")
            ctx.tick()
            if classification:
                srt = np.sort(ll, -1)
                sure = srt[:, -1] - srt[:, -2] > 0.02 * np.abs(srt).max()
                hit = (ll.argmax(-1) == y.numpy())
                lo, hi = 100 * (hit & sure).mean(), 100 * (hit | ~sure).mean()
                expect(lo - 0.01 <= float(accs[i]) <= hi + 0.01, "evaluation-accuracy", f"{what}: prints accuracy {accs[i]} of the {tag} set, it lies in [{lo:.2f}, {hi:.2f}]")
                ctx.tick()
        if classification:
            expect(not r1.sample and not r2.mpe and set(before) == {"model.pth"}, "classifier-pictures", f"{what}: a classifier run generated pictures: {sorted(before)}")
        else:
            pictures(ctx, what, r1, r2, res, before, data, shape, gauss, n_bits, tl)
    ctx.seen(f"main-{dist}-{classification}-{shape}-{n_bits}-{opt['layer']}-{opt['structure']}-{opt['mode']}-{D}{S}{I}{R}-{tl}")


def pictures(ctx, what, r1, r2, res, before, data, shape, gauss, n_bits, tl):
    C, H, W = shape
    n_bins = 2 ** n_bits
    names = ["ground_truth.png"] + [f"{k}{d}{l}.png" for k in ("samples", "reconstructions") for d in ("", "-diff") for l in ("", "-mpe-leaves")] \
        + [f"{k}{d}.png" for k in ("mpe", "reconstructions_mpe") for d in ("", "-diff")]
    expect(set(before) == set(names) | {"model.pth"}, "picture-files", f"{what}: wrote {sorted(before)}")
    expect(len(r1.sample) == len(r2.sample) == 8 and len(r1.mpe) == len(r2.mpe) == 4, "picture-queries", f"{what}: {len(r1.sample)} samples, {len(r1.mpe)} mpe queries")
    # the stored model generates the very same pictures as the freshly trained one
    for f in names:
        expect(open(os.path.join(res, f), "rb").read() == before[f], "picture-reproducible", f"{what}: {f} of the stored model differs from that of the trained one")
        ctx.tick()
    for a, b in zip(r1.sample + r1.mpe, r2.sample + r2.mpe):
        expect(torch.equal(a[2], b[2]), "picture-reproducible", f"{what}: samples of the stored model differ from those of the trained one")
    x = data[2][0]
    lv = pixel_levels(x, n_bits)
    truth = lv / n_bins - 0.5 if gauss else lv
    seen_truth = None
    order = []
    for d in ("", "-diff"):
        for l in ("", "-mpe-leaves"):
            order += [("samples", d, l), ("reconstructions", d, l)]
    for (kind, d, l), (a, k, s, grad, training) in zip(order, r1.sample):
        expect(not training, "sampling-mode", f"{what}: {kind} generated in training mode")
        expect(bool(k.get("is_differentiable", False)) == (d == "-diff") and bool(k.get("mpe_at_leaves", False)) == (l != ""), "picture-queries",
               f"{what}: {kind}{d}{l}.png made with {({q: v for q, v in k.items() if q != 'evidence'})}")
        s = s.double()
        if kind == "samples":
            expect(s.numel() == 100 * C * H * W, "picture-queries", f"{what}: {s.shape} instead of 100 samples")
            flat = s.reshape(100, -1)
            expect(len(torch.unique(flat, dim=0)) > 1 or l, "picture-queries", f"{what}: all samples are equal")
        else:
            e = k["evidence"].double()
            expect(torch.equal(e.reshape(len(e), C, H, W), truth[:len(e)].float().double()) and len(e) == min(len(data[2][0]), len(e)) and len(e) > 0,
                   "picture-evidence", f"{what}: reconstructs something else than the test images")
            seen_truth = e
            kept_lower(what, kind + d + l, e, s, shape, gauss, n_bins)
        if not gauss:  # differentiable draws of binomial leaves are continuous (documented normal approximation)
            whole = bool((s == s.round()).all()) or (d and "binomial" in what)
            expect(whole and 0 <= float(s.min()) and float(s.max()) <= n_bins - 1, "picture-domain", f"{what}: {kind}{d}{l} holds values outside the {n_bins} levels",
                   lo=float(s.min()), hi=float(s.max()))
        ctx.tick(shows(os.path.join(res, f"{kind}{d}{l}.png"), s if gauss else s / n_bins, shape, gauss))
    for (kind, d), (a, k, s, grad, training) in zip([("mpe", ""), ("reconstructions_mpe", ""), ("mpe", "-diff"), ("reconstructions_mpe", "-diff")], r1.mpe):
        s = s.double()
        expect(bool(k.get("is_differentiable", False)) == (d == "-diff"), "picture-queries", f"{what}: {kind}{d}.png made with is_differentiable={k.get('is_differentiable')}")
        if kind != "mpe":
            kept_lower(what, kind + d, k["evidence"].double(), s, shape, gauss, n_bins)
        else:
            expect(k.get("evidence") is None, "picture-queries", f"{what}: {kind} has evidence")
        ctx.tick(shows(os.path.join(res, f"{kind}{d}.png"), s, shape, gauss))
    ctx.tick(shows(os.path.join(res, "ground_truth.png"), seen_truth, shape, gauss))
    if tl == 1.0:
        return
    expect(r1.sample[0][1].get("temperature_leaves") == tl, "sampling-temperature", f"{what}: samples drawn at {r1.sample[0][1].get('temperature_leaves')}")


def kept_lower(what, name, e, s, shape, gauss, n_bins):
    """The lower half of every reconstruction is the given image; the upper half is the model's."""
    C, H, W = shape
    e, s = e.reshape(-1, C, H, W), s.reshape(-1, C, H, W)
    expect(e.shape == s.shape, "reconstruction", f"{what}: {name} has shape {tuple(s.shape)}, evidence {tuple(e.shape)}")
    h = H // 2
    expect(torch.equal(e[:, :, h:], s[:, :, h:]), "reconstruction", f"{what}: {name} changes the observed lower half of the images", off=float((e - s)[:, :, h:].abs().max()))
    expect(bool(torch.isfinite(s).all()), "reconstruction", f"{what}: {name} is not finite")
    diff = (e[:, :, :h] != s[:, :, :h]).double().mean(0)
    expect(bool((diff.amax(0) > 0).all()), "reconstruction", f"{what}: {name} copies pixels of the upper half from the given image", rows=diff.amax(0).amax(1))


# ---------------------------------------------------------------- main_pl.py
class Recorder:
    """Stand-in for WandbLogger."""

    made = []

    def __new__(cls, *a, **kw):
        from lightning.pytorch.loggers.logger import Logger

        class Rec(Logger):
            def __init__(self, **kw):
                super().__init__()
                self.kw, self.metrics, self.images = kw, [], []

            name = property(lambda self: "rec")
            version = property(lambda self: 0)

            def log_hyperparams(self, *a, **k):
                pass

            def log_metrics(self, metrics, step=None):
                self.metrics.append((dict(metrics), step))

            def log_image(self, key, images, step=None, **k):
                self.images.append((key, [torch.as_tensor(i).detach().clone() for i in images]))

        r = Rec(**kw)
        cls.made.append(r)
        return r


def pl_module():
    lit()
    cwd = os.getcwd()
    hook = sys.excepthook
    try:
        os.chdir(env.REPO)
        import main_pl
    finally:
        os.chdir(cwd)
        sys.excepthook = hook
    assert os.path.realpath(main_pl.__file__).startswith(os.path.realpath(env.REPO)), main_pl.__file__
    return main_pl


def pl_cfg(rng, opt, run_root):
    """The shipped default configuration with overrides, as hydra composes it."""
    base = OmegaConf.load(os.path.join(env.REPO, "conf", "config.yaml"))
    for k in ("hydra", "defaults"):
        base.pop(k, None)
    over = dict(data_dir=os.path.join(run_root, "data"), results_dir=run_root, seed=int(rng.integers(1, 10_000)), tag=None, group_tag=None, profiler=None,
                dataset=opt["dataset"], dist=opt["dist"], batch_size=opt["batch"], num_workers=0, epochs=opt["epochs"], lr=opt["lr"], n_bits=opt["n_bits"],
                num_classes=opt["classes"], classification=opt["classification"], mixture=opt["mixture"], swa=opt["swa"], init_leaf_data=opt["init"],
                precision=opt["precision"], model=opt["model"], debug=opt["debug"], device="cpu",
                einet=dict(S=opt["S"], I=opt["I"], D=opt["D"], R=opt["R"], layer_type=opt["layer"], structure=opt["structure"]),
                convpc=dict(channels=[3, 4], order=opt["order"], structure=opt["conv_structure"], kernel_size=2))
    return OmegaConf.merge(base, OmegaConf.create(over))


def run_pl(mod, cfg, run_dir, home):
    rec = types.SimpleNamespace(initial=[], asked=[], loaders=None, logger=None, model=None, begun=None)
    import models_pl

    kinds = (models_pl.SpnGenerative, models_pl.SpnDiscriminative)
    inits = [c.__init__ for c in kinds]

    def build(*a, **k):
        rec.asked.append(k)
        rec.loaders = real_build(*a, **k)
        return rec.loaders

    def spy(cls, init):
        def __init__(self, cfg, steps_per_epoch):
            init(self, cfg, steps_per_epoch)
            rec.kind, rec.model, rec.steps = cls.__name__, self, steps_per_epoch
            rec.initial.append(copy.deepcopy(self.state_dict()))
            start = self.on_fit_start

            def on_fit_start():
                rec.begun = copy.deepcopy(self.state_dict())
                return start()

            self.on_fit_start = on_fit_start  # what the training starts from

        return __init__

    real_build = sd.build_dataloader
    stand_ins = dict(HydraConfig=types.SimpleNamespace(get=lambda: types.SimpleNamespace(runtime=types.SimpleNamespace(output_dir=run_dir))),
                     WandbLogger=Recorder, wandb=types.SimpleNamespace(Settings=lambda **k: None, finish=lambda: None), build_dataloader=build)
    real = {k: getattr(mod, k) for k in stand_ins if hasattr(mod, k)}
    Recorder.made.clear()
    try:
        for k in real:
            setattr(mod, k, stand_ins[k])
        sd.build_dataloader = build
        for c, init in zip(kinds, inits):
            c.__init__ = spy(c, init)
        with process_state(home), steps_taken() as rec.rates, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mod.main(cfg)
    finally:
        for k, v in real.items():
            setattr(mod, k, v)
        sd.build_dataloader = real_build
        for c, init in zip(kinds, inits):
            c.__init__ = init
    rec.logger = Recorder.made[-1] if Recorder.made else None
    return rec


def described(opt, cfg):
    """The model the options describe."""
    from simple_einet.conv_pc import ConvPc, ConvPcConfig
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    shape, bins = sd.get_data_shape(opt["dataset"]), 2 ** opt["n_bits"]
    leaf, kw = {"normal": (Normal, {}), "normal_rat": (RatNormal, dict(min_sigma=float(cfg.min_sigma), max_sigma=float(cfg.max_sigma))), "binomial": (Binomial, dict(total_count=bins - 1)),
                "categorical": (Categorical, dict(num_bins=bins)), "multivariate_normal": (MultivariateNormal, dict(cardinality=int(cfg.multivariate_cardinality)))}[opt["dist"]]
    C = opt["classes"]
    if opt["model"] == "convpc":
        config = ConvPcConfig(channels=[3, 4], num_channels=shape.channels, num_classes=C, leaf_type=leaf, leaf_kwargs=kw, structure=opt["conv_structure"], order=opt["order"], kernel_size=2)
        return Mixture(n_components=C, config=config, data_shape=shape) if opt["mixture"] else ConvPc(config, shape)
    config = EinetConfig(num_features=shape.num_pixels, num_channels=shape.channels, depth=opt["D"], num_sums=opt["S"], num_leaves=opt["I"], num_repetitions=opt["R"], num_classes=C,
                         leaf_type=leaf, leaf_kwargs=kw, layer_type=opt["layer"], structure=opt["structure"], dropout=float(cfg.dropout))
    return Mixture(n_components=C, config=config) if opt["mixture"] else Einet(config)


def ll_of(spn, x, dist, n_bits):
    inp = pixel_levels(x, n_bits).numpy() if dist in ("binomial", "categorical") else x.double().numpy()
    if isinstance(spn, Einet):
        return ref.log_likelihood(spn, inp.reshape(len(x), spn.config.num_channels, -1))
    with torch.no_grad():
        return spn(torch.from_numpy(inp).float().reshape(x.shape)).double().numpy().reshape(x.shape[0], -1)


def judge(spn, cls, x, y, dist, n_bits, tol):
    """(metric, slack): mean nll of a generative model, accuracy of a discriminative one."""
    ll = np.concatenate([ll_of(spn, x[i:i + 256], dist, n_bits) for i in range(0, len(x), 256)])
    if not cls:
        return -ll.mean(), tol * max(1.0, float(np.abs(ll).mean()))
    srt = np.sort(ll, -1)
    sure = srt[:, -1] - srt[:, -2] > tol * np.abs(srt).max()
    hit = ll.argmax(-1) == y.numpy()
    lo, hi = (hit & sure).mean(), (hit | ~sure).mean()
    return (lo + hi) / 2, (hi - lo) / 2 + 1e-4


def objective(spn, cls, x, y, dist, n_bits):
    """What training minimises: mean nll, or the cross entropy of the posterior."""
    ll = np.concatenate([ll_of(spn, x[i:i + 256], dist, n_bits) for i in range(0, len(x), 256)])
    return -(log_softmax(ll, -1)[np.arange(len(x)), y.numpy()] if cls else ll).mean()


def pl_case(rng, ctx, opt):
    mod = pl_module()
    ds, dist, cls = opt["dataset"], opt["dist"], opt["classification"]
    what = "main_pl.py " + " ".join(f"{k}={v}" for k, v in opt.items())
    with scratch() as home:
        dirs = []
        recs = []
        for rep in range(2 if opt.get("twice") else 1):
            run_dir = os.path.join(home, f"run{rep}")
            os.makedirs(run_dir)
            rng_ = np.random.default_rng(int(ctx._subseed(what)))
            cfg = pl_cfg(rng_, opt, home)
            recs.append(run_pl(mod, cfg, run_dir, home))
            dirs.append(run_dir)
        rec, run_dir = recs[0], dirs[0]
        expect(rec.kind == ("SpnDiscriminative" if cls else "SpnGenerative"), "wrong-module", f"{what}: trains a {rec.kind}")
        # ---- options reach the loaders ----
        k = rec.asked[0]
        for name, v in dict(dataset_name=ds, batch_size=opt["batch"], loop=False, seed=int(cfg.seed), data_dir=cfg.data_dir,
                            normalize=dist in ("normal", "normal_rat", "multivariate_normal")).items():
            expect(k.get(name) == v, "loader-options", f"{what}: data loaders were asked for {name}={k.get(name)}, not {v}")
            ctx.tick()
        # ---- configuration stored ----
        stored = OmegaConf.load(os.path.join(run_dir, "config.yaml"))
        for name in ("dataset", "lr", "epochs", "batch_size", "n_bits", "num_classes", "seed", "classification", "mixture", "swa", "model"):
            expect(stored[name] == cfg[name], "stored-config", f"{what}: config.yaml says {name}={stored[name]}, ran {cfg[name]}")
        expect(dict(stored.einet) == dict(cfg.einet), "stored-config", f"{what}: config.yaml einet {stored.einet}")
        # ---- checkpoint ----
        ck = torch.load(os.path.join(run_dir, "model.pt"), weights_only=False)
        sd_ = {n[len("spn."):]: p for n, p in ck["state_dict"].items() if n.startswith("spn.")}
        spn = copy.deepcopy(rec.model.spn).cpu().eval()
        expect(set(sd_) == set(spn.state_dict()), "checkpoint", f"{what}: checkpoint does not hold the model", odd=sorted(set(sd_) ^ set(spn.state_dict()))[:5])
        for n, p in spn.state_dict().items():
            expect(torch.equal(p, sd_[n]), "checkpoint", f"{what}: {n} of the checkpoint is not the trained parameter")
            expect(not p.is_floating_point() or bool(torch.isfinite(p).all()), "checkpoint", f"{what}: {n} is not finite after training")
            ctx.tick()
        fresh = copy.deepcopy(spn)
        with torch.no_grad():
            for p in fresh.parameters():
                p.add_(1.0)
        fresh.load_state_dict(sd_)
        spn = fresh
        asked = described(opt, cfg)
        expect(type(spn) is type(asked), "wrong-model", f"{what}: trains a {type(spn).__name__}, the options ask for a {type(asked).__name__}")
        expect({n: p.shape for n, p in asked.state_dict().items()} == {n: p.shape for n, p in sd_.items()}, "wrong-model", f"{what}: shapes of the stored parameters are not those of the model asked for")
        asked.load_state_dict(sd_)
        probe = torch.as_tensor(next(iter(rec.loaders[2]))[0][:16])
        probe = pixel_levels(probe, opt["n_bits"]).float() if dist in ("binomial", "categorical") else probe.float()
        with torch.no_grad():
            expect(close(spn(probe), asked.eval()(probe), 1e-4, 1e-5), "wrong-model", f"{what}: the trained model is not the one asked for", diff=maxdiff(spn(probe), asked(probe)))
        ctx.tick(3)
        nb = len(rec.loaders[0])
        steps = 1 if opt["debug"] else nb * opt["epochs"]
        expect(ck["global_step"] == steps, "training-steps", f"{what}: {ck['global_step']} optimizer steps, expected {steps}")
        expect(rec.steps == nb, "training-steps", f"{what}: module told {rec.steps} steps per epoch, there are {nb}")
        if not opt["swa"] and not opt["debug"]:
            E = opt["epochs"]
            m = [int(.7 * E), int(.9 * E)]
            want = opt["lr"] * 0.1 ** sum(E >= i > 0 or i == 0 for i in m)
            sched = [opt["lr"] * 0.1 ** sum(e >= i for i in m) for e in range(E) for _ in range(nb)]
            if 0 not in m:
                expect(len(rec.rates) == steps and all(len(g) == 1 and abs(g[0] - w) <= 1e-9 + 1e-6 * w for g, w in zip(rec.rates, sched)), "learning-rate",
                       f"{what}: learning rates of the steps are not those of the schedule (drops at 70 % and 90 % of the epochs)",
                       got=[g[0] for g in rec.rates][::nb], want=sched[::nb])
            got = ck["optimizer_states"][0]["param_groups"][0]["lr"]
            expect(abs(got - want) <= 1e-9 + 1e-6 * want or 0 in m, "learning-rate", f"{what}: ends with learning rate {got}, schedule says {want}")
            ctx.tick()
        start = rec.initial[0]
        expect(rec.begun is not None, "not-trained", f"{what}: the training never started")
        begun = {n[len("spn."):]: p for n, p in rec.begun.items() if n.startswith("spn.")}
        if opt["init"]:
            (name,) = [n for n in begun if n.endswith("means")]
            mu = begun[name].double().mean((-2, -1)).flatten()  # the leaves scatter a little around the statistics
            by = [float(((mu - tensors(l)[0].double().flatten(1).mean(0)) ** 2).mean() ** 0.5) for l in rec.loaders]
            mu0 = start["spn." + name].double().mean((-2, -1)).flatten()
            far = float(((mu0 - tensors(rec.loaders[0])[0].double().flatten(1).mean(0)) ** 2).mean() ** 0.5)
            expect(by[0] < 0.3 * far and by[0] < min(by[1:]), "leaf-initialisation", f"{what}: training does not start from the statistics of the training set", off=by)
            ctx.tick()
        elif not opt["mixture"]:
            expect(all(torch.equal(start["spn." + n], p) for n, p in begun.items()), "leaf-initialisation", f"{what}: parameters were changed before training, which was not asked for")
        if opt["mixture"]:
            w, c = (begun[n].double() for n in ("mixture_weights", "centroids"))
            expect(abs(float(w.sum()) - 1) < 1e-5 and bool((w >= 0).all()), "mixture-initialisation", f"{what}: mixture weights {w.tolist()}")
            off = [float((((w[:, None] * c).sum(0) - tensors(l)[0].double().flatten(1).mean(0)) ** 2).mean() ** 0.5) for l in rec.loaders]
            expect(off[0] < 0.5 * min(off[1:]), "mixture-initialisation", f"{what}: clusters do not average to the training set", off=off)
            ctx.tick(2)
        moved = sum(not torch.equal(start["spn." + n], p) for n, p in sd_.items() if p.is_floating_point())
        expect(moved >= 2, "not-trained", f"{what}: {moved} parameters changed")
        # ---- metrics ----
        metrics = {}
        for m, _ in (rec.logger.metrics if rec.logger else []):
            metrics.update(m)
        tol = 2e-4 if opt["precision"] in ("32", 32, "32-true") else 0.03
        if not opt["debug"]:
            for i, split in enumerate(("train", "val", "test")):
                name = f"Test/{split}_{'accuracy' if cls else 'nll'}"
                expect(name in metrics, "metric-missing", f"{what}: {name} was not logged", logged=sorted(metrics))
                x, y = tensors(rec.loaders[i])
                v, slack = judge(spn, cls, x, y, dist, opt["n_bits"], tol)
                expect(abs(metrics[name] - v) <= slack + 1e-3 * abs(v) * (not cls), "metric-value", f"{what}: reports {name} = {metrics[name]}, it is {v}")
                ctx.tick()
            x, y = tensors(rec.loaders[0])
            if opt["learns"]:
                old = copy.deepcopy(spn)
                old.load_state_dict({n[len("spn."):]: p for n, p in start.items() if n.startswith("spn.")})
                a, b = (objective(m, cls, x, y, dist, opt["n_bits"]) for m in (old, spn))
                expect(b < a, "did-not-learn", f"{what}: the objective on the training set went from {a} to {b}")
            for need in ("Val/loss",):  # Train/loss is logged every 50 steps
                expect(need in metrics and np.isfinite(metrics[need]), "metric-missing", f"{what}: no finite {need}", logged=sorted(metrics))
            keys = [k_ for k_, _ in rec.logger.images]
            if not cls:
                expect(keys.count("samples") == opt["epochs"], "samples-logged", f"{what}: {keys.count('samples')} pictures of samples in {opt['epochs']} epochs")
                expect(all(bool(torch.isfinite(i).all()) and float(i.min()) >= 0 and float(i.max()) <= 1 for k_, im in rec.logger.images for i in im),
                       "samples-logged", f"{what}: a logged picture is not a picture")
            want = 1 if ("synth" in ds and not cls) else 0
            expect(keys.count("distribution") == want, "distribution-logged", f"{what}: {keys.count('distribution')} plots of the density")
        # ---- the stored run is evaluated again without training ----
        if not opt["debug"]:
            again = os.path.join(home, "again")
            os.makedirs(again)
            cfg2 = pl_cfg(np.random.default_rng(int(ctx._subseed(what))), opt, home)
            cfg2.load_and_eval = run_dir
            rec2 = run_pl(mod, cfg2, again, home)
            expect(rec2.kind == rec.kind, "load-and-eval", f"{what}: load_and_eval evaluates a {rec2.kind}")
            trained = rec.model.state_dict()
            for n, p in rec2.model.state_dict().items():
                expect(torch.equal(p, trained[n]), "load-and-eval", f"{what}: {n} is not that of the stored run")
                ctx.tick()
            m2 = {}
            for m, _ in rec2.logger.metrics:
                m2.update(m)
            for name, v in metrics.items():
                if name.startswith("Test/"):
                    expect(name in m2 and abs(m2[name] - v) <= (0.01 if cls else max(tol, 1e-4) * max(1.0, abs(v))), "load-and-eval", f"{what}: {name} of the stored run is {m2.get(name)}, was {v}")
                    ctx.tick()
        # ---- seeded ----
        if len(recs) == 2:
            ck2 = torch.load(os.path.join(dirs[1], "model.pt"), weights_only=False)
            for n, p in ck["state_dict"].items():
                expect(torch.equal(p, ck2["state_dict"][n]), "not-reproducible", f"{what}: {n} differs between two runs with seed {cfg.seed}", diff=maxdiff(p, ck2["state_dict"][n]))
                ctx.tick()
    ctx.seen("pl-" + "-".join(str(v) for v in opt.values()))


# ---------------------------------------------------------------- main_pwl.py
def pwl_case(rng, ctx):
    """The demo script fits four multimodal features and plots their exact marginal densities."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes

    models, calls, saved, curves = [], [], [], []
    init, fwd, save, plot = Einet.__init__, Einet.forward, plt.savefig, Axes.plot

    def created(self, *a, **k):
        init(self, *a, **k)
        models.append(self)

    def forward(self, x, *a, **k):
        y = fwd(self, x, *a, **k)
        calls.append((x.detach().clone() if not torch.is_grad_enabled() or len(calls) < 1000 else None, y.detach().clone(), torch.is_grad_enabled(), self.training))
        return y

    def plots(self, x, y=None, *a, **k):
        curves.append((np.asarray(x, float), np.asarray(y, float)))
        return plot(self, x, y, *a, **k)

    with scratch() as home:
        try:
            Einet.__init__, Einet.forward, Axes.plot = created, forward, plots
            plt.savefig = lambda *a, **k: saved.append(a)
            with process_state(home), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                sys.argv = ["main_pwl.py"]
                g = runpy.run_path(os.path.join(env.REPO, "main_pwl.py"), run_name="__main__")
        finally:
            Einet.__init__, Einet.forward, plt.savefig, Axes.plot = init, fwd, save, plot
            plt.close("all")
    model = models[0]
    train = [c for c in calls if c[2] and c[3]]
    expect(len(models) == 1 and len(train) >= 100 and len(saved) == 1 and len(curves) == 4, "pwl-script", f"{len(models)} models, {len(train)} steps, {len(saved)} figures, {len(curves)} curves")
    first, last = -float(train[0][1].mean()), -float(torch.cat([c[1] for c in train[-20:]]).mean())
    expect(np.isfinite(last) and last < first, "did-not-learn", f"main_pwl.py: loss went from {first} to {last}")
    C, F = model.config.num_channels, model.config.num_features
    for i, (x, y) in enumerate(curves):
        q = np.full((len(x), C, F), np.nan)
        q[:, 0, i] = x.astype(np.float32)
        want = np.exp(ref.log_likelihood(model, q)).sum(-1)
        expect(close(y, want, 1e-4, 1e-3), "pwl-curve", f"main_pwl.py: curve {i} is not the marginal density of feature {i}", off=maxdiff(y, want))
        ctx.tick(len(x))
    make = g.get("make_dataset")
    if make is not None:
        for a, b, k, n in ((2, 2, 3, 50), (0, 3, 2, 20), (1, 0, 4, 10)):
            data, domains = make(a, b, k, n)
            expect(tuple(data.shape) == (k * n, 1, a + b) and len(domains) == a + b and bool(torch.isfinite(data).all()), "pwl-data", f"{tuple(data.shape)}")
            for j, d in enumerate(domains):
                v = data[:, 0, j]
                if j >= a:
                    expect(d.data_type.value == "discrete" and bool((v == v.round()).all()) and float(v.min()) >= d.min and float(v.max()) <= d.max, "pwl-data", f"feature {j} leaves its domain")
                else:
                    expect(d.data_type.value == "continuous" and d.min == -np.inf and d.max == np.inf, "pwl-data", f"feature {j}: {d.__dict__}")
                ctx.tick()
    ctx.seen("pwl-script")


PL = dict(dataset="digits", dist="normal", batch=256, epochs=1, lr=0.05, n_bits=8, classes=1, classification=False, mixture=False, swa=False, init=False,
          precision="32", model="einet", debug=False, S=3, I=4, D=2, R=2, layer="linsum", structure="top-down", order="sum-prod", conv_structure="top-down", learns=True)


def check(ctx):
    dists = ["normal", "binomial", "categorical", "normal_rat"]
    ctx.run("pwl", {}, pwl_case, ctx)
    i = 0
    for dist in dists:
        for cls in (False, True):
            for layer, structure in (("linsum", "top-down"), ("linsum", "bottom-up"), ("einsum", "top-down")):
                for rep in range(ctx.n(1, 4)):
                    i += 1
                    # 8-bit categorical/binomial leaves are exercised by every other run
                    opt = dict(dist=dist, classification=cls, layer=layer, structure=structure, shape=(1, 8, 8), n_bits=[8, 4, 8, 2][i % 4] if dist in ("binomial", "categorical") else 8,
                               mode=["full", "dry", "full", "debug"][(i + i // 4) % 4], D=1 + i % 3, S=2 + i % 3, I=2 + (i // 2) % 3, R=1 + i % 3)
                    if i % 5 == 0:
                        opt["temperature_leaves"] = 0.5
                    ctx.run(f"main/{dist}/{cls}/{layer}/{structure}/{rep}", opt, main_case, ctx, opt)
    for dist in ("normal", "binomial"):
        opt = dict(dist=dist, classification=False, layer="linsum", structure="top-down", shape=(3, 32, 32), n_bits=8, mode="full", D=2, S=2, I=2, R=1)
        ctx.run(f"main/channels/{dist}", opt, main_case, ctx, opt)
        opt = dict(opt, shape=(1, 16, 16), structure="bottom-up", n_bits=5 if dist == "binomial" else 8)
        ctx.run(f"main/16/{dist}", opt, main_case, ctx, opt)
    cases = [
        ("digits-gen", dict(epochs=2, twice=True)),
        ("digits-disc", dict(classification=True, classes=10, epochs=2, twice=True)),
        ("digits-binomial", dict(dist="binomial", epochs=1)),
        ("digits-categorical", dict(dist="categorical", n_bits=4, layer="einsum")),
        ("digits-binomial-disc", dict(dist="binomial", n_bits=3, classification=True, classes=10, structure="bottom-up", D=3)),
        ("digits-rat-swa", dict(dist="normal_rat", swa=True, epochs=4, learns=False)),
        ("digits-init", dict(init=True, learns=True)),
        ("digits-mvn", dict(dist="multivariate_normal", lr=0.01)),
        ("digits-mixture", dict(mixture=True, classes=3, lr=0.02, learns=False)),
        ("digits-conv", dict(model="convpc", lr=0.02)),
        ("digits-conv-bottom-up", dict(model="convpc", lr=0.02, conv_structure="bottom-up", order="prod-sum")),
        ("digits-conv-mixture", dict(model="convpc", lr=0.02, mixture=True, classes=2, conv_structure="bottom-up", order="prod-sum", learns=False)),
        ("digits-conv-rest", dict(model="convpc", lr=0.02, order="prod-sum", structure="bottom-up", dist="binomial", n_bits=4)),
        ("wine-disc", dict(dataset="wine", classification=True, classes=3, batch=32, epochs=3, D=3)),
        ("wine-gen", dict(dataset="wine", batch=50, layer="linsum2", D=2)),
        ("synth-gen", dict(dataset="synth-2-clusters", batch=100, D=1, epochs=2, lr=0.1)),
        ("synth-disc", dict(dataset="synth-3-clusters", batch=100, D=1, epochs=2, classification=True, classes=3, lr=0.1)),
        ("wine-long", dict(dataset="wine", batch=90, layer="linsum", D=1, S=2, I=2, R=1, epochs=10, lr=0.05)),
        ("wine-longer", dict(dataset="wine", batch=150, layer="linsum", D=1, S=2, I=2, R=1, epochs=20, lr=0.05, classification=True, classes=3)),
        ("digits-bf16", dict(precision="bf16-mixed", epochs=1)),
        ("digits-debug", dict(debug=True, learns=False)),
    ]
    for rep in range(ctx.n(1, 3)):
        for name, o in cases:
            opt = {**PL, **o}
            if rep:
                opt.update(R=1 + rep, S=2 + rep, I=2 + rep, batch=[opt["batch"], 100, 64][rep])
            ctx.run(f"pl/{name}/{rep}", opt, pl_case, ctx, opt)
