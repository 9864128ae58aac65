"""C28: experiment bookkeeping keeps what it is given: run directories, failure handling, arguments, plots."""
import argparse
import contextlib
import copy
import datetime
import io
import json
import logging
import os
import pathlib
import shutil
import sys
import tempfile
import types

import numpy as np
import torch
from omegaconf import OmegaConf
from PIL import Image

from .. import env
from ..core import Violation, close, expect
from simple_einet.dist import Dist
from .c26 import lit
from .c27 import pl_module, process_state

LEVEL = "exploration"
RULE = ("one evaluation = one observed effect (directory tree before and after, returned path, raised exception, parsed argument, scaled option, picture) "
        "compared with the specification; distinct = distinct (helper, kind of input)")
MIN_EVALS, MIN_DISTINCT = 1500, 60
ASSUMPTIONS = ("all file effects are confined to scratch directories removed afterwards", "pictures are rendered with the Agg back end; set_style needs a LaTeX installation and is not run")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c28-", dir=env.SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def helpers():
    lit()
    cwd = os.getcwd()
    try:
        os.chdir(env.REPO)
        import exp_utils
    finally:
        os.chdir(cwd)
    assert os.path.realpath(exp_utils.__file__).startswith(os.path.realpath(env.REPO)), exp_utils.__file__
    return exp_utils


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), root)] = open(os.path.join(d, f), "rb").read()
    return out


def fill(rng, d, deep=True):
    """Random files, nested, some empty, some with odd names."""
    os.makedirs(d, exist_ok=True)
    for i in range(int(rng.integers(1, 5))):
        n = str(rng.choice(["model.pt", "a b.txt", "metrics.json", ".hidden", "ünï.log"])) + str(i)
        with open(os.path.join(d, n), "wb") as f:
            f.write(rng.bytes(int(rng.integers(0, 200))))
    if deep:
        fill(rng, os.path.join(d, "checkpoints", "sub"), False)


def word(rng):
    return "".join(rng.choice(list("abcXYZ019-_."), size=int(rng.integers(1, 9)))).strip(".") or "x"


def within(path, root):
    return os.path.realpath(path).startswith(os.path.realpath(root) + os.sep)


def untouched(before, after, what):
    for k, v in before.items():
        expect(k in after, "file-lost", f"{what}: {k} disappeared")
        expect(after[k] == v, "file-altered", f"{what}: {k} was changed")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


# ---- directories ----
def directories(rng, ctx):
    X = helpers()
    with scratch() as root:
        home = os.path.join(root, "home")
        os.makedirs(home)
        res = os.path.join(root, word(rng), "res")
        exp, ds = word(rng), word(rng)
        paths = {}
        for tag in (None, "t" + word(rng)):
            for debug in (False, True):
                before = tree(root)
                p = quiet(X.make_results_dir, res, exp, tag, ds, debug=debug, remove_if_exists=bool(rng.integers(2)))
                what = f"make_results_dir(tag={tag}, debug={debug})"
                expect(os.path.isdir(p) and within(p, res) and p.endswith("/"), "results-dir", f"{what} returned {p}")
                untouched(before, tree(root), what)
                parts = os.path.relpath(p, res).split(os.sep)
                expect(exp in parts and ds in parts, "results-dir", f"{what}: {parts} does not name experiment and dataset")
                expect(("debug" in parts[-1]) == debug, "results-dir", f"{what}: {parts[-1]} is {'not ' if debug else ''}a debug directory")
                expect(p not in paths.values(), "results-dir-shared", f"{what}: shares its directory with another configuration")
                expect(not os.listdir(p), "results-dir-shared", f"{what}: new directory is not empty")
                paths[tag, debug] = p
                fill(rng, p)
                before = tree(root)
                q = quiet(X.make_results_dir, res, exp, tag, ds, debug=debug)
                expect(os.path.isdir(q) and within(q, res), "results-dir", f"{what} again returned {q}")
                expect(os.path.realpath(q) != os.path.realpath(p) and not os.listdir(q), "results-dir-shared", f"{what}: second run writes into the directory of the first")
                untouched(before, tree(root), what + " again")
                made = [p, q]
                for k in range(int(rng.integers(1, 4))):  # third and later runs
                    fill(rng, made[-1])
                    before = tree(root)
                    q = quiet(X.make_results_dir, res, exp, tag, ds, debug=debug)
                    expect(os.path.isdir(q) and within(q, res) and os.path.realpath(q) not in [os.path.realpath(m) for m in made] and not os.listdir(q), "results-dir-shared",
                           f"{what}: run {k + 3} writes into the directory of an earlier one: {q}")
                    untouched(before, tree(root), what + " once more")
                    made.append(q)
                    ctx.tick(2)
                before = tree(root)
                q = quiet(X.make_results_dir, res, exp, tag, ds, debug=debug, remove_if_exists=False)
                expect(os.path.realpath(q) == os.path.realpath(p), "results-dir", f"{what} with remove_if_exists=False returned {q}, exists {p}")
                expect(tree(root) == before, "file-altered", f"{what} with remove_if_exists=False changed files")
                ctx.tick(8)
                ctx.seen(f"results-{tag is None}-{debug}")
        # runs
        for tag in (None, word(rng)):
            for debug in (False, True):
                subs = [None, [], ["a"], ["a", "b" + word(rng)]][int(rng.integers(4))]
                t = int(rng.integers(0, 2 ** 31))
                before = tree(root)
                p = X.generate_run_base_dir(res, timestamp=t, tag=tag, sub_dirs=subs, debug=debug)
                name = datetime.datetime.fromtimestamp(t).strftime("%y%m%d_%H%M") + (f"_{tag}" if tag else "") + ("_debug" if debug else "")
                want = os.path.join(res, name, *(subs or []))
                expect(os.path.isdir(p) and os.path.realpath(p) == os.path.realpath(want) and p.endswith("/"), "run-dir", f"generate_run_base_dir made {p}, documented {want}")
                untouched(before, tree(root), "generate_run_base_dir")
                fill(rng, p)
                before = tree(root)
                expect(X.generate_run_base_dir(res, timestamp=t, tag=tag, sub_dirs=subs, debug=debug) == p and tree(root) == before, "run-dir", "second call differs or changes files")
                ctx.tick(4)
                ctx.seen(f"run-{tag is None}-{debug}-{len(subs or [])}")
        lo = datetime.datetime.now().strftime("%y%m%d_%H%M")
        p = X.generate_run_base_dir(os.path.join(root, "now"))
        expect(os.path.basename(p.rstrip("/")) in (lo, datetime.datetime.now().strftime("%y%m%d_%H%M")), "run-dir", f"without a timestamp: {p}")
        # data
        with process_state(home):
            p = X.get_data_dir(ds)
            expect(os.path.isdir(p) and within(p, home) and os.path.basename(p.rstrip("/")) == ds, "data-dir", f"get_data_dir gave {p}")
            fill(rng, p)
            before = tree(home)
            expect(X.get_data_dir(ds) == p and tree(home) == before, "data-dir", "second call differs or changes files")
        # mkdir -p and ensure_dir
        p = os.path.join(root, "m", word(rng), word(rng))
        X.mkdir_p(p)
        expect(os.path.isdir(p), "mkdir", "mkdir_p made no directory")
        fill(rng, p)
        before = tree(root)
        X.mkdir_p(p)
        expect(tree(root) == before, "file-altered", "mkdir_p of an existing directory changed files")
        f = os.path.join(p, "file")
        open(f, "w").write("x")
        for bad in (f, os.path.join(f, "below")):
            try:
                X.mkdir_p(bad)
            except OSError:
                pass
            else:
                raise Violation("mkdir", "mkdir_p of a path blocked by a file reports success")
        expect(open(f).read() == "x", "file-altered", "mkdir_p changed a file in its way")
        g = os.path.join(root, "e", word(rng), word(rng), "baz.csv")
        for _ in range(2):
            X.ensure_dir(g)
            expect(os.path.isdir(os.path.dirname(g)) and not os.path.exists(g), "ensure-dir", "directories missing, or the file itself was created")
        open(g, "w").write("1")
        before = tree(root)
        X.ensure_dir(g)
        expect(tree(root) == before, "file-altered", "ensure_dir changed files")
        cwd = os.getcwd()
        try:
            os.chdir(root)
            before = tree(root)
            X.ensure_dir("plain.csv")
            expect(tree(root) == before, "ensure-dir", "a path without directory changed something")
            X.ensure_dir(os.path.join("rel", "ative", "x.csv"))
            expect(os.path.isdir(os.path.join(root, "rel", "ative")), "ensure-dir", "relative path")
        finally:
            os.chdir(cwd)
        ctx.tick(14)
        ctx.seen("data-dir"), ctx.seen("mkdir"), ctx.seen("ensure-dir")


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


def failures(rng, ctx):
    logging.disable(logging.CRITICAL)
    try:
        failing_runs(rng, ctx)
    finally:
        logging.disable(logging.NOTSET)


def failing_runs(rng, ctx):
    X = helpers()
    raisers = {"value": lambda: (_ for _ in ()).throw(ValueError("bad value ü {x} %s")), "key": lambda: {}["missing"], "zero": lambda: 1 // 0, "odd": lambda: (_ for _ in ()).throw(Odd(1, "two")),
               "torch": lambda: torch.zeros(2) @ torch.zeros(3), "empty": lambda: (_ for _ in ()).throw(RuntimeError())}
    for name, fail in raisers.items():
        for slash in ("", "/"):
            for existing in (False, True):
                with scratch() as root:
                    out = os.path.join(root, word(rng) + "r")
                    fill(rng, out)
                    fill(rng, os.path.join(root, "other"))
                    if existing:
                        fill(rng, out + "_error")
                    kept, other = tree(out), tree(os.path.join(root, "other"))
                    old = tree(out + "_error") if existing else {}
                    try:
                        fail()
                    except Exception as e:
                        err = e
                    what = f"catch_exception({name}, slash={bool(slash)}, old failure={existing})"
                    try:
                        X.catch_exception(out + slash, err)
                    except Exception as e:
                        expect(e is err, "exception-changed", f"{what}: raised {e!r} instead of the caught {err!r}")
                    else:
                        raise Violation("exception-swallowed", f"{what}: did not raise")
                    expect(not os.path.exists(out), "failed-dir", f"{what}: the run still looks like a good one")
                    after = tree(out + "_error")
                    untouched(old, after, what + " previous failure")
                    sub = os.path.basename(out) if existing else "."
                    moved = tree(os.path.join(out + "_error", sub))
                    untouched(kept, moved, what)
                    log = moved.get("error.txt", b"").decode()
                    expect("failures" in log or "fail" in log, "error-log", f"{what}: error.txt holds no traceback: {log[:200]}")
                    expect(str(err) in log, "error-log", f"{what}: error.txt does not hold the message {str(err)!r}")
                    untouched(other, tree(os.path.join(root, "other")), what + " sibling")
                    ctx.tick(6)
                    ctx.seen(f"exception-{name}-{bool(slash)}-{existing}")
    for slash in ("", "/"):
        with scratch() as root:
            out = os.path.join(root, word(rng) + "r")
            fill(rng, out)
            kept = tree(out)
            X.catch_kb_interrupt(out + slash)
            expect(not os.path.exists(out), "interrupted-dir", "the interrupted run still looks like a good one")
            expect(tree(out + "_interrupted") == kept, "file-altered", "catch_kb_interrupt changed files of the run")
            expect(os.listdir(root) == [os.path.basename(out) + "_interrupted"], "interrupted-dir", f"left {os.listdir(root)}")
            ctx.tick(3)
            ctx.seen(f"interrupt-{bool(slash)}")


# ---- arguments ----
def parse(argv, **environ):
    import importlib

    lit()
    args = importlib.import_module("args")
    assert os.path.realpath(args.__file__).startswith(os.path.realpath(env.REPO)), args.__file__
    old, oe = sys.argv, dict(os.environ)
    try:
        sys.argv = ["main.py"] + argv
        os.environ.update(environ)
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            return args.parse_args()
    finally:
        sys.argv = old
        os.environ.clear()
        os.environ.update(oe)


OPTS = {  # option -> (attribute, values as text, converted)
    "--lr": ("lr", ["0.5", "1e-3"], float), "--batch-size": ("batch_size", ["1", "256"], int), "--n-bits": ("n_bits", ["1", "5"], int),
    "--epochs": ("epochs", ["0", "3"], int), "--temperature-leaves": ("temperature_leaves", ["0.1"], float), "--temperature-sums": ("temperature_sums", ["0.7"], float),
    "--dropout": ("dropout", ["0.25"], float), "--min-sigma": ("min_sigma", ["0.001"], float), "--max-sigma": ("max_sigma", ["3"], float),
    "--seed": ("seed", ["0", "77"], int), "--log-interval": ("log_interval", ["2"], int), "--device": ("device", ["cpu", "cuda:1"], str), "-S": ("S", ["4"], int),
    "-I": ("I", ["5"], int), "-D": ("D", ["0", "6"], int), "-R": ("R", ["3"], int), "--layer": ("layer", ["einsum", "linsum"], str),
    "--structure": ("structure", ["bottom-up", "top-down"], str), "--mixture": ("mixture", ["4"], int), "--num-devices": ("num_devices", ["2"], int),
    "--data-dir": ("data_dir", ["/x/y"], str), "--results-dir": ("results_dir", ["/r"], str), "--tag": ("tag", ["t"], str), "--group-tag": ("group_tag", ["g"], str),
    "--num-workers": ("num_workers", ["0"], int), "--dist": ("dist", [d.value for d in Dist], Dist), "--precision": ("precision", ["16", "32", "bf16"], lambda v: v if v == "bf16" else int(v)),
    "--load-and-eval": ("load_and_eval", ["/some/dir"], pathlib.Path), "--profiler": ("profiler", ["simple"], str), "--gpu": ("gpu", ["1"], str)}
FLAGS = {"--train": "train", "--dry-run": "dry_run", "--classification": "classification", "--debug": "debug", "--wandb": "wandb", "--swa": "swa", "--log-weights": "log_weights"}
DEFAULTS = dict(lr=0.1, batch_size=64, n_bits=8, epochs=14, temperature_leaves=1.0, temperature_sums=1.0, dropout=0.0, seed=1, log_interval=10, S=10, I=10, D=3, R=1, layer="linsum",
                dist=Dist.BINOMIAL, precision=32, structure="top-down", mixture=1, num_devices=1, load_and_eval=None, tag=None, profiler=None, device="cuda", min_sigma=1e-2, max_sigma=2.0)


def arguments(rng, ctx, i):
    X = helpers()
    opts = [o for o in OPTS if rng.random() < 0.4]
    flags = [f for f in FLAGS if rng.random() < 0.3]
    want, items = {}, [("--dataset", "mnist"), *[(f, None) for f in flags]]
    for o in opts:
        attr, vals, conv = OPTS[o]
        v = str(rng.choice(vals))
        want[attr] = conv(v)
        items.append((o, v))
    rng.shuffle(items)
    argv = [t for o, v in items for t in ((o,) if v is None else (f"{o}={v}",) if o.startswith("--") and rng.random() < 0.4 else (o, v))]
    a = parse(argv, HOME="/h", DATA_DIR="/dd", RESULTS_DIR="/rr")
    what = " ".join(argv)
    for attr, v in want.items():
        got = getattr(a, attr)
        expect(type(got) == type(v) and got == v, "argument", f"{what}: {attr} is {got!r}, given {v!r}")
        ctx.tick()
    for attr, v in DEFAULTS.items():
        if attr not in want:
            got = getattr(a, attr)
            expect(got == v and type(got) == type(v), "argument-default", f"{what}: {attr} defaults to {got!r}, documented {v!r}")
            ctx.tick()
    for f, attr in FLAGS.items():
        expect(getattr(a, attr) is (f in flags), "argument-flag", f"{what}: {attr} is {getattr(a, attr)}")
    expect(a.dataset == "mnist", "argument", what)
    expect("data_dir" in want or a.data_dir == "/dd", "argument-env", f"{what}: data_dir {a.data_dir} ignores DATA_DIR")
    expect("results_dir" in want or a.results_dir == "/rr", "argument-env", f"{what}: results_dir {a.results_dir} ignores RESULTS_DIR")
    # stored arguments say what was given
    plain = argparse.Namespace(**{k: (v.value if isinstance(v, Dist) else str(v) if isinstance(v, pathlib.Path) else v) for k, v in vars(a).items()})
    with scratch() as root:
        fill(rng, root)
        before, keep = tree(root), copy.deepcopy(vars(plain))
        X.save_args(root, plain)
        after = tree(root)
        untouched(before, after, "save_args")
        back = json.loads(after["args.json"])
        expect(back == keep == vars(plain), "stored-args", f"{what}: args.json differs from the arguments")
        ctx.tick(3)
    ctx.seen(f"args-{len(opts)}-{len(flags)}")


def refused(rng, ctx):
    for argv in ([], ["--dataset"], ["--dataset", "m", "--layer", "nope"], ["--dataset", "m", "--structure", "sideways"], ["--dataset", "m", "--dist", "cauchy"],
                 ["--dataset", "m", "--precision", "8"], ["--dataset", "m", "-S", "x"], ["--dataset", "m", "--unknown", "1"], ["--dataset", "m", "--profiler", "no"]):
        try:
            parse(argv)
        except SystemExit as e:
            expect(e.code not in (0, None), "argument-refused", f"{argv} exits with {e.code}")
        else:
            raise Violation("argument-refused", f"{argv} accepted")
        ctx.tick()
    ctx.seen("refused")
    a = parse(["--dataset", "m"], HOME="/h")
    expect(a.data_dir in ("/h/data", os.environ.get("DATA_DIR")) and a.results_dir in ("/h/results", os.environ.get("RESULTS_DIR")), "argument-env", f"{a.data_dir} {a.results_dir}")


def preprocessed_cfg(rng, ctx):
    mod = pl_module()
    for prec, want in (("16", 16), ("32", 32), ("bf16-mixed", "bf16-mixed"), ("bf16", "bf16"), (32, 32)):
        for full in (False, True):
            for d in Dist:
                base = dict(precision=prec, dist=d.value if rng.random() < .5 else d.value.upper(), lr=0.1, keep=dict(a=[1, 2]))
                if full:
                    base.update(data_dir="/d", results_dir="/r", profiler="simple", tag="t", group_tag="g", seed=5)
                cfg = OmegaConf.create(base)
                with process_state("/hh"):
                    os.environ.pop("DATA_DIR", None), os.environ.pop("RESULTS_DIR", None)
                    if rng.random() < .5:
                        os.environ["DATA_DIR"], os.environ["RESULTS_DIR"] = "/hh/data", "/hh/results"
                    mod.preprocess_cfg(cfg)
                expect(cfg.precision == want and type(cfg.precision) == type(want), "cfg", f"precision {prec!r} became {cfg.precision!r}")
                expect(cfg.dist == d and isinstance(cfg.dist, Dist), "cfg", f"dist {base['dist']} became {cfg.dist!r}")
                exp = dict(data_dir="/d", results_dir="/r", profiler="simple", tag="t", group_tag="g", seed=5) if full else \
                    dict(data_dir="/hh/data", results_dir="/hh/results", profiler=None, tag=None, group_tag=None)
                for k, v in exp.items():
                    expect(k in cfg and cfg[k] == v, "cfg", f"{k} is {cfg.get(k)!r}, not {v!r} (given: {full})")
                expect(isinstance(cfg.seed, int) and cfg.lr == 0.1 and cfg.keep.a == [1, 2], "cfg", "other entries changed")
                ctx.tick(5)
        ctx.seen(f"cfg-{prec}-{type(prec).__name__}")


# ---- scaling ----
class Node(dict):
    """The interface of a detectron2 / yacs CfgNode that auto_scale_workers asks for."""

    def __init__(self, d, frozen=False):
        super().__init__({k: Node(v) if isinstance(v, dict) else v for k, v in d.items()})
        self.__dict__["_f"] = frozen

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        if self.is_frozen():
            raise Violation("scaled-frozen", f"auto_scale_workers writes {k} into a frozen configuration")
        self[k] = v

    def is_frozen(self):
        return self.__dict__["_f"]

    def _set(self, f):
        self.__dict__["_f"] = f
        for v in self.values():
            if isinstance(v, Node):
                v._set(f)

    def freeze(self):
        self._set(True)

    def defrost(self):
        self._set(False)

    def clone(self):
        c = Node({k: v for k, v in self.items()})
        c._set(self.is_frozen())
        return c


def plain(n):
    return {k: plain(v) if isinstance(v, dict) else v for k, v in n.items()}


def scaling(rng, ctx, i):
    X = helpers()
    ref_ws = int(rng.integers(1, 9))
    workers = int(rng.integers(1, 17))
    per = int(rng.integers(1, 33))
    d = dict(system=dict(reference_world_size=ref_ws), train=dict(batch_size=per * ref_ws), test=dict(eval_period=int(rng.integers(1, 5000))),
             solver=dict(LR=float(rng.uniform(1e-4, 1)), max_iter=int(rng.integers(100, 50000)), scheduler=dict(warmuplr=dict(iters=int(rng.integers(0, 2000))))),
             checkpoints=dict(period=int(rng.integers(1, 9000))), other=dict(x=3))
    for frozen in (False, True):
        cfg = Node(d)
        cfg._set(frozen)
        before = plain(cfg)
        out = X.auto_scale_workers(cfg, workers)
        what = f"auto_scale_workers({before}, {workers})"
        expect(plain(cfg) == before and cfg.is_frozen() is frozen, "scaled-in-place", f"{what}: changed the configuration it was given")
        expect(out.is_frozen() is frozen, "scaled-frozen", f"{what}: frozen {frozen} became {out.is_frozen()}")
        o, s = plain(out), workers / ref_ws
        if workers == ref_ws:
            expect(o == before, "scaling", f"{what} -> {o}")
        else:
            expect(o["train"]["batch_size"] == per * workers, "scaling", f"{what}: batch size {o['train']['batch_size']}, {per} per worker asked for")
            expect(abs(o["solver"]["LR"] - d["solver"]["LR"] * s) < 1e-12, "scaling", f"{what}: learning rate {o['solver']['LR']}")
            for name, a, b in (("max_iter", o["solver"]["max_iter"], d["solver"]["max_iter"]), ("warmup", o["solver"]["scheduler"]["warmuplr"]["iters"], d["solver"]["scheduler"]["warmuplr"]["iters"]),
                               ("eval_period", o["test"]["eval_period"], d["test"]["eval_period"]), ("checkpoint period", o["checkpoints"]["period"], d["checkpoints"]["period"])):
                expect(isinstance(a, int) and abs(a - b / s) <= 0.5 + 1e-9, "scaling", f"{what}: {name} {b} became {a}")
            expect(o["system"]["reference_world_size"] == workers and o["other"] == {"x": 3}, "scaling", f"{what}: {o['system']} {o['other']}")
            # scaled back it is the original again, up to rounding of the periods
            back = plain(X.auto_scale_workers(out, ref_ws))
            expect(back["train"] == before["train"] and abs(back["solver"]["LR"] - d["solver"]["LR"]) < 1e-9, "scaling", f"{what}: does not scale back: {back}")
        ctx.tick(6)
    zero = Node({**d, "system": dict(reference_world_size=0)})
    expect(plain(X.auto_scale_workers(zero, workers)) == plain(zero) and zero.system.reference_world_size == 0, "scaling", "reference_world_size=0 must switch scaling off")
    if ref_ws > 1 and workers != ref_ws:
        try:
            X.auto_scale_workers(Node({**d, "train": dict(batch_size=per * ref_ws + 1)}), workers)
        except AssertionError:
            pass
        else:
            raise Violation("scaling", "a batch size that does not divide among the workers is accepted")
    ctx.seen(f"scale-{workers > ref_ws}-{workers == ref_ws}-{ref_ws}")


def small(rng, ctx):
    X = helpers()
    with process_state("/tmp"):
        for v, n in (("0", 1), ("0,1", 2), ("GPU-a,GPU-b,GPU-c", 3)):
            os.environ["NVIDIA_VISIBLE_DEVICES"] = v
            expect(X.num_gpus() == n, "num-gpus", f"{v}: {X.num_gpus()}")
            ctx.tick()
    for _ in range(20):
        d = {word(rng) + str(i): float(rng.normal(0, 10 ** rng.integers(0, 4))) for i in range(int(rng.integers(0, 5)))}
        p, keep = int(rng.integers(1, 50)), dict(d)
        want = ", ".join(f"{k}: {v / p:.2f}" for k, v in d.items())
        expect(X.loss_dict_to_str(d, p) == want and d == keep, "loss-str", f"{X.loss_dict_to_str(d, p)!r} for {d} / {p}")
        ctx.tick()
    for _ in range(10):
        s, r = float(rng.uniform(.1, 1)), float(rng.uniform(.2, 1.5))
        w, h = X.get_figsize(s, r)
        w1, _ = X.get_figsize(1.0, r)
        expect(close(w, s * w1, 1e-6) and close(h, w * r, 1e-6) and w1 > 0, "figsize", f"{s} {r}: {w} x {h}")
        ctx.tick()
    ctx.seen("num-gpus"), ctx.seen("loss-str"), ctx.seen("figsize")
    with scratch() as root:
        fill(rng, root)
        before = tree(root)
        for C, H, W, n, nrow in ((1, 4, 5, 6, 3), (3, 8, 8, 5, 5), (1, 3, 3, 1, 4)):
            made = []

            def gen(k):
                made.append(torch.rand(k, C, H, W))
                return made[-1]

            X.save_samples(gen, root, n, nrow)
            expect(len(made) == 5 and all(len(m) == n for m in made), "save-samples", f"asked for {[len(m) for m in made]} samples")
            for i, m in enumerate(made):
                img = np.asarray(Image.open(os.path.join(root, f"{i}.png"))).astype(float)
                m = (m - m.min()) / (m.max() - m.min()) * 255
                cols = min(nrow, n)
                for j in range(n):
                    r, c = divmod(j, cols)
                    pad = 2 if n > 1 else 0
                    t = img[pad + r * (H + pad):pad + r * (H + pad) + H, pad + c * (W + pad):pad + c * (W + pad) + W]
                    t = np.moveaxis(t[..., :C] if t.ndim == 3 else t[..., None], -1, 0)
                    expect(t.shape == (C, H, W) and np.abs(t - m[j].numpy()).max() <= 1.01, "save-samples", f"picture {i} does not show sample {j}")
                    ctx.tick()
        untouched(before, tree(root), "save_samples")
    ctx.seen("save-samples")


# ---- plots ----
def plots(rng, ctx, name):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    X = helpers()
    from simple_einet.data import generate_data
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal
    model = Einet(EinetConfig(num_features=2, num_channels=1, depth=1, num_sums=3, num_leaves=4, num_repetitions=2, num_classes=1, leaf_type=Normal, leaf_kwargs={}, layer_type="linsum", dropout=0.0))
    model.eval()
    state = copy.deepcopy(model.state_dict())
    seen, logged, drawn = [], [], []
    h = model.register_forward_hook(lambda m, i, o: seen.append((i[0].detach().clone(), o.detach().clone(), o.requires_grad)))
    real = plt.contourf

    def contourf(X_, Y_, Z_, *a, **k):
        drawn.append((np.asarray(X_), np.asarray(Y_), np.asarray(Z_)))
        return real(X_, Y_, Z_, *a, **k)

    real_save, views = plt.savefig, []

    def savefig(*a, **k):
        ax = plt.gcf().axes[0]
        views.append((ax.get_xlim(), ax.get_ylim(), [np.asarray(c.get_offsets()) for c in ax.collections]))
        return real_save(*a, **k)

    figs = len(plt.get_fignums())
    try:
        plt.contourf, plt.savefig = contourf, savefig
        logger = types.SimpleNamespace(log_image=lambda key, images, **k: logged.append((key, images)))
        X.plot_distribution(model, name, logger_wandb=logger)
        X.plot_distribution(model, name)
    finally:
        plt.contourf, plt.savefig = real, real_save
        h.remove()
    expect(len(plt.get_fignums()) == figs, "figure-leak", f"{len(plt.get_fignums()) - figs} figures left open")
    expect(len(logged) == 1 and len(logged[0][1]) == 1, "plot-logged", f"{len(logged)} pictures logged by one call with and one without logger")
    img = torch.as_tensor(logged[0][1][0])
    expect(img.dim() == 3 and img.shape[0] == 3 and min(img.shape[1:]) > 100 and float(img.min()) >= 0 and float(img.max()) <= 1 and float(img.std()) > 0.05, "plot-picture",
           f"logged picture {tuple(img.shape)} {float(img.min())}..{float(img.max())}")
    data, _ = generate_data(name, n_samples=1000)
    expect(not any(g for _, _, g in seen) and seen, "plot-gradient", "density evaluated with gradients")
    for X_, Y_, Z_ in drawn:
        lo, hi = data.min(0)[0], data.max(0)[0]
        pts = torch.from_numpy(np.c_[X_.ravel(), Y_.ravel()]).float()
        with torch.no_grad():
            want = model(pts).exp().reshape(Z_.shape)
        expect(close(Z_, want, 1e-5, 1e-4), "plot-density", f"{name}: the plotted density is not the model's", off=float(np.abs(Z_ - want.numpy()).max()))
        for k, (g, c) in enumerate(zip((X_, Y_), range(2))):
            a, b = float(lo[c]), float(hi[c])
            slack = 0.1 + 0.1 * max(abs(a), abs(b))
            expect(abs(g.min() - a) <= slack and abs(g.max() - b) <= slack, "plot-range", f"{name}: axis {c} evaluated on [{g.min()}, {g.max()}], data lies in [{a}, {b}]")
        ctx.tick(3)
    for xl, yl, pts in views:
        for c, (p, q) in enumerate((xl, yl)):
            a, b = float(lo[c]), float(hi[c])
            slack = 0.1 + 0.1 * max(abs(a), abs(b))
            expect(abs(p - a) <= slack and abs(q - b) <= slack, "plot-range", f"{name}: axis {c} shows [{p}, {q}], data lies in [{a}, {b}]")
        known = {tuple(r) for r in np.round(data.double().numpy(), 5)}
        off = [o for o in pts if o.ndim == 2 and len(o) > 50]
        expect(off and all(tuple(r) in known for o in off for r in np.round(np.asarray(o, dtype=float), 5)), "plot-points", f"{name}: the points drawn are not the data")
        ctx.tick(3)
    for k, v in model.state_dict().items():
        expect(torch.equal(v, state[k]), "plot-alters-model", f"{k} changed")
    shown = []
    real_show, real_im = plt.show, plt.imshow
    try:
        plt.show = lambda *a, **k: None
        plt.imshow = lambda a, *r, **k: (shown.append(np.asarray(a)), real_im(a, *r, **k))[1]
        a, b = torch.rand(3, 5, 6), torch.rand(4, 3, 5, 6)
        ka, kb = a.clone(), b.clone()
        X.plot_tensor(a)
        X.plot_tensor(b.requires_grad_())
    finally:
        plt.show, plt.imshow = real_show, real_im
    expect(len(shown) == 2 and np.array_equal(shown[0], ka.permute(1, 2, 0).numpy()) and torch.equal(a, ka) and torch.equal(b.detach(), kb), "plot-tensor", "shows another picture or changes the tensor")
    expect(len(plt.get_fignums()) == figs, "figure-leak", "plot_tensor left a figure open")
    ctx.tick(5)
    ctx.seen(f"plot-{name}")


def check(ctx):
    for i in range(ctx.n(12, 100)):
        ctx.run(f"dirs/{i}", {}, directories, ctx)
    for i in range(ctx.n(2, 10)):
        ctx.run(f"failures/{i}", {}, failures, ctx)
    for i in range(ctx.n(60, 600)):
        ctx.run(f"args/{i}", {}, arguments, ctx, i)
    ctx.run("refused", {}, refused, ctx)
    ctx.run("cfg", {}, preprocessed_cfg, ctx)
    for i in range(ctx.n(60, 800)):
        ctx.run(f"scale/{i}", {}, scaling, ctx, i)
    for i in range(ctx.n(2, 10)):
        ctx.run(f"small/{i}", {}, small, ctx)
    from .c21 import SYNTH
    for t in SYNTH:
        for i in range(ctx.n(1, 3)):
            ctx.run(f"plot/{t}/{i}", {"set": t}, plots, ctx, "synth-" + t)
