"""C17: configurations and type checks accept exactly the valid ones."""
import dataclasses
import itertools

import numpy as np
import torch

from simple_einet.conv_pc import ConvPc, ConvPcConfig
from simple_einet.data import Shape
from simple_einet.einet import Einet, EinetConfig
from simple_einet.layers.einsum import EinsumLayer
from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2
from simple_einet.layers.mixing import MixingLayer
from simple_einet.layers.sum import SumLayer
from simple_einet.type_checks import check_valid

from .. import models as M
from ..core import Violation, expect

LEVEL = "exploration"
RULE = ("one evaluation = one construction (accept or reject) or one check_valid call compared with the documented bounds; "
        "distinct = distinct (field, value) pairs, configurations and check_valid argument tuples")
MIN_EVALS, MIN_DISTINCT = 4000, 1500


def rejected(fn):
    try:
        fn()
    except Violation:
        raise
    except Exception:
        return True
    return False


# ---- accepted configurations work ----
def accepted(rng, ctx, leaf, structure, numpy_ints):
    layer = str(rng.choice(M.LAYERS))
    k = 2 if leaf == "mvn" else 1
    D = int(rng.integers(0, 4))
    # feature counts from the tight bound upwards, odd counts included
    F = k * 2 ** D + int(rng.choice([0, 0, 1, 2, 3, int(rng.integers(0, 8))]))
    F = max(F, 2)
    cfg = M.make_cfg(rng, leaf=leaf, structure=structure, layer=layer, depth=D, F=F, S=int(rng.integers(1, 4)),
                     I=int(rng.integers(1, 4)))
    if numpy_ints:
        typ = [np.int64, np.int32, np.uint8, np.uint16, np.uint64, np.uint32][int(rng.integers(6))]
        conv = {f: typ(getattr(cfg, f)) for f in ("num_features", "num_channels", "num_sums", "num_leaves",
                                                       "num_repetitions", "num_classes", "depth")}
        cfg = dataclasses.replace(cfg, **conv)
    if rng.random() < 0.3:
        cfg = dataclasses.replace(cfg, dropout=float(rng.choice([0.0, 1e-6, 0.5, 0.999])))
    d = {**M.desc(cfg), "numpy": numpy_ints}
    try:
        cfg.assert_valid()
        m = Einet(cfg)
    except Exception as e:
        raise Violation("valid-config-rejected", f"{type(e).__name__}: {str(e)[:200]}", config=d)
    ctx.tick()
    try:
        with torch.no_grad():
            x = M.random_x(cfg, rng, 3)
            m.eval()
            y = m(x)
            expect(y.shape == (3, int(cfg.num_classes)) and bool(torch.isfinite(y).all()), "accepted-not-evaluable",
                   "likelihood of an accepted configuration malformed", config=d)
            s = m.sample(num_samples=3)
            expect(s.shape == x.shape and bool(torch.isfinite(s).all()), "accepted-not-samplable",
                   f"sample of an accepted configuration malformed: {tuple(s.shape)}", config=d)
            expect(m.mpe().shape == (1, *x.shape[1:]), "accepted-not-samplable", "mpe malformed", config=d)
            m.sample(num_samples=2, is_differentiable=True)
            if leaf != "mvn":
                ev = x.clone()
                ev[:, :, ::2] = torch.nan
                z = m.sample(evidence=ev)
                expect(bool(torch.isfinite(z).all()), "accepted-not-samplable", "conditional sample malformed", config=d)
            if cfg.num_classes > 1:
                m.posterior(x)
                m.sample(num_samples=2, class_index=0)
    except Violation:
        raise
    except Exception as e:
        import traceback

        raise Violation("accepted-not-usable", f"{type(e).__name__}: {str(e)[:200]}", config=d,
                        traceback=traceback.format_exc()[-1200:])
    ctx.seen(M.key(cfg))


# ---- rejected configurations ----
def invalid_values():
    sizes = {"num_features": 2, "num_channels": 1, "num_sums": 1, "num_leaves": 1, "num_repetitions": 1, "num_classes": 1,
             "depth": 0}
    out = []
    for f, lo in sizes.items():
        for v in [lo - 1, lo - 2, -5, None, float(lo + 1), "4", np.int64(lo - 1), np.float32(lo + 1),
                  torch.tensor(lo - 1), torch.tensor(float(lo + 1)), [4]]:
            out.append((f, v))
    for v in [-0.1, -1e-9, 1.0, 1.0001, 2.0, float("nan"), float("inf"), "0.1", np.float64(1.0), np.float64(-0.5)]:
        out.append(("dropout", v))
    for v in ["foo", "", None, "LINSUM", "linsum3", "sum", 1, "einsumlayer", "linsum "]:
        out.append(("layer_type", v))
    for v in ["foo", "", None, "TOP-DOWN", "topdown", "top_down", "bottomup", 0]:
        out.append(("structure", v))

    class NotALeaf:
        pass

    for v in [None, torch.nn.Linear, NotALeaf, "Normal", 3, torch.distributions.Normal, Einet]:
        out.append(("leaf_type", v))
    return out


def reject_field(rng, ctx, field, value):
    for structure, layer in [("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum")]:
        for R, K, depth in itertools.product([1, 2], [1, 2], [0, 1, 2]):
            cfg = M.make_cfg(rng, leaf="normal", structure=structure, layer=layer, R=R, K=K, depth=depth, F=9, S=2, I=2, C=1)
            bad = dataclasses.replace(cfg, **{field: value})
            ctx.tick()
            if not rejected(lambda: Einet(bad)):
                raise Violation(f"invalid-config-accepted-{field}", f"{field}={value!r} was accepted",
                                config={**M.desc(cfg), field: repr(value)})
    ctx.seen(f"{field}={value!r}")


def reject_combo(rng, ctx, what):
    def must_reject(mech, **kw):
        base = dict(num_features=8, num_channels=1, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=1, depth=1,
                    leaf_type=M.LEAVES["normal"], layer_type="linsum", structure="top-down")
        base.update(kw)
        ctx.tick()
        if not rejected(lambda: Einet(EinetConfig(**base))):
            raise Violation(mech, f"accepted: {mech}", config={k: repr(v) for k, v in base.items()})
        ctx.seen(f"{what}-" + repr(sorted((k, repr(v)) for k, v in kw.items())))

    if what == "depth":
        for F in range(2, 20):
            D = int(np.floor(np.log2(F)))
            for d in (D + 1, D + 2, D + 5):
                for s in ("top-down", "bottom-up"):
                    for R in (1, 2):
                        must_reject("depth-beyond-features", num_features=F, depth=d, structure=s, num_repetitions=R)
    elif what == "depth-cardinality":
        for F in range(4, 24):
            for card in (2, 3, 4):
                if F // card < 1:
                    continue
                D = int(np.floor(np.log2(F // card)))
                for R in (1, 2):
                    must_reject("depth-beyond-cardinality", num_features=F, depth=D + 1, leaf_type=M.LEAVES["mvn"],
                                leaf_kwargs={"cardinality": card}, num_repetitions=R)
    elif what == "bottom-up-layers":
        for lt in ("linsum2", "einsum"):
            for R in (1, 2):
                for D in (0, 1, 2):
                    must_reject("bottom-up-layer", structure="bottom-up", layer_type=lt, num_repetitions=R, depth=D)
    elif what == "bottom-up-cardinality":
        for R in (1, 2):
            for D in (0, 1, 2):
                must_reject("bottom-up-cardinality", structure="bottom-up", leaf_type=M.LEAVES["mvn"],
                            leaf_kwargs={"cardinality": 2}, num_repetitions=R, depth=D)
    elif what == "multi-scopes":
        N, B = M.LEAVES["normal"], M.LEAVES["bernoulli"]
        bad = [
            [(list(range(4)), N, {}), (list(range(4, 7)), B, {})],  # feature 7 missing
            [(list(range(4)), N, {}), (list(range(4, 9)), B, {})],  # feature 8 does not exist
            [(list(range(4)), N, {}), (list(range(3, 7)), B, {})],  # 3 twice, 7 missing
            [([0, 0, 1, 2], N, {}), ([4, 5, 6, 7], B, {})],  # 0 twice, 3 missing
            [([1, 2, 3, 4], N, {}), ([5, 6, 7, 8], B, {})],  # shifted
        ]
        for st in bad:
            for s in ("top-down", "bottom-up"):
                must_reject("multi-scopes", leaf_type=M.LEAVES["multi"], leaf_kwargs={"scopes_to_dist": st}, structure=s)


def conv(rng, ctx, structure):
    """ConvPc validates its configuration and the image size at construction."""
    def make(shape, **kw):
        base = dict(channels=[3, 2], kernel_size=2, leaf_type=M.LEAVES["normal"], structure=structure)
        base.update(kw)
        return ConvPc(ConvPcConfig(**base), Shape(*shape))

    bad = [("order", v) for v in ("foo", "", None, "sum_prod", "SUM-PROD", "sum")]
    bad += [("structure", v) for v in ("foo", "", None, "topdown", "TOP-DOWN")]
    bad += [(f, v) for f in ("num_channels", "num_classes", "kernel_size") for v in (0, -1, None, 2.0, "2", np.float32(2), [2])]
    bad += [("channels", v) for v in ([], [0], [3, 0], [0, 3], [3, -1], [3, 2.0], [3, None], ["3", 3])]
    bad += [("leaf_type", v) for v in (None, torch.nn.Linear, "Normal", 3, torch.distributions.Normal, ConvPc)]
    for f, v in bad:
        for order in ("sum-prod", "prod-sum"):
            ctx.tick()
            expect(rejected(lambda: make((1, 4, 4), **{"order": order, f: v})), "invalid-conv-accepted",
                   f"ConvPc accepted {f}={v!r} ({structure}, {order})")
        ctx.seen(f"conv-{structure}-{f}={v!r}")
    # image sizes: exactly those the layers can tile
    for H, W in itertools.product(range(1, 10), range(1, 10)):
        for n in (1, 2, 3, 4):
            for k in ((2, 3) if structure == "bottom-up" else (2,)):
                want = (all(v % 2 ** n == 0 for v in (H, W)) if structure == "top-down"
                        else all(v % k ** (n - 1) == 0 for v in (H, W)))
                order = ("sum-prod", "prod-sum")[(H + W + n) % 2]
                kind = [int, np.int64, np.uint8, np.int32][(H * W + n) % 4]
                ctx.tick()
                desc = f"ConvPc {structure} {order} channels={[2] * n} kernel={k} image {H}x{W}"
                ctx.seen(desc)
                try:
                    m = make((1, H, W), channels=[kind(2)] * n, kernel_size=kind(k), order=order)
                except Exception as e:
                    expect(not want, "valid-conv-rejected", f"{desc}: {type(e).__name__}: {str(e)[:150]}")
                    continue
                expect(want, "invalid-conv-accepted", f"{desc} was accepted")
                with torch.no_grad():
                    x = torch.tensor(rng.normal(size=(2, 1, H, W)), dtype=torch.float32)
                    expect(bool(torch.isfinite(m(x)).all()), "accepted-not-evaluable", f"{desc}: likelihood malformed")
                    s = m.sample(num_samples=2)
                    expect(tuple(s.shape) == (2, 1, H, W) and bool(torch.isfinite(s).all()), "accepted-not-samplable",
                           f"{desc}: samples {tuple(s.shape)}")
                    s = m.sample(evidence=torch.where(torch.rand_like(x) < 0.5, torch.nan, x))
                    expect(tuple(s.shape) == (2, 1, H, W) and bool(torch.isfinite(s).all()), "accepted-not-samplable",
                           f"{desc}: conditional samples {tuple(s.shape)}")


def numpy_sizes(rng, ctx, typ):
    """Sizes as numpy/torch integers (unsigned ones wrap around in their own arithmetic) mean what Python ints mean."""
    conv = (lambda v: torch.tensor(v, dtype=getattr(torch, typ[6:]))) if typ.startswith("torch.") else getattr(np, typ)
    fields = ("num_features", "num_channels", "num_sums", "num_leaves", "num_repetitions", "num_classes", "depth")
    for leaf, kw in (("normal", {}), ("mvn", {"cardinality": 2}), ("mvn", {"cardinality": 3}), ("categorical", {"num_bins": 3})):
        for structure, layer in (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum")):
            if leaf == "mvn" and structure == "bottom-up":
                continue
            for F, C, S, R, D in ((7, 1, 2, 1, 0), (7, 2, 2, 2, 1), (16, 1, 3, 2, 2), (100, 3, 20, 10, 3)):
                cfg = M.make_cfg(rng, leaf=leaf, structure=structure, layer=layer, F=F, C=C, S=S, I=S, R=R, K=2,
                                 depth=min(D, int(np.log2(F // kw.get("cardinality", 1)))), kwargs=kw)
                alt = dataclasses.replace(cfg, **{f: conv(getattr(cfg, f)) for f in fields})
                torch.manual_seed(1)
                a = Einet(cfg)
                torch.manual_seed(1)
                try:
                    b = Einet(alt)
                except Exception as e:
                    raise Violation("valid-config-rejected", f"sizes as {typ}: {type(e).__name__}: {str(e)[:200]}", config=M.desc(cfg))
                ctx.tick()
                expect({k: tuple(v.shape) for k, v in a.state_dict().items()} == {k: tuple(v.shape) for k, v in b.state_dict().items()},
                       "numpy-sizes", f"sizes as {typ} build a different model", config=M.desc(cfg))
                with torch.no_grad():
                    x = M.random_x(cfg, rng, 3)
                    b.load_state_dict(a.state_dict())
                    a.eval(), b.eval()
                    expect(torch.allclose(a(x), b(x), atol=1e-4), "numpy-sizes", f"sizes as {typ} change the likelihood",
                           config=M.desc(cfg))
                    s = b.sample(num_samples=3, seed=1)
                    expect(s.shape == x.shape and torch.equal(s, a.sample(num_samples=3, seed=1)), "numpy-sizes",
                           f"sizes as {typ} change seeded samples", config=M.desc(cfg))
                    if leaf != "mvn":
                        ev = x.clone()
                        ev[:, :, ::2] = torch.nan
                        expect(torch.equal(b.sample(evidence=ev, seed=1), a.sample(evidence=ev, seed=1)), "numpy-sizes",
                               f"sizes as {typ} change seeded conditional samples", config=M.desc(cfg))
                ctx.seen(f"{typ}-{M.key(cfg)}")
    for d in (8, 9, 16):  # beyond the width of a byte
        ctx.tick()
        bad = M.make_cfg(rng, leaf="normal", structure="top-down", layer="linsum", F=16, depth=1)
        expect(rejected(lambda: Einet(dataclasses.replace(bad, depth=conv(d)))), "invalid-config-accepted-depth",
               f"depth={d} ({typ}) was accepted for 16 features")


def layers(rng, ctx):
    """Stand-alone layers check their sizes and dropout rates as well."""
    makers = {
        "sum": lambda **k: SumLayer(**{**dict(num_features=2, num_sums_in=2, num_sums_out=2, num_repetitions=1), **k}),
        "linsum": lambda **k: LinsumLayer(**{**dict(num_features=2, num_sums_in=2, num_sums_out=2, num_repetitions=1), **k}),
        "linsum2": lambda **k: LinsumLayer2(**{**dict(num_features=2, num_sums_in=2, num_sums_out=2, num_repetitions=1), **k}),
        "einsum": lambda **k: EinsumLayer(**{**dict(num_features=2, num_sums_in=2, num_sums_out=2, num_repetitions=1), **k}),
        "mixing": lambda **k: MixingLayer(**{**dict(num_features=2, num_sums_in=2, num_sums_out=2), **k}),
    }
    for leaf in ("normal", "bernoulli", "binomial", "categorical", "ratnormal"):
        kw = M.leaf_kwargs(leaf, rng)
        makers[leaf] = lambda kw=kw, leaf=leaf, **k: M.LEAVES[leaf](
            **{**dict(num_features=2, num_channels=1, num_leaves=2, num_repetitions=1), **kw, **k})
    for name, make in makers.items():
        ctx.tick()
        expect(not rejected(make), "valid-layer-rejected", f"{name} layer with valid sizes rejected")
        fields = ["num_features"]
        fields += ["num_channels", "num_leaves"] if name in M.LEAVES else ["num_sums_in", "num_sums_out"]
        if name != "mixing":
            fields.append("num_repetitions")
        for f in fields:
            for v in (0, -1, None, 2.0, "2"):
                ctx.tick()
                expect(rejected(lambda: make(**{f: v})), f"invalid-layer-accepted", f"{name} layer accepted {f}={v!r}")
                ctx.seen(f"{name}-{f}={v!r}")
        if name not in M.LEAVES:
            for v in (-0.1, 1.0, 1.5, None, "a"):
                ctx.tick()
                expect(rejected(lambda: make(dropout=v)), "invalid-layer-accepted", f"{name} layer accepted dropout={v!r}")
            for v in (0.0, 0.5, 0.999):
                ctx.tick()
                expect(not rejected(lambda: make(dropout=v)), "valid-layer-rejected", f"{name} layer rejected dropout={v!r}")


def bounds(rng, ctx, typ):
    """check_valid against its documentation over a grid of values, types and bounds."""
    raw = [-3, -2, -1, 0, 1, 2, 3, 5] if typ is int else [-2.5, -1.0, -1e-6, 0.0, 1e-6, 0.5, 1.0, 2.5, float("inf")]
    lows = [None, -2, -1, 0, 1, 3] if typ is int else [None, -1.0, 0.0, 0, 0.5, 1.0]
    highs = lows
    for v in raw:
        # every scalar type of the documented families that represents v
        if typ is int:
            wraps = [v] + [t(v) for t in (np.int8, np.int16, np.int32, np.int64, np.intc)]
            wraps += [t(v) for t in (np.uint8, np.uint16, np.uint32, np.uint64) if v >= 0]
            wraps += [torch.tensor(v, dtype=t) for t in (torch.int16, torch.int32, torch.int64)]
        else:
            wraps = [v, np.float64(v), np.float32(v), np.float16(v), torch.tensor(v),
                     torch.tensor(v, dtype=torch.float64), torch.tensor(v, dtype=torch.float16)]
        for w, lo, hi in itertools.product(wraps, lows, highs):
            fv = float(w)
            want_ok = (lo is None or fv >= lo) and (hi is None or fv < hi)
            ctx.tick()
            try:
                got = check_valid(w, typ, lo, hi)
                ok = True
            except Exception:
                ok = False
            desc = f"check_valid({w!r}, {typ.__name__}, {lo}, {hi})"
            ctx.seen(desc)
            expect(ok == want_ok, "bounds-" + ("accepted" if ok else "rejected"), f"{desc}: accepted={ok}, documented {want_ok}")
            if ok:
                expect(type(got) is typ and got == fv, "check-valid-value", f"{desc} returned {got!r}")
    # types
    other = [1.0, np.float32(1), torch.tensor(1.0)] if typ is int else [np.int64(1), torch.tensor(1), 1]
    for w in other + ["1", None, [1], (1,), object()]:
        ctx.tick()
        expect(rejected(lambda: check_valid(w, typ)), "type-accepted", f"check_valid({w!r}, {typ.__name__}) was accepted")
        ctx.seen(f"{w!r}{typ}" if w.__class__ is not object else f"object{typ}")
        if w is not None:
            ctx.tick()
            expect(rejected(lambda: check_valid(w, typ, allow_none=True)), "type-accepted",
                   f"check_valid({w!r}, {typ.__name__}, allow_none=True) was accepted")
    expect(check_valid(None, typ, 0, 1, allow_none=True) is None, "allow-none", "None rejected with allow_none")


def check(ctx):
    for typ in (int, float):
        ctx.run(f"check_valid-{typ.__name__}", {}, bounds, ctx, typ)
    ctx.run("layers", {}, layers, ctx)
    for st in ("top-down", "bottom-up"):
        ctx.run(f"conv-{st}", {"structure": st}, conv, ctx, st)
    for typ in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "torch.int32", "torch.int64", "torch.int16"):
        ctx.run(f"numpy-sizes-{typ}", {"type": typ}, numpy_sizes, ctx, typ)
    for what in ("depth", "depth-cardinality", "bottom-up-layers", "bottom-up-cardinality", "multi-scopes"):
        ctx.run(f"combo-{what}", {}, reject_combo, ctx, what)
    for i, (f, v) in enumerate(invalid_values()):
        ctx.run(f"field-{f}-{i}", {"field": f, "value": repr(v)}, reject_field, ctx, f, v)
    for i in range(ctx.n(300, 3000)):
        leaf = ["normal", "categorical", "bernoulli", "binomial", "ratnormal", "multi", "mvn"][i % 7]
        structure = "bottom-up" if (i // 7) % 3 == 0 and leaf != "mvn" else "top-down"
        ctx.run(f"accept-{i}-{leaf}-{structure}", {}, accepted, ctx, leaf, structure, i % 5 == 0)
