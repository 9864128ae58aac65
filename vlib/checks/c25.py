"""C25: every circuit layer computes its documented sums/products and samples child indices with its normalised weights."""
import numpy as np
import torch
from scipy.special import logsumexp
from torch.nn import functional as F

from simple_einet import conv_pc as CP
from simple_einet.layers.einsum import EinsumLayer
from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2
from simple_einet.layers.mixing import MixingLayer
from simple_einet.layers.product import CrossProductLayer, ProductLayer, RootProductLayer
from simple_einet.layers.sum import SumLayer
from simple_einet.sampling_utils import SamplingContext

from ..core import Violation, expect
from ..stats import P1, P2, gof_p

LEVEL = "exploration"
RULE = ("one evaluation = one output entry of a layer compared with a float64 evaluation of its documented sum/product, or one "
        "sampled child index judged against the normalised weights of the selected node and repetition; "
        "distinct = distinct (layer, shape, kind of input or sampling mode)")
MIN_EVALS, MIN_DISTINCT = 100000, 200
ASSUMPTIONS = ("einsum layers work on the probability scale after subtracting the maxima: weights below 1e-30 are not generated",)

SUMS = {"sum": SumLayer, "linsum": LinsumLayer, "linsum2": LinsumLayer2, "einsum": EinsumLayer, "mixing": MixingLayer}


def lse(a, axis):
    with np.errstate(divide="ignore"):
        return logsumexp(a, axis=axis)


def lw(logits, axes):
    return logits - lse(logits, axes).reshape([1 if i in axes else s for i, s in enumerate(logits.shape)])


def make_layer(rng, kind, D, S, O, R, scale, dtype):
    if kind == "mixing":
        layer = MixingLayer(num_features=D, num_sums_in=S, num_sums_out=O)
    else:
        layer = SUMS[kind](num_features=D, num_sums_in=S, num_sums_out=O, num_repetitions=R)
    layer = layer.to(dtype)
    with torch.no_grad():
        layer.logits.copy_(torch.from_numpy(rng.normal(size=tuple(layer.logits.shape)) * scale).to(dtype))
    return layer


def weights(kind, layer):
    """log weights as [feature or pair, node, repetition, children...] in float64."""
    L = layer.logits.detach().double().numpy()
    if kind == "mixing":
        return lw(L, (2,))[:, :, None, :]
    if kind == "einsum":
        return lw(L, (3, 4))
    return lw(L, (1,)).transpose(0, 2, 3, 1)


def pad_pairs(x):
    left, right = x[:, 0::2], x[:, 1::2]
    if left.shape[1] != right.shape[1]:  # the odd one out is multiplied by 1
        right = np.concatenate([right, np.zeros_like(left[:, :1])], 1)
    return left, right


def forward_ref(kind, W, x):
    """x: float64 layer input; returns the documented output."""
    with np.errstate(invalid="ignore"):
        if kind == "mixing":  # x [N, D, O, S]
            return lse(x + W[None, :, :, 0], 3)
        if kind in ("sum", "linsum2"):
            z = np.moveaxis(x, 2, 3)[:, :, None]  # N D 1 R S
            y = lse(z + W[None], 4)
            if kind == "sum":
                return y
            a, b = pad_pairs(y)
            return a + b
        a, b = pad_pairs(x)
        if kind == "linsum":
            return lse(np.moveaxis(a + b, 2, 3)[:, :, None] + W[None], 4)
        a, b = np.moveaxis(a, 2, 3), np.moveaxis(b, 2, 3)  # N P R S
        y = a[..., :, None] + b[..., None, :]
        return lse((y[:, :, None] + W[None]).reshape(*y.shape[:2], W.shape[1], y.shape[2], -1), 4)


def make_input(rng, shape, mode, ch_axis):
    x = rng.normal(size=shape)
    if mode == "unit":
        x = -np.abs(x) * 3
    elif mode == "spread":
        x = x * 60
    elif mode == "huge":
        x = -np.abs(x) * 10 - 10.0 ** rng.uniform(2, 4.5)
    elif mode == "density":
        x = x * 5 + 300
    elif mode == "impossible":  # some children have probability zero
        x = np.where(rng.random(shape) < 0.4, -np.inf, -np.abs(x) * 4)
    elif mode == "dead":  # whole regions have probability zero
        dead = np.expand_dims(rng.random([s for i, s in enumerate(shape) if i != ch_axis]) < 0.3, ch_axis)
        x = np.where(dead, -np.inf, -np.abs(x) * 4)
    return x


MODES = ("unit", "spread", "huge", "density", "impossible", "dead")


def compare(ctx, out, ref, x, what, tag, dtype):
    out = out.detach()
    expect(tuple(out.shape) == ref.shape, "shape", f"{what}: output shape {tuple(out.shape)}, documented {ref.shape}", layer=tag)
    expect(out.dtype == dtype, "dtype", f"{what}: output is {out.dtype} for {dtype} input", layer=tag)
    o = out.double().numpy()
    ctx.tick(o.size)
    expect(not np.isnan(o).any(), "nan", f"{what}: output has NaN entries (documented value {ref[np.isnan(o)][:3]})", layer=tag)
    inf = np.isinf(ref)
    expect(bool((o[inf] == ref[inf]).all()) and bool(np.isfinite(o[~inf]).all()), "infinite",
           f"{what}: -inf exactly where the documented value is not respected", layer=tag,
           got=o[inf != np.isinf(o)][:4], want=ref[inf != np.isinf(o)][:4])
    big = np.abs(x[np.isfinite(x)]).max() if np.isfinite(x).any() else 1.0
    eps = 1.2e-7 if dtype == torch.float32 else 2.3e-16
    tol = 60 * eps * (2 + big * 4)
    d = np.abs(o[~inf] - ref[~inf])
    if d.size:
        ctx.extra["max_error_in_tolerances"] = max(ctx.extra.get("max_error_in_tolerances", 0.0), float(d.max() / tol))
        expect(d.max() <= tol, "wrong-value", f"{what}: output differs from the documented value by {d.max():.3g} (tolerance {tol:.1g})",
               layer=tag, got=o[~inf][d.argmax()], want=ref[~inf][d.argmax()])


def forward_case(rng, ctx, kind, D, dtype):
    S, O, R = int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    N = int(rng.choice([1, 2, 7]))
    layer = make_layer(rng, kind, D, S, O, R, float(rng.choice([0.3, 2.0, 8.0])), dtype)
    layer.eval()
    W = weights(kind, layer)
    tag = f"{kind}(D={D},S={S},O={O},R={R},{str(dtype)[6:]})"
    shape = (N, D, O, S) if kind == "mixing" else (N, D, S, R)
    ax = 3 if kind == "mixing" else 2
    for mode in MODES:
        x = torch.from_numpy(make_input(rng, shape, mode, ax)).to(dtype)
        x0 = x.clone()
        with torch.no_grad():
            out = layer(x)
        expect(torch.equal(x, x0), "input-modified", f"{tag} modified its input")
        compare(ctx, out, forward_ref(kind, W, x.double().numpy()), x.double().numpy(), f"{mode} input", tag, dtype)
        # other memory layouts of the same values
        with torch.no_grad():
            xt = x.transpose(0, 3).contiguous().transpose(0, 3)
            out2 = layer(xt)
        compare(ctx, out2, forward_ref(kind, W, x.double().numpy()), x.double().numpy(), f"{mode} strided input", tag, dtype)
        ctx.seen(f"fwd|{tag}|{mode}")


def products_case(rng, ctx, dtype):
    D, C, R, N = int(rng.integers(1, 12)), int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.choice([1, 3, 8]))
    for mode in MODES:
        x = torch.from_numpy(make_input(rng, (N, D, C, R), mode, 2)).to(dtype)
        xd = x.double().numpy()
        k = int(rng.integers(1, D + 1))
        lay = ProductLayer(in_features=D, cardinality=k, num_repetitions=R).to(dtype)
        pad = (-D) % k
        xp = np.concatenate([xd, np.zeros((N, pad, C, R))], 1)
        ref = xp.reshape(N, -1, k, C, R).sum(2)
        tag = f"product(D={D},k={k},C={C},R={R},{str(dtype)[6:]})"
        compare(ctx, lay(x), ref, xd * k, f"{mode} input", tag, dtype)
        ctx.seen(f"fwd|{tag}|{mode}")
        lay = RootProductLayer(num_features=D, num_repetitions=R).to(dtype)
        compare(ctx, lay(x), xd.sum(1, keepdims=True), xd * D, f"{mode} input", f"root{D},{C},{R}", dtype)
        ctx.seen(f"fwd|root({D},{C},{R},{str(dtype)[6:]})|{mode}")
        if D >= 2:
            lay = CrossProductLayer(in_features=D, in_channels=C, num_repetitions=R).to(dtype)
            a, b = pad_pairs(xd)
            ref = (a[:, :, :, None] + b[:, :, None, :]).reshape(N, a.shape[1], C * C, R)
            tag = f"cross(D={D},C={C},R={R},{str(dtype)[6:]})"
            compare(ctx, lay(x), ref, xd * 2, f"{mode} input", tag, dtype)
            ctx.seen(f"fwd|{tag}|{mode}")

    # top-down: every child of a product node inherits the node's index
    n = 6
    for k in sorted({1, 2, D, int(rng.integers(1, D + 1))}):
        if k > D:
            continue
        lay = ProductLayer(in_features=D, cardinality=k, num_repetitions=R)
        Dout = -(-D // k)
        idx = torch.from_numpy(rng.integers(0, C, size=(n, Dout)))
        c = lay.sample(SamplingContext(num_samples=n, indices_out=idx.clone(), indices_repetition=torch.zeros(n, dtype=torch.long)))
        want = idx[:, torch.arange(D) // k]
        expect(torch.equal(c.indices_out, want), "product-children", f"product(D={D},k={k}): children get other indices than their parent",
               got=c.indices_out, want=want)
        oh = F.one_hot(idx, C).float()
        c = lay.sample(SamplingContext(num_samples=n, indices_out=oh, indices_repetition=torch.ones(n, 1), is_differentiable=True))
        expect(torch.equal(c.indices_out, F.one_hot(want, C).float()), "product-children", f"product(D={D},k={k}), one-hot")
        if R == 1 and Dout == 1:
            c = lay.sample(SamplingContext(num_samples=n))
            expect(torch.equal(c.indices_out, torch.zeros(n, D, dtype=torch.long)) and
                   torch.equal(c.indices_repetition, torch.zeros(n, dtype=torch.long)), "product-root",
                   f"product(D={D},k={k}) as the root: children are not all node 0", got=c.indices_out)
        ctx.tick(n * D)
        ctx.seen(f"smp|product({D},{k},{R})")
    lay = RootProductLayer(num_features=D, num_repetitions=R)
    idx = torch.from_numpy(rng.integers(0, C, size=(n, 1)))
    c = lay.sample(SamplingContext(num_samples=n, indices_out=idx.clone(), indices_repetition=torch.zeros(n, dtype=torch.long)))
    expect(torch.equal(c.indices_out, idx.expand(n, D)), "product-children", f"root product of {D} features")
    oh = F.one_hot(idx, C).float()
    c = lay.sample(SamplingContext(num_samples=n, indices_out=oh, indices_repetition=torch.ones(n, 1), is_differentiable=True))
    expect(torch.equal(c.indices_out, oh.expand(n, D, C)), "product-children", f"root product of {D} features, one-hot")
    if D >= 2:
        lay = CrossProductLayer(in_features=D, in_channels=C, num_repetitions=R)
        P = -(-D // 2)
        idx = torch.from_numpy(rng.integers(0, C * C, size=(n, P)))
        c = lay.sample(SamplingContext(num_samples=n, indices_out=idx.clone(), indices_repetition=torch.zeros(n, dtype=torch.long)))
        want = torch.stack([idx // C, idx % C], 2).reshape(n, -1)[:, :D]
        expect(torch.equal(c.indices_out, want), "product-children", f"cross(D={D},C={C}): children indices", got=c.indices_out, want=want)
        ctx.tick(n * D)


def child_table(kind, W, p, o, r, a=None, b=None, T=1.0):
    """probabilities of the flat child index of pair/feature p given node o, repetition r [and child log-likelihoods]."""
    w = W[p, o, r]
    w = w / T
    w = w - lse(w, None)
    if kind == "einsum":
        if a is not None:
            w = w + a[:, None] + b[None, :]
        w = w.reshape(-1)
    elif a is not None:
        w = w + (a if b is None else a + b)
    w = np.exp(w - w.max())
    return w / w.sum()


def split(kind, idx, n_f):
    """child indices [N, D] -> flat child index per sum node [N, nodes]; violated structure raises."""
    if kind in ("sum", "linsum2", "mixing"):
        return idx
    left, right = idx[:, 0::2], idx[:, 1::2]
    return left, right


def sample_case(rng, ctx, kind, D):
    S, O, R = int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if kind == "mixing":
        R = 1
    layer = make_layer(rng, kind, D, S, O, R, 1.5, torch.float32)
    layer.eval()
    W = weights(kind, layer)
    tag = f"{kind}(D={D},S={S},O={O},R={R})"
    Dout = layer.num_features_out
    P = W.shape[0]  # sum nodes per sample
    for mode in ("plain", "diff", "evidence", "evidence-diff", "impossible", "impossible-diff", "tempered"):
        diff = mode.endswith("diff")
        if mode.startswith(("evidence", "impossible")) and not ctx.has(layer, "_enable_input_cache", "_disable_input_cache"):
            continue
        T = 1.0 if mode != "tempered" else float(rng.choice([0.4, 2.5]))
        K = 4  # distinct parent contexts
        o_k = rng.integers(0, O, size=(K, Dout))
        r_k = rng.integers(0, R, size=K)
        x_k = None
        if mode.startswith(("evidence", "impossible")):
            shp = (K, D, O, S) if kind == "mixing" else (K, D, S, R)
            ax = 3 if kind == "mixing" else 2
            x_k = make_input(rng, shp, "unit", ax)
            if mode.startswith("impossible"):
                zero = rng.random(shp) < 0.35
                np.put_along_axis(zero, rng.integers(0, S, size=[1 if i == ax else s for i, s in enumerate(shp)]), False, ax)
                if kind == "linsum":  # the same child must stay possible on both sides
                    zero[:, 1::2] = False
                x_k = np.where(zero, -np.inf, x_k)

        def draw(n, is_mpe=False, seed=None):
            rows = np.repeat(np.arange(K), n)
            ctx_ = SamplingContext(num_samples=len(rows), is_mpe=is_mpe, temperature_sums=T, is_differentiable=diff)
            o = torch.from_numpy(o_k[rows])
            r = torch.from_numpy(r_k[rows])
            ctx_.indices_out = F.one_hot(o, O).float() if diff else o
            ctx_.indices_repetition = F.one_hot(r, R).float() if diff else r
            if kind == "mixing" and not diff:
                ctx_.indices_out = o
            with torch.no_grad():
                if x_k is not None:
                    layer._enable_input_cache()
                    layer(torch.from_numpy(x_k[rows]).float())
                try:
                    idx = layer.sample(ctx_).indices_out
                finally:
                    if x_k is not None:
                        layer._disable_input_cache()
            want = (len(rows), D, S) if diff else (len(rows), D)
            expect(tuple(idx.shape) == want, "shape", f"{mode}: sampled indices have shape {tuple(idx.shape)}, expected {want}", layer=tag)
            if diff:
                expect(bool(torch.isfinite(idx).all()), "nan", f"{mode}: differentiable choice has non-finite entries", layer=tag)
                hard = idx.argmax(-1)
                expect(bool(((idx - F.one_hot(hard, S)).abs() < 1e-5).all()), "not-one-hot", f"{mode}: choice is not one-of-K", layer=tag)
                idx = hard
            idx = idx.numpy()
            expect(bool((idx >= 0).all() and (idx < S).all()), "index-range", f"{mode}: child index outside 0..{S - 1}", layer=tag)
            ctx.tick(idx.size)
            if kind == "linsum":
                f = D // 2 * 2
                expect(bool((idx[:, 0:f:2] == idx[:, 1:f:2]).all()), "children-differ",
                       f"{mode}: both children of a linsum product must have the same channel", layer=tag)
                node = idx[:, 0::2]
            elif kind == "einsum":
                node = idx[:, 0::2] * S + idx[:, 1::2]
            else:
                node = idx
            return node.reshape(K, n, P)

        def table(k, p):
            q = p // 2 if kind == "linsum2" else p
            a = b = None
            if x_k is not None:
                if kind == "mixing":
                    a = x_k[k, p, o_k[k, p]]
                elif kind in ("sum", "linsum2"):
                    a = x_k[k, p, :, r_k[k]]
                else:
                    a = x_k[k, 2 * p, :, r_k[k]]
                    b = x_k[k, 2 * p + 1, :, r_k[k]] if 2 * p + 1 < D else None
            return child_table(kind, W, p, o_k[k, q], r_k[k] if kind != "mixing" else 0, a, b, T)

        tabs = {(k, p): table(k, p) for k in range(K) for p in range(P)}
        n = 700 if not ctx.thorough else 2500
        obs = draw(n)
        ps = {kp: gof_p(obs[kp[0], :, kp[1]], t) for kp, t in tabs.items()}
        if min(ps.values()) < P1:
            obs = draw(4 * n)
            ps = {kp: gof_p(obs[kp[0], :, kp[1]], t) for kp, t in tabs.items()}
            kp = min(ps, key=ps.get)
            if ps[kp] < P2:
                f = np.bincount(obs[kp[0], :, kp[1]], minlength=len(tabs[kp])) / (4 * n)
                raise Violation("wrong-choice", f"{mode}: child frequencies {np.round(f, 3)[:9]} where the weights give "
                                f"{np.round(tabs[kp], 3)[:9]} (p={ps[kp]:.1e})", layer=tag)
        for kp, t in tabs.items():
            expect(bool((t[np.unique(obs[kp[0], :, kp[1]])] > 0).all()), "impossible-child", f"{mode}: a child of probability zero was chosen", layer=tag)
        # nodes are chosen independently of each other and of other samples
        if P > 1:
            k = int(rng.integers(K))
            p, q = rng.choice(P, 2, replace=False)
            ab = obs[k, :, p] * len(tabs[(k, q)]) + obs[k, :, q]
            t2 = np.outer(tabs[(k, p)], tabs[(k, q)]).ravel()
            if gof_p(ab, t2) < P1:
                o2 = draw(4 * n)
                pv = gof_p(o2[k, :, p] * len(tabs[(k, q)]) + o2[k, :, q], t2)
                expect(pv > P2, "dependent-choices", f"{mode}: choices of two nodes are not independent (p={pv:.1e})", layer=tag)
        # most probable child
        m = draw(1, is_mpe=True)
        for (k, p), t in tabs.items():
            s = np.sort(t)
            if len(s) == 1 or s[-1] - s[-2] > 1e-5:
                expect(m[k, 0, p] == t.argmax(), "wrong-argmax", f"{mode}: most probable child is {t.argmax()}, chosen {m[k, 0, p]}", layer=tag)
        ctx.seen(f"smp|{tag}|{mode}")

    # a single repetition needs no repetition index
    if R == 1 and kind != "mixing":
        c = SamplingContext(num_samples=3, indices_out=torch.zeros(3, Dout, dtype=torch.long))
        i = layer.sample(c).indices_out
        expect(tuple(i.shape) == (3, D), "shape", "sampling without repetition indices", layer=tag)
        ctx.count("no_repetition_index")


def conv_weights(layer, H, W):
    """log weights [out, in, H, W] of a convolutional sum (tiled over the patches of SumConv)."""
    L = lw(layer.logits.detach().double().numpy(), (1,))
    return np.tile(L, (1, 1, H // L.shape[2], W // L.shape[3]))


def conv_sum_ref(layer, x):
    return lse(x[:, None] + conv_weights(layer, x.shape[2], x.shape[3])[None], 2)


def conv_prod_ref(x, kh, kw):
    N, C, H, W = x.shape
    out = np.zeros((N, C, H // kh, W // kw))
    for i in range(H // kh):
        for j in range(W // kw):
            out[:, :, i, j] = x[:, :, i * kh:(i + 1) * kh, j * kw:(j + 1) * kw].sum((2, 3))
    return out


def conv_case(rng, ctx, kind, dtype):
    Ci, Co = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    kh, kw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if kind == "sumconv":
        kw = kh
    H, W = kh * int(rng.integers(1, 4)), kw * int(rng.integers(1, 4))
    if kind == "sumconv":
        layer = CP.SumConv(Ci, Co, kernel_size=kh)
    elif kind == "convsum":
        layer = CP.SumLayer(Ci, Co, H, W)
    elif kind == "prodconv":
        layer = CP.ProdConv(kh, kw)
    else:
        layer = CP.SumProdLayer(Ci, Co, H, W, kh, kw, order=kind)
    layer = layer.to(dtype)
    with torch.no_grad():
        for q in layer.parameters():
            q.copy_(torch.from_numpy(rng.normal(size=tuple(q.shape)) * float(rng.choice([0.5, 3.0]))).to(dtype))
    tag = f"{kind}(C={Ci},O={Co},H={H},W={W},k={kh}x{kw})"
    for mode in MODES if kind in ("sumconv", "convsum") else MODES[:4]:
        x = make_input(rng, (int(rng.integers(1, 5)), Ci, H, W), mode, 1)
        xt = torch.from_numpy(x).to(dtype)
        x64, keep = xt.double().numpy(), xt.clone()
        if kind in ("sumconv", "convsum"):
            ref = conv_sum_ref(layer, x64)
        elif kind == "prodconv":
            ref = conv_prod_ref(x64, kh, kw)
        elif kind == "sum-prod":
            ref = conv_prod_ref(conv_sum_ref(layer.sum_layer, x64), kh, kw)
        else:
            ref = conv_sum_ref(layer.sum_layer, conv_prod_ref(x64, kh, kw))
        ops = kh * kw if "prod" in kind else 1
        with torch.no_grad():
            compare(ctx, layer(xt), ref, x64 * ops, f"{mode} input", tag, dtype)
        expect(torch.equal(xt, keep), "input-modified", f"{tag} modified its input")
        ctx.seen(f"conv|{tag}|{mode}")


def conv_sample_case(rng, ctx, kind):
    """Children chosen by convolutional sums; the choice of a product is repeated for its patch."""
    K, n = 3, 500 if not ctx.thorough else 2000
    Ci, Co = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    k = int(rng.integers(1, 3))
    H, W = k * int(rng.integers(1, 3)), k * int(rng.integers(1, 3))
    layer = CP.SumConv(Ci, Co, kernel_size=k) if kind == "sumconv" else CP.SumLayer(Ci, Co, H, W)
    with torch.no_grad():
        layer.logits.copy_(torch.from_numpy(rng.normal(size=tuple(layer.logits.shape)) * 1.5).float())
    tag = f"{kind}(C={Ci},O={Co},H={H},W={W},k={k})"
    o_k = rng.integers(0, Co, size=(K, H, W))
    for mode in ("plain", "tempered", "evidence"):
        if mode == "evidence" and not ctx.has(layer, "_enable_input_cache", "_disable_input_cache"):
            continue
        T = float(rng.choice([0.4, 2.5])) if mode == "tempered" else 1.0
        x_k = make_input(rng, (K, Ci, H, W), "unit", 1) if mode == "evidence" else None
        logits = layer.logits.detach().double().numpy()
        lwt = np.tile(lw(logits / T, (1,)), (1, 1, H // logits.shape[2], W // logits.shape[3]))

        def draw(n, is_mpe=False):
            rows = np.repeat(np.arange(K), n)
            c = CP.SamplingContext(num_samples=len(rows), is_mpe=is_mpe, temperature_sums=T, is_differentiable=True)
            c.indices_out = F.one_hot(torch.from_numpy(o_k[rows]), Co).movedim(-1, 1).float()
            with torch.no_grad():
                if x_k is not None:
                    layer._enable_input_cache()
                    layer(torch.from_numpy(x_k[rows]).float())
                try:
                    idx = layer.sample(c).indices_out
                finally:
                    if x_k is not None:
                        layer._disable_input_cache()
            expect(tuple(idx.shape) == (len(rows), Ci, H, W), "shape", f"{mode}: sampled indices {tuple(idx.shape)}", layer=tag)
            hard = idx.argmax(1)
            expect(bool(((idx - F.one_hot(hard, Ci).movedim(-1, 1)).abs() < 1e-5).all()), "not-one-hot",
                   f"{mode}: choice is not one-of-K", layer=tag)
            ctx.tick(hard.numel())
            return hard.numpy().reshape(K, n, H, W)

        def table(c, i, j):
            t = lwt[o_k[c, i, j], :, i, j]
            if x_k is not None:
                t = t + x_k[c, :, i, j]
            return np.exp(t - lse(t, 0))

        obs, best = draw(n), draw(1, True)
        for c in range(K):
            for i in range(H):
                for j in range(W):
                    t = table(c, i, j)
                    if gof_p(obs[c, :, i, j], t) < P1:
                        again = draw(4 * n)
                        pv = gof_p(again[c, :, i, j], t)
                        expect(pv > P2, "wrong-choice", f"{mode}: frequencies {np.round(np.bincount(again[c, :, i, j], minlength=Ci) / (4 * n), 3)} "
                               f"where the weights give {np.round(t, 3)} (p={pv:.1e})", layer=tag, position=[i, j])
                    s = np.sort(t)
                    if s[-1] - s[-2] > 1e-5:
                        expect(best[c, 0, i, j] == t.argmax(), "wrong-argmax", f"{mode}: most probable child", layer=tag)
        ctx.seen(f"convsmp|{tag}|{mode}")
    # products hand the index of the patch to all of its children
    kh, kw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    prod = CP.ProdConv(kh, kw)
    c = CP.SamplingContext(num_samples=K, is_differentiable=True)
    ind = F.one_hot(torch.from_numpy(o_k), Co).movedim(-1, 1).float()
    c.indices_out = ind.clone()
    out = prod.sample(c).indices_out
    want = np.kron(ind.numpy(), np.ones((1, 1, kh, kw)))
    ctx.tick(out.numel())
    expect(tuple(out.shape) == want.shape and bool((out.numpy() == want).all()), "wrong-patch",
           f"product of {kh}x{kw} patches does not hand its index to its children")


def refuse_case(rng, ctx):
    for D in (1, 3, 5, 9):
        try:
            layer = EinsumLayer(num_features=D, num_sums_in=3, num_sums_out=2)
        except (Exception, AssertionError):
            ctx.count("odd_einsum_refused")
            continue
        try:
            with torch.no_grad():
                out = layer(torch.zeros(2, D, 3, 1))
        except Exception as e:
            raise Violation("odd-einsum", f"EinsumLayer of {D} features is constructed but fails in use: {type(e).__name__} {str(e)[:120]}")
        # documented shape [batch, ceil(in_features/2), ...]: must not silently drop or repeat a feature
        expect(out.shape[1] == -(-D // 2), "odd-einsum", f"EinsumLayer of {D} features returns {out.shape[1]} regions")
        x = torch.randn(2, D, 3, 1)
        y = x.clone()
        y[:, -1] -= 5.0
        with torch.no_grad():
            d = layer(x)[:, -1] - layer(y)[:, -1]
        expect(bool(((d - 5).abs() < 1e-3).all()), "odd-einsum", "the last feature does not enter the product exactly once")
    for R in (2, 3):
        layer = SumLayer(num_features=2, num_sums_in=3, num_sums_out=2, num_repetitions=R)
        try:
            layer.sample(SamplingContext(num_samples=2, indices_out=torch.zeros(2, 2, dtype=torch.long)))
        except (Exception, AssertionError):
            ctx.count("missing_repetition_refused")
        else:
            raise Violation("not-refused", "sampling several repetitions without a repetition index is accepted")


def masked_case(rng, ctx, i):
    """einsum.logsumexp: log of the signed, weighted sum of exponentials along any axis, for tensors and lists of tensors."""
    from simple_einet.layers import einsum as E
    shape = tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 4))))
    dim = int(rng.integers(-len(shape), len(shape)))
    n = shape[dim]
    off = float(rng.choice([0, 0, -400, 300, 1e4]))
    x = torch.tensor(rng.normal(0, float(rng.choice([3, 3, 150])), size=shape) + off, dtype=torch.float64 if i % 2 else torch.float32)
    rows = list(shape)
    rows[dim] = 1
    x = x + torch.tensor(rng.choice([0.0, 0.0, -700.0, 500.0], size=rows), dtype=x.dtype)  # the slices differ by more than exp can hold
    mask = None if i % 3 == 0 else [float(v) for v in rng.choice([1, 1, 0, -1, 2, .5], size=n)]
    if mask is not None and i % 3 == 1:
        mask = [abs(v) for v in mask]
    if mask is not None and not any(mask):
        mask[0] = 1.0
    given = None if mask is None else torch.tensor(mask, dtype=x.dtype) if i % 4 == 0 else mask if i % 4 < 3 else tuple(mask)
    keep, arg = x.clone(), x
    stacked = i % 5 == 0
    if stacked:
        arg = list(x.unbind(dim)) if i % 10 else tuple(x.unbind(dim))
    got = (E.logsumexp(arg, given, dim) if i % 2 else E.logsumexp(arg, mask=given, dim=dim)).double().numpy()
    a = x.double().numpy()
    b = np.ones(n) if mask is None else np.array(mask)
    m = a.max(dim, keepdims=True)
    terms = np.moveaxis(np.exp(a - m), dim, -1)
    total = (terms * b).sum(-1)
    sure = np.abs(total) > 1e-3 * (terms * np.abs(b)).sum(-1)  # no cancellation
    sure &= np.abs(total) > 1e-30  # and not lost below the largest, masked entry
    with np.errstate(invalid="ignore", divide="ignore"):
        want = np.log(total) + np.squeeze(m, dim)
    expect(got.shape == want.shape, "masked-shape", f"logsumexp of {shape} along {dim} has shape {got.shape}")
    ok = np.isclose(got, want, rtol=1e-5, atol=2e-3 if x.dtype == torch.float32 else 1e-7, equal_nan=True) | ~sure
    expect(bool(ok.all()), "masked-value", f"logsumexp of {shape} along {dim} with mask {mask}: {got} instead of {want}")
    expect(torch.equal(x, keep), "input-changed", "logsumexp changed its input")
    ctx.tick(int(sure.sum()))
    ctx.seen(f"masked-{len(shape)}-{mask is None}-{stacked}-{type(given).__name__}")
    if i % 7 == 0 and mask is not None:
        try:
            E.logsumexp(x, torch.ones(n + 1), dim)
        except AssertionError:
            ctx.count("wrong_mask_refused")
        else:
            raise Violation("not-refused", "a mask of the wrong length is accepted")


def check(ctx):
    for i in range(ctx.n(120, 1500)):
        ctx.run(f"masked-{i}", {"layer": "logsumexp"}, masked_case, ctx, i)
    for dt in (torch.float32, torch.float64):
        for kind in SUMS:
            for D in ((2, 4, 6, 8) if kind == "einsum" else (1, 2, 3, 4, 5, 7)):
                for i in range(ctx.n(2, 25)):
                    ctx.run(f"fwd-{kind}-{D}-{str(dt)[6:]}-{i}", {"layer": kind, "features": D}, forward_case, ctx, kind, D, dt)
        for kind in ("sumconv", "convsum", "prodconv", "sum-prod", "prod-sum"):
            for i in range(ctx.n(4, 40)):
                ctx.run(f"conv-{kind}-{str(dt)[6:]}-{i}", {"layer": kind}, conv_case, ctx, kind, dt)
        for i in range(ctx.n(12, 150)):
            ctx.run(f"prod-{str(dt)[6:]}-{i}", {"layers": "products"}, products_case, ctx, dt)
    for kind in SUMS:
        for D in ((2, 4, 6) if kind == "einsum" else (1, 2, 3, 5)):
            for i in range(ctx.n(2, 20)):
                ctx.run(f"smp-{kind}-{D}-{i}", {"layer": kind, "features": D}, sample_case, ctx, kind, D)
    for kind in ("sumconv", "convsum"):
        for i in range(ctx.n(3, 20)):
            ctx.run(f"convsmp-{kind}-{i}", {"layer": kind}, conv_sample_case, ctx, kind)
    ctx.run("refuse", {}, refuse_case, ctx)
