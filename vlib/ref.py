"""Independent float64 reference of the circuit a model's configuration, parameters and buffers define.

Reads only the state dict (the checkpoint interface) and the configuration; all loops are plain numpy over nodes."""
import numpy as np
from scipy.linalg import solve_triangular
from scipy.special import gammaln, logsumexp, log_softmax, expit

NINF = -np.inf


def npd(t):
    return t.detach().cpu().double().numpy()


def log_sigmoid(z):
    return -np.logaddexp(0.0, -z)


def leaf_logpdf(kind, sd, prefix, x, kw, C, F, I, R):
    """Log-density of every leaf. x: [N, C, F] float64 with NaN = missing. Returns [N, C, F', I, R] (F' = groups for
    a multivariate leaf). Missing entries contribute 0."""
    N = x.shape[0]
    miss = np.isnan(x)
    xx = np.where(miss, 0.0, x)[..., None, None]
    if kind == "Normal":
        mu, lv = npd(sd[prefix + "means"]), npd(sd[prefix + "logvar"])
        out = -0.5 * np.log(2 * np.pi) - 0.5 * lv - 0.5 * (xx - mu) ** 2 * np.exp(-lv)
    elif kind == "RatNormal":
        mu, s = npd(sd[prefix + "means"]), npd(sd[prefix + "stds"])
        lo, hi = kw.get("min_sigma", 0.1), kw.get("max_sigma", 1.0)
        sig = lo + (hi - lo) * expit(s)
        if kw.get("max_mean") is not None:
            mu = kw["min_mean"] + (kw["max_mean"] - kw["min_mean"]) * expit(mu)
        out = -0.5 * np.log(2 * np.pi) - np.log(sig) - 0.5 * ((xx - mu) / sig) ** 2
    elif kind == "Bernoulli":
        z = npd(sd[prefix + "probs"])
        out = xx * log_sigmoid(z) + (1 - xx) * log_sigmoid(-z)
    elif kind == "Binomial":
        z = npd(sd[prefix + "logits"])
        n = kw["total_count"]
        out = gammaln(n + 1) - gammaln(xx + 1) - gammaln(n - xx + 1) + xx * log_sigmoid(z) + (n - xx) * log_sigmoid(-z)
    elif kind == "Categorical":
        lp = log_softmax(npd(sd[prefix + "logits"]), axis=-1)  # [1, C, F, I, R, B]
        idx = np.broadcast_to(xx, (N, C, F, I, R)).astype(int)
        out = np.take_along_axis(np.broadcast_to(lp, (N,) + lp.shape[1:]), idx[..., None], axis=-1)[..., 0]
    elif kind == "MultivariateNormal":
        k = kw["cardinality"]
        assert not miss.any()
        mu, ld, lo = npd(sd[prefix + "means"]), npd(sd[prefix + "L_diag_log"]), npd(sd[prefix + "L_offdiag"])
        G = -(-F // k)
        out = np.zeros((N, C, G, I, R))
        for c in range(C):
            for g in range(G):
                for i in range(I):
                    for r in range(R):
                        L = np.diag(np.exp(ld[c, g, i, r])) + np.tril(lo[c, g, i, r], -1)
                        xs = x[:, c, g * k:(g + 1) * k]
                        m = xs.shape[1]  # incomplete last group: the marginal of its first m variables
                        z = solve_triangular(L[:m, :m], (xs - mu[c, g, i, r][:m]).T, lower=True)
                        out[:, c, g, i, r] = (-0.5 * (z**2).sum(0) - ld[c, g, i, r][:m].sum()
                                              - 0.5 * m * np.log(2 * np.pi))
        return out
    elif kind == "MultiDistributionLayer":
        out = np.zeros((N, C, F, I, R))
        for j, (scope, cls, kws) in enumerate(kw["scopes_to_dist"]):
            scope = list(scope)
            out[:, :, scope] = leaf_logpdf(cls.__name__, sd, f"{prefix}dists.{j}.", x[:, :, scope], kws, C, len(scope), I, R)
    else:
        raise AttributeError(f"no reference for leaf {kind}")
    out = np.broadcast_to(out, (N, C, F, I, R)).copy()
    out[np.broadcast_to(miss[..., None, None], out.shape)] = 0.0
    return out


def leaf_groups(cfg, sd):
    """groups[r] = list (one per leaf-layer output feature) of base-leaf output positions."""
    if cfg.structure == "bottom-up":
        F = cfg.num_features
        perm = npd(sd["permutation"]).astype(int)
        return [[[int(perm[r, i])] for i in range(F)] for r in range(cfg.num_repetitions)]
    if "leaf.scopes" in sd:
        sc = npd(sd["leaf.scopes"])  # [F, Fo, R]
        return [[[int(i) for i in np.nonzero(sc[:, o, r])[0]] for o in range(sc.shape[1])] for r in range(sc.shape[2])]
    perm = npd(sd["leaf.permutation"]).astype(int)
    k = cfg.leaf_kwargs.get("cardinality", 1)
    nf = int(np.ceil(cfg.num_features / k))
    fo = 2**cfg.depth
    card = len(perm) // fo
    return [[[int(i) for i in perm[o * card:(o + 1) * card] if i < nf] for o in range(fo)]]


def log_likelihood(model, x):
    """x: [N, C, F] array-like float64 (NaN = missing). Returns [N, K]."""
    cfg = model.config
    sd = model.state_dict()
    x = np.asarray(x, dtype=np.float64)
    pre = "leaf.base_leaf." if cfg.structure == "top-down" else "leaf."
    C, F, I, R, K = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions, cfg.num_classes
    leaf = leaf_logpdf(cfg.leaf_type.__name__, sd, pre, x, cfg.leaf_kwargs, C, F, I, R).sum(1)  # channels factorise
    N = x.shape[0]
    groups = leaf_groups(cfg, sd)
    per_rep = []
    for r in range(R):
        nodes = [leaf[..., r][:, g].sum(1) if len(g) else np.zeros((N, I)) for g in groups[r]]  # list of [N, I]
        nodes = _upward(cfg, sd, nodes, r)
        per_rep.append(nodes)
    if R == 1:
        return per_rep[0]
    w = log_softmax(npd(sd["mixing.logits"])[0], axis=-1)  # [K, R]
    stack = np.stack(per_rep, -1)  # [N, K, R]
    return logsumexp(stack + w[None], axis=-1)


def _upward(cfg, sd, nodes, r, trace=None):
    trace = [] if trace is None else trace
    trace.append(nodes)
    if cfg.structure == "top-down" and cfg.depth == 0:
        w = log_softmax(npd(sd["layers.0.logits"]), axis=1)
        return logsumexp(nodes[0][:, :, None] + w[0, :, :, r][None], axis=1)
    n_layers = cfg.depth
    li = 0
    if cfg.structure == "bottom-up" and cfg.depth == 0:
        w = log_softmax(npd(sd["layers.0.logits"]), axis=1)
        nodes = [logsumexp(nd[:, :, None] + w[d, :, :, r][None], axis=1) for d, nd in enumerate(nodes)]
        li = 1
        trace.append(nodes)
    for _ in range(n_layers):
        lg = npd(sd[f"layers.{li}.logits"])
        new = []
        if len(nodes) % 2:
            nodes = nodes + [None]
        for d in range(len(nodes) // 2):
            a, b = nodes[2 * d], nodes[2 * d + 1]
            if cfg.layer_type == "linsum":
                w = log_softmax(lg[d, :, :, r], axis=0)
                prod = a if b is None else a + b
                new.append(logsumexp(prod[:, :, None] + w[None], axis=1))
            elif cfg.layer_type == "linsum2":
                out = 0.0
                for j, nd in ((2 * d, a), (2 * d + 1, b)):
                    if nd is not None:
                        w = log_softmax(lg[j, :, :, r], axis=0)
                        out = out + logsumexp(nd[:, :, None] + w[None], axis=1)
                new.append(out)
            else:  # einsum: weights [D, O, R, Si, Sj]
                l = lg[d, :, r]
                w = log_softmax(l.reshape(l.shape[0], -1), axis=1).reshape(l.shape)
                t = a[:, None, :, None] + b[:, None, None, :] + w[None]
                new.append(logsumexp(t.reshape(t.shape[0], t.shape[1], -1), axis=-1))
        nodes = new
        li += 1
        trace.append(nodes)
    if cfg.structure == "bottom-up":
        w = log_softmax(npd(sd[f"layers.{li}.logits"]), axis=1)
        nodes = [logsumexp(nd[:, :, None] + w[d, :, :, r][None], axis=1) for d, nd in enumerate(nodes)]
        return np.sum(nodes, axis=0)
    assert len(nodes) == 1
    return nodes[0]


def leaf_draw(kind, sd, prefix, kw, c, f, i, r, rng, n=1):
    """n values of leaf (channel c, feature f, input i, repetition r): reference leaf sampler."""
    if kind == "Normal":
        mu, lv = npd(sd[prefix + "means"]), npd(sd[prefix + "logvar"])
        return rng.normal(mu.reshape(mu.shape[-4:])[c, f, i, r], np.exp(0.5 * lv.reshape(lv.shape[-4:])[c, f, i, r]), size=n)
    if kind == "RatNormal":
        mu, s = npd(sd[prefix + "means"]), npd(sd[prefix + "stds"])
        mu, s = mu.reshape(mu.shape[-4:])[c, f, i, r], s.reshape(s.shape[-4:])[c, f, i, r]
        lo, hi = kw.get("min_sigma", 0.1), kw.get("max_sigma", 1.0)
        if kw.get("max_mean") is not None:
            mu = kw["min_mean"] + (kw["max_mean"] - kw["min_mean"]) * expit(mu)
        return rng.normal(mu, lo + (hi - lo) * expit(s), size=n)
    if kind == "Bernoulli":
        z = npd(sd[prefix + "probs"])
        return (rng.random(n) < expit(z.reshape(z.shape[-4:])[c, f, i, r])).astype(float)
    if kind == "Binomial":
        z = npd(sd[prefix + "logits"])
        return rng.binomial(kw["total_count"], expit(z.reshape(z.shape[-4:])[c, f, i, r]), size=n).astype(float)
    if kind == "Categorical":
        z = npd(sd[prefix + "logits"])
        l = z.reshape(z.shape[-5:])[c, f, i, r]
        q = np.exp(l - l.max())
        return rng.choice(len(q), p=q / q.sum(), size=n).astype(float)
    if kind == "MultiDistributionLayer":
        for j, (scope, cls, kws) in enumerate(kw["scopes_to_dist"]):
            if f in list(scope):
                return leaf_draw(cls.__name__, sd, f"{prefix}dists.{j}.", kws, c, list(scope).index(f), i, r, rng, n)
    raise AttributeError(f"no reference sampler for leaf {kind}")


def sample(model, n, rng, x=None, cls=None):
    """Ancestral reference sampler (numpy). x: one evidence row [C, F] with NaN = missing, or None; cls: fixed root
    class (default: uniform class prior)."""
    cfg = model.config
    # every parameter is converted once: the loops below touch single nodes
    sd = {k: v.double() for k, v in model.state_dict().items()}
    C, F, I, R, K = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions, cfg.num_classes
    groups = leaf_groups(cfg, sd)
    kind = cfg.leaf_type.__name__
    k = cfg.leaf_kwargs.get("cardinality", 1)
    pre = "leaf.base_leaf." if cfg.structure == "top-down" else "leaf."
    wm = log_softmax(npd(sd["mixing.logits"])[0], axis=-1) if R > 1 else np.zeros((K, 1))
    root = np.broadcast_to(wm, (K, R)) - np.log(K)
    traces = None
    if x is not None:
        xx = np.asarray(x, dtype=np.float64)[None]
        leaf = leaf_logpdf(kind, sd, pre, xx, cfg.leaf_kwargs, C, F, I, R).sum(1)
        traces, reps = [], []
        for r in range(R):
            t = []
            nodes = [leaf[..., r][:, g].sum(1) if len(g) else np.zeros((1, I)) for g in groups[r]]
            reps.append(_upward(cfg, sd, nodes, r, t))
            traces.append(t)
        root = root + np.stack(reps, -1)[0]
    if cls is not None:
        root = np.where(np.arange(K)[:, None] == cls, root, NINF)
    roots = rng.choice(K * R, size=n, p=np.exp(root.reshape(-1) - logsumexp(root)))
    out = np.full((n, C, F), np.nan)
    chosen = {}  # (base feature group, leaf index, repetition) -> rows

    def pick(v):
        v = np.cumsum(np.exp(v - np.max(v)))
        return min(int(np.searchsorted(v, rng.random() * v[-1], side="right")), len(v) - 1)

    for s in range(n):
        c, r = divmod(int(roots[s]), R)
        nodes = descend(cfg, sd, c, r, traces, 0, pick)
        for g, i in zip(groups[r], nodes):
            for b in g:
                chosen.setdefault((b, i, r), []).append(s)
    if kind == "MultivariateNormal":
        mu, ld, lo = npd(sd[pre + "means"]), npd(sd[pre + "L_diag_log"]), npd(sd[pre + "L_offdiag"])
    for (b, i, r), rows in chosen.items():
        for c in range(C):
            if kind == "MultivariateNormal":
                L = np.diag(np.exp(ld[c, b, i, r])) + np.tril(lo[c, b, i, r], -1)
                v = mu[c, b, i, r] + rng.normal(size=(len(rows), k)) @ L.T
                m = min(k, F - b * k)
                out[rows, c, b * k:b * k + m] = v[:, :m]
            else:
                out[rows, c, b] = leaf_draw(kind, sd, pre, cfg.leaf_kwargs, c, b, i, r, rng, len(rows))
    if x is not None:
        out = np.where(np.isnan(x), out, x)
    return out


def _cat(rng, logits):
    p = np.exp(logits - logits.max())
    return int(rng.choice(len(p), p=p / p.sum()))


class Tie(Exception):
    """The greedy pass meets a (near) tie: the reference does not determine the completion."""


def _argmax(v, tol):
    v = np.asarray(v, dtype=np.float64)
    o = np.argsort(-v, kind="stable")
    if len(v) > 1 and v[o[0]] - v[o[1]] < tol:
        raise Tie()
    return int(o[0])


def leaf_mode(kind, sd, prefix, kw, C, F, I, R, tol=1e-5):
    """Mode of every leaf [C, F, I, R] (NaN where the mode is (nearly) not unique)."""
    if kind in ("Normal", "RatNormal"):
        mu = npd(sd[prefix + "means"])
        if kind == "RatNormal" and kw.get("max_mean") is not None:
            mu = kw["min_mean"] + (kw["max_mean"] - kw["min_mean"]) * expit(mu)
        return np.broadcast_to(mu.reshape((-1,) + mu.shape[-4:])[0], (C, F, I, R)).copy()
    if kind == "Bernoulli":
        z = npd(sd[prefix + "probs"]).reshape(C, F, I, R)
        return np.where(np.abs(z) < tol, np.nan, (z > 0).astype(float))
    if kind == "Binomial":
        z = npd(sd[prefix + "logits"]).reshape(C, F, I, R)
        n = kw["total_count"]
        t = (n + 1) * expit(z)
        m = np.minimum(np.floor(t), n)
        near = (np.abs(t - np.round(t)) < 1e-4) & (np.round(t) > 0) & (np.round(t) <= n)
        return np.where(near, np.nan, m)
    if kind == "Categorical":
        lg = npd(sd[prefix + "logits"])
        lg = lg.reshape((C, F, I, R, lg.shape[-1]))
        m = lg.argmax(-1).astype(float)
        s = np.sort(lg, -1)
        return np.where(s[..., -1] - s[..., -2] < tol, np.nan, m) if lg.shape[-1] > 1 else m
    if kind == "MultivariateNormal":
        mu = npd(sd[prefix + "means"])  # [C, G, I, R, k]
        G, k = mu.shape[1], mu.shape[-1]
        return mu.transpose(0, 1, 4, 2, 3).reshape(C, G * k, I, R)[:, :F]
    if kind == "MultiDistributionLayer":
        out = np.zeros((C, F, I, R))
        for j, (scope, cls, kws) in enumerate(kw["scopes_to_dist"]):
            out[:, list(scope)] = leaf_mode(cls.__name__, sd, f"{prefix}dists.{j}.", kws, C, len(scope), I, R, tol)
        return out
    raise AttributeError(kind)


def descend(cfg, sd, root, r, traces, row, pick):
    """Top-down pass in repetition r from root child `root`; pick(values) -> index chooses among weighted children.
    traces[r] = inputs of every layer (None: no evidence). Returns the leaf index chosen for every feature of every
    leaf-layer output: list over groups."""
    def ll(layer, d):
        if traces is None:
            return 0.0
        return traces[r][layer][d][row]

    if cfg.structure == "bottom-up":
        nl = cfg.depth + (1 if cfg.depth == 0 else 0)
        w = log_softmax(npd(sd[f"layers.{nl}.logits"]), axis=1)
        nodes = [pick(w[d, :, root, r] + ll(nl, d)) for d in range(w.shape[0])]
    else:
        nl = max(1, cfg.depth)
        nodes = [root]
    for li in reversed(range(nl)):
        lg = npd(sd[f"layers.{li}.logits"])
        new = []
        if cfg.depth == 0:
            w = log_softmax(lg, axis=1)
            new = [pick(w[d, :, o, r] + ll(li, d)) for d, o in enumerate(nodes)]
        else:
            nin = len(traces[r][li]) if traces is not None else None
            for d, o in enumerate(nodes):
                if cfg.layer_type == "linsum":
                    w = log_softmax(lg[d, :, o, r])
                    v = w + ll(li, 2 * d)
                    if nin is None or 2 * d + 1 < nin:
                        v = v + ll(li, 2 * d + 1)
                    i = pick(v)
                    new += [i, i]
                elif cfg.layer_type == "linsum2":
                    for j in (2 * d, 2 * d + 1):
                        new.append(pick(log_softmax(lg[j, :, o, r]) + ll(li, j)))
                else:
                    l = lg[d, o, r]
                    w = log_softmax(l.reshape(-1)).reshape(l.shape)
                    a, b = ll(li, 2 * d), ll(li, 2 * d + 1)
                    if traces is not None:
                        w = w + a[:, None] + b[None, :]
                    f = pick(w.reshape(-1))
                    new += [f // l.shape[1], f % l.shape[1]]
        nodes = new
        if cfg.structure == "bottom-up":
            # features that exist below this layer
            n_in = cfg.num_features
            for _ in range(li):
                n_in = -(-n_in // 2)
            if cfg.depth == 0:
                n_in = cfg.num_features
            nodes = nodes[:n_in]
    return nodes


def mpe(model, x=None, tol=1e-4):
    """Greedy MPE completions. x: [N, C, F] with NaN = missing, or None. Returns a list over rows; each entry is a
    list of admissible completions [C, F] (several classes may tie) or None where an inner (near) tie occurs."""
    cfg = model.config
    sd = model.state_dict()
    pre = "leaf.base_leaf." if cfg.structure == "top-down" else "leaf."
    C, F, I, R, K = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions, cfg.num_classes
    kind = cfg.leaf_type.__name__
    modes = leaf_mode(kind, sd, pre, cfg.leaf_kwargs, C, F, I, R)
    groups = leaf_groups(cfg, sd)
    card = cfg.leaf_kwargs.get("cardinality", 1)
    wm = log_softmax(npd(sd["mixing.logits"])[0], axis=-1) if R > 1 else np.zeros((K, 1))
    traces = reps = None
    N = 1
    if x is not None:
        x = np.asarray(x, dtype=np.float64)
        N = x.shape[0]
        leaf = leaf_logpdf(kind, sd, pre, x, cfg.leaf_kwargs, C, F, I, R).sum(1)
        traces, reps = [], []
        for r in range(R):
            t = []
            nodes = [leaf[..., r][:, g].sum(1) if len(g) else np.zeros((N, I)) for g in groups[r]]
            reps.append(_upward(cfg, sd, nodes, r, t))
            traces.append(t)
        reps = np.stack(reps, -1)  # [N, K, R]
    out = []
    for n in range(N):
        if reps is None:
            classes = range(K)
        else:
            ll = logsumexp(reps[n] + wm, axis=-1)
            classes = np.nonzero(ll >= ll.max() - tol * (1 + np.abs(ll.max()) * 1e-2))[0]
        sols = []
        try:
            for c in classes:
                r = _argmax(wm[c] + (reps[n, c] if reps is not None else 0.0), tol)
                nodes = descend(cfg, sd, int(c), r, traces, n, lambda v: _argmax(v, tol))
                y = np.full((C, F), np.nan)
                for g, i in zip(groups[r], nodes):
                    for b in g:
                        fs = [f for f in range(b * card, (b + 1) * card) if f < F]
                        y[:, fs] = modes[:, fs, i, r]
                if x is not None:
                    y = np.where(np.isnan(x[n]), y, x[n])
                if np.isnan(y).any():
                    raise Tie()
                sols.append(y)
            out.append(sols)
        except Tie:
            out.append(None)
    return out
