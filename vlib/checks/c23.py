"""C23: sampling temperatures rescale exactly the intended randomness."""
import copy

import numpy as np
import torch
from scipy import stats as st
from scipy.special import log_softmax, logsumexp

from simple_einet.layers.distributions.categorical import Categorical

from .. import models as M
from .. import ref
from ..core import Violation, close, expect, maxdiff
from ..stats import P1, P2, gof_p

LEVEL = "exploration"
RULE = ("one evaluation = one sample drawn at a temperature, judged against the exactly enumerated tempered distribution (discrete "
        "leaves) or against the same random stream at temperature 1 (Gaussian leaves); distinct = distinct (configuration, temperatures, query)")
MIN_EVALS, MIN_DISTINCT = 100000, 120
ASSUMPTIONS = ("with evidence the branch weights are w^(1/T) times the (untempered) likelihood of the evidence",
               "Bernoulli, Binomial and piecewise linear leaves have no leaf temperature: only their domain is judged",
               "leaf temperature 0 is defined for Gaussian leaves only")


# ---- exact tempered distribution of a small discrete model ----
class Node:
    def __init__(self, scope, tab, ll):
        self.scope, self.tab, self.ll = scope, tab, ll  # variables, [I, *domain], [I]


def product(a, b):
    if b is None:
        return a
    na, nb = a.tab.ndim - 1, b.tab.ndim - 1
    t = a.tab.reshape(a.tab.shape + (1,) * nb) * b.tab.reshape((b.tab.shape[0],) + (1,) * na + b.tab.shape[1:])
    return Node(a.scope + b.scope, t, a.ll + b.ll)


def wsum(node, logits, T):
    """logits [Sin, Sout]."""
    lw = log_softmax(logits, axis=0)
    q = log_softmax(log_softmax(logits / T, axis=0) + node.ll[:, None], axis=0)
    tab = np.tensordot(np.exp(q).T, node.tab, axes=(1, 0))
    return Node(node.scope, tab, logsumexp(lw + node.ll[:, None], axis=0))


def tempered_table(model, cfg, T, Tl, ev, class_index=None):
    """Probability of every completion of ev [C, F] (NaN = missing) as a table over the flattened (channel, feature) states."""
    sd = model.state_dict()
    C, F, I, R, K = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions, cfg.num_classes
    pre = "leaf.base_leaf." if cfg.structure == "top-down" else "leaf."
    ds = M.domain_sizes(cfg)
    dom = max(ds)
    pm = np.full((C, F, I, R, dom), -np.inf)
    grid = np.stack([np.minimum(np.full(F, v), np.array(ds) - 1) for v in range(dom)])  # [dom, F]
    x = np.repeat(grid[:, None, :], C, 1).astype(float)
    lp = ref.leaf_logpdf(cfg.leaf_type.__name__, sd, pre, x, cfg.leaf_kwargs, C, F, I, R)  # [dom, C, F, I, R]
    for f in range(F):
        pm[:, f, :, :, :ds[f]] = np.moveaxis(lp[:ds[f], :, f], 0, -1)
    temper = np.zeros(F, bool)
    if cfg.leaf_type is Categorical:
        temper[:] = True
    elif "scopes_to_dist" in cfg.leaf_kwargs:
        for scope, cls, _ in cfg.leaf_kwargs["scopes_to_dist"]:
            if cls is Categorical:
                temper[list(scope)] = True
    reps = []
    for r in range(R):
        def var(c, f):
            v = ev[c, f]
            if np.isnan(v):
                l = pm[c, f, :, r, :ds[f]]
                t = np.exp(log_softmax(l / Tl, axis=1)) if temper[f] else np.exp(l)
                return Node([(c, f)], t, np.zeros(I))
            t = np.zeros((I, ds[f]))
            t[:, int(v)] = 1.0
            return Node([(c, f)], t, pm[c, f, :, r, int(v)])

        def group(g):
            n = Node([], np.ones((I,)), np.zeros(I))
            for f in g:
                for c in range(C):
                    n = product(n, var(c, f))
            return n

        nodes = [group(g) for g in ref.leaf_groups(cfg, sd)[r]]
        li = 0
        if cfg.depth == 0:
            lg = ref.npd(sd["layers.0.logits"])
            nodes = [wsum(n, lg[d, :, :, r], T) for d, n in enumerate(nodes)]
            li = 1
        for _ in range(cfg.depth):
            lg = ref.npd(sd[f"layers.{li}.logits"])
            if len(nodes) % 2:
                nodes = nodes + [None]
            new = []
            for d in range(len(nodes) // 2):
                a, b = nodes[2 * d], nodes[2 * d + 1]
                if cfg.layer_type == "linsum":
                    new.append(wsum(product(a, b), lg[d, :, :, r], T))
                elif cfg.layer_type == "linsum2":
                    a = wsum(a, lg[2 * d, :, :, r], T)
                    new.append(a if b is None else product(a, wsum(b, lg[2 * d + 1, :, :, r], T)))
                else:
                    l = lg[d, :, r]  # [O, i, j]
                    n_i = a.tab.shape[0]
                    pairs = Node(a.scope + b.scope, np.stack([
                        (a.tab[i].reshape(a.tab.shape[1:] + (1,) * (b.tab.ndim - 1)) * b.tab[j]) for i in range(n_i) for j in range(n_i)]),
                        (a.ll[:, None] + b.ll[None, :]).reshape(-1))
                    new.append(wsum(pairs, l.reshape(l.shape[0], -1).T, T))
            nodes = new
            li += 1
        if cfg.structure == "bottom-up":
            lg = ref.npd(sd[f"layers.{li}.logits"])
            nodes = [wsum(n, lg[d, :, :, r], T) for d, n in enumerate(nodes)]
            root = nodes[0]
            for n in nodes[1:]:
                root = product(root, n)
        else:
            root = nodes[0]
        order = [root.scope.index((c, f)) for c in range(C) for f in range(F)]
        reps.append((np.transpose(root.tab, [0] + [o + 1 for o in order]).reshape(root.tab.shape[0], -1), root.ll))
    tabs = np.stack([t for t, _ in reps], 1)  # [K, R, S]
    lls = np.stack([l for _, l in reps], 1)  # [K, R]
    if R > 1:
        lg = ref.npd(sd["mixing.logits"])[0]  # [K, R]
        q = log_softmax(log_softmax(lg / T, axis=1) + lls, axis=1)
        tk = (np.exp(q)[:, :, None] * tabs).sum(1)
        lk = logsumexp(log_softmax(lg, axis=1) + lls, axis=1)
    else:
        tk, lk = tabs[:, 0], lls[:, 0]
    if class_index is not None:
        return tk[class_index]
    return (np.exp(log_softmax(lk))[:, None] * tk).sum(0)


def snapshot(model):
    return {k: v.clone() for k, v in model.state_dict().items()}


def unchanged(model, snap, what):
    for k, v in model.state_dict().items():
        expect(torch.equal(v, snap[k]), "parameters-changed", f"{what} changes {k}")


def gof(ctx, draw, p, what, cfg, **detail):
    n = 4000 if not ctx.thorough else 12000
    p1 = gof_p(draw(n), p)
    ctx.tick(n)
    if p1 > P1:
        return
    s = draw(3 * n)
    p2 = gof_p(s, p)
    if p2 > P2:
        return
    f = np.bincount(s, minlength=len(p)) / len(s)
    w = np.argsort(-np.abs(f - p))[:4]
    raise Violation(what, f"tempered samples deviate (p={p2:.1e}): observed/expected "
                    f"{[(round(float(f[i]), 4), round(float(p[i]), 4)) for i in w]}", config=M.desc(cfg), **detail)


def discrete(rng, ctx, combo, leaf, diff):
    combo = dict(combo)
    for _ in range(80):
        if leaf == "multi-cat":
            F = max(int(rng.integers(2, 6)), 2 ** combo["depth"])
            perm = [int(i) for i in rng.permutation(F)]
            h = int(rng.integers(1, F))
            kw = {"scopes_to_dist": [(perm[:h], Categorical, {"num_bins": 3}), (perm[h:], M.LEAVES["bernoulli"], {})]}
            cfg = M.make_cfg(rng, leaf="multi", F=F, kwargs=kw, **combo)
        else:
            cfg = M.make_cfg(rng, leaf=leaf, max_F=5, **combo)
        if M.n_states(cfg) <= 260:
            break
    else:
        cfg = M.make_cfg(rng, leaf="bernoulli", F=max(2, 2 ** combo["depth"]), C=1, **combo)
    model = M.build(cfg, rng, scale=1.8, leaf_scale=1.8)
    snap = snapshot(model)
    C, F, K = cfg.num_channels, cfg.num_features, cfg.num_classes
    none = np.full((C, F), np.nan)
    # the enumerated reference at temperature 1 is the model's own joint
    p1 = tempered_table(model, cfg, 1.0, 1.0, none)
    expect(close(p1, M.joint_table(model, cfg).mean(0), 1e-5, 1e-5), "reference", f"enumerated joint deviates by {maxdiff(p1, M.joint_table(model, cfg).mean(0))}")
    base = model.sample(num_samples=30, seed=5).detach()
    ones = model.sample(num_samples=30, seed=5, temperature_sums=1.0, temperature_leaves=1).detach()
    expect(torch.equal(base, ones), "temperature-one", "temperatures of 1 change the samples")
    Ts = [float(t) for t in rng.choice([0.1, 0.35, 0.7, 1.6, 3.0, 20.0], size=2, replace=False)]
    pairs = [(Ts[0], 1.0), (1.0, Ts[1]), (Ts[1], Ts[0])]
    for T, Tl in pairs:
        kw = dict(temperature_sums=T, temperature_leaves=Tl, is_differentiable=diff)
        p = tempered_table(model, cfg, T, Tl, none)
        gof(ctx, lambda n: M.state_index(cfg, model.sample(num_samples=n, **kw)), p, "temperature" + ("-diff" if diff else ""), cfg, T=T, Tl=Tl)
        if K > 1:
            c = int(rng.integers(K))
            p = tempered_table(model, cfg, T, Tl, none, class_index=c)
            gof(ctx, lambda n: M.state_index(cfg, model.sample(num_samples=n, class_index=c, **kw)), p, "temperature-class", cfg, T=T, Tl=Tl)
        ev = M.random_x(cfg, rng, 1).numpy()[0].astype(float)
        miss = rng.random((C, F)) < 0.6
        miss[rng.integers(C), rng.integers(F)] = True
        ev[miss] = np.nan
        e = torch.tensor(ev, dtype=torch.float32)
        p = tempered_table(model, cfg, T, Tl, ev)

        def cond(n):
            x = model.sample(evidence=e.expand(n, C, F).clone(), **kw)
            expect(torch.equal(x[:, ~torch.tensor(miss)], e[~torch.tensor(miss)].expand(n, -1)), "evidence", "tempered sampling changes the evidence")
            return M.state_index(cfg, x)

        gof(ctx, cond, p, "temperature-evidence" + ("-diff" if diff else ""), cfg, T=T, Tl=Tl, evidence=ev)
        ctx.seen(M.key(cfg) + f"{T}-{Tl}-{diff}")
    unchanged(model, snap, "tempered sampling")
    expect(torch.equal(base, model.sample(num_samples=30, seed=5).detach()), "later-calls", "an earlier temperature changes later samples")


def tempered_copy(model, T):
    m = copy.deepcopy(model)
    with torch.no_grad():
        for k, v in m.named_parameters():
            if k.endswith("logits") and not k.startswith("leaf"):
                v.div_(T)
    return m


def gaussian(rng, ctx, combo, leaf, diff):
    """Same random stream: branches as in the tempered circuit, deviations from the leaf mean scaled by sqrt(T)."""
    kwargs = None
    F = None
    combo = dict(combo)
    if leaf == "mvn":
        F = 2 ** combo["depth"] * 2 + int(rng.integers(0, 3))
        kwargs = {"cardinality": 2}
    elif leaf == "ratnormal":
        kwargs = {"min_sigma": 0.2, "max_sigma": 1.5}
        if rng.random() < 0.5:
            kwargs.update(min_mean=-2.0, max_mean=3.0)
    cfg = M.make_cfg(rng, leaf=leaf, F=F, kwargs=kwargs, max_F=8, **combo)
    model = M.build(cfg, rng)
    snap = snapshot(model)
    n = int(rng.choice([1, 3, 200]))
    K = cfg.num_classes
    calls = [dict(num_samples=n)]
    if K > 1:
        calls.append(dict(class_index=[int(v) for v in rng.integers(0, K, size=n)]))
    if leaf != "mvn":
        x = M.random_x(cfg, rng, n)
        x[torch.tensor(rng.random(x.shape) < 0.5)] = torch.nan
        calls.append(dict(evidence=x))
    for call in calls:
        call = dict(call, is_differentiable=diff, seed=int(rng.integers(0, 2**31)))

        def draw(m=model, **kw):
            c = {k: v.clone() if torch.is_tensor(v) else v for k, v in call.items()}
            return m.sample(**dict(c, **kw)).detach()

        what = "evidence" if "evidence" in call else ("class" if "class_index" in call else "plain")
        mean = draw(mpe_at_leaves=True)
        one = draw()
        expect(torch.equal(one, draw(temperature_sums=1.0, temperature_leaves=1.0)), "temperature-one", "temperatures of 1 change the samples")
        scale = float((one - mean).abs().max()) + 1.0
        free = torch.isnan(call["evidence"]) if what == "evidence" else torch.ones_like(one, dtype=torch.bool)
        if free.sum() > 5:
            expect(float((one - mean)[free].abs().max()) > 0, "leaf-noise", "no randomness at the leaves")
        for Tl in (0.0, 0.25, 4.0, float(rng.uniform(0.05, 9))):
            y = draw(temperature_leaves=Tl)
            ctx.tick(y.shape[0])
            want = mean + np.sqrt(Tl) * (one - mean)
            expect(close(y, want, 1e-4 * scale * max(1, Tl), 1e-4), "leaf-temperature",
                   f"{what}: temperature_leaves={Tl} is not mean + sqrt(T) * deviation (off by {maxdiff(y, want)})", config=M.desc(cfg))
            ctx.seen(M.key(cfg) + f"{what}-leaf-{Tl:.1f}")
        if what != "evidence":
            for T in (0.2, 3.0):
                hot = tempered_copy(model, T)
                a, b = draw(temperature_sums=T), draw(hot)
                ctx.tick(a.shape[0])
                bad = [i for i in range(a.shape[0]) if not close(a[i], b[i], 1e-4, 1e-4)]
                expect(len(bad) <= 0.02 * a.shape[0] + (a.shape[0] > 50), "sum-temperature",
                       f"{what}: {len(bad)} of {a.shape[0]} samples at temperature_sums={T} differ from those of the circuit with weights w^(1/T)", config=M.desc(cfg))
                both = draw(temperature_sums=T, temperature_leaves=0.49)
                mh = draw(temperature_sums=T, mpe_at_leaves=True)
                want = mh + 0.7 * (a - mh)
                expect(close(both, want, 1e-4 * scale * 3, 1e-4), "leaf-temperature", f"{what}: temperatures interact", config=M.desc(cfg))
                # without evidence the most probable branch does not depend on the temperature
                expect(close(draw(is_mpe=True, temperature_sums=T), draw(is_mpe=True), 1e-5, 1e-5), "mpe-temperature", f"{what}: temperature_sums={T} changes the MPE")
                ctx.seen(M.key(cfg) + f"{what}-sum-{T}")
            expect(close(draw(is_mpe=True, temperature_leaves=5.0), draw(is_mpe=True), 1e-5, 1e-5), "mpe-temperature", f"{what}: temperature_leaves changes the MPE")
        expect(torch.equal(one, draw()), "later-calls", "an earlier temperature changes later samples")
    unchanged(model, snap, "tempered sampling")


def marginal_law(rng, ctx, leaf):
    """Absolute check (no reference to temperature 1): one leaf, one sum - the sample law at T is N(mu, T sigma^2)."""
    F = 2
    kwargs = {"ratnormal": {"min_sigma": 0.2, "max_sigma": 1.5}, "mvn": {"cardinality": 2}}.get(leaf, {})
    cfg = M.make_cfg(rng, leaf=leaf, F=F, C=1, S=1, I=1, R=1, K=1, depth=0, structure="top-down", layer="linsum", kwargs=kwargs)
    model = M.build(cfg, rng)
    mean = model.sample(num_samples=1, mpe_at_leaves=True)[0, 0]
    leafm = model.leaf.base_leaf
    if leaf == "normal":
        cov = np.diag(np.exp(ref.npd(leafm.logvar).reshape(-1)))
    elif leaf == "ratnormal":
        sg = 0.2 + 1.3 / (1 + np.exp(-ref.npd(leafm.stds).reshape(-1)))
        cov = np.diag(sg ** 2)
    else:
        L = np.diag(np.exp(ref.npd(leafm.L_diag_log).reshape(-1))) + np.tril(ref.npd(leafm.L_offdiag).reshape(2, 2), -1)
        cov = L @ L.T
    for T in (0.3, 1.0, 5.0):
        def test(n):
            x = model.sample(num_samples=n, temperature_leaves=T).double().numpy().reshape(n, F)
            ctx.tick(n)
            z = np.linalg.solve(np.linalg.cholesky(T * cov), (x - mean.double().numpy()).T)
            return min(st.kstest(v, "norm").pvalue for v in z)
        if test(2000) < P1 and (p := test(6000)) < P2:
            raise Violation("leaf-temperature", f"{leaf} samples at temperature {T} do not have the variance scaled by T (p={p:.1e})")
        ctx.seen(f"law-{leaf}-{T}")


def mixture(rng, ctx, leaf, combo):
    from . import c18

    mix, cfg, data = c18.build(rng, leaf, combo, K=int(rng.integers(2, 4)))
    cls = {} if cfg.num_classes == 1 else {"class_index": int(rng.integers(cfg.num_classes))}
    snap = snapshot(mix)
    seed = int(rng.integers(0, 2**31))
    n = 25
    ev = data[:n].clone()
    ev[torch.tensor(rng.random(ev.shape) < 0.5)] = torch.nan
    for what, call in (("plain", dict(num_samples=n, **cls)), ("per-cluster", dict(num_samples_per_cluster=4, **cls)), ("evidence", dict(evidence=ev))):
        def draw(m=mix, **kw):
            c = {k: v.clone() if torch.is_tensor(v) else v for k, v in call.items()}
            return m.sample(**dict(c, seed=seed, **kw)).detach()

        one = draw()
        expect(torch.equal(one, draw(temperature_sums=1.0, temperature_leaves=1.0)), "temperature-one", "temperatures of 1 change the samples")
        if leaf == "normal":
            mean = draw(temperature_leaves=0.0)
            # leaf draws of one component shift the random stream of the next one only if they consume it differently
            for Tl in (0.25, 4.0):
                y = draw(temperature_leaves=Tl)
                ctx.tick(len(y))
                expect(close(y, mean + np.sqrt(Tl) * (one - mean), 2e-3, 1e-3), "leaf-temperature", f"mixture {what}: temperature_leaves={Tl}")
        if what != "evidence":
            for T in (0.2, 3.0):
                hot = copy.deepcopy(mix)
                with torch.no_grad():
                    for m in hot.models:
                        for k, v in m.named_parameters():
                            if k.endswith("logits") and not k.startswith("leaf"):
                                v.div_(T)
                a, b = draw(temperature_sums=T), draw(hot)
                ctx.tick(len(a))
                bad = sum(not close(a[i], b[i], 1e-4, 1e-4) for i in range(len(a)))
                expect(bad <= 1, "sum-temperature", f"mixture {what}: {bad} of {len(a)} samples at temperature_sums={T} differ from those with weights w^(1/T)")
        else:
            # near-zero temperature: always the heaviest branch given the evidence weights it reaches
            y = draw(temperature_sums=1e6)
            ctx.tick(len(y))
            expect(bool(torch.isfinite(y).all()), "sum-temperature", "mixture: not finite")
        expect(torch.equal(one, draw()), "later-calls", "an earlier temperature changes later samples")
        ctx.seen(M.key(cfg) + what)
    unchanged(mix, snap, "tempered sampling")


def conv_table(m, leaf, T, Tl, ev):
    """As tempered_table, for a ConvPc: ev [C, H, W]."""
    from . import c19

    C, H, W = ev.shape
    I, k = m.config.channels[0], c19.CARD[leaf]
    grid = np.repeat(np.arange(k)[:, None], C * H * W, 1).reshape(k, C, H * W).astype(float)
    lp = ref.leaf_logpdf(type(m.leaf_data).__name__, m.leaf_data.state_dict(), "", grid, m.config.leaf_kwargs, C, H * W, I, 1)[..., 0]

    def var(c, i, j):
        l = lp[:, c, i * W + j].T  # [I, k]
        v = ev[c, i, j]
        if np.isnan(v):
            return Node([(c, i, j)], np.exp(log_softmax(l / Tl, axis=1)) if leaf == "categorical" else np.exp(l), np.zeros(I))
        t = np.zeros((I, k))
        t[:, int(v)] = 1.0
        return Node([(c, i, j)], t, l[:, int(v)])

    nodes = np.empty((H, W), object)
    for i in range(H):
        for j in range(W):
            n = var(0, i, j)
            for c in range(1, C):
                n = product(n, var(c, i, j))
            nodes[i, j] = n
    for lv in c19.levels(m):
        if lv[0] == "sum":  # logits [out, in, h, w]
            for i in range(nodes.shape[0]):
                for j in range(nodes.shape[1]):
                    nodes[i, j] = wsum(nodes[i, j], lv[1][:, :, i, j].T, T)
        else:
            new = np.empty((nodes.shape[0] // lv[1], nodes.shape[1] // lv[2]), object)
            for i in range(new.shape[0]):
                for j in range(new.shape[1]):
                    n = None
                    for a in range(lv[1]):
                        for b in range(lv[2]):
                            c = nodes[i * lv[1] + a, j * lv[2] + b]
                            n = c if n is None else product(n, c)
                    new[i, j] = n
            nodes = new
    root = nodes[0, 0]
    order = [root.scope.index((c, i, j)) for c in range(C) for i in range(H) for j in range(W)]
    return np.transpose(root.tab[0], order).reshape(-1)


def conv_discrete(rng, ctx, leaf, structure, order):
    from . import c19

    size, ch = ((2, 2), [int(rng.integers(2, 4))]) if leaf == "categorical" or rng.random() < 0.5 else ((2, 4), [2, 3] if structure == "bottom-up" else [2])
    C = 2 if leaf == "bernoulli" and size == (2, 2) and rng.random() < 0.5 else 1
    m, cfg = c19.make(rng, leaf, structure, order, size, C, ch)
    snap = snapshot(m)
    k = c19.CARD[leaf]
    shape = (C, *size)
    none = np.full(shape, np.nan)
    with torch.no_grad():
        p1 = m(c19.domain(m, leaf)).double().exp().view(-1).numpy()
    expect(close(conv_table(m, leaf, 1.0, 1.0, none), p1, 1e-5, 1e-4), "reference", "enumerated ConvPc joint deviates")
    base = m.sample(num_samples=30, seed=5).detach()
    expect(torch.equal(base, m.sample(num_samples=30, seed=5, temperature_sums=1.0, temperature_leaves=1.0).detach()),
           "temperature-one", "ConvPc: temperatures of 1 change the samples")
    for T, Tl in ((float(rng.choice([0.1, 0.35, 0.7])), 1.0), (float(rng.choice([1.6, 3.0, 20.0])), float(rng.choice([0.3, 2.5])))):
        kw = dict(temperature_sums=T, temperature_leaves=Tl)

        def judge(draw, p, what, **d):
            n = 3000 if not ctx.thorough else 12000
            ctx.tick(n)
            if gof_p(draw(n), p) > P1:
                return
            if (p2 := gof_p(draw(3 * n), p)) < P2:
                raise Violation(what, f"ConvPc: tempered samples deviate (p={p2:.1e})", T=T, Tl=Tl, channels=ch, size=size, structure=structure, order=order, **d)

        judge(lambda n: c19.index(m.sample(num_samples=n, **kw), k), conv_table(m, leaf, T, Tl, none), "temperature-conv")
        x = c19.data(rng, m, leaf, 1)[0].double().numpy()
        miss = rng.random(shape) < 0.6
        miss.reshape(-1)[int(rng.integers(miss.size))] = True
        ev = np.where(miss, np.nan, x)
        e = torch.tensor(ev, dtype=torch.float32)
        judge(lambda n: c19.index(m.sample(evidence=e.expand(n, *shape).clone(), **kw), k), conv_table(m, leaf, T, Tl, ev),
              "temperature-conv-evidence", evidence=ev)
        ctx.seen(f"conv-{leaf}-{structure}-{order}-{size}-{C}-{ch}-{T}-{Tl}")
    unchanged(m, snap, "tempered sampling of a ConvPc")
    expect(torch.equal(base, m.sample(num_samples=30, seed=5).detach()), "later-calls", "ConvPc: an earlier temperature changes later samples")


def conv_gaussian(rng, ctx, leaf, structure, order):
    from . import c19

    size, ch = c19.configs(rng, leaf, structure, order, False)
    C = int(rng.choice([1, 2]))
    m, cfg = c19.make(rng, leaf, structure, order, size, C, ch)
    snap = snapshot(m)
    n = 40
    seed = int(rng.integers(0, 2**31))
    ev = c19.data(rng, m, leaf, n)
    ev[torch.tensor(rng.random(ev.shape) < 0.5)] = torch.nan
    for what, call in (("plain", dict(num_samples=n)), ("evidence", dict(evidence=ev))):
        def draw(mm=m, **kw):
            return mm.sample(**call, seed=seed, **kw).detach()

        one, mean = draw(), draw(mpe_at_leaves=True)
        expect(torch.equal(one, draw(temperature_sums=1.0, temperature_leaves=1.0)), "temperature-one", "ConvPc: temperatures of 1 change the samples")
        free = torch.isnan(ev) if what == "evidence" else torch.ones_like(one, dtype=torch.bool)
        expect(float((one - mean)[free].abs().max()) > 0, "leaf-noise", "ConvPc: no randomness at the leaves")
        scale = float((one - mean).abs().max()) + 1.0
        for Tl in (0.0, 0.25, float(rng.uniform(0.05, 9))):
            ctx.tick(n)
            y = draw(temperature_leaves=Tl)
            want = mean + np.sqrt(Tl) * (one - mean)
            expect(close(y, want, 1e-4 * scale * max(1, Tl), 1e-4), "leaf-temperature",
                   f"ConvPc {what}: temperature_leaves={Tl} is not mean + sqrt(T) * deviation (off by {maxdiff(y, want)})")
        if what == "plain":
            for T in (0.2, 3.0):
                hot = copy.deepcopy(m)
                with torch.no_grad():
                    for k, v in hot.named_parameters():
                        if k.endswith("logits") and not k.startswith("leaf"):
                            v.div_(T)
                a, b = draw(temperature_sums=T), draw(hot)
                ctx.tick(n)
                bad = sum(not close(a[i], b[i], 1e-4, 1e-4) for i in range(n))
                expect(bad <= 1, "sum-temperature", f"ConvPc: {bad} of {n} samples at temperature_sums={T} differ from those with weights w^(1/T)")
                expect(close(draw(is_mpe=True, temperature_sums=T), draw(is_mpe=True), 1e-5, 1e-5), "mpe-temperature", "ConvPc: temperature_sums changes the MPE")
        expect(close(draw(is_mpe=True, temperature_leaves=5.0), draw(is_mpe=True), 1e-5, 1e-5), "mpe-temperature", "ConvPc: temperature_leaves changes the MPE")
        ctx.seen(f"conv-gauss-{leaf}-{structure}-{order}-{size}-{C}-{ch}-{what}")
    unchanged(m, snap, "tempered sampling of a ConvPc")


def check(ctx):
    combos = M.covering(ctx.thorough)
    leaves = ["categorical", "bernoulli", "multi-cat", "binomial"]
    for rep in range(ctx.n(1, 3)):
        for j, combo in enumerate(combos):
            leaf = leaves[(j + rep + ctx.seed) % 4]
            diff = (j // 4 + rep + ctx.seed) % 2 == 1
            if leaf == "binomial" and diff:
                leaf = "categorical"
            ctx.run(f"disc-{rep}-{j}-{leaf}", {**combo, "leaf": leaf, "diff": diff}, discrete, ctx, combo, leaf, diff)
            g = ["normal", "ratnormal", "mvn"][(j + rep + ctx.seed) % 3]
            if g == "mvn" and combo["structure"] == "bottom-up":
                g = "normal"
            ctx.run(f"gauss-{rep}-{j}-{g}", {**combo, "leaf": g, "diff": not diff}, gaussian, ctx, combo, g, not diff)
    for rep in range(ctx.n(6, 30)):
        combo = combos[int((rep * 7 + ctx.seed) % len(combos))]
        for leaf in ("normal", "categorical"):
            ctx.run(f"mix-{leaf}-{rep}", {**combo, "leaf": leaf}, mixture, ctx, leaf, combo)
    for rep in range(ctx.n(2, 6)):
        for leaf in ("normal", "ratnormal", "mvn"):
            ctx.run(f"law-{leaf}-{rep}", {"leaf": leaf}, marginal_law, ctx, leaf)
    for rep in range(ctx.n(1, 6)):
        for structure in ("bottom-up", "top-down"):
            for order in ("sum-prod", "prod-sum"):
                for leaf in ("categorical", "bernoulli"):
                    ctx.run(f"conv-{rep}-{structure}-{order}-{leaf}", {"structure": structure, "order": order, "leaf": leaf}, conv_discrete, ctx, leaf, structure, order)
                for leaf in ("normal", "ratnormal"):
                    ctx.run(f"conv-{rep}-{structure}-{order}-{leaf}", {"structure": structure, "order": order, "leaf": leaf}, conv_gaussian, ctx, leaf, structure, order)
