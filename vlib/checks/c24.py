"""C24: class-conditional sampling draws from the requested classes."""
import numpy as np
import torch
from scipy import stats as st

from .. import models as M
from .. import ref
from ..core import Violation, close, expect, maxdiff
from ..stats import P1, P2, gof_p, two_sample_p

LEVEL = "exploration"
RULE = ("one evaluation = one sample judged against the enumerated p(x | class) of the class requested for its position (or against "
        "the Gaussian leaf component only that class can reach), or one invalid request; distinct = distinct (configuration, request form)")
MIN_EVALS, MIN_DISTINCT = 100000, 150
ASSUMPTIONS = ("ConvPc has no classes: a class request must be refused there",)


def raises(fn, what):
    try:
        fn()
    except (Exception, AssertionError):
        return
    raise Violation("not-refused", f"{what} is accepted")


def gof_classes(ctx, draw, tables, what, cfg, form):
    """draw(n) -> (state indices, class per row)."""
    def pvals(n):
        s, c = draw(n)
        ctx.tick(len(s))
        return {k: (gof_p(s[c == k], tables[k]), s[c == k]) for k in sorted(set(c.tolist())) if (c == k).sum() > 50}
    n = 3000 if not ctx.thorough else 10000
    a = pvals(n)
    if min(p for p, _ in a.values()) > P1:
        return
    b = pvals(3 * n)
    k = min(b, key=lambda j: b[j][0])
    if b[k][0] < P2:
        f = np.bincount(b[k][1], minlength=len(tables[k])) / len(b[k][1])
        t = tables[k] / tables[k].sum()
        w = np.argsort(-np.abs(f - t))[:4]
        raise Violation(what, f"{form}: samples of class {k} deviate from p(x | class) (p={b[k][0]:.1e}): observed/expected "
                        f"{[(round(float(f[i]), 4), round(float(t[i]), 4)) for i in w]}", config=M.desc(cfg))


def discrete(rng, ctx, combo, leaf, diff):
    for _ in range(80):
        cfg = M.make_cfg(rng, leaf=leaf, max_F=5, **combo)
        if M.n_states(cfg) <= 260:
            break
    else:
        cfg = M.make_cfg(rng, leaf="bernoulli", F=max(2, 2 ** combo["depth"]), C=1, **combo)
    model = M.build(cfg, rng, scale=2.0, leaf_scale=2.0)
    K = cfg.num_classes
    tab = M.joint_table(model, cfg)  # [K, S]
    s = "-diff" if diff else ""
    kw = dict(is_differentiable=diff)
    key = M.key(cfg) + s

    # a single class
    for c in range(K):
        for form in ("int", "numpy", "tensor"):
            ci = {"int": c, "numpy": np.int64(c), "tensor": torch.tensor(c)}[form]
            x = model.sample(num_samples=3, class_index=ci, **kw)
            expect(tuple(x.shape) == (3, cfg.num_channels, cfg.num_features), "shape", f"class_index={form}: {tuple(x.shape)}")
        gof_classes(ctx, lambda n: (M.state_index(cfg, model.sample(num_samples=n, class_index=c, **kw)), np.full(n, c)), tab, "class" + s, cfg, f"class_index={c}")
        ctx.seen(key + f"int{c}")
    # a list: one per entry, in order
    for m in (1, 2, K, K + 3):
        cl = [int(v) for v in rng.integers(0, K, size=m)]
        x = model.sample(class_index=list(cl), **kw)
        expect(tuple(x.shape) == (m, cfg.num_channels, cfg.num_features), "list-length", f"{m} classes yield {tuple(x.shape)}")

    def from_list(n):
        c = rng.integers(0, K, size=n * K // 2 + 10)
        req = [int(v) for v in c]
        x = model.sample(class_index=req, **kw)
        expect(len(x) == len(c), "list-length", f"{len(c)} classes yield {len(x)} samples")
        expect(req == c.tolist(), "list-changed", "the request list is changed")
        return M.state_index(cfg, x), c

    gof_classes(ctx, from_list, tab, "class-list" + s, cfg, "list")
    sorted_req = sorted([int(v) for v in rng.integers(0, K, size=2000)])
    gof_classes(ctx, lambda n: (M.state_index(cfg, model.sample(class_index=sorted_req[::-1], **kw)), np.array(sorted_req[::-1])), tab, "class-list" + s, cfg, "descending list")
    ctx.seen(key + "list")
    # rows of the same class are different draws
    t = tab[0] / tab[0].sum()
    if (t ** 2).sum() < 0.6:
        x = M.state_index(cfg, model.sample(class_index=[0] * 400, **kw))
        expect(len(set(x.tolist())) > 1, "list-copies", "all entries of one class yield the same sample")
    # a class_index list with a single class of K: num_samples is irrelevant or must agree
    # without a class: uniform prior, and the pair (class, sample) is consistent with the posterior
    mix = tab.mean(0)
    gof_classes(ctx, lambda n: (M.state_index(cfg, model.sample(num_samples=n, **kw)), np.zeros(n, int)), {0: mix}, "prior" + s, cfg, "no class")
    with torch.no_grad():
        pts = M.enumerate_domain(cfg)
        post = model.posterior(pts).double().exp().numpy()  # [S, K]
    w = (post * mix[:, None]).sum(0)
    expect(close(w, np.full(K, 1 / K), 1e-4), "prior-posterior", f"posterior averaged over the sampling distribution is {w}, the classes are drawn uniformly")
    expect(close(post * mix[:, None] * K, tab.T, 1e-5, 1e-3), "prior-posterior", "posterior x sampling distribution is not the class-conditional")
    ctx.seen(key + "prior")
    # tempered sums do not touch the class prior: with the branches tempered away, classes stay uniform
    # reproducible, class requests do not depend on each other
    a = model.sample(class_index=[0, K - 1, 0, K - 1], seed=3, **kw).detach()
    b = model.sample(class_index=[0, K - 1, 0, K - 1], seed=3, **kw).detach()
    expect(torch.equal(a, b), "seed", "seeded class requests differ")
    c2 = model.sample(class_index=[0, K - 1, 0, 0], seed=3, **kw).detach()
    expect(torch.equal(a[:3], c2[:3]), "list-independent", "the class of one entry changes the samples of the others")
    i1 = model.sample(num_samples=4, class_index=K - 1, seed=8, **kw).detach()
    l1 = model.sample(class_index=[K - 1] * 4, seed=8, **kw).detach()
    expect(torch.equal(i1, l1), "int-list", "class_index=c and class_index=[c, c, ...] differ for the same seed")
    ctx.tick(20)


def prior_mode(rng, ctx, combo, diff):
    """Classes far apart: the class of every sample is visible. Uniform and independent classes, exact class per list entry."""
    K = int(rng.integers(2, 6))
    cfg = M.make_cfg(rng, leaf="normal", max_F=6, **dict(combo, K=K, I=K, S=max(K, 2)))
    model = M.build(cfg, rng)
    # route class k to leaf k everywhere: strong diagonal weights
    with torch.no_grad():
        leaf = model.leaf.base_leaf if cfg.structure == "top-down" else model.leaf
        leaf.means.copy_(torch.arange(K).float().view(1, 1, 1, K, 1).expand_as(leaf.means) * 100)
        leaf.logvar.fill_(-4.0)
        S = 60.0
        for i, layer in enumerate(model.layers):
            if not hasattr(layer, "logits"):
                continue
            lg = layer.logits
            lg.fill_(0.0)
            if cfg.layer_type == "einsum" and cfg.depth > 0 and cfg.structure == "top-down":  # [D, O, R, i, j]
                for o in range(lg.shape[1]):
                    j = min(o, lg.shape[3] - 1)
                    lg[:, o, :, j, j] = S
            else:  # [D, in, out, R]
                for o in range(lg.shape[2]):
                    lg[:, min(o, lg.shape[1] - 1), o] = S
    kw = dict(is_differentiable=diff)

    def classes(x):
        v = (x.detach().double() / 100).reshape(len(x), -1)
        r = v.round()
        expect(float((v - r).abs().max()) < 0.05, "class-leaf", "value between the classes")
        expect(bool((r == r[:, :1]).all()), "class-mixed", "one sample mixes classes", config=M.desc(cfg))
        return r[:, 0].long().numpy()

    c = classes(model.sample(num_samples=64, class_index=K - 1, **kw))
    expect((c == K - 1).all(), "class", f"class {K - 1} requested, got {sorted(set(c.tolist()))}")
    req = [int(v) for v in rng.integers(0, K, size=257)]
    c = classes(model.sample(class_index=req, **kw))
    expect(c.tolist() == req, "class-list-order", "entry i of the list is not answered by sample i")
    for extra in (dict(mpe_at_leaves=True), dict(is_mpe=True), dict(temperature_leaves=0.0), dict(temperature_sums=1.5), dict(seed=3)):
        c = classes(model.sample(class_index=req, **kw, **extra))
        expect(c.tolist() == req, "class-list-order", f"entry i of the list is not answered by sample i ({extra})")
    n = 3000
    ctx.tick(n + 64 + 6 * 257)

    def test(n):
        c = classes(model.sample(num_samples=n, **kw))
        f = np.bincount(c, minlength=K)
        p = st.chisquare(f).pvalue
        half = len(c) // 2
        t = np.zeros((K, K))
        np.add.at(t, (c[:-1], c[1:]), 1)  # successive rows independent
        return min(p, st.chi2_contingency(t + 1e-9)[1] if (t.sum(0) > 0).all() and (t.sum(1) > 0).all() else 1.0)

    for T in (1.0, 0.2, 5.0):
        def testT(n):
            c = classes(model.sample(num_samples=n, temperature_sums=T if T <= 1 else 1.5, **kw))
            return st.chisquare(np.bincount(c, minlength=K)).pvalue
        if testT(n) < P1 and testT(3 * n) < P2:
            raise Violation("prior", f"classes not uniform at temperature_sums={T}")
    if test(n) < P1 and (p := test(3 * n)) < P2:
        raise Violation("prior", f"classes are not uniform and independent (p={p:.1e})")
    # classes with evidence follow the posterior: evidence of class k on one feature
    kk = rng.integers(0, K, size=40)
    e = torch.full((40, cfg.num_channels, cfg.num_features), torch.nan)
    e[:, :, 0] = torch.tensor(kk * 100.0, dtype=torch.float32).view(-1, 1)
    c = classes(model.sample(evidence=e, **kw))
    ctx.tick(40)
    expect((c == kk).all(), "class-evidence", "samples given evidence do not follow the class of the evidence")
    ctx.seen(M.key(cfg) + f"visible{diff}")


def greedy(rng, ctx, combo):
    """MPE of a class: greedy descent from that class's root."""
    cfg = M.make_cfg(rng, leaf="normal", max_F=8, **dict(combo, K=3))
    model = M.build(cfg, rng).double()
    sd = model.state_dict()
    pre = "leaf.base_leaf." if cfg.structure == "top-down" else "leaf."
    modes = ref.leaf_mode("Normal", sd, pre, {}, cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions)
    groups = ref.leaf_groups(cfg, sd)
    req = [int(v) for v in rng.integers(0, 3, size=9)]
    got = model.sample(class_index=req, is_mpe=True).detach().numpy()
    gotd = model.sample(class_index=req, is_mpe=True, is_differentiable=True).detach().numpy()
    for i, c in enumerate(req):
        r = 0 if cfg.num_repetitions == 1 else int(ref.npd(sd["mixing.logits"])[0, c].argmax())
        nodes = ref.descend(cfg, sd, c, r, None, 0, lambda v: int(np.asarray(v).argmax()))
        want = np.full((cfg.num_channels, cfg.num_features), np.nan)
        for o, g in enumerate(groups[r]):
            for f in g:
                want[:, f] = modes[:, f, nodes[o], r]
        ctx.tick(2)
        for y, n in ((got, "mpe"), (gotd, "differentiable mpe")):
            expect(close(y[i], want, 1e-5, 1e-5), "class-mpe", f"{n} of class {c} is not its greedy mode (off by {maxdiff(y[i], want)})", config=M.desc(cfg))
    ctx.seen(M.key(cfg) + "mpe")


def refusals(rng, ctx, combo):
    for K in (1, 3):
        cfg = M.make_cfg(rng, leaf="categorical", max_F=5, **dict(combo, K=K))
        model = M.build(cfg, rng)
        x = M.random_x(cfg, rng, 2)
        x[:, :, 0] = torch.nan
        for diff in (False, True):
            kw = dict(is_differentiable=diff)
            if K == 1:
                for ci in (0, [0], [0, 0]):
                    raises(lambda: model.sample(num_samples=2 if ci == 0 else None, class_index=ci, **kw), f"class_index={ci} on a single-class model")
            else:
                raises(lambda: model.sample(class_index=[0, 1], evidence=x.clone(), **kw), "class list together with evidence")
                for bad in (K, K + 5, -1):
                    raises(lambda: model.sample(num_samples=2, class_index=bad, **kw), f"class_index={bad} of {K} classes")
                    raises(lambda: model.sample(class_index=[0, bad, 1], **kw), f"class_index=[0, {bad}, 1] of {K} classes")
            raises(lambda: model.sample(class_index=0, evidence=x.clone(), **kw), "class together with evidence")
            raises(lambda: model.sample(num_samples=2, evidence=x.clone(), **kw), "num_samples together with evidence")
            ctx.tick(6)
        # still usable afterwards
        y = model.sample(evidence=x.clone())
        expect(bool(torch.isfinite(y).all()), "after-refusal", "unusable after a refused request")
    ctx.seen(f"refusals-{sorted(combo.items())}")


def others(rng, ctx, combo):
    """Mixtures of multi-class circuits, and models without classes."""
    from simple_einet import conv_pc as cp
    from . import c18, c19

    K = 3
    mix, cfg, data = c18.build(rng, "bernoulli", dict(combo, K=K), K=2)
    w = mix.mixture_weights.double().numpy()
    if M.n_states(cfg) <= 300:
        tabs = np.stack([M.joint_table(m, cfg) for m in mix.models])  # [components, K, S]
        tab = np.einsum("m,mks->ks", w / w.sum(), tabs)
        for c in range(K):
            gof_classes(ctx, lambda n: (M.state_index(cfg, mix.sample(num_samples=n, class_index=c)), np.full(n, c)), tab, "mixture-class", cfg, f"class_index={c}")

        def from_list(n):
            c = rng.integers(0, K, size=n)
            x = mix.sample(class_index=[int(v) for v in c])
            expect(len(x) == n, "mixture-list", f"{n} classes yield {len(x)} samples of the mixture")
            return M.state_index(cfg, x), c

        gof_classes(ctx, from_list, tab, "mixture-list", cfg, "list")
        gof_classes(ctx, lambda n: (M.state_index(cfg, mix.sample(num_samples=n)), np.zeros(n, int)), {0: tab.mean(0)}, "mixture-prior", cfg, "no class")
    x = data[:3].clone()
    x[:, :, 0] = torch.nan
    raises(lambda: mix.sample(class_index=1, evidence=x.clone()), "mixture: class together with evidence")
    raises(lambda: mix.sample(num_samples=2, class_index=K), "mixture: class out of range")
    m, _ = c19.make(rng, "bernoulli", "bottom-up", "sum-prod", (2, 2), 1, [2])
    raises(lambda: m.sample(num_samples=2, class_index=1), "ConvPc: class on a model without classes")
    ctx.tick(3)
    ctx.seen(M.key(cfg) + "mixture")


def large(rng, ctx, j, diff):
    """Many classes, image-sized models: samples of one requested class, and of a list of classes, against an independent
    ancestral sampler of that class."""
    cfg = M.large_cfg(rng, j, K=[2, 10, 12, 40][(j // 4) % 4], leaf=["categorical", "bernoulli", "normal"][j % 3] if diff else None)
    model = M.build(cfg, rng, scale=2.0, leaf_scale=1.5)
    K = cfg.num_classes
    picks = sorted({0, K - 1, int(rng.integers(K))})

    def draw(n, form):
        if form == "one":
            return [model.sample(num_samples=n, class_index=k, is_differentiable=diff).detach() for k in picks]
        cl = [picks[i] for i in rng.integers(0, len(picks), size=n * len(picks))]
        x = model.sample(class_index=cl, is_differentiable=diff).detach()
        expect(len(x) == len(cl), "wrong-count", f"{len(x)} samples for {len(cl)} classes")
        cl = torch.tensor(cl)
        return [x[cl == k] for k in picks]

    for form in ("one", "list"):
        def test(n):
            ps = []
            for k, x in zip(picks, draw(n, form)):
                ctx.tick(len(x))
                ps.append(two_sample_p(x.double().numpy(), ref.sample(model, n, rng, cls=k), rng))
            return ps
        if min(test(500)) < P1 and min(q := test(1500)) < P2:
            raise Violation("class-large", f"samples of class {picks[int(np.argmin(q))]} of {K} ({form}) deviate, p={min(q):.1e}",
                            config=M.desc(cfg))
        ctx.seen(M.key(cfg) + f"large{form}{diff}")


def check(ctx):
    for j in range(ctx.n(12, 48)):
        ctx.run(f"large-{j}", {"large": j}, large, ctx, j, j % 3 == 2)
    combos = [dict(c, K=3 if i % 2 else 2) for i, c in enumerate(M.covering(ctx.thorough)) if c["K"] > 1]
    leaves = ["categorical", "bernoulli", "multi", "binomial"]
    for rep in range(ctx.n(1, 3)):
        for j, combo in enumerate(combos):
            tag = f"{rep}-{j}"
            leaf = leaves[(j + rep + ctx.seed) % 4]
            ctx.run(f"disc-{tag}-{leaf}", {**combo, "leaf": leaf}, discrete, ctx, combo, leaf, False)
            dl = ["categorical", "bernoulli"][(j + rep + ctx.seed) % 2]
            ctx.run(f"diff-{tag}-{dl}", {**combo, "leaf": dl, "diff": True}, discrete, ctx, combo, dl, True)
            ctx.run(f"visible-{tag}", combo, prior_mode, ctx, combo, (j + ctx.seed) % 2 == 0)
            ctx.run(f"greedy-{tag}", combo, greedy, ctx, combo)
            ctx.run(f"refusals-{tag}", combo, refusals, ctx, combo)
            if j % 3 == 0:
                ctx.run(f"mixture-{tag}", combo, others, ctx, combo)
