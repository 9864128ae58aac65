"""C29: the randomized dependence coefficient (simple_einet.utils.rdc) measures dependence between variables."""
import numpy as np

from ..core import Violation, close, expect
from simple_einet.utils import rdc

LEVEL = "exploration"
RULE = ("one evaluation = one coefficient compared with its specification (range, invariance, median, dependence); distinct = distinct (relation, sample size, projections, shape)")
MIN_EVALS, MIN_DISTINCT = 300, 40
ASSUMPTIONS = ("the coefficient draws from numpy's global generator, which is seeded before each call that is compared",)

MONOTONE = {"exp": np.exp, "cube": lambda v: v ** 3, "affine": lambda v: 7 * v - 3, "sigmoid": lambda v: 1 / (1 + np.exp(-v)), "tiny": lambda v: v * 1e-9, "huge": lambda v: v * 1e9}


def at(seed, *a, **k):
    np.random.seed(seed)
    return rdc(*a, **k)


def sample(rng, n, kind):
    x = rng.normal(size=n)
    if kind == "uniform":
        x = rng.random(n)
    elif kind == "heavy":
        x = rng.standard_cauchy(n)
    return x


RELATED = {"same": lambda x, g: x, "negated": lambda x, g: -x, "exp": lambda x, g: np.exp(np.clip(x, -30, 30)), "square": lambda x, g: x ** 2,
           "pair": lambda x, g: np.stack([x, g.normal(size=len(x))], 1), "pair-second": lambda x, g: np.stack([g.normal(size=len(x)), x], 1)}


def case(rng, ctx, n, k, kind):
    x = sample(rng, n, kind)
    seed = int(rng.integers(2 ** 31))
    what = f"rdc of {n} {kind} samples, {k} projections"
    vals = {}
    for name, f in RELATED.items():
        y = f(x, rng)
        keep = x.copy(), y.copy()
        v = at(seed, x, y, k=k, n=5)
        expect(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "rdc-input", f"{what}: changed its input")
        expect(np.isscalar(v) and np.isrealobj(v) and 0 <= v <= 1 + 1e-9, "rdc-range", f"{what}, {name}: {v!r}")
        expect(at(seed, x, y, k=k, n=5) == v, "rdc-seeded", f"{what}, {name}: not determined by the generator's seed")
        vals[name] = v
        ctx.tick(3)
    for name in ("same", "negated", "exp"):
        expect(vals[name] > 0.999, "rdc-dependence", f"{what}: coefficient of {name} variables is {vals[name]}")
    if n >= 200 and k >= 10:
        expect(vals["square"] > 0.9, "rdc-dependence", f"{what}: coefficient of x and x^2 is {vals['square']}")
        expect(vals["pair"] > 0.95 and vals["pair-second"] > 0.95, "rdc-dependence", f"{what}: a variable among several is not found: {vals}")
    # unrelated variables: small, and smaller the more samples
    ind = [at(seed + i, x, sample(rng, n, kind), k=k, n=5) for i in range(3)]
    lim = 6.5 / np.sqrt(n)
    expect(np.median(ind) < min(0.97, lim), "rdc-independence", f"{what}: coefficients of unrelated variables are {ind}, limit {lim:.3f}")
    expect(all(0 <= v <= 1 + 1e-9 for v in ind), "rdc-range", f"{what}: {ind}")
    # only ranks matter
    y = x + rng.normal(size=n)
    base = at(seed, x, y, k=k)
    for name, f in MONOTONE.items():
        fx, fy = f(x), f(y)
        if len(np.unique(fx)) == n == len(np.unique(fy)):
            a = at(seed, fx, y, k=k), at(seed, x, fy, k=k), at(seed, fx[:, None], y, k=k), at(seed, fx, fy[:, None], k=k)
            expect(all(v == base for v in a), "rdc-ranks", f"{what}: strictly increasing transformation {name} changes the coefficient from {base} to {a}")
            ctx.tick(4)
    # the order of the samples does not matter
    # (its covariances are nearly singular: the value itself moves a little with rounding)
    p = rng.permutation(n)
    d = [abs(at(seed + i, x[p], y[p], k=k, n=5) - at(seed + i, x, y, k=k, n=5)) for i in range(3)]
    expect(np.median(d) < 0.05, "rdc-order", f"{what}: depends on the order of the samples, coefficients differ by {d}")
    # n repetitions: their median
    for reps in (2, 3, 6):
        np.random.seed(seed)
        single = [rdc(x, y, k=k) for _ in range(reps)]
        expect(close(at(seed, x, y, k=k, n=reps), np.median(single), 1e-12, 1e-12), "rdc-median", f"{what}: n={reps} is not the median of its repetitions")
        ctx.tick()
    # stronger noise, weaker dependence
    if n >= 500:
        strength = [np.median([at(seed + i, x, x + s * rng.normal(size=n) * (1 if kind != "uniform" else .29), k=k, n=5) for i in range(3)]) for s in (0.1, 1.0, 10.0)] if kind != "heavy" else [3, 2, 1]
        expect(strength[0] > strength[1] > strength[2], "rdc-dependence", f"{what}: coefficients under growing noise {strength}")
    ctx.tick(4)
    ctx.seen(f"{n}-{k}-{kind}")


def check(ctx):
    for rep in range(ctx.n(2, 12)):
        for n in (20, 60, 200, 600, 1500):
            for k in (3, 10, 20):
                for kind in ("normal", "uniform", "heavy"):
                    ctx.run(f"{rep}/{n}/{k}/{kind}", {"n": n, "k": k, "samples": kind}, case, ctx, n, k, kind)
