"""C21: the data pipeline delivers every item, unaltered, reproducibly."""
import csv
import gzip
import os
import pickle
import shutil
import struct
import tempfile
from types import SimpleNamespace
from unittest import mock

import numpy as np
import torch
from PIL import Image

from simple_einet import data as sd
from simple_einet import utils as su
from simple_einet.dist import DataType, Dist, get_data_type_from_dist, get_distribution
from simple_einet.einet import Einet, EinetConfig

from .. import env
from ..core import Violation, close, expect

LEVEL = "exploration"
RULE = ("one evaluation = one delivered item matched with its source item, one index of the infinite sampler matched, or one "
        "pixel level mapped; distinct = distinct (dataset, length, seed, bit depth) configurations")
MIN_EVALS, MIN_DISTINCT = 50000, 100
ASSUMPTIONS = ("downloads are replaced by local files of the documented formats (MNIST idx, CIFAR pickles, SVHN mat, DEBD csv, "
               "image folders) or stand-in fetchers; LSUN, LFW and binary MNIST are not exercised",)


# ---- sampler and loaders ----
def sampler(rng, ctx):
    n = int(rng.choice([1, 2, 3, 7, 50, 333]))
    seed = None if rng.random() < 0.2 else int(rng.integers(0, 2**31))
    s = sd.TrainingSampler(size=n, seed=seed)
    epochs = 4
    torch.manual_seed(int(rng.integers(1000)))
    st = torch.get_rng_state()
    it = iter(s)
    got = [next(it) for _ in range(n * epochs)]
    ctx.tick(len(got))
    expect(all(isinstance(i, int) for i in got), "sampler-type", "indices are not ints")
    blocks = [got[i * n:(i + 1) * n] for i in range(epochs)]
    for b in blocks:
        expect(sorted(b) == list(range(n)), "sampler-epoch", f"an epoch of {n} items is no permutation", block=b[:20])
    expect(torch.equal(st, torch.get_rng_state()), "sampler-rng", "the sampler consumes the global random stream")
    torch.manual_seed(int(rng.integers(1000)))
    again = iter(sd.TrainingSampler(size=n, seed=seed))
    torch.rand(3)
    expect([next(again) for _ in range(n * epochs)] == got, "sampler-seed", "same seed, other order")
    it2 = iter(s)
    expect([next(it2) for _ in range(n)] == blocks[0], "sampler-seed", "second iteration starts differently")
    if n >= 50:
        o = iter(sd.TrainingSampler(size=n, seed=(seed or 0) + 1))
        expect([next(o) for _ in range(n)] != blocks[0], "sampler-seed", "another seed gives the same order")
        expect(blocks[0] != blocks[1], "sampler-epoch", "epochs repeat the same order")
        expect(blocks[0] != sorted(blocks[0]), "sampler-epoch", "not shuffled")
    plain = iter(sd.TrainingSampler(size=n, seed=seed, shuffle=False))
    expect([next(plain) for _ in range(2 * n)] == list(range(n)) * 2, "sampler-epoch", "shuffle=False is not in order")
    # interleaved iterators of one sampler are independent
    a, b = iter(s), iter(s)
    seq_a, seq_b = [], []
    for i in range(2 * n):
        seq_a.append(next(a))
        if i % 2:
            seq_b.append(next(b))
    expect(seq_a == got[:2 * n] and seq_b == got[:len(seq_b)], "sampler-interleaved", "interleaved iterators disturb each other")
    # cooperating workers
    w = int(rng.integers(2, 5))
    parts = []
    for r in range(w):
        q = sd.TrainingSampler(size=n, seed=seed)
        if not ctx.has(q, "_rank", "_world_size"):
            break
        q._rank, q._world_size = r, w
        i = iter(q)
        parts.append([next(i) for _ in range(n)])
    merged = [parts[i % w][i // w] for i in range(n * w)] if parts else []
    ref = iter(s)
    expect(not parts or merged == [next(ref) for _ in range(n * w)], "sampler-workers", "workers do not partition the stream")
    ctx.tick(6 * n)
    ctx.seen(f"sampler-{n}-{seed}")


def loader(rng, ctx, workers):
    if not ctx.has(sd, "_make_loader"):
        return
    n = int(rng.choice([1, 5, 16, 61]))
    bs = int(rng.choice([1, 3, 8, 100]))
    X = torch.tensor(rng.normal(size=(n, 2, 3)), dtype=torch.float32)
    y = torch.arange(n)
    ds = torch.utils.data.TensorDataset(X, y)
    seed = int(rng.integers(0, 1000))

    def make(loop, shuffle):
        return sd._make_loader(bs, workers, ds, loop=loop, shuffle=shuffle, seed=seed)

    for shuffle in (False, True):
        ld = make(False, shuffle)
        expect(ld.num_workers == workers and ld.batch_size == bs, "loader-options", f"asked for {workers} workers and batches of {bs}, got {ld.num_workers} and {ld.batch_size}")
        for epoch in range(2):
            xs, ys = zip(*list(ld))
            xs, ys = torch.cat(xs), torch.cat(ys)
            ctx.tick(n)
            expect(len(ys) == n, "loader-items", f"{len(ys)} items delivered, {n} in the dataset (batch {bs}, shuffle {shuffle})")
            expect(sorted(ys.tolist()) == list(range(n)), "loader-items", "an epoch misses or repeats items")
            expect(torch.equal(xs, X[ys]), "loader-items", "items and labels are mixed up or changed")
            if not shuffle:
                expect(ys.tolist() == list(range(n)), "loader-order", "unshuffled loader changes the order")
        expect(len(ld) == -(-n // bs), "loader-items", f"{len(ld)} batches")
    streams = []
    for _ in range(2):
        it = iter(make(True, True))
        ys = []
        while len(ys) < 3 * n:
            x, t = next(it)
            expect(torch.equal(x, X[t]), "loader-items", "items and labels are mixed up or changed")
            ys += t.tolist()
        streams.append(ys[:3 * n])
        del it
    ctx.tick(3 * n)
    expect(streams[0] == streams[1], "loader-seed", "looping loader not reproducible")
    for e in range(3):
        expect(sorted(streams[0][e * n:(e + 1) * n]) == list(range(n)), "loader-items", "looping loader misses items")
    ctx.seen(f"loader-{n}-{bs}-{workers}")


# ---- synthetic data ----
SYNTH = {"2-clusters": 2, "3-clusters": 3, "9-clusters": 9, "2-moons": 2, "circles": 2, "aniso": 3, "varied": 3}


def synthetic(rng, ctx, tag):
    n = int(rng.choice([20, 100, 1000, 999]))
    name = tag if rng.random() < 0.3 else "synth-" + tag
    np.random.seed(int(rng.integers(1000)))
    a, la = sd.generate_data(name, n_samples=n)
    np.random.seed(int(rng.integers(1000)))
    b, lb = sd.generate_data(name, n_samples=n)
    ctx.tick(n)
    expect(tuple(a.shape) == (n, 2) and tuple(la.shape) == (n,), "synth-shape", f"{tuple(a.shape)} {tuple(la.shape)}")
    expect(a.dtype == torch.float32 and la.dtype == torch.int64, "synth-dtype", f"{a.dtype} {la.dtype}")
    expect(torch.equal(a, b) and torch.equal(la, lb), "synth-seed", f"{tag}: two calls differ")
    expect(sorted(set(la.tolist())) == list(range(SYNTH[tag])), "synth-classes", f"{tag}: labels {sorted(set(la.tolist()))}")
    expect(sd.get_data_num_classes("synth-" + tag) == SYNTH[tag], "num-classes",
           f"{tag}: {sd.get_data_num_classes('synth-' + tag)} classes reported, labels go to {int(la.max())}")
    expect(bool(torch.isfinite(a).all()), "synth-finite", "not finite")
    c = torch.bincount(la)
    expect(int(c.max() - c.min()) <= 1, "synth-classes", f"{tag}: unbalanced classes {c.tolist()}")
    # documented geometry: centers/noise of the clusters
    geo = {"2-clusters": [[0, 0], [.5, .5]], "3-clusters": [[0, 0], [.5, .5], [.5, 0]],
           "9-clusters": [[0, 0], [.5, .5], [.5, 0], [0, .5], [.5, 1], [1, .5], [1, 1], [0, 1], [1, 0]]}.get(tag)
    if geo and n >= 900:
        for k, ce in enumerate(geo):
            d = (a[la == k].mean(0) - torch.tensor(ce, dtype=torch.float32)).abs().max()
            expect(float(d) < 0.06, "synth-classes", f"{tag}: class {k} is centred at {a[la == k].mean(0).tolist()}")
    if tag == "circles" and n >= 900:
        r = a.norm(dim=1)
        expect(abs(float(r[la == 0].mean()) - 1) < 0.05 and abs(float(r[la == 1].mean()) - .5) < 0.05, "synth-classes", "circle radii")
    ctx.seen(f"synth-{name}-{n}")


def splits(ctx, name, parts, source_train, source_test=None, to_id=None, all_labels=None):
    """parts: (train, val, test) datasets; ids must partition the sources."""
    out = []
    for p in parts:
        ids = [to_id(p[i][0], p[i][1]) for i in range(len(p))]
        ctx.tick(len(ids))
        out.append(ids)
    tr, va, te = out
    expect(len(set(tr) & set(va)) == 0, "split-overlap", f"{name}: train and validation overlap")
    if source_test is None:
        expect(len(set(tr + va) & set(te)) == 0, "split-overlap", f"{name}: test overlaps with train or validation")
        expect(sorted(tr + va + te) == sorted(source_train), "split-cover", f"{name}: splits do not cover the data exactly once")
    else:
        expect(sorted(tr + va) == sorted(source_train), "split-cover", f"{name}: train and validation do not cover the training data exactly once")
        expect(sorted(te) == sorted(source_test), "split-cover", f"{name}: test split is not the test data")
    return out


def synth_splits(rng, ctx, tag):
    name = "synth-" + tag
    np.random.seed(int(rng.integers(1000)))
    a = sd.get_datasets(name, "/nonexistent", normalize=bool(rng.integers(2)))
    np.random.seed(int(rng.integers(1000)))
    b = sd.get_datasets(name, "/nonexistent", normalize=True)
    rows = []
    for p, q in zip(a, b):
        expect(torch.equal(p.tensors[0], q.tensors[0]) and torch.equal(p.tensors[1], q.tensors[1]), "split-seed", f"{name}: splits differ between calls")
        rows.append([tuple(r) for r in p.tensors[0].tolist()])
        ctx.tick(len(rows[-1]))
        expect(p.tensors[0][0].numel() == np.prod(list(sd.get_data_shape(name))), "data-shape", f"{name}: item {tuple(p.tensors[0][0].shape)}")
        expect(int(p.tensors[1].max()) < sd.get_data_num_classes(name), "num-classes", f"{name}: label {int(p.tensors[1].max())}")
    for i, j in ((0, 1), (0, 2), (1, 2)):
        expect(not set(rows[i]) & set(rows[j]), "split-overlap", f"{name}: splits {i} and {j} share items")
    ctx.seen("splits-" + name)


def tabular(rng, ctx, name):
    """Standardised/scaled tabular sets: the splits are an affine image of the source rows, each exactly once."""
    from sklearn import datasets as skd

    n, F = 260, None
    fetch = {}
    if name in ("wine", "breast_cancer", "digits"):
        src = {"wine": skd.load_wine, "breast_cancer": skd.load_breast_cancer, "digits": skd.load_digits}[name]()
        X, y = src.data.astype(np.float64), src.target
        patch = mock.patch.dict({})
    elif name == "covtype":
        X = np.round(rng.normal(0, 3, size=(n, 54)) + rng.normal(0, 20, size=54), 2)
        y = np.arange(n) % 7 + 1
        patch = mock.patch("sklearn.datasets.fetch_covtype", lambda data_home=None, return_X_y=True, **k: (X.copy(), y.copy()))
    elif name == "kddcup99":
        cats = [[f"{c}{i}".encode() for i in range(k)] for c, k in (("p", 3), ("s", 66), ("f", 11))]
        X = np.empty((n, 41), dtype=object)
        X[:] = np.round(rng.normal(0, 3, size=(n, 41)), 3)
        for j, cs in enumerate(cats):
            X[:, 1 + j] = [cs[i % len(cs)] for i in rng.permutation(n)]
        y = np.array([b"class%02d" % (i % 23) for i in range(n)], dtype=object)
        patch = mock.patch("sklearn.datasets.fetch_kddcup99", lambda data_home=None, return_X_y=True, **k: (X.copy(), y.copy()))
    with patch:
        np.random.seed(int(rng.integers(1000)))
        torch.manual_seed(int(rng.integers(1000)))
        parts = sd.get_datasets(name, "/nonexistent", normalize=True)
        np.random.seed(int(rng.integers(1000)))
        again = sd.get_datasets(name, "/nonexistent", normalize=True)
    N = len(X)
    shape = tuple(sd.get_data_shape(name))
    vals, labs = [], []
    for p, q in zip(parts, again):
        x, t = p.tensors
        ctx.tick(len(x))
        expect(torch.equal(x, q.tensors[0]) and torch.equal(t, q.tensors[1]), "split-seed", f"{name}: splits differ between calls")
        expect(x.dtype == torch.float32, "dtype", f"{name}: items are {x.dtype}, models are float32")
        expect(t.dtype == torch.int64, "dtype", f"{name}: labels are {t.dtype}")
        expect(tuple(x.shape[1:]) == shape, "data-shape", f"{name}: items {tuple(x.shape[1:])}, advertised {shape}")
        expect(bool(torch.isfinite(x).all()), "finite", f"{name}: not finite")
        expect(int(t.min()) >= 0 and int(t.max()) < sd.get_data_num_classes(name), "num-classes", f"{name}: labels to {int(t.max())}")
        vals.append(x.view(len(x), -1).double().numpy())
        labs.append(t.numpy())
    sizes = [len(v) for v in vals]
    expect(sum(sizes) == N, "split-cover", f"{name}: {sizes} items of {N}")
    expect(abs(sizes[2] - 0.1 * N) <= 1 + 1e-9 and abs(sizes[1] - 0.1 * (N - sizes[2])) <= 1 + 1e-9, "split-size", f"{name}: sizes {sizes}")
    V, L = np.concatenate(vals), np.concatenate(labs)
    expect(len(set(L.tolist())) == sd.get_data_num_classes(name), "num-classes", f"{name}: {len(set(L.tolist()))} classes in the data, "
           f"{sd.get_data_num_classes(name)} reported")
    # stratified
    for k in set(L.tolist()):
        c = [int((l == k).sum()) for l in labs]
        expect(abs(c[2] - 0.1 * sum(c)) <= 1.5, "split-stratified", f"{name}: class {k} has {c} items per split")
    if name == "digits":
        expect(close(V.min(), 0) and close(V.max(), 1), "scaling", "digits not scaled to [0, 1]")
    else:
        tr = vals[0]
        sdv = tr.std(0)
        expect(close(tr.mean(0), np.zeros(tr.shape[1]), 1e-3) and close(sdv[sdv > 1e-6], np.ones((sdv > 1e-6).sum()), 1e-3), "scaling",
               f"{name}: training split not standardised")
    if name == "kddcup99":
        # one-hot blocks: standardisation of 0/1 columns leaves two values; numerical columns first
        for j in range(38, 118):
            expect(len(np.unique(np.round(V[:, j], 4))) <= 2, "encoding", f"column {j} is no indicator")
        num = np.delete(X, [1, 2, 3], axis=1).astype(float)
        V, Xn = V[:, :38], num
    else:
        Xn = X
    # undo the affine map per column (order statistics), then compare rows with their labels as multisets
    rec = np.zeros_like(V)
    for j in range(V.shape[1]):
        a, b = np.sort(V[:, j]), np.sort(Xn[:, j])
        va, vb = a - a.mean(), b - b.mean()
        if (vb ** 2).sum() == 0:
            rec[:, j] = b[0]
            continue
        s = (va * vb).sum() / max((va ** 2).sum(), 1e-30)
        expect(s > 0 and close(va * s, vb, 2e-3 * np.abs(vb).max(), 1e-2), "altered", f"{name}: column {j} is no affine image of the source")
        rec[:, j] = (V[:, j] - a.mean()) * s + b.mean()
    scale = Xn.std(0) + 1e-9
    src, got = (Xn / scale), (rec / scale)
    lab = np.unique(y, return_inverse=True)[1]
    used = np.zeros(N, bool)
    for i in range(N):
        d = np.abs(src - got[i]).max(1)
        d[used] = np.inf
        k = int(d.argmin())
        ok = np.nonzero(d < d[k] + 1e-3)[0]
        k = next((int(t) for t in ok if lab[t] == L[i]), k)
        ctx.tick()
        expect(d[k] < 2e-2 and lab[k] == L[i], "altered", f"{name}: an item is no source row with its label (distance {d[k]:.4f})")
        used[k] = True
    ctx.seen(f"tabular-{name}-{N}-{rng.integers(1 << 20)}")


def newsgroups(rng, ctx):
    import scipy.sparse as sp

    rows = 540
    X = sp.csr_matrix(np.abs(rng.normal(size=(rows, 560))) * (rng.random((rows, 560)) < 0.1))
    y = np.arange(rows) % 20
    Xt, yt = X[:60], y[:60]

    def fetch(return_X_y=True, data_home=None, subset="train", **k):
        return (X, y) if subset == "train" else (Xt, yt)

    with mock.patch("sklearn.datasets.fetch_20newsgroups_vectorized", fetch):
        np.random.seed(int(rng.integers(1000)))
        a = sd.get_datasets("20newsgroup", "/nonexistent", normalize=True)
        np.random.seed(int(rng.integers(1000)))
        b = sd.get_datasets("20newsgroup", "/nonexistent", normalize=True)
    for p, q in zip(a, b):
        ctx.tick(len(p))
        expect(tuple(p.tensors[0].shape[1:]) == tuple(sd.get_data_shape("20newsgroup")), "data-shape", f"{tuple(p.tensors[0].shape)}")
        expect(close(p.tensors[0], q.tensors[0], 1e-4, 1e-4) and torch.equal(p.tensors[1], q.tensors[1]), "split-seed", "20newsgroup differs between calls")
        expect(p.tensors[0].dtype == torch.float32, "dtype", f"{p.tensors[0].dtype}")
    expect(len(a[0]) + len(a[1]) == rows and len(a[2]) == 60, "split-cover", f"{[len(p) for p in a]}")
    expect(torch.equal(a[2].tensors[1], torch.tensor(yt)), "split-cover", "test labels changed")
    ctx.seen(f"newsgroups-{rng.integers(1 << 20)}")


# ---- image sets from local files ----
def idx_file(path, arr):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(struct.pack(">HBB", 0, 8, arr.ndim) + struct.pack(">" + "I" * arr.ndim, *arr.shape) + arr.astype(np.uint8).tobytes())


def grey_sets(rng, n_train, n_test):
    lv = rng.permutation(256)
    a, b = lv[:n_train], lv[n_train:n_train + n_test]

    def images(levels):
        return np.broadcast_to(levels[:, None, None], (len(levels), 28, 28)).astype(np.uint8).copy()

    return a, b, images(a), images(b)


def level(x, normalize):
    v = x.double()
    if normalize:
        v = v * 0.5 + 0.5
    return v * 255


def constant(ctx, x, normalize, shape, name):
    expect(tuple(x.shape) == tuple(shape), "data-shape", f"{name}: item {tuple(x.shape)}, advertised {tuple(shape)}")
    v = level(x, normalize)
    out = []
    for c in range(v.shape[0]):
        m = float(v[c].mean())
        expect(float((v[c] - round(m)).abs().max()) < 1e-2, "altered", f"{name}: pixel values changed (normalize={normalize})", got=v[c].flatten()[:6])
        out.append(round(m))
    return tuple(out)


def image_set(rng, ctx, name, tmp, normalize):
    shape = sd.get_data_shape(name)
    n1, n2 = int(rng.choice([10, 40, 117])), int(rng.choice([1, 20]))
    extra = None
    patches = []
    if "mnist" in name:
        a, b, ia, ib = grey_sets(rng, n1, n2)
        la, lb = rng.integers(0, 10, size=n1), rng.integers(0, 10, size=n2)
        sub = "FashionMNIST" if name.startswith("f") else "MNIST"
        raw = os.path.join(tmp, sub, "raw")
        for pre, im, lb_ in (("train", ia, la), ("t10k", ib, lb)):
            idx_file(os.path.join(raw, f"{pre}-images-idx3-ubyte"), im)
            idx_file(os.path.join(raw, f"{pre}-labels-idx1-ubyte"), lb_)
        src_tr = [((int(v),), int(l)) for v, l in zip(a, la)]
        src_te = [((int(v),), int(l)) for v, l in zip(b, lb)]
    else:
        def colors(k):
            s = set()
            while len(s) < k:
                s.add(tuple(int(v) for v in rng.integers(0, 256, size=3)))
            return list(s)

        if "svhn" in name:
            n1, n2 = 10 * max(1, n1 // 10), max(2, n2)
        n3 = 12 if name == "svhn-extra" else 0
        cs = colors(n1 + n2 + n3)
        K = sd.get_data_num_classes(name)
        kind = name.split("-")[0]
        K = K or 10
        labels = [int(v) for v in rng.integers(0, min(K, 10), size=len(cs))]
        src_tr = list(zip(cs[:n1], labels[:n1]))
        src_te = list(zip(cs[n1:n1 + n2], labels[n1:n1 + n2]))
        ex = list(zip(cs[n1 + n2:], labels[n1 + n2:]))
        if name == "cifar":
            import torchvision.datasets as tv

            base = os.path.join(tmp, "cifar-10-batches-py")
            os.makedirs(base, exist_ok=True)
            cut = [list(x) for x in np.array_split(np.arange(n1), 5)]

            def rows(items):
                return np.array([[c[0]] * 1024 + [c[1]] * 1024 + [c[2]] * 1024 for c, _ in items], dtype=np.uint8).reshape(-1, 3072)

            for i, ids in enumerate(cut):
                it = [src_tr[k] for k in ids]
                pickle.dump({"data": rows(it), "labels": [l for _, l in it]}, open(os.path.join(base, f"data_batch_{i + 1}"), "wb"))
            pickle.dump({"data": rows(src_te), "labels": [l for _, l in src_te]}, open(os.path.join(base, "test_batch"), "wb"))
            pickle.dump({"label_names": [str(i) for i in range(10)]}, open(os.path.join(base, "batches.meta"), "wb"))
            patches = [mock.patch.object(tv.CIFAR10, "_check_integrity", lambda self: True),
                       mock.patch("torchvision.datasets.cifar.check_integrity", lambda *a, **k: True)]
        elif "svhn" in name:
            import scipy.io as sio
            import torchvision.datasets as tv

            for split, items in (("train", src_tr), ("test", src_te), ("extra", ex or src_te)):
                X = np.zeros((32, 32, 3, len(items)), dtype=np.uint8)
                for i, (c, _) in enumerate(items):
                    X[..., i] = c
                sio.savemat(os.path.join(tmp, f"{split}_32x32.mat"), {"X": X, "y": np.array([[l if l else 10] for _, l in items], dtype=np.uint8)})
            patches = [mock.patch.object(tv.SVHN, "_check_integrity", lambda self: True),
                       mock.patch.object(tv.SVHN, "download", lambda self: None)]
        elif name == "tiny-imagenet":
            # train/val/test folders; the label is the class folder
            n_val = max(1, n1 // 4)
            src_va, src_tr = src_tr[:n_val], src_tr[n_val:]
            for split, items in (("train", src_tr), ("val", src_va), ("test", src_te)):
                for l in range(10):
                    os.makedirs(os.path.join(tmp, "tiny-imagenet-200", split, f"n{l:03d}"), exist_ok=True)
                    Image.new("RGB", (64, 64), (9, 9, l)).save(os.path.join(tmp, "tiny-imagenet-200", split, f"n{l:03d}", "zz.png"))
                for i, (c, l) in enumerate(items):
                    Image.new("RGB", (64, 64), c).save(os.path.join(tmp, "tiny-imagenet-200", split, f"n{l:03d}", f"{i:05d}.png"))
            fixed = [((9, 9, l), l) for l in range(10)]
            extra = (src_tr + fixed, src_va + fixed, src_te + fixed)
        if ex:
            extra_items = ex

    def load():
        from contextlib import ExitStack

        with ExitStack() as st:
            for p in patches:
                st.enter_context(p)
            return sd.get_datasets(name, tmp, normalize=normalize)

    torch.manual_seed(int(rng.integers(1000)))
    parts = load()
    torch.manual_seed(int(rng.integers(1000)))
    again = load()

    def to_id(x, t):
        return constant(ctx, x, normalize, shape, name), int(t)

    key = f"image-{name}-{n1}-{n2}-{normalize}"
    got = []
    for p, q in zip(parts, again):
        a = [to_id(*p[i]) for i in range(len(p))]
        b = [to_id(*q[i]) for i in range(len(q))]
        ctx.tick(2 * len(a))
        expect(a == b, "split-seed", f"{name}: splits differ between calls")
        got.append(a)
    K = sd.get_data_num_classes(name)
    expect(all(0 <= t < K for g in got for _, t in g), "num-classes", f"{name}: label outside 0..{K - 1}")
    if name == "tiny-imagenet":
        for g, want, s in zip(got, extra, ("train", "val", "test")):
            expect(sorted(g) == sorted(want), "split-cover", f"{name}: {s} split is not its folder")
        ctx.seen(key)
        return
    tr, va, te = got
    if name == "svhn-extra":
        expect(sorted(tr[-len(extra_items):]) == sorted(extra_items), "split-cover", "extra items not part of the training data")
        tr = tr[:-len(extra_items)]
    expect(not set(tr) & set(va), "split-overlap", f"{name}: train and validation overlap")
    expect(sorted(tr + va) == sorted(src_tr), "split-cover", f"{name}: train and validation do not cover the training data exactly once")
    expect(sorted(te) == sorted(src_te), "split-cover", f"{name}: test split is not the test data")
    expect(abs(len(va) - 0.1 * n1) <= 1, "split-size", f"{name}: {len(va)} of {n1} items for validation")
    ctx.seen(key)


def debd(rng, ctx, name, tmp):
    shape = sd.get_data_shape(name)
    base = os.path.join(tmp, "debd", "datasets", name)
    os.makedirs(base, exist_ok=True)
    want = []
    for split in ("train", "valid", "test"):
        n = int(rng.integers(1, 30))
        x = rng.integers(0, 2, size=(n, shape.height))
        with open(os.path.join(base, f"{name}.{split}.data"), "w") as f:
            csv.writer(f).writerows(x.tolist())
        want.append(x)
    with mock.patch("subprocess.run", side_effect=AssertionError("must not download")):
        parts = sd.get_datasets(name, tmp, normalize=False)
    for p, x, s in zip(parts, want, ("train", "valid", "test")):
        ctx.tick(len(x))
        expect(tuple(p.tensors[0].shape) == (len(x), *shape), "data-shape", f"{name} {s}: {tuple(p.tensors[0].shape)}")
        expect(np.array_equal(p.tensors[0].numpy().reshape(len(x), -1), x), "altered", f"{name}: {s} rows changed or of another split")
    expect(sd.is_1d_data(name) and not sd.is_classification_data(name) and sd.get_data_num_classes(name) == 0, "num-classes", f"{name} flags")
    expect(set(sd.DEBD) == set(sd.DEBD_shapes) == set(sd.DEBD_display_name), "data-shape", "DEBD tables disagree")
    ctx.seen(f"debd-{name}-{len(want[0])}")


def fake(rng, ctx):
    parts = sd.get_datasets("fake", "/nonexistent", normalize=False)
    ids = []
    for p in parts:
        idx = rng.choice(len(p), size=25, replace=False)
        it = [p[int(i)] for i in idx]
        ctx.tick(len(it))
        for x, t in it:
            expect(tuple(x.shape) == tuple(sd.get_data_shape("fake")) and 0 <= int(t) < 10, "data-shape", "fake item")
        ids.append([hash(x.numpy().tobytes()) for x, _ in it] + [hash(p[j][0].numpy().tobytes()) for j in range(5)])
        expect(torch.equal(p[int(idx[0])][0], it[0][0]), "split-seed", "fake item changes between reads")
    expect(not (set(ids[0][-5:]) & set(ids[1][-5:])) and not (set(ids[1][-5:]) & set(ids[2][-5:])) and not (set(ids[0][-5:]) & set(ids[2][-5:])),
           "split-overlap", "splits of the fake dataset are identical")
    ctx.seen(f"fake-{rng.integers(99)}")


def end_to_end(rng, ctx):
    """build_dataloader over a synthetic set: each split is delivered completely; the looping loader is seeded."""
    name = "synth-" + str(rng.choice(list(SYNTH)))
    ds = sd.get_datasets(name, "/x", normalize=True)
    bs, seed = int(rng.choice([64, 333, 1000])), int(rng.integers(100))
    loops = []
    for loop in (False, True, True):
        torch.manual_seed(int(rng.integers(1000)))
        tr, va, te = sd.build_dataloader(name, "/x", bs, 0, loop=loop, normalize=True, seed=seed)
        for ld, d in ((va, ds[1]), (te, ds[2])):
            x = torch.cat([b[0] for b in ld])
            ctx.tick(len(x))
            expect(torch.equal(x, d.tensors[0]), "loader-items", f"{name}: evaluation loader is not the dataset in order")
        want = sorted(map(tuple, ds[0].tensors[0].tolist()))
        it, xs = iter(tr), []
        while sum(map(len, xs)) < len(want):
            xs.append(next(it)[0])
        x = torch.cat(xs)[:len(want)]
        ctx.tick(len(x))
        expect(sorted(map(tuple, x.tolist())) == want, "loader-items", f"{name}: an epoch is not the training split")
        expect(not torch.equal(x, ds[0].tensors[0]), "loader-order", "training loader is not shuffled")
        if loop:
            loops.append(x)
    expect(torch.equal(*loops), "loader-seed", "seeded looping loader not reproducible")
    ctx.seen(f"e2e-{name}-{bs}-{seed}")


# ---- bit reduction ----
def levels(rng, ctx, n_bits, dist):
    """All 256 levels, as torchvision delivers them, through preprocessing into a model built for that bit depth."""
    import torchvision.transforms as T

    im = np.arange(256, dtype=np.uint8).reshape(16, 16)
    x = T.ToTensor()(Image.fromarray(im))
    snap = x.clone()
    n_bins = 2**n_bits
    want = np.arange(256) // 2 ** (8 - n_bits)
    cfg = SimpleNamespace(n_bits=n_bits, min_sigma=1e-2, max_sigma=2.0, multivariate_cardinality=2)
    kw, leaf = get_distribution(dist, cfg)
    gauss = get_data_type_from_dist(dist) == DataType.CONTINUOUS
    z = su.preprocess(x, n_bits, n_bins, dequantize=False, has_gauss_dist=gauss)
    d = su.preprocess(x, n_bits, n_bins, dequantize=True, has_gauss_dist=gauss)
    ctx.tick(512)
    expect(torch.equal(x, snap), "input-modified", "preprocessing changed its input")
    r = su.reduce_bits(x, n_bits).view(-1).double().numpy()
    expect(close(r, want, 1e-3), "reduce-bits", f"{n_bits} bits: level {int(np.abs(r - want).argmax())} maps to {r[np.abs(r - want).argmax()]}")
    if gauss:
        expect(close(z.view(-1), want / n_bins - 0.5, 1e-6, 1e-6), "preprocess", f"{n_bits} bits: scaled values")
        off = (d - z).view(-1)
        expect(bool((off >= -1e-6).all() and (off <= 1 / n_bins + 1e-6).all()), "preprocess", f"{n_bits} bits: dequantisation leaves its bin")
        expect(float(off.max() - off.min()) > 0.5 / n_bins, "preprocess", "no dequantisation noise")
        expect(bool((d >= -0.5).all() and (d <= 0.5 + 1e-6).all()), "preprocess", "outside [-0.5, 0.5]")
    else:
        expect(not z.is_floating_point() and torch.equal(z, d), "preprocess", "discrete data must be integer levels without noise")
        expect(np.array_equal(z.view(-1).numpy(), want), "preprocess", f"{n_bits} bits: wrong levels")
    import exp_utils

    expect(close(exp_utils.preprocess(x, n_bits).view(-1), want, 1e-3), "reduce-bits", "exp_utils maps levels differently")
    if dist != Dist.PIECEWISE_LINEAR:
        m = Einet(EinetConfig(num_features=256, num_channels=1, depth=2, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=1,
                              leaf_type=leaf, leaf_kwargs=kw, layer_type="linsum", dropout=0.0))
        m.eval()
        with torch.no_grad():
            ll = m(d.view(1, 1, 256).float())
            ctx.tick()
            expect(bool(torch.isfinite(ll).all()), "model-accepts", f"{dist}, {n_bits} bits: likelihood of the 256 levels is {float(ll.view(-1)[0])}")
            if not gauss:
                # each level alone has its own probability, the levels in use sum to one
                lv = torch.arange(n_bins).float()
                q = torch.full((n_bins, 1, 256), torch.nan)
                q[:, 0, int(rng.integers(256))] = lv
                p = m(q).double().exp().sum()
                ctx.tick(n_bins)
                expect(close(p, 1.0, 1e-3), "model-accepts", f"{dist}, {n_bits} bits: the {n_bins} levels carry mass {float(p)}")
                s = m.sample(num_samples=4)
                expect(float(s.min()) >= 0 and float(s.max()) <= n_bins - 1, "model-accepts", f"sample level {float(s.max())} at {n_bits} bits")
    for bad in (x * 255, x - 0.5):
        try:
            su.reduce_bits(bad, n_bits)
        except AssertionError:
            ctx.tick()
            continue
        raise Violation("reject", "values outside [0, 1] are accepted")
    ctx.seen(f"bits-{n_bits}-{dist}")


# ---- image sets whose archives cannot be had here: stand-ins for the torchvision classes ----
class Stand(torch.utils.data.Dataset):
    """What a torchvision image dataset is to its user: constant-coloured pictures of uneven sizes, by split."""

    def __init__(self, items, transform, sizes):
        self.items, self.transform, self.sizes = items, transform, sizes
        self.data = [c for c, _ in items]
        self.targets = [t for _, t in items]
        self.length = len(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        c, t = self.items[i]
        im = Image.new("RGB", self.sizes[i % len(self.sizes)], c)
        return (self.transform(im) if self.transform else im), t


def stand_in_set(rng, ctx, name, normalize):
    shape = sd.get_data_shape(name)
    K = sd.get_data_num_classes(name)
    n = {"train": int(rng.choice([30, 47, 110])), "val": 13, "test": 9}
    if name == "lsun":
        n["train"] = 10 * int(rng.integers(2, 9))
    cols = set()
    while len(cols) < sum(n.values()):
        cols.add(tuple(int(v) for v in rng.integers(0, 256, size=3)))
    cols = list(cols)
    src, k = {}, 0
    for s in n:
        src[s] = [(c, int(rng.integers(K or 5))) for c in cols[k:k + n[s]]]
        k += n[s]
    sizes = [(64, 64), (178, 218), (40, 90)]
    asked = []

    def make(cls):
        def build(root, split=None, classes=None, transform=None, target_transform=None, download=False, **kw):
            known = {"LSUN": {"church_outdoor_train": "train", "church_outdoor_val": "test"}, "LFWPeople": {"train": "train", "test": "test"},
                     "CelebA": {"train": "train", "valid": "val", "test": "test"}, "Flowers102": {"train": "train", "val": "val", "test": "test"}}[cls]
            part = (classes[0] if isinstance(classes, (list, tuple)) else classes) if cls == "LSUN" else split
            expect(part in known, "split-cover", f"{name}: asks for split {part!r}, {cls} has {sorted(known)}")
            which = known[part]
            asked.append((cls, which, root))
            return Stand(src[which], transform, sizes)
        return build

    cls = {"celeba": "CelebA", "flowers": "Flowers102", "lfw": "LFWPeople", "lsun": "LSUN"}[name.split("-")[0]]

    def load():
        import torchvision.datasets as tv
        from contextlib import ExitStack

        with ExitStack() as st:
            st.enter_context(mock.patch.object(tv, cls, make(cls)))
            if hasattr(sd, cls):
                st.enter_context(mock.patch.object(sd, cls, make(cls)))
            return sd.get_datasets(name, "/nonexistent", normalize=normalize)

    torch.manual_seed(int(rng.integers(1000)))
    parts = load()
    torch.manual_seed(int(rng.integers(1000)))
    again = load()
    got = []
    for p, q in zip(parts, again):
        a = [(constant(ctx, p[i][0], normalize, shape, name), int(p[i][1])) for i in range(len(p))]
        b = [(constant(ctx, q[i][0], normalize, shape, name), int(q[i][1])) for i in range(len(q))]
        ctx.tick(2 * len(a))
        expect(a == b, "split-seed", f"{name}: splits differ between calls")
        got.append(a)
    expect(all(str(r).startswith("/nonexistent") for _, _, r in asked), "data-dir", f"{name}: looked for data in {sorted({r for _, _, r in asked})}, not below the data directory")
    tr, va, te = got
    expect(sorted(te) == sorted(src["test"]), "split-cover", f"{name}: test split is not the test data")
    if cls in ("CelebA", "Flowers102"):
        expect(sorted(tr) == sorted(src["train"]) and sorted(va) == sorted(src["val"]), "split-cover", f"{name}: a split is not the split of that name")
    else:
        expect(sorted(tr + va) == sorted(src["train"]), "split-cover", f"{name}: train and validation do not cover the training data exactly once")
        expect(abs(len(va) - 0.1 * n["train"]) <= 1, "split-size", f"{name}: {len(va)} of {n['train']} items for validation")
    ctx.seen(f"stand-in-{name}-{normalize}-{n['train']}")


def binary_mnist(rng, ctx, tmp):
    """The published picture holds 70000 bit-packed digits and then their labels."""
    N = 70000
    bits = rng.integers(0, 256, size=(N, 98), dtype=np.uint8)
    labels = rng.integers(0, 10, size=N).astype(np.uint8)
    flat = np.concatenate([bits.ravel(), labels])
    img = flat.reshape(-1, 70, 3)
    img = np.concatenate([img, np.full(img.shape[:2] + (1,), 255, dtype=np.uint8)], axis=-1)
    os.makedirs(os.path.join(tmp, "mnist-bin"), exist_ok=True)
    with mock.patch("imageio.v3.imread", lambda *a, **k: img), mock.patch.object(sd.imageio, "imread", lambda *a, **k: img), mock.patch("os.system", lambda *a: 0):
        parts = sd.get_datasets("mnist-bin", tmp, normalize=bool(rng.integers(2)))
    want = np.unpackbits(bits, axis=1)
    key = {want[i].tobytes(): i for i in range(N)}
    ids = []
    for p in parts:
        sub = []
        for j in rng.choice(len(p), size=min(400, len(p)), replace=False):
            x, t = p[int(j)]
            expect(tuple(x.shape) == tuple(sd.get_data_shape("mnist-bin")), "data-shape", f"mnist-bin: item {tuple(x.shape)}")
            i = key.get(x.numpy().astype(np.uint8).tobytes())
            expect(i is not None and set(np.unique(x.numpy())) <= {0, 1}, "altered", "mnist-bin: item is none of the pictures")
            expect(int(t) == int(labels[i]), "altered", f"mnist-bin: picture {i} delivered with label {int(t)}, recorded {int(labels[i])}")
            sub.append(i)
        ids.append(sub)
        ctx.tick(len(sub))
    tr, va, te = parts
    full = []
    for p in parts:
        full.append({key[p[j][0].numpy().astype(np.uint8).tobytes()] for j in range(len(p))} if len(p) <= 10000 else None)
    expect(not (full[1] & full[2] if full[1] and full[2] else set()), "split-overlap", "mnist-bin: validation and test overlap")
    a = set(ids[0])
    expect(not a & (full[1] or set(ids[1])) and not a & (full[2] or set(ids[2])), "split-overlap", "mnist-bin: training items reappear")
    ctx.seen("mnist-bin")


# the sizes the names and the documented configurations stand for
SHAPES = {
    "mnist-16": (1, 16, 16), "mnist-32": (1, 32, 32), "mnist-bin": (1, 28, 28), "mnist": (1, 28, 28),
    "fmnist": (1, 28, 28), "fmnist-16": (1, 16, 16), "fmnist-32": (1, 32, 32), "cifar": (3, 32, 32), "svhn": (3, 32, 32),
    "svhn-extra": (3, 32, 32), "celeba": (3, 128, 128), "celeba-small": (3, 64, 64), "celeba-tiny": (3, 32, 32),
    "lsun": (3, 32, 32), "fake": (3, 32, 32), "flowers": (3, 32, 32), "tiny-imagenet": (3, 32, 32), "lfw": (3, 32, 32),
    "20newsgroup": (1, 50, 1), "kddcup99": (1, 118, 1), "covtype": (1, 54, 1), "breast_cancer": (1, 30, 1),
    "wine": (1, 13, 1), "digits": (1, 8, 8), "synth-2-moons": (1, 2, 1), "nltcs": (1, 16, 1), "plants": (1, 69, 1),
}


def shapes(rng, ctx):
    for n, s in SHAPES.items():
        sh = sd.get_data_shape(n)
        ctx.tick()
        expect(tuple(sh) == s and [sh[i] for i in range(3)] == list(s) and sh.num_pixels == s[1] * s[2], "data-shape", f"{n}: {tuple(sh)}")
        expect(tuple(sh.upscale(2)) == (s[0], 2 * s[1], 2 * s[2]) and tuple(sh.upscale(2).downscale(2)) == s, "data-shape", "scaling shapes")
        # the helpers built on the table
        vector = s[2] == 1
        expect(sd.is_1d_data(n) == vector, "data-kind", f"{n}: is_1d_data says {sd.is_1d_data(n)}, shape is {s}")
        labels = n not in ("nltcs", "plants") and not n.startswith("celeba")
        expect(sd.is_classification_data(n) == labels, "data-kind", f"{n}: is_classification_data says {sd.is_classification_data(n)}")
    for n in sd.DEBD:
        sh = sd.get_data_shape(n)
        expect(sh[0] == 1 and sh[2] == 1 and all(v[1] == sh[1] for v in sd.DEBD_shapes[n].values()) and sd.is_1d_data(n), "data-shape", f"{n}: {tuple(sh)}")
        ctx.tick()
    for bad in ("nope",):
        for f in (sd.get_data_shape, sd.get_data_num_classes):
            try:
                f(bad)
            except KeyError:
                ctx.tick()
                continue
            raise Violation("reject", "unknown dataset accepted")
    try:
        sd.generate_data("synth-nope")
        raise Violation("reject", "unknown synthetic dataset accepted")
    except ValueError:
        ctx.tick()
    ctx.seen("shapes")


def check(ctx):
    tmp = tempfile.mkdtemp(prefix="c21-", dir=env.SCRATCH)
    cwd = os.getcwd()
    try:
        os.chdir(env.REPO)  # exp_utils reads ./PROJECT_NAME when it is imported
        import exp_utils  # noqa: F401

        _check(ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def _check(ctx, tmp):
    def folder(i=[0]):
        i[0] += 1
        p = os.path.join(tmp, str(i[0]))
        os.makedirs(p)
        return p

    for i in range(ctx.n(25, 200)):
        ctx.run(f"sampler/{i}", {}, sampler, ctx)
    for i in range(ctx.n(12, 60)):
        ctx.run(f"loader/{i}", {}, loader, ctx, 0)
    for i in range(ctx.n(1, 6)):
        ctx.run(f"loader-workers/{i}", {"workers": 2}, loader, ctx, 2)
    for t in SYNTH:
        for i in range(ctx.n(2, 10)):
            ctx.run(f"synth/{t}/{i}", {"set": t}, synthetic, ctx, t)
        ctx.run(f"synth-splits/{t}", {"set": t}, synth_splits, ctx, t)
    for n in ("wine", "breast_cancer", "digits", "covtype", "kddcup99"):
        for i in range(ctx.n(1, 1 if n in ("wine", "breast_cancer", "digits") else 4)):
            ctx.run(f"tabular/{n}/{i}", {"set": n}, tabular, ctx, n)
    ctx.run("newsgroups", {}, newsgroups, ctx)
    for n in ("mnist", "mnist-16", "mnist-32", "fmnist", "fmnist-16", "fmnist-32", "cifar", "svhn", "svhn-extra", "tiny-imagenet"):
        for i in range(ctx.n(2, 8)):
            ctx.run(f"image/{n}/{i}", {"set": n, "normalize": bool(i % 2)}, image_set, ctx, n, folder(), bool(i % 2))
    for n in ("nltcs", "msnbc", "plants", "dna"):
        for i in range(ctx.n(1, 6)):
            ctx.run(f"debd/{n}/{i}", {"set": n}, debd, ctx, n, folder())
    for n in ("celeba", "celeba-small", "celeba-tiny", "flowers", "lfw", "lsun"):
        for i in range(ctx.n(2, 6)):
            ctx.run(f"stand-in/{n}/{i}", {"set": n, "normalize": bool(i % 2)}, stand_in_set, ctx, n, bool(i % 2))
    ctx.run("mnist-bin", {}, binary_mnist, ctx, folder())
    ctx.run("fake", {}, fake, ctx)
    for i in range(ctx.n(3, 15)):
        ctx.run(f"e2e/{i}", {}, end_to_end, ctx)
    for b in range(1, 9):
        for d in Dist:
            ctx.run(f"levels/{b}/{d.value}", {"bits": b, "dist": d.value}, levels, ctx, b, d)
    ctx.run("shapes", {}, shapes, ctx)
