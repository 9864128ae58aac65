"""Process environment of every check: import path of the code under test, a stand-in for the
one dependency that is absent from this sandbox (fast_pytorch_kmeans), quiet logging."""
import logging
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def _install_kmeans_stub():
    """fast_pytorch_kmeans is imported by simple_einet.mixture / piecewise_linear but not installed here.
    The stand-in follows the public API of fast-pytorch-kmeans 0.2 (Lloyd iterations, max_sim)."""
    try:
        import fast_pytorch_kmeans  # noqa: F401

        return
    except Exception:
        pass
    import torch

    class KMeans:
        recent = []  # the latest instances, so that monitors can look at the partitions that were used

        def __init__(self, n_clusters, max_iter=100, tol=1e-4, verbose=0, mode="euclidean", init_method="random",
                     minibatch=None, **kw):
            self.n_clusters, self.max_iter, self.tol, self.verbose, self.mode = n_clusters, max_iter, tol, verbose, mode
            self.centroids = None
            KMeans.recent.append(self)
            del KMeans.recent[:-64]

        @staticmethod
        def euc_sim(a, b):
            return 2 * a @ b.transpose(-2, -1) - (a ** 2).sum(dim=1)[..., :, None] - (b ** 2).sum(dim=1)[..., None, :]

        @staticmethod
        def cos_sim(a, b):
            a = a / (a.norm(dim=-1, keepdim=True) + 1e-8)
            b = b / (b.norm(dim=-1, keepdim=True) + 1e-8)
            return a @ b.transpose(-2, -1)

        def max_sim(self, a, b):
            sim = self.cos_sim(a, b) if self.mode == "cosine" else self.euc_sim(a, b)
            return sim.max(dim=-1)

        def fit_predict(self, X, centroids=None):
            X = X.float()
            n = X.shape[0]
            if centroids is None:
                self.centroids = X[torch.randperm(n)[: self.n_clusters]].clone()
            else:
                self.centroids = centroids.clone()
            closest = None
            for _ in range(self.max_iter):
                closest = self.max_sim(X, self.centroids)[1]
                new = self.centroids.clone()
                for k in range(self.centroids.shape[0]):
                    m = closest == k
                    if m.any():
                        new[k] = X[m].mean(0)
                err = (new - self.centroids).pow(2).sum()
                self.centroids = new
                if err <= self.tol:
                    break
            return closest

        def fit(self, X, centroids=None):
            self.fit_predict(X, centroids)

        def predict(self, X):
            return self.max_sim(X.float(), self.centroids)[1]

    KMeans.__module__, KMeans.__qualname__ = "fast_pytorch_kmeans", "KMeans"  # picklable
    mod = types.ModuleType("fast_pytorch_kmeans")
    mod.KMeans = KMeans
    sys.modules["fast_pytorch_kmeans"] = mod


def setup():
    warnings.filterwarnings("ignore")
    logging.disable(logging.WARNING)
    os.environ["TQDM_DISABLE"] = "1"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(int(os.environ.get("OMP_NUM_THREADS", "2")))
    _install_kmeans_stub()
    import simple_einet

    got = os.path.realpath(os.path.dirname(simple_einet.__file__))
    want = os.path.realpath(os.path.join(REPO, "simple_einet"))
    if got != want:
        print(f"INCONCLUSIVE: simple_einet imported from {got}, expected {want}")
        sys.exit(2)
