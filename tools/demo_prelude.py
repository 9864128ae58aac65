import os, sys, types, math
sys.path.insert(0, os.getcwd())
import numpy as np
import torch

torch.set_num_threads(4)


class _KMeans:
    """Stand-in for fast_pytorch_kmeans.KMeans (not installed): plain Lloyd iterations from evenly spaced points."""

    def __init__(self, n_clusters, mode="euclidean", verbose=0, init_method=None, **kw):
        self.n_clusters, self.centroids = n_clusters, None

    def max_sim(self, a, b):
        return (-torch.cdist(a, b)).max(dim=1)

    def fit(self, X):
        self.fit_predict(X)

    def predict(self, X):
        return self.max_sim(X, self.centroids)[1]

    def fit_predict(self, X):
        order = X.sum(1).argsort()
        c = X[order[torch.linspace(0, len(X) - 1, self.n_clusters).long()]].clone()
        for _ in range(20):
            p = self.max_sim(X, c)[1]
            for k in range(self.n_clusters):
                if (p == k).any():
                    c[k] = X[p == k].mean(0)
        self.centroids = c
        return self.predict(X)


_m = types.ModuleType("fast_pytorch_kmeans")
_m.KMeans = _KMeans
sys.modules.setdefault("fast_pytorch_kmeans", _m)
