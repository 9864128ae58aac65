"""Fault injection at torch operations: a TorchFunctionMode raises at the k-th torch call of a query."""
import torch
from torch.overrides import TorchFunctionMode


class InjectedFault(RuntimeError):
    pass


class FaultMode(TorchFunctionMode):
    """Counts torch calls; raises InjectedFault at call number `at` (once)."""

    def __init__(self, at=None):
        super().__init__()
        self.at, self.count, self.fired, self.names = at, 0, None, []

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", str(func))
        if name in ("get_rng_state", "set_rng_state", "manual_seed", "initial_seed", "_set_grad_enabled",
                    "set_grad_enabled"):
            return func(*args, **(kwargs or {}))
        self.count += 1
        if self.at is not None and self.count == self.at and self.fired is None:
            self.fired = name
            raise InjectedFault(f"injected at torch call {self.count} ({name})")
        return func(*args, **(kwargs or {}))


def count_ops(fn):
    m = FaultMode()
    with m:
        fn()
    return m.count


def inject(fn, at):
    """Run fn with a fault at call `at`. Returns (fired op name or None, exception or None, result)."""
    m = FaultMode(at)
    try:
        with m:
            r = fn()
        return m.fired, None, r
    except InjectedFault as e:
        return m.fired, e, None


def positions(rng, total, budget):
    if total <= budget:
        return list(range(1, total + 1))
    pos = set(int(i) for i in rng.choice(total, size=budget, replace=False) + 1)
    pos |= {1, total, total - 1}
    return sorted(pos)


def stored_tensors(model, skip=("_leaf_cache",)):
    """All tensors reachable from the modules' attributes: path -> (shape, dtype)."""
    out = {}

    def walk(o, path, depth):
        if isinstance(o, torch.Tensor):
            out[path] = (tuple(o.shape), str(o.dtype))
        elif depth > 4:
            return
        elif isinstance(o, dict):
            for k, v in o.items():
                walk(v, f"{path}.{k}", depth + 1)
        elif isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                walk(v, f"{path}.{i}", depth + 1)

    for name, mod in model.named_modules():
        for k, v in mod.__dict__.items():
            if k in skip or k == "_modules":
                continue
            walk(v, f"{name}.{k}", 0)
    return out
