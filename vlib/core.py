"""Verdict machinery shared by all checks: cases, monitors' counters, violations, known findings, evidence."""
import collections
import contextlib
import hashlib
import json
import os
import random
import signal
import time
import traceback

import numpy as np
import torch

from .env import REPO, VERIF


class Violation(Exception):
    """Raised by an oracle inside a case; `mech` names the mechanism (stable across seeds)."""

    def __init__(self, mech, msg, **detail):
        super().__init__(f"[{mech}] {msg}")
        self.mech, self.msg, self.detail = mech, msg, detail


class Inconclusive(Exception):
    pass


def _jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v, depth + 1) for v in list(x)[:64]]
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist(), depth + 1) if x.size <= 200 else f"array{x.shape}"
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return f if np.isfinite(f) else repr(f)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.counters = collections.Counter()
        self.violations = []  # (mech, cid, msg, detail)
        self.incon = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.extra = {}
        self.hard_limit = 420 if tier == "quick" else 3000

    # ---- tiers ----
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- randomness ----
    def _subseed(self, cid):
        h = hashlib.sha256(f"{self.pid}|{self.seed}|{cid}".encode()).digest()
        return int.from_bytes(h[:4], "little")

    def seed_all(self, cid):
        s = self._subseed(cid)
        random.seed(s)
        np.random.seed(s % (2**32))
        torch.manual_seed(s)
        return np.random.default_rng(s)

    # ---- monitors ----
    def has(self, obj, *names):
        """Internal names a monitor uses: where a refactoring removed them, only that monitor is skipped (and counted)."""
        gone = [n for n in names if not hasattr(obj, n)]
        for n in gone:
            self.count(f"skipped_without_{n}")
        return not gone

    def count(self, name, k=1):
        self.counters[name] += k

    def seen(self, key):
        """A distinct, non-trivial observation (by the check's rule)."""
        self.keys.add(str(key))

    def tick(self, k=1):
        self.evals += k

    def run(self, cid, desc, fn, *args, **kw):
        """Run one case: fn(rng, *args). Violations and exceptions out of the code under test are recorded."""
        if self.only is not None and cid != self.only:
            return None
        if time.time() - self.t0 > self.hard_limit:
            self.counters["cases_skipped_time"] += 1
            return None
        rng = self.seed_all(cid)
        self.counters["cases"] += 1
        if len(self.samples) < 6 or (len(self.samples) < 12 and self.counters["cases"] % 17 == 0):
            self.samples.append(_jsonable({"case": cid, **(desc or {})}))
        try:
            with _clean_state(), _deadline(CASE_LIMIT):
                return fn(rng, *args, **kw)
        except Violation as v:
            self._violate(v.mech, cid, v.msg, {**(desc or {}), **v.detail})
        except Inconclusive as e:
            self.incon.append((cid, str(e)))
        except (Exception, SystemExit) as e:
            where = blame(e)
            odd = isinstance(e, AttributeError) and type(getattr(e, "obj", e)) in (int, float, bool, str, tuple, list, dict, type(None))
            if where is None and (odd or isinstance(e, (ValueError, IndexError, RuntimeError, TypeError, ZeroDivisionError,
                                                        AssertionError))) and not isinstance(e, NotImplementedError):
                # the oracle choked on what the code under test returned (shape, dtype, None ...)
                self._violate(f"malformed-result-{type(e).__name__}", cid,
                              f"result cannot be judged as specified: {type(e).__name__}: {str(e)[:300]}",
                              {**(desc or {}), "traceback": "".join(traceback.format_exception(e))[-1800:]})
            elif where is None:
                self.incon.append((cid, "harness: " + "".join(traceback.format_exception(e))[-1500:]))
            else:
                self._violate(
                    f"raises-{type(e).__name__}-in-{where}", cid, f"{type(e).__name__}: {str(e)[:300]} (in {where})",
                    {**(desc or {}), "traceback": "".join(traceback.format_exception(e))[-1800:]},
                )
        return None

    def _violate(self, mech, cid, msg, detail):
        for k in self.known:
            if k["mech"] == mech:
                self.known_hit.setdefault(mech, k)
                return
        self.violations.append((mech, cid, msg, detail))

    def elapsed(self):
        return time.time() - self.t0

    # ---- finish ----
    def finish(self, level, rule, min_evals=1, min_distinct=2, assumptions=()):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "evaluations": int(self.evals),
                "distinct_nontrivial": len(self.keys),
                "rule": rule,
                "samples": self.samples[:12],
                "monitor_counters": {k: int(v) for k, v in sorted(self.counters.items())},
                **self.extra,
            },
            "assumptions": list(assumptions),
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        if self.only is None:
            with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
                json.dump(ev, f, indent=1)
        for mech, k in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {k['text']}")
        if self.violations:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            seen = collections.OrderedDict()
            for v in self.violations:
                seen.setdefault(v[0], v)
            for i, (mech, cid, msg, detail) in enumerate(list(seen.values())[:10]):
                tag = hashlib.sha1(f"{mech}{cid}{self.seed}".encode()).hexdigest()[:10]
                path = os.path.join(rdir, f"{self.pid}-{tag}.json")
                with open(path, "w") as f:
                    json.dump(
                        _jsonable({"property": self.pid, "tier": self.tier, "seed": self.seed, "case": cid,
                                   "mechanism": mech, "message": msg, "detail": detail,
                                   "replay_cmd": f"./run.sh {self.pid} {self.tier} --replay {path}"}), f, indent=1)
                print(f"  {mech}: {msg[:400]} (case {cid})")
                print(f"VIOLATION property={self.pid} replay={path}")
            print(f"{self.pid}: {len(self.violations)} violating cases, {len(seen)} mechanisms, {wall:.1f}s")
            return 1
        if self.incon:
            for cid, m in self.incon[:5]:
                print(f"  inconclusive case {cid}: {m}")
            print(f"INCONCLUSIVE property={self.pid}: {len(self.incon)} cases gave no answer")
            return 2
        if self.only is None and (self.evals < min_evals or len(self.keys) < min_distinct):
            print(f"INCONCLUSIVE property={self.pid}: observed only {self.evals} evaluations / {len(self.keys)} distinct")
            return 2
        print(f"HELD property={self.pid} tier={self.tier} seed={self.seed}: {self.evals} evaluations, "
              f"{len(self.keys)} distinct, {self.counters['cases']} cases, {wall:.1f}s")
        return 0


CASE_LIMIT = 250  # seconds; cases take at most a few seconds


@contextlib.contextmanager
def _deadline(seconds):
    """A case that does not come back at all (an endless resampling loop) is a violation, not a silent timeout."""

    def onalarm(*_):
        raise Violation("does-not-terminate", f"no answer within {seconds} s (cases take seconds)")

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def _clean_state():
    """Restore process-wide torch state a case (or the code under test) may have left changed."""
    g = torch.is_grad_enabled()
    dt = torch.get_default_dtype()
    try:
        yield
    finally:
        torch.set_grad_enabled(g)
        torch.set_default_dtype(dt)


def blame(e):
    """Deepest frame of the traceback that is in the code under test, or None when only harness frames are
    between the raise and us (then the harness is at fault)."""
    frames = traceback.extract_tb(e.__traceback__)
    root = os.path.realpath(REPO) + os.sep
    where = None
    for fr in frames:
        fn = os.path.realpath(fr.filename)
        if fn.startswith(root):
            where = f"{os.path.relpath(fn, root)}:{fr.name}"
        elif fn.startswith(os.path.realpath(VERIF) + os.sep):
            where = None if "vlib" in fn else where
    return where


def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                parts = line[len("finding: "):].split(" ", 2)
                if parts[0] == f"property={pid}" and parts[1].startswith("mechanism="):
                    out.append({"mech": parts[1][len("mechanism="):], "text": parts[1] + " " + parts[2]})
    return out


def expect(cond, mech, msg, **detail):
    if not cond:
        raise Violation(mech, msg, **detail)


def close(a, b, atol=1e-4, rtol=1e-4):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    ok |= (a == b)
    ok |= np.isnan(a) & np.isnan(b)
    return bool(ok.all())


def maxdiff(a, b):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    with np.errstate(invalid="ignore"):
        d = np.abs(a - b)
    if np.isnan(d).any():
        return "nan"
    return float(d.max()) if d.size else 0.0
