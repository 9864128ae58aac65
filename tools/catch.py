#!/usr/bin/env python3
"""Run the quick check of the broken property against every planted bug: tools/catch.py [-j N] [-t tier] [-s seed] [ids...]"""
import argparse, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("-t", default="quick")
ap.add_argument("-s", default="1")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ROOT = "/verif/seeded"


def one(i):
    prop = json.load(open(f"{ROOT}/{i}/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="catch_", dir="/tmp/w")
    r = f"{d}/r"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", f"{ROOT}/{i}/patch.diff"], check=True)
        env = dict(os.environ, VERIF_REPO=r, VERIF_SEED=a.s, VERIF_EVIDENCE_DIR=d)
        p = subprocess.run(["./run.sh", prop, a.t], cwd="/verif", capture_output=True, text=True, env=env)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        return i, p.returncode, len(v), (p.stdout.strip().splitlines() or [p.stderr[-200:]])[-1][:160]
    finally:
        shutil.rmtree(d, ignore_errors=True)


os.makedirs("/tmp/w", exist_ok=True)
with ThreadPoolExecutor(a.j) as ex:
    missed = 0
    F = "/verif/tools/catches.json"
    rec = json.load(open(F)) if os.path.exists(F) else {}
    for i, rc, n, last in ex.map(one, a.ids or sorted(os.listdir(ROOT))):
        ok = rc == 1 and n
        missed += not ok
        rec[i] = "caught" if ok else "missed"
        print("CAUGHT" if ok else "MISSED", i, rc, n, last, flush=True)
print("missed", missed)
if a.t == "quick" and a.s == "1":
    json.dump({k: v for k, v in sorted(rec.items()) if os.path.isdir(f"{ROOT}/{k}")}, open(F, "w"), indent=1)
