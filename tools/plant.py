#!/usr/bin/env python3
"""Plant one bug: python3 tools/plant.py SPEC.py [ids...]

SPEC.py defines BUGS, a list of dicts: id, property, needs, what_it_breaks, edits=[(file, old, new[, count])], demo (python source).
For each bug a scratch copy of /repo gets the edits; the stable tests, the demo on the clean and on the patched tree, and
that every removed line belongs to the original repository are verified. Kept bugs are written to /verif/seeded/<id>/.
Then the property's quick check is run against the patched copy and its result printed."""
import importlib.util, json, os, re, shutil, subprocess, sys
REPO, OUT, PY = "/repo", "/verif/seeded", "/opt/venv/bin/python"
BASE = subprocess.check_output(["git", "-C", REPO, "log", "--reverse", "--format=%H"], text=True).split()[0]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_prelude.py")).read()

def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="4"); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, env=e)

def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        scratch = f"/tmp/w/plant_{b['id']}"
        shutil.rmtree(scratch, ignore_errors=True)
        sh(["cp", "-a", REPO, scratch], "/")
        try:
            plant(b, scratch)
        except Exception as ex:
            print(b["id"], "ERROR", repr(ex)[:300])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

def plant(b, scratch):
    i = b["id"]
    for ed in b["edits"]:
        f, old, new = ed[:3]; n = ed[3] if len(ed) > 3 else 1
        p = f"{scratch}/{f}"; s = open(p).read()
        c = s.count(old)
        if c != n: print(i, "EDIT-MISMATCH", f, c, repr(old)[:80]); return
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], scratch).stdout
    # removed lines must be original
    cur = None; bad = []; removed = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]; basetext = set(sh(["git", "show", f"{BASE}:{cur}"], REPO).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if l[1:] not in basetext: bad.append(l)
    if removed == 0 or bad: print(i, "NOT-ORIGINAL", removed, bad[:3])
    d = f"{OUT}/{i}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# Run with cwd = the repository; 0 = the property holds, nonzero = it is broken.\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write(PRELUDE + "\n" + b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    clean = sh(["bash", f"{d}/demo.sh"], REPO, 300); pat = sh(["bash", f"{d}/demo.sh"], scratch, 300)
    t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], scratch)
    tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
    ok = clean.returncode == 0 and pat.returncode != 0 and "52 passed" in tail and not bad and removed
    print(i, "KEEP" if ok else "REJECT", f"demo clean={clean.returncode} patched={pat.returncode} tests: {tail}", flush=True)
    if clean.returncode: print("   clean:", (clean.stdout + clean.stderr)[-400:])
    if pat.returncode == 0 or "AssertionError" not in pat.stderr: print("   patched:", (pat.stdout + pat.stderr)[-300:])
    if not ok:
        shutil.rmtree(d)
        if clean.returncode or not pat.returncode or "52 passed" not in tail: return
    for prop in [b["property"]] + b.get("also", []):
        r = sh(f"/verif/run.sh {prop} quick", "/verif", 900, {"VERIF_REPO": scratch, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print("   ", prop, "CAUGHT" if r.returncode == 1 and v else f"*** MISSED rc={r.returncode}", (v[0] if v else r.stdout[-200:] + r.stderr[-200:])[:200], flush=True)
main()
