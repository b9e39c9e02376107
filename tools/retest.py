"""Runs the check of each planted bug's property against it: retest.py [ID...]; prints what caught it."""
import os, subprocess, json, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for i in sys.argv[1:] or sorted(os.listdir(f"{V}/seeded")):
    W = f"/tmp/rt_{i}"; shutil.rmtree(W, ignore_errors=True); run(f"cp -a /repo {W}"); run("git checkout -q -- .", cwd=W)
    a = run(f"git apply {V}/seeded/{i}/patch.diff", cwd=W)
    p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]; t = time.time()
    r = run(f"python3 {V}/check.py {p}", env={**os.environ, "CHRONO_REPO": W, "CHRONO_TARGET": "/tmp/seedchk", "CHRONO_EVIDENCE": "/tmp/seedev"})
    ev = json.load(open(f"/tmp/seedev/{p}.json")) if os.path.exists(f"/tmp/seedev/{p}.json") else {}
    print(i, p, "apply", a.returncode == 0, "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED", f"{time.time()-t:.0f}s", "confirmed", len(ev.get("coverage", {}).get("confirmed_without_merging", [])), flush=True)
    if r.returncode != 1: print(r.stdout[-600:])
    shutil.rmtree(W, ignore_errors=True)
