"""Makes the planted bugs of /verif/seeded from (id, property, file, old text, new text, demo program)."""
import os, subprocess, json, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs main.rs against the crate in the current directory
R=$PWD; D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir "$D/src"; cp "$(dirname "$0")/main.rs" "$D/src/main.rs"
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2021"\\n[workspace]\\n[dependencies]\\nchronologic={path="%s"}\\n' "$R" > "$D/Cargo.toml"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$D/Cargo.lock"
cd "$D" && CARGO_TARGET_DIR="$D/target" RUSTFLAGS="-Awarnings" timeout 250 cargo run --offline -q
'''
PRE = "use chronologic::*; use chronologic::iter::*;\ntype S = TimeSet<TimeValue>; type I = TimeInterval<TimeValue>;\nfn t(x: i64) -> TimeValue { TimeValue::from_ticks(x) }\nfn iv(a: i64, b: i64) -> I { I::new(t(a), t(b)) }\nfn set(v: &[(i64, i64)]) -> S { v.iter().map(|&(a, b)| iv(a, b)).collect() }\n"
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
REFUSED = DEMO.replace("# runs main.rs against the crate in the current directory", "# main.rs, which breaks the property, must not compile against the crate in the current directory (good.rs must)").replace('''timeout 250 cargo run --offline -q
''', '''timeout 250 cargo check --offline -q && exit 1
cp "$G" "$D/src/main.rs"; CARGO_TARGET_DIR="$D/target" RUSTFLAGS="-Awarnings" timeout 250 cargo check --offline -q
''').replace('R=$PWD;', 'R=$PWD; G=$(cd "$(dirname "$0")" && pwd)/good.rs;')
def refused(id, prop, edits, bad, good, needs, breaks, pre=PRE): seed(id, prop, edits, bad, needs, breaks, pre, good)
def seed(id, prop, edits, main, needs, breaks, pre=PRE, good=None):
    only = sys.argv[1:]
    if only and id not in only and prop not in only: return
    W = f"/tmp/seedwt_{id}"; shutil.rmtree(W, ignore_errors=True)
    run(f"cp -a /repo {W}")
    run("git checkout -q -- .", cwd=W)
    for f, a, b in edits:
        s = open(f"{W}/{f}").read()
        if s.count(a) != 1: print(id, "BAD EDIT", f, s.count(a)); return
        open(f"{W}/{f}", "w").write(s.replace(a, b))
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(run("git diff", cwd=W).stdout)
    open(f"{d}/demo.sh", "w").write(REFUSED if good else DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(pre + main)
    if good: open(f"{d}/good.rs", "w").write(pre + good)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    okd = run(f"bash {d}/demo.sh", cwd="/repo"); bad = run(f"bash {d}/demo.sh", cwd=W)
    tests = run("cargo test --offline -q 2>&1 | grep -E 'test result|error' | head", cwd=W, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/seedtgt"})
    chk = run(f"python3 {V}/check.py {prop}", env={**os.environ, "CHRONO_REPO": W, "CHRONO_TARGET": f"/tmp/seedchk", "CHRONO_EVIDENCE": "/tmp/seedev"})
    caught = chk.returncode == 1 and f"VIOLATION property={prop}" in chk.stdout
    print(f"{id} {prop} demo ok={okd.returncode == 0} demo bad={bad.returncode != 0} tests={' '.join(tests.stdout.split())[:120]} check={chk.returncode} caught={caught}")
    if okd.returncode: print(okd.stderr[-600:])
    if not caught: print(chk.stdout[-400:], chk.stderr[-400:])
    shutil.rmtree(W, ignore_errors=True)
