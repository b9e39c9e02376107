#!/usr/bin/env python3
"""check.py ID | --setup | --list : decide one property from /repo's current source (static analysis; nothing of the crate is run)."""
import json, os, subprocess, sys, time, glob, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CHRONO_REPO", "/repo")
EVD = os.environ.get("CHRONO_EVIDENCE", f"{V}/evidence")
TOOL = f"{V}/target/tool/release/chronoscan"
T0 = time.time()

def sh(cmd, env=None, cwd=V, timeout=1700):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def die(msg):
    print("ERROR:", msg); sys.exit(2)
def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()

def build_tool():
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", f"{V}/target/tool"], cwd=f"{V}/tool")
    if r.returncode: die("the analyser does not build\n" + r.stdout[-3000:])

FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Cdebug-assertions=on -Coverflow-checks=on --cap-lints=allow"
def build_repo(features=()):
    """type-checks /repo's working tree and keeps the MIR of every function; returns (metadata file, library dirs)"""
    tgt = os.environ.get("CHRONO_TARGET", f"{V}/target/repo")
    env = {"RUSTFLAGS": FLAGS, "CARGO_INCREMENTAL": "0"}
    sh(["cargo", "+nightly", "clean", "--offline", "-p", "chronologic", "--target-dir", tgt], env, REPO)
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=json", "--target-dir", tgt]
    if features: cmd += ["--features", ",".join(features)]
    e = dict(os.environ); e.update(env)
    r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    meta, dirs, fresh, chrono = None, set(), None, None
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-artifact": continue
        for f in m["filenames"]:
            if f.endswith((".rmeta", ".so", ".rlib")): dirs.add(os.path.dirname(f))
        if m["target"]["name"] == "chronologic" and "lib" in m["target"]["kind"]:
            meta = next((f for f in m["filenames"] if f.endswith(".rmeta")), None); fresh = m["fresh"]
        if m["target"]["name"] == "chrono": chrono = next((f for f in m["filenames"] if f.endswith(".rmeta")), None)
    if r.returncode or not meta: die("/repo does not build\n" + r.stderr[-3000:])
    if fresh: die("/repo was not rebuilt")
    if not chrono: die("the chrono dependency was not found")
    return meta, [chrono] + sorted(dirs)

def driver(sys_, meta, dirs, env, out=None):
    fd, o = tempfile.mkstemp(suffix=".rmeta"); os.close(fd)
    cmd = [TOOL, "src/lib.rs", "--sysroot", sys_, "--edition", "2021", "--crate-type", "lib", "--crate-name", "spec", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment,-CheckNull",
           "-Cdebug-assertions=on", "-Coverflow-checks=on", "--cap-lints", "allow", "--extern", f"chronologic={meta}", "--emit=metadata", "-o", o]
    cmd += ["--extern", "chrono=" + dirs[0]]
    for d in dirs[1:]: cmd += ["-L", "dependency=" + d]
    env = dict(env); env["LD_LIBRARY_PATH"] = sys_ + "/lib"
    try: return sh(cmd, env, f"{V}/spec")
    finally:
        if os.path.exists(o): os.unlink(o)

def surface(prop, title, tier, seed):
    """C26: rules over everything code outside the crate can name, and programs that must not compile next to twins that must"""
    sys_ = sysroot(); meta, dirs = build_repo()
    tmp = tempfile.mkdtemp(prefix="chrono")
    L = [x for d in dirs[1:] for x in ("-L", "dependency=" + d)]
    try:
        open(f"{tmp}/empty.rs", "w").write("extern crate chronologic;\n")
        r = sh([TOOL, f"{tmp}/empty.rs", "--sysroot", sys_, "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "-o", f"{tmp}/w.rmeta", "--extern", f"chronologic={meta}"] + L,
               {"CHRONO_AUDIT": "1", "LD_LIBRARY_PATH": sys_ + "/lib"})
        m = re.search(r"^AUDIT (\{.*\})$", r.stdout, re.M)
        if not m: die("the public surface could not be read\n" + r.stdout[-2000:])
        a = json.loads(m.group(1))
        if "error" in a or len(a["functions"]) < 200: die("the public surface could not be read")
        events = [{"key": f"surface | {b['msg']} | {b['item']}", "msg": b["msg"], "where": f"{b['item']} ({b['loc']})"} for b in a["bad"]]
        def compiles(f, bad):
            o = f"{tmp}/{os.path.basename(f)}.{bad}.rmeta"
            r = sh(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", f, "--emit=metadata", "-o", o, "--cap-lints=allow", "--extern", f"chronologic={meta}"] + (["--cfg", "bad"] if bad else []) + L)
            return r.returncode == 0, sorted(set(re.findall(r"error\[(E\d+)\]", r.stdout)))
        files = sorted(glob.glob(f"{V}/witness/*.rs"))
        if len(files) < 30: die("the witness programs are missing")
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda f: (f, compiles(f, False), compiles(f, True)), files))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    undecided, wit = [], {}
    for f, good, bad in res:
        n = os.path.basename(f)[:-3]; what = open(f).readline()[3:].strip()
        wit[n] = bad[1]
        if not good[0]: undecided.append(f"{n}: the twin does not compile any more ({', '.join(good[1])})")
        elif bad[0]: events.append({"key": f"witness | {what} | {n}", "msg": f"{what}: a program that breaks this compiles", "where": f"witness/{n}.rs"})
    kn = known(prop)
    viol = [e for e in events if e["key"] not in kn]; found = [e for e in events if e["key"] in kn]
    os.makedirs(EVD, exist_ok=True)
    rep = f"evidence/{prop}.report.txt"
    with open(f"{V}/{rep}", "w") as f:
        for e in viol + found: f.write(f"{prop}: {e['msg']}\n  at: {e['where']}\n\n")
    cov = {"explanation": "Every type of the crate and every function, trait implementation and associated type that code outside it can reach was read from the compiler's metadata of the current tree, and each witness program was type-checked and borrow-checked against it.",
           "rule": "no field is visible outside the crate or changes through a shared reference; no safe function, closure bound or associated type of the surface hands out a mutable reference to a value of the crate; no safe function is named unchecked; each witness program is rejected while its twin, which differs by the marked lines only, is accepted",
           "surface": a["seen"], "functions_analysed": a["functions"], "witnesses": wit, "undecided": undecided, "known_findings": [e["key"] for e in found]}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "violations": len(viol), "wall_s": round(time.time() - T0, 2),
               "assumptions": ["rustc's privacy, type and borrow checking", "a value of the crate changes only through a visible field, a mutable reference, a cell, or its own functions"]}, open(f"{EVD}/{prop}.json", "w"), indent=1)
    print(f"{prop} {title}: {len(a['functions'])} functions, {a['seen'].get('types', 0)} types, {len(files)} witness programs, {time.time()-T0:.1f}s")
    for e in found: print(f"KNOWN-FINDING: property={prop} {kn[e['key']]}")
    for u in undecided: print(f"UNDECIDED property={prop} {u}")
    for e in viol: print(f"  {e['msg']} -- {e['where']}")
    if viol:
        print(f"VIOLATION property={prop} replay={rep}"); return 1
    return 0

def known(prop):
    k = {}
    p = f"{V}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: k[m.group(2)] = m.group(3)
    return k

def main():
    if len(sys.argv) < 2: die("usage")
    if sys.argv[1] == "--setup":
        build_tool(); build_repo(); print("ready"); return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    title = next((json.loads(l)["title"] for l in open(f"{V}/properties.jsonl") if json.loads(l)["id"] == prop), None)
    if title is None: die("unknown property " + prop)
    build_tool()
    if prop == "C26": return surface(prop, title, tier, seed)
    sys_ = sysroot()
    meta, dirs = build_repo()
    pre = prop.lower() + "_"
    r = driver(sys_, meta, dirs, {"CHRONO_ROOTS": pre, "CHRONO_LIST": "1"})
    roots = re.findall(r"^root (\S+)$", r.stdout, re.M)
    if r.returncode or not roots: die("the specification does not type-check against the crate\n" + r.stdout[-3000:])
    floors = json.load(open(f"{V}/floors.json")).get(prop, {})
    if len(roots) < floors.get("roots", 1): die(f"{len(roots)} entry points, expected {floors.get('roots')}")
    tmp = tempfile.mkdtemp(prefix="chrono")
    # entry points named *_deep* are only analysed in the thorough tier
    if tier == "quick": roots = [r for r in roots if "_deep" not in r]
    def one(root):
        # the whole run stays below its time limit even when a changed program is much costlier to analyse
        secs = str(int(max(20, min(250, 700 - (time.time() - T0))))) if tier == "quick" else "3000"
        o = f"{tmp}/{root}.json"
        # exact name: the driver selects by prefix
        r = driver(sys_, meta, dirs, {"CHRONO_ROOTS": root, "CHRONO_EXACT": "1", "CHRONO_OUT": o, "CHRONO_QUIET": "1", "CHRONO_SECS": secs})
        if not os.path.exists(o): return root, None, r.stdout[-2000:]
        return root, json.load(open(o))["roots"], ""
    confirmed, stop = {}, []
    def confirm(root):
        # a report that rests on merged states is looked for again with no merging, on lists of at most three elements
        secs = int(max(20, min(150, 860 - (time.time() - T0))))
        if stop: return
        o = f"{tmp}/{root}.bounded.json"
        driver(sys_, meta, dirs, {"CHRONO_ROOTS": root, "CHRONO_EXACT": "1", "CHRONO_OUT": o, "CHRONO_QUIET": "1", "CHRONO_BOUNDED": "3", "CHRONO_SECS": str(secs)})
        if os.path.exists(o):
            for q in json.load(open(o))["roots"]: confirmed.setdefault(root, []).extend(e for e in q["events"] if not e["approx"])
        if confirmed.get(root) and any(e["key"] not in known(prop) for e in confirmed[root]): stop.append(root)
    try:
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, roots))
        exact = [e for _, rs, _ in res for q in rs or [] for e in q["events"] if not e["approx"]]
        # ... and so is an entry point the analysis could not finish
        merged = sorted({e["key"].split(" | ")[0] for e in exact if e["lossy"]}) + [r for r, rs, _ in res if rs is None or any(e["approx"] for q in rs for e in q["events"])]
        merged = list(dict.fromkeys(merged))
        if merged and not any(not e["lossy"] and e["key"] not in known(prop) for e in exact):
            with ThreadPoolExecutor(8) as ex: list(ex.map(confirm, merged))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    events, undecided, fns, checks, nstates, nsteps, nheads, nfin, npan, havocs, widen = [], [], set(), {}, 0, 0, 0, 0, 0, {}, 0
    for root, rs, err in res:
        if not rs: undecided.append({"key": f"{root} | analyser failed", "msg": "analyser failed", "approx": err[-400:], "func": "", "fnloc": "", "loc": "", "trace": []}); continue
        for q in rs:
            nstates += q["states"]; nsteps += q["steps"]; nheads += q["heads"]; nfin += q["finished"]; npan += q["panic_paths"]; widen += q["widenings"]
            fns.update(q["functions"])
            for k, v in q["checks"].items(): checks[k] = checks.get(k, 0) + v
            for k, v in q["havocs"].items(): havocs[k] = havocs.get(k, 0) + v
            for e in q["events"]:
                if e["lossy"] and not e["approx"]: e["approx"] = "rests on merged states and " + ("another entry point was confirmed first" if stop else "was not found again on lists of at most three elements")
                (undecided if e["approx"] else events).append(e)
            if q["finished"] == 0 and not q["events"]: undecided.append({"key": f"{root} | vacuous: no execution reaches the end", "msg": "vacuous", "approx": "vacuous", "func": "", "fnloc": "", "loc": "", "trace": []})
    for es in confirmed.values(): events += es
    kn = known(prop)
    viol = [e for e in events if e["key"] not in kn]
    found = [e for e in events if e["key"] in kn]
    obligations = sorted(checks)
    bad = {e["key"] for e in events} | {e["key"] for e in undecided}
    os.makedirs(EVD, exist_ok=True)
    rep = f"evidence/{prop}.report.txt"
    with open(f"{V}/{rep}", "w") as f:
        for kind, es in (("VIOLATION", viol), ("KNOWN", found), ("UNDECIDED", undecided)):
            for e in es:
                f.write(f"{kind} {prop}: {e['msg']}\n  entry point: {e['key'].split(' | ')[0]}\n  function: {e['func']} ({e['fnloc']})\n  at: {e['loc']}\n")
                if e["approx"]: f.write(f"  not decided because: {e['approx']}\n")
                for t in e["trace"]: f.write(f"    via {t}\n")
                f.write("\n")
    cov = {"explanation": "Abstract interpretation of the MIR of the current tree: every path of the entry points below is covered for all inputs (relational numeric domain, summarised sequences, joins and widening at loop heads). An obligation is one assertion of the specification, or one built-in condition (no panic, no overflow, no access out of bounds) in one entry point.",
           "rule": "each obligation must hold in every abstract state that reaches it",
           "entry_points": len(roots), "obligations": len(obligations) + len(roots), "discharged": len(obligations) + len(roots) - len(bad),
           "abstract_states": nstates, "transfer_steps": nsteps, "loop_head_states": nheads, "widenings": widen, "paths_to_end": nfin, "paths_to_allowed_panic": npan,
           "functions_analysed": sorted(fns), "assertions_evaluated": sum(checks.values()), "approximated": havocs,
           "confirmed_without_merging": sorted(confirmed), "undecided": [e["key"] + " :: " + str(e["approx"])[:200] for e in undecided], "known_findings": [e["key"] for e in found],
           "samples": obligations[:12]}
    miss = [a for a in floors.get("functions", []) if not any(a in f for f in fns)]
    if len(fns) < floors.get("min_functions", 0): miss.append(f"only {len(fns)} functions analysed, expected {floors['min_functions']}")
    cov["missing_anchors"] = miss
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "violations": len(viol), "wall_s": round(time.time() - T0, 2),
               "assumptions": ["the analyser (tool/), its library summaries (spec/src/stubs.rs, tool/src/models.rs) and the specification (spec/)", "rustc's type checking and MIR construction", "allocation succeeds; sequences hold fewer than 2^58 elements"]},
              open(f"{EVD}/{prop}.json", "w"), indent=1)
    print(f"{prop} {title}: {len(roots)} entry points, {len(fns)} functions of the crate, {len(obligations)} assertions, {nstates} abstract states, {nfin} paths, {time.time()-T0:.1f}s")
    for e in found: print(f"KNOWN-FINDING: property={prop} {kn[e['key']]}")
    for e in undecided: print(f"UNDECIDED property={prop} {e['key']} :: {str(e['approx'])[:160]}")
    for e in viol: print(f"  {e['msg']} -- entry point {e['key'].split(' | ')[0]}; in {e['func'] or '?'} ({e['fnloc']}); at {e['loc']}")
    if viol:
        print(f"VIOLATION property={prop} replay={rep}"); return 1
    if miss and not undecided: die("missing anchors: " + "; ".join(miss))
    if not any(True for _, rs, _ in res if rs): die("nothing could be analysed")
    return 0
if __name__ == "__main__": sys.exit(main())
