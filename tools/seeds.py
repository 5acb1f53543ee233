#!/usr/bin/env python3
"""Validate the planted bugs in /verif/seeded and run the checks on them (a development tool, no check uses it).
seeds.py valid SCRATCH [ids]          patch applies, touches original lines, builds, stable tests pass, demo 0 clean / nonzero patched
seeds.py catch SCRATCH [--all] [ids]  run the property's check (or all checks) on each patched tree
seeds.py quiet SCRATCH PATCHES      run all checks on each tree patched without a change of behaviour (tools/refactorings)
All work happens in copies below SCRATCH."""
import json, os, subprocess, sys, glob, re
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", VERIF_TIER="quick", VERIF_SEED="1")
ORIG = subprocess.run("git -C /repo log --reverse --format=%H", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
def sh(cmd, cwd="/", t=600, env=None):
    try: return subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired: return None
FIXES = set(sh("git -C /repo log --format=%h --abbrev=8 --grep='^fix:'").stdout.split())
def copy(d):
    if not os.path.exists(f"{d}/repo"):
        os.makedirs(d, exist_ok=True)
        sh(f"cp -a /repo {d}/repo; rm -rf {d}/repo/target")
def strip(d): sh(f"sed -i -E 's/, *\"xtask\"|\"xtask\" *,? *//' {d}/repo/Cargo.toml")
def clean(d): sh(f"git checkout -- . && git clean -fdq -e target", f"{d}/repo")
def stable(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(ENV, CARGO_TARGET_DIR=f"{d}/target", CARGO_BUILD_JOBS="3")
    strip(d)
    r = sh("cargo test -p justjson --lib --tests --examples --features justjson/heapless --no-fail-fast --offline -- --test-threads 2; cargo test -p justjson --doc --features justjson/heapless --offline -- --test-threads 2", f"{d}/repo", 300, env)
    sh("git checkout -- Cargo.toml", f"{d}/repo")
    if r is None: return "tests time out"
    bad = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
    if bad: return "tests fail: " + ", ".join(bad[:5])
    if "error: could not compile" in r.stdout or "error[" in r.stdout: return "no build: " + r.stdout[-600:]
    return None
def touched(s, d):
    """lines removed by the patch that a fix commit of ours wrote"""
    out = []
    f = None
    for l in open(f"/verif/seeded/{s}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = sh(f"git -C /repo blame --abbrev=7 -L{n},{n} {f}").stdout[:8]
            out.append(b in FIXES or b[:7] in {x[:7] for x in FIXES}); n += 1
        elif l.startswith(" "): n += 1
    return out
def valid(s, d):
    copy(d); clean(d)
    t = touched(s, d)
    res = []
    if t and all(t): res.append("touches only lines of our fixes")
    if not t: res.append("(adds only)")
    demo = f"/verif/seeded/{s}/demo.sh"
    r = sh(f"bash {demo}", f"{d}/repo", 300)
    if r is None or r.returncode: res.append("demo fails clean: " + (r.stdout[-800:] if r else "timeout"))
    r = sh(f"git apply /verif/seeded/{s}/patch.diff", f"{d}/repo")
    if r.returncode: clean(d); return res + ["does not apply " + r.stdout]
    e = stable(d)
    if e: res.append(e)
    r = sh(f"bash {demo}", f"{d}/repo", 300)
    if r is None: res.append("demo times out patched")
    elif r.returncode == 0: res.append("demo passes patched")
    elif "error: could not compile" in r.stdout: res.append("demo no build patched " + r.stdout[-500:])
    clean(d)
    return res
def catch_copy(d):
    copy(d)
    if not os.path.exists(f"{d}/verif"):
        sh(f"mkdir -p {d}/verif && cd /verif && git ls-files -z --cached --others --exclude-standard -- . ':!seeded' | xargs -0 tar c | tar x -C {d}/verif; sed -i 's#cd /repo#cd {d}/repo#' {d}/verif/env.sh; cp -a /verif/target {d}/verif/target")
def catch(s, d, all_):
    catch_copy(d); clean(d)
    sh(f"git apply /verif/seeded/{s}/patch.diff", f"{d}/repo")
    prop = json.load(open(f"/verif/seeded/{s}/meta.json"))["property"]
    res = []
    ids = [prop] + ([c for c in (f"C{i:02}" for i in range(1, 31)) if c != prop] if all_ else [])
    for c in ids:
        r = sh(f"./check.sh {c}", f"{d}/verif", 900)
        if r is None: res.append(f"{c}:timeout")
        elif r.returncode == 1 and f"VIOLATION property={c}" in r.stdout: res.append(c)
        elif r.returncode: res.append(f"{c}:rc{r.returncode} {r.stdout[-300:]}")
    clean(d)
    return prop, res
def quiet(p, d):
    catch_copy(d); clean(d)
    r = sh(f"git apply {os.path.abspath(p)}", f"{d}/repo")
    assert r.returncode == 0, r.stdout
    bad = []
    for c in os.environ.get("CHECKS", "").split() or sorted(x["property"] if "property" in x else x["id"] for x in json.load(open("/verif/MANIFEST.json"))["checks"]):
        r = sh(f"./check.sh {c}", f"{d}/verif", 900)
        if r is None or r.returncode: bad.append(f"{c}: " + ("timeout" if r is None else r.stdout[-600:]))
    clean(d)
    return bad
cmd, scratch, *rest = sys.argv[1:]
all_ = "--all" in rest; rest = [r for r in rest if r != "--all"]
if cmd == "quiet":
    for p in rest:
        b = quiet(p, f"{scratch}/c")
        print(p, "ALARM" if b else "QUIET", *b, flush=True)
    sys.exit()
ids = rest or sorted(os.path.basename(p) for p in glob.glob("/verif/seeded/*"))
W = 3 if cmd == "valid" else 1
def lane(w):
    for s in ids[w::W]:
        if cmd == "valid":
            r = valid(s, f"{scratch}/v{w}")
            print(s, "OK" if all(x.startswith("(") for x in r) else "BAD", *r, flush=True)
        else:
            p, r = catch(s, f"{scratch}/c", all_)
            print(s, "CAUGHT" if p in r else "MISSED", *r, flush=True)
with ThreadPoolExecutor(W) as ex: list(ex.map(lane, range(W)))
