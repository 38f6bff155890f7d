#!/usr/bin/env python3
"""Makes and validates planted bugs from definitions (tools/seeds/*.py).

  seed.py make FILE...    for each definition: patch a scratch copy of /repo, run the stable tests,
                          run the demonstration on both trees, and write /verif/seeded/<id>/
  seed.py table           rows for DESIGN.md
  seed.py try ID...       apply each bug to /repo, run its property's check, undo; print caught or missed
"""
import json, os, re, shutil, subprocess, sys

SEEDED = "/verif/seeded"
W = "/tmp/seedwork"
BASE = "65fa5f0"

PLAIN = '''#!/bin/bash
# Builds the library in the current directory and runs demo.rs against it.
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/demo-%(id)s && mkdir -p /tmp/demo-%(id)s || exit 9
rustc --edition 2021 --crate-type rlib --crate-name barcoders --cap-lints allow %(lib)s \\
  -o /tmp/demo-%(id)s/libbarcoders.rlib src/lib.rs || { rm -rf /tmp/demo-%(id)s; exit 3; }
rustc --edition 2021 --cap-lints allow %(bin)s --extern barcoders=/tmp/demo-%(id)s/libbarcoders.rlib \\
  -o /tmp/demo-%(id)s/demo "$here/demo.rs" || { rm -rf /tmp/demo-%(id)s; exit 4; }
timeout 120 /tmp/demo-%(id)s/demo
rc=$?
rm -rf /tmp/demo-%(id)s
exit $rc
'''
CARGO = '''#!/bin/bash
# Builds the library in the current directory with images and runs demo.rs against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
rm -rf /tmp/demo-%(id)s && mkdir -p /tmp/demo-%(id)s/src || exit 9
cp "$here/demo.rs" /tmp/demo-%(id)s/src/main.rs
cat > /tmp/demo-%(id)s/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
barcoders = { path = "$repo", features = ["image"] }
image = { version = "0.25", default-features = false, features = ["gif", "png", "webp"] }
T
[ -f Cargo.lock ] && cp Cargo.lock /tmp/demo-%(id)s/Cargo.lock
cd /tmp/demo-%(id)s && CARGO_TARGET_DIR=/tmp/demo-%(id)s/target timeout 280 cargo run --offline -q
rc=$?
cd /
rm -rf /tmp/demo-%(id)s
exit $rc
'''


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, env=env, timeout=timeout)


def stable(cwd):
    """the stable tests that do not pass (test.sh's own bookkeeping decides what passed)"""
    log, out = W + "/test.log", W + "/out.json"
    r = sh(". /opt/vp/env.sh; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd)
    open(log, "w").write(r.stdout)
    sh(["python3", "/opt/vp/results.py", out, "cargo:" + log], cwd)
    d = json.load(open(out))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - passed(d)), r.stdout


def passed(d):
    return set(d["passed"])


def make(defs):
    os.makedirs(W, exist_ok=True)
    repo = W + "/repo"
    if not os.path.exists(repo):
        shutil.copytree("/repo", repo, symlinks=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", repo)
    for d in defs:
        i = d["id"]
        sh("git checkout -q -- .", repo)
        bad = None
        for f, old, new in d["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: %d matches for %r" % (f, s.count(old), old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(i, "BAD", bad)
            continue
        diff = sh("git diff", repo).stdout
        # does it change lines of the original repository?
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        added_by_us = []
        for f in {e[0] for e in d["edits"]}:
            g = sh("git diff %s HEAD -- %s" % (BASE, f), repo).stdout
            added_by_us += [l[1:] for l in g.splitlines() if l.startswith("+")]
        touched = [l for l in removed if l in added_by_us and l.strip()]
        if touched:
            print(i, "NOTE touches our lines:", touched[:2])
        failed, out = stable(repo)
        if failed:
            print(i, "BAD tests", len(failed), failed[:4], out[-800:] if len(failed) > 100 else "")
            continue
        tgt = os.path.join(SEEDED, i)
        os.makedirs(tgt, exist_ok=True)
        open(tgt + "/patch.diff", "w").write(diff)
        open(tgt + "/demo.rs", "w").write(d["demo"])
        if "demosh" in d:
            script = d["demosh"] % {"id": i.lower()}
        elif d.get("image"):
            script = CARGO % {"id": i.lower()}
        else:
            feats = d.get("features", ["std", "ascii", "json", "svg"])
            script = PLAIN % {"id": i.lower(), "lib": d.get("lib", "-C debug-assertions=on ") + " ".join("--cfg 'feature=\"%s\"'" % x for x in feats), "bin": d.get("bin", "")}
        open(tgt + "/demo.sh", "w").write(script)
        os.chmod(tgt + "/demo.sh", 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(tgt + "/meta.json", "w"), indent=1)
        r1 = sh([tgt + "/demo.sh"], repo, timeout=400)
        sh("git checkout -q -- .", repo)
        r0 = sh([tgt + "/demo.sh"], repo, timeout=400)
        if r0.returncode != 0 or r1.returncode == 0:
            print(i, "BAD demo clean=%d patched=%d" % (r0.returncode, r1.returncode), r0.stdout[-1500:] if r0.returncode else "", r1.stdout[-500:] if not r1.returncode else "")
            shutil.rmtree(tgt)
            continue
        print(i, "kept")
        sys.stdout.flush()


def attempt(ids, tier="quick", props=None):
    """which bugs the checks catch; kept in tools/results.json"""
    f = "/verif/tools/results.json"
    results = json.load(open(f)) if os.path.exists(f) else {}
    for i in ids:
        prop = json.load(open("%s/%s/meta.json" % (SEEDED, i)))["property"]
        r = sh("git apply %s/%s/patch.diff" % (SEEDED, i), "/repo")
        if r.returncode:
            print(i, "does not apply", r.stdout)
            continue
        try:
            for p in props or [prop]:
                r = sh("python3 run.py check %s --tier %s" % (p, tier), "/verif")
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
                print("%-28s %s %s" % (i, p, "CAUGHT" if r.returncode == 1 and v else "missed rc=%d %s" % (r.returncode, r.stdout[-400:])))
                sys.stdout.flush()
                if p == prop and tier == "quick":
                    results[i] = "caught" if r.returncode == 1 and v else "missed"
                    json.dump({k: results[k] for k in sorted(results) if os.path.exists(SEEDED + "/" + k)}, open(f, "w"), indent=1)
        finally:
            sh("git checkout -- .", "/repo")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            ns = {}
            exec(open(f).read(), ns)
            only = os.environ.get("ONLY")
            make([d for d in ns["DEFS"] if not only or d["id"] in only.split(",")])
    elif sys.argv[1] == "table":
        # the rows of the table in DESIGN.md
        res = json.load(open("/verif/tools/results.json"))
        for i in sorted(os.listdir(SEEDED)):
            m = json.load(open("%s/%s/meta.json" % (SEEDED, i)))
            print("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["property"], res.get(i, "not tried")))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        attempt(ids)
