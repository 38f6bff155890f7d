"""C19: the crate in every choice of features, in debug and release profiles."""
import concurrent.futures as cf
import glob
import itertools
import json
import os
import re
import shutil
import subprocess
import time



import run as R

FEATURES = ["std", "ascii", "json", "svg", "image"]


def combos():
    for n in range(len(FEATURES), -1, -1):
        for c in itertools.combinations(FEATURES, n):
            yield list(c)


def corpus(features, profile, target, run, n, many, seed):
    """Builds and runs the corpus program.  Returns (result, answers)."""
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--bin", "corpus", "--no-default-features", "-j", "3"]
    if features:
        cmd += ["--features", ",".join(features)]
    if profile == "release":
        cmd.append("--release")
    r = subprocess.run(cmd, env=env, cwd=R.HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(os.path.join(run, "cargo.log"), "a") as f:
        f.write(" ".join(cmd) + "\n" + r.stdout + "\n")
    if r.returncode != 0:
        return "does not build", r.stdout
    out = os.path.join(run, "answers-%s-%s.txt" % ("+".join(features) or "none", profile))
    exe = exe_of(run, features, profile)
    shutil.copy2(os.path.join(target, "release" if profile == "release" else "debug", "corpus"), exe)
    rc = R.harness(exe, [out, "--seed", str(seed), "--n", str(n), "--many", str(many)], run, timeout=3000 if n > 1000 else 600)
    if rc != 0:
        return "died", "exit code %d" % rc
    return "ok", out


def exe_of(run, features, profile):
    return os.path.join(run, "corpus-%s-%s" % ("+".join(features) or "none", profile))


def lines_of(path):
    a = {}
    with open(path, errors="replace") as f:
        for l in f:
            k, _, v = l.rstrip("\n").partition("\t")
            a[k] = v
    os.remove(path)
    return a


def open_blocks(run, names, blocks, n, many, seed):
    """The single answers behind sums that differ."""
    found = {}
    for c, p in names:
        out = os.path.join(run, "open.txt")
        rc = R.harness(exe_of(run, c, p), [out, "--seed", str(seed), "--n", str(n), "--many", str(many), "--open", ",".join(blocks)], run, timeout=600)
        if rc == 0:
            found[("+".join(c) or "none") + " " + p] = lines_of(out)
    return found


def manifest(key, default):
    with open(os.path.join(R.REPO, "Cargo.toml")) as f:
        m = re.search(r'^%s\s*=\s*"([^"]+)"' % key, f.read(), re.M)
    return m.group(1) if m else default


def bare_sysroot(run):
    """A sysroot with nothing but core, alloc and compiler_builtins, as on a target without std."""
    root = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    host = re.search(r"host: (\S+)", subprocess.run(["rustc", "-vV"], stdout=subprocess.PIPE, text=True).stdout).group(1)
    mine = os.path.join(run, "bare")
    lib = os.path.join(mine, "lib", "rustlib", host, "lib")
    os.makedirs(lib)
    for k in ("core", "alloc", "compiler_builtins"):
        for f in glob.glob(os.path.join(root, "lib", "rustlib", host, "lib", "lib%s-*" % k)):
            os.symlink(f, os.path.join(lib, os.path.basename(f)))
    return mine


def bare_build(features, mine, run):
    cmd = ["rustc", "--edition", manifest("edition", "2021"), "--crate-type", "rlib", "--crate-name", "barcoders",
           "--sysroot", mine, "--out-dir", os.path.join(run, "bare-out-" + ("+".join(features) or "none")), "--cap-lints", "allow"]
    for f in features:
        cmd += ["--cfg", 'feature="%s"' % f]
    cmd.append(os.path.join(R.REPO, "src", "lib.rs"))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=run)
    return r.returncode == 0, r.stdout


def kind(key):
    k = key.split(" ", 1)[0]
    return k if k in ("ascii", "json", "svg") else "image" if k in ("png", "gif", "webp", "buffer") else "barcode"


def check(run, deep, seed, info, tot, known):
    n, many = (3000, 60_000) if deep else (300, 4000)
    dev = [(c, "dev") for c in combos()]
    full = FEATURES
    rel = [(c, "release") for c in combos()]
    # image builds share their dependencies, so they go one after another in one target directory
    lanes = {}
    for c, p in dev + rel:
        lanes.setdefault((p, "image" in c, "std" in c), []).append((c, p))

    def lane(item):
        (p, image, std), todo = item
        target = os.path.join(R.BUILD, "builds", "%s-%s-%s" % (p, image, std))
        return [(c, p) + corpus(c, p, target, run, n, many, seed) for c, p in todo]

    t = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        built = [b for bs in ex.map(lane, lanes.items()) for b in bs]
    info["builds"] = len(built)
    info["build_and_run_s"] = round(time.time() - t, 1)
    first = [b for b in built if b[0] == full and b[1] == "dev"][0]
    if first[2] == "does not build" and all(b[2] == "does not build" for b in built if b[0] == full):
        raise R.Broken("the full build does not compile:\n" + first[3][-3000:])

    # without std, also with nothing but core and alloc to be found
    mine = bare_sysroot(run)
    probe = os.path.join(run, "probe.rs")
    with open(probe, "w") as f:
        f.write("#![no_std]\nextern crate alloc;\npub fn f() -> alloc::vec::Vec<u8> { alloc::vec![1] }\n")
    usable = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--sysroot", mine, "--out-dir", run, probe],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=run).returncode == 0
    bare = {}
    if usable:
        with cf.ThreadPoolExecutor(4) as ex:
            todo = [c for c in combos() if "std" not in c and "image" not in c]
            for c, (ok, msg) in zip(todo, ex.map(lambda c: bare_build(c, mine, run), todo)):
                bare[tuple(c)] = "ok" if ok else "does not build: " + msg[-1500:]
    info["core_and_alloc_only_builds"] = len(bare)
    info["core_and_alloc_only_sysroot"] = usable

    # what each build says
    answers, keys = {}, {}
    for c, p, res, out in built:
        name = ("+".join(c) or "none") + " " + p
        a = lines_of(out) if res == "ok" else {}
        answers[name] = (c, a)
        for k in a:
            keys.setdefault(k, None)
    # sums that differ are laid open
    sums = {}
    for c, a in answers.values():
        for k, v in a.items():
            if " block " in k:
                sums.setdefault(k, set()).add(v)
    info["summed_up"] = sum(int(min(v).split()[0]) for v in sums.values())
    differing = sorted(k for k, v in sums.items() if len(v) > 1)
    if differing:
        names = [(c, p) for c, p, res, _ in built if res == "ok"]
        for name, a in open_blocks(run, names, differing[:12], n, many, seed).items():
            answers[name][1].update(a)
            for k in a:
                keys.setdefault(k, None)
    info["questions"] = len(keys)
    info["answers"] = sum(len(a) for _, a in answers.values())

    lines = []
    ev = []
    for c, p, res, out in built:
        name = ("+".join(c) or "none") + " " + p
        offers = sorted({kind(k) for k in answers[name][1]})
        b = bare.get(tuple(c), "not tried") if p == "dev" else "not tried"
        ev.append({"op": "build", "features": c, "profile": p, "res": res, "offers": offers, "bare": b})
        if res != "ok":
            R.say("%s: %s\n%s" % (name, res, out[-1500:]))
    ev.append({"op": "builds", "made": [c for c, p, _, _ in built if p == "dev"]})
    for k, e in enumerate(ev):
        lines.append({"sid": k, "ev": [e]})
    # every question: the different answers; and a sample of them in full
    asked = sorted(keys)
    pick = set(asked[:: max(1, len(asked) // (2000 if deep else 500))])
    offering = {}
    for c, a in answers.values():
        if not a:
            continue
        ks = {kind(k) for k in a}
        for x in ks:
            offering.setdefault(x, []).append(a)
    chunk = []
    for k in asked:
        vals, missing = {}, 0
        for a in offering.get(kind(k), []):
            if k in a:
                vals.setdefault(a[k], 0)
                vals[a[k]] += 1
            else:
                missing += 1
        chunk.append({"op": "all", "key": k[:300], "vals": sorted(vals), "missing": missing})
        if len(chunk) == 200:
            lines.append({"sid": len(lines), "ev": chunk})
            chunk = []
    if chunk:
        lines.append({"sid": len(lines), "ev": chunk})
    chunk = []
    for k in sorted(pick):
        for name, (c, a) in answers.items():
            if k in a:
                chunk.append({"op": "firm", "key": k[:300], "val": a[k], "build": name})
        if len(chunk) > 300:
            lines.append({"sid": len(lines), "ev": chunk})
            chunk = []
    if chunk:
        lines.append({"sid": len(lines), "ev": chunk})
    lines = [json.dumps(l) + "\n" for l in lines]
    ok, st, tr = R.expect_all(run, "C19", "trace", lines, known)
    tot["traces"] += ok
    tot["states"] += st
    tot["transitions"] += tr
    info["samples"].append({"question": asked[0], "answer": answers["+".join(FEATURES) + " dev"][1].get(asked[0])})
    shutil.rmtree(os.path.join(run, "bare"), ignore_errors=True)
