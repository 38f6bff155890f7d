#!/usr/bin/env python3
"""Small changes to barcoders, made by the hundred, that its own tests let pass: do the checks see them?

  mutants.py survivors OUT.json [--workers N] [--scratch DIR]
      makes every change below in copies of /repo and keeps those that compile and pass the tests
  mutants.py hunt IN.json OUT.json
      applies each to /repo (which must be clean) and runs the checks it concerns until one reports it
Not a check: a measure of the checks (see DESIGN.md, section 7)."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf, queue, random

REPO = "/repo"
CONCERNS = {
    "sym/ean13.rs": "C02 C01 C21 C20 C12", "sym/ean8.rs": "C02 C01 C21", "sym/upca.rs": "C02 C01 C21",
    "sym/ean_supp.rs": "C03 C21", "sym/code39.rs": "C04 C12", "sym/code93.rs": "C05 C12", "sym/code11.rs": "C06 C12",
    "sym/codabar.rs": "C07 C12", "sym/tf.rs": "C08 C09 C12", "sym/code128.rs": "C11 C10 C21", "sym.rs": "C12 C01 C03",
    "sym/helpers.rs": "C01 C08 C02", "generators/ascii.rs": "C13 C22", "generators/json.rs": "C14 C22",
    "generators/svg.rs": "C15 C22", "generators/image.rs": "C16 C17 C22", "error.rs": "", "lib.rs": "", "generators.rs": "C19",
}

def code(path):
    t = open(path).read()
    i = t.find("#[cfg(test)]")
    return t if i < 0 else t[:i]

def mutants():
    out, rng = [], random.Random(7)
    for f in CONCERNS:
        path = f"{REPO}/src/{f}"
        t = code(path)
        pos = 0
        for line in t.splitlines(keepends=True):
            bare = line.split("//")[0]
            start, pos = pos, pos + len(line)
            s = bare.strip()
            if not s or s.startswith(("#", "use ", "mod ", "pub mod", "///", "//!", "*")):
                continue
            cands = []
            table = len(re.findall(r"\d\s*,", bare)) >= 5
            if table:
                for m in re.finditer(r"\b[01]\b", bare):
                    cands.append((m.start(), m.end(), "1" if m.group() == "0" else "0"))
                cands = rng.sample(cands, min(1, len(cands)))
            else:
                for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w'\"])", bare):
                    n = int(m.group(1))
                    for v in {n + 1, max(n - 1, 0), 2 * n} - {n}:
                        cands.append((m.start(1), m.end(1), str(v)))
                for a, bs in [(" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= ", " < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
                              (" && ", [" || "]), (" || ", [" && "]), (" + ", [" - ", " * "]), (" - ", [" + "]), (" * ", [" + "]), (" % ", [" / "]),
                              (" += ", [" -= ", " = "]), (" -= ", [" += "]), ("..=", [".."]), ("true", ["false"]), ("false", ["true"]), (".rev()", [""]),
                              (".is_ok()", [".is_err()"]), (".is_some()", [".is_none()"]), ("Some(", []), ("None => ", []), (".any(", [".all("]), (".all(", [".any("]),
                              (".find(", []), (".push(", []), ("as u32", ["as u8 as u32"]), ("as usize", ["as u8 as usize"]), ("usize", []),
                              (".zip(", []), (".skip(1)", [""]), (".pop()", [""]), (".last()", [".first()"]), (".first()", [".last()"]), (".chars()", [".chars().rev()"]),
                              ("foreground", ["background"]), ("background", ["foreground"]), ("width", ["height"]), ("height", ["width", "xdim"]), ("xdim", ["height"]),
                              ("Ninety", ["TwoSeventy"]), ("TwoSeventy", ["OneEighty"]), ("rotate90", ["rotate270"]), ("rotate180", ["rotate90"]),
                              ("Gif", ["Png"]), ("Png", ["Gif"]), ("WebP", ["Png"]),
                              ("Length", ["Character"]), ("Character", ["Length"]), ("Checksum", ["Character"]), ("Generate", ["Length"])]:
                    for m in re.finditer(re.escape(a), bare):
                        for b in bs:
                            cands.append((m.start(), m.end(), b))
                for m in re.finditer(r"'(.)'", bare):
                    c = m.group(1)
                    cands.append((m.start(1), m.end(1), chr(ord(c) + 1) if c not in "&[~'" else "!"))
                for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', bare):
                    cands.append((m.start(1), m.end(1), m.group(1)[:-1] if not m.group(1).endswith(('}', '"', '{')) else m.group(1) + " "))
                if s.endswith(";") and not s.startswith(("let", "return", "const", "static", "type", "}")):
                    i = len(line) - len(line.lstrip())
                    cands.append((i, i + len(s), ""))
            for a, b, v in cands:
                new = t[:start + a] + v + t[start + b:]
                if new != t:
                    out.append({"file": f, "at": start + a, "old": t[start + a:start + b], "new": v, "line": t[:start].count("\n") + 1, "text": s})
    for k, m in enumerate(out):
        m["id"] = k
    return out

def apply(m, root):
    p = f"{root}/src/{m['file']}"
    t = open(p).read()
    assert t[m["at"]:m["at"] + len(m["old"])] == m["old"]
    open(p, "w").write(t[:m["at"]] + m["new"] + t[m["at"] + len(m["old"]):])

def survivors(out, workers, scratch):
    ms = mutants()
    print(len(ms), "changes")
    q = queue.Queue()
    for w in range(workers):
        d = f"{scratch}/{w}"
        if not os.path.exists(d):
            shutil.copytree(REPO, d, symlinks=True)
        q.put(d)
    passed = lambda r: {l for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith(" ... ok")}
    run = "ulimit -v 16000000; timeout 120 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 2"
    base = passed(subprocess.run(run, shell=True, cwd=f"{scratch}/0", capture_output=True, text=True))
    print(len(base), "tests pass")
    def one(m):
        d = q.get()
        try:
            subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
            apply(m, d)
            try:
                r = subprocess.run(run, shell=True, cwd=d, capture_output=True, text=True)
            finally:
                subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
            return m, base <= passed(r), "could not compile" in r.stderr
        finally:
            q.put(d)
    keep, compiled = [], 0
    with cf.ThreadPoolExecutor(workers) as ex:
        for n, (m, ok, nc) in enumerate(ex.map(one, ms)):
            compiled += not nc
            if ok:
                keep.append(m)
            if n % 50 == 0:
                print(n, compiled, len(keep), flush=True)
    json.dump({"made": len(ms), "compiled": compiled, "survivors": keep}, open(out, "w"), indent=1)
    print(len(ms), "made,", compiled, "compile,", len(keep), "pass the tests")

def hunt(src, out):
    d = json.load(open(src))
    done = json.load(open(out)) if os.path.exists(out) else []
    seen = {m["id"] for m in done}
    for m in d["survivors"]:
        if m["id"] in seen:
            continue
        apply(m, REPO)
        m["caught"] = None
        try:
            for c in CONCERNS[m["file"]].split():
                r = subprocess.run(["python3", "run.py", "check", c], cwd="/verif", capture_output=True, text=True)
                if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                    m["caught"] = c
                    break
                if r.returncode not in (0, 1):
                    m.setdefault("odd", []).append([c, r.returncode, (r.stdout + r.stderr)[-300:]])
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
        done.append(m)
        json.dump(done, open(out, "w"), indent=1)
        print(m["id"], m["file"], m["line"], repr(m["old"]), "->", repr(m["new"]), m["caught"], flush=True)

if __name__ == "__main__":
    a = sys.argv
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    if a[1] == "survivors":
        survivors(a[2], int(opt("--workers", "4")), opt("--scratch", "/tmp/w/mut"))
    elif a[1] == "hunt":
        hunt(a[2], a[3])
    else:
        print(len(mutants()))
