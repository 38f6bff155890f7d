#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup                     build the harness and export the tables once
  run.py check C05 [--tier T]      decide one property (exit 0, 1 with a VIOLATION line, or 2)
  run.py replay C05 FILE           replay a recorded session on the library and judge it again
  run.py floors                    note what quick runs counted, as the least a run has to count
  run.py models [T]                model-check the specification only, all of it, with timings
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
REPO = os.environ.get("BARCODERS", "/repo")
FINDINGS = os.path.join(HERE, "known-findings.json")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CORES = os.cpu_count() or 4

IMAGE = {"C16", "C17", "C18", "C20", "C22"}      # need the image feature
GIANT = {"C01": ["ean13", "bookland", "jan", "ean8", "upca"], "C03": ["eansupp"],
         "C12": ["codabar", "code11", "usd8", "code39", "code39c", "code93", "itf", "stf"]}


class Broken(Exception):
    """The check itself could not be carried out."""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- TLC
def java(xmx="3g"):
    return ["java", "-Xmx" + xmx, "-Xss512m", "-XX:+UseSerialGC", "-cp", JARS, "tlc2.TLC"]


TMP = threading.local()
COUNT = [0]
LOCK = threading.Lock()


class Tlc:
    """One run of TLC, always with one worker: constants are normalised lazily in TLC, and
    several workers doing that at the same time misjudge equalities."""

    def __init__(self, out, module, cfg=None, env=None, args=(), xmx="3g", timeout=800):
        with LOCK:
            COUNT[0] += 1
            n = COUNT[0]
        meta = os.path.join(out, "tlc%d" % n)
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = java(xmx) + ["-workers", "1", "-config", (cfg or module) + ".cfg", "-noGenerateSpecTE",
                           "-metadir", meta] + list(args) + [module + ".tla"]
        t = time.time()
        self.log = os.path.join(out, "tlc%d.out" % n)
        with open(self.log, "w") as f:
            try:
                self.rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                         timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                self.rc = -999
        self.wall = time.time() - t
        with open(self.log, errors="replace") as f:
            self.out = f.read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out.replace(",", ",")) or \
            re.findall(r"(\d+) states generated", self.out)
        self.generated = self.distinct = 0
        if m:
            last = m[-1]
            if isinstance(last, tuple):
                self.generated, self.distinct = int(last[0]), int(last[1])
            else:
                self.generated = self.distinct = int(last)
        self.ok = self.rc == 0 and "Error:" not in self.out
        self.deadlock = "Deadlock reached" in self.out
        self.killed = self.rc < 0 or self.rc in (137, 143) or "OutOfMemoryError" in self.out

    def last(self, var):
        m = re.findall(r"^/\\ %s = (.*)$" % var, self.out, re.M)
        return int(m[-1]) if m else None

    def tail(self, n=25):
        return "\n".join(self.out.splitlines()[-n:])


# What is explored of the specification itself for each property: (module, environment).
def models(prop, deep):
    enc = lambda *cs: [("MCEncoding", {"CTORS": c}) for c in cs]
    reg = lambda *ms: [("Registers", {"MACHINES": m}) for m in ms]
    par = lambda *ss: [("Parsing", {"SYMS": s}) for s in ss]
    tab = lambda t: [("Tables", {"TABLES": t})]
    drw = lambda *ks: [("Drawing", {"KIND": k}) for k in ks]
    table = {
        "C01": par("ean13", "ean8", "upca") + enc("ean13", "ean8", "upca") + reg("mod10"),
        "C02": enc("ean13", "ean8", "upca") + reg("mod10") + tab("retail"),
        "C03": enc("eansupp") + reg("ean") + par("eansupp") + tab("retail"),
        "C04": enc("code39", "code39c") + reg("c39") + tab("code39"),
        "C05": reg("c93") + enc("code93") + tab("code93"),
        "C06": reg("c11") + enc("code11") + tab("code11"),
        "C07": enc("codabar") + tab("codabar"),
        "C08": enc("itf") + reg("mod10") + tab("tf"),
        "C09": enc("stf") + tab("tf"),
        "C10": par("code128") + enc("code128"),
        "C11": reg("c128") + enc("code128") + tab("code128"),
        "C12": par("variable"),
        "C13": drw("ascii"),
        "C14": drw("json"),
        "C15": drw("svg"),
        "C16": drw("buffer"),
        "C17": drw("gif", "png"),
        "C18": [("MCLibrary", {})],
        "C19": [("Builds", {})],
        "C20": [("EndToEnd", {})],
        "C21": reg("mod10") + [("Distinct", {"PART": "all"})],
        "C22": [("Settings", {})],
        "C23": [("MCLibrary", {})] + reg("mod10"),
    }
    tier = "thorough" if deep else "quick"
    return [(m, dict(e, TIER=tier)) for m, e in table[prop] if os.path.exists(os.path.join(SPEC, m + ".cfg"))]


# ---------------------------------------------------------------- building
def cargo(features, profile, target, default=True, log=None, jobs=None):
    """Builds the harness; returns (path of the program or None, output)."""
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    cmd += {"dev": [], "release": ["--release"]}.get(profile, ["--profile", profile])
    if not default:
        cmd.append("--no-default-features")
    if features:
        cmd += ["--features", ",".join(features)]
    if jobs:
        cmd += ["-j", str(jobs)]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HARNESS)
    if log:
        with open(log, "a") as f:
            f.write(" ".join(cmd) + "\n" + r.stdout + "\n")
    sub = {"dev": "debug"}.get(profile, profile)
    return (os.path.join(target, sub, "harness") if r.returncode == 0 else None), r.stdout


def build(prop, run):
    target = os.path.join(BUILD, "target")
    feats = ["image"] if prop in IMAGE else []
    exe, out = cargo(feats, "walk", target, log=os.path.join(run, "cargo.log"))
    if not exe:
        # the objects may have stopped being shareable among threads; that is no property here
        exe, out = cargo(["std", "ascii", "json", "svg"] + feats, "walk", target, default=False,
                         log=os.path.join(run, "cargo.log"))
    if not exe:
        raise Broken("the harness does not build:\n" + out[-3000:])
    mine = os.path.join(run, "harness")
    shutil.copy2(exe, mine)
    return mine


def tables(run):
    out = os.path.join(run, "tables.json")
    t = Tlc(run, "Export", env={"OUT": out})
    if not t.ok or not os.path.exists(out):
        raise Broken("the tables were not exported:\n" + t.tail())
    return out


# ---------------------------------------------------------------- sessions against the specification
def read_lines(p):
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [l for l in f if l.strip()]


def judge(run, name, lines, known, parts=None, timeout=800):
    """TLC on recorded sessions.  Returns (number accepted, states, transitions, stuck), stuck
    being None or (index, event number, TLC's words)."""
    if not lines:
        return 0, 0, 0, None
    size = sum(map(len, lines))
    n = parts or max(1, min(CORES - 1, size // 120_000 + 1, len(lines)))
    # heaviest first, so that the parts come out even
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    split = [sorted(order[k::n]) for k in range(n)]

    def one(k):
        f = os.path.join(run, "%s.%d.ndjson" % (name, k))
        with open(f, "w") as h:
            h.writelines(lines[i] for i in split[k])
        return Tlc(run, "Trace", env={"TRACE": f, "KNOWN": known}, timeout=timeout)

    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    ok, states, trans, stuck = 0, 0, 0, None
    for k, t in enumerate(rs):
        states += t.distinct
        trans += t.generated
        if t.ok:
            ok += len(split[k])
            continue
        if t.killed:
            raise Broken("TLC did not finish (%s):\n%s" % (t.rc, t.tail()))
        s = t.last("session")
        if s is None:
            raise Broken("TLC failed:\n" + t.tail())
        # once more, alone
        i = split[k][s - 1]
        f = os.path.join(run, "%s.alone.ndjson" % name)
        with open(f, "w") as h:
            h.write(lines[i])
        again = Tlc(run, "Trace", env={"TRACE": f, "KNOWN": known}, timeout=timeout)
        if again.killed:
            raise Broken("TLC did not finish (%s):\n%s" % (again.rc, again.tail()))
        if again.ok:
            raise Broken("TLC judged a session in two ways:\n" + t.tail(60))
        if stuck is None:
            line = again.last("line") or 1
            stuck = (i, line, "no behaviour of the specification" if again.deadlock else again.tail(12))
    return ok, states, trans, stuck


def keep(prop, n, line):
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.ndjson" % (prop, n))
    with open(p, "w") as f:
        f.write(line if line.endswith("\n") else line + "\n")
    return p


def describe(ev):
    e = dict(ev)
    for k in ("s", "t"):
        if isinstance(e.get(k), list):
            e[k] = "".join(map(chr, e[k]))
    s = json.dumps(e)
    return s if len(s) < 700 else s[:700] + "..."


def expect_all(run, prop, name, lines, known, **kw):
    """All sessions must be accepted, or the property is violated."""
    ok, st, tr, stuck = judge(run, name, lines, known, **kw)
    if stuck:
        i, line, why = stuck
        ev = json.loads(lines[i])["ev"]
        say("session %d of %s stops at event %d: %s" % (i, name, line, why))
        say("  " + describe(ev[min(line, len(ev)) - 1]))
        raise Violation(describe(ev[min(line, len(ev)) - 1]), keep(prop, name, lines[i]))
    return ok, st, tr


# ---------------------------------------------------------------- known findings
def findings():
    with open(FINDINGS) as f:
        return json.load(f)


def known_file(run, names):
    p = os.path.join(run, "known.json" if names else "none.json")
    with open(p, "w") as f:
        json.dump({"known": names or [""]}, f)
    return p


def report_findings(prop, exe, run):
    """Each listed finding of the property is shown again on the real code: its session is
    replayed, and the specification without findings must refuse it."""
    mine = [f for f in findings()["known"] if prop in f["sessions"]]
    none = known_file(run, [])

    def one(f):
        s = os.path.join(run, "finding-%s.ndjson" % f["name"])
        o = os.path.join(run, "finding-%s.out.ndjson" % f["name"])
        with open(s, "w") as h:
            h.write(json.dumps({"ev": f["sessions"][prop]}) + "\n")
        r = subprocess.run([exe, "exec", s, o], cwd=run)
        if r.returncode != 0:
            return f, None
        ok, _, _, stuck = judge(run, "finding-%s-j" % f["name"], read_lines(o), none, parts=1)
        return f, stuck is not None

    if not mine:
        return
    with cf.ThreadPoolExecutor(4) as ex:
        for f, there in ex.map(one, mine):
            if there:
                say("KNOWN-FINDING: property=%s %s: %s" % (prop, f["name"], f["what"]))
            else:
                say("listed finding not seen any more: property=%s %s" % (prop, f["name"]))


# ---------------------------------------------------------------- one check
def harness(exe, args, run, limit=24_000_000_000, timeout=800):
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    with open(os.path.join(run, "harness.err"), "ab") as err:
        try:
            return subprocess.run([exe] + args, cwd=run, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=pre,
                                  timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return -998


def tail_of(p, n=15):
    try:
        with open(p, errors="replace") as f:
            return "".join(f.readlines()[-n:])
    except OSError:
        return ""


def simulate(run, module, env, num, depth, seed):
    """Behaviours of a specification as scripts, one JSON object a line."""
    t = Tlc(run, module, env=env, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    lines = []
    for l in t.out.splitlines():
        if l.startswith('"{') and l.endswith('}"'):
            lines.append(json.loads(l) + "\n")
    if not t.ok or not lines:
        raise Broken("no behaviours from %s:\n%s" % (module, t.tail()))
    return lines, t


FLOORS = os.path.join(HERE, "floors.json")
UNEVEN = {"rushed", "giant_strings", "suspects", "build_and_run_s", "wall_s"}      # depend on the machine


def counts(info, tot):
    """Everything a check counted, as one flat table."""
    out = dict(tot)

    def take(prefix, d):
        for k, v in d.items():
            if isinstance(v, dict):
                take(prefix + k + "/", v)
            elif isinstance(v, int) and not isinstance(v, bool) and v > 0 and k not in UNEVEN:
                out[prefix + k] = v
    take("", info)
    return out


def enough(prop, info, tot):
    """A part that stopped early, or found nothing to do, must not pass for one that found nothing wrong: a run
    that counted much less than a quick run on the original tree decides nothing."""
    have = counts(info, tot)
    if os.path.exists(FLOORS):
        with open(FLOORS) as f:
            least = json.load(f).get(prop, {})
        lost = ["%s: %d of %d" % (k, have.get(k, 0), n) for k, n in least.items() if have.get(k, 0) < n]
        if lost:
            raise Broken("parts of the check did less than they should: " + "; ".join(lost[:10]))


def floors():
    """Writes floors.json from the evidence of quick runs (by hand, after a run on the original tree)."""
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
        with open(f) as h:
            d = json.load(h)
        if d["violations"] or d["tier"] != "quick":
            raise Broken("%s is not the evidence of a quick run that held" % f)
        cov = dict(d["coverage"])
        tot = {"states": cov.pop("states"), "transitions": cov.pop("transitions"), "traces": cov.pop("traces_validated_against_impl")}
        out[d["property"]] = {k: max(1, int(0.6 * v)) for k, v in sorted(counts(cov, tot).items())}
    with open(FLOORS, "w") as h:
        json.dump(out, h, indent=1)
        h.write("\n")
    return 0


def check(prop, tier):
    start = time.time()
    deep = tier == "thorough"
    run = os.path.join(BUILD, "run", prop)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    info = {"models": {}, "harness": {}, "samples": []}
    tot = {"states": 0, "transitions": 0, "traces": 0}
    pool = cf.ThreadPoolExecutor(max(2, CORES - 2))
    limit = 3400 if deep else 700
    mc = [(m, e, pool.submit(Tlc, run, m, None, e, (), "4g", limit)) for m, e in models(prop, deep)]
    try:
        known = known_file(run, [f["name"] for f in findings()["known"]])
        if prop == "C19":
            import builds
            builds.check(run, deep, SEED, info, tot, known)
        else:
            conform(prop, run, deep, info, tot, known, pool)
        for m, e, f in mc:
            t = f.result()
            name = m + "".join(" " + v for k, v in e.items() if k != "TIER")
            if not t.ok:
                raise Broken("the specification is at fault (%s):\n%s" % (name, t.tail(40)))
            info["models"][name] = {"states": t.distinct, "transitions": t.generated, "wall_s": round(t.wall, 1)}
            tot["states"] += t.distinct
            tot["transitions"] += t.generated
        enough(prop, info, tot)
        code, viol = 0, 0
    except Violation as v:
        say("VIOLATION property=%s replay=%s" % (prop, v.replay))
        info["violation"] = v.what
        code, viol = 1, 1
    finally:
        pool.shutdown(wait=True)
    cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
           "samples": info.pop("samples")[:4] or ["none"]}
    cov.update(info)
    write_evidence(prop, tier, cov, time.time() - start, viol)
    say("%s %s: %s (%d states, %d traces accepted, %.0f s)" % (prop, tier, "held" if code == 0 else "broken",
                                                             tot["states"], tot["traces"], time.time() - start))
    return code


ASSUME = ["the specification of each symbology in /verif/spec/Standards.tla is the published one",
          "TLC, the Rust toolchain and the reading side of the harness (XML, JSON, image decoders) are right"]


def write_evidence(prop, tier, cov, wall, viol):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
                   "assumptions": ASSUME, "wall_s": round(wall, 1), "violations": viol}, f, indent=1)
        f.write("\n")


def conform(prop, run, deep, info, tot, known, pool):
    tab = pool.submit(tables, run)
    exe = build(prop, run)
    tab = tab.result()
    rep = pool.submit(report_findings, prop, exe, run)
    gen = pool.submit(scripts, prop, run, deep) if prop in GENERATED else None

    rc = harness(exe, ["check", "--prop", prop, "--tables", tab, "--known", known, "--out", run, "--seed", str(SEED),
                       "--tier", "thorough" if deep else "quick"], run, timeout=3000 if deep else 700)
    err = os.path.join(run, "harness.err")
    hung = os.path.join(run, "hung.txt")
    if rc == 7 and os.path.exists(hung):
        say(tail_of(hung))
        raise Violation("a call does not return", keep(prop, "hung", tail_of(hung)))
    if rc < 0 and rc != -998 or rc == 134:
        # the library took the process down (stack overflow, abort, out of memory)
        say(tail_of(err))
        raise Violation("the process died with signal %d" % -rc, keep(prop, "died", "signal %d\n%s" % (-rc, tail_of(err))))
    if rc != 0:
        raise Broken("the harness ended with %d:\n%s" % (rc, tail_of(err)))
    with open(os.path.join(run, "stats.json")) as f:
        info["harness"] = json.load(f)

    heavy = read_lines(os.path.join(run, "heavy.ndjson"))
    if heavy:
        say("too long to write out for TLC, judged by the exported machines: " + heavy[0][:600])
        raise Violation(heavy[0][:600], keep(prop, "heavy", heavy[0]))
    # inputs on which code and tables differ: the specification has the last word
    sus = read_lines(os.path.join(run, "suspects.ndjson"))
    info["suspects"] = len(sus)
    expect_all(run, prop, "suspects", sus, known)
    trace = read_lines(os.path.join(run, "trace.ndjson"))
    ok, st, tr = expect_all(run, prop, "trace", trace, known, timeout=3000 if deep else 700)
    tot["traces"] += ok
    tot["states"] += st
    tot["transitions"] += tr
    info["samples"] += [describe(e) for l in trace[:: max(1, len(trace) // 3)][:3] for e in json.loads(l)["ev"][-1:]]

    if prop in GIANT:
        o = os.path.join(run, "giant.ndjson")
        # code that looks at every byte of such a string may be slow and still be right: what is done in time counts
        harness(exe, ["giant", o] + GIANT[prop], run, limit=12_000_000_000, timeout=600 if deep else 90)
        lines = [l for l in read_lines(o) if l.endswith("]}\n")]
        if lines:
            ok, st, tr = expect_all(run, prop, "giant", lines, known)
            tot["traces"] += ok
        info["giant_strings"] = len(lines)
    if gen:
        replay_generated(prop, exe, run, gen.result(), info, tot, known)
    rep.result()


# ---------------------------------------------------------------- behaviours generated by TLC, replayed
def sessions(theme, quick, thorough):
    return lambda deep: [("Sessions", {"SCRIPT": theme}, thorough if deep else quick, 70)]


GENERATED = {"C04": sessions("flags", 40, 1000), "C12": sessions("inputs", 60, 1500), "C18": sessions("schedule", 132, 3000),
             "C20": sessions("read", 60, 1500), "C22": sessions("setters", 80, 2000),
             "C23": sessions("held", 90, 2000)}


def scripts(prop, run, deep):
    out = []
    for module, env, num, depth in GENERATED[prop](deep):
        lines, t = simulate(run, module, env, num, depth, SEED)
        out.append((module, lines, t))
    return out


def replay_generated(prop, exe, run, sets, info, tot, known):
    for k, (module, lines, t) in enumerate(sets):
        s, o = os.path.join(run, "scripts%d.ndjson" % k), os.path.join(run, "replayed%d.ndjson" % k)
        with open(s, "w") as f:
            f.writelines(lines)
        rc = harness(exe, ["sched" if prop == "C18" else "exec", s, o, "--seed", str(SEED)], run)
        if rc == 7:
            raise Violation("a call does not return", keep(prop, "hung", tail_of(os.path.join(run, "hung.txt"))))
        if rc < 0 and rc != -998 or rc == 134:
            raise Violation("the process died with signal %d" % -rc, keep(prop, "died", "signal %d\n" % -rc))
        if rc != 0:
            raise Broken("the harness ended with %d:\n%s" % (rc, tail_of(os.path.join(run, "harness.err"))))
        ok, st, tr = expect_all(run, prop, "replayed%d" % k, read_lines(o), known)
        tot["traces"] += ok
        tot["states"] += st + t.distinct
        tot["transitions"] += tr + t.generated
        info.setdefault("generated_sessions", {})[module] = len(lines)


def replay(prop, path):
    """Replays one session on the library as it is now, and judges it."""
    run = os.path.join(BUILD, "run", prop + "-replay")
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    exe = build(prop, run)
    known = known_file(run, [f["name"] for f in findings()["known"]])
    o = os.path.join(run, "again.ndjson")
    if subprocess.run([exe, "exec", os.path.abspath(path), o]).returncode != 0:
        raise Broken("the session could not be replayed")
    ok, _, _, stuck = judge(run, "again", read_lines(o), known)
    say("accepted" if not stuck else "refused at event %d: %s" % (stuck[1], stuck[2]))
    return 1 if stuck else 0


def setup():
    os.makedirs(BUILD, exist_ok=True)
    run = os.path.join(BUILD, "run", "setup")
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken(r.stdout)
    exe = build("C16", run)
    tables(run)
    say("built", exe)
    return 0


def all_models(tier):
    seen = []
    for p in sorted("C%02d" % i for i in range(1, 24)):
        for m in models(p, tier == "thorough"):
            if m not in seen:
                seen.append(m)
    run = os.path.join(BUILD, "run", "models")
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    bad = 0
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [(m, e, ex.submit(Tlc, run, m, None, e, (), "6g", 7000)) for m, e in seen]
        for m, e, f in fs:
            t = f.result()
            say("%-12s %-50s %s %9d states %10d transitions %7.1f s" % (m, e, "ok " if t.ok else "BAD", t.distinct, t.generated, t.wall))
            if not t.ok:
                bad = 1
                say(t.tail(30))
    return bad


def main(a):
    try:
        if a[0] == "setup":
            return setup()
        if a[0] == "check":
            tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER") or "quick"
            return check(a[1], tier)
        if a[0] == "replay":
            return replay(a[1], a[2])
        if a[0] == "floors":
            return floors()
        if a[0] == "models":
            return all_models(a[1] if len(a) > 1 else "quick")
    except Broken as b:
        say("the check could not be carried out: %s" % b)
        return 2
    say(__doc__)
    return 2


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
