#!/usr/bin/env python3
"""Slips of the pen in the specification itself: does TLC refute each one before any code is looked at?

  specmut.py [OUT.json] [--jobs N] [--only SUBSTRING]
Not a check: a measure of how much the modules of the specification hold each other (DESIGN.md, section 7).
Each entry: name, module, old text, new text, and the models to run (module, environment)."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
enc = lambda c: ("MCEncoding", {"CTORS": c})
reg = lambda m: ("Registers", {"MACHINES": m})
par = lambda s: ("Parsing", {"SYMS": s})
drw = lambda k: ("Drawing", {"KIND": k})
tab = lambda t: ("Tables", {"TABLES": t})
dis = lambda p: ("Distinct", {"PART": p})
E2E, LIB, SET = ("EndToEnd", {}), ("MCLibrary", {}), ("Settings", {})
M = []
def m(module, old, new, *models):
    M.append((module, old, new, models))

# ---- the published tables
m("Standards", "3211, 2221, 2122", "3211, 2212, 2122", tab("ean"))
m("Standards", "1132, 1231, 1114", "1132, 1231, 1123", tab("ean"))
m("Standards", "SetB == TLCEval([d \\in 0..9 |-> Reverse(SetC[d])])", "SetB == TLCEval([d \\in 0..9 |-> Reverse(SetA[d])])", tab("ean"))
m("Standards", '<<"A","A","B","A","B","B">>', '<<"A","A","B","A","A","B">>', tab("parity"))
m("Standards", '<<"A","B","A","B","A","B">>, <<"A","B","A","B","B","A">>', '<<"A","B","A","B","B","A">>, <<"A","B","A","B","A","B">>', tab("parity"), enc("ean13"))
m("Standards", '<<"A","B","A","B","A">>', '<<"A","B","A","A","B">>', tab("parity"))
m("Standards", '<<"A","A">>, <<"A","B">>, <<"B","A">>', '<<"A","A">>, <<"B","A">>, <<"A","B">>', tab("parity"))
m("Standards", '<<"5", 100110000>>', '<<"5", 100100100>>', tab("code39"))
m("Standards", '<<"G", 000001101>>, <<"H", 100001100>>', '<<"G", 100001100>>, <<"H", 000001101>>', tab("code39"))
m("Standards", '<<"/", 010100010>>', '<<"/", 010001010>>', tab("code39"))
m("Standards", '<<"-", 010000101>>, <<".", 110000100>>', '<<".", 110000100>>, <<"-", 010000101>>', tab("code39"))
m("Standards", "Code39Guard == BarsOf(Narrow2(010010100))", "Code39Guard == BarsOf(Narrow2(010100100))", tab("code39"))
m("Standards", '<<"E", 221211>>', '<<"E", 221121>>', tab("code93"))
m("Standards", '<<"E", 221211>>', '<<"E", 221212>>', tab("code93"))
m("Standards", '<<"L", 111123>>, <<"M", 111222>>', '<<"M", 111123>>, <<"L", 111222>>', tab("code93"))
m("Standards", '<<"L", 111123>>, <<"M", 111222>>', '<<"L", 111222>>, <<"M", 111123>>', tab("code93"))
m("Standards", '<<"4", 11212>>', '<<"4", 21112>>', tab("code11"))
m("Standards", '<<"9", 21111>>', '<<"9", 21211>>', tab("code11"))
m("Standards", '<<"6", 1211112>>', '<<"6", 1211121>>', tab("codabar"))
m("Standards", '<<".", 2121211>>', '<<".", 2121121>>', tab("codabar"))
m("Standards", "TfWeights == <<1, 2, 4, 7, 0>>", "TfWeights == <<1, 2, 4, 8, 0>>", tab("tf"))
m("Standards", "TfWeights == <<1, 2, 4, 7, 0>>", "TfWeights == <<0, 1, 2, 4, 7>>", tab("tf"), tab("code39"))
m("Standards", "231113, 231311, 112133", "231113, 231131, 112133", tab("code128"))
m("Standards", "412121, 111143", "412112, 111143", tab("code128"))
m("Standards", "Code128Stop == BarsOf(W(2331112, 7))", "Code128Stop == BarsOf(W(2331121, 7))", tab("code128"), enc("code128"))
m("Standards", 'set = "A" /\\ v \\in 64..95 -> v - 64', 'set = "A" /\\ v \\in 64..94 -> v - 64', tab("code128"))
m("Standards", 'set = "C" /\\ v = 100 -> SelB', 'set = "C" /\\ v = 100 -> SelA', tab("code128"))
m("Standards", 'set \\in {"A", "B"} /\\ v = 98 -> Shift', 'set \\in {"A"} /\\ v = 98 -> Shift', tab("code128"))
# ---- check rules
m("Standards", "IF (n - i) % 2 = 0 THEN 3 ELSE 1", "IF (n - i) % 2 = 0 THEN 1 ELSE 3", reg("mod10"))
m("Standards", "IF (n - i) % 2 = 0 THEN 3 ELSE 1", "IF i % 2 = 0 THEN 3 ELSE 1", reg("mod10"))
m("Standards", "(10 - (s % 10)) % 10", "10 - (s % 10)", reg("mod10"))
m("Standards", "((n - i) % wrap) + 1", "((n - i) % (wrap + 1)) + 1", reg("c93"))
m("Standards", "Code93K(vsc) == RightWeighted(vsc, 15, 47)", "Code93K(vsc) == RightWeighted(vsc, 20, 47)", reg("c93"))
m("Standards", "Code11K(vsc) == RightWeighted(vsc, 9, 11)", "Code11K(vsc) == RightWeighted(vsc, 10, 11)", reg("c11"))
m("Standards", "Code11NeedsK(n) == n > 10", "Code11NeedsK(n) == n >= 10", enc("code11"))
m("Standards", "IF i = 1 THEN 1 ELSE (i - 1) % 103", "IF i = 1 THEN 1 ELSE i % 103", reg("c128"))
m("Standards", "3 * (ds[1] + ds[3] + ds[5]) + 9", "9 * (ds[1] + ds[3] + ds[5]) + 3", enc("eansupp"))
m("Standards", "Ean2Value(ds) == 10 * ds[1] + ds[2]", "Ean2Value(ds) == ds[1] + 10 * ds[2]", enc("eansupp"))
m("Standards", "IF Len(ds) % 2 = 1 THEN Append(ds, Mod10(ds)) ELSE ds", "IF Len(ds) % 2 = 1 THEN <<0>> \\o ds ELSE ds", enc("itf"))
# ---- the functional encoders
m("Encoders", '[] sym = "eansupp" -> 5 [] OTHER -> 256', '[] sym = "eansupp" -> 5 [] OTHER -> 255', par("variable"))
m("Encoders", 'sym # "code128" /\\ n > MaxLen(sym)) THEN "Length"\n  ELSE IF sym = "code128" THEN IF', 'n > MaxLen(sym)) THEN "Length"\n  ELSE IF sym = "code128" THEN IF', par("code128"))
m("Encoders", 'Len(s) \\notin {2, 5} THEN "Length"', 'Len(s) \\notin {2, 3, 5} THEN "Length"', par("eansupp"))
m("Encoders", "LET n == Utf8Len(s) IN", "LET n == Len(s) IN", par("variable"))
m("Encoders", "ds[Len(ds)] = Mod10(Base(sym, ds))", "ds[Len(ds)] = Mod10(ds)", par("ean8"))
m("Encoders", "Tail128(SubSeq(s, 3, Len(s)), set, K))\n      ELSE Bad128", "Tail128(SubSeq(s, 3, Len(s)), set, K))\n      ELSE <<Digit(c)>>", par("code128"))
m("Encoders", "Cons128(v, Tail128(Tail(s), SetOf(c), K))", "Cons128(v, Tail128(Tail(s), set, K))", par("code128"))
m("Encoders", "d \\in Selectors \\cup {Shift} \\/", "d \\in Selectors \\/", par("code128"))
m("Encoders", "Pattern(Ean13Parity[m[1] + 1][i], m[i + 1])", "Pattern(Ean13Parity[m[2] + 1][i], m[i + 1])", enc("ean13"))
m("Encoders", "CentreGuard \\o Flat([i \\in 1..4 |-> SetC[m[i + 4]]])", "CentreGuard \\o Flat([i \\in 1..4 |-> SetA[m[i + 4]]])", enc("ean8"))
m("Encoders", "Join([i \\in DOMAIN m |-> CodabarPat(K)[m[i]]], <<0>>)", "Join([i \\in DOMAIN m |-> CodabarPat(K)[m[i]]], <<0, 0>>)", enc("codabar"))
m("Encoders", "ItfPair[m[2 * i - 1]][m[2 * i]]", "ItfPair[m[2 * i]][m[2 * i - 1]]", enc("itf"))
m("Encoders", "Code93Guard \\o <<1>>", "Code93Guard \\o <<1, 0>>", enc("code93"))
m("Encoders", "IF b.chk THEN Append(vs, Code39Check(vs)) ELSE vs", "Append(vs, Code39Check(vs))", enc("code39"))
m("Encoders", "IN Append(vc, Code93K(vc))", "IN Append(vc, Code93K(vs))", enc("code93"))
m("Encoders", 'chk |-> ctor = "code39c"', 'chk |-> ctor = "code39"', enc("code39c"))
# ---- the machines
m("Machines", 'c93C  |-> [dir |-> "rtl"', 'c93C  |-> [dir |-> "ltr"', reg("c93"))
m("Machines", "c93K  |-> [dir |-> \"rtl\", weights |-> [i \\in 1..15 |-> i], loop |-> 1", "c93K  |-> [dir |-> \"rtl\", weights |-> [i \\in 1..15 |-> i], loop |-> 2", reg("c93"))
m("Machines", "[i \\in 1..103 |-> i % 103], loop |-> 2", "[i \\in 1..102 |-> i], loop |-> 2", ("Registers", {"MACHINES": "c128", "TIER": "quick"}))
m("Machines", "[i \\in 1..103 |-> i % 103], loop |-> 2", "[i \\in 1..103 |-> i % 103], loop |-> 1", reg("c128"))
m("Machines", 'when = "over11" -> n > 11', 'when = "over11" -> n > 10', enc("code11"))
m("Machines", 'when = "odd" -> n % 2 = 1', 'when = "odd" -> n % 2 = 0', enc("itf"))
m("Machines", "10 * PendDigit[st] + Digit(c)", "PendDigit[st] + 10 * Digit(c)", par("code128"))
m("Machines", 'IF IsDigit(c) THEN [st |-> "C", out |-> <<10', 'IF IsDigit(c) THEN [st |-> "B", out |-> <<10', par("code128"))
m("Machines", 'ParseAccepts(st) == st \\in {"go", "A", "B", "C", "As", "Bs"}', 'ParseAccepts(st) == st \\in {"go", "A", "B", "C", "As", "Bs", "C7"}', par("code128"))
m("Machines", '[st |-> IF st = "A" THEN "As" ELSE "Bs", out |-> <<v>>]', '[st |-> IF st = "B" THEN "As" ELSE "Bs", out |-> <<v>>]', par("code128"))
m("Machines", "(IF p = half - 1 THEN CentreGuard", "(IF p = half THEN CentreGuard", enc("upca"))
m("Machines", 'half == IF sym = "ean8" THEN 4 ELSE 6', 'half == 6', enc("ean8"))
m("Machines", "(IF i = 0 THEN <<>> ELSE AddOnSep)", "(IF i = n - 1 THEN <<>> ELSE AddOnSep)", enc("eansupp"))
m("Machines", 'sym = "code39" -> stay(<<0>> \\o Code39Pat[v])', 'sym = "code39" -> stay(Code39Pat[v] \\o <<0>>)', enc("code39"))
m("Machines", "out |-> ItfPair[st.pos - 1][v]]", "out |-> ItfPair[v][st.pos - 1]]", enc("itf"))
# ---- the reader
m("Scanner", "RowOf2[par] = Ean2Value(ds) % 4", "RowOf2[par] = Ean2Value(ds) % 3", enc("eansupp"))
m("Scanner", "IF l >= 13", "IF l >= 12", enc("code11"))
m("Scanner", "Len(ws) # 8 * n + 11", "Len(ws) # 8 * n + 9", enc("ean8"))
m("Scanner", "m[n] # Code128Check(SubSeq(m, 1, n - 1))", "m[n] # Code128Check(SubSeq(m, 2, n - 1))", enc("code128"))
m("Scanner", "ts == Flat([i \\in 1..n |-> <<Odds(gs[i]), Evens(gs[i])>>])", "ts == Flat([i \\in 1..n |-> <<Evens(gs[i]), Odds(gs[i])>>])", enc("itf"))
# ---- distinctness: encodings that would not be decodable
m("Machines", 'sym = "stf" -> stay(StfPat[v])', 'sym = "stf" -> stay(Repeat(1, v + 1))', dis("stf"))
m("Standards", '<<"0", 1111122>>', '<<"0", 1111221>>', dis("codabar"))
m("Standards", "codabar-bc\" \\in K -> CodabarWidthsStd[CpOf[\"B\"]]", "codabar-bc\" \\in K -> CodabarWidthsStd[CpOf[\"C\"]]", dis("codabar"))
m("Standards", "212222, 222122,", "212222, 212222,", dis("code128"))
m("Distinct", "(x - y) \\notin {0, 5, 0 - 5}", "(x - y) \\notin {0}", dis("errors"))
m("Machines", "mod10 |-> [dir |-> \"rtl\", weights |-> <<3, 1>>", "mod10 |-> [dir |-> \"rtl\", weights |-> <<2, 1>>", dis("errors"))
m("Machines", "mod10 |-> [dir |-> \"rtl\", weights |-> <<3, 1>>", "mod10 |-> [dir |-> \"rtl\", weights |-> <<1, 1>>", dis("errors"))
# ---- drawings
m("Generators", "[] rot = 90 -> [w |-> p.h, h |-> p.w, rows |-> cols(runs)]", "[] rot = 90 -> [w |-> p.h, h |-> p.w, rows |-> cols(Reverse(runs))]", drw("buffer"))
m("Generators", "[] rot = 270 -> IF ok THEN Reverse(toRow(p.rows)) ELSE <<>>", "[] rot = 270 -> IF ok THEN toRow(p.rows) ELSE <<>>", drw("buffer"), E2E)
m("Generators", "IF c[4] = 0 THEN <<0, 0, 0, 0>>", "IF c[4] < 128 THEN <<0, 0, 0, 0>>", drw("gif"), E2E)
m("Generators", "IF mods[i] = 1 THEN fg ELSE bg]", "IF mods[i] = 1 THEN bg ELSE fg]", drw("buffer"))
m("Generators", "IF h = 0 THEN << <<1, <<>> >> >>", "IF h = 0 THEN <<>>", drw("ascii"))
m("Generators", "(200 * a + 255) \\div 510", "(100 * a) \\div 255", drw("svg"))
m("Generators", "Len(rects) = Len(bars) + 1", "Len(rects) = Len(mods) + 1", drw("svg"))
m("Generators", "at == [i \\in DOMAIN bars |-> BigMul(g.x, bars[i] - 1)]", "at == [i \\in DOMAIN bars |-> BigMul(g.x, bars[i])]", drw("svg"))
m("Generators", "o.height = h /\\ o.xdim = x", "o.height = x /\\ o.xdim = h", drw("json"))
m("Generators", "runs[i][2] \\div x)])", "runs[i][2])])", drw("buffer"), E2E)
m("Drawing", "row < h0 THEN Append(written, 10)", "row <= h0 THEN Append(written, 10)", drw("ascii"))
m("Drawing", "p[1] = (at - 1) * set0.x + row - 1", "p[1] = (at - 1) * set0.x + row", drw("buffer"))
m("Drawing", "c[<<q[2], h - 1 - q[1]>>]", "c[<<q[2], q[1]>>]", drw("buffer"))
m("Drawing", "(IF i = 1 THEN <<>> ELSE <<44>>)", "<<44>>", drw("json"))
m("Big", "10000", "1000", drw("svg"), drw("json"))
# ---- the library's state
m("Library", "objs' = [objs EXCEPT ![o].chk = flag]", "objs' = [q \\in DOMAIN objs |-> [objs[q] EXCEPT !.chk = flag]]", LIB)
m("Library", 'objs[o].sym = "code39" /\\ ~InUse(o)', 'objs[o].sym = "code39"', LIB)
m("Library", "Drop(o) == o \\in DOMAIN objs /\\ ~InUse(o) /\\", "Drop(o) == o \\in DOMAIN objs /\\", LIB)
m("Library", "calls' = Without(calls, t) /\\ UNCHANGED <<objs, gens>>", "calls' = Without(calls, t) /\\ UNCHANGED gens /\\ objs' = [q \\in DOMAIN objs |-> [objs[q] EXCEPT !.chk = FALSE]]", LIB)
m("Library", "SetFg(g, c) == g \\in DOMAIN gens /\\ gens' = [gens EXCEPT ![g].fg = c]", "SetFg(g, c) == g \\in DOMAIN gens /\\ gens' = [gens EXCEPT ![g].fg = c, ![g].bg = IF @ = c THEN White ELSE @]", SET)
m("Library", "SetBg(g, c) == g \\in DOMAIN gens /\\ gens' = [gens EXCEPT ![g].bg = c]", "SetBg(g, c) == g \\in DOMAIN gens /\\ gens' = [q \\in DOMAIN gens |-> [gens[q] EXCEPT !.bg = c]]", SET)
m("Library", "CopyGen(g, g2) == g \\in DOMAIN gens /\\ gens' = With(gens, g2, gens[g])", "CopyGen(g, g2) == g \\in DOMAIN gens /\\ gens' = With(gens, g2, Fresh(gens[g].kind, gens[g].h))", SET)
m("Library", "fg |-> Black, bg |-> White", "fg |-> White, bg |-> Black", SET)
m("Library", "SetX(g, v)  == g \\in DOMAIN gens /\\ gens' = [gens EXCEPT ![g].x = v]", "SetX(g, v)  == g \\in DOMAIN gens /\\ gens' = [gens EXCEPT ![g].x = v, ![g].h = IF v = <<>> THEN <<>> ELSE @]", SET)

def run(entry):
    module, old, new, models = entry
    d = tempfile.mkdtemp(prefix="specmut-")
    try:
        w = os.path.join(d, "s")
        shutil.copytree(SPEC, w)
        p = os.path.join(w, module + ".tla")
        t = open(p).read()
        if old not in t:
            return "no such text"
        open(p, "w").write(t.replace(old, new, 1) if module != "Big" else t.replace(old, new))
        for mod, env in models:
            try:
                r = subprocess.run(["timeout", "600", "java", "-Xmx3g", "-Xss512m", "-XX:+UseSerialGC", "-cp", JARS, "tlc2.TLC", "-workers", "1",
                                    "-noGenerateSpecTE", "-metadir", os.path.join(d, "m"), "-config", mod + ".cfg", mod + ".tla"],
                                   cwd=w, env=dict(os.environ, **dict({"TIER": "quick"}, **env)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            except Exception as e:
                return str(e)
            if "No error has been found" not in r.stdout:
                why = [l for l in r.stdout.splitlines() if "is violated" in l or "Error:" in l]
                if "Parsing or semantic" in r.stdout or "***" in r.stdout:
                    return "does not parse"
                if r.returncode == 124:
                    return "no answer"
                return "refuted: " + (why[0] if why else "?")[:90]
        return "ACCEPTED"
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    only = opt("--only", "")
    todo = [e for e in M if only in e[0] + " " + e[1]]
    res = []
    with cf.ThreadPoolExecutor(int(opt("--jobs", "4"))) as ex:
        for e, r in zip(todo, ex.map(run, todo)):
            res.append({"module": e[0], "old": e[1], "new": e[2], "models": [x[0] + " " + " ".join(x[1].values()) for x in e[3]], "result": r})
            print(f"{e[0]:10} {e[2][:70]!r:75} {r}", flush=True)
    print(len(res), "slips,", sum(r["result"].startswith("refuted") for r in res), "refuted")
    if a and not a[0].startswith("--"):
        json.dump(res, open(a[0], "w"), indent=1)
