------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions.  Each line of the trace file is one   *)
(* session: the public calls made, with their arguments and results, in the *)
(* order they happened (calls of overlapping threads: ordered by a global   *)
(* counter at begin and at end).  A session is accepted when it is a        *)
(* behaviour of Library in which every result is the one the specification  *)
(* gives; otherwise TLC stops in a state with no successor, which names the *)
(* session and the first event that has no explanation.                     *)
(*                                                                         *)
(* Environment: TRACE, the file; KNOWN, a JSON file {"known": [names]} of   *)
(* the known findings.  An event may be explained with any subset of them   *)
(* that concerns its symbology; the empty subset is the standard.           *)
(***************************************************************************)
EXTENDS Library, Json, IOUtils
B == INSTANCE Builds WITH Questions <- {}, Demanded <- {}, done <- {}, settled <- {}

Sessions == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Known == TLCEval(Range(JsonDeserialize(IOEnv.KNOWN).known))

VARIABLES session, line, memo
traceVars == <<objs, gens, calls, session, line, memo>>

Ev == Sessions[session].ev[line]
Over == line > Len(Sessions[session].ev)

KTab == TLCEval([s \in Syms |-> SUBSET (Known \cap
   (CASE s = "codabar" -> CodabarFindings [] s = "code128" -> Code128Findings [] OTHER -> {}))])
\* Does P hold under some set of known findings?  (Parenthesised so that TLC evaluates it as a value.)
Explained(sym, P(_)) == (\E K \in KTab[sym] : P(K)) = TRUE

\* Logged runs are <<v1, n1, v2, n2, ...>>.
Pairs(f) == [i \in 1..(Len(f) \div 2) |-> <<f[2 * i - 1], f[2 * i]>>]
Mods(f) == Expand(Pairs(f))
RunsOf(rs) == [i \in DOMAIN rs |-> <<rs[i][1], rs[i][2]>>]
PicOf(p) == [w |-> p.w, h |-> p.h, rows |-> [i \in DOMAIN p.rows |-> <<p.rows[i][1], RunsOf(p.rows[i][2])>>]]
NsOf(n) == [given |-> n.given, text |-> n.text]
DocOf(d) == [d EXCEPT !.ns = NsOf(d.ns)]
Plain(g) == [g EXCEPT !.h = Small(g.h), !.x = Small(g.x)]

IsEvent(op) == ~Over /\ Ev.op = op /\ line' = line + 1 /\ session' = session
Quiet == UNCHANGED memo
\* A name that comes to mean another barcode.
Forget(o) == memo' = Without(memo, o)

-----------------------------------------------------------------------------
(* Barcodes.                                                                *)
\* A construction whose outcome is judged / is only noted.
TNew == IsEvent("new") /\ Explained(SymOf(Ev.ctor), LAMBDA K : Ev.res = Constructed(Ev.ctor, Ev.s, K))
        /\ Construct(Ev.o, Ev.ctor, Ev.s, Ev.res) /\ (IF Ev.res = "ok" THEN Forget(Ev.o) ELSE Quiet)
\* Where only the bars are judged a refusal is not, but what the standard reads must not panic.
TMade == IsEvent("made") /\ (Ev.res = "panic" => ~Explained(SymOf(Ev.ctor), LAMBDA K : Constructed(Ev.ctor, Ev.s, K) = "ok"))
         /\ Construct(Ev.o, Ev.ctor, Ev.s, Ev.res) /\ (IF Ev.res = "ok" THEN Forget(Ev.o) ELSE Quiet)
\* A string too long to write out: `count` times `unit`.
TLong == IsEvent("long") /\ Ev.res = (IF BigLeq(BigMul(Ev.count, Utf8Len(Ev.unit)), BigOf(MaxLen(SymOf(Ev.ctor)))) THEN "ok" ELSE "Length")
         /\ UNCHANGED libVars /\ Quiet
TFlag == IsEvent("flag") /\ SetFlag(Ev.o, Ev.v) /\ Forget(Ev.o)
\* The digits a value shows; digits replaced; a value put together by hand.
THeld == IsEvent("held") /\ Look(Ev.o) /\ objs[Ev.o].sym \in Showing
         /\ Ev.variant = VariantOf(objs[Ev.o]) /\ Ev.digits = Held(objs[Ev.o]) /\ Quiet
TPut == IsEvent("put") /\ PutDigits(Ev.o, Ev.digits) /\ Forget(Ev.o)
TTogether == IsEvent("together") /\ PutTogether(Ev.o, Ev.sym, Ev.digits) /\ Forget(Ev.o)
\* Its bars are those of a value constructed from the digits it holds, and they are the bars of these digits.
TAlike == IsEvent("alike") /\ Look(Ev.o) /\ Ev.res = "ok" /\ Ev.a = Ev.b /\ objs[Ev.o].sym \in Showing
          /\ Ev.s = [i \in DOMAIN Held(objs[Ev.o]) |-> 48 + Held(objs[Ev.o])[i]]
          /\ Explained(objs[Ev.o].sym, LAMBDA K : Mods(Ev.a) = Encode(objs[Ev.o], K)) /\ Quiet
TDrop == IsEvent("drop") /\ Drop(Ev.o) /\ Forget(Ev.o)

TEncode == IsEvent("enc") /\ Look(Ev.o) /\ Ev.res = "ok"
           /\ Explained(objs[Ev.o].sym, LAMBDA K : Mods(Ev.bars) = Encode(objs[Ev.o], K)) /\ Quiet
\* The bars of an accepted barcode of whose input the specification knows nothing better are not judged.
TEncodeIf == IsEvent("encif") /\ Look(Ev.o)
           /\ Explained(objs[Ev.o].sym, LAMBDA K :
                 \/ Verdict(objs[Ev.o].sym, objs[Ev.o].data, K) # "ok"
                 \/ (Ev.res = "ok" /\ Mods(Ev.bars) = Encode(objs[Ev.o], K))) /\ Quiet
\* The symbol values a reader finds, check character aside, are those of the input.
Values128(b) ==
  LET ws == RunWidths(b)
      n == (Len(ws) - 7) \div 6
      gs == Group(ws, 1, 6, n - 1, 0)
  IN IF ~IsModules(b) \/ b = <<>> \/ Len(ws) % 6 # 1 \/ n < 2 \/ ~AllIn(gs, DOMAIN Of128) THEN Bad128 ELSE Map(gs, Of128)
\* Bars that no reader can make out are a matter of the bars; but a short input must be drawn at all.
TValues == IsEvent("values") /\ Look(Ev.o)
           /\ Explained("code128", LAMBDA K : LET vs == Parse128(objs[Ev.o].data, K) IN
                \/ vs = Bad128
                \/ IF Ev.res = "ok" THEN Values128(Mods(Ev.bars)) \in {Bad128, vs} ELSE Len(vs) > 60) /\ Quiet
\* Digits 0 and 1 only, a bar first and (but for standard 2-of-5) last.
TShape == IsEvent("shape") /\ Look(Ev.o) /\ Ev.res = "ok"
          /\ LET b == Mods(Ev.bars) IN
             IsModules(b) /\ b # <<>> /\ b[1] = 1 /\ (objs[Ev.o].sym # "stf" => b[Len(b)] = 1)
          /\ Quiet
\* Two encodings that must be the same.
TTwin == IsEvent("twin") /\ Ev.a = Ev.b /\ UNCHANGED libVars /\ Quiet
\* The bars read as the message.
TScan == IsEvent("scan") /\ Look(Ev.o) /\ Ev.res = "ok"
         /\ Explained(objs[Ev.o].sym, LAMBDA K :
               Scan(objs[Ev.o].sym, Mods(Ev.bars), K) = Read(Message(objs[Ev.o], K))) /\ Quiet

-----------------------------------------------------------------------------
(* Error detection.                                                         *)
Full(sym) == BaseLen(sym) + 1
Swapped(s, q) == [s EXCEPT ![q] = s[q + 1], ![q + 1] = s[q]]
TMutate ==
  /\ IsEvent("mutate") /\ Ev.ctor \in Retail /\ Len(Ev.s) = Full(Ev.ctor) /\ Verdict(Ev.ctor, Ev.s, {}) = "ok"
  /\ Ev.t = (IF Ev.how = "digit" THEN [Ev.s EXCEPT ![Ev.pos] = Ev.d] ELSE Swapped(Ev.s, Ev.pos))
  /\ LET gap == Ev.s[Ev.pos] - Ev.s[Ev.pos + 1]
     IN IF Ev.how = "digit" THEN Ev.d # Ev.s[Ev.pos] => Ev.res = "Checksum"
        ELSE gap \notin {0, 5, 0 - 5} => Ev.res = "Checksum"
  /\ UNCHANGED libVars /\ Quiet
TPair ==
  /\ IsEvent("pair")
  /\ Explained(SymOf(Ev.ctor), LAMBDA K :
        Message(Barcode(Ev.ctor, Ev.s), K) # Message(Barcode(Ev.ctor, Ev.t), K) => Ev.a # Ev.b)
  /\ UNCHANGED libVars /\ Quiet

-----------------------------------------------------------------------------
(* Generators.                                                              *)
TGenNew == IsEvent("gnew") /\ NewGen(Ev.g, Ev.kind, Ev.h) /\ Quiet
TGenSet == IsEvent("gset") /\ Quiet /\
  CASE Ev.field = "x" -> SetX(Ev.g, Ev.v) [] Ev.field = "h" -> SetH(Ev.g, Ev.v)
    [] Ev.field = "fg" -> SetFg(Ev.g, Ev.v) [] Ev.field = "bg" -> SetBg(Ev.g, Ev.v)
    [] Ev.field = "ns" -> SetNs(Ev.g, Ev.v) [] Ev.field = "rot" -> SetRot(Ev.g, Ev.v)
\* A colour set by its name.
TGenNamed == IsEvent("gnamed") /\ Quiet /\
  IF Ev.field = "fg" THEN SetFg(Ev.g, NamedColour(Ev.name)) ELSE SetBg(Ev.g, NamedColour(Ev.name))
\* A generator written out with all its fields.
TGenBe == IsEvent("gbe") /\ Quiet /\ UNCHANGED <<objs, calls>>
          /\ gens' = With(gens, Ev.g, [kind |-> Ev.kind, h |-> Ev.h, x |-> Ev.x, fg |-> Ev.fg, bg |-> Ev.bg,
                                       rot |-> Ev.rot, ns |-> NsOf(Ev.ns)])
TGenCopy == IsEvent("gcopy") /\ CopyGen(Ev.g, Ev.g2) /\ Quiet
\* The fields as the library shows them.
TGenSee == IsEvent("gsee") /\ Ev.g \in DOMAIN gens /\ UNCHANGED libVars /\ Quiet
           /\ LET g == gens[Ev.g] IN
              /\ g.h = Ev.h /\ g.x = Ev.x
              /\ g.kind \notin {"ascii", "json"} => g.fg = Ev.fg /\ g.bg = Ev.bg
              /\ g.kind = "svg" => g.ns = NsOf(Ev.ns)
              /\ g.kind \in ImageKinds => g.rot = Ev.rot

TAscii == IsEvent("ascii") /\ UNCHANGED libVars /\ Quiet /\ Ev.res = "ok"
          /\ LET g == Plain(gens[Ev.g]) IN
             [i \in DOMAIN Ev.rows |-> <<Ev.rows[i][1], RunsOf(Ev.rows[i][2])>>] = AsciiRows(Mods(Ev.mods), g.h, g.x)
TJson == IsEvent("json") /\ UNCHANGED libVars /\ Quiet /\ Ev.res = "ok"
         /\ LET g == gens[Ev.g] IN JsonRight([Ev.doc EXCEPT !.encoding = Mods(@)], Mods(Ev.mods), g.h, g.x)
TSvg == IsEvent("svg") /\ UNCHANGED libVars /\ Quiet /\ Ev.res = "ok"
        /\ SvgMatches(DocOf(Ev.doc), [found |-> Ev.bare.found, doc |-> DocOf(Ev.bare.doc)], Mods(Ev.mods), gens[Ev.g], Known)
TPic == IsEvent("pic") /\ UNCHANGED libVars /\ Quiet /\ Ev.res = "ok"
        /\ PicOf(Ev.pic) = Picture(Mods(Ev.mods), Plain(gens[Ev.g]))
\* In a decoded GIF every pixel is opaque or invisible.
Plain256(p) == \A i \in DOMAIN p.rows : \A j \in DOMAIN p.rows[i][2] : p.rows[i][2][j][1][4] \in {0, 255}
\* A file: it decodes to the picture the buffer has with the same settings, or is refused: beyond the limits,
\* or without a pixel.
TFile == IsEvent("file") /\ UNCHANGED libVars /\ Quiet
         /\ LET g == gens[Ev.g] IN
            CASE g.kind = "buffer" -> Ev.res = "Generate"
              [] Ev.res = "ok" -> /\ Ev.bufres = "ok" /\ g.kind = Ev.fmt /\ Fits(g.kind, Ev.buf.w, Ev.buf.h)
                                  /\ InFormat(g.kind, PicOf(Ev.pic)) = InFormat(g.kind, PicOf(Ev.buf))
                                  /\ g.kind = "gif" => Plain256(PicOf(Ev.pic))
              [] OTHER -> Ev.res = "Generate" /\ Ev.bufres = "ok" /\ ~Fits(g.kind, Ev.buf.w, Ev.buf.h)
\* A WebP with a side of 16,384, of which only the sides could be read (the decoder at hand has no room for it).
TFileDims == IsEvent("filedims") /\ UNCHANGED libVars /\ Quiet
             /\ gens[Ev.g].kind = "webp" /\ 16384 \in {Ev.w, Ev.h} /\ Ev.w = Ev.bufw /\ Ev.h = Ev.bufh
\* A picture whose sides no image can have: refused, not a panic.
TTooBig == IsEvent("toobig") /\ UNCHANGED libVars /\ Quiet
           /\ BigLeq(<<7296, 9496, 42>>, BigMul(gens[Ev.g].x, Ev.n))     \* 2^32 <= n * x
           /\ Ev.res = "Generate"

-----------------------------------------------------------------------------
(* From end to end: what is drawn is read back and scanned.                 *)
Drawn ==
  LET g == gens[Ev.g] IN
  CASE g.kind = "ascii" -> ReadAscii([i \in DOMAIN Ev.rows |-> <<Ev.rows[i][1], RunsOf(Ev.rows[i][2])>>], Small(g.x))
    [] g.kind = "json" -> Mods(Ev.doc.encoding)
    [] g.kind = "svg" -> IF Ev.doc.ok /\ Len(Ev.doc.view) = 4 /\ BigMul(g.x, Ev.n) = Ev.doc.view[3]
                         THEN SvgModules(Ev.doc, g, Ev.n) ELSE <<>>
    [] OTHER -> ReadFile(PicOf(Ev.pic), Plain(g))
TRead == IsEvent("read") /\ Look(Ev.o) /\ Ev.res = "ok"
         /\ LET d == Drawn IN
            /\ d # <<>>
            /\ Explained(objs[Ev.o].sym, LAMBDA K : Scan(objs[Ev.o].sym, d, K) = Read(Message(objs[Ev.o], K)))
            /\ (Ev.o \in DOMAIN memo => memo[Ev.o] = d)    \* every generator shows the same modules
            /\ memo' = With(memo, Ev.o, d)

-----------------------------------------------------------------------------
(* Results depend only on what is asked: the first answer to a question     *)
(* settles it.                                                              *)
Settle(key, val) == /\ key \in DOMAIN memo => memo[key] = val
                    /\ memo' = IF key \in DOMAIN memo THEN memo ELSE With(memo, key, val)
TBase == IsEvent("base") /\ UNCHANGED libVars /\ Settle(Ev.key, Ev.val)
TAsk == IsEvent("ask") /\ UNCHANGED libVars /\ Ev.key \in DOMAIN memo /\ Settle(Ev.key, Ev.val)
\* Builds of the crate: this choice of features compiles, and offers exactly what it should.
TBuild == IsEvent("build") /\ UNCHANGED libVars /\ Quiet
          /\ Range(Ev.features) \subseteq B!Features /\ Ev.profile \in B!Profiles
          /\ Ev.res = "ok" /\ Range(Ev.offers) = B!Offers(Range(Ev.features))
          /\ (B!Bare(Range(Ev.features)) => Ev.bare \in {"ok", "not tried"})
\* All the builds that had to be made.
TBuilds == IsEvent("builds") /\ UNCHANGED libVars /\ Quiet
           /\ {Range(Ev.made[i]) : i \in DOMAIN Ev.made} = SUBSET B!Features
\* An answer of a build that must be the first one's, and no panic.
TFirm == IsEvent("firm") /\ UNCHANGED libVars /\ Ev.val # "panic" /\ Settle(Ev.key, Ev.val)
\* All the different answers that the builds offering the question gave.
TAll == IsEvent("all") /\ UNCHANGED libVars /\ Quiet /\ Len(Ev.vals) = 1 /\ Ev.vals[1] # "panic" /\ Ev.missing = 0
TBegin == IsEvent("begin") /\ Begin(Ev.t, Ev.o, Ev.key) /\ Quiet
TEnd == IsEvent("end") /\ Ev.t \in DOMAIN calls /\ calls[Ev.t].what \in DOMAIN memo
        /\ Settle(calls[Ev.t].what, Ev.val) /\ End(Ev.t)

-----------------------------------------------------------------------------
TraceInit == LibInit /\ session \in DOMAIN Sessions /\ line = 1 /\ memo = Empty
Finish == Over /\ UNCHANGED traceVars
TraceNext == TNew \/ TMade \/ THeld \/ TPut \/ TTogether \/ TAlike \/ TLong \/ TFlag \/ TDrop \/ TEncode \/ TEncodeIf \/ TValues \/ TShape \/ TTwin \/ TScan
             \/ TMutate \/ TPair
             \/ TGenNew \/ TGenSet \/ TGenNamed \/ TGenBe \/ TGenCopy \/ TGenSee \/ TAscii \/ TJson \/ TSvg \/ TPic \/ TFile \/ TFileDims \/ TTooBig
             \/ TRead \/ TBase \/ TAsk \/ TBuild \/ TBuilds \/ TFirm \/ TAll \/ TBegin \/ TEnd
             \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_traceVars
=============================================================================
