------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Behaviours of Library to be replayed on the real code.  TLC runs this    *)
(* module in simulation mode; each finished behaviour is printed as one     *)
(* JSON script of the calls made, arguments only.  The conformance driver   *)
(* performs the calls and Trace judges the results.                         *)
(*                                                                         *)
(* Environment: SCRIPT is flags, inputs, held, read, setters or schedule.         *)
(***************************************************************************)
EXTENDS Library, Machines, Json, IOUtils

CONSTANTS Theme, Length, ObjNames, GenNames, Threads
VARIABLE script
sesVars == <<objs, gens, calls, script>>

Say(e) == script' = Append(script, e)
One(S) == RandomElement(S)
AllCtors == Syms \cup {"code39c"}

-----------------------------------------------------------------------------
(* Inputs.                                                                  *)
RECURSIVE Walk128(_, _)
\* A random walk of the Code 128 parse machine, at least n characters, ending where it accepts.
Walk128(st, n) ==
  IF n <= 0 /\ ParseAccepts(st) THEN <<>>
  ELSE LET home == CASE st = "As" -> "B" [] st = "Bs" -> "A" [] st \in Pending -> "C" [] OTHER -> st
           pool == IF st = "start" THEN Selectors
                   ELSE IF st \in Pending THEN 48..57
                   ELSE IF st = "C" THEN One({48..57, 48..57, CharsIn("C", {})})
                   ELSE IF st \in {"As", "Bs"} THEN CharsIn(home, {}) \ (Selectors \cup {Shift})
                   ELSE One({CharsIn(home, {}), CharsIn(home, {}) \cap (32..126), Selectors \ {SelOf(home)}})
           c == TLCEval(One(pool))
       IN <<c>> \o Walk128(Step128(st, c, {}).st, n - 1)
RandomLen(s) ==
  CASE s = "ean13" -> One({12, 13}) [] s = "upca" -> One({11, 12}) [] s = "ean8" -> One({7, 8}) [] s = "eansupp" -> One({2, 5})
    [] OTHER -> One({One(1..3), One(1..12), One(8..23), One({255, 256, 254, 100, 101})})
\* A good input, but for the check digit, which is right more often than not.
Good(c) ==
  LET s == SymOf(c) n == TLCEval(RandomLen(s)) IN
  IF s = "code128" THEN Walk128("start", One(2..14))
  ELSE LET t == TLCEval([i \in 1..n |-> One(AlphabetOf[s])]) IN
       IF s \in Retail /\ n > BaseLen(s) /\ One(0..2) > 0
       THEN [t EXCEPT ![n] = 48 + Mod10(Digits(SubSeq(t, 1, n - 1)))] ELSE t
Odd == {94, 96, 47, 58, 127, 128, 178, 247, 233, 376, 1632, 8211, 65297, 128512, 32, 97, 45, 0, 10}
Cut(t, p) == SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t))
Put(t, p, c) == SubSeq(t, 1, p) \o <<c>> \o SubSeq(t, p + 1, Len(t))
\* The same with one thing done to it.
Bent(c) ==
  LET t == TLCEval(Good(c)) p == TLCEval(One(DOMAIN t)) x == One(Odd \cup CharsOf(SymOf(c))) kind == TLCEval(One(1..5)) IN
  CASE kind = 1 -> Cut(t, p) [] kind = 2 -> Put(t, p, x) [] kind = 3 -> Put(t, 0, x)
    [] kind = 4 -> t \o t [] kind = 5 -> [t EXCEPT ![p] = x]
Input(c) == IF One(0..3) > 0 THEN Good(c) ELSE Bent(c)

-----------------------------------------------------------------------------
(* Drawings.                                                                *)
RandomMods == LET n == TLCEval(One({One(1..4), One(1..20), One(20..60)})) IN [i \in 1..n |-> One({0, 1})]
Runs(m0) == LET m == TLCEval(m0) r == Rle(m) IN Flat([i \in DOMAIN r |-> <<r[i][1], r[i][2]>>])
RandomColour == [i \in 1..4 |-> One({0, 1, 15, 16, 127, 128, 200, 254, 255})]
RandomNum(kind) == IF kind \in {"svg", "json"} THEN One({<<>>, <<1>>, <<2>>, <<80>>, <<9999>>, <<0, 1>>, <<7295, 9496, 42>>})
                   ELSE BigOf(One(1..7))
RandomNs == One({<<>>, <<120>>, <<104, 116, 116, 112, 58, 47, 47, 119, 51>>, <<233, 8364>>})

-----------------------------------------------------------------------------
Short == Len(script) < Length
Rest == UNCHANGED <<calls>>
New(o, c, s) == /\ Construct(o, c, s, Constructed(c, s, {}))
                /\ Say([op |-> "new", o |-> o, ctor |-> c, s |-> s])
NewAny(C) == \E o \in ObjNames : \E c \in {One(C)} : \E s \in {Input(c)} : New(o, c, s)
Flag == \E o \in ObjNames, f \in BOOLEAN : SetFlag(o, f) /\ Say([op |-> "flag", o |-> o, v |-> f])
DropIt == \E o \in ObjNames : Drop(o) /\ Say([op |-> "drop", o |-> o])
LookAs(op) == \E o \in ObjNames : Look(o) /\ Say([op |-> op, o |-> o])

FlagNext == NewAny({"code39", "code39c"}) \/ Flag \/ Flag \/ DropIt \/ LookAs("enc") \/ LookAs("enc") \/ LookAs("scan")
InputNext == NewAny(AllCtors) \/ LookAs("shape") \/ DropIt

MakeGen(K) == \E g \in GenNames : \E k \in {One(K)} : \E h \in {RandomNum(k)} :
                NewGen(g, k, h) /\ Say([op |-> "gnew", g |-> g, kind |-> k, h |-> h])
SetNum(f) == \E g \in GenNames : /\ g \in DOMAIN gens
               /\ \E v \in {RandomNum(gens[g].kind)} :
                  (IF f = "x" THEN SetX(g, v) ELSE SetH(g, v)) /\ Say([op |-> "gset", g |-> g, field |-> f, v |-> v])
Coloured(k) == k \notin {"ascii", "json"}
\* Colours easily mistaken for c: another opacity, another order, one channel changed.
Near(c) == {c, <<c[1], c[2], c[3], 255>>, <<c[1], c[2], c[3], 0>>, <<c[1], c[2], c[3], (c[4] + 100) % 256>>,
            <<c[3], c[2], c[1], c[4]>>, <<c[4], c[1], c[2], c[3]>>, <<c[1], (c[2] + 1) % 256, c[3], c[4]>>}
NextColour(g) == One({RandomColour} \cup {One(Near(gens[g].fg)), One(Near(gens[g].bg))})
SetCol(f) == \E g \in GenNames : /\ g \in DOMAIN gens /\ Coloured(gens[g].kind)
               /\ \E c \in {NextColour(g)} :
                  (IF f = "fg" THEN SetFg(g, c) ELSE SetBg(g, c)) /\ Say([op |-> "gset", g |-> g, field |-> f, v |-> c])
SetName(f) == \E g \in GenNames : /\ g \in DOMAIN gens /\ Coloured(gens[g].kind)
               /\ \E n \in {One({"black", "white"})} :
                  (IF f = "fg" THEN SetFg(g, NamedColour(n)) ELSE SetBg(g, NamedColour(n)))
                  /\ Say([op |-> "gnamed", g |-> g, field |-> f, name |-> n])
SetTurn == \E g \in GenNames : /\ g \in DOMAIN gens /\ gens[g].kind \in ImageKinds
               /\ \E r \in {One(Rotations)} : SetRot(g, r) /\ Say([op |-> "gset", g |-> g, field |-> "rot", v |-> r])
SetSpace == \E g \in GenNames : /\ g \in DOMAIN gens /\ gens[g].kind = "svg"
               /\ \E t \in {RandomNs} : SetNs(g, t) /\ Say([op |-> "gset", g |-> g, field |-> "ns", v |-> t])
Copy == \E g, g2 \in GenNames : g # g2 /\ CopyGen(g, g2) /\ Say([op |-> "gcopy", g |-> g, g2 |-> g2])
See == \E g \in GenNames : g \in DOMAIN gens /\ UNCHANGED libVars /\ Say([op |-> "gsee", g |-> g])
DrawGen == \E g \in GenNames : g \in DOMAIN gens /\ UNCHANGED libVars /\ Say([op |-> "pic", g |-> g, mods |-> Runs(RandomMods)])
SetterNext == MakeGen(Kinds) \/ SetNum("x") \/ SetNum("h") \/ SetCol("fg") \/ SetCol("bg") \/ SetName("fg") \/ SetName("bg") \/ SetTurn \/ SetSpace \/ Copy \/ See \/ DrawGen

\* A generator in full; colours differ, so that the picture can be read.
ReadGen == \E g \in GenNames : \E k \in {One(Kinds)} :
  \E rot \in {IF k \in ImageKinds THEN One(Rotations) ELSE 0}, fg2 \in {[RandomColour EXCEPT ![4] = 255]} :
  \E bg \in {[fg2 EXCEPT ![1 + One(0..2)] = (@ + 100) % 256]}, h \in {BigOf(One(1..5))}, x \in {BigOf(One(1..5))} :
  LET be == [kind |-> k, h |-> h, x |-> x, fg |-> fg2, bg |-> bg, rot |-> rot, ns |-> NoNs]
  IN /\ gens' = With(gens, g, be) /\ UNCHANGED <<objs, calls>>
     /\ Say([op |-> "gbe", g |-> g, kind |-> k, h |-> be.h, x |-> be.x, fg |-> fg2, bg |-> bg, rot |-> rot, ns |-> NoNs])
ReadIt == \E o \in ObjNames, g \in GenNames :
  /\ o \in DOMAIN objs /\ g \in DOMAIN gens /\ Len(objs[o].data) < 60 /\ UNCHANGED libVars
  /\ Say([op |-> "read", o |-> o, g |-> g, file |-> gens[g].kind \in {"png", "gif", "webp"} /\ One(BOOLEAN)])
ReadNext == NewAny(AllCtors) \/ ReadGen \/ ReadIt \/ ReadIt \/ ReadIt

-----------------------------------------------------------------------------
(* Values whose digits are shown and replaced.                              *)
RandomDigits(s) ==
  LET n == TLCEval(CASE s = "eansupp" -> One({2, 5}) [] s = "itf" -> 2 * One(1..12) [] OTHER -> One({One(1..4), One(1..24)}))
  IN TLCEval([i \in 1..n |-> One(0..9)])
\* Other digits, or the same with one or two of them changed or exchanged.
Redo(ds) == LET p == TLCEval(One(DOMAIN ds)) q == TLCEval(One(DOMAIN ds)) IN
            One({[ds EXCEPT ![p] = One(0..9)], [ds EXCEPT ![p] = ds[q], ![q] = ds[p]], [i \in DOMAIN ds |-> One(0..9)]})
PutIt == \E o \in ObjNames : /\ o \in DOMAIN objs
           /\ \E ds \in {LET new == TLCEval(RandomDigits(objs[o].sym)) IN
                         IF objs[o].sym = "eansupp" \/ One(BOOLEAN) THEN TLCEval(Redo(Held(objs[o]))) ELSE new} :
              PutDigits(o, ds) /\ Say([op |-> "put", o |-> o, digits |-> ds])
MakeIt == \E o \in ObjNames : \E s \in {One(Showing)} : \E ds \in {RandomDigits(s)} :
            PutTogether(o, s, ds) /\ Say([op |-> "together", o |-> o, sym |-> s, digits |-> ds])
HeldNext == NewAny(Showing) \/ MakeIt \/ PutIt \/ PutIt \/ DropIt \/ LookAs("held") \/ LookAs("alike") \/ LookAs("alike")

-----------------------------------------------------------------------------
(* Schedules: overlapping calls.  The objects are questions, whose answers  *)
(* in a fresh process the driver knows; a call held between its Begin and   *)
(* its End is suspended inside the library, in the caller's as_ref.         *)
Bring == \E o \in ObjNames : ~InUse(o) /\ o \notin DOMAIN objs /\ objs' = With(objs, o, [sym |-> "code39", data |-> <<>>, chk |-> FALSE])
           /\ UNCHANGED <<gens, calls>> /\ Say([op |-> "bring", o |-> o])
Let == \E o \in ObjNames : Drop(o) /\ Say([op |-> "drop", o |-> o])
Hold == \E t \in Threads, o \in ObjNames : Begin(t, o, "held") /\ Say([op |-> "begin", t |-> t, o |-> o])
Release == \E t \in Threads : End(t) /\ Say([op |-> "end", t |-> t])
AskLive == \E t \in Threads, o \in ObjNames : t \notin DOMAIN calls /\ Look(o) /\ Say([op |-> "live", t |-> t, o |-> o])
AskNew == \E t \in Threads, o \in ObjNames : t \notin DOMAIN calls /\ UNCHANGED libVars /\ Say([op |-> "anew", t |-> t, o |-> o])
Twist == \E o \in ObjNames, f \in BOOLEAN : SetFlag(o, f) /\ Say([op |-> "twist", o |-> o])
Disturb == \E t \in Threads, n \in 0..5 : t \notin DOMAIN calls /\ UNCHANGED libVars /\ Say([op |-> "disturb", t |-> t, n |-> n])
ScheduleNext == Bring \/ Let \/ Hold \/ Hold \/ Release \/ AskLive \/ AskNew \/ Twist \/ Disturb

-----------------------------------------------------------------------------
Init == LibInit /\ script = <<>>
\* The last step only marks the end, so that a behaviour is printed once.
Stop == Len(script) = Length /\ Say([op |-> "stop"]) /\ UNCHANGED libVars
Next == \/ Stop
        \/ Short /\ CASE Theme = "flags" -> FlagNext [] Theme = "inputs" -> InputNext [] Theme = "held" -> HeldNext [] Theme = "read" -> ReadNext
                            [] Theme = "setters" -> SetterNext [] Theme = "schedule" -> ScheduleNext
Spec == Init /\ [][Next]_sesVars

\* A finished behaviour is printed.
Printed == Len(script) > Length => PrintT(ToJson([ev |-> script]))
MCTheme == IOEnv.SCRIPT
MCLength == IF MCTheme = "schedule" THEN 60 ELSE IF MCTheme = "read" THEN 20 ELSE 30
MCObjNames == IF MCTheme = "schedule" THEN {"0", "1", "2", "3", "4", "5", "6", "7"} ELSE {"a", "b", "c"}
=============================================================================
