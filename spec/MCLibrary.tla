----------------------------- MODULE MCLibrary -----------------------------
(***************************************************************************)
(* A small closed instance of Library: two barcodes, one generator, two     *)
(* threads.  A call notes at its Begin what it must answer; the answer is   *)
(* computed again at its End from whatever the state has become.            *)
(***************************************************************************)
EXTENDS Library, IOUtils

CONSTANTS Obj, Thr, Gen, Data, MaxFlips
VARIABLES noted,  \* thread -> the answer owed since Begin
          answer, \* the last answer given: <<owed, given>>
          flips   \* bound on flag changes
mcVars == <<objs, gens, calls, noted, answer, flips>>

Init == LibInit /\ noted = Empty /\ answer = <<>> /\ flips = 0
AnswerOf(c) == IF c.what = "encode" THEN Encode(objs[c.on], {})
               ELSE Upright(Encode(objs[c.on], {}), 2, 1, gens[c.what].fg, gens[c.what].bg)

Rest == UNCHANGED <<noted, answer, flips>>
DoConstruct == \E o \in Obj, d \in Data, k \in {"code39", "code39c", "itf"} :
                 o \notin DOMAIN objs /\ Construct(o, k, d, Constructed(k, d, {})) /\ Rest
DoFlag == \E o \in Obj, f \in BOOLEAN : flips < MaxFlips /\ SetFlag(o, f) /\ flips' = flips + 1 /\ UNCHANGED <<noted, answer>>
\* The digits of a two-of-five value replaced, and one put together without its constructor.
DoPut == \E o \in Obj : flips < MaxFlips /\ PutDigits(o, <<7, 7>>) /\ flips' = flips + 1 /\ UNCHANGED <<noted, answer>>
DoTogether == \E o \in Obj : o \notin DOMAIN objs /\ PutTogether(o, "itf", <<1, 7>>) /\ Rest
DoDrop == \E o \in Obj : Drop(o) /\ Rest
DoGen == \E g \in Gen : g \notin DOMAIN gens /\ NewGen(g, "buffer", BigOf(2)) /\ Rest
DoSetFg == \E g \in Gen : (\A t \in DOMAIN calls : calls[t].what # g) /\ SetFg(g, <<9, 9, 9, 9>>) /\ Rest
DoBegin == \E t \in Thr, o \in Obj, w \in {"encode"} \cup Gen :
             /\ o \in DOMAIN objs /\ (w # "encode" => w \in DOMAIN gens)
             /\ Begin(t, o, w) /\ noted' = With(noted, t, AnswerOf([on |-> o, what |-> w])) /\ UNCHANGED <<answer, flips>>
DoEnd == \E t \in Thr : /\ End(t) /\ answer' = <<noted[t], AnswerOf(calls[t])>>
                        /\ noted' = Without(noted, t) /\ UNCHANGED flips
Next == DoConstruct \/ DoPut \/ DoTogether \/ DoFlag \/ DoDrop \/ DoGen \/ DoSetFg \/ DoBegin \/ DoEnd
Spec == Init /\ [][Next]_mcVars /\ \A t \in Thr : WF_mcVars(End(t) /\ DoEnd)
View == <<objs, gens, calls, noted, answer, flips>>

\* A call answers the same whenever it ends, whatever happened meanwhile.
Settled == answer # <<>> => answer[1] = answer[2]
\* A call never loses the barcode or generator it uses.
CallsLive == \A t \in DOMAIN calls : calls[t].on \in DOMAIN objs /\ (calls[t].what = "encode" \/ calls[t].what \in DOMAIN gens)
\* Calls do not touch values: only constructions, drops and the flag do.
CallsPure == [][(DOMAIN calls' # DOMAIN calls) => objs' = objs /\ gens' = gens]_mcVars
\* Changing one barcode leaves the others alone.
Isolated == [][\A o \in DOMAIN objs \cap DOMAIN objs' :
                 objs'[o] # objs[o] => \A q \in DOMAIN objs \ {o} : q \in DOMAIN objs' /\ objs'[q] = objs[q]]_mcVars
\* What a value shows is what it draws: putting together a value of the digits shown gives the same bars.
ShowsAll == \A o \in DOMAIN objs : objs[o].sym \in Showing =>
              /\ DigitsFit(objs[o].sym, Held(objs[o]))
              /\ Encode(Holding(objs[o].sym, Held(objs[o])), {}) = Encode(objs[o], {})
\* Every call ends.
CallsEnd == \A t \in Thr : (t \in DOMAIN calls) ~> (t \notin DOMAIN calls)

Deep == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER = "thorough" ELSE FALSE
MCData == {<<49>>, <<65>>} \cup IF Deep THEN {<<49, 50, 51>>} ELSE {}
MCFlips == IF Deep THEN 3 ELSE 1
=============================================================================
