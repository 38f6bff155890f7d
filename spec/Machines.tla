------------------------------ MODULE Machines ------------------------------
(***************************************************************************)
(* The encoders as finite machines: what an implementation may keep while  *)
(* it reads a barcode's characters one at a time.                          *)
(*                                                                         *)
(*  - a parse machine turns characters into symbol values (only Code 128   *)
(*    needs more than one state);                                          *)
(*  - check machines run over the values, forwards or backwards, and       *)
(*    leave a check value in a register;                                   *)
(*  - an emit machine turns the completed value sequence into modules.     *)
(*                                                                         *)
(* TLC explores the register graphs completely (MCCheck, MCParse) and runs *)
(* the composition on bounded inputs (Encoding), comparing both with the   *)
(* functional specification of Encoders.  Export.tla writes the same       *)
(* operators out as tables, which the conformance driver walks beside the  *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Scanner

-----------------------------------------------------------------------------
(* Check machines.  `weights` is the weight by phase; after the last phase  *)
(* comes phase `loop`.                                                      *)
Check == [
  mod10 |-> [dir |-> "rtl", weights |-> <<3, 1>>, loop |-> 1, mod |-> 10, size |-> 10],
  c39   |-> [dir |-> "ltr", weights |-> <<1>>, loop |-> 1, mod |-> 43, size |-> 43],
  c93C  |-> [dir |-> "rtl", weights |-> [i \in 1..20 |-> i], loop |-> 1, mod |-> 47, size |-> 47],
  c93K  |-> [dir |-> "rtl", weights |-> [i \in 1..15 |-> i], loop |-> 1, mod |-> 47, size |-> 47],
  c11C  |-> [dir |-> "rtl", weights |-> [i \in 1..10 |-> i], loop |-> 1, mod |-> 11, size |-> 11],
  c11K  |-> [dir |-> "rtl", weights |-> [i \in 1..9 |-> i], loop |-> 1, mod |-> 11, size |-> 11],
  c128  |-> [dir |-> "ltr", weights |-> <<1>> \o [i \in 1..103 |-> i % 103], loop |-> 2, mod |-> 103, size |-> 106],
  ean5  |-> [dir |-> "ltr", weights |-> <<3, 9>>, loop |-> 1, mod |-> 10, size |-> 10],
  ean2  |-> [dir |-> "ltr", weights |-> <<2, 1>>, loop |-> 1, mod |-> 4, size |-> 10] ]
CheckNames == DOMAIN Check

RegInit == [ph |-> 1, sum |-> 0]
NextPhase(p, ph) == IF ph = Len(Check[p].weights) THEN Check[p].loop ELSE ph + 1
Contribution(p, ph, v) == (Check[p].weights[ph] * v) % Check[p].mod
RegStep(p, r, v) == [ph |-> NextPhase(p, r.ph), sum |-> (r.sum + Contribution(p, r.ph, v)) % Check[p].mod]
RegOut(p, sum) == IF p = "mod10" THEN (10 - sum) % 10 ELSE sum
InOrder(p, vs) == IF Check[p].dir = "ltr" THEN vs ELSE Reverse(vs)
RegRun(p, vs) == FoldLeft(LAMBDA r, v : RegStep(p, r, v), RegInit, InOrder(p, vs))

\* What the machine must compute, in terms of the standards.
CheckSpec(p, vs) ==
  CASE p = "mod10" -> Mod10(vs)       [] p = "c39" -> Code39Check(vs)
    [] p = "c93C" -> Code93C(vs)      [] p = "c93K" -> Code93K(vs)
    [] p = "c11C" -> Code11C(vs)      [] p = "c11K" -> Code11K(vs)
    [] p = "c128" -> Code128Check(vs)
    [] p = "ean5" -> (3 * SumSeq(Odds(vs)) + 9 * SumSeq(Evens(vs))) % 10
    [] p = "ean2" -> (2 * SumSeq(Odds(vs)) + SumSeq(Evens(vs))) % 4

(* The check passes of a constructor: which machine, and when it runs, in  *)
(* terms of the number n of values so far.                                 *)
Passes(ctor) ==
  CASE SymOf(ctor) \in Retail -> << <<"mod10", "always">> >>
    [] ctor = "itf" -> << <<"mod10", "odd">> >>
    [] ctor = "code39c" -> << <<"c39", "always">> >>
    [] ctor = "code93" -> << <<"c93C", "always">>, <<"c93K", "always">> >>
    [] ctor = "code11" -> << <<"c11C", "always">>, <<"c11K", "over11">> >>
    [] ctor = "code128" -> << <<"c128", "always">> >>
    [] OTHER -> <<>>
PassRuns(when, n) == CASE when = "always" -> TRUE [] when = "odd" -> n % 2 = 1 [] when = "over11" -> n > 11

-----------------------------------------------------------------------------
(* The parse machine.  States of Code 128: "start", a set, a set after a    *)
(* SHIFT ("As", "Bs": the next character is read in the other set), or set  *)
(* C after one digit of a pair (0..9 as "C0".."C9").  The others have the   *)
(* one state "go".                                                          *)
PendState == TLCEval([d \in 0..9 |-> <<"C0","C1","C2","C3","C4","C5","C6","C7","C8","C9">>[d + 1]])
PendDigit == TLCEval(InvOf(PendState))
Pending == TLCEval(DOMAIN PendDigit)
ParseStates(sym) == IF sym = "code128" THEN {"start", "A", "B", "C", "As", "Bs"} \cup Pending ELSE {"go"}
ParseInit(sym) == IF sym = "code128" THEN "start" ELSE "go"
ParseAccepts(st) == st \in {"go", "A", "B", "C", "As", "Bs"}

ValueOf(sym, c) == CASE sym = "code39" -> Code39Val[c] [] sym = "code93" -> Code93Val[c]
                     [] sym = "code11" -> Code11Val[c] [] sym = "codabar" -> c [] OTHER -> c - 48

\* [st |-> next state or "bad", out |-> values]
Step128(st, c, K) ==
  LET bad == [st |-> "bad", out |-> <<>>] IN
  IF st = "start" THEN
    IF c \in Selectors THEN [st |-> SetOf(c), out |-> <<StartVal(SetOf(c))>>] ELSE bad
  ELSE IF st \in Pending THEN
    IF IsDigit(c) THEN [st |-> "C", out |-> <<10 * PendDigit[st] + Digit(c)>>] ELSE bad
  ELSE IF st \in {"As", "Bs"} THEN
    LET home == IF st = "As" THEN "A" ELSE "B" IN
    IF c \in Selectors \cup {Shift} \/ c \notin CharsIn(Other(home), K) THEN bad
    ELSE [st |-> home, out |-> <<ValueIn(Other(home), K)[c]>>]
  ELSE IF st = "C" /\ IsDigit(c) THEN [st |-> PendState[Digit(c)], out |-> <<>>]
  ELSE IF c \notin CharsIn(st, K) THEN bad
  ELSE LET v == ValueIn(st, K)[c] IN
    IF c \in Selectors THEN [st |-> SetOf(c), out |-> <<v>>]
    ELSE IF c = Shift /\ "c128-shift" \notin K THEN [st |-> IF st = "A" THEN "As" ELSE "Bs", out |-> <<v>>]
    ELSE [st |-> st, out |-> <<v>>]
ParseStep(sym, st, c, K) ==
  IF sym = "code128" THEN Step128(st, c, K)
  ELSE IF c \in AlphabetOf[sym] THEN [st |-> "go", out |-> <<ValueOf(sym, c)>>]
  ELSE [st |-> "bad", out |-> <<>>]

\* Every character that means something somewhere in a symbology.
CharsOf128 == TLCEval(UNION {CharsIn(set, {}) : set \in {"A", "B", "C"}} \cup {247} \cup (48..57))
CharsOf(sym) == IF sym = "code128" THEN CharsOf128 ELSE AlphabetOf[sym]

-----------------------------------------------------------------------------
(* Emit machines.  A state is [row, pos]: a parity row, and a position or   *)
(* a first digit waiting for its second, as the symbology needs.            *)
EmitVals(sym) == CASE sym = "code39" -> 0..42 [] sym = "code93" -> 0..46 [] sym = "code11" -> 0..10
                   [] sym = "codabar" -> CodabarChars [] sym = "code128" -> 0..105 [] OTHER -> 0..9
RegForRow(n) == IF n = 2 THEN "ean2" ELSE "ean5"
\* `n` is the number of values to come, `row` the parity row computed beforehand (EAN-2/5).
EmitInit(sym, n, row) == [row |-> row, pos |-> IF sym = "eansupp" THEN 10 * n ELSE 0]
EmitStart(sym) ==
  CASE sym \in Retail -> NormalGuard [] sym = "eansupp" -> AddOnGuard [] sym = "code39" -> Code39Guard
    [] sym = "code93" -> Code93Guard [] sym = "code11" -> Code11Guard [] sym = "codabar" -> <<>>
    [] sym = "itf" -> ItfStart [] sym = "stf" -> StfStart [] sym = "code128" -> <<>>
EmitEnd(sym) ==
  CASE sym \in Retail -> NormalGuard [] sym = "eansupp" -> <<>> [] sym = "code39" -> <<0>> \o Code39Guard
    [] sym = "code93" -> Code93Guard \o <<1>> [] sym = "code11" -> <<0>> \o Code11Guard [] sym = "codabar" -> <<>>
    [] sym = "itf" -> ItfStop [] sym = "stf" -> StfStop [] sym = "code128" -> Code128Stop
\* [st, out] of value v in state st.
EmitStep(sym, st, v, K) ==
  LET go(out) == [st |-> [st EXCEPT !.pos = @ + 1], out |-> out]
      stay(out) == [st |-> st, out |-> out]
      half == IF sym = "ean8" THEN 4 ELSE 6
      p == IF sym = "ean13" THEN st.pos - 1 ELSE st.pos     \* digits drawn so far
      retail == (IF p < half
                 THEN Pattern(IF sym = "ean13" THEN Ean13Parity[st.row + 1][p + 1] ELSE "A", v)
                 ELSE SetC[v])
                \o (IF p = half - 1 THEN CentreGuard ELSE <<>>)
  IN CASE sym = "ean13" /\ st.pos = 0 -> [st |-> [row |-> v, pos |-> 1], out |-> <<>>]
       [] sym \in Retail /\ (sym # "ean13" \/ st.pos > 0) ->
            IF p < 2 * half THEN go(retail) ELSE stay(<<>>)
       [] sym = "eansupp" ->
            LET n == st.pos \div 10  i == st.pos % 10
                par == IF n = 2 THEN Ean2Parity ELSE Ean5Parity
            IN IF i >= n THEN stay(<<>>)
               ELSE go((IF i = 0 THEN <<>> ELSE AddOnSep) \o Pattern(par[st.row + 1][i + 1], v))
       [] sym = "code39" -> stay(<<0>> \o Code39Pat[v])
       [] sym = "code93" -> stay(Code93Pat[v])
       [] sym = "code11" -> stay(<<0>> \o Code11Pat[v])
       [] sym = "codabar" -> [st |-> [st EXCEPT !.pos = 1], out |-> (IF st.pos = 0 THEN <<>> ELSE <<0>>) \o CodabarPat(K)[v]]
       [] sym = "itf" -> IF st.pos = 0 THEN [st |-> [st EXCEPT !.pos = v + 1], out |-> <<>>]
                         ELSE [st |-> [st EXCEPT !.pos = 0], out |-> ItfPair[st.pos - 1][v]]
       [] sym = "stf" -> stay(StfPat[v])
       [] sym = "code128" -> stay(Code128Pat[v])

EmitStates(sym) ==
  CASE sym = "ean13" -> {[row |-> r, pos |-> q] : r \in 0..9, q \in 0..13}
    [] sym = "ean8" -> {[row |-> 0, pos |-> q] : q \in 0..8}
    [] sym = "upca" -> {[row |-> 0, pos |-> q] : q \in 0..12}
    [] sym = "eansupp" -> {[row |-> r, pos |-> q] : r \in 0..3, q \in 20..22} \cup {[row |-> r, pos |-> q] : r \in 0..9, q \in 50..55}
    [] sym = "codabar" -> {[row |-> 0, pos |-> q] : q \in 0..1}
    [] sym = "itf" -> {[row |-> 0, pos |-> q] : q \in 0..10}
    [] OTHER -> {[row |-> 0, pos |-> 0]}
=============================================================================
