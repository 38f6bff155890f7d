------------------------------ MODULE Parsing ------------------------------
(***************************************************************************)
(* The complete graph of every parse machine: each state, and from it every *)
(* character of the symbology and representatives of all the others.  As in *)
(* Registers, the input read and the values found are hidden from TLC's     *)
(* state identity, and each edge is compared with the recursive             *)
(* specification (Parse128, or the alphabet).  Byte lengths are counted up  *)
(* to just beyond the longest limit, so the length rule is explored in full *)
(* as well, with characters of one to four bytes.                           *)
(***************************************************************************)
EXTENDS Machines, IOUtils

CONSTANTS Explored,  \* the symbologies explored
          Findings   \* the sets of known findings under which they are explored

VARIABLES kind, found, state, bytes, text, values
vars == <<kind, found, state, bytes, text, values>>

\* Characters that are in no alphabet, of each byte length, and look-alikes of digits and letters.
Foreign == {94, 96, 127, 128, 178, 215, 247, 233, 255, 376, 383, 880, 1632, 2406, 8211, 65297, 65313, 120782, 128512}
Bytes(n) == IF n > 260 THEN 260 ELSE n
Counted(s) == s # "code128" /\ s \notin Retail
View == <<kind, found, state, IF Counted(kind) THEN bytes ELSE Bytes(IF bytes > 15 THEN 15 ELSE bytes)>>

Init == /\ kind \in Explored /\ found \in Findings
        /\ state = ParseInit(kind) /\ bytes = 0 /\ text = <<>> /\ values = <<>>
Take(c) ==
  LET r == IF state = "bad" THEN [st |-> "bad", out |-> <<>>] ELSE ParseStep(kind, state, c, found) IN
  /\ bytes < 260
  /\ state' = r.st
  /\ bytes' = Bytes(bytes + Utf8(c))
  /\ text' = Append(text, c)
  /\ values' = values \o r.out
  /\ UNCHANGED <<kind, found>>
Next == \E c \in Foreign \cup CharsOf(kind) : Take(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What the machine says about the input so far, if it ended here.
Says(st, n, vs) ==
  IF n < MinLen(kind) \/ (kind # "code128" /\ n > MaxLen(kind)) THEN "Length"
  ELSE IF ~ParseAccepts(st) THEN "Character"
  ELSE IF kind = "eansupp" /\ Len(vs) \notin {2, 5} THEN "Length"
  ELSE IF kind \in Retail /\ Len(vs) > BaseLen(kind) /\ vs[Len(vs)] # RegOut("mod10", RegRun("mod10", Base(kind, vs)).sum)
  THEN "Checksum" ELSE "ok"
VerdictEdge == [][bytes' < 260 => Says(state', bytes', values') = Verdict(kind, text', found)]_vars
ValuesEdge == [][(kind = "code128" /\ ParseAccepts(state')) => values' = Parse128(text', found)]_vars
(* The state an edge leads to may have been explored with another input     *)
(* before it, so the edge must be shown to lead to the right one: it is     *)
(* followed by each word of a set that tells all states of Code 128 apart.  *)
Telling == {<<>>, <<97>>, <<1>>, <<53>>, <<53, 53>>, <<SelB>>, <<65>>, <<94>>, <<SelC, 53, 53>>}
Reach(st, vs, t) == FoldLeft(LAMBDA a, c : IF a.st = "bad" THEN a ELSE LET r == ParseStep(kind, a.st, c, found) IN [st |-> r.st, vs |-> a.vs \o r.out],
                             [st |-> st, vs |-> vs], t)
ResidualEdge == [][kind = "code128" => \A t \in Telling :
                     LET m == Reach(state', values', t) IN
                     IF ParseAccepts(m.st) THEN m.vs = Parse128(text' \o t, found) ELSE Parse128(text' \o t, found) = Bad128]_vars
\* No two states answer alike to all of them (a state after SHIFT only occurs where SHIFT is known).
Answers(st) == [t \in Telling |-> LET m == Reach(st, <<>>, t) IN IF ParseAccepts(m.st) THEN m.vs ELSE Bad128]
StatesTold == (kind = "code128" /\ text = <<>>) =>
  LET all == ParseStates(kind) \cup {"bad"} IN Cardinality({Answers(st) : st \in all}) = Cardinality(all)
\* The limits, in numbers: 256 bytes, none for Code 128, and what is within them is not refused for its length.
Good == state # "bad"
LimitsEdge == [][LET n == bytes' IN
  /\ kind \in {"code39", "code93", "code11", "codabar", "itf", "stf"} =>
       (Verdict(kind, text', found) = "Length") = (n > 256)
  /\ (kind = "code128" /\ n >= 3 /\ n < 260) => Verdict(kind, text', found) # "Length"
  /\ kind = "eansupp" /\ state' # "bad" /\ n < 15 => (Verdict(kind, text', found) = "ok") = (n \in {2, 5})
  /\ kind = "ean13" /\ n < 15 => (Verdict(kind, text', found) = "Length") = (n \notin {12, 13})
  /\ kind = "ean8" /\ n < 15 => (Verdict(kind, text', found) = "Length") = (n \notin {7, 8})
  /\ kind = "upca" /\ n < 15 => (Verdict(kind, text', found) = "Length") = (n \notin {11, 12})]_vars
ASSUME \A n \in {256, 257, 300, 1000} : Verdict("code128", <<SelB>> \o [i \in 1..n |-> 97], {}) = "ok"
\* No continuation saves a bad input.
BadStays == [][(kind = "code128" /\ state' = "bad") =>
                 \A t \in {<<>>, <<48>>, <<65>>, <<48, 48>>, <<SelB>>} : Parse128(text' \o t, found) = Bad128]_vars
\* A digit pair in progress always can be completed.
PendingCompletes == state \in Pending => \E c \in 48..57 : ParseAccepts(ParseStep(kind, state, c, found).st)

MCExplored == IF IOEnv.SYMS = "all" THEN Syms ELSE IF IOEnv.SYMS = "variable" THEN VarLen ELSE {IOEnv.SYMS}
MCFindings == IF IOEnv.SYMS \in {"all", "code128"} THEN SUBSET Code128Findings ELSE {{}}
=============================================================================
