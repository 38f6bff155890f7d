------------------------------ MODULE Distinct ------------------------------
(***************************************************************************)
(* Error detection and distinctness, for inputs of every length.            *)
(*                                                                         *)
(* Part "errors" reads a complete number and a mistyped copy of it side by  *)
(* side through two modulo-10 registers, the check digit first.  The copy   *)
(* has one wrong digit, or two neighbours exchanged, anywhere.  The state   *)
(* graph is finite, so the invariant holds for numbers of every length.     *)
(*                                                                         *)
(* The other parts draw two different value sequences side by side with     *)
(* the emit machine of one symbology.  The one that is behind draws next;   *)
(* `ahead` is what the other has drawn beyond it.  A pair whose modules     *)
(* differ is forgotten.  If both could end with nothing ahead, two          *)
(* different messages would have the same bars.  This is the dangling       *)
(* suffix test for unique decodability, with guards and states.             *)
(***************************************************************************)
EXTENDS Machines, IOUtils

CONSTANTS Parts,    \* of {"errors"} and the symbologies
          Vals(_),  \* symbol values fed in each symbology
          Knowns(_) \* the sets of known findings under which each is explored

VARIABLES part, found, left, right, ahead, stage
vars == <<part, found, left, right, ahead, stage>>

-----------------------------------------------------------------------------
(* Mistyped numbers.  left and right are registers; stage is "same",        *)
(* <<"held", y>> between the two halves of an exchange (y is the digit that *)
(* was read first in the original), or "wrong".                             *)
Other10(ph) == IF ph = 1 THEN 2 ELSE 1
\* The check digit is at the right end, with weight 1; then 3, 1, 3, ...
ErrInit == left = [ph |-> 2, sum |-> 0] /\ right = [ph |-> 2, sum |-> 0] /\ ahead = <<>> /\ stage = <<"same">>
Both(x, y) == left' = RegStep("mod10", left, x) /\ right' = RegStep("mod10", right, y) /\ UNCHANGED <<part, found, ahead>>
Agree(x) == stage[1] # "held" /\ Both(x, x) /\ UNCHANGED stage
WrongDigit(x, y) == stage = <<"same">> /\ x # y /\ Both(x, y) /\ stage' = <<"wrong">>
\* Exchanging x and y: the original reads y then x (from the right), the copy x then y.
Exchange1(x, y) == stage = <<"same">> /\ (x - y) \notin {0, 5, 0 - 5} /\ Both(y, x) /\ stage' = <<"held", x, y>>
Exchange2 == stage[1] = "held" /\ Both(stage[2], stage[3]) /\ stage' = <<"wrong">>
ErrNext == part = "errors" /\
  \/ \E x \in 0..9 : Agree(x)
  \/ \E x, y \in 0..9 : WrongDigit(x, y) \/ Exchange1(x, y)
  \/ Exchange2
\* A right number, mistyped, is never right.
Caught == (part = "errors" /\ stage = <<"wrong">> /\ left.sum = 0) => right.sum # 0

-----------------------------------------------------------------------------
(* Two messages.  left and right are [emit, end]; ahead is <<who, modules>>.*)
Row0(sym) == IF sym = "eansupp" THEN 0..9 ELSE {0}
Counts(sym) == IF sym = "eansupp" THEN {2, 5} ELSE {0}
Starts(sym) == {e \in {EmitInit(sym, n, r) : n \in Counts(sym), r \in Row0(sym)} :
                  sym = "eansupp" => (e.pos < 50 => e.row < 4)}
MayEnd(sym, st) ==
  CASE sym = "ean13" -> st.pos = 13 [] sym = "ean8" -> st.pos = 8 [] sym = "upca" -> st.pos = 12
    [] sym = "eansupp" -> st.pos \in {22, 55}
    [] sym = "itf" -> st.pos = 0
    [] sym = "codabar" -> st.pos = 1
    [] OTHER -> TRUE
MustEnd(sym, st) == sym \in Retail \cup {"eansupp"} /\ MayEnd(sym, st)
DrawInit ==
  /\ \E e, f \in Starts(part) : /\ left = [emit |-> e, end |-> FALSE] /\ right = [emit |-> f, end |-> FALSE]
                                /\ stage = IF e = f THEN <<"same">> ELSE <<"differ">>
  /\ ahead = <<"none", <<>>>>
\* One side draws `out`.  What is ahead afterwards, or Lost when the modules differ.
Lost == <<"lost", <<>>>>
After(who, out) ==
  LET d == ahead[2] n == Len(out) m == Len(d) IN
  IF ahead[1] \in {"none", who} THEN IF d \o out = <<>> THEN <<"none", <<>>>> ELSE <<who, d \o out>>
  ELSE IF \E i \in 1..(IF n < m THEN n ELSE m) : d[i] # out[i] THEN Lost
  ELSE IF n = m THEN <<"none", <<>>>>
  ELSE IF n < m THEN <<ahead[1], SubSeq(d, n + 1, m)>>
  ELSE <<who, SubSeq(out, m + 1, n)>>
Step(e, v) == EmitStep(part, e.emit, v, found)
Fed(e, v) == [e EXCEPT !.emit = Step(e, v).st]
Ended(e) == [e EXCEPT !.end = TRUE]
CanFeed(e) == ~e.end /\ ~MustEnd(part, e.emit)
CanEnd(e) == ~e.end /\ MayEnd(part, e.emit)
\* The same value on both sides, while they are the same.
Together == /\ stage = <<"same">> /\ CanFeed(left)
            /\ \E v \in Vals(part) : left' = Fed(left, v) /\ right' = Fed(right, v)
            /\ UNCHANGED <<part, found, ahead, stage>>
\* They part ways: the left draws one value, the right will draw another or end.
Diverge == /\ stage = <<"same">> /\ CanFeed(left)
           /\ \E v \in Vals(part) : /\ left' = Fed(left, v)
                                    /\ ahead' = After("left", Step(left, v).out)
                                    /\ stage' = <<"owe", v>>
           /\ UNCHANGED <<part, found, right>>
Pay == /\ stage[1] = "owe"
       /\ \/ \E v \in Vals(part) \ {stage[2]} : right' = Fed(right, v) /\ ahead' = After("right", Step(right, v).out)
          \/ CanEnd(right) /\ right' = Ended(right) /\ ahead' = After("right", EmitEnd(part))
       /\ stage' = <<"differ">> /\ ahead' # Lost /\ UNCHANGED <<part, found, left>>
Behind(who) == ahead[1] # who
Continue ==
  /\ stage = <<"differ">> /\ UNCHANGED <<part, found, stage>>
  /\ \/ /\ Behind("left") /\ UNCHANGED right
        /\ \/ CanFeed(left) /\ \E v \in Vals(part) : left' = Fed(left, v) /\ ahead' = After("left", Step(left, v).out)
           \/ CanEnd(left) /\ left' = Ended(left) /\ ahead' = After("left", EmitEnd(part))
     \/ /\ ~Behind("left") \/ left.end
        /\ UNCHANGED left
        /\ Behind("right")
        /\ \/ CanFeed(right) /\ \E v \in Vals(part) : right' = Fed(right, v) /\ ahead' = After("right", Step(right, v).out)
           \/ CanEnd(right) /\ right' = Ended(right) /\ ahead' = After("right", EmitEnd(part))
  /\ ahead' # Lost
DrawNext == part # "errors" /\ (Together \/ Diverge \/ Pay \/ Continue)
Apart == (part # "errors" /\ stage = <<"differ">> /\ left.end /\ right.end) => ahead[2] # <<>>
\* Nobody is ever ahead by more than one character and the end: the graph is finite.
Bounded == part # "errors" => Len(ahead[2]) <= 40

Init == part \in Parts /\ found \in Knowns(part) /\ IF part = "errors" THEN ErrInit ELSE DrawInit
Next == ErrNext \/ DrawNext
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
MCParts == IF IOEnv.PART = "all" THEN {"errors"} \cup Syms ELSE {IOEnv.PART}
MCVals(sym) == EmitVals(sym)
MCKnowns(p) == IF p = "codabar" THEN SUBSET CodabarFindings ELSE {{}}
=============================================================================
