----------------------------- MODULE Registers -----------------------------
(***************************************************************************)
(* The complete graph of every check machine: all reachable register       *)
(* contents and, from each, every next symbol value.  `seen` is one way to  *)
(* reach the register and is hidden from TLC's state identity (VIEW), so    *)
(* the graph is finite although inputs are not.  On every edge the machine  *)
(* is compared with the standard's formula on the whole input.              *)
(***************************************************************************)
EXTENDS Machines, IOUtils

CONSTANTS Explored,       \* the machines explored
          ValuesOf(_)     \* the symbol values fed to each

VARIABLES machine, reg, seen
vars == <<machine, reg, seen>>
View == <<machine, reg>>

Init == machine \in Explored /\ reg = RegInit /\ seen = <<>>
Feed(v) ==
  /\ reg' = RegStep(machine, reg, v)
  /\ seen' = IF Check[machine].dir = "ltr" THEN Append(seen, v) ELSE <<v>> \o seen
  /\ machine' = machine
Next == \E v \in ValuesOf(machine) : Feed(v)
Spec == Init /\ [][Next]_vars

TypeOK == /\ reg.ph \in DOMAIN Check[machine].weights
          /\ reg.sum \in 0..(Check[machine].mod - 1)
\* The register holds exactly what the standard prescribes for the input read so far: on every edge.
EdgeRight == [][RegOut(machine, reg'.sum) = CheckSpec(machine, seen')]_vars
(* As `seen` is hidden, an edge may lead to a register that was explored    *)
(* with another input.  That is sound only if the edge leads to the right   *)
(* register, which one value alone cannot show: so on every edge the        *)
(* machine is also fed a little more, enough to tell any two registers      *)
(* apart (a characterising set, as in the W-method for testing automata),   *)
(* and compared with the formula again.                                     *)
More == {<<1>>, <<1, 1>>}
Joined(p, s, t) == IF Check[p].dir = "ltr" THEN s \o t ELSE Reverse(t) \o s
Ahead == [][\A t \in More : RegOut(machine, FoldLeft(LAMBDA r, v : RegStep(machine, r, v), reg', t).sum)
                              = CheckSpec(machine, Joined(machine, seen', t))]_vars
\* Any two registers are told apart by what they say now or after one of More.
Told(p, r) == <<RegOut(p, r.sum)>> \o [i \in 1..2 |-> RegOut(p, FoldLeft(LAMBDA q, v : RegStep(p, q, v), r, SubSeq(<<1, 1>>, 1, i)).sum)]
Telling == \A p \in Explored : LET all == [ph : DOMAIN Check[p].weights, sum : 0..(Check[p].mod - 1)]
                                   says == [r \in all |-> Told(p, r)]
                               IN Cardinality(Range(says)) = Cardinality(all)
ASSUME Telling

-----------------------------------------------------------------------------
(* What a modulo-10 digit can detect, on the register graph: from equal     *)
(* registers, feeding two different digits leaves different sums, and       *)
(* feeding two adjacent digits in the other order leaves different sums     *)
(* unless they are equal or differ by five.  Since the step is a bijection  *)
(* of the sum for each digit that follows, the difference survives to the   *)
(* end, so the check digit differs.                                         *)
Sum2(p, r, x, y) == RegStep(p, RegStep(p, r, x), y).sum
DetectsSingle == machine = "mod10" => \A x, y \in 0..9 : x # y => RegStep("mod10", reg, x).sum # RegStep("mod10", reg, y).sum
DetectsSwap == machine = "mod10" =>
  \A x, y \in 0..9 : (Sum2("mod10", reg, x, y) = Sum2("mod10", reg, y, x)) <=> (x - y) \in {0, 5, 0 - 5}
DifferenceSurvives == machine \in {"mod10", "c39", "c93C", "c93K", "c11C", "c11K"} =>
  \A v \in 0..(Check[machine].size - 1) :
    \A s \in 0..(Check[machine].mod - 1) :
      s # reg.sum => RegStep(machine, reg, v).sum # RegStep(machine, [reg EXCEPT !.sum = s], v).sum
\* The check digit itself: another one, or the check digit swapped with its neighbour, is caught.
CheckDigitCaught == machine = "mod10" =>
  \A v \in 0..9 : LET s == RegStep("mod10", RegInit, v).sum IN
     \* reg.sum stands for what the other digits add; v is the digit next to the check digit c
     LET c == RegOut("mod10", (reg.sum + s) % 10)
         swapped == RegOut("mod10", (reg.sum + RegStep("mod10", RegInit, c).sum) % 10)
     IN (swapped = v) => (v - c) \in {0, 5, 0 - 5}

-----------------------------------------------------------------------------
Deep == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER = "thorough" ELSE FALSE
MCExplored == IF IOEnv.MACHINES = "all" THEN CheckNames
              ELSE IF IOEnv.MACHINES = "ean" THEN {"ean2", "ean5"}
              ELSE IF IOEnv.MACHINES = "c93" THEN {"c93C", "c93K"}
              ELSE IF IOEnv.MACHINES = "c11" THEN {"c11C", "c11K"}
              ELSE {IOEnv.MACHINES}
MCValuesOf(p) == IF p = "c128" /\ ~Deep THEN {0, 1, 2, 50, 64, 102, 105} ELSE 0..(Check[p].size - 1)
=============================================================================
