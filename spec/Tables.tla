------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* What the standards say about their own tables, apart from listing them:  *)
(* the number of wide elements, of modules, of dark modules, which patterns *)
(* exist at all, and for Code 39 and the two-of-five code the construction  *)
(* that yields every pattern.  A slip of the pen in Standards is caught     *)
(* here, before any code is looked at.                                      *)
(***************************************************************************)
EXTENDS Standards, IOUtils

VARIABLES table, read
vars == <<table, read>>

Injective(f) == \A x, y \in DOMAIN f : f[x] = f[y] => x = y
Sum(ws) == SumSeq(ws)
BarsAt(ws) == SumSeq([i \in DOMAIN ws |-> IF i % 2 = 1 THEN ws[i] ELSE 0])
WideIn(ws, par, least) == Cardinality({i \in DOMAIN ws : i % 2 = par /\ ws[i] >= least})
Dark(ms) == SumSeq(ms)
\* The widths of n elements that sum to m.
Compositions(n, m) == {ws \in [1..n -> 1..4] : SumSeq(ws) = m}

-----------------------------------------------------------------------------
\* EAN: seven modules in two bars and two spaces; A has an odd number of dark modules, B and C an even one;
\* the three sets share no pattern, and C is A with the colours exchanged.
EanLaws ==
  /\ \A d \in 0..9 : /\ Len(SetA[d]) = 7 /\ Len(SetB[d]) = 7 /\ Len(SetC[d]) = 7
                     /\ Dark(SetA[d]) % 2 = 1 /\ Dark(SetB[d]) % 2 = 0 /\ Dark(SetC[d]) % 2 = 0
                     /\ \A i \in 1..7 : SetA[d][i] + SetC[d][i] = 1
                     /\ SetA[d][1] = 0 /\ SetB[d][1] = 0 /\ SetC[d][1] = 1 /\ SetA[d][7] = 1 /\ SetB[d][7] = 1 /\ SetC[d][7] = 0
                     /\ Reverse(SetB[d]) = SetC[d]
  /\ Injective([x \in {"A", "B", "C"} \X (0..9) |-> Pattern(x[1], x[2])])
  \* every composition of seven into four, in A or in B
  /\ {W(DigitWidths[i], 4) : i \in 1..10} \cup {Reverse(W(DigitWidths[i], 4)) : i \in 1..10} = Compositions(4, 7)
\* Six digits on the left, the first always odd; three of the others even, unless the first digit is 0.
ParityLaws ==
  /\ Len(Ean13Parity) = 10 /\ Injective(Ean13Parity)
  /\ \A i \in 1..10 : LET p == Ean13Parity[i] IN
       Len(p) = 6 /\ p[1] = "A" /\ Range(p) \subseteq {"A", "B"} /\ Cardinality({k \in 1..6 : p[k] = "B"}) = IF i = 1 THEN 0 ELSE 3
  \* the five that are free: every choice of three but one, which is digit 0's place
  /\ Injective(Ean5Parity) /\ Len(Ean5Parity) = 10
  /\ Range(Ean5Parity) = {p \in [1..5 -> {"A", "B"}] : Cardinality({k \in 1..5 : p[k] = "B"}) = 2}
  /\ Range(Ean2Parity) = [1..2 -> {"A", "B"}] /\ Injective(Ean2Parity)
  /\ \A v \in 0..3 : v = 2 * (IF Ean2Parity[v + 1][1] = "B" THEN 1 ELSE 0) + (IF Ean2Parity[v + 1][2] = "B" THEN 1 ELSE 0)

\* Two of five: position weights 1, 2, 4, 7, 0.
TwoOfFive(d) == {i \in 1..5 : TfWidths[d][i] = 3}
TfLaws ==
  /\ Injective(TfWidths)
  /\ \A d \in 0..9 : Cardinality(TwoOfFive(d)) = 2 /\ \A i \in 1..5 : TfWidths[d][i] \in {1, 3}
  /\ {TwoOfFive(d) : d \in 0..9} = {S \in SUBSET (1..5) : Cardinality(S) = 2}
  /\ \A a, b \in 0..9 : Len(ItfPair[a][b]) = 18 /\ Dark(ItfPair[a][b]) = 9
  /\ \A d \in 0..9 : Len(StfPat[d]) = 14 /\ Dark(StfPat[d]) = 9
  \* a start is no beginning of a character, nor the two ends mirror images of each other
  /\ Reverse(ItfStart) # ItfStop /\ Reverse(StfStart) # StfStop

\* Code 39: four groups of ten; in each the bars count 1, ..., 9, 0 as in two of five, and the wide space tells the group.
Space39 == << 4, 6, 8, 2 >>
Chars39 == [q \in 1..4 |-> CASE q = 1 -> <<"1","2","3","4","5","6","7","8","9","0">> [] q = 2 -> <<"A","B","C","D","E","F","G","H","I","J">>
                             [] q = 3 -> <<"K","L","M","N","O","P","Q","R","S","T">> [] q = 4 -> <<"U","V","W","X","Y","Z","-","."," ","*">>]
Built39(q, k) == [i \in 1..9 |-> IF i % 2 = 1 THEN (IF ((i + 1) \div 2) \in TwoOfFive(k % 10) THEN 2 ELSE 1)
                                 ELSE IF i = Space39[q] THEN 2 ELSE 1]
Special39 == [c \in {"$", "/", "+", "%"} |-> CASE c = "$" -> 8 [] c = "/" -> 6 [] c = "+" -> 4 [] c = "%" -> 2]  \* the one narrow space
Widths39(name) == IF name = "*" THEN Narrow2(010010100) ELSE Narrow2(Code39Tab[CHOOSE i \in 1..43 : Code39Tab[i][1] = name][2])
C39Laws ==
  /\ Len(Code39Tab) = 43 /\ Injective([i \in 1..43 |-> Code39Tab[i][1]]) /\ Injective([i \in 1..43 |-> Code39Tab[i][2]])
  /\ \A q \in 1..4, k \in 1..10 : Widths39(Chars39[q][k]) = Built39(q, k)
  /\ \A c \in DOMAIN Special39 : Widths39(c) = [i \in 1..9 |-> IF i % 2 = 1 \/ i = Special39[c] THEN 1 ELSE 2]
  \* values: digits, letters, then - . SPACE $ / + %
  /\ \A v \in 0..9 : Code39Cp[v] = 48 + v
  /\ \A v \in 10..35 : Code39Cp[v] = 55 + v
  /\ [v \in 1..7 |-> Code39Cp[35 + v]] = << 45, 46, 32, 36, 47, 43, 37 >>
  /\ Code39Guard = BarsOf(Built39(4, 10))

\* Code 93: nine modules in three bars and three spaces, none wider than four.
C93Laws ==
  /\ Len(Code93Tab) = 47 /\ Injective([i \in 1..47 |-> Code93Tab[i][1]])
  /\ Injective([i \in 1..48 |-> IF i = 48 THEN 111141 ELSE Code93Tab[i][2]])
  /\ \A i \in 1..47 : W(Code93Tab[i][2], 6) \in Compositions(6, 9)
  /\ W(111141, 6) \in Compositions(6, 9)
  /\ \A v \in 0..42 : Code93Cp[v] = Code39Cp[v]
  /\ \A v \in 0..46 : Len(Code93Pat[v]) = 9 /\ Code93Pat[v][9] = 0

\* Code 11: one or two wide elements; the guard has two.
C11Laws ==
  /\ Len(Code11Tab) = 11 /\ Injective([i \in 1..12 |-> IF i = 12 THEN 11221 ELSE Code11Tab[i][2]])
  /\ \A i \in 1..11 : LET ws == W(Code11Tab[i][2], 5)  n == Cardinality({k \in 1..5 : ws[k] = 2}) IN
       Range(ws) \subseteq {1, 2} /\ n = (IF Code11Tab[i][1] \in {"0", "9", "-"} THEN 1 ELSE 2)
  /\ \A v \in 0..9 : Code11Cp[v] = 48 + v
  /\ Code11Cp[10] = 45 /\ Cardinality({k \in 1..5 : W(11221, 5)[k] = 2}) = 2
  /\ \A i \in 1..11 : Len(BarsOf(W(Code11Tab[i][2], 5))) = IF Code11Tab[i][1] \in {"0", "9", "-"} THEN 6 ELSE 7

\* Codabar: digits, - and $ have one wide bar and one wide space; : / . + three wide bars; letters one and two.
CodabarLaws ==
  /\ Len(CodabarTab) = 20 /\ Injective([i \in 1..20 |-> CodabarTab[i][1]]) /\ Injective([i \in 1..20 |-> CodabarTab[i][2]])
  /\ \A i \in 1..20 : LET ws == W(CodabarTab[i][2], 7)  b == WideIn(ws, 1, 2)  s == WideIn(ws, 0, 2) IN
       /\ Range(ws) \subseteq {1, 2}
       /\ <<b, s>> = (IF CodabarTab[i][1] \in {":", "/", ".", "+"} THEN <<3, 0>>
                      ELSE IF CodabarTab[i][1] \in {"A", "B", "C", "D"} THEN <<1, 2>> ELSE <<1, 1>>)
  \* one wide bar and one wide space: all twelve; three wide bars: all four
  /\ {ws \in [1..7 -> {1, 2}] : <<WideIn(ws, 1, 2), WideIn(ws, 0, 2)>> \in {<<1, 1>>, <<3, 0>>}}
       \subseteq {W(CodabarTab[i][2], 7) : i \in 1..20}

\* Code 128: eleven modules, an even number of them dark; values 96 to 105 do not mean characters.
C128Laws ==
  /\ Len(Code128Widths) = 106 /\ Injective(Code128Widths)
  /\ \A v \in 0..105 : LET ws == W(Code128Widths[v + 1], 6) IN ws \in Compositions(6, 11) /\ BarsAt(ws) % 2 = 0
  \* all such patterns but two: the stop (2331112 begins 233111) and its mirror image begin with those
  /\ {ws \in Compositions(6, 11) : BarsAt(ws) % 2 = 0} \ {W(Code128Widths[v], 6) : v \in 1..106} = { <<2,1,1,1,3,3>>, <<2,3,3,1,1,1>> }
  /\ Len(Code128Stop) = 13 /\ Dark(Code128Stop) = 8
  /\ \A set \in {"A", "B", "C"} : Injective([v \in Single(set) |-> Meaning(set, v, {})])
  \* A: 64 signs from SPACE and the 32 controls; B: the 96 from SPACE to DEL
  /\ {c \in CharsIn("A", {}) : c < 128} = 0..95
  /\ {c \in CharsIn("B", {}) : c < 128} = 32..127
  /\ {c \in CharsIn("C", {}) : c < 128} = {}
  \* a set can be left for each other set, and a function character is the same in A and B but for FNC4
  /\ \A set \in {"A", "B", "C"} : CharsIn(set, {}) \cap Selectors = Selectors \ {SelOf(set)}
  /\ \A f \in {Fnc1, Fnc2, Fnc3, Shift} : ValueIn("A", {})[f] = ValueIn("B", {})[f]
  /\ ValueIn("A", {})[Fnc4] = ValueIn("B", {})[SelA] /\ ValueIn("B", {})[Fnc4] = ValueIn("A", {})[SelB]
  /\ \A s \in {"A", "B"} : ValueIn(s, {})[SelC] = 99
  /\ ValueIn("C", {})[Fnc1] = ValueIn("A", {})[Fnc1]
  /\ \A a, b \in {"A", "B", "C"} : a # b => StartVal(a) # StartVal(b)

Laws(t) == CASE t = "ean" -> EanLaws [] t = "parity" -> ParityLaws [] t = "tf" -> TfLaws [] t = "code39" -> C39Laws
             [] t = "code93" -> C93Laws [] t = "code11" -> C11Laws [] t = "codabar" -> CodabarLaws [] t = "code128" -> C128Laws
Init == table \in (IF IOEnv.TABLES = "all" THEN {"ean", "parity", "tf", "code39", "code93", "code11", "codabar", "code128"}
                   ELSE IF IOEnv.TABLES = "retail" THEN {"ean", "parity"} ELSE {IOEnv.TABLES}) /\ read = FALSE
Next == ~read /\ read' = TRUE /\ table' = table
Spec == Init /\ [][Next]_vars
AsPublished == read => Laws(table)
=============================================================================
