----------------------------- MODULE Standards -----------------------------
(***************************************************************************)
(* The published symbologies, written as element widths (the way the       *)
(* standards give them) and weighting rules, not as the module tables of   *)
(* the implementation.                                                     *)
(*                                                                         *)
(* The operators that depend on a known finding of the implementation take *)
(* a set K of finding names; K = {} is the standard.                       *)
(***************************************************************************)
EXTENDS Chars

Retail == {"ean13", "ean8", "upca"}
VarLen == {"codabar", "code11", "code39", "code93", "itf", "stf"}
Syms   == Retail \cup VarLen \cup {"eansupp", "code128"}

-----------------------------------------------------------------------------
(* Modulo-10 check digit: weights 3,1,3,... starting next to the check.     *)
Mod10(ds) ==
  LET n == Len(ds)
      s == SumSeq([i \in 1..n |-> ds[i] * (IF (n - i) % 2 = 0 THEN 3 ELSE 1)])
  IN  (10 - (s % 10)) % 10

-----------------------------------------------------------------------------
(* EAN and UPC digit patterns.  Set A is four elements beginning with a     *)
(* space; C has the widths of A beginning with a bar; B is C mirrored.      *)
DigitWidths == << 3211, 2221, 2122, 1411, 1132, 1231, 1114, 1312, 1213, 3112 >>
SetA == TLCEval([d \in 0..9 |-> SpacesOf(W(DigitWidths[d + 1], 4))])
SetC == TLCEval([d \in 0..9 |-> BarsOf(W(DigitWidths[d + 1], 4))])
SetB == TLCEval([d \in 0..9 |-> Reverse(SetC[d])])

NormalGuard == <<1, 0, 1>>
CentreGuard == <<0, 1, 0, 1, 0>>
AddOnGuard  == <<1, 0, 1, 1>>
AddOnSep    == <<0, 1>>

\* Left-half parity of EAN-13 by first digit: "A" odd parity, "B" even parity.
Ean13Parity ==
  << <<"A","A","A","A","A","A">>, <<"A","A","B","A","B","B">>, <<"A","A","B","B","A","B">>,
     <<"A","A","B","B","B","A">>, <<"A","B","A","A","B","B">>, <<"A","B","B","A","A","B">>,
     <<"A","B","B","B","A","A">>, <<"A","B","A","B","A","B">>, <<"A","B","A","B","B","A">>,
     <<"A","B","B","A","B","A">> >>
Ean5Parity ==
  << <<"B","B","A","A","A">>, <<"B","A","B","A","A">>, <<"B","A","A","B","A">>, <<"B","A","A","A","B">>,
     <<"A","B","B","A","A">>, <<"A","A","B","B","A">>, <<"A","A","A","B","B">>, <<"A","B","A","B","A">>,
     <<"A","B","A","A","B">>, <<"A","A","B","A","B">> >>
Ean2Parity == << <<"A","A">>, <<"A","B">>, <<"B","A">>, <<"B","B">> >>

Pattern(set, d) == CASE set = "A" -> SetA[d] [] set = "B" -> SetB[d] [] set = "C" -> SetC[d]

Ean5Check(ds) == (3 * (ds[1] + ds[3] + ds[5]) + 9 * (ds[2] + ds[4])) % 10
Ean2Value(ds) == 10 * ds[1] + ds[2]
AddOnParity(ds) == IF Len(ds) = 2 THEN Ean2Parity[(Ean2Value(ds) % 4) + 1] ELSE Ean5Parity[Ean5Check(ds) + 1]

-----------------------------------------------------------------------------
(* Code 39: nine elements, three of them wide (1 = wide; two modules here). *)
Code39Tab == <<
  <<"0", 000110100>>, <<"1", 100100001>>, <<"2", 001100001>>, <<"3", 101100000>>, <<"4", 000110001>>,
  <<"5", 100110000>>, <<"6", 001110000>>, <<"7", 000100101>>, <<"8", 100100100>>, <<"9", 001100100>>,
  <<"A", 100001001>>, <<"B", 001001001>>, <<"C", 101001000>>, <<"D", 000011001>>, <<"E", 100011000>>,
  <<"F", 001011000>>, <<"G", 000001101>>, <<"H", 100001100>>, <<"I", 001001100>>, <<"J", 000011100>>,
  <<"K", 100000011>>, <<"L", 001000011>>, <<"M", 101000010>>, <<"N", 000010011>>, <<"O", 100010010>>,
  <<"P", 001010010>>, <<"Q", 000000111>>, <<"R", 100000110>>, <<"S", 001000110>>, <<"T", 000010110>>,
  <<"U", 110000001>>, <<"V", 011000001>>, <<"W", 111000000>>, <<"X", 010010001>>, <<"Y", 110010000>>,
  <<"Z", 011010000>>, <<"-", 010000101>>, <<".", 110000100>>, <<" ", 011000100>>, <<"$", 010101000>>,
  <<"/", 010100010>>, <<"+", 010001010>>, <<"%", 000101010>> >>
Code39Cp  == TLCEval([v \in 0..42 |-> CpOf[Code39Tab[v + 1][1]]])
Code39Val == TLCEval(InvOf(Code39Cp))
Narrow2(n) == LET w == W(n, 9) IN [i \in 1..9 |-> 1 + w[i]]
Code39Pat == TLCEval([v \in 0..42 |-> BarsOf(Narrow2(Code39Tab[v + 1][2]))])
Code39Guard == BarsOf(Narrow2(010010100))
Code39Check(vs) == SumSeq(vs) % 43

-----------------------------------------------------------------------------
(* Code 93: six elements, nine modules.  ( ) [ ] denote ($) (%) (/) (+).    *)
Code93Tab == <<
  <<"0", 131112>>, <<"1", 111213>>, <<"2", 111312>>, <<"3", 111411>>, <<"4", 121113>>, <<"5", 121212>>,
  <<"6", 121311>>, <<"7", 111114>>, <<"8", 131211>>, <<"9", 141111>>, <<"A", 211113>>, <<"B", 211212>>,
  <<"C", 211311>>, <<"D", 221112>>, <<"E", 221211>>, <<"F", 231111>>, <<"G", 112113>>, <<"H", 112212>>,
  <<"I", 112311>>, <<"J", 122112>>, <<"K", 132111>>, <<"L", 111123>>, <<"M", 111222>>, <<"N", 111321>>,
  <<"O", 121122>>, <<"P", 131121>>, <<"Q", 212112>>, <<"R", 212211>>, <<"S", 211122>>, <<"T", 211221>>,
  <<"U", 221121>>, <<"V", 222111>>, <<"W", 112122>>, <<"X", 112221>>, <<"Y", 122121>>, <<"Z", 123111>>,
  <<"-", 121131>>, <<".", 311112>>, <<" ", 311211>>, <<"$", 321111>>, <<"/", 112131>>, <<"+", 113121>>,
  <<"%", 211131>>, <<"(", 121221>>, <<")", 312111>>, <<"[", 311121>>, <<"]", 122211>> >>
Code93Cp  == TLCEval([v \in 0..46 |-> CpOf[Code93Tab[v + 1][1]]])
Code93Val == TLCEval(InvOf(Code93Cp))
Code93Pat == TLCEval([v \in 0..46 |-> BarsOf(W(Code93Tab[v + 1][2], 6))])
Code93Guard == BarsOf(W(111141, 6))

\* Weighted sum from the right, weights 1..wrap repeating.
RightWeighted(vs, wrap, mod) ==
  LET n == Len(vs) IN SumSeq([i \in 1..n |-> vs[i] * (((n - i) % wrap) + 1)]) % mod
Code93C(vs) == RightWeighted(vs, 20, 47)
Code93K(vsc) == RightWeighted(vsc, 15, 47)

-----------------------------------------------------------------------------
(* Code 11: five elements, wide = two modules.                              *)
Code11Tab == <<
  <<"0", 11112>>, <<"1", 21112>>, <<"2", 12112>>, <<"3", 22111>>, <<"4", 11212>>, <<"5", 21211>>,
  <<"6", 12211>>, <<"7", 11122>>, <<"8", 21121>>, <<"9", 21111>>, <<"-", 11211>> >>
Code11Cp  == TLCEval([v \in 0..10 |-> CpOf[Code11Tab[v + 1][1]]])
Code11Val == TLCEval(InvOf(Code11Cp))
Code11Pat == TLCEval([v \in 0..10 |-> BarsOf(W(Code11Tab[v + 1][2], 5))])
Code11Guard == BarsOf(W(11221, 5))
Code11C(vs) == RightWeighted(vs, 10, 11)
Code11K(vsc) == RightWeighted(vsc, 9, 11)
Code11NeedsK(n) == n > 10

-----------------------------------------------------------------------------
(* Codabar: seven elements, wide = two modules.                             *)
CodabarTab == <<
  <<"0", 1111122>>, <<"1", 1111221>>, <<"2", 1112112>>, <<"3", 2211111>>, <<"4", 1121121>>,
  <<"5", 2111121>>, <<"6", 1211112>>, <<"7", 1211211>>, <<"8", 1221111>>, <<"9", 2112111>>,
  <<"-", 1112211>>, <<"$", 1122111>>, <<":", 2111212>>, <<"/", 2121112>>, <<".", 2121211>>,
  <<"+", 1121212>>, <<"A", 1122121>>, <<"B", 1212112>>, <<"C", 1112122>>, <<"D", 1112221>> >>
CodabarChars == TLCEval({CpOf[CodabarTab[i][1]] : i \in DOMAIN CodabarTab})

\* Known findings: what the implementation draws instead of the standard patterns.
\* '+' has two wide spaces too many, and 'B' and 'C' are exchanged.
CodabarWidthsStd == TLCEval([c \in CodabarChars |->
  W(CodabarTab[CHOOSE i \in DOMAIN CodabarTab : CpOf[CodabarTab[i][1]] = c][2], 7)])
CodabarWidths(K) == [c \in CodabarChars |->
  CASE c = CpOf["+"] /\ "codabar-plus" \in K -> W(1122222, 7)
    [] c = CpOf["B"] /\ "codabar-bc" \in K -> CodabarWidthsStd[CpOf["C"]]
    [] c = CpOf["C"] /\ "codabar-bc" \in K -> CodabarWidthsStd[CpOf["B"]]
    [] OTHER -> CodabarWidthsStd[c]]
CodabarFindings == {"codabar-plus", "codabar-bc"}
CodabarPatTab == TLCEval([K \in SUBSET CodabarFindings |-> TLCEval([c \in CodabarChars |-> BarsOf(CodabarWidths(K)[c])])])
CodabarPat(K) == CodabarPatTab[K \cap CodabarFindings]

-----------------------------------------------------------------------------
(* Two-of-five: two of five elements are wide, chosen by the position       *)
(* weights 1,2,4,7,0, with zero as 4+7.  Wide data elements are 3 modules.  *)
TfWeights == <<1, 2, 4, 7, 0>>
TfWide(d) == CHOOSE S \in SUBSET (1..5) :
               /\ Cardinality(S) = 2
               /\ SumSeq([i \in 1..5 |-> IF i \in S THEN TfWeights[i] ELSE 0]) = (IF d = 0 THEN 11 ELSE d)
TfWidths == TLCEval([d \in 0..9 |-> TLCEval([i \in 1..5 |-> IF i \in TfWide(d) THEN 3 ELSE 1])])
ItfStart == BarsOf(<<1, 1, 1, 1>>)
ItfStop  == BarsOf(<<2, 1, 1>>)
StfStart == BarsOf(<<2, 1, 2, 1, 1, 1>>)
StfStop  == BarsOf(<<2, 1, 1, 1, 2, 1>>)
ItfPair  == TLCEval([a \in 0..9 |-> TLCEval([b \in 0..9 |-> BarsOf([k \in 1..10 |->
               IF k % 2 = 1 THEN TfWidths[a][(k + 1) \div 2] ELSE TfWidths[b][k \div 2]])])])
StfPat   == TLCEval([d \in 0..9 |-> BarsOf([k \in 1..10 |-> IF k % 2 = 1 THEN TfWidths[d][(k + 1) \div 2] ELSE 1])])
ItfComplete(ds) == IF Len(ds) % 2 = 1 THEN Append(ds, Mod10(ds)) ELSE ds

-----------------------------------------------------------------------------
(* Code 128: six elements, eleven modules; stop has seven.                  *)
Code128Widths == <<
  212222, 222122, 222221, 121223, 121322, 131222, 122213, 122312, 132212, 221213,
  221312, 231212, 112232, 122132, 122231, 113222, 123122, 123221, 223211, 221132,
  221231, 213212, 223112, 312131, 311222, 321122, 321221, 312212, 322112, 322211,
  212123, 212321, 232121, 111323, 131123, 131321, 112313, 132113, 132311, 211313,
  231113, 231311, 112133, 112331, 132131, 113123, 113321, 133121, 313121, 211331,
  231131, 213113, 213311, 213131, 311123, 311321, 331121, 312113, 312311, 332111,
  314111, 221411, 431111, 111224, 111422, 121124, 121421, 141122, 141221, 112214,
  112412, 122114, 122411, 142112, 142211, 241211, 221114, 413111, 241112, 134111,
  111242, 121142, 121241, 114212, 124112, 124211, 411212, 421112, 421211, 212141,
  214121, 412121, 111143, 111341, 131141, 114113, 114311, 411113, 411311, 113141,
  114131, 311141, 411131, 211412, 211214, 211232 >>
Code128Pat  == TLCEval([v \in 0..105 |-> BarsOf(W(Code128Widths[v + 1], 6))])
Code128Stop == BarsOf(W(2331112, 7))

\* The notation of the library for code-set selectors and function characters.
SelA == 192  SelB == 385  SelC == 262
Fnc1 == 377  Fnc2 == 378  Fnc3 == 379  Fnc4 == 380  Shift == 381
Selectors == {SelA, SelB, SelC}
SelOf(set) == CASE set = "A" -> SelA [] set = "B" -> SelB [] set = "C" -> SelC
SetOf(sel) == CASE sel = SelA -> "A" [] sel = SelB -> "B" [] sel = SelC -> "C"
StartVal(set) == CASE set = "A" -> 103 [] set = "B" -> 104 [] set = "C" -> 105

\* Meaning of a symbol value in a code set: a code point of the notation, or -1 if it has none.
\* (A pair of digits in set C is handled apart.)
Meaning(set, v, K) ==
  CASE set = "A" /\ v <= 63 -> v + 32
    [] set = "A" /\ v \in 64..95 -> v - 64
    [] set = "B" /\ v <= 94 -> v + 32
    [] set = "B" /\ v = 95 -> IF "c128-del" \in K THEN 247 ELSE 127
    [] set \in {"A", "B"} /\ v = 96 -> Fnc3
    [] set \in {"A", "B"} /\ v = 97 -> Fnc2
    [] set \in {"A", "B"} /\ v = 98 -> Shift
    [] set \in {"A", "B"} /\ v = 99 -> SelC
    [] set = "A" /\ v = 100 -> SelB
    [] set = "A" /\ v = 101 -> Fnc4
    [] set = "B" /\ v = 100 -> Fnc4
    [] set = "B" /\ v = 101 -> SelA
    [] set = "C" /\ v = 100 -> SelB
    [] set = "C" /\ v = 101 -> SelA
    [] v = 102 -> Fnc1
    [] OTHER -> 0 - 1
Single(set) == IF set = "C" THEN 100..102 ELSE 0..102
\* The characters of each set with their values.
Code128Findings == {"c128-del", "c128-shift"}
ValueTab == TLCEval([K \in SUBSET {"c128-del"} |-> TLCEval([set \in {"A", "B", "C"} |->
              InvOf([v \in Single(set) |-> Meaning(set, v, K)])])])
ValueIn(set, K) == ValueTab[K \cap {"c128-del"}][set]
CharsTab == TLCEval([K \in SUBSET {"c128-del"} |-> TLCEval([set \in {"A", "B", "C"} |-> TLCEval(DOMAIN ValueTab[K][set])])])
CharsIn(set, K) == CharsTab[K \cap {"c128-del"}][set]
Code128Check(vs) ==
  SumSeq([i \in DOMAIN vs |-> (vs[i] * (IF i = 1 THEN 1 ELSE (i - 1) % 103)) % 103]) % 103
=============================================================================
