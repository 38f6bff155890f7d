---------------------------- MODULE MCEncoding ----------------------------
(* Bounded-exhaustive instances of Encoding.  Environment: CTORS names the  *)
(* constructors (joined by +), TIER is quick or thorough.                   *)
EXTENDS Encoding, IOUtils

Deep == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER = "thorough" ELSE FALSE
AllCtors == Syms \cup {"code39c"}
MCWhich == IF IOEnv.CTORS = "all" THEN AllCtors ELSE {IOEnv.CTORS}

Strings(S, n) == [1..n -> S]
UpTo(S, n) == UNION {Strings(S, k) : k \in 0..n}
Const(x, n) == [q \in 1..n |-> x]
\* Every string of length n that differs from a constant one in at most one place.
OneOff(S, base, n) == {[Const(b, n) EXCEPT ![q] = x] : b \in base, q \in 1..n, x \in S}
Outside == {47, 58, 178, 1632, 65297}   \* '/', ':', superscript two, Arabic and fullwidth digits
D == 48..57
RetailInputs(n) ==
  LET full == OneOff(D, IF Deep THEN D ELSE {48, 55}, n)
      some == OneOff({48, 53}, {49}, n)
  IN full \cup {Append(t, x) : t \in some, x \in D \cup {65}} \cup OneOff(Outside, {49}, n)
     \cup {Const(49, k) : k \in 0..(n + 3)} \cup OneOff({49, 1632}, {1632}, n \div 2)
Reps128 == {SelA, SelB, SelC, 48, 57, 65, 10, 97, 127, 247, Fnc1, Fnc2, Fnc4, Shift, 233}
Long128 == IF Deep THEN {<<h>> \o Const(x, n) : h \in Selectors, x \in {48, 65, Fnc1}, n \in {102, 103, 104, 206, 207}}
           ELSE {<<SelB>> \o Const(97, n) : n \in {102, 103, 104}}

MCInputsOf(c) ==
  LET s == SymOf(c) IN
  CASE s = "ean13" -> RetailInputs(12) [] s = "upca" -> RetailInputs(11) [] s = "ean8" -> RetailInputs(7)
    [] s = "eansupp" -> UpTo(D, 2) \cup OneOff(D, D, 5) \cup OneOff(Outside, {49}, 5) \cup {Const(49, k) : k \in 3..6}
                        \cup (IF Deep THEN Strings(D, 5) ELSE {})
    [] s = "code128" -> {<<h>> \o t : h \in Reps128, t \in UpTo(Reps128, IF Deep THEN 4 ELSE 2)}
                        \cup {<<h>> \o <<x>> \o t : h \in Selectors, x \in CharsOf("code128"), t \in {<<>>, <<49>>, <<49, 50>>}}
                        \cup Long128 \cup {<<>>}
    [] OTHER -> LET A == AlphabetOf[s] IN
        UpTo(A, IF Deep THEN 2 ELSE 1) \cup UpTo({CHOOSE x \in A : TRUE, 48, 57, 46} \cap A, 4)
        \cup {Const(x, n) : x \in IF Deep THEN A ELSE {48, 57}, n \in {5, 8, 9, 10, 11, 12, 14, 15, 16, 19, 20, 21, 22, 31, 41}}
        \cup OneOff({48, 57}, {50}, 23)
        \cup {Const(48, n) : n \in {255, 256, 257}}
        \cup {Append(Const(48, n), x) : n \in {0, 1, 254, 255, 256}, x \in Outside \cup {97, 128512}}
        \cup (IF s \in {"itf", "stf"} THEN UpTo(D, IF Deep THEN 4 ELSE 3) ELSE {})
=============================================================================
