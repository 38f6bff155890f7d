------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters are Unicode code points (naturals), strings are sequences of *)
(* code points, modules are 0 (space) and 1 (bar), and an encoding is a    *)
(* sequence of modules.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

\* The 95 printable ASCII characters in code point order, from 32.
Printable == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
  "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
  "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
  "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

CpOf == TLCEval([s \in Range(Printable) |-> 31 + (CHOOSE i \in DOMAIN Printable : Printable[i] = s)])

\* A string written with printable one-character strings, as code points.
Cps(ss) == [i \in DOMAIN ss |-> CpOf[ss[i]]]

IsDigit(c) == c \in 48..57
Digit(c)   == c - 48
DigitCp(d) == d + 48
Digits(cps)  == [i \in DOMAIN cps |-> cps[i] - 48]
DigitCps(ds) == [i \in DOMAIN ds |-> ds[i] + 48]

\* Bytes of a code point, and of a string, in UTF-8.
Utf8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Utf8Len(cps) == SumSeq([i \in DOMAIN cps |-> Utf8(cps[i])])

\* The k decimal digits of n, most significant first (widths are written as numbers).
W(n, k) == TLCEval([i \in 1..k |-> (n \div (10 ^ (k - i))) % 10])

Repeat(x, n) == [i \in 1..n |-> x]
Flat(ss) == FlattenSeq(ss)

\* Modules of a list of element widths, alternating, beginning with a bar / with a space.
BarsOf(ws)   == TLCEval(Flat([i \in DOMAIN ws |-> Repeat(i % 2, ws[i])]))
SpacesOf(ws) == TLCEval(Flat([i \in DOMAIN ws |-> Repeat((i + 1) % 2, ws[i])]))

\* The inverse of an injective function.
InvOf(f) == TLCEval([y \in {f[x] : x \in DOMAIN f} |-> CHOOSE x \in DOMAIN f : f[x] = y])

\* The widths of the maximal runs of equal modules.
RunWidths(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET cuts == SetToSortSeq({i \in 1..(Len(b) - 1) : b[i] # b[i + 1]} \cup {Len(b)}, <)
       IN  [i \in DOMAIN cuts |-> IF i = 1 THEN cuts[1] ELSE cuts[i] - cuts[i - 1]]

IsModules(b) == \A i \in DOMAIN b : b[i] \in {0, 1}
=============================================================================
