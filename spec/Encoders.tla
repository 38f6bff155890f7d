------------------------------ MODULE Encoders ------------------------------
(***************************************************************************)
(* What each constructor accepts and what each barcode encodes to, as      *)
(* functions of the input: the property-level specification.               *)
(*                                                                         *)
(* A barcode is a record [sym, data, chk]: data is the accepted string and *)
(* chk the check-character flag (only Code 39 has one).                    *)
(***************************************************************************)
EXTENDS Standards

-----------------------------------------------------------------------------
(* Acceptance.  The verdict is "ok" or the error kind.                      *)
MinLen(sym) == CASE sym = "ean13" -> 12 [] sym = "ean8" -> 7 [] sym = "upca" -> 11
                 [] sym = "eansupp" -> 2 [] sym = "code128" -> 2 [] OTHER -> 1
MaxLen(sym) == CASE sym = "ean13" -> 13 [] sym = "ean8" -> 8 [] sym = "upca" -> 12
                 [] sym = "eansupp" -> 5 [] OTHER -> 256
BaseLen(sym) == MinLen(sym)   \* of the retail symbologies: digits without the check digit

DigitCpsSet == 48..57
AlphabetOf == TLCEval([sym \in Syms \ {"code128"} |->
  CASE sym = "code39" -> TLCEval(DOMAIN Code39Val)
    [] sym = "code93" -> TLCEval(DOMAIN Code93Val)
    [] sym = "code11" -> TLCEval(DOMAIN Code11Val)
    [] sym = "codabar" -> CodabarChars
    [] OTHER -> DigitCpsSet])

Base(sym, ds) == SubSeq(ds, 1, BaseLen(sym))
RetailOk(sym, ds) == Len(ds) = BaseLen(sym) \/ ds[Len(ds)] = Mod10(Base(sym, ds))

-----------------------------------------------------------------------------
(* Code 128 input, read from the front.  Parse128 gives the sequence of     *)
(* symbol values including the start value, or <<>> when ill-formed.        *)
Other(set) == IF set = "A" THEN "B" ELSE "A"

RECURSIVE Tail128(_, _, _)
\* Tail128(s, set, K): values of the characters of s read in code set `set`, or <<-1>> on error.
Bad128 == <<0 - 1>>
Cons128(v, rest) == IF rest = Bad128 THEN Bad128 ELSE <<v>> \o rest
Tail128(s, set, K) ==
  IF s = <<>> THEN <<>>
  ELSE LET c == Head(s) IN
    IF set = "C" /\ IsDigit(c) THEN
      IF Len(s) >= 2 /\ IsDigit(s[2])
      THEN Cons128(10 * Digit(c) + Digit(s[2]), Tail128(SubSeq(s, 3, Len(s)), set, K))
      ELSE Bad128
    ELSE IF c \notin CharsIn(set, K) THEN Bad128
    ELSE LET v == ValueIn(set, K)[c] IN
      IF c \in Selectors THEN Cons128(v, Tail128(Tail(s), SetOf(c), K))
      ELSE IF c = Shift /\ "c128-shift" \notin K /\ Len(s) >= 2 THEN
        \* the next character is read in the other set, then the set in force again
        LET d == s[2] IN
          IF d \in Selectors \cup {Shift} \/ d \notin CharsIn(Other(set), K) THEN Bad128
          ELSE Cons128(v, Cons128(ValueIn(Other(set), K)[d], Tail128(SubSeq(s, 3, Len(s)), set, K)))
      ELSE Cons128(v, Tail128(Tail(s), set, K))
Parse128(s, K) ==
  IF s = <<>> \/ Head(s) \notin Selectors THEN Bad128
  ELSE Cons128(StartVal(SetOf(Head(s))), Tail128(Tail(s), SetOf(Head(s)), K))

-----------------------------------------------------------------------------
Verdict(sym, s, K) ==
  LET n == Utf8Len(s) IN
  IF n < MinLen(sym) \/ (sym # "code128" /\ n > MaxLen(sym)) THEN "Length"
  ELSE IF sym = "code128" THEN IF Parse128(s, K) = Bad128 THEN "Character" ELSE "ok"
  ELSE IF \E i \in DOMAIN s : s[i] \notin AlphabetOf[sym] THEN "Character"
  ELSE IF sym = "eansupp" /\ Len(s) \notin {2, 5} THEN "Length"
  ELSE IF sym \in Retail /\ ~RetailOk(sym, Digits(s)) THEN "Checksum"
  ELSE "ok"

\* The checksum flag a constructor sets; "code39c" names the checksummed Code 39 constructor.
Ctors == Syms \cup {"code39c"}
SymOf(ctor) == IF ctor = "code39c" THEN "code39" ELSE ctor
Barcode(ctor, s) == [sym |-> SymOf(ctor), data |-> s, chk |-> ctor = "code39c"]

-----------------------------------------------------------------------------
(* The message: what a reader gets from the bars, check characters included.*)
(* Values for Code 39/93/11/128, digits for the numeric ones, characters    *)
(* for Codabar.                                                             *)
Message(b, K) ==
  CASE b.sym \in Retail -> LET ds == Base(b.sym, Digits(b.data)) IN Append(ds, Mod10(ds))
    [] b.sym = "eansupp" -> Digits(b.data)
    [] b.sym = "itf" -> ItfComplete(Digits(b.data))
    [] b.sym = "stf" -> Digits(b.data)
    [] b.sym = "codabar" -> b.data
    [] b.sym = "code39" -> LET vs == [i \in DOMAIN b.data |-> Code39Val[b.data[i]]]
                           IN IF b.chk THEN Append(vs, Code39Check(vs)) ELSE vs
    [] b.sym = "code93" -> LET vs == [i \in DOMAIN b.data |-> Code93Val[b.data[i]]]
                               vc == Append(vs, Code93C(vs))
                           IN Append(vc, Code93K(vc))
    [] b.sym = "code11" -> LET vs == [i \in DOMAIN b.data |-> Code11Val[b.data[i]]]
                               vc == Append(vs, Code11C(vs))
                           IN IF Code11NeedsK(Len(vs)) THEN Append(vc, Code11K(vc)) ELSE vc
    [] b.sym = "code128" -> LET vs == Parse128(b.data, K) IN Append(vs, Code128Check(vs))

(* The bars of a message.                                                   *)
Join(ss, sep) == Flat([i \in DOMAIN ss |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])

Bars(sym, m, K) ==
  CASE sym = "ean13" ->
         NormalGuard \o Flat([i \in 1..6 |-> Pattern(Ean13Parity[m[1] + 1][i], m[i + 1])])
         \o CentreGuard \o Flat([i \in 1..6 |-> SetC[m[i + 7]]]) \o NormalGuard
    [] sym = "ean8" ->
         NormalGuard \o Flat([i \in 1..4 |-> SetA[m[i]]])
         \o CentreGuard \o Flat([i \in 1..4 |-> SetC[m[i + 4]]]) \o NormalGuard
    [] sym = "upca" ->
         NormalGuard \o Flat([i \in 1..6 |-> SetA[m[i]]])
         \o CentreGuard \o Flat([i \in 1..6 |-> SetC[m[i + 6]]]) \o NormalGuard
    [] sym = "eansupp" ->
         LET par == AddOnParity(m)
         IN AddOnGuard \o Join([i \in DOMAIN m |-> Pattern(par[i], m[i])], AddOnSep)
    [] sym = "code39" -> Join(<<Code39Guard>> \o [i \in DOMAIN m |-> Code39Pat[m[i]]] \o <<Code39Guard>>, <<0>>)
    [] sym = "code93" -> Code93Guard \o Flat([i \in DOMAIN m |-> Code93Pat[m[i]]]) \o Code93Guard \o <<1>>
    [] sym = "code11" -> Join(<<Code11Guard>> \o [i \in DOMAIN m |-> Code11Pat[m[i]]] \o <<Code11Guard>>, <<0>>)
    [] sym = "codabar" -> Join([i \in DOMAIN m |-> CodabarPat(K)[m[i]]], <<0>>)
    [] sym = "itf" -> ItfStart \o Flat([i \in 1..(Len(m) \div 2) |-> ItfPair[m[2 * i - 1]][m[2 * i]]]) \o ItfStop
    [] sym = "stf" -> StfStart \o Flat([i \in DOMAIN m |-> StfPat[m[i]]]) \o StfStop
    [] sym = "code128" -> Flat([i \in DOMAIN m |-> Code128Pat[m[i]]]) \o Code128Stop

Encode(b, K) == Bars(b.sym, Message(b, K), K)
=============================================================================
