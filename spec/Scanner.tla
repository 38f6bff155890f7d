------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* A reader for each symbology, written from the standards' point of view: *)
(* it sees only the widths of alternating bars and spaces, cuts them into  *)
(* characters, looks the widths up, and verifies guards, separators and    *)
(* check characters.  It never uses the encoder.                           *)
(*                                                                         *)
(* Scan(sym, b, K) is the message of module sequence b: the record         *)
(* [ok |-> TRUE, m |-> message] or NotRead.                                *)
(***************************************************************************)
EXTENDS Encoders

NotRead == [ok |-> FALSE, m |-> <<>>]
Read(m) == [ok |-> TRUE, m |-> m]

Slice(ws, from, n) == SubSeq(ws, from, from + n - 1)
Group(ws, from, size, count, gap) == [i \in 1..count |-> Slice(ws, from + (i - 1) * (size + gap), size)]
AllIn(seq, S) == \A i \in DOMAIN seq : seq[i] \in S
Map(seq, f) == [i \in DOMAIN seq |-> f[seq[i]]]

-----------------------------------------------------------------------------
\* Widths to values.
OddOf  == TLCEval(InvOf([d \in 0..9 |-> W(DigitWidths[d + 1], 4)]))           \* sets A and C
EvenOf == TLCEval(InvOf([d \in 0..9 |-> Reverse(W(DigitWidths[d + 1], 4))]))  \* set B
RowOf13 == TLCEval(InvOf([d \in 0..9 |-> Ean13Parity[d + 1]]))
RowOf5  == TLCEval(InvOf([d \in 0..9 |-> Ean5Parity[d + 1]]))
RowOf2  == TLCEval(InvOf([r \in 0..3 |-> Ean2Parity[r + 1]]))
Of39  == TLCEval(InvOf([v \in 0..42 |-> Narrow2(Code39Tab[v + 1][2])]))
Of93  == TLCEval(InvOf([v \in 0..46 |-> W(Code93Tab[v + 1][2], 6)]))
Of11  == TLCEval(InvOf([v \in 0..10 |-> W(Code11Tab[v + 1][2], 5)]))
Of128 == TLCEval(InvOf([v \in 0..105 |-> W(Code128Widths[v + 1], 6)]))
OfCodabarTab == TLCEval([K \in SUBSET CodabarFindings |-> InvOf(CodabarWidths(K))])
OfTf  == TLCEval(InvOf(TfWidths))

G39 == Narrow2(010010100)  G93 == W(111141, 6)  G11 == W(11221, 5)

-----------------------------------------------------------------------------
Parities(gs) == [i \in DOMAIN gs |-> IF gs[i] \in DOMAIN OddOf THEN "A" ELSE "B"]
DigitsRead(gs) == [i \in DOMAIN gs |-> IF gs[i] \in DOMAIN OddOf THEN OddOf[gs[i]] ELSE EvenOf[gs[i]]]
BothSets == DOMAIN OddOf \cup DOMAIN EvenOf

\* n digits on each side of the centre guard.
ScanRetail(sym, ws, n) ==
  IF Len(ws) # 8 * n + 11 THEN NotRead
  ELSE LET left  == Group(ws, 4, 4, n, 0)
           right == Group(ws, 4 * n + 9, 4, n, 0)
           guards == Slice(ws, 1, 3) = <<1,1,1>> /\ Slice(ws, 4 * n + 4, 5) = <<1,1,1,1,1>>
                     /\ Slice(ws, 8 * n + 9, 3) = <<1,1,1>>
       IN IF ~guards \/ ~AllIn(left, BothSets) \/ ~AllIn(right, DOMAIN OddOf) THEN NotRead
          ELSE LET par == Parities(left)
                   ds  == DigitsRead(left) \o DigitsRead(right)
                   m   == IF sym # "ean13" THEN ds
                          ELSE IF par \in DOMAIN RowOf13 THEN <<RowOf13[par]>> \o ds ELSE <<>>
               IN IF m = <<>> \/ (sym # "ean13" /\ \E i \in DOMAIN par : par[i] # "A") THEN NotRead
                  ELSE IF m[Len(m)] # Mod10(SubSeq(m, 1, Len(m) - 1)) THEN NotRead
                  ELSE Read(m)

ScanAddOn(ws) ==
  LET n == IF Len(ws) = 13 THEN 2 ELSE 5 IN
  IF Len(ws) \notin {13, 31} \/ Slice(ws, 1, 3) # <<1, 1, 2>> THEN NotRead
  ELSE LET gs == Group(ws, 4, 4, n, 2)
           seps == [i \in 1..(n - 1) |-> Slice(ws, 8 + (i - 1) * 6, 2)]
       IN IF ~AllIn(gs, BothSets) \/ ~AllIn(seps, {<<1, 1>>}) THEN NotRead
          ELSE LET par == Parities(gs)
                   ds == DigitsRead(gs)
               IN IF n = 2
                  THEN IF par \in DOMAIN RowOf2 /\ RowOf2[par] = Ean2Value(ds) % 4 THEN Read(ds) ELSE NotRead
                  ELSE IF par \in DOMAIN RowOf5 /\ RowOf5[par] = Ean5Check(ds) THEN Read(ds) ELSE NotRead

\* Characters of `size` elements with a one-module gap, between two guards of the same size.
ScanDiscrete(ws, size, guard, of) ==
  IF (Len(ws) + 1) % (size + 1) # 0 \/ Len(ws) < 2 * size THEN NotRead
  ELSE LET n == (Len(ws) + 1) \div (size + 1)
           gs == Group(ws, 1, size, n, 1)
           gaps == [i \in 1..(n - 1) |-> ws[i * (size + 1)]]
           body == SubSeq(gs, 2, n - 1)
       IN IF gs[1] # guard \/ gs[n] # guard \/ ~AllIn(gaps, {1}) \/ ~AllIn(body, DOMAIN of) THEN NotRead
          ELSE Read(Map(body, of))

Scan93(ws) ==
  IF Len(ws) % 6 # 1 \/ Len(ws) < 25 \/ ws[Len(ws)] # 1 THEN NotRead
  ELSE LET n == Len(ws) \div 6
           gs == Group(ws, 1, 6, n, 0)
           body == SubSeq(gs, 2, n - 1)
       IN IF gs[1] # G93 \/ gs[n] # G93 \/ ~AllIn(body, DOMAIN Of93) THEN NotRead
          ELSE LET m == Map(body, Of93)
                   l == Len(m)
               IN IF l < 2 \/ m[l - 1] # Code93C(SubSeq(m, 1, l - 2)) \/ m[l] # Code93K(SubSeq(m, 1, l - 1))
                  THEN NotRead ELSE Read(m)

\* A reader of Code 11 knows from the length whether K is there: 12 symbols or more
\* after the start mean more than ten characters, C and K.
Scan11(ws) ==
  LET r == ScanDiscrete(ws, 5, G11, Of11)
      m == r.m
      l == Len(m)
  IN IF ~r.ok \/ l < 1 THEN NotRead
     ELSE IF l >= 13
       THEN IF m[l - 1] = Code11C(SubSeq(m, 1, l - 2)) /\ m[l] = Code11K(SubSeq(m, 1, l - 1)) THEN r ELSE NotRead
       ELSE IF l # 12 /\ m[l] = Code11C(SubSeq(m, 1, l - 1)) THEN r ELSE NotRead

ScanCodabar(ws, K) ==
  IF (Len(ws) + 1) % 8 # 0 THEN NotRead
  ELSE LET n == (Len(ws) + 1) \div 8
           gs == Group(ws, 1, 7, n, 1)
           gaps == [i \in 1..(n - 1) |-> ws[i * 8]]
           of == OfCodabarTab[K \cap CodabarFindings]
       IN IF ~AllIn(gaps, {1}) \/ ~AllIn(gs, DOMAIN of) THEN NotRead ELSE Read(Map(gs, of))

Odds(ws)  == [i \in 1..((Len(ws) + 1) \div 2) |-> ws[2 * i - 1]]
Evens(ws) == [i \in 1..(Len(ws) \div 2) |-> ws[2 * i]]
ScanItf(ws) ==
  IF Len(ws) % 10 # 7 THEN NotRead
  ELSE LET n == (Len(ws) - 7) \div 10
           gs == Group(ws, 5, 10, n, 0)
           ts == Flat([i \in 1..n |-> <<Odds(gs[i]), Evens(gs[i])>>])
       IN IF Slice(ws, 1, 4) # <<1,1,1,1>> \/ Slice(ws, Len(ws) - 2, 3) # <<2,1,1>> \/ ~AllIn(ts, DOMAIN OfTf)
          THEN NotRead ELSE Read(Map(ts, OfTf))
ScanStf(ws) ==
  IF Len(ws) % 10 # 2 \/ Len(ws) < 12 THEN NotRead
  ELSE LET n == (Len(ws) - 12) \div 10
           gs == Group(ws, 7, 10, n, 0)
           ts == [i \in 1..n |-> Odds(gs[i])]
           ss == [i \in 1..n |-> Evens(gs[i])]
       IN IF Slice(ws, 1, 6) # <<2,1,2,1,1,1>> \/ Slice(ws, Len(ws) - 5, 6) # <<2,1,1,1,2,1>>
             \/ ~AllIn(ts, DOMAIN OfTf) \/ ~AllIn(ss, {<<1,1,1,1,1>>})
          THEN NotRead ELSE Read(Map(ts, OfTf))

Scan128(ws) ==
  IF Len(ws) % 6 # 1 \/ Len(ws) < 19 THEN NotRead
  ELSE LET n == (Len(ws) - 7) \div 6
           gs == Group(ws, 1, 6, n, 0)
       IN IF Slice(ws, Len(ws) - 6, 7) # <<2,3,3,1,1,1,2>> \/ ~AllIn(gs, DOMAIN Of128) THEN NotRead
          ELSE LET m == Map(gs, Of128) IN
               IF m[1] \notin 103..105 \/ (\E i \in 2..(n - 1) : m[i] > 102)
                  \/ m[n] # Code128Check(SubSeq(m, 1, n - 1)) THEN NotRead ELSE Read(m)

Scan(sym, b, K) ==
  IF b = <<>> \/ ~IsModules(b) \/ b[1] # 1 THEN NotRead
  ELSE LET ws == RunWidths(b) IN
    CASE sym = "ean13" -> ScanRetail(sym, ws, 6)
      [] sym = "upca"  -> ScanRetail(sym, ws, 6)
      [] sym = "ean8"  -> ScanRetail(sym, ws, 4)
      [] sym = "eansupp" -> ScanAddOn(ws)
      [] sym = "code39" -> ScanDiscrete(ws, 9, G39, Of39)
      [] sym = "code93" -> Scan93(ws)
      [] sym = "code11" -> Scan11(ws)
      [] sym = "codabar" -> ScanCodabar(ws, K)
      [] sym = "itf" -> ScanItf(ws)
      [] sym = "stf" -> ScanStf(ws)
      [] sym = "code128" -> Scan128(ws)
=============================================================================
