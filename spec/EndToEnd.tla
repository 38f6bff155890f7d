------------------------------ MODULE EndToEnd ------------------------------
(***************************************************************************)
(* The whole way: a string becomes a barcode, the barcode modules, the      *)
(* modules a drawing by any generator, the drawing modules again, and the   *)
(* modules a message.  One action per stage.  The message is the string's,  *)
(* with its check characters, whatever the generator and its settings.      *)
(***************************************************************************)
EXTENDS Generators, IOUtils

CONSTANTS Which,        \* constructors
          InputsOf(_),
          Settings      \* [kind, h, x, fg, bg, rot, ns], h and x limbs

VARIABLES ctor, data, gen, barcode, bars, drawing, seen, stage
vars == <<ctor, data, gen, barcode, bars, drawing, seen, stage>>

Init == /\ ctor \in Which /\ data \in InputsOf(ctor) /\ gen \in Settings
        /\ barcode = <<>> /\ bars = <<>> /\ drawing = <<>> /\ seen = <<>> /\ stage = "given"
Construct == /\ stage = "given"
             /\ IF Verdict(SymOf(ctor), data, {}) = "ok" THEN barcode' = Barcode(ctor, data) /\ stage' = "made"
                ELSE barcode' = barcode /\ stage' = "refused"
             /\ UNCHANGED <<ctor, data, gen, bars, drawing, seen>>
\* Only Code 39 has a flag, and it may be changed before drawing.
Flip == stage = "made" /\ barcode.sym = "code39" /\ ctor = "code39"
        /\ barcode' = [barcode EXCEPT !.chk = ~@] /\ UNCHANGED <<ctor, data, gen, bars, drawing, seen, stage>>
EncodeIt == stage = "made" /\ bars' = Encode(barcode, {}) /\ stage' = "encoded" /\ UNCHANGED <<ctor, data, gen, barcode, drawing, seen>>

Opaque(c) == IF c[4] = 255 THEN 0 - 1 ELSE 10000 * Hundredths(c[4])
RectOf(x, w, c) == [x |-> x, y |-> <<>>, w |-> w, h |-> gen.h, fill |-> <<c[1], c[2], c[3]>>, op |-> Opaque(c)]
DrawIt ==
  /\ stage = "encoded" /\ stage' = "drawn"
  /\ drawing' =
       CASE gen.kind = "ascii" -> AsciiRows(bars, Small(gen.h), Small(gen.x))
         [] gen.kind = "json" -> [height |-> gen.h, xdim |-> gen.x, encoding |-> bars]
         [] gen.kind = "svg" ->
              LET ix == SetToSortSeq({i \in DOMAIN bars : bars[i] = 1}, <) IN
              [ok |-> TRUE, root |-> "svg", other |-> 0, view |-> << <<>>, <<>>, BigMul(gen.x, Len(bars)), gen.h>>, ns |-> gen.ns,
               rects |-> <<RectOf(<<>>, BigMul(gen.x, Len(bars)), gen.bg)>>
                         \o [i \in DOMAIN ix |-> RectOf(BigMul(gen.x, ix[i] - 1), gen.x, gen.fg)]]
         [] OTHER -> InFormat(gen.kind, Picture(bars, [gen EXCEPT !.h = Small(@), !.x = Small(@)]))
  /\ UNCHANGED <<ctor, data, gen, barcode, bars, seen>>
ReadIt ==
  /\ stage = "drawn" /\ stage' = "read"
  /\ seen' = CASE gen.kind = "ascii" -> ReadAscii(drawing, Small(gen.x))
               [] gen.kind = "json" -> drawing.encoding
               [] gen.kind = "svg" -> SvgModules(drawing, gen, Len(bars))
               [] OTHER -> LET s == [gen EXCEPT !.h = Small(@), !.x = Small(@)] IN
                           ReadFile(drawing, s)
  /\ UNCHANGED <<ctor, data, gen, barcode, bars, drawing>>
Next == Construct \/ Flip \/ EncodeIt \/ DrawIt \/ ReadIt
Spec == Init /\ [][Next]_vars

SameModules == stage = "read" => seen = bars
ReadsBack == stage = "read" => Scan(barcode.sym, seen, {}) = Read(Message(barcode, {}))
\* The data is in the message, first to last.
DataThere == stage = "read" =>
  LET m == Scan(barcode.sym, seen, {}).m
      data0 == CASE barcode.sym \in Retail \cup {"eansupp", "itf", "stf"} -> Digits(data)
                 [] barcode.sym = "codabar" -> data
                 [] barcode.sym = "code39" -> [i \in DOMAIN data |-> Code39Val[data[i]]]
                 [] barcode.sym = "code93" -> [i \in DOMAIN data |-> Code93Val[data[i]]]
                 [] barcode.sym = "code11" -> [i \in DOMAIN data |-> Code11Val[data[i]]]
                 [] barcode.sym = "code128" -> Parse128(data, {})
  IN SubSeq(m, 1, Len(data0)) = data0 /\ Len(m) - Len(data0) \in 0..2
SvgFine == (stage = "drawn" /\ gen.kind = "svg") => SvgRight(drawing, bars, gen)

-----------------------------------------------------------------------------
Deep == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER = "thorough" ELSE FALSE
MCWhich == Syms \cup {"code39c"}
Str(ds) == [i \in DOMAIN ds |-> 48 + ds[i]]
Ean == <<2, 1, 4, 5, 9, 8, 7, 6, 3, 0, 1, 8>>
MCInputsOf(c) ==
  LET s == SymOf(c)  Ds(n) == Str(SubSeq(Ean, 1, n)) IN
  CASE s = "ean13" -> {[Ds(12) EXCEPT ![q] = 48 + d] : q \in {1, 7, 12}, d \in 0..9} \cup {Append(Ds(12), x) : x \in 48..57}
    [] s = "upca" -> {[Ds(11) EXCEPT ![q] = 48 + d] : q \in {1, 11}, d \in 0..9} \cup {Append(Ds(11), x) : x \in 48..57}
    [] s = "ean8" -> {[Ds(7) EXCEPT ![q] = 48 + d] : q \in {1, 7}, d \in 0..9} \cup {Append(Ds(7), x) : x \in 48..57}
    [] s = "eansupp" -> {<<48 + a, 48 + b>> : a \in {0, 3, 9}, b \in 0..9} \cup {[Ds(5) EXCEPT ![q] = 48 + d] : q \in 1..5, d \in {0, 9}}
    [] s = "code128" -> {<<h>> \o t : h \in Selectors, t \in UNION {[1..k -> {49, 57, 65, Fnc1, Shift, SelA, SelB, SelC}] : k \in 0..(IF Deep THEN 4 ELSE 2)}}
    [] OTHER -> UNION {[1..k -> AlphabetOf[s]] : k \in {1}}
                \cup UNION {[1..k -> {48, 57} \cup ({45} \cap AlphabetOf[s])] : k \in 0..(IF Deep THEN 5 ELSE 3)}
                \cup {SubSeq(Str(Ean), 1, k) : k \in 9..12}
Settings0 == LET S(k, h, x, f, b, r) == [kind |-> k, h |-> BigOf(h), x |-> x, fg |-> f, bg |-> b, rot |-> r, ns |-> NoNs]
                 F == <<1, 2, 3, 255>>  B == <<250, 251, 252, 0>> IN
  {S("ascii", 2, <<1>>, F, B, 0), S("ascii", 1, <<3>>, F, B, 0), S("json", 0, <<>>, F, B, 0),
   S("svg", 80, <<1>>, F, B, 0), S("svg", 7, <<7295, 9496, 42>>, F, B, 0)}
  \cup {S(k, 2, <<2>>, F, B, r) : k \in {"buffer", "gif"}, r \in Rotations}
MCSettings == IF Deep THEN Settings0 ELSE {s \in Settings0 : s.rot \in {0, 270} /\ (s.kind # "ascii" \/ s.x = <<3>>)}
=============================================================================
