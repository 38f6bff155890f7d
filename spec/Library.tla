------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library seen from its API: barcodes and generators are values that   *)
(* live in the caller's hands, and every call is a function of the values   *)
(* it is given.  A call has a Begin and an End, so that calls of several    *)
(* threads overlap; a barcode may be shared by any number of calls, and its *)
(* flag can be changed only while no call uses it (the borrow rules).       *)
(*                                                                         *)
(* The results are left to the operators of Encoders and Generators; here   *)
(* the state is what a result may depend on.                                *)
(***************************************************************************)
EXTENDS Generators

VARIABLES
  objs,    \* live barcodes: name -> [sym, data, chk]
  gens,    \* live generators: name -> settings
  calls    \* calls in progress: thread -> what was asked

libVars == <<objs, gens, calls>>

With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Without(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
Empty == [z \in {} |-> 0]

LibInit == objs = Empty /\ gens = Empty /\ calls = Empty

InUse(o) == \E t \in DOMAIN calls : calls[t].on = o

-----------------------------------------------------------------------------
(* Barcodes.                                                                *)
\* A construction that succeeds binds a barcode, one that fails binds nothing.
Construct(o, ctor, s, res) ==
  /\ ~InUse(o)
  /\ objs' = IF res = "ok" THEN With(objs, o, Barcode(ctor, s)) ELSE objs
  /\ UNCHANGED <<gens, calls>>
Constructed(ctor, s, K) == Verdict(SymOf(ctor), s, K)

\* The public checksum flag of Code 39.
SetFlag(o, flag) ==
  /\ o \in DOMAIN objs /\ objs[o].sym = "code39" /\ ~InUse(o)
  /\ objs' = [objs EXCEPT ![o].chk = flag]
  /\ UNCHANGED <<gens, calls>>

\* Two-of-five and add-on values show the digits they hold, the check digit of a completed one included, and let
\* the caller replace them, or put a value together without the constructor.
Showing == {"itf", "stf", "eansupp"}
Held(b) == Message(b, {})
VariantOf(b) == CASE b.sym = "itf" -> "Interleaved" [] b.sym = "stf" -> "Standard"
                  [] b.sym = "eansupp" -> IF Len(b.data) = 2 THEN "EAN2" ELSE "EAN5"
DigitsFit(sym, ds) ==
  /\ \A i \in DOMAIN ds : ds[i] \in 0..9
  /\ CASE sym = "itf" -> Len(ds) \in 1..256 /\ Len(ds) % 2 = 0
       [] sym = "stf" -> Len(ds) \in 1..256
       [] sym = "eansupp" -> Len(ds) \in {2, 5}
Holding(sym, ds) == [sym |-> sym, data |-> [i \in DOMAIN ds |-> 48 + ds[i]], chk |-> FALSE]
PutTogether(o, sym, ds) ==
  /\ sym \in Showing /\ DigitsFit(sym, ds) /\ ~InUse(o)
  /\ objs' = With(objs, o, Holding(sym, ds))
  /\ UNCHANGED <<gens, calls>>
\* An add-on keeps the number of its digits: the variant says it.
PutDigits(o, ds) ==
  /\ o \in DOMAIN objs /\ objs[o].sym \in Showing /\ DigitsFit(objs[o].sym, ds) /\ ~InUse(o)
  /\ objs[o].sym = "eansupp" => Len(ds) = Len(objs[o].data)
  /\ objs' = [objs EXCEPT ![o] = Holding(@.sym, ds)]
  /\ UNCHANGED <<gens, calls>>

Drop(o) == o \in DOMAIN objs /\ ~InUse(o) /\ objs' = Without(objs, o) /\ UNCHANGED <<gens, calls>>

\* A whole call that only looks at a barcode.
Look(o) == o \in DOMAIN objs /\ UNCHANGED libVars

-----------------------------------------------------------------------------
(* Generators: [kind, h, x, fg, bg, rot, ns].                               *)
Black == <<0, 0, 0, 255>>
White == <<255, 255, 255, 255>>
NamedColour(name) == CASE name = "black" -> Black [] name = "white" -> White
Kinds == {"ascii", "json", "svg", "png", "gif", "webp", "buffer"}
ImageKinds == {"png", "gif", "webp", "buffer"}
Fresh(kind, h) == [kind |-> kind, h |-> IF kind \in {"ascii", "json"} THEN BigOf(10) ELSE h, x |-> BigOf(1),
                   fg |-> Black, bg |-> White, rot |-> 0, ns |-> NoNs]
NewGen(g, kind, h) == gens' = With(gens, g, Fresh(kind, h)) /\ UNCHANGED <<objs, calls>>
\* Setters of SVG (and public fields of the others) put a value in one setting.
SetX(g, v)  == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].x = v]  /\ UNCHANGED <<objs, calls>>
SetH(g, v)  == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].h = v]  /\ UNCHANGED <<objs, calls>>
SetFg(g, c) == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].fg = c] /\ UNCHANGED <<objs, calls>>
SetBg(g, c) == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].bg = c] /\ UNCHANGED <<objs, calls>>
SetRot(g, r) == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].rot = r] /\ UNCHANGED <<objs, calls>>
SetNs(g, s) == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].ns = [given |-> TRUE, text |-> s]]
               /\ UNCHANGED <<objs, calls>>
\* A generator copied to another name keeps its settings; both then live on their own.
CopyGen(g, g2) == g \in DOMAIN gens /\ gens' = With(gens, g2, gens[g]) /\ UNCHANGED <<objs, calls>>

-----------------------------------------------------------------------------
(* Overlapping calls.                                                       *)
Begin(t, o, what) ==
  /\ t \notin DOMAIN calls
  /\ calls' = With(calls, t, [on |-> o, what |-> what])
  /\ UNCHANGED <<objs, gens>>
End(t) == t \in DOMAIN calls /\ calls' = Without(calls, t) /\ UNCHANGED <<objs, gens>>
=============================================================================
