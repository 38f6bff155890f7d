------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Generators and their settings under every sequence of setter calls and   *)
(* copies.  `given` remembers, apart from the generators, the last value    *)
(* each name was given for each setting (inherited through copies); the     *)
(* settings must be exactly those values, or the defaults.                  *)
(***************************************************************************)
EXTENDS Library, IOUtils

CONSTANTS Names, Colours, Nums, Texts, Depth
VARIABLES given,  \* name -> setting -> value, for the settings given so far
          steps
setVars == <<objs, gens, calls, given, steps>>

Settable(kind) == CASE kind \in {"ascii", "json"} -> {"h", "x"} [] kind = "svg" -> {"h", "x", "fg", "bg", "ns"} [] OTHER -> {"h", "x", "fg", "bg", "rot"}
Note(g, f, v) == given' = [given EXCEPT ![g] = With(@, f, v)]
Has(g, f) == g \in DOMAIN gens /\ f \in Settable(gens[g].kind)
More == steps < Depth /\ steps' = steps + 1

Make(g, k, h) == NewGen(g, k, h) /\ given' = With(given, g, IF k \in {"ascii", "json"} THEN Empty ELSE [f \in {"h"} |-> h])
Next ==
  /\ More
  /\ \/ \E g \in Names, k \in {"ascii", "svg", "png"}, h \in Nums : Make(g, k, h)
     \/ \E g \in Names, v \in Nums : Has(g, "x") /\ SetX(g, v) /\ Note(g, "x", v)
     \/ \E g \in Names, v \in Nums : Has(g, "h") /\ SetH(g, v) /\ Note(g, "h", v)
     \/ \E g \in Names, c \in Colours : Has(g, "fg") /\ SetFg(g, c) /\ Note(g, "fg", c)
     \/ \E g \in Names, c \in Colours : Has(g, "bg") /\ SetBg(g, c) /\ Note(g, "bg", c)
     \/ \E g \in Names, f \in {"fg", "bg"}, name \in {"black", "white"} :
          Has(g, f) /\ (IF f = "fg" THEN SetFg(g, NamedColour(name)) ELSE SetBg(g, NamedColour(name))) /\ Note(g, f, NamedColour(name))
     \/ \E g \in Names, r \in {90, 0} : Has(g, "rot") /\ SetRot(g, r) /\ Note(g, "rot", r)
     \/ \E g \in Names, t \in Texts : Has(g, "ns") /\ SetNs(g, t) /\ Note(g, "ns", [given |-> TRUE, text |-> t])
     \/ \E g, g2 \in Names : g # g2 /\ CopyGen(g, g2) /\ given' = With(given, g2, given[g])
Init == LibInit /\ given = Empty /\ steps = 0
Spec == Init /\ [][Next]_setVars

Default(kind) == [h |-> BigOf(10), x |-> BigOf(1), fg |-> <<0, 0, 0, 255>>, bg |-> <<255, 255, 255, 255>>, ns |-> NoNs, rot |-> 0]
\* Every setting is the value last given, or the documented default.
LastGiven == \A g \in DOMAIN gens : \A f \in {"h", "x", "fg", "bg", "ns", "rot"} :
  gens[g][f] = IF f \in DOMAIN given[g] THEN given[g][f] ELSE Default(gens[g].kind)[f]
\* One step changes at most one setting of one generator (or makes one).
OneAtATime == [][\E g \in Names :
   /\ \A q \in DOMAIN gens \ {g} : q \in DOMAIN gens' /\ gens'[q] = gens[q]
   /\ (g \in DOMAIN gens /\ g \in DOMAIN gens') =>
        \/ Cardinality({f \in {"h", "x", "fg", "bg", "ns", "rot", "kind"} : gens[g][f] # gens'[g][f]}) <= 1
        \/ gens'[g] = Fresh(gens'[g].kind, gens'[g].h)
        \/ \E q \in DOMAIN gens \ {g} : gens'[g] = gens[q]]_setVars
\* Setters of different settings commute.
Commute == \A g \in DOMAIN gens : gens[g].kind = "svg" =>
  \A c \in Colours : [[gens[g] EXCEPT !.fg = c] EXCEPT !.bg = c] = [[gens[g] EXCEPT !.bg = c] EXCEPT !.fg = c]

MCDepth == IF "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough" THEN 6 ELSE 5
MCColours == {<<1, 2, 3, 4>>, <<255, 255, 255, 255>>}
MCNums == {<<>>, <<7295, 9496, 42>>}
MCTexts == {<<>>, <<120>>}
=============================================================================
