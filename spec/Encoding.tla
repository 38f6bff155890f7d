------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* One construction and encoding as the library performs it: the length    *)
(* is checked, the characters are read from the front, the supplied check  *)
(* digit is compared, the check passes run, and the modules are drawn.     *)
(* Each step is one action.  The invariants say that every run agrees with *)
(* the functional specification, and that a reader gets the message back.  *)
(***************************************************************************)
EXTENDS Machines

CONSTANTS Which,      \* the constructors explored
          InputsOf(_) \* the inputs explored for each constructor

VARIABLES ctor, data, stage, at, parse, values, pass, reg, emit, bars
vars == <<ctor, data, stage, at, parse, values, pass, reg, emit, bars>>

sym == SymOf(ctor)
Refusals == {"Length", "Character", "Checksum"}

Init ==
  /\ ctor \in Which
  /\ data \in InputsOf(ctor)
  /\ stage = "measure" /\ at = 1 /\ parse = ParseInit(SymOf(ctor))
  /\ values = <<>> /\ pass = 1 /\ reg = RegInit
  /\ emit = [row |-> 0, pos |-> 0] /\ bars = <<>>

Keep(vs) == UNCHANGED vs

\* The byte length is compared with the symbology's limits.
Measure ==
  /\ stage = "measure"
  /\ LET n == Utf8Len(data) IN
     stage' = IF n < MinLen(sym) \/ (sym # "code128" /\ n > MaxLen(sym)) THEN "Length" ELSE "read"
  /\ Keep(<<ctor, data, at, parse, values, pass, reg, emit, bars>>)

ReadChar ==
  /\ stage = "read" /\ at <= Len(data)
  /\ LET r == ParseStep(sym, parse, data[at], {}) IN
     /\ parse' = r.st /\ values' = values \o r.out
     /\ stage' = IF r.st = "bad" THEN "Character" ELSE stage
  /\ at' = at + 1
  /\ Keep(<<ctor, data, pass, reg, emit, bars>>)

\* The characters are all good: is the form complete, and is a supplied check digit set aside?
Judge ==
  /\ stage = "read" /\ at > Len(data)
  /\ IF ~ParseAccepts(parse) THEN stage' = "Character" /\ Keep(<<values, reg, at>>)
     ELSE IF sym = "eansupp" /\ Len(values) \notin {2, 5} THEN stage' = "Length" /\ Keep(<<values, reg, at>>)
     ELSE IF sym \in Retail THEN
       /\ values' = Base(sym, values)     \* a supplied check digit is compared at the end of the pass
       /\ stage' = "check" /\ reg' = RegInit /\ at' = 1
     ELSE stage' = "check" /\ values' = values /\ reg' = RegInit /\ at' = 1
  /\ Keep(<<ctor, data, parse, pass, emit, bars>>)

CheckValue ==
  /\ stage = "check" /\ pass <= Len(Passes(ctor))
  /\ LET p == Passes(ctor)[pass] IN
     IF ~PassRuns(p[2], Len(values)) THEN pass' = pass + 1 /\ reg' = RegInit /\ at' = 1 /\ Keep(<<values, stage>>)
     ELSE IF at <= Len(values) THEN
       /\ reg' = RegStep(p[1], reg, IF Check[p[1]].dir = "ltr" THEN values[at] ELSE values[Len(values) + 1 - at])
       /\ at' = at + 1 /\ Keep(<<values, stage, pass>>)
     ELSE
       /\ values' = Append(values, RegOut(p[1], reg.sum))
       /\ stage' = IF sym \in Retail /\ Len(data) > Len(values) /\ Digit(data[Len(data)]) # RegOut(p[1], reg.sum)
                   THEN "Checksum" ELSE stage
       /\ pass' = pass + 1 /\ reg' = RegInit /\ at' = 1
  /\ Keep(<<ctor, data, parse, emit, bars>>)

\* EAN-2 and EAN-5 compute their parity row instead of a check character.
Begin ==
  /\ stage = "check" /\ pass > Len(Passes(ctor))
  /\ stage' = "draw" /\ at' = 1
  /\ emit' = EmitInit(sym, Len(values), IF sym = "eansupp" THEN RegRun(RegForRow(Len(values)), values).sum ELSE 0)
  /\ bars' = EmitStart(sym)
  /\ Keep(<<ctor, data, parse, values, pass, reg>>)

Draw ==
  /\ stage = "draw"
  /\ IF at <= Len(values)
     THEN LET r == EmitStep(sym, emit, values[at], {}) IN
          emit' = r.st /\ bars' = bars \o r.out /\ at' = at + 1 /\ Keep(stage)
     ELSE bars' = bars \o EmitEnd(sym) /\ stage' = "done" /\ Keep(<<emit, at>>)
  /\ Keep(<<ctor, data, parse, values, pass, reg>>)

Next == Measure \/ ReadChar \/ Judge \/ CheckValue \/ Begin \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Final == Refusals \cup {"done"}
B == Barcode(ctor, data)

VerdictRight == stage \in Refusals => Verdict(sym, data, {}) = stage
AcceptRight  == (stage = "draw" /\ at = 1) => Verdict(sym, data, {}) = "ok"
ValuesRight  == (stage = "draw" /\ at = 1) => values = Message(B, {})
BarsRight    == stage = "done" => bars = Encode(B, {})
ReadsBack    == stage = "done" => Scan(sym, bars, {}) = Read(Message(B, {}))
LooksRight   == stage = "done" => IsModules(bars) /\ bars[1] = 1 /\ (sym # "stf" => bars[Len(bars)] = 1)
SizeRight    == stage = "done" =>
  CASE sym \in {"ean13", "upca"} -> Len(bars) = 95
    [] sym = "ean8" -> Len(bars) = 67
    [] sym = "eansupp" -> Len(bars) = IF Len(data) = 2 THEN 20 ELSE 47
    [] sym = "code39" -> Len(bars) = 13 * (Len(values) + 2) - 1
    [] sym = "code93" -> Len(bars) = 9 * (Len(values) + 2) + 1
    [] sym = "code128" -> Len(bars) = 11 * Len(values) + 13
    [] OTHER -> TRUE
\* Encoding always comes to an end.
Ends == <>(stage \in Final)
=============================================================================
