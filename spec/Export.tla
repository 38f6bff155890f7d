------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Writes the machines out as tables.  The conformance driver steps these   *)
(* tables beside the real encoders, so that every expected result it uses   *)
(* is one of this specification.  Environment: OUT, the file to write.      *)
(***************************************************************************)
EXTENDS Machines, Json, IOUtils

Ordered(S) == SetToSortSeq(S, <)
AllCtors == Syms \cup {"code39c"}
Name(K) == [plus |-> "codabar-plus" \in K, bc |-> "codabar-bc" \in K, del |-> "c128-del" \in K, shift |-> "c128-shift" \in K]
Findings(sym) == CASE sym = "codabar" -> SUBSET CodabarFindings [] sym = "code128" -> SUBSET Code128Findings [] OTHER -> {{}}

Table(sym) == SetToSeq(ParseStates(sym))
Index(seq, x) == IF x \in Range(seq) THEN CHOOSE i \in DOMAIN seq : seq[i] = x ELSE 0   \* 0: refused
ParseTable(sym, K) ==
  LET st == Table(sym)  cs == Ordered(CharsOf(sym)) IN
  [states |-> st, init |-> Index(st, ParseInit(sym)), chars |-> cs,
   accepts |-> [i \in DOMAIN st |-> ParseAccepts(st[i])],
   next |-> [i \in DOMAIN st |-> [j \in DOMAIN cs |-> Index(st, ParseStep(sym, st[i], cs[j], K).st)]],
   out |-> [i \in DOMAIN st |-> [j \in DOMAIN cs |-> ParseStep(sym, st[i], cs[j], K).out]]]
CheckTable(p) ==
  LET c == Check[p] IN
  [dir |-> c.dir,
   next |-> [ph \in DOMAIN c.weights |-> NextPhase(p, ph)],
   adds |-> [ph \in DOMAIN c.weights |-> [v \in 1..c.size |-> Contribution(p, ph, v - 1)]],
   plus |-> [s \in 1..c.mod |-> [a \in 1..c.mod |-> (s + a - 2) % c.mod]],
   gives |-> [s \in 1..c.mod |-> RegOut(p, s - 1)]]
EmitTable(sym, K) ==
  LET st == SetToSeq(EmitStates(sym))  vs == Ordered(EmitVals(sym)) IN
  [start |-> EmitStart(sym), end |-> EmitEnd(sym), vals |-> vs,
   states |-> [i \in DOMAIN st |-> <<st[i].row, st[i].pos>>],
   next |-> [i \in DOMAIN st |-> [j \in DOMAIN vs |->
              Index(st, EmitStep(sym, st[i], vs[j], K).st)]],
   out |-> [i \in DOMAIN st |-> [j \in DOMAIN vs |-> EmitStep(sym, st[i], vs[j], K).out]],
   \* <<number of values, row, state>>; number 0 stands for any
   begin |-> IF sym = "eansupp"
             THEN SetToSeq({<<n, r, Index(st, EmitInit(sym, n, r))>> : n \in {2}, r \in 0..3} \cup
                           {<<n, r, Index(st, EmitInit(sym, n, r))>> : n \in {5}, r \in 0..9})
             ELSE << <<0, 0, Index(st, EmitInit(sym, 0, 0))>> >>]
Rules(c) ==
  LET s == SymOf(c) IN
  [ctor |-> c, sym |-> s, min |-> MinLen(s), max |-> IF s = "code128" THEN 0 ELSE MaxLen(s),
   base |-> IF s \in Retail THEN BaseLen(s) ELSE 0,
   lens |-> IF s = "eansupp" THEN <<2, 5>> ELSE <<>>,
   rowby |-> IF s = "eansupp" THEN << <<2, RegForRow(2)>>, <<5, RegForRow(5)>> >> ELSE <<>>,
   passes |-> Passes(c)]
Tables == [
  ctors |-> [i \in DOMAIN SetToSeq(AllCtors) |-> Rules(SetToSeq(AllCtors)[i])],
  parse |-> SetToSeq(UNION {{[sym |-> s, known |-> SetToSeq(K), t |-> ParseTable(s, K)] : K \in Findings(s) \cap SUBSET Code128Findings} : s \in Syms}),
  check |-> [p \in CheckNames |-> CheckTable(p)],
  emit |-> SetToSeq(UNION {{[sym |-> s, known |-> SetToSeq(K), t |-> EmitTable(s, K)] : K \in Findings(s) \cap SUBSET CodabarFindings} : s \in Syms})]

ASSUME JsonSerialize(IOEnv.OUT, Tables)
=============================================================================
