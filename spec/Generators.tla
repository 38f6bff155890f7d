----------------------------- MODULE Generators -----------------------------
(***************************************************************************)
(* What each generator must draw for a sequence of modules, and how a       *)
(* rendering is read back into modules.                                     *)
(*                                                                         *)
(* A picture is [w, h, rows]: rows are groups <<count, runs>> of identical  *)
(* rows, and runs are <<colour, length>> pairs; both are maximal.  A colour *)
(* is <<r, g, b, a>> in an image and a character in a text drawing.         *)
(***************************************************************************)
EXTENDS Scanner, Big

\* Maximal runs of a sequence, as <<value, length>> pairs.
Rle(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET cuts == SetToSortSeq({i \in 1..(Len(s) - 1) : s[i] # s[i + 1]} \cup {Len(s)}, <)
       IN  [i \in DOMAIN cuts |-> <<s[cuts[i]], IF i = 1 THEN cuts[1] ELSE cuts[i] - cuts[i - 1]>>]
Expand(runs) == Flat([i \in DOMAIN runs |-> Repeat(runs[i][1], runs[i][2])])
Widen(runs, x) == [i \in DOMAIN runs |-> <<runs[i][1], runs[i][2] * x>>]
SumRuns(runs) == SumSeq([i \in DOMAIN runs |-> runs[i][2]])
Painted(mods, fg, bg) == [i \in DOMAIN mods |-> IF mods[i] = 1 THEN fg ELSE bg]

-----------------------------------------------------------------------------
(* Images.                                                                  *)
Rotations == {0, 90, 180, 270}
Upright(mods, h, x, fg, bg) ==
  [w |-> Len(mods) * x, h |-> h,
   rows |-> IF mods = <<>> \/ x = 0 \/ h = 0 THEN <<>> ELSE << <<h, Widen(Rle(Painted(mods, fg, bg)), x)>> >>]
\* Clockwise turns.  The picture's rows are all alike, so its columns become rows of one colour.
Turn(p, rot) ==
  LET runs == IF p.rows = <<>> THEN <<>> ELSE p.rows[1][2]
      cols(rs) == [i \in DOMAIN rs |-> <<rs[i][2], << <<rs[i][1], p.h>> >> >>]
  IN CASE rot = 0 -> p
       [] rot = 180 -> [p EXCEPT !.rows = IF @ = <<>> THEN <<>> ELSE << <<p.h, Reverse(runs)>> >>]
       [] rot = 90 -> [w |-> p.h, h |-> p.w, rows |-> cols(runs)]
       [] rot = 270 -> [w |-> p.h, h |-> p.w, rows |-> cols(Reverse(runs))]
Picture(mods, g) == Turn(Upright(mods, g.h, g.x, g.fg, g.bg), g.rot)

\* In GIF every colour is opaque or invisible; an invisible one has no colour of its own.
GifColour(c) == IF c[4] = 0 THEN <<0, 0, 0, 0>> ELSE <<c[1], c[2], c[3], 255>>
\* A picture with its colours mapped (adjacent runs or rows that become equal are merged).
MergeRuns(runs) == FoldLeft(LAMBDA acc, r :
    IF acc # <<>> /\ acc[Len(acc)][1] = r[1] THEN [acc EXCEPT ![Len(acc)] = <<r[1], @[2] + r[2]>>]
    ELSE Append(acc, r), <<>>, runs)
MergeRows(rows) == FoldLeft(LAMBDA acc, r :
    IF acc # <<>> /\ acc[Len(acc)][2] = r[2] THEN [acc EXCEPT ![Len(acc)] = <<@[1] + r[1], r[2]>>]
    ELSE Append(acc, r), <<>>, rows)
Recolour(p, f(_)) ==
  [p EXCEPT !.rows = MergeRows([i \in DOMAIN p.rows |->
     <<p.rows[i][1], MergeRuns([j \in DOMAIN p.rows[i][2] |-> <<f(p.rows[i][2][j][1]), p.rows[i][2][j][2]>>])>>])]
Same(c) == c
InFormat(fmt, p) == IF fmt = "gif" THEN Recolour(p, GifColour) ELSE p
SideLimit(fmt) == CASE fmt = "gif" -> 65535 [] fmt = "webp" -> 16384 [] fmt = "png" -> 2147483647
\* What a file of a format can hold: no side beyond the limit, and at least one pixel.
Fits(fmt, w, h) == w \in 1..SideLimit(fmt) /\ h \in 1..SideLimit(fmt)

\* Reading: undo the rotation, then one module every x pixels along the middle row.
UnTurn(p, rot) ==
  LET toRow(rows) == MergeRuns([i \in DOMAIN rows |-> <<rows[i][2][1][1], rows[i][1]>>])
      ok == \A i \in DOMAIN p.rows : Len(p.rows[i][2]) = 1
  IN CASE rot = 0 -> IF Len(p.rows) = 1 THEN p.rows[1][2] ELSE <<>>
       [] rot = 180 -> IF Len(p.rows) = 1 THEN Reverse(p.rows[1][2]) ELSE <<>>
       [] rot = 90 -> IF ok THEN toRow(p.rows) ELSE <<>>
       [] rot = 270 -> IF ok THEN Reverse(toRow(p.rows)) ELSE <<>>
\* Modules of runs of two colours; <<>> when a run is no multiple of x or of another colour.
RunsToModules(runs, x, ink, paper) ==
  IF \E i \in DOMAIN runs : runs[i][2] % x # 0 \/ runs[i][1] \notin {ink, paper} THEN <<>>
  ELSE Flat([i \in DOMAIN runs |-> Repeat(IF runs[i][1] = ink THEN 1 ELSE 0, runs[i][2] \div x)])
ReadPicture(p, g) == RunsToModules(UnTurn(p, g.rot), g.x, g.fg, g.bg)
\* As it is in the format of g's kind.
ReadFile(p, g) == ReadPicture(InFormat(g.kind, p), IF g.kind = "gif" THEN [g EXCEPT !.fg = GifColour(@), !.bg = GifColour(@)] ELSE g)

-----------------------------------------------------------------------------
(* ASCII: rows of '#' (35) and space (32).                                  *)
AsciiRuns(mods, x) == IF x = 0 THEN <<>> ELSE Widen(Rle(Painted(mods, 35, 32)), x)
\* Lines of the text, as groups; no text at all is one empty line.
AsciiRows(mods, h, x) == IF h = 0 THEN << <<1, <<>> >> >> ELSE << <<h, AsciiRuns(mods, x)>> >>
ReadAscii(rows, x) == IF Len(rows) # 1 THEN <<>> ELSE RunsToModules(rows[1][2], x, 35, 32)

-----------------------------------------------------------------------------
(* JSON: the members of the one object, as [name, value]; numbers as limbs. *)
JsonRight(o, mods, h, x) ==
  /\ o.ok
  /\ Len(o.names) = 3 /\ Range(o.names) = {"height", "xdim", "encoding"}
  /\ o.height = h /\ o.xdim = x /\ o.encoding = mods

-----------------------------------------------------------------------------
(* SVG: [ok, root, view, ns, rects, other], rects as [x,y,w,h,fill,op].     *)
\* Opacity in hundredths, to the nearest (there is never a tie).
Hundredths(a) == (200 * a + 255) \div 510
\* op is the attribute times 1,000,000, or -1 when there is none.
OpacityRight(op, a) == IF Hundredths(a) = 100 THEN op \in {0 - 1, 1000000} ELSE op = 10000 * Hundredths(a)
Fills(r, c) == r.fill = <<c[1], c[2], c[3]>> /\ OpacityRight(r.op, c[4])
SvgRight(o, mods, g) ==
  LET ws == BigMul(g.x, Len(mods))
      bars == SelectSeq([i \in DOMAIN mods |-> i], LAMBDA i : mods[i] = 1)
      rects == o.rects
      at == [i \in DOMAIN bars |-> BigMul(g.x, bars[i] - 1)]
  IN /\ o.ok /\ o.root = "svg" /\ o.other = 0
     /\ o.view = << <<>>, <<>>, ws, g.h >>
     /\ Len(rects) = Len(bars) + 1
     /\ rects[1].x = <<>> /\ rects[1].y = <<>> /\ rects[1].w = ws /\ rects[1].h = g.h /\ Fills(rects[1], g.bg)
     /\ \A i \in 2..Len(rects) : rects[i].y = <<>> /\ rects[i].w = g.x /\ rects[i].h = g.h /\ Fills(rects[i], g.fg)
     \* the right offsets, in any order (there are as many as bars, and they differ unless x is 0)
     /\ {rects[i].x : i \in 2..Len(rects)} = Range(at)
     /\ o.ns = g.ns
(* Known finding "svg-xmlns": a namespace with a character that XML would    *)
(* have escaped is written as it is.  `bare` is the same output without     *)
(* exactly that attribute text, when it was found there.                    *)
NeedsEscape(ns) == ns.given /\ \E i \in DOMAIN ns.text : ns.text[i] \in {34, 38, 60}
NoNs == [given |-> FALSE, text |-> <<>>]
SvgMatches(o, bare, mods, g, K) ==
  \/ SvgRight(o, mods, g)
  \/ "svg-xmlns" \in K /\ NeedsEscape(g.ns) /\ bare.found /\ SvgRight(bare.doc, mods, [g EXCEPT !.ns = NoNs])
\* The modules painted in the foreground by the rectangles after the first, on a background that is not the
\* foreground; <<>> when a rectangle is no whole number of modules or of another colour.
SvgModules(o, g, n) ==
  LET bars == 2..Len(o.rects)
      at(k) == {i \in 1..n : BigMul(g.x, i - 1) = o.rects[k].x}
      span(k) == IF o.rects[k].w = g.x THEN {1} ELSE {m \in 1..n : BigMul(g.x, m) = o.rects[k].w}
      odd(k) == Cardinality(at(k)) # 1 \/ Cardinality(span(k)) # 1 \/ ~Fills(o.rects[k], g.fg)
      whole == [k \in bars |-> o.rects[k].w = g.x]
      places == {o.rects[k].x : k \in bars}
  IN IF \E k \in bars : ~Fills(o.rects[k], g.fg) THEN <<>>
     ELSE IF \A k \in bars : whole[k] THEN
       LET b == [i \in 1..n |-> IF BigMul(g.x, i - 1) \in places THEN 1 ELSE 0] IN
       IF places \subseteq {BigMul(g.x, i - 1) : i \in 1..n} THEN b ELSE <<>>
     ELSE IF \E k \in bars : odd(k) THEN <<>>
     ELSE LET lit == UNION {LET i == CHOOSE i \in at(k) : TRUE  m == CHOOSE m \in span(k) : TRUE IN i..(i + m - 1) : k \in bars}
          IN IF lit \subseteq 1..n THEN [i \in 1..n |-> IF i \in lit THEN 1 ELSE 0] ELSE <<>>
=============================================================================
