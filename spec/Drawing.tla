------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* The generators as step machines: each draws a sequence of modules the    *)
(* way a program does (module by module, pixel by pixel, character by       *)
(* character), and the finished drawing is compared with the functional     *)
(* operators of Generators.  Then a reader, again a machine where reading   *)
(* is not trivial, gets the modules back.                                   *)
(*                                                                         *)
(* Environment: KIND is ascii, json, svg, buffer, gif, png; TIER.           *)
(***************************************************************************)
EXTENDS Generators, IOUtils

CONSTANTS Which,          \* kinds explored
          ModulesOf(_),   \* module sequences for each
          SettingsOf(_)   \* settings for each: [h, x, fg, bg, rot, ns] (h, x naturals; in svg and json, limbs)

VARIABLES kind, mods, set0, stage, at, row, canvas, written, doc
vars == <<kind, mods, set0, stage, at, row, canvas, written, doc>>
Images == {"buffer", "gif", "png"}
NoDoc == [st |-> "none"]

Init ==
  /\ kind \in Which /\ mods \in ModulesOf(kind) /\ set0 \in SettingsOf(kind)
  /\ stage = "draw" /\ at = 1 /\ row = 1 /\ canvas = <<>> /\ written = <<>> /\ doc = NoDoc

-----------------------------------------------------------------------------
(* Images: canvas is [w, h, px], px a function from <<column, row>>, counted *)
(* from zero.                                                               *)
n0 == Len(mods)
w0 == n0 * set0.x
h0 == set0.h
Blank == [w |-> w0, h |-> h0, px |-> [p \in (0..(w0 - 1)) \X (0..(h0 - 1)) |-> set0.bg]]
ImgStart == kind \in Images /\ stage = "draw" /\ canvas' = Blank /\ stage' = "paint"
            /\ UNCHANGED <<kind, mods, set0, at, row, written, doc>>
\* One pixel column of one bar.
ImgPaint ==
  /\ kind \in Images /\ stage = "paint" /\ at <= n0
  /\ IF mods[at] = 0 \/ set0.x = 0 THEN canvas' = canvas /\ at' = at + 1 /\ row' = 1
     ELSE /\ canvas' = [canvas EXCEPT !.px = [p \in DOMAIN @ |-> IF p[1] = (at - 1) * set0.x + row - 1 THEN set0.fg ELSE @[p]]]
          /\ IF row = set0.x THEN at' = at + 1 /\ row' = 1 ELSE at' = at /\ row' = row + 1
  /\ UNCHANGED <<kind, mods, set0, stage, written, doc>>
\* A quarter turn clockwise: what was at <<x, y>> comes to <<height - 1 - y, x>>.
Quarter(c) ==
  [w |-> c.h, h |-> c.w, px |-> [q \in (0..(c.h - 1)) \X (0..(c.w - 1)) |-> c.px[<<q[2], c.h - 1 - q[1]>>]]]
ImgTurn ==
  /\ kind \in Images /\ stage = "paint" /\ at > n0
  /\ IF row <= set0.rot \div 90 THEN canvas' = Quarter(canvas) /\ row' = row + 1 /\ stage' = stage
     ELSE /\ stage' = (IF kind = "buffer" THEN "done" ELSE IF w0 = 0 \/ h0 = 0 THEN "refused"
                       ELSE IF kind = "gif" THEN "palette" ELSE "done")
          /\ canvas' = canvas /\ row' = row
  /\ UNCHANGED <<kind, mods, set0, at, written, doc>>
\* GIF has opaque and invisible pixels only.
ImgPalette == kind = "gif" /\ stage = "palette" /\ stage' = "done"
  /\ canvas' = [canvas EXCEPT !.px = [p \in DOMAIN @ |-> GifColour(@[p])]]
  /\ UNCHANGED <<kind, mods, set0, at, row, written, doc>>
\* What is at all visible stays visible in its own colour, and what is invisible stays invisible.
ASSUME \A c \in {0, 7, 255} : \A a \in 0..255 :
  LET g == GifColour(<<c, 1, 2, a>>) IN g[4] \in {0, 255} /\ (g[4] = 0) = (a = 0) /\ (a > 0 => SubSeq(g, 1, 3) = <<c, 1, 2>>)
\* The canvas as groups of rows of runs; without pixels there are none, whatever the sides.
PictureOf(c) ==
  LET line(y) == Rle([x \in 1..c.w |-> c.px[<<x - 1, y - 1>>]])
      groups == IF c.w = 0 THEN <<>> ELSE Rle([y \in 1..c.h |-> line(y)])
  IN [w |-> c.w, h |-> c.h, rows |-> [i \in DOMAIN groups |-> <<groups[i][2], groups[i][1]>>]]
\* A reader that looks at single pixels: the middle row of the picture turned back.
Back(c, rot) == CASE rot = 0 -> c [] rot = 90 -> Quarter(Quarter(Quarter(c))) [] rot = 180 -> Quarter(Quarter(c)) [] rot = 270 -> Quarter(c)
PixelRead(c) == LET u == Back(c, set0.rot) IN
  [i \in 1..n0 |-> IF u.px[<<(i - 1) * set0.x + set0.x \div 2, u.h \div 2>>] = set0.fg THEN 1 ELSE 0]

ImgRight == (kind \in Images /\ stage \in {"done", "refused"}) =>
  /\ PictureOf(canvas) = InFormat(kind, Picture(mods, set0))
  /\ (kind # "gif" /\ set0.fg # set0.bg /\ h0 * w0 > 0) => PixelRead(canvas) = mods /\ ReadPicture(PictureOf(canvas), set0) = mods
  /\ Turn(Upright(mods, h0, set0.x, set0.fg, set0.bg), (set0.rot + 360) % 360).w = IF set0.rot % 180 = 0 THEN w0 ELSE h0
\* There is a file of every picture this small with a pixel in it, and of no other.
FileWhenFits == (kind \in {"gif", "png"} /\ stage \in {"done", "refused"}) =>
  /\ (stage = "done") = Fits(kind, canvas.w, canvas.h)
  /\ (stage = "done") = (PictureOf(canvas).rows # <<>>)
\* Four quarters are a whole turn, and Turn is a homomorphism of the quarters.
TurnsAdd == (kind \in Images /\ stage = "done") =>
  /\ Quarter(Quarter(Quarter(Quarter(canvas)))) = canvas
  /\ kind # "gif" => PictureOf(Quarter(canvas)) = Picture(mods, [set0 EXCEPT !.rot = (@ + 90) % 360])

-----------------------------------------------------------------------------
(* ASCII: one character after another; `row` counts lines.                  *)
AscChar ==
  /\ kind = "ascii" /\ stage = "draw"
  /\ IF row > h0 THEN stage' = "done" /\ UNCHANGED <<at, row, written>>
     ELSE IF at <= w0
       THEN written' = Append(written, IF mods[(at - 1) \div set0.x + 1] = 1 THEN 35 ELSE 32) /\ at' = at + 1 /\ UNCHANGED <<row, stage>>
       ELSE written' = (IF row < h0 THEN Append(written, 10) ELSE written) /\ row' = row + 1 /\ at' = 1 /\ UNCHANGED stage
  /\ UNCHANGED <<kind, mods, set0, canvas, doc>>
Lines(t) == LET cuts == SetToSortSeq({i \in DOMAIN t : t[i] = 10} \cup {Len(t) + 1}, <)
            IN [k \in DOMAIN cuts |-> SubSeq(t, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, cuts[k] - 1)]
LineGroups(t) == LET g == Rle(Lines(t)) IN [i \in DOMAIN g |-> <<g[i][2], Rle(g[i][1])>>]
AscRight == (kind = "ascii" /\ stage = "done") =>
  /\ LineGroups(written) = AsciiRows(mods, h0, set0.x)
  /\ h0 > 0 => Len(written) = h0 * w0 + h0 - 1 /\ Len(Lines(written)) = h0
  /\ (h0 > 0 /\ set0.x > 0) => ReadAscii(LineGroups(written), set0.x) = mods

-----------------------------------------------------------------------------
(* JSON: written member by member, then read by a reader of characters.     *)
Quoted(ss) == <<34>> \o Cps(ss) \o <<34>>
LimbText(l, first) == LET s == <<48 + l \div 1000, 48 + ((l \div 100) % 10), 48 + ((l \div 10) % 10), 48 + (l % 10)>>
                          lead == CHOOSE k \in 1..4 : s[k] # 48 /\ \A j \in 1..(k - 1) : s[j] = 48
                      IN IF first THEN SubSeq(s, lead, 4) ELSE s
NumText(b) == IF b = <<>> THEN <<48>>
              ELSE Flat([i \in DOMAIN b |-> LimbText(b[Len(b) + 1 - i], i = 1)])
ArrayText(m) == <<91>> \o Flat([i \in DOMAIN m |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o <<48 + m[i]>>]) \o <<93>>
JsonWrite ==
  /\ kind = "json" /\ stage = "draw"
  /\ written' = <<123>> \o Quoted(<<"h","e","i","g","h","t">>) \o <<58>> \o NumText(set0.h) \o <<44>>
             \o Quoted(<<"x","d","i","m">>) \o <<58>> \o NumText(set0.x) \o <<44>>
             \o Quoted(<<"e","n","c","o","d","i","n","g">>) \o <<58>> \o ArrayText(mods) \o <<125>>
  /\ stage' = "parse" /\ at' = 1
  /\ doc' = [st |-> "open", key |-> <<>>, num |-> <<>>, arr |-> <<>>, members |-> <<>>]
  /\ UNCHANGED <<kind, mods, set0, row, canvas>>
\* The reader: an automaton over characters.  num is a sequence of digits, most significant first.
Member(d, v) == [d EXCEPT !.members = Append(@, <<d.key, v>>)]
JsonStep(d, c) ==
  LET to(st) == [d EXCEPT !.st = st] IN
  CASE d.st = "open" -> IF c = 123 THEN to("name") ELSE to("bad")
    [] d.st = "name" -> IF c = 34 THEN [d EXCEPT !.st = "key", !.key = <<>>] ELSE to("bad")
    [] d.st = "key" -> IF c = 34 THEN to("colon") ELSE IF c < 32 \/ c = 92 THEN to("bad") ELSE [d EXCEPT !.key = Append(@, c)]
    [] d.st = "colon" -> IF c = 58 THEN to("value") ELSE to("bad")
    [] d.st = "value" -> IF IsDigit(c) THEN [d EXCEPT !.st = "num", !.num = <<c - 48>>]
                         ELSE IF c = 91 THEN [d EXCEPT !.st = "first", !.arr = <<>>] ELSE to("bad")
    [] d.st = "num" -> IF IsDigit(c) THEN IF d.num = <<0>> THEN to("bad") ELSE [d EXCEPT !.num = Append(@, c - 48)]
                       ELSE IF c = 44 THEN [Member(d, d.num) EXCEPT !.st = "name"]
                       ELSE IF c = 125 THEN [Member(d, d.num) EXCEPT !.st = "end"] ELSE to("bad")
    [] d.st = "first" -> IF c = 93 THEN [Member(d, d.arr) EXCEPT !.st = "after"]
                         ELSE IF IsDigit(c) THEN [d EXCEPT !.st = "item", !.arr = Append(@, c - 48)] ELSE to("bad")
    [] d.st = "item" -> IF c = 44 THEN to("next") ELSE IF c = 93 THEN [Member(d, d.arr) EXCEPT !.st = "after"] ELSE to("bad")
    [] d.st = "next" -> IF IsDigit(c) THEN [d EXCEPT !.st = "item", !.arr = Append(@, c - 48)] ELSE to("bad")
    [] d.st = "after" -> IF c = 44 THEN to("name") ELSE IF c = 125 THEN to("end") ELSE to("bad")
    [] OTHER -> to("bad")
JsonRead ==
  /\ kind = "json" /\ stage = "parse"
  /\ IF at <= Len(written) THEN doc' = JsonStep(doc, written[at]) /\ at' = at + 1 /\ stage' = stage
     ELSE stage' = "done" /\ UNCHANGED <<doc, at>>
  /\ UNCHANGED <<kind, mods, set0, row, canvas, written>>
\* Decimal digits to limbs.
LimbsOf(ds) == LET n == Len(ds) IN
  Trim([k \in 1..((n + 3) \div 4) |->
     SumSeq([j \in 1..4 |-> LET q == n - 4 * (k - 1) - (j - 1) IN IF q >= 1 THEN ds[q] * (10 ^ (j - 1)) ELSE 0])])
Named(ss) == SelectSeq(doc.members, LAMBDA e : e[1] = Cps(ss))
JsonOk == (kind = "json" /\ stage = "done") =>
  /\ doc.st = "end" /\ Len(doc.members) = 3
  /\ JsonRight([ok |-> TRUE, names |-> <<"height", "xdim", "encoding">>,
                height |-> LimbsOf(Named(<<"h","e","i","g","h","t">>)[1][2]),
                xdim |-> LimbsOf(Named(<<"x","d","i","m">>)[1][2]),
                encoding |-> Named(<<"e","n","c","o","d","i","n","g">>)[1][2]], mods, set0.h, set0.x)
JsonNeverBad == kind = "json" /\ stage = "parse" => doc.st # "bad"

-----------------------------------------------------------------------------
(* SVG: rectangles one after another, the offset carried along by adding.   *)
Rect(x, w, c) == [x |-> x, y |-> <<>>, w |-> w, h |-> set0.h, fill |-> <<c[1], c[2], c[3]>>,
                  op |-> IF c[4] = 255 THEN 0 - 1 ELSE 10000 * Hundredths(c[4])]
SvgDraw ==
  /\ kind = "svg" /\ stage = "draw"
  /\ IF canvas = <<>> THEN canvas' = <<Rect(<<>>, BigMul(set0.x, n0), set0.bg)>> /\ UNCHANGED <<at, written, stage>>
     ELSE IF at <= n0 THEN
       /\ canvas' = IF mods[at] = 1 THEN Append(canvas, Rect(written, set0.x, set0.fg)) ELSE canvas
       /\ written' = BigAdd(written, set0.x) /\ at' = at + 1 /\ UNCHANGED stage
     ELSE stage' = "done" /\ UNCHANGED <<canvas, at, written>>
  /\ UNCHANGED <<kind, mods, set0, row, doc>>
SvgDoc == [ok |-> TRUE, root |-> "svg", other |-> 0, view |-> << <<>>, <<>>, written, set0.h>>, rects |-> canvas, ns |-> set0.ns]
SvgOk == (kind = "svg" /\ stage = "done") =>
  /\ SvgRight(SvgDoc, mods, set0)
  /\ set0.x # <<>> => SvgModules(SvgDoc, set0, n0) = mods
  \* drawing another set of bars is noticed, and so is another colour or height
  /\ \A i \in DOMAIN mods : ~SvgRight(SvgDoc, [mods EXCEPT ![i] = 1 - @], set0)
  /\ ~SvgRight(SvgDoc, mods, [set0 EXCEPT !.h = BigAdd(@, <<1>>)])
  /\ ~SvgRight(SvgDoc, mods, [set0 EXCEPT !.bg[3] = (@ + 1) % 256])
\* The opacity is the nearest hundredth of alpha/255, for every alpha.
OpacityNearest == \A a \in 0..255 : \A q \in 0..100 :
  LET far(z) == IF 100 * a > 255 * z THEN 100 * a - 255 * z ELSE 255 * z - 100 * a IN far(Hundredths(a)) <= far(q)

Next == ImgStart \/ ImgPaint \/ ImgTurn \/ ImgPalette \/ AscChar \/ JsonWrite \/ JsonRead \/ SvgDraw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(stage \in {"done", "refused"})

-----------------------------------------------------------------------------
Deep == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER = "thorough" ELSE FALSE
AllModules(n) == UNION {[1..k -> {0, 1}] : k \in 0..n}
MCWhich == {IOEnv.KIND}
MCModulesOf(k) == IF k \in Images THEN AllModules(IF Deep THEN 6 ELSE 4)
                  ELSE AllModules(IF k = "json" THEN IF Deep THEN 8 ELSE 5 ELSE IF Deep THEN 9 ELSE 6)
Setting(h, x, fg, bg, rot, ns) == [h |-> h, x |-> x, fg |-> fg, bg |-> bg, rot |-> rot, ns |-> ns]
K0 == <<0, 0, 0, 255>>
W0 == <<255, 255, 255, 255>>
Clear == <<7, 8, 9, 0>>
Half == <<7, 8, 9, 128>>
BigNums == {<<>>, <<1>>, <<2>>, <<10>>, <<9999>>, <<0, 1>>, <<9999, 9999>>, <<7295, 9496, 42>>, <<7296, 9496, 42>>} \* ..., 2^32-1, 2^32
MCSettingsOf(k) ==
  CASE k \in Images -> {Setting(h, x, c[1], c[2], rot, NoNs) : h \in 0..(IF Deep THEN 4 ELSE 3), x \in 0..3, rot \in Rotations,
                          c \in {<<K0, W0>>, <<Half, Clear>>} \cup (IF k = "gif" THEN {<<Clear, K0>>, <<Half, <<7, 8, 9, 255>>>>, <<Clear, <<1, 2, 3, 0>>>>} ELSE {})}
    [] k = "ascii" -> {Setting(h, x, K0, W0, 0, NoNs) : h \in 0..(IF Deep THEN 5 ELSE 3), x \in 0..(IF Deep THEN 5 ELSE 3)}
    [] k = "json" -> {Setting(h, x, K0, W0, 0, NoNs) : h \in BigNums, x \in IF Deep THEN BigNums ELSE {<<>>, <<1>>, <<7296, 9496, 42>>}}
    [] k = "svg" -> {Setting(h, x, c[1], c[2], 0, ns) : h \in {<<>>, <<1>>, <<7295, 9496, 42>>}, x \in BigNums \ {<<7296, 9496, 42>>},
                       c \in {<<K0, W0>>, <<Half, Clear>>}, ns \in {NoNs, [given |-> TRUE, text |-> <<120>>]}}
=============================================================================
