------------------------------ MODULE Encoder -------------------------------
(* The encoder interface: which images and coding parameters are refused,    *)
(* and which calls succeed in which state.                                   *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- images and parameters ------------------------------------------------ *)
(* d: [x0, y0, x1, y1, comps, nres, cbw, cbh, prog, csty, mode, layers, tiled, *)
(*     tile, rspec, prec, roic, rois, mct, matrix, poc, npoc, comment, ...]    *)
(* comps: sequence of [dx, dy, prec, sgnd, w, h]; unsigned fields given a      *)
(* negative number hold a huge one.  matrix: 0 none, 1 regular, 2 without an   *)
(* inverse.  profile: 1 if one is asked for; odd: 1 if something is asked for  *)
(* that is not specified here (rate lists out of order, ...); exact: 1 if the  *)
(* samples must come back unchanged.                                           *)
Huge == 2147483647
U(v) == IF v < 0 THEN Huge ELSE v
CDiv(a, b) == IF a = 0 THEN 0 ELSE ((a - 1) \div b) + 1
In(v, a, b) == a <= v /\ v <= b
Bit0(v) == v % 2 = 1

BadImage(d) ==
  \/ ~In(Len(d.comps), 1, 16384)
  \/ d.x0 < 0 \/ d.y0 < 0 \/ d.x1 <= d.x0 \/ d.y1 <= d.y0
  \/ \E k \in 1..Len(d.comps) :
       LET c == d.comps[k]
       IN \/ ~In(c.dx, 1, 255) \/ ~In(c.dy, 1, 255) \/ ~In(c.prec, 1, 31) \/ ~In(c.sgnd, 0, 1)
          \/ c.w # CDiv(d.x1, c.dx) - CDiv(d.x0, c.dx)
          \/ c.h # CDiv(d.y1, c.dy) - CDiv(d.y0, c.dy)

Powers == {4, 8, 16, 32, 64, 128, 256, 512, 1024}
BadBlock(d) == d.cbw \notin Powers \/ d.cbh \notin Powers \/ (d.cbw * d.cbh > 4096)

\* Tile grid: an origin and size such that the first tile holds samples
BadTile(d) ==
  LET o == d.tile
      bad(t0, td, a) == t0 < 0 \/ t0 > a \/ (d.tiled = 1 /\ (td < 1 \/ td <= a - t0))
  IN bad(o[1], o[3], d.x0) \/ bad(o[2], o[4], d.y0)
TileSize(d) == IF d.tiled = 1 THEN <<d.tile[3], d.tile[4]>> ELSE <<d.x1 - d.tile[1], d.y1 - d.tile[2]>>
Grid(d) == <<CDiv(d.x1 - d.tile[1], TileSize(d)[1]), CDiv(d.y1 - d.tile[2], TileSize(d)[2])>>
TooManyTiles(d) == Grid(d)[1] > 65535 \div Grid(d)[2]
NTiles(d) == Grid(d)[1] * Grid(d)[2]
TooDeep(d) == LET w == TileSize(d)
                  small(v) == d.nres > 31 \/ v < 2^(d.nres - 1)
              IN small(w[1]) \/ small(w[2])

BadPrecinct(d) == Bit0(d.csty) /\ (d.rspec < 1 \/ \E k \in 1..Len(d.prec) : k <= d.rspec /\ (d.prec[k][1] > 65535 \/ d.prec[k][2] > 65535))

\* Progression order changes: <<tile, res0, comp0, lay1, res1, comp1, prog>>
Layers(d) == IF d.layers = 0 THEN 1 ELSE d.layers
PocsOf(d, t) == {k \in 1..Len(d.poc) : k <= d.npoc /\ d.poc[k][1] = t}
BadPoc(d) ==
  \E t \in 1..NTiles(d) :
    LET P == PocsOf(d, t)
        min(a, b) == IF a < b THEN a ELSE b
        covers(p, l, r, c) == /\ l < U(p[4]) /\ In(r, U(p[2]), U(p[5]) - 1) /\ In(c, U(p[3]), U(p[6]) - 1)
    IN /\ P # {}
       /\ \/ \E k \in P : LET p == d.poc[k]
                          IN \/ U(p[2]) >= U(p[5]) \/ U(p[2]) >= d.nres
                             \/ U(p[3]) >= U(p[6]) \/ U(p[3]) >= Len(d.comps)
                             \/ p[4] = 0 \/ ~In(p[7], 0, 4)
          \/ \E r \in 0..d.nres - 1, c \in 0..Len(d.comps) - 1, l \in {Layers(d) - 1} :
               ~\E k \in P : covers(d.poc[k], l, r, c)

\* A matrix mixes samples of equal places only
BadMatrix(d) == d.matrix # 0 /\ \E k \in 1..Len(d.comps) : d.comps[k].dx # d.comps[1].dx \/ d.comps[k].dy # d.comps[1].dy

BadRanges(d) ==
  \/ ~In(d.nres, 1, 32) \/ BadBlock(d) \/ ~In(d.layers, 0, 100) \/ ~In(d.npoc, 0, 32)
  \/ ~In(d.prog, 0, 4) \/ ~In(d.csty, 0, 7) \/ d.rspec > 33 \/ BadPrecinct(d) \/ ~In(d.mode, 0, 63)
  \/ (In(d.roic, 0, Len(d.comps) - 1) /\ ~In(d.rois, 0, 37))
  \/ ~In(d.mct, 0, 2) \/ (d.mct = 2 /\ d.matrix = 0) \/ BadMatrix(d) \/ d.comment > 65531
BadParams(d) == BadRanges(d) \/ BadTile(d) \/ TooManyTiles(d) \/ TooDeep(d) \/ BadPoc(d) \/ d.matrix = 2

\* Profiles (cinema, IMF) put other values in the place of those given.
Invalid(d) == BadImage(d) \/ (IF d.profile = 1 THEN BadRanges(d) ELSE BadParams(d))
\* Within what every encoder must take
Ordinary(d) == /\ ~BadImage(d) /\ ~BadParams(d) /\ d.profile = 0 /\ d.matrix = 0 /\ d.odd = 0
               /\ d.tile[3] < 2^20 /\ d.tile[4] < 2^20 /\ \A k \in 1..Len(d.poc) : In(d.poc[k][4], 0, 65535)
               /\ \A k \in 1..Len(d.comps) : d.comps[k].prec <= 16

(* What an encode may come to. r: [setup, start, enc, fin: did the call       *)
(* succeed, empty: nothing was written, dec: the file decodes to an image of  *)
(* the same geometry, same: and to the same samples]; exact: asked for.       *)
Outcome(d, r) ==
  /\ Invalid(d) => ~r.setup
  /\ Ordinary(d) => r.setup /\ r.start
  /\ ~r.setup => ~r.start
  /\ ~r.start => ~r.enc /\ ~r.fin
  /\ ~r.setup => r.empty
  /\ r.enc /\ r.fin /\ d.matrix = 0 => r.dec /\ (d.exact = 1 => r.same)

(* ---- order of calls -------------------------------------------------------- *)
(* Two set-ups, A and B; a configuration knows their numbers of tiles n.A, n.B. *)
Fresh == [ph |-> "new", cfg |-> "", opt |-> 0, data |-> FALSE, t |-> 0, done |-> FALSE]
Calls == {"sA", "sB", "sX", "opt", "optN", "optX", "tA", "tB", "tN", "e", "w0", "w1", "w2", "wX", "end"}
NOf(n, s) == IF s.cfg = "A" THEN n[1] ELSE n[2]
Tile(c) == CASE c = "w0" -> 0 [] c = "w1" -> 1 [] OTHER -> 2

\* Does the call succeed? "yes", "no" or "any"
Verdict(n, s, c) ==
  LET yes(p) == IF p THEN "yes" ELSE "no"
  IN CASE c \in {"sA", "sB"} -> yes(s.ph \in {"new", "ready"})
       [] c \in {"sX", "optX", "wX"} -> "no"
       [] c \in {"opt", "optN"} -> yes(s.ph = "ready")
       [] c \in {"tA", "tN"} -> yes(s.ph = "ready" /\ s.cfg = "A")
       [] c = "tB" -> yes(s.ph = "ready" /\ s.cfg = "B")
       [] c = "e" -> yes(s.ph = "started" /\ s.t = 0 /\ s.data)
       [] c \in {"w0", "w1", "w2"} -> yes(s.ph = "started" /\ s.cfg = "A" /\ s.t = Tile(c) /\ s.t < n[1])
       [] c = "end" -> IF s.ph # "started" THEN "no" ELSE IF s.t = NOf(n, s) THEN "yes" ELSE "any"

\* The state after the call, which did or did not succeed
After(n, s, c, ok) ==
  IF ok
  THEN CASE c \in {"sA", "sB"} -> [Fresh EXCEPT !.ph = "ready", !.cfg = IF c = "sA" THEN "A" ELSE "B"]
         [] c = "opt" -> [s EXCEPT !.opt = 1]
         [] c = "optN" -> [s EXCEPT !.opt = 0]
         [] c \in {"tA", "tB", "tN"} -> [s EXCEPT !.ph = "started", !.data = (c # "tN")]
         [] c = "e" -> [s EXCEPT !.t = NOf(n, s)]
         [] c \in {"w0", "w1", "w2"} -> [s EXCEPT !.t = @ + 1]
         [] c = "end" -> [s EXCEPT !.ph = "closed", !.done = (s.t = NOf(n, s))]
         [] OTHER -> s
  ELSE IF c = "sX" /\ s.ph \in {"new", "ready"} THEN Fresh      \* an earlier set-up is given up
  ELSE IF c = "end" /\ s.ph = "started" THEN [s EXCEPT !.ph = "closed"]
  ELSE s

Allowed(n, s, c, ok) == LET v == Verdict(n, s, c) IN v = "any" \/ (v = "yes") = ok

\* Which file must be there in the end: 0 none, 1.. A, A with option, B, B with option; -1 whatever
File(s) == CASE s.ph \in {"new", "ready"} -> 0
             [] s.done -> (IF s.cfg = "A" THEN 1 ELSE 3) + s.opt
             [] OTHER -> -1
=============================================================================
