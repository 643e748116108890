------------------------------ MODULE Decoder -------------------------------
(* The decoder interface as a state machine.  A codestream K is              *)
(*   [siz, nl, mct, d, order]   d: source samples of each component; order:  *)
(*   the tiles in the order in which their last tile-parts come              *)
(* A codec is in state m = [ph, red, comps, area, next, firm]:               *)
(*   ph    new     nothing read yet                                          *)
(*         head    header read, nothing decoded                              *)
(*         again   an area was set after something had been decoded          *)
(*         over    an opj_decode has succeeded                               *)
(*         rand    tiles are being fetched by index                          *)
(*         loop    tiles are being read in sequence, none pending            *)
(*         pend    a tile header has been read, its data not yet             *)
(*         ended   end of decompression was called                           *)
(*         bad     reading the header failed                                 *)
(*         wild    an option was changed where its effect is not documented  *)
(*   red, comps, area   the options in force (comps = <<>>: all)             *)
(*   firm  every call so far was in order, so the next legal call must       *)
(*         succeed; otherwise it may also be refused, but a success has the  *)
(*         documented effect all the same                                    *)
EXTENDS Wavelet, Json, TLC, TLCExt

\* ---- what the samples are, from the source image ---------------------------
SrcPlane(K, t, c) ==
  LET cr == Sampled(ImageRect(K.siz), K.siz.comps[c].dx, K.siz.comps[c].dy)
      r == TileComp(K.siz, t, c)
      w == Wd(cr)
  IN [r |-> r, d |-> TLCEval([y \in 1..Ht(r) |-> TLCEval([x \in 1..Wd(r) |->
        K.d[c][(r.y0 + y - 1 - cr.y0) * w + (r.x0 + x - 1 - cr.x0) + 1] - Shift(K.siz.comps[c])])])]

Out(K, c, p) == MapPlane(p, LAMBDA v : Clamp(v + Shift(K.siz.comps[c]), K.siz.comps[c]))

\* Planes of tile t with f resolutions discarded: [ct |-> with, raw |-> without the inverse component transform]
Level(K, t, f) ==
  LET src == TLCEval([c \in 1..K.siz.n |-> SrcPlane(K, t, c)])
      fw == IF K.mct = 1 THEN FwdRct(src[1], src[2], src[3]) ELSE <<>>
      low == TLCEval([c \in 1..K.siz.n |-> LowPass(IF K.mct = 1 /\ c <= 3 THEN fw[c] ELSE src[c], f)])
      iv == IF K.mct = 1 THEN InvRct(low[1], low[2], low[3]) ELSE <<>>
  IN [raw |-> TLCEval([c \in 1..K.siz.n |-> Out(K, c, low[c])]),
      ct |-> TLCEval([c \in 1..K.siz.n |-> Out(K, c, IF K.mct = 1 /\ c <= 3 THEN iv[c] ELSE low[c])])]

\* The rows of the whole image that the tiles' planes make up, component c
Joined(K, f, lv, c) ==
  LET r == Reduced(Sampled(ImageRect(K.siz), K.siz.comps[c].dx, K.siz.comps[c].dy), f)
      tw == TilesX(K.siz)
      RowOf(ty, y) == FoldLeft(LAMBDA acc, tx : LET p == lv[ty * tw + tx + 1][c]
                                                IN IF Empty(p.r) THEN acc ELSE acc \o p.d[y - p.r.y0 + 1],
                               <<>>, Upto(0, tw - 1))
      Band(ty) == LET c1 == Reduced(TileComp(K.siz, ty * tw, c), f) IN c1
  IN [r |-> r,
      d |-> FoldLeft(LAMBDA acc, ty : LET b == Band(ty)
                                      IN acc \o [k \in 1..(b.y1 - b.y0) |-> TLCEval(RowOf(ty, b.y0 + k - 1))],
                     <<>>, Upto(0, TilesY(K.siz) - 1))]

\* At each reduction: the tiles' planes, and the whole image's with (ct) and without (raw) the component transform
Levels(K, fs) ==
  TLCEval([f \in fs |->
    LET ts == TLCEval([t \in 1..NumTiles(K.siz) |-> Level(K, t - 1, f)])
        raw == [t \in 1..Len(ts) |-> ts[t].raw]
        ct == [t \in 1..Len(ts) |-> ts[t].ct]
    IN [tile |-> ts,
        raw |-> TLCEval([c \in 1..K.siz.n |-> Joined(K, f, raw, c)]),
        ct |-> TLCEval([c \in 1..K.siz.n |-> Joined(K, f, ct, c)])]])

\* ---- images ---------------------------------------------------------------
Selected(K, m) == IF m.comps = <<>> THEN Upto(1, K.siz.n) ELSE [k \in 1..Len(m.comps) |-> m.comps[k] + 1]

CompRect(K, c, a, f) == Reduced(Sampled(a, K.siz.comps[c].dx, K.siz.comps[c].dy), f)

\* The geometry an image must have that shows area a at reduction f, components sel
Shape(K, a, f, sel, img) ==
  /\ <<img.x0, img.y0, img.x1, img.y1>> = <<a.x0, a.y0, a.x1, a.y1>>
  /\ Len(img.comps) = Len(sel)
  /\ \A k \in 1..Len(sel) :
       LET c == sel[k]
           q == img.comps[k]
           r == CompRect(K, c, a, f)
       IN /\ q.dx = K.siz.comps[c].dx /\ q.dy = K.siz.comps[c].dy
          /\ q.prec = K.siz.comps[c].prec /\ q.sgnd = K.siz.comps[c].sgnd
          /\ q.w = Wd(r) /\ q.h = Ht(r) /\ q.factor = f
          /\ q.x0 = CeilDiv(a.x0, q.dx) /\ q.y0 = CeilDiv(a.y0, q.dy)

Pixels(K, lev, a, f, m, img) ==
  LET sel == Selected(K, m)
  IN \A k \in 1..Len(sel) :
       LET c == sel[k]
           r == CompRect(K, c, a, f)
           w == Wd(r)
           p == IF m.comps = <<>> THEN lev[f].ct[c] ELSE lev[f].raw[c]
           d == img.comps[k].d
       IN /\ Len(d) = w * Ht(r)
          /\ w > 0 => \A y \in r.y0..(r.y1 - 1) :
               SubSeq(p.d[y - p.r.y0 + 1], r.x0 - p.r.x0 + 1, r.x1 - p.r.x0) = SubSeq(d, (y - r.y0) * w + 1, (y - r.y0 + 1) * w)

Shows(K, lev, a, f, m, img) == Shape(K, a, f, Selected(K, m), img) /\ Pixels(K, lev, a, f, m, img)

\* No selected component is without samples in area a
HasSamples(K, a, m) == \A c \in 1..K.siz.n : ~Empty(CompRect(K, c, a, m.red))

\* ---- sequential tiles ------------------------------------------------------
ByteSize(p) == IF p <= 8 THEN 1 ELSE IF p <= 16 THEN 2 ELSE 4
\* The data of a tile holds all components, whichever are selected
TileBytes(K, t, f, m) ==
  FoldLeft(LAMBDA acc, c : LET r == Reduced(TileComp(K.siz, t, c), f)
                           IN acc + Wd(r) * Ht(r) * ByteSize(K.siz.comps[c].prec), 0, Upto(1, K.siz.n))
\* Every component that is not selected has no samples in the tile
Whole(K, t, m) == m.comps = <<>> \/ \A c \in 1..K.siz.n : (\E k \in 1..Len(m.comps) : m.comps[k] = c - 1)
                                                        \/ Empty(Reduced(TileComp(K.siz, t, c), m.red))
RECURSIVE Le(_, _, _)
Le(b, o, n) == IF n = 0 THEN 0 ELSE b[o] + 256 * Le(b, o + 1, n - 1)
\* Sample stored at offset o of b; four-byte samples fit the 23 bits the generator allows
Stored(b, o, cmp) ==
  LET z == ByteSize(cmp.prec)
      v == IF z = 4 THEN Le(b, o, 3) ELSE Le(b, o, z)
      n == IF z = 1 THEN 256 ELSE IF z = 2 THEN 65536 ELSE 16777216
  IN IF cmp.sgnd = 1 /\ v >= n \div 2 THEN v - n ELSE v
TileData(K, lev, t, m, b) ==
  /\ Len(b) = TileBytes(K, t, m.red, m)
  /\ FoldLeft(LAMBDA acc, c :
       LET p == IF m.comps = <<>> THEN lev[m.red].tile[t + 1].ct[c] ELSE lev[m.red].tile[t + 1].raw[c]
           z == ByteSize(K.siz.comps[c].prec)
           w == Wd(p.r)
       IN [o |-> acc.o + w * Ht(p.r) * z,
           ok |-> acc.ok /\ \A y \in 1..Ht(p.r) : \A x \in 1..w :
                    Stored(b, acc.o + ((y - 1) * w + x - 1) * z, K.siz.comps[c]) = p.d[y][x]],
       [o |-> 1, ok |-> TRUE], Upto(1, K.siz.n)).ok

\* ---- the protocol ------------------------------------------------------------
New == [ph |-> "new", red |-> 0, comps |-> <<>>, area |-> Rect(0, 0, 0, 0), next |-> 0, firm |-> TRUE]

\* Requests for an area in reference-grid coordinates
WholeArea(a) == a.x0 = 0 /\ a.y0 = 0 /\ a.x1 = 0 /\ a.y1 = 0
Meets(K, a) == LET r == ImageRect(K.siz)
               IN /\ a.x0 >= 0 /\ a.y0 >= 0 /\ a.x0 < a.x1 /\ a.y0 < a.y1
                  /\ a.x0 < r.x1 /\ a.x1 > r.x0 /\ a.y0 < r.y1 /\ a.y1 > r.y0
\* An area without any extent, or that only touches the image's border, may be refused
Touches(K, a, f) == LET r == ImageRect(K.siz)
                 IN /\ a.x0 >= 0 /\ a.y0 >= 0
                    /\ \A c \in 1..K.siz.n : /\ CompRect(K, c, a, f).x0 <= CompRect(K, c, a, f).x1
                                              /\ CompRect(K, c, a, f).y0 <= CompRect(K, c, a, f).y1
                    /\ a.x0 <= r.x1 /\ a.x1 >= r.x0 /\ a.y0 <= r.y1 /\ a.y1 >= r.y0
Wanted(K, a) == IF WholeArea(a) THEN ImageRect(K.siz) ELSE Meet(a, ImageRect(K.siz))
ValidComps(K, x) == \A j \in 1..Len(x) : x[j] < K.siz.n /\ \A k \in 1..(j - 1) : x[j] # x[k]

\* A decoded image still has the codestream's components in their places
InOrder(K, m) == m.comps = <<>> \/ m.comps = [k \in 1..K.siz.n |-> k - 1]

\* The tile that a sequential read comes to next
Cur(K, m) == K.order[m.next + 1]
InTileOrder(siz) == [t \in 1..NumTiles(siz) |-> t - 1]

\* What a call c in state m must come to: yes, no or may
Outcome(K, m, c) ==
  LET unread == m.ph \in {"new", "bad"}
      e == CASE c.op = "setup" -> CASE m.ph = "new" -> "yes" [] m.firm /\ m.ph \in {"head", "again", "over", "rand", "loop", "pend"} -> "no" [] OTHER -> "may"
             [] c.op = "strict" -> IF m.ph = "new" THEN "yes" ELSE "may"
             [] c.op = "hdr" -> IF m.ph = "new" THEN IF m.red <= K.nl THEN "yes" ELSE "no" ELSE IF m.ph \in {"ended", "wild"} THEN "may" ELSE "no"
             [] c.op = "comps" -> IF unread THEN "no" ELSE IF c.ct # 0 \/ ~ValidComps(K, c.x) THEN "no"
                                  ELSE IF m.ph \in {"head", "again"} THEN "yes" ELSE "may"
             [] c.op = "resf" -> IF unread THEN "no" ELSE IF c.n > K.nl THEN "no" ELSE IF m.ph \in {"head", "again"} THEN "yes" ELSE "may"
             [] c.op = "area" -> IF unread THEN "no" ELSE IF ~WholeArea(c.a) /\ ~Touches(K, c.a, K.nl) THEN "no"
                                 ELSE IF ~WholeArea(c.a) /\ ~Meets(K, c.a) THEN "may"
                                 ELSE IF m.ph \in {"head", "again"} /\ HasSamples(K, Wanted(K, c.a), m) THEN "yes"
                                 ELSE IF m.ph = "over" /\ NumTiles(K.siz) = 1 /\ m.area # ImageRect(K.siz)
                                         /\ HasSamples(K, Wanted(K, c.a), m) THEN "yes"
                                 ELSE "may"
             [] c.op = "dec" -> IF unread THEN "no" ELSE IF m.ph \in {"head", "again"} /\ HasSamples(K, m.area, m) THEN "yes" ELSE "may"
             [] c.op = "gtile" -> IF unread \/ c.t >= NumTiles(K.siz) THEN "no"
                                  ELSE IF m.ph \in {"head", "again", "rand"} /\ HasSamples(K, TileRect(K.siz, c.t), m) THEN "yes" ELSE "may"
             [] c.op = "rth" -> IF unread THEN "no"
                                ELSE IF (m.ph = "head" /\ m.area = ImageRect(K.siz)) \/ m.ph = "loop" THEN "yes" ELSE "may"
             [] c.op = "dtd" -> IF m.ph = "pend" /\ ~Whole(K, Cur(K, m), m) THEN "no"
                                ELSE IF m.ph = "pend" /\ c.t = Cur(K, m) /\ c.n = TileBytes(K, c.t, m.red, m) THEN "yes"
                                ELSE IF m.ph \in {"wild", "ended"} THEN "may" ELSE IF m.ph = "pend" /\ c.t = Cur(K, m) /\ c.n > TileBytes(K, c.t, m.red, m) THEN "may" ELSE "no"
             [] c.op = "info" -> IF unread THEN "may" ELSE "yes"
             [] c.op = "index" -> "may"
             [] c.op = "end" -> IF m.ph \in {"over", "rand"} THEN "yes" ELSE "may"
  IN IF m.ph = "wild" /\ e = "yes" THEN "may" ELSE IF e = "yes" /\ ~m.firm THEN "may" ELSE e

\* Is the visible effect of the successful call c the documented one?
Effect(K, lev, m, c) ==
  CASE c.op = "hdr" -> m.ph # "new" \/ Shape(K, ImageRect(K.siz), m.red, Upto(1, K.siz.n), c.img)
    [] c.op = "area" -> m.ph \in {"wild", "loop", "pend", "ended"}
                        \/ <<c.img.x0, c.img.y0, c.img.x1, c.img.y1>> = <<Wanted(K, c.a).x0, Wanted(K, c.a).y0, Wanted(K, c.a).x1, Wanted(K, c.a).y1>>
    [] c.op = "dec" -> IF m.ph \in {"head", "again", "over"} THEN Shows(K, lev, m.area, m.red, m, c.img) ELSE TRUE
    [] c.op = "gtile" -> IF m.ph \in {"head", "again", "rand", "over"} THEN Shows(K, lev, TileRect(K.siz, c.t), m.red, m, c.img) ELSE TRUE
    [] c.op = "rth" -> CASE m.ph \in {"head", "loop"} ->
                              IF m.area # ImageRect(K.siz) THEN TRUE
                              ELSE IF m.next = NumTiles(K.siz) THEN c.go = 0
                              ELSE LET t == Cur(K, m)
                                       r == TileRect(K.siz, t)
                                   IN /\ c.go = 1 /\ c.idx = t /\ c.nb = K.siz.n
                                      /\ <<c.x0, c.y0, c.x1, c.y1>> = <<r.x0, r.y0, r.x1, r.y1>>
                                      /\ c.size = TileBytes(K, t, m.red, m)
                         [] OTHER -> TRUE
    [] c.op = "info" -> m.ph \in {"new", "bad"} \/ (c.nb = K.siz.n /\ c.tw = TilesX(K.siz) /\ c.th = TilesY(K.siz)
                                                  /\ <<c.tx0, c.ty0, c.tdx, c.tdy>> = <<K.siz.XTO, K.siz.YTO, K.siz.XT, K.siz.YT>>)
    [] c.op = "dtd" -> IF m.ph = "pend" THEN TileData(K, lev, c.t, m, c.data) ELSE TRUE
    [] OTHER -> TRUE

\* The state after call c with outcome ok
After(K, m, c, ok) ==
  LET loose == [m EXCEPT !.firm = FALSE]
      wild == [m EXCEPT !.ph = "wild", !.firm = FALSE]
  IN IF ~ok
     THEN CASE c.op = "hdr" -> IF m.ph \in {"new", "bad"} THEN [m EXCEPT !.ph = "bad"] ELSE wild
            [] c.op \in {"comps", "resf", "info", "index"} \/ (c.op \in {"dec", "area", "gtile"} /\ m.ph \in {"new", "bad"}) -> m
            [] OTHER -> loose
     ELSE CASE c.op = "setup" -> IF m.ph = "new" THEN [m EXCEPT !.red = c.reduce] ELSE wild
            [] c.op \in {"strict", "info", "index"} -> m
            [] c.op = "hdr" -> IF m.ph = "new" THEN [m EXCEPT !.ph = "head", !.area = ImageRect(K.siz)] ELSE wild
            [] c.op = "comps" -> IF m.ph \in {"head", "again"} THEN [m EXCEPT !.comps = c.x] ELSE wild
            [] c.op = "resf" -> IF m.ph = "head" THEN [m EXCEPT !.red = c.n] ELSE wild
            [] c.op = "area" -> CASE m.ph \in {"head", "again", "over"} -> [m EXCEPT !.area = Wanted(K, c.a), !.ph = IF m.ph = "head" THEN "head" ELSE "again",
                                          !.firm = @ /\ (m.ph = "head" \/ NumTiles(K.siz) = 1)]
                                  [] m.ph = "rand" -> [loose EXCEPT !.area = Wanted(K, c.a), !.ph = "again"]
                                  [] OTHER -> wild
            [] c.op = "dec" -> IF m.ph \in {"head", "again", "over"} THEN [m EXCEPT !.ph = IF InOrder(K, m) THEN "over" ELSE "wild"] ELSE wild
            [] c.op = "gtile" -> IF ~InOrder(K, m) THEN wild
                                 ELSE IF m.ph \in {"head", "again", "rand"} THEN [m EXCEPT !.ph = "rand"]
                                 ELSE IF m.ph = "over" THEN [loose EXCEPT !.ph = "rand"] ELSE wild
            [] c.op = "rth" -> IF m.ph \in {"head", "loop"} /\ m.area = ImageRect(K.siz)
                               THEN IF m.next = NumTiles(K.siz) THEN [m EXCEPT !.ph = "ended"] ELSE [m EXCEPT !.ph = "pend"]
                               ELSE wild
            [] c.op = "dtd" -> IF m.ph = "pend" THEN [m EXCEPT !.ph = "loop", !.next = @ + 1] ELSE wild
            [] c.op = "end" -> [loose EXCEPT !.ph = "ended"]
=============================================================================
