------------------------------ MODULE Geometry ------------------------------
(* ITU-T T.800 Annex B: the reference grid, tiles, tile-components,          *)
(* resolutions, sub-bands, precincts and code-blocks.                        *)
(* A rectangle is [x0, y0, x1, y1] with exclusive upper bounds.              *)
(* siz: [X, Y, XO, YO, XT, YT, XTO, YTO, comps]                              *)
EXTENDS Num

Rect(a, b, c, d) == [x0 |-> a, y0 |-> b, x1 |-> c, y1 |-> d]
Wd(r) == IF r.x1 > r.x0 THEN r.x1 - r.x0 ELSE 0
Ht(r) == IF r.y1 > r.y0 THEN r.y1 - r.y0 ELSE 0
Empty(r) == r.x1 <= r.x0 \/ r.y1 <= r.y0
Meet(a, b) == Rect(Max2(a.x0, b.x0), Max2(a.y0, b.y0), Min2(a.x1, b.x1), Min2(a.y1, b.y1))
Inside(a, b) == a.x0 >= b.x0 /\ a.y0 >= b.y0 /\ a.x1 <= b.x1 /\ a.y1 <= b.y1

ImageRect(siz) == Rect(siz.XO, siz.YO, siz.X, siz.Y)
TilesX(siz) == CeilDiv(siz.X - siz.XTO, siz.XT)
TilesY(siz) == CeilDiv(siz.Y - siz.YTO, siz.YT)
NumTiles(siz) == TilesX(siz) * TilesY(siz)

TileRect(siz, t) ==
  LET p == t % TilesX(siz)
      q == t \div TilesX(siz)
  IN Rect(Max2(siz.XTO + p * siz.XT, siz.XO), Max2(siz.YTO + q * siz.YT, siz.YO),
          Min2(siz.XTO + (p + 1) * siz.XT, siz.X), Min2(siz.YTO + (q + 1) * siz.YT, siz.Y))

\* Reference grid to the samples of a component with separations dx, dy
Sampled(r, dx, dy) == Rect(CeilDiv(r.x0, dx), CeilDiv(r.y0, dy), CeilDiv(r.x1, dx), CeilDiv(r.y1, dy))
\* ... and to its resolution with d decomposition levels fewer
Reduced(r, d) == Rect(CeilPow2(r.x0, d), CeilPow2(r.y0, d), CeilPow2(r.x1, d), CeilPow2(r.y1, d))

TileComp(siz, t, c) == Sampled(TileRect(siz, t), siz.comps[c].dx, siz.comps[c].dy)
ResRect(tc, nl, r) == Reduced(tc, nl - r)

\* Sub-bands of resolution r: orientation 0 LL, 1 HL, 2 LH, 3 HH
Orients(r) == IF r = 0 THEN <<0>> ELSE <<1, 2, 3>>
BandRect(tc, nl, r, o) ==
  IF r = 0 THEN Reduced(tc, nl)
  ELSE LET n == nl - r + 1
           h == 2^(n - 1)
           B(a, bit) == CeilDiv(a - h * bit, 2^n)
       IN Rect(B(tc.x0, o % 2), B(tc.y0, o \div 2), B(tc.x1, o % 2), B(tc.y1, o \div 2))

\* Precinct partition of a resolution with rectangle rr and exponents pp = <<PPx, PPy>>
PrecX(rr, pp) == IF rr.x1 > rr.x0 THEN CeilPow2(rr.x1, pp[1]) - FloorPow2(rr.x0, pp[1]) ELSE 0
PrecY(rr, pp) == IF rr.y1 > rr.y0 THEN CeilPow2(rr.y1, pp[2]) - FloorPow2(rr.y0, pp[2]) ELSE 0
NumPrec(rr, pp) == PrecX(rr, pp) * PrecY(rr, pp)
PrecCell(rr, pp, k) ==        \* <<column, row>> of the cell of precinct k in the partition
  <<FloorPow2(rr.x0, pp[1]) + (k % PrecX(rr, pp)), FloorPow2(rr.y0, pp[2]) + k \div PrecX(rr, pp)>>

\* The part of band br (of a resolution r) that belongs to precinct k
PrecBand(rr, pp, r, br, k) ==
  LET c == PrecCell(rr, pp, k)
      ex == IF r = 0 THEN pp[1] ELSE pp[1] - 1
      ey == IF r = 0 THEN pp[2] ELSE pp[2] - 1
  IN Meet(br, Rect(c[1] * 2^ex, c[2] * 2^ey, (c[1] + 1) * 2^ex, (c[2] + 1) * 2^ey))

\* Code-blocks of a band part pb: [w, h, rects] in raster order
CodeBlocks(pb, r, pp, xcb, ycb) ==
  LET ex == Min2(xcb, IF r = 0 THEN pp[1] ELSE pp[1] - 1)
      ey == Min2(ycb, IF r = 0 THEN pp[2] ELSE pp[2] - 1)
      i0 == FloorPow2(pb.x0, ex)
      j0 == FloorPow2(pb.y0, ey)
      w == IF Empty(pb) THEN 0 ELSE CeilPow2(pb.x1, ex) - i0
      h == IF Empty(pb) THEN 0 ELSE CeilPow2(pb.y1, ey) - j0
  IN [w |-> w, h |-> h,
      rects |-> [k \in 1..(w * h) |->
                   LET i == i0 + ((k - 1) % w)
                       j == j0 + (k - 1) \div w
                   IN Meet(pb, Rect(i * 2^ex, j * 2^ey, (i + 1) * 2^ex, (j + 1) * 2^ey))]]
=============================================================================
