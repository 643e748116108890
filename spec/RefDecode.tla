----------------------------- MODULE RefDecode ------------------------------
(* The standard's decoder for reversible codestreams: from bytes to samples. *)
EXTENDS Codestream, Wavelet

\* Undo the region-of-interest scaling (H.1): magnitudes at or above 2^shift are shifted down
UnRoi(v, shift) ==
  IF shift = 0 THEN v
  ELSE LET a == IF v < 0 THEN -v ELSE v
           b == IF a >= 2^shift THEN a \div 2^shift ELSE a
       IN IF v < 0 THEN -b ELSE b

\* Coefficients of band b of resolution r (component tc, precinct states prec): [ok, p]
BandPlane(tc, r, b, precs) ==
  LET rs == tc.res[r + 1]
      bd == rs.bands[b]
      blocks == TLCEval(FlatMap(LAMBDA k :
                  FlatMap(LAMBDA j :
                    LET ps == precs[k][b]
                        bl == ps.blk[j]
                        rc == ps.cb.rects[j]
                        d == DecodeBlock(Wd(rc), Ht(rc), bd.o, tc.mode, bd.mb + tc.roi - bl.zbp, bl.segs)
                    IN IF bl.np = 0 THEN <<>>
                       ELSE <<[r |-> rc, ok |-> d.ok /\ bl.np <= 3 * (bd.mb + tc.roi - bl.zbp) - 2, d |-> d.d]>>,
                    Upto(1, Len(precs[k][b].blk))),
                  Upto(1, rs.np)))
      At2(x, y) == LET hit == SelectSeq(blocks, LAMBDA q : x >= q.r.x0 /\ x < q.r.x1 /\ y >= q.r.y0 /\ y < q.r.y1)
                   IN IF hit = <<>> THEN 0 ELSE UnRoi(hit[1].d[y - hit[1].r.y0 + 1][x - hit[1].r.x0 + 1], tc.roi)
  IN [ok |-> \A k \in 1..Len(blocks) : blocks[k].ok,
      p |-> [r |-> bd.r, d |-> TLCEval([y \in 1..Ht(bd.r) |-> [x \in 1..Wd(bd.r) |-> At2(bd.r.x0 + x - 1, bd.r.y0 + y - 1)]])]]

\* Samples of a tile-component up to resolution top, before component transform: [ok, p]
CompPlane(tc, prec, top) ==
  LET b0 == BandPlane(tc, 0, 1, prec[1])
      Step(acc, r) ==
        LET h == BandPlane(tc, r, 1, prec[r + 1])
            l == BandPlane(tc, r, 2, prec[r + 1])
            d == BandPlane(tc, r, 3, prec[r + 1])
        IN [ok |-> acc.ok /\ h.ok /\ l.ok /\ d.ok, p |-> Synthesise(acc.p, h.p, l.p, d.p, tc.res[r + 1].rr)]
  IN FoldLeft(Step, b0, Upto(1, top))

\* Tile t of parsed codestream P with d resolutions discarded: [ok, planes]
TilePlanes(s, P, t, d) ==
  LET ti == TileInfo(s, P.siz, P.main, P.parts, t)
      data == TileData(s, P.parts, t)
      rt == ReadTile(s, ti, P.siz, data, Packed(P.main, P.parts, t), TileHeaders(s, P.main, P.parts, t))
      raw == TLCEval([c \in 1..P.siz.n |-> CompPlane(ti.tcs[c], rt.prec[c], ti.tcs[c].nl - d)])
      mixed == IF ti.cod.mct = 1 /\ P.siz.n >= 3
               THEN LET m == InvRct(raw[1].p, raw[2].p, raw[3].p)
                    IN TLCEval([c \in 1..P.siz.n |-> IF c <= 3 THEN m[c] ELSE raw[c].p])
               ELSE [c \in 1..P.siz.n |-> raw[c].p]
  IN IF ~rt.ok THEN [ok |-> FALSE, why |-> "packets", planes |-> <<>>]
     ELSE IF rt.pos # Len(data) THEN [ok |-> FALSE, why |-> "bytes left over", planes |-> <<>>]
     ELSE [ok |-> \A c \in 1..P.siz.n : raw[c].ok, why |-> "blocks",
           planes |-> TLCEval([c \in 1..P.siz.n |-> MapPlane(mixed[c], LAMBDA v : Clamp(v + Shift(P.siz.comps[c]), P.siz.comps[c]))])]

\* Does plane p agree with rows `full` of a component whose first sample is at (fx, fy)?
PlaneIn(p, full, fx, fy, w) ==
  \A y \in 1..Len(p.d) : \A x \in 1..Len(p.d[y]) :
     p.d[y][x] = full[(p.r.y0 + y - 1 - fy) * w + (p.r.x0 + x - 1 - fx) + 1]
=============================================================================
