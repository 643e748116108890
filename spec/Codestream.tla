----------------------------- MODULE Codestream -----------------------------
(* ITU-T T.800 Annex A: marker segments, tile-parts, coding parameters.      *)
EXTENDS Packets

SOC == 65359   \* FF4F
CAP == 65360
SIZ == 65361
COD == 65362
COC == 65363
TLM == 65365
PLM == 65367
PLT == 65368
CPF == 65369
QCD == 65372
QCC == 65373
RGN == 65374
POC == 65375
PPM == 65376
PPT == 65377
CRG == 65379
COM == 65380
MCT == 65396
MCC == 65397
MCO == 65399
CBD == 65400
SOT == 65424
SOP == 65425
EPH == 65426
SOD == 65427
EOC == 65497

\* Marker segments from offset o up to (not including) the marker `stop`.
\* Result [ok, segs, end]; a segment is [m, o, len], o at the marker, len = Lxxx
RECURSIVE Segments(_, _, _)
Segments(s, o, stop) ==
  IF o + 2 > Len(s) THEN [ok |-> FALSE, segs |-> <<>>, end |-> o]
  ELSE IF U16(s, o) = stop THEN [ok |-> TRUE, segs |-> <<>>, end |-> o]
  ELSE IF o + 4 > Len(s) \/ U16(s, o) < 65280 THEN [ok |-> FALSE, segs |-> <<>>, end |-> o]
  ELSE LET len == U16(s, o + 2)
       IN IF len < 2 \/ o + 2 + len > Len(s) THEN [ok |-> FALSE, segs |-> <<>>, end |-> o]
          ELSE LET r == Segments(s, o + 2 + len, stop)
               IN [r EXCEPT !.segs = <<[m |-> U16(s, o), o |-> o, len |-> len]>> \o @]

\* Tile-parts from offset o: [ok, parts, end]; end is the offset of EOC
RECURSIVE TileParts(_, _)
TileParts(s, o) ==
  IF o + 2 > Len(s) THEN [ok |-> FALSE, parts |-> <<>>, end |-> o]
  ELSE IF U16(s, o) = EOC THEN [ok |-> TRUE, parts |-> <<>>, end |-> o]
  ELSE IF U16(s, o) # SOT \/ o + 12 > Len(s) THEN [ok |-> FALSE, parts |-> <<>>, end |-> o]
  ELSE LET psot == U32(s, o + 6)
           next == IF psot = 0 THEN Len(s) - 2 ELSE o + psot
           h == Segments(s, o + 12, SOD)
       IN IF U16(s, o + 2) # 10 \/ next > Len(s) \/ ~h.ok \/ h.end + 2 > next
          THEN [ok |-> FALSE, parts |-> <<>>, end |-> o]
          ELSE LET r == TileParts(s, next)
               IN [r EXCEPT !.parts = <<[tile |-> U16(s, o + 4), psot |-> psot, tp |-> Byte(s, o + 10),
                                         tn |-> Byte(s, o + 11), o |-> o, segs |-> h.segs,
                                         body |-> h.end + 2, end |-> next]>> \o @]

ReadSiz(s, o) ==
  [rsiz |-> U16(s, o + 4), X |-> U32(s, o + 6), Y |-> U32(s, o + 10), XO |-> U32(s, o + 14), YO |-> U32(s, o + 18),
   XT |-> U32(s, o + 22), YT |-> U32(s, o + 26), XTO |-> U32(s, o + 30), YTO |-> U32(s, o + 34), n |-> U16(s, o + 38),
   comps |-> [c \in 1..U16(s, o + 38) |->
               [prec |-> (Byte(s, o + 37 + 3 * c) % 128) + 1, sgnd |-> Byte(s, o + 37 + 3 * c) \div 128,
                dx |-> Byte(s, o + 38 + 3 * c), dy |-> Byte(s, o + 39 + 3 * c)]]]

\* SPcod/SPcoc at offset o with user-defined precincts iff prc
ReadSp(s, o, prc) ==
  [nl |-> Byte(s, o), xcb |-> Byte(s, o + 1) + 2, ycb |-> Byte(s, o + 2) + 2, mode |-> Byte(s, o + 3),
   wt |-> Byte(s, o + 4), prc |-> prc,
   pp |-> [r \in 1..(Byte(s, o) + 1) |-> IF prc THEN <<Byte(s, o + 4 + r) % 16, Byte(s, o + 4 + r) \div 16>> ELSE <<15, 15>>]]

ReadCod(s, o) ==
  [prc |-> Bit(Byte(s, o + 4), 0) = 1, sop |-> Bit(Byte(s, o + 4), 1) = 1, eph |-> Bit(Byte(s, o + 4), 2) = 1,
   scod |-> Byte(s, o + 4), prog |-> Byte(s, o + 5), layers |-> U16(s, o + 6), mct |-> Byte(s, o + 8),
   sp |-> ReadSp(s, o + 9, Bit(Byte(s, o + 4), 0) = 1)]

\* Quantisation values at offset o, n bytes: [style, guard, eps, raw]
ReadQ(s, o, n) ==
  LET st == Byte(s, o) % 32
  IN [style |-> st, guard |-> Byte(s, o) \div 32,
      eps |-> IF st = 0 THEN [k \in 1..(n - 1) |-> Byte(s, o + k) \div 8]
              ELSE [k \in 1..((n - 1) \div 2) |-> Byte(s, o + 2 * k - 1) \div 8]]

Of(segs, m) == SelectSeq(segs, LAMBDA g : g.m = m)
CSize(siz) == IF siz.n < 257 THEN 1 ELSE 2
CIndex(s, o, siz) == IF siz.n < 257 THEN Byte(s, o) ELSE U16(s, o)

ReadPoc(s, g, siz) ==
  LET w == CSize(siz)
      e == 5 + 2 * w
      n == (g.len - 2) \div e
  IN [k \in 1..n |->
        LET o == g.o + 4 + (k - 1) * e
        IN [r0 |-> Byte(s, o), c0 |-> CIndex(s, o + 1, siz), l1 |-> U16(s, o + 1 + w), r1 |-> Byte(s, o + 3 + w),
            c1 |-> LET v == CIndex(s, o + 4 + w, siz) IN IF v = 0 /\ w = 1 THEN 256 ELSE v,
            prog |-> Byte(s, o + 4 + 2 * w)]]

\* Coding style of component c (from 1): tile COC, tile COD, main COC, main COD
LastOr(q, d) == IF q = <<>> THEN d ELSE q[Len(q)]
CocFor(s, segs, siz, c) == SelectSeq(Of(segs, COC), LAMBDA g : CIndex(s, g.o + 4, siz) = c - 1)
SpFrom(s, g, siz) == LET w == CSize(siz) IN ReadSp(s, g.o + 5 + w, Byte(s, g.o + 4 + w) % 2 = 1)
CodingStyle(s, main, tile, siz, c) ==
  LET tc == CocFor(s, tile, siz, c)
      td == Of(tile, COD)
      mc == CocFor(s, main, siz, c)
      md == Of(main, COD)
  IN IF tc # <<>> THEN SpFrom(s, tc[Len(tc)], siz)
     ELSE IF td # <<>> THEN ReadCod(s, td[Len(td)].o).sp
     ELSE IF mc # <<>> THEN SpFrom(s, mc[Len(mc)], siz)
     ELSE ReadCod(s, md[Len(md)].o).sp

QccFor(s, segs, siz, c) == SelectSeq(Of(segs, QCC), LAMBDA g : CIndex(s, g.o + 4, siz) = c - 1)
QuantOf(s, g) == ReadQ(s, g.o + 4, g.len - 2)
QuantOfC(s, g, siz) == ReadQ(s, g.o + 4 + CSize(siz), g.len - 2 - CSize(siz))
Quant(s, main, tile, siz, c) ==
  LET tc == QccFor(s, tile, siz, c)
      td == Of(tile, QCD)
      mc == QccFor(s, main, siz, c)
      md == Of(main, QCD)
  IN IF tc # <<>> THEN QuantOfC(s, tc[Len(tc)], siz)
     ELSE IF td # <<>> THEN QuantOf(s, td[Len(td)])
     ELSE IF mc # <<>> THEN QuantOfC(s, mc[Len(mc)], siz)
     ELSE QuantOf(s, md[Len(md)])

RoiFor(s, segs, siz, c) == SelectSeq(Of(segs, RGN), LAMBDA g : CIndex(s, g.o + 4, siz) = c - 1)
Roi(s, main, tile, siz, c) ==
  LET t == RoiFor(s, tile, siz, c)
      m == RoiFor(s, main, siz, c)
      g == IF t # <<>> THEN t ELSE m
  IN IF g = <<>> THEN 0 ELSE Byte(s, g[Len(g)].o + 5 + CSize(siz))

CodFor(s, main, tile) == LET td == Of(tile, COD) md == Of(main, COD)
                         IN ReadCod(s, IF td # <<>> THEN td[Len(td)].o ELSE md[Len(md)].o)

\* Exponent of band b (1-based) of resolution r under quantisation q
EpsOf(q, nl, r, b) ==
  IF q.style = 1 THEN Max2(0, q.eps[1] - (IF r = 0 THEN 0 ELSE r - 1))
  ELSE q.eps[IF r = 0 THEN 1 ELSE 3 * (r - 1) + 1 + b]

\* A tile's parts: [t, segs (all tile-part header segments), cod, vols, tcs]
TileInfo(s, siz, main, parts, t) ==
  LET mine == SelectSeq(parts, LAMBDA p : p.tile = t)
      segs == FlatMap(LAMBDA p : p.segs, mine)
      cod == CodFor(s, main, segs)
      poct == Of(segs, POC)
      pocm == Of(main, POC)
      pocs == FlatMap(LAMBDA g : ReadPoc(s, g, siz), IF poct # <<>> THEN poct ELSE pocm)
      vols == IF pocs = <<>> THEN <<[r0 |-> 0, r1 |-> 33, c0 |-> 0, c1 |-> siz.n, l1 |-> cod.layers, prog |-> cod.prog]>>
              ELSE [k \in 1..Len(pocs) |-> [pocs[k] EXCEPT !.l1 = Min2(@, cod.layers)]]
  IN [t |-> t, segs |-> segs, cod |-> cod, vols |-> vols,
      tcs |-> TLCEval([c \in 1..siz.n |->
        LET sp == CodingStyle(s, main, segs, siz, c)
            q == Quant(s, main, segs, siz, c)
            roi == Roi(s, main, segs, siz, c)
            tc == TileComp(siz, t, c)
        IN [r |-> tc, nl |-> sp.nl, xcb |-> sp.xcb, ycb |-> sp.ycb, mode |-> sp.mode, wt |-> sp.wt, roi |-> roi,
            res |-> [k \in 1..(sp.nl + 1) |->
              LET r == k - 1
                  rr == ResRect(tc, sp.nl, r)
                  os == Orients(r)
              IN [rr |-> rr, pp |-> sp.pp[k], np |-> NumPrec(rr, sp.pp[k]),
                  bands |-> [b \in 1..Len(os) |->
                    [o |-> os[b], r |-> BandRect(tc, sp.nl, r, os[b]),
                     mb |-> q.guard + EpsOf(q, sp.nl, r, b) - 1]]]]]])]

\* Packed packet headers, main (PPM) and tile (PPT)
SortByFirst(s, gs) == SortSeq(gs, LAMBDA a, b : Byte(s, a.o + 4) < Byte(s, b.o + 4))
Joined(s, gs) == FlatMap(LAMBDA g : Cut(s, g.o + 5, g.len - 3), SortByFirst(s, gs))
RECURSIVE SplitPpm(_, _)
SplitPpm(d, o) == IF o + 4 > Len(d) THEN <<>> ELSE <<Cut(d, o + 4, U32(d, o))>> \o SplitPpm(d, o + 4 + U32(d, o))

\* All packets of a tile.  Result [ok, prec, pk, pos]:
\*   prec[c][r+1][k+1]  final precinct states
\*   pk   sequence of [id, o, body, end, hdr, parts, empty]  (offsets into the joined tile data)
ReadTile(s, ti, siz, data, packed, hdrs) ==
  LET order == PacketOrder(siz, ti.t, ti.tcs, ti.vols)
      init == TLCEval([c \in 1..Len(ti.tcs) |-> [r \in 1..(ti.tcs[c].nl + 1) |->
                 [k \in 1..ti.tcs[c].res[r].np |-> NewPrecinct(ti.tcs[c], r - 1, k - 1)]]])
      src == IF packed THEN hdrs ELSE data
      Step(acc, id) ==          \* acc = [ok, prec, pk, pos, hpos]
        IF ~acc.ok THEN acc
        ELSE LET m == ti.tcs[id[3]].mode
                 sop == ti.cod.sop /\ acc.pos + 6 <= Len(data) /\ U16(data, acc.pos) = SOP
                 p0 == IF sop THEN acc.pos + 6 ELSE acc.pos
                 h0 == IF packed THEN acc.hpos ELSE p0
                 hd == ReadHeader(src, h0, acc.prec[id[3]][id[2] + 1][id[4] + 1], id[1], m)
                 e1 == IF ti.cod.eph /\ hd.end + 2 <= Len(src) /\ U16(src, hd.end) = EPH THEN hd.end + 2 ELSE hd.end
                 b0 == IF packed THEN p0 ELSE e1
                 n == BodyLen(hd.parts)
                 good == e1 <= Len(src) /\ b0 + n <= Len(data)
                         /\ (ti.cod.eph => e1 = hd.end + 2)
                         /\ (sop => U16(data, acc.pos + 2) = 4 /\ U16(data, acc.pos + 4) = Len(acc.pk) % 65536)
             IN IF ~good THEN [acc EXCEPT !.ok = FALSE]
                ELSE [ok |-> TRUE,
                      prec |-> [acc.prec EXCEPT ![id[3]][id[2] + 1][id[4] + 1] = ReadBody(data, b0, hd.ps, hd.parts, m)],
                      pk |-> Append(acc.pk, [id |-> id, o |-> acc.pos, hdr |-> Cut(src, h0, hd.end - h0), body |-> b0,
                                             end |-> b0 + n, empty |-> hd.empty, sop |-> sop]),
                      pos |-> b0 + n, hpos |-> IF packed THEN e1 ELSE b0 + n]
  IN FoldLeft(Step, [ok |-> TRUE, prec |-> init, pk |-> <<>>, pos |-> 0, hpos |-> 0], order)

TileData(s, parts, t) == FlatMap(LAMBDA p : Cut(s, p.body, p.end - p.body), SelectSeq(parts, LAMBDA p : p.tile = t))
TileHeaders(s, main, parts, t) ==     \* packed headers of tile t, from PPM or PPT
  IF Of(main, PPM) # <<>>
  THEN LET all == SplitPpm(Joined(s, Of(main, PPM)), 0)
       IN FlatMap(LAMBDA k : IF parts[k].tile = t THEN all[k] ELSE <<>>, Upto(1, Len(parts)))
  ELSE FlatMap(LAMBDA p : Joined(s, Of(p.segs, PPT)), SelectSeq(parts, LAMBDA p : p.tile = t))
Packed(main, parts, t) ==
  Of(main, PPM) # <<>> \/ \E k \in 1..Len(parts) : parts[k].tile = t /\ Of(parts[k].segs, PPT) # <<>>

\* The whole codestream: [ok, siz, main, parts, end]
Parse(s) ==
  IF Len(s) < 4 \/ U16(s, 0) # SOC \/ U16(s, 2) # SIZ THEN [ok |-> FALSE, why |-> "no SOC/SIZ"]
  ELSE LET m == Segments(s, 2, SOT)
       IN IF ~m.ok THEN [ok |-> FALSE, why |-> "main header"]
          ELSE LET p == TileParts(s, m.end)
               IN IF ~p.ok THEN [ok |-> FALSE, why |-> "tile-parts", at |-> p.end]
                  ELSE [ok |-> TRUE, siz |-> ReadSiz(s, 2), main |-> m.segs, mend |-> m.end, parts |-> p.parts, end |-> p.end]

ReadTileOf(s, P, t) ==
  ReadTile(s, TileInfo(s, P.siz, P.main, P.parts, t), P.siz, TileData(s, P.parts, t), Packed(P.main, P.parts, t),
           TileHeaders(s, P.main, P.parts, t))
=============================================================================
