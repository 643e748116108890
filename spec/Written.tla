------------------------------ MODULE Written -------------------------------
(* What a written codestream must look like, given what was asked for.       *)
(* want: [im, comps, tile, nl, xcb, ycb, prog, csty, mode, mct, layers,      *)
(*        prec, roic, rois, poc, tp, plt, tlm, comment]                      *)
(* Faults(s, want) is the set of rules that codestream s violates.           *)
EXTENDS Codestream, FiniteSets

Rule(name, ok) == IF ok THEN {} ELSE {name}

InMain == {SIZ, CAP, COD, COC, TLM, PLM, CPF, QCD, QCC, RGN, POC, PPM, CRG, COM, MCT, MCC, MCO, CBD}
InFirst == {COD, COC, QCD, QCC, RGN, POC, PPT, PLT, COM}      \* first tile-part of a tile
InOther == {POC, PPT, PLT, COM}

\* Length that the content of a marker segment requires
TrueLength(s, g, siz, nl) ==
  LET w == CSize(siz)
      prc(o) == IF Byte(s, o) % 2 = 1 THEN Byte(s, o + 1) + 1 ELSE 0
  IN CASE g.m = SIZ -> 38 + 3 * siz.n
       [] g.m = COD -> 12 + (IF Byte(s, g.o + 4) % 2 = 1 THEN Byte(s, g.o + 9) + 1 ELSE 0)
       [] g.m = COC -> 8 + w + (IF Byte(s, g.o + 4 + w) % 2 = 1 THEN Byte(s, g.o + 5 + w) + 1 ELSE 0)
       [] g.m = QCD -> LET st == Byte(s, g.o + 4) % 32
                       IN IF st = 0 THEN 4 + 3 * nl ELSE IF st = 1 THEN 5 ELSE 5 + 6 * nl
       [] g.m = QCC -> LET st == Byte(s, g.o + 4 + w) % 32
                       IN IF st = 0 THEN 4 + w + 3 * nl ELSE IF st = 1 THEN 5 + w ELSE 5 + w + 6 * nl
       [] g.m = RGN -> 4 + w
       [] g.m = POC -> 2 + ((g.len - 2) \div (5 + 2 * w)) * (5 + 2 * w)
       [] OTHER -> g.len

\* Precinct exponent asked for at resolution r of nl + 1
AskedPP(want, r, k) ==
  LET p == want.nl - r + 1
      q == want.prec
      lo == IF r > 0 THEN 1 ELSE 0
  IN IF want.csty % 2 = 0 THEN 15
     ELSE IF p <= Len(q) THEN Max2(lo, FloorLog2(q[p][k]))
     ELSE Max2(lo, LET z == q[Len(q)][k] \div 2^(p - Len(q)) IN IF z < 1 THEN 1 ELSE FloorLog2(z))

HeaderFaults(s, P, want) ==
  LET siz == P.siz
      cods == Of(P.main, COD)
      cod == ReadCod(s, cods[1].o)
      im == want.im
      segsOf(m) == Of(P.main, m)
  IN Rule("SIZ canvas", siz.X = im.x1 /\ siz.Y = im.y1 /\ siz.XO = im.x0 /\ siz.YO = im.y0)
     \cup Rule("SIZ components", siz.comps = want.comps)
     \cup Rule("SIZ tiles", IF want.tile = <<>> THEN TileRect(siz, 0) = im /\ NumTiles(siz) = 1
                            ELSE <<siz.XTO, siz.YTO, siz.XT, siz.YT>> = want.tile)
     \cup Rule("SIZ legal", siz.XTO <= siz.XO /\ siz.YTO <= siz.YO /\ siz.XTO + siz.XT > siz.XO /\ siz.YTO + siz.YT > siz.YO)
     \cup Rule("COD and QCD once", Len(cods) = 1 /\ Len(segsOf(QCD)) = 1 /\ Len(segsOf(SIZ)) = 1)
     \cup Rule("main header markers", \A k \in 1..Len(P.main) : P.main[k].m \in InMain)
     \cup Rule("progression", cod.prog = want.prog)
     \cup Rule("layers", cod.layers = want.layers)
     \cup Rule("component transform", cod.mct = want.mct)
     \cup Rule("SOP/EPH", cod.sop = (Bit(want.csty, 1) = 1) /\ cod.eph = (Bit(want.csty, 2) = 1) /\ cod.scod = want.csty)
     \cup UNION {LET sp == CodingStyle(s, P.main, <<>>, siz, c)
                 IN Rule("coding style", sp.nl = want.nl /\ sp.xcb = want.xcb /\ sp.ycb = want.ycb
                                         /\ sp.mode = want.mode /\ sp.wt = 1)
                    \cup Rule("precincts", \A r \in 0..want.nl : sp.pp[r + 1] = <<AskedPP(want, r, 1), AskedPP(want, r, 2)>>)
                    \cup Rule("quantisation style", Quant(s, P.main, <<>>, siz, c).style = 0)
                    \cup Rule("region of interest", Roi(s, P.main, <<>>, siz, c) =
                                                    IF want.roic = c - 1 THEN want.rois ELSE 0)
                 : c \in 1..siz.n}
     \cup Rule("segment lengths", \A k \in 1..Len(P.main) : P.main[k].len = TrueLength(s, P.main[k], siz, want.nl))
     \cup Rule("one COC, QCC, RGN a component",
               \A m \in {COC, QCC, RGN} : \A a, b \in {segsOf(m)[k] : k \in 1..Len(segsOf(m))} :
                  a # b => CIndex(s, a.o + 4, siz) # CIndex(s, b.o + 4, siz))
     \cup Rule("comment", want.comment # <<>> =>
               \E k \in 1..Len(P.main) : P.main[k].m = COM /\ U16(s, P.main[k].o + 4) = 1
                                         /\ Cut(s, P.main[k].o + 6, P.main[k].len - 4) = want.comment)

\* TLM: <<tile, length>> entries in order of the segments
TlmEntries(s, g) ==
  LET st == (Byte(s, g.o + 5) \div 16) % 4
      sp == IF Bit(Byte(s, g.o + 5), 6) = 1 THEN 4 ELSE 2
      n == (g.len - 4) \div (st + sp)
  IN [k \in 1..n |-> LET o == g.o + 6 + (k - 1) * (st + sp)
                     IN <<IF st = 0 THEN k - 1 ELSE IF st = 1 THEN Byte(s, o) ELSE U16(s, o),
                          IF sp = 4 THEN U32(s, o + st) ELSE U16(s, o + st)>>]
TlmLegal(s, g) ==
  LET st == (Byte(s, g.o + 5) \div 16) % 4
      sp == IF Bit(Byte(s, g.o + 5), 6) = 1 THEN 4 ELSE 2
  IN st # 3 /\ (g.len - 4) % (st + sp) = 0

\* PLT: packet lengths, seven bits a byte
PltLengths(s, gs) ==
  LET bytes == Joined(s, gs)
      Step(acc, b) == IF b >= 128 THEN <<acc[1], acc[2] * 128 + (b - 128)>>
                      ELSE <<Append(acc[1], acc[2] * 128 + b), 0>>
  IN FoldLeft(Step, <<<<>>, 0>>, bytes)[1]

PartFaults(s, P, want) ==
  LET n == Len(P.parts)
      Mine(t) == SelectSeq(Upto(1, n), LAMBDA k : P.parts[k].tile = t)
      tlms == Of(P.main, TLM)
  IN Rule("end of codestream", P.end + 2 = Len(s))
     \cup Rule("tile indices", \A k \in 1..n : P.parts[k].tile < NumTiles(P.siz))
     \cup Rule("every tile", \A t \in 0..(NumTiles(P.siz) - 1) : Mine(t) # <<>>)
     \cup Rule("tile-part indices", \A t \in 0..(NumTiles(P.siz) - 1) :
                  \A j \in 1..Len(Mine(t)) : P.parts[Mine(t)[j]].tp = j - 1)
     \cup Rule("tile-part counts", \A t \in 0..(NumTiles(P.siz) - 1) :
                  \A j \in 1..Len(Mine(t)) : P.parts[Mine(t)[j]].tn \in {0, Len(Mine(t))}
                  /\ \E k \in 1..Len(Mine(t)) : P.parts[Mine(t)[k]].tn # 0)
     \cup Rule("tile-part lengths", \A k \in 1..n : P.parts[k].psot = P.parts[k].end - P.parts[k].o)
     \cup Rule("tile-part header markers", \A k \in 1..n : \A j \in 1..Len(P.parts[k].segs) :
                  P.parts[k].segs[j].m \in (IF P.parts[k].tp = 0 THEN InFirst ELSE InOther))
     \cup Rule("tile-part segment lengths", \A k \in 1..n : \A j \in 1..Len(P.parts[k].segs) :
                  P.parts[k].segs[j].len = TrueLength(s, P.parts[k].segs[j], P.siz, want.nl))
     \cup Rule("TLM", IF want.tlm
               THEN /\ Len(tlms) = 1 /\ TlmLegal(s, tlms[1])
                    /\ TlmEntries(s, tlms[1]) = [k \in 1..n |-> <<P.parts[k].tile, P.parts[k].psot>>]
               ELSE tlms = <<>>)

\* The volumes asked for in tile t
AskedVols(want, t, nc) ==
  LET mine == SelectSeq(want.poc, LAMBDA q : q[1] = t + 1)
  IN IF mine = <<>> THEN <<[r0 |-> 0, r1 |-> want.nl + 1, c0 |-> 0, c1 |-> nc, l1 |-> want.layers, prog |-> want.prog]>>
     ELSE [k \in 1..Len(mine) |-> [r0 |-> mine[k][2], r1 |-> Min2(mine[k][5], want.nl + 1), c0 |-> mine[k][3],
                                   c1 |-> Min2(mine[k][6], nc), l1 |-> Min2(mine[k][4], want.layers), prog |-> mine[k][7]]]

TileFaults(s, P, want, t) ==
  LET ti == TileInfo(s, P.siz, P.main, P.parts, t)
      rt == ReadTileOf(s, P, t)
      data == TileData(s, P.parts, t)
      mine == SelectSeq(P.parts, LAMBDA p : p.tile = t)
      \* offsets of the tile-parts in the joined tile data
      start == TLCEval([j \in 1..(Len(mine) + 1) |-> SumSeq([q \in 1..(j - 1) |-> mine[q].end - mine[q].body])])
      PkIn(j) == SelectSeq(rt.pk, LAMBDA p : p.o >= start[j] /\ p.o < start[j + 1])
      Coord(p) == IF want.tp = "L" THEN p.id[1] ELSE IF want.tp = "R" THEN p.id[2] ELSE p.id[3]
      vols == AskedVols(want, t, P.siz.n)
      Norm(v) == [v EXCEPT !.r1 = Min2(@, want.nl + 1), !.c1 = Min2(@, P.siz.n), !.l1 = Min2(@, want.layers)]
  IN IF ~rt.ok THEN {"packets"}
     ELSE Rule("tile data used up", rt.pos = Len(data))
          \cup Rule("packets exactly once", {rt.pk[k].id : k \in 1..Len(rt.pk)} = AllPackets(ti.tcs, want.layers)
                                            /\ Cardinality(AllPackets(ti.tcs, want.layers)) = Len(rt.pk))
          \cup Rule("SOP markers", \A k \in 1..Len(rt.pk) : rt.pk[k].sop = ti.cod.sop)
          \cup Rule("progressions", LET got == [k \in 1..Len(ti.vols) |-> Norm(ti.vols[k])] IN got = vols)
          \cup Rule("packets within a tile-part", \A k \in 1..Len(rt.pk) : \A j \in 2..Len(mine) :
                       ~(rt.pk[k].o < start[j] /\ rt.pk[k].end > start[j]))
          \cup Rule("tile-part division",
                    IF want.tp = "" THEN Len(mine) = Len(vols)
                    ELSE \A j \in 1..Len(mine) : LET q == PkIn(j) IN \A k \in 2..Len(q) : Coord(q[k]) = Coord(q[1]))
          \cup Rule("PLT", \A j \in 1..Len(mine) :
                       IF want.plt
                       THEN LET q == PkIn(j) IN PltLengths(s, Of(mine[j].segs, PLT)) = [k \in 1..Len(q) |-> q[k].end - q[k].o]
                       ELSE Of(mine[j].segs, PLT) = <<>>)
=============================================================================
