------------------------------ MODULE Arrange -------------------------------
(* Every standard arrangement of the same packets: given codestream s, emit  *)
(* the codestream that carries the same packets under arrangement a.         *)
(*   a = [prog, vols, where, sop, eph, pack, part, mix, tn, psot0, plt, tlm, *)
(*        layers, chunk, local, extra, shuffle]                              *)
EXTENDS Codestream

Seg(m, body) == W16(m) \o W16(Len(body) + 2) \o body
Copy(s, g) == Cut(s, g.o, g.len + 2)

NewCod(s, g, a) ==
  LET c == ReadCod(s, g.o)
      scod == (IF c.prc THEN 1 ELSE 0) + (IF a.sop THEN 2 ELSE 0) + (IF a.eph THEN 4 ELSE 0)
  IN W16(COD) \o W16(g.len) \o <<scod, a.prog>> \o W16(IF a.layers = 0 THEN c.layers ELSE Min2(a.layers, c.layers))
     \o <<c.mct>> \o Cut(s, g.o + 9, g.len - 7)

PocSeg(vols, siz) ==
  LET C(v) == IF CSize(siz) = 1 THEN <<v>> ELSE W16(v)
  IN Seg(POC, FlatMap(LAMBDA v : <<v.r0>> \o C(v.c0) \o W16(v.l1) \o <<v.r1>> \o C(v.c1) \o <<v.prog>>, vols))

\* Lengths in sevens, as PLT carries them
RECURSIVE Sevens(_, _)
Sevens(n, last) == IF n < 128 THEN <<n + (IF last THEN 0 ELSE 128)>>
                   ELSE Sevens(n \div 128, FALSE) \o <<(n % 128) + (IF last THEN 0 ELSE 128)>>

RECURSIVE Chunks(_, _)
Chunks(q, n) == IF Len(q) <= n THEN <<q>> ELSE <<SubSeq(q, 1, n)>> \o Chunks(SubSeq(q, n + 1, Len(q)), n)

\* Packed headers h as marker segment bodies of about n bytes (at most 250 of them), each ending with
\* a complete packet header
Packs(h, n) ==
  LET total == FoldLeft(LAMBDA m, q : m + Len(q), 0, h)
      most == Max2(n, total \div 30 + 1)
  IN FoldLeft(LAMBDA acc, q : IF acc = <<>> \/ Len(acc[Len(acc)]) + Len(q) > most THEN Append(acc, q)
                              ELSE [acc EXCEPT ![Len(acc)] = @ \o q], <<>>, h)

\* Packet identities in lexicographic order
Before4(x, y) == IF x[1] # y[1] THEN x[1] < y[1] ELSE IF x[2] # y[2] THEN x[2] < y[2]
                 ELSE IF x[3] # y[3] THEN x[3] < y[3] ELSE x[4] < y[4]
RECURSIVE Where(_, _, _, _)
Where(q, key, lo, hi) == LET m == (lo + hi) \div 2
                         IN IF q[m][1] = key THEN q[m][2]
                            ELSE IF Before4(q[m][1], key) THEN Where(q, key, m + 1, hi) ELSE Where(q, key, lo, m - 1)

\* The tile-parts of tile t under a: sequence of [t, tp, tn, head, packed, body]
PartsOf(s, P, t, a) ==
  LET ti == TileInfo(s, P.siz, P.main, P.parts, t)
      rt == ReadTileOf(s, P, t)
      data == TileData(s, P.parts, t)
      nl == IF a.layers = 0 THEN ti.cod.layers ELSE Min2(a.layers, ti.cod.layers)
      vols == IF a.vols = <<>> THEN <<[r0 |-> 0, r1 |-> 33, c0 |-> 0, c1 |-> P.siz.n, l1 |-> nl, prog |-> a.prog]>>
              ELSE [k \in 1..Len(a.vols) |-> [a.vols[k] EXCEPT !.l1 = Min2(@, nl)]]
      order == PacketOrder(P.siz, t, ti.tcs, vols)
      sorted == TLCEval(SortSeq([k \in 1..Len(rt.pk) |-> <<rt.pk[k].id, k>>], LAMBDA x, y : Before4(x[1], y[1])))
      pks == TLCEval([k \in 1..Len(order) |->
               LET p == rt.pk[Where(sorted, order[k], 1, Len(sorted))]
                   head == p.hdr \o (IF a.eph THEN <<255, 146>> ELSE <<>>)
                   sop == IF a.sop THEN <<255, 145, 0, 4>> \o W16((k - 1) % 65536) ELSE <<>>
                   body == Cut(data, p.body, p.end - p.body)
               IN [head |-> head, full |-> IF a.pack = "no" THEN sop \o head \o body ELSE sop \o body]])
      groups == IF a.part = 0 \/ Len(pks) = 0 THEN <<pks>> ELSE Chunks(pks, Max2(a.part, Len(pks) \div 60))
      n == Len(groups)
      \* where = "late": the second half of the volumes is announced in the second tile-part, if none of
      \* their packets comes before
      half == Len(a.vols) \div 2
      late == /\ a.where = "late" /\ half > 0 /\ n > 1
              /\ Len(PacketOrder(P.siz, t, ti.tcs, SubSeq(vols, 1, half))) >= Len(groups[1])
      Poc(j) == IF a.vols = <<>> \/ a.where = "main" \/ j > 2 THEN <<>>
                ELSE IF late THEN PocSeg(IF j = 1 THEN SubSeq(a.vols, 1, half) ELSE SubSeq(a.vols, half + 1, Len(a.vols)), P.siz)
                ELSE IF j = 1 THEN PocSeg(a.vols, P.siz) ELSE <<>>
      own == FlatMap(LAMBDA g : IF g.m \in {POC, PLT, PPT, COD} THEN <<>> ELSE Copy(s, g), ti.segs)
      Heads(j) == FlatMap(LAMBDA p : p.head, groups[j])
      \* Zppt counts through the whole tile
      packs == IF a.pack # "ppt" THEN <<>>
               ELSE TLCEval([j \in 1..n |-> Packs([k \in 1..Len(groups[j]) |-> groups[j][k].head], a.chunk)])
      Before(j) == FoldLeft(LAMBDA m, k : m + Len(packs[k]), 0, Upto(1, j - 1))
      Ppt(j) == IF a.pack # "ppt" THEN <<>>
                ELSE FlatMap(LAMBDA k : Seg(PPT, <<Before(j) + k - 1>> \o packs[j][k]), Upto(1, Len(packs[j])))
      Plt(j) == IF ~a.plt \/ groups[j] = <<>> THEN <<>>
                ELSE Seg(PLT, <<0>> \o FlatMap(LAMBDA p : Sevens(Len(p.full), TRUE), groups[j]))
  IN TLCEval([j \in 1..n |->
        [t |-> t, tp |-> j - 1,
         tn |-> IF a.tn = "exact" THEN n ELSE IF a.tn = "last" /\ j = n THEN n ELSE 0,
         head |-> (IF j = 1 THEN own \o (IF a.local THEN NewCod(s, Of(P.main, COD)[1], a) ELSE <<>>)
                   ELSE <<>>) \o Poc(j) \o (IF j % 2 = 1 THEN a.extra ELSE <<>>) \o Plt(j) \o Ppt(j),
         packed |-> IF a.pack # "ppm" THEN <<>> ELSE IF groups[j] = <<>> THEN <<W32(0)>>
                    ELSE [k \in 1..Len(groups[j]) |-> (IF k = 1 THEN W32(Len(Heads(j))) ELSE <<>>) \o groups[j][k].head],
         body |-> FlatMap(LAMBDA p : p.full, groups[j])]])

\* Main header segments other than SIZ, in an order chosen by a.shuffle
Rotated(q, n) == IF Len(q) = 0 THEN q
                 ELSE LET k == n % Len(q)
                          r == SubSeq(q, k + 1, Len(q)) \o SubSeq(q, 1, k)
                      IN IF n % 3 = 2 THEN Reverse(r) ELSE r

Arranged(s, a) ==
  LET P == Parse(s)
      nt == NumTiles(P.siz)
      all == TLCEval([t \in 1..nt |-> PartsOf(s, P, t - 1, a)])
      most == FoldLeft(LAMBDA m, q : Max2(m, Len(q)), 0, all)
      seq == IF a.mix
             THEN FlatMap(LAMBDA j : FlatMap(LAMBDA t : IF j <= Len(all[t]) THEN <<all[t][j]>> ELSE <<>>,
                                             IF j % 2 = 1 THEN Upto(1, nt) ELSE Reverse(Upto(1, nt))), Upto(1, most))
             ELSE FlatMap(LAMBDA t : all[t], Upto(1, nt))
      size == TLCEval([k \in 1..Len(seq) |-> 14 + Len(seq[k].head) + Len(seq[k].body)])
      tlm == Seg(TLM, <<0, 96>> \o FlatMap(LAMBDA k : W16(seq[k].t) \o W32(size[k]), Upto(1, Len(seq))))
      ppm == LET c == Packs(FlatMap(LAMBDA p : p.packed, seq), a.chunk)
             IN [k \in 1..Len(c) |-> Seg(PPM, <<k - 1>> \o c[k])]
      kept == SelectSeq(P.main, LAMBDA g : g.m \notin {SIZ, POC, TLM, PLM, PPM})
      units == [k \in 1..Len(kept) |-> IF kept[k].m = COD /\ ~a.local THEN NewCod(s, kept[k], a) ELSE Copy(s, kept[k])]
      mains == Rotated(units
                       \o (IF a.vols # <<>> /\ a.where = "main" THEN <<PocSeg(a.vols, P.siz)>>
                           \* where = "both": the tile headers override this one
                           ELSE IF a.vols # <<>> /\ a.where = "both" THEN <<PocSeg(Reverse(a.vols), P.siz)>> ELSE <<>>)
                       \o (IF a.tlm THEN <<tlm>> ELSE <<>>)
                       \o (IF a.pack = "ppm" THEN ppm ELSE <<>>)
                       \o (IF a.extra # <<>> THEN <<a.extra>> ELSE <<>>), a.shuffle)
  IN W16(SOC) \o FlatMap(LAMBDA g : Copy(s, g), Of(P.main, SIZ)) \o FlatMap(LAMBDA x : x, mains)
     \o FlatMap(LAMBDA k : W16(SOT) \o W16(10) \o W16(seq[k].t)
                           \o W32(IF a.psot0 /\ k = Len(seq) THEN 0 ELSE size[k]) \o <<seq[k].tp, seq[k].tn>>
                           \o seq[k].head \o W16(SOD) \o seq[k].body, Upto(1, Len(seq)))
     \o W16(EOC)
=============================================================================
