------------------------------ MODULE Packets -------------------------------
(* ITU-T T.800 B.9-B.12: tag trees, packet headers, packets in progression   *)
(* order.                                                                    *)
(*                                                                           *)
(* A tile-component is described by                                          *)
(*   tc = [r, nl, xcb, ycb, mode, mb(_), res]  with                          *)
(*   res[r+1] = [rr, pp, np, bands], bands[b] = [o, r, mb]                   *)
EXTENDS Geometry, Ebcot

\* ---- tag trees: nodes[lev][k] = <<lower bound, exact?>>, lev 1 = leaves -----
RECURSIVE TreeDims(_, _)
TreeDims(w, h) == IF w * h <= 1 THEN <<<<w, h>>>>
                  ELSE <<<<w, h>>>> \o TreeDims((w + 1) \div 2, (h + 1) \div 2)
NewTree(w, h) == LET d == TreeDims(w, h)
                 IN [dims |-> d, nodes |-> [k \in 1..Len(d) |-> Rep(<<0, FALSE>>, d[k][1] * d[k][2])]]

\* ---- bits of packet headers: <<offset of next byte, current byte, bits left>> ----
HdrBit(s, rd) ==
  IF rd[3] > 0 THEN <<Bit(rd[2], rd[3] - 1), <<rd[1], rd[2], rd[3] - 1>>>>
  ELSE LET b == IF rd[1] < Len(s) THEN Byte(s, rd[1]) ELSE 0
           k == IF rd[2] = 255 THEN 7 ELSE 8
       IN <<Bit(b, k - 1), <<rd[1] + 1, b, k - 1>>>>
HdrEnd(rd) == IF rd[2] = 255 THEN rd[1] + 1 ELSE rd[1]      \* a final 0xFF is followed by a stuffed byte
RECURSIVE HdrBits(_, _, _)
HdrBits(s, rd, n) == IF n = 0 THEN <<0, rd>>
                     ELSE LET b == HdrBit(s, rd)
                              r == HdrBits(s, b[2], n - 1)
                          IN <<b[1] * 2^(n - 1) + r[1], r[2]>>

\* Read one node up to threshold thr: <<low, known, reader>>
RECURSIVE NodeRead(_, _, _, _, _)
NodeRead(s, rd, low, known, thr) ==
  IF known \/ low >= thr THEN <<low, known, rd>>
  ELSE LET b == HdrBit(s, rd)
       IN IF b[1] = 1 THEN <<low, TRUE, b[2]>> ELSE NodeRead(s, b[2], low + 1, FALSE, thr)

\* Leaf (x, y) up to threshold thr: <<low, known, tree', reader'>>
TagRead(s, rd, tree, x, y, thr) ==
  LET n == Len(tree.dims)
      Step(acc, j) ==        \* acc = <<low, known, nodes, reader>>, from the root down
        LET lev == n - j + 1
            k == (y \div 2^(lev - 1)) * tree.dims[lev][1] + x \div 2^(lev - 1) + 1
            nd == acc[3][lev][k]
            r == NodeRead(s, acc[4], Max2(acc[1], nd[1]), nd[2], thr)
        IN <<r[1], r[2], [acc[3] EXCEPT ![lev][k] = <<r[1], r[2]>>], r[3]>>
      f == FoldLeft(Step, <<0, FALSE, tree.nodes, rd>>, Upto(1, n))
  IN <<f[1], f[2], [tree EXCEPT !.nodes = f[3]], f[4]>>

RECURSIVE TagValue(_, _, _, _, _, _)
TagValue(s, rd, tree, x, y, thr) ==
  LET r == TagRead(s, rd, tree, x, y, thr)
  IN IF r[2] \/ thr > 60 THEN <<r[1], r[3], r[4]>> ELSE TagValue(s, r[4], r[3], x, y, thr + 1)

\* Number of new coding passes, Table B.4
NumPasses(s, rd) ==
  LET a == HdrBit(s, rd) IN
  IF a[1] = 0 THEN <<1, a[2]>>
  ELSE LET b == HdrBit(s, a[2]) IN
       IF b[1] = 0 THEN <<2, b[2]>>
       ELSE LET c == HdrBits(s, b[2], 2) IN
            IF c[1] < 3 THEN <<3 + c[1], c[2]>>
            ELSE LET d == HdrBits(s, c[2], 5) IN
                 IF d[1] < 31 THEN <<6 + d[1], d[2]>>
                 ELSE LET e == HdrBits(s, d[2], 7) IN <<37 + e[1], e[2]>>

RECURSIVE Ones(_, _)
Ones(s, rd) == LET b == HdrBit(s, rd)
               IN IF b[1] = 0 THEN <<0, b[2]>> ELSE LET r == Ones(s, b[2]) IN <<1 + r[1], r[2]>>

\* Lengths of the pieces that passes from..from+np-1 make: <<pieces, reader>>
RECURSIVE Pieces(_, _, _, _, _, _)
Pieces(s, rd, m, lb, from, np) ==
  IF np = 0 THEN <<<<>>, rd>>
  ELSE LET k == Min2(np, SegmentEnd(m, from) - from + 1)
           l == HdrBits(s, rd, lb + FloorLog2(k))
           r == Pieces(s, l[2], m, lb, from + k, np - k)
       IN <<<<[from |-> from, np |-> k, len |-> l[1]]>> \o r[1], r[2]>>

\* ---- state of a precinct ----------------------------------------------------
NewBlock == [np |-> 0, zbp |-> 0, lb |-> 3, segs |-> <<>>]
NewPrecinct(tc, r, k) ==
  LET rs == tc.res[r + 1]
  IN TLCEval([b \in 1..Len(rs.bands) |->
        LET pb == PrecBand(rs.rr, rs.pp, r, rs.bands[b].r, k)
            cb == CodeBlocks(pb, r, rs.pp, tc.xcb, tc.ycb)
        IN [cb |-> cb, incl |-> NewTree(cb.w, cb.h), zb |-> NewTree(cb.w, cb.h),
            blk |-> Rep(NewBlock, cb.w * cb.h)]])

\* Append piece pc with its bytes to a block's codeword segments
AddPiece(segs, m, pc, bytes) ==
  IF segs # <<>> /\ pc.from > 0 /\ SegmentEnd(m, pc.from - 1) >= pc.from
  THEN LET n == Len(segs) IN
       [segs EXCEPT ![n] = [np |-> segs[n].np + pc.np, data |-> segs[n].data \o bytes]]
  ELSE Append(segs, [np |-> pc.np, data |-> bytes])

\* Read the header of the layer-l packet of precinct state ps from s at offset o.
\* Result [ps, end, parts]; parts: sequence of [b, k, np, pieces]
ReadHeader(s, o, ps, l, m) ==
  LET first == HdrBit(s, <<o, 0, 0>>)
      Blk(b) == [k \in 1..Len(ps[b].blk) |-> <<b, k>>]
      all == FlatMap(Blk, Upto(1, Len(ps)))
      Step(acc, bk) ==            \* acc = <<reader, ps, parts>>
        LET b == bk[1]
            k == bk[2]
            bs == acc[2][b]
            bl == bs.blk[k]
            x == (k - 1) % bs.cb.w
            y == (k - 1) \div bs.cb.w
            old == bl.np > 0
            i1 == IF old THEN LET t == HdrBit(s, acc[1]) IN <<t[1] = 1, bs.incl, t[2]>>
                  ELSE LET t == TagRead(s, acc[1], bs.incl, x, y, l + 1) IN <<t[2] /\ t[1] <= l, t[3], t[4]>>
        IN IF ~i1[1] THEN <<i1[3], IF old THEN acc[2] ELSE [acc[2] EXCEPT ![b].incl = i1[2]], acc[3]>>
           ELSE LET z == IF old THEN <<bl.zbp, bs.zb, i1[3]>> ELSE TagValue(s, i1[3], bs.zb, x, y, 1)
                    np == NumPasses(s, z[3])
                    inc == Ones(s, np[2])
                    pcs == Pieces(s, inc[2], m, bl.lb + inc[1], bl.np, np[1])
                IN <<pcs[2],
                     [acc[2] EXCEPT ![b] = [bs EXCEPT !.incl = i1[2], !.zb = z[2],
                         !.blk[k] = [bl EXCEPT !.np = @ + np[1], !.zbp = z[1], !.lb = @ + inc[1]]]],
                     Append(acc[3], [b |-> b, k |-> k, np |-> np[1], pieces |-> pcs[1]])>>
      f == IF first[1] = 0 THEN <<first[2], ps, <<>>>> ELSE FoldLeft(Step, <<first[2], ps, <<>>>>, all)
  IN [ps |-> f[2], end |-> HdrEnd(f[1]), parts |-> f[3], empty |-> first[1] = 0]

BodyLen(parts) == SumSeq([j \in 1..Len(parts) |-> SumSeq([q \in 1..Len(parts[j].pieces) |-> parts[j].pieces[q].len])])

\* Deliver the body bytes at offset o of s to the blocks
ReadBody(s, o, ps, parts, m) ==
  LET flat == FlatMap(LAMBDA p : [q \in 1..Len(p.pieces) |-> <<p.b, p.k, p.pieces[q]>>], parts)
      Step(acc, e) ==
        <<[acc[1] EXCEPT ![e[1]].blk[e[2]].segs = AddPiece(@, m, e[3], Cut(s, acc[2], e[3].len))], acc[2] + e[3].len>>
  IN FoldLeft(Step, <<ps, o>>, flat)[1]

\* ---- progression ------------------------------------------------------------
\* Reference-grid position at which precinct k of resolution r (component c) comes up
Anchor(siz, t, c, tc, r, k) ==
  LET tr == TileRect(siz, t)
      rs == tc.res[r + 1]
      cell == PrecCell(rs.rr, rs.pp, k)
      x == cell[1] * 2^(rs.pp[1] + tc.nl - r) * siz.comps[c].dx
      y == cell[2] * 2^(rs.pp[2] + tc.nl - r) * siz.comps[c].dy
  IN <<IF y < tr.y0 THEN tr.y0 ELSE y, IF x < tr.x0 THEN tr.x0 ELSE x>>

\* A packet is <<layer, resolution, component, precinct>> (component from 1, others from 0).
\* vol = [r0, r1, c0, c1, l1, prog]: ranges r0 <= r < r1, c0 <= c < c1 (from 0), layers < l1
Precincts(siz, t, tcs, vol) ==
  FlatMap(LAMBDA c :
    FlatMap(LAMBDA r : [k \in 1..tcs[c].res[r + 1].np |-> <<r, c, k - 1, Anchor(siz, t, c, tcs[c], r, k - 1)>>],
            Upto(vol.r0, Min2(vol.r1, tcs[c].nl + 1) - 1)),
    Upto(vol.c0 + 1, Min2(vol.c1, Len(tcs))))

RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == IF k > Len(a) THEN FALSE
                    ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLess(a, b, k + 1)

PrecKey(e, prog) ==           \* e = <<r, c, k, <<y, x>>>>; layers are put in separately
  CASE prog = 0 -> <<e[1], e[2], e[3]>>                               \* LRCP
    [] prog = 1 -> <<e[1], e[2], e[3]>>                               \* RLCP (layers after resolution)
    [] prog = 2 -> <<e[1], e[4][1], e[4][2], e[2], e[3]>>             \* RPCL
    [] prog = 3 -> <<e[4][1], e[4][2], e[2], e[1], e[3]>>             \* PCRL
    [] OTHER    -> <<e[2], e[4][1], e[4][2], e[1], e[3]>>             \* CPRL

VolumeOrder(siz, t, tcs, vol) ==
  LET ps == SortSeq(Precincts(siz, t, tcs, vol), LAMBDA a, b : LexLess(PrecKey(a, vol.prog), PrecKey(b, vol.prog), 1))
      Pk(l, e) == <<l, e[1], e[2], e[3]>>
      Layers == Upto(0, vol.l1 - 1)
  IN IF vol.prog = 0 THEN FlatMap(LAMBDA l : [j \in 1..Len(ps) |-> Pk(l, ps[j])], Layers)
     ELSE IF vol.prog = 1
     THEN FlatMap(LAMBDA r : LET q == SelectSeq(ps, LAMBDA e : e[1] = r)
                             IN FlatMap(LAMBDA l : [j \in 1..Len(q) |-> Pk(l, q[j])], Layers),
                  Upto(vol.r0, vol.r1 - 1))
     ELSE FlatMap(LAMBDA e : [l \in 1..vol.l1 |-> Pk(l - 1, e)], ps)

\* All volumes one after the other, every packet at its first mention only
PacketOrder(siz, t, tcs, vols) ==
  IF Len(vols) = 1 THEN VolumeOrder(siz, t, tcs, vols[1])
  ELSE LET Add(acc, vol) ==
             LET new == SelectSeq(VolumeOrder(siz, t, tcs, vol), LAMBDA p : p \notin acc[2])
             IN <<acc[1] \o new, acc[2] \cup {new[j] : j \in 1..Len(new)}>>
       IN FoldLeft(Add, <<<<>>, {}>>, vols)[1]

AllPackets(tcs, layers) ==
  UNION {UNION {{<<l, r, c, k - 1>> : l \in 0..(layers - 1), k \in 1..tcs[c].res[r + 1].np}
                : r \in 0..tcs[c].nl} : c \in 1..Len(tcs)}
=============================================================================
