-------------------------------- MODULE Info --------------------------------
(* What the decoder reports about a codestream: header information           *)
(* (opj_get_cstr_info), the image after the header, and the index of markers *)
(* and tile-parts (opj_get_cstr_index).  A row is                            *)
(*   [cs, off, looks]  codestream, its offset in the file, and observations  *)
(*   [kind, v, stage, reduce]: kind "info", "index" or "image", value v,     *)
(* stage "hdr" (header read), "part" (something decoded), "all" (every       *)
(* tile-part read), "broken" (a decode failed: nothing need be reported).    *)
EXTENDS Codestream, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)

\* --- header information: what the main header signals
TrueTccp(s, P, c) ==
  LET sp == CodingStyle(s, P.main, <<>>, P.siz, c)
      g == QccFor(s, P.main, P.siz, c)
      q == IF g # <<>> THEN g[Len(g)] ELSE LET d == Of(P.main, QCD) IN d[Len(d)]
      o == q.o + 4 + (IF g # <<>> THEN CSize(P.siz) ELSE 0)
      style == Byte(s, o) % 32
      nb == IF style = 1 THEN 1 ELSE 3 * sp.nl + 1
  IN [compno |-> c - 1, csty |-> IF sp.prc THEN 1 ELSE 0, nres |-> sp.nl + 1, cblkw |-> sp.xcb, cblkh |-> sp.ycb,
      cblksty |-> sp.mode, qmfbid |-> sp.wt, qntsty |-> style, gbits |-> Byte(s, o) \div 32,
      mant |-> [b \in 1..nb |-> IF style = 0 THEN 0 ELSE U16(s, o + 2 * b - 1) % 2048],
      expn |-> [b \in 1..nb |-> IF style = 0 THEN Byte(s, o + b) \div 8 ELSE Byte(s, o + 2 * b - 1) \div 8],
      roi |-> Roi(s, P.main, <<>>, P.siz, c),
      prcw |-> [r \in 1..(sp.nl + 1) |-> sp.pp[r][1]], prch |-> [r \in 1..(sp.nl + 1) |-> sp.pp[r][2]]]

\* the fields in which a record of the same shape differs; of the step sizes only the signalled ones count
Differ(v, w) == {f \in DOMAIN w : f \notin DOMAIN v \/ v[f] # w[f]}
TccpFault(v, w) ==
  LET nb == Len(w.mant)
      cut == IF Len(v.mant) < nb \/ Len(v.expn) < nb THEN v
             ELSE [v EXCEPT !.mant = SubSeq(@, 1, nb), !.expn = SubSeq(@, 1, nb)]
  IN Differ(cut, w)

InfoFault(s, P, v, stage) ==
  IF "null" \in DOMAIN v THEN IF stage = "broken" THEN {} ELSE {"none"}
  ELSE LET siz == P.siz
           cods == Of(P.main, COD)
           cod == ReadCod(s, cods[Len(cods)].o)
       IN Differ(v, [tx0 |-> siz.XTO, ty0 |-> siz.YTO, tdx |-> siz.XT, tdy |-> siz.YT, tw |-> TilesX(siz), th |-> TilesY(siz),
                     nbcomps |-> siz.n, csty |-> cod.scod, prg |-> cod.prog, layers |-> cod.layers, mct |-> cod.mct])
          \cup (IF Len(v.tccp) # siz.n THEN {"tccp"}
                ELSE UNION {TccpFault(v.tccp[c], TrueTccp(s, P, c)) : c \in 1..siz.n})

\* --- the image after the header, at reduction f
ImageFault(P, v, f) ==
  LET siz == P.siz
      Of2(c) == LET k == siz.comps[c]
                    r == Sampled(ImageRect(siz), k.dx, k.dy)
                    m == 2^f
                    x0 == CeilDiv(r.x0, m)
                    y0 == CeilDiv(r.y0, m)
                IN [dx |-> k.dx, dy |-> k.dy, prec |-> k.prec, sgnd |-> k.sgnd, w |-> CeilDiv(r.x1, m) - x0, h |-> CeilDiv(r.y1, m) - y0, factor |-> f]
  IN IF ~v.ok THEN {"refused"}
     ELSE Differ(v, [x0 |-> siz.XO, y0 |-> siz.YO, x1 |-> siz.X, y1 |-> siz.Y, n |-> siz.n])
          \cup (IF Len(v.comps) # siz.n THEN {"comps"} ELSE UNION {Differ(v.comps[c], Of2(c)) : c \in 1..siz.n})

\* --- the index
TrueMain(P, off) == <<<<SOC, off, 2>>>> \o [k \in 1..Len(P.main) |-> <<P.main[k].m, P.main[k].o + off, P.main[k].len + 2>>]
PartMarks(p, off) == <<<<SOT, p.o + off, 12>>>> \o [k \in 1..Len(p.segs) |-> <<p.segs[k].m, p.segs[k].o + off, p.segs[k].len + 2>>]
                     \o <<<<SOD, p.body - 2 + off, p.end - p.body + 2>>>>
Mine(P, t) == SelectSeq(P.parts, LAMBDA p : p.tile = t)
TrueParts(P, t, off) == LET m == Mine(P, t) IN [k \in 1..Len(m) |-> <<m[k].o + off, m[k].body - 2 + off, m[k].end + off>>]
TrueMarks(P, t, off) == FlatMap(LAMBDA p : PartMarks(p, off), Mine(P, t))

Within(q, full) == /\ Len(q) <= Len(full)
                   /\ \A k \in 1..Len(q) : \E j \in 1..Len(full) : full[j] = q[k]
                   /\ \A k \in 2..Len(q) : q[k - 1][2] < q[k][2]
IndexFault(P, v, stage, off) ==
  IF "null" \in DOMAIN v THEN IF stage \in {"hdr", "broken"} THEN {} ELSE {"none"}     \* there is an index once a tile is read
  ELSE LET nt == NumTiles(P.siz)
       IN Differ(v, [start |-> off, end |-> P.mend + off, marks |-> TrueMain(P, off), nb_tiles |-> nt])
          \cup (IF v.size \in {0, P.end + 2} THEN {} ELSE {"size"})
          \cup (IF Len(v.tiles) # nt THEN {"tiles"}
                ELSE UNION {LET u == v.tiles[t + 1]
                                tm == TrueMarks(P, t, off)
                                tp == TrueParts(P, t, off)
                            IN IF stage = "all"
                               THEN Differ(u, [tileno |-> t, nb_tps |-> Len(tp), tps |-> tp, marks |-> tm])
                               ELSE (IF Within(u.marks, tm) THEN {} ELSE {"marks of a tile"})
                                    \cup (IF stage = "hdr" /\ u.marks # <<>> THEN {"marks too early"} ELSE {})
                                    \cup (IF u.nb_tps > Len(tp) THEN {"number of tile-parts"} ELSE {})
                                    \cup {"tile-part" : k \in {j \in 1..Len(u.tps) : u.tps[j] # <<0, 0, 0>> /\ j <= Len(tp) /\ u.tps[j] # tp[j] /\ u.tps[j] # <<tp[j][1], 0, 0>>}}     \* skipped: only where it starts
                            : t \in 0..(nt - 1)})

Fault(o, P, u) == CASE u.kind = "info" -> InfoFault(o.cs, P, u.v, u.stage)
                    [] u.kind = "image" -> ImageFault(P, u.v, u.reduce)
                    [] OTHER -> IndexFault(P, u.v, u.stage, o.off)

VARIABLES i, k, P
View == <<i, k>>
Init == i \in 1..Len(Obs) /\ k = 0 /\ P = <<>>
Read == k = 0 /\ k' = 1 /\ UNCHANGED i /\ \E p \in {Parse(Obs[i].cs)} : p.ok /\ P' = p
Judge == /\ k \in 1..Len(Obs[i].looks) /\ UNCHANGED <<i, P>>
         /\ \E f \in {Fault(Obs[i], P, Obs[i].looks[k])} :
              IF f = {} THEN k' = k + 1 ELSE k' = -1 /\ PrintT("WHY " \o ToJson([i |-> i, f |-> f, k |-> k]))
Done == k > Len(Obs[i].looks) /\ PrintT(<<"ACCEPT", i>>) /\ k' = -2 /\ UNCHANGED <<i, P>>
Next == Read \/ Judge \/ Done
Spec == Init /\ [][Next]_<<i, k, P>>
=============================================================================
