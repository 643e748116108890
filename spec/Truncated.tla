----------------------------- MODULE Truncated ------------------------------
(* What a proper prefix of a file may decode to.  A row is                   *)
(*   [cs, off, src, cuts]   codestream, its offset in the file, source       *)
(* samples a component, and observations [n, strict, tol, tile, mode, gt]:   *)
(* the prefix length; what a strict and a tolerant decode gave; the tile     *)
(* asked for and what fetching it (mode "strict" or "tol") gave.  A result   *)
(* is [ok, d] with the samples a component.                                  *)
EXTENDS Codestream, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)

\* What lies completely in the first m bytes of the codestream: a tile-part
\* of unknown length reaches up to EOC, which shows that it is complete
TileIn(P, m, t) == /\ \E k \in 1..Len(P.parts) : P.parts[k].tile = t
                   /\ \A k \in 1..Len(P.parts) : P.parts[k].tile = t =>
                          P.parts[k].end + (IF P.parts[k].psot = 0 THEN 2 ELSE 0) <= m
WholeIn(P, m) == \A t \in 0..(NumTiles(P.siz) - 1) : TileIn(P, m, t)

\* Samples of tile t, component c, out of a plane over the image
Crop(P, plane, t, c) ==
  LET r == TileComp(P.siz, t, c)
      ir == Sampled(ImageRect(P.siz), P.siz.comps[c].dx, P.siz.comps[c].dy)
      w == Wd(ir)
  IN [k \in 1..(Wd(r) * Ht(r)) |->
        plane[(r.y0 - ir.y0 + ((k - 1) \div Wd(r))) * w + (r.x0 - ir.x0 + ((k - 1) % Wd(r))) + 1]]
TileSame(P, src, d, t) == \A c \in 1..P.siz.n : Crop(P, d[c], t, c) = Crop(P, src[c], t, c)

\* A cut after a tile-part, while a tile has given one tile-part that does not
\* say how many there are: it cannot be told from a codestream without EOC,
\* which the decoder takes for complete even in strict mode
Untold(P, m) ==
  LET seen == {k \in 1..Len(P.parts) : P.parts[k].end <= m}
  IN /\ \E k \in seen : P.parts[k].end \in {m, m - 1}
     /\ \E k \in seen : /\ P.parts[k].tn = 0
                        /\ \A j \in seen \ {k} : P.parts[j].tile # P.parts[k].tile

Fault(o, P, u) ==
  LET m == u.n - o.off
      in == {t \in 0..(NumTiles(P.siz) - 1) : TileIn(P, m, t)}
  IN IF u.strict.ok /\ ~WholeIn(P, m) /\ ~Untold(P, m) THEN "incomplete data taken for complete"
     ELSE IF u.strict.ok /\ WholeIn(P, m) /\ u.strict.d # o.src THEN "strict decode differs"
     ELSE IF in # {} /\ ~u.tol.ok THEN "complete tiles not decoded"
     ELSE IF u.tol.ok /\ \E t \in in : ~TileSame(P, o.src, u.tol.d, t) THEN "complete tile differs"
     ELSE IF u.tile \in in /\ u.mode = "tol" /\ ~u.gt.ok THEN "complete tile cannot be fetched"
     ELSE IF u.gt.ok /\ u.tile \in in /\ u.gt.d # [c \in 1..P.siz.n |-> Crop(P, o.src[c], u.tile, c)] THEN "fetched tile differs"
     ELSE IF u.gt.ok /\ u.mode = "strict" /\ u.tile \notin in /\ ~Untold(P, m) THEN "incomplete tile fetched"
     ELSE ""

VARIABLES i, k, P
View == <<i, k>>
Init == i \in 1..Len(Obs) /\ k = 0 /\ P = <<>>
Read == k = 0 /\ k' = 1 /\ UNCHANGED i /\ \E p \in {Parse(Obs[i].cs)} : p.ok /\ P' = p
Judge == /\ k \in 1..Len(Obs[i].cuts) /\ UNCHANGED <<i, P>>
         /\ \E f \in {Fault(Obs[i], P, Obs[i].cuts[k])} :
              IF f = "" THEN k' = k + 1 ELSE k' = -1 /\ PrintT("WHY " \o ToJson([i |-> i, n |-> Obs[i].cuts[k].n, f |-> f, k |-> k]))
Done == k > Len(Obs[i].cuts) /\ PrintT(<<"ACCEPT", i>>) /\ k' = -2 /\ UNCHANGED <<i, P>>
Next == Read \/ Judge \/ Done
Spec == Init /\ [][Next]_<<i, k, P>>
=============================================================================
