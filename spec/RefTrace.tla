------------------------------ MODULE RefTrace ------------------------------
(* Each observation is [cs: bytes of a written codestream, img: source       *)
(* samples a component, dec: samples this library decodes].  One behaviour   *)
(* per observation: parse, then decode tile after tile by the standard and   *)
(* compare with both.                                                        *)
EXTENDS RefDecode, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES i, t, st, P          \* P: the parsed codestream (not part of the view: it follows from i)
vars == <<i, t, st, P>>
View == <<i, t, st>>

Init == i \in 1..Len(Obs) /\ t = 0 /\ st = "parse" /\ P = <<>>

TileOk(o, p, k) ==
  LET z == TilePlanes(o.cs, p, k, 0)
      ir == ImageRect(p.siz)
  IN /\ z.ok
     /\ \A c \in 1..p.siz.n :
          LET cr == Sampled(ir, p.siz.comps[c].dx, p.siz.comps[c].dy)
          IN /\ PlaneIn(z.planes[c], o.img[c], cr.x0, cr.y0, Wd(cr))
             /\ PlaneIn(z.planes[c], o.dec[c], cr.x0, cr.y0, Wd(cr))

ParseStep ==
  /\ st = "parse"
  /\ \E p \in {Parse(Obs[i].cs)} :
       /\ P' = p
       /\ IF p.ok THEN st' = "tiles" /\ t' = NumTiles(p.siz)
          ELSE PrintT(<<"WHY", i, p.why>>) /\ st' = "bad" /\ t' = t
  /\ UNCHANGED i
TileStep ==
  /\ st = "tiles" /\ t > 0
  /\ IF TileOk(Obs[i], P, t - 1) THEN t' = t - 1 /\ st' = st ELSE PrintT(<<"WHY", i, t - 1>>) /\ st' = "bad" /\ t' = t
  /\ UNCHANGED <<i, P>>
Done == st = "tiles" /\ t = 0 /\ PrintT(<<"ACCEPT", i>>) /\ st' = "accepted" /\ UNCHANGED <<i, t, P>>

Next == ParseStep \/ TileStep \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
