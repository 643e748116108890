----------------------------- MODULE RoundTrip ------------------------------
(* A reversible encode followed by a full decode is the identity on images.  *)
(* Row: [src, dst]; images are [x0,y0,x1,y1,comps], a component is           *)
(* [dx,dy,w,h,prec,sgnd,d].                                                  *)
EXTENDS Geometry, Sequences, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)

SameComp(src, c, d) ==
  /\ d.dx = c.dx /\ d.dy = c.dy /\ d.prec = c.prec /\ d.sgnd = c.sgnd
  /\ d.w = CeilDiv(src.x1, c.dx) - CeilDiv(src.x0, c.dx)
  /\ d.h = CeilDiv(src.y1, c.dy) - CeilDiv(src.y0, c.dy)
  /\ d.d = c.d
SameImage(r) ==
  LET s == r.src
      t == r.dst
  IN /\ <<t.x0, t.y0, t.x1, t.y1>> = <<s.x0, s.y0, s.x1, s.y1>>
     /\ Len(t.comps) = Len(s.comps)
     /\ \A k \in 1..Len(s.comps) : SameComp(s, s.comps[k], t.comps[k])

VARIABLES i, st
Init == i \in 1..Len(Obs) /\ st = "todo"
Next == /\ st = "todo" /\ UNCHANGED i
        /\ IF SameImage(Obs[i]) THEN st' = "ok" /\ PrintT(<<"ACCEPT", i>>) ELSE st' = "bad"
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
