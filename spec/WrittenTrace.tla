---------------------------- MODULE WrittenTrace ----------------------------
(* Each observation is [cs, want]: a codestream and the request it answers.  *)
(* One behaviour per observation: header, tile-parts, then tile after tile.  *)
EXTENDS Written, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, t, st, P          \* P: the parsed codestream (not part of the view: it follows from i)
vars == <<i, t, st, P>>
View == <<i, t, st>>
Init == i \in 1..Len(Obs) /\ t = 0 /\ st = "parse" /\ P = <<>>

Judge(f, next, t2) ==
  IF f = {} THEN st' = next /\ t' = t2
  ELSE PrintT("WHY " \o ToJson([i |-> i, f |-> f])) /\ st' = "bad" /\ t' = t

Read ==
  /\ st = "parse"
  /\ \E p \in {Parse(Obs[i].cs)} : P' = p /\ Judge(IF p.ok THEN {} ELSE {p.why}, "header", 0)
  /\ UNCHANGED i
Header ==
  /\ st = "header"
  /\ Judge(HeaderFaults(Obs[i].cs, P, Obs[i].want), "parts", 0)
  /\ UNCHANGED <<i, P>>
TileParts0 ==
  /\ st = "parts"
  /\ Judge(PartFaults(Obs[i].cs, P, Obs[i].want), "tiles", NumTiles(P.siz))
  /\ UNCHANGED <<i, P>>
Tile ==
  /\ st = "tiles" /\ t > 0
  /\ Judge(TileFaults(Obs[i].cs, P, Obs[i].want, t - 1), "tiles", t - 1)
  /\ UNCHANGED <<i, P>>
Done == st = "tiles" /\ t = 0 /\ PrintT(<<"ACCEPT", i>>) /\ st' = "accepted" /\ UNCHANGED <<i, t, P>>
Next == Read \/ Header \/ TileParts0 \/ Tile \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
