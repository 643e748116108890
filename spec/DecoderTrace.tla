---------------------------- MODULE DecoderTrace ----------------------------
(* Row: [siz, nl, mct, d, free, runs]; free: tile-parts of different tiles    *)
(* may be mixed, so a sequential read may come to the tiles in any order;    *)
(* a run is the sequence of calls made on one  *)
(* codec with their outcomes.                                                *)
EXTENDS Decoder, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)

\* Reductions at which samples are looked at in the row
Depths(o) == UNION {{IF c.op = "setup" THEN c.reduce ELSE IF c.op = "resf" THEN c.n ELSE 0 : c \in {o.runs[r][k] : k \in 1..Len(o.runs[r])}} : r \in 1..Len(o.runs)}

\* The order of the tiles in a run: that of the codestream, or else the one seen, if it has every tile once
OrderOf(o, run) ==
  LET add(acc, t) == IF t \in Range(acc) \/ t >= NumTiles(o.siz) THEN acc ELSE Append(acc, t)
      seen == IF o.free THEN FoldLeft(LAMBDA acc, c : IF c.op = "rth" /\ c.ok /\ c.go = 1 THEN add(acc, c.idx) ELSE acc, <<>>, run) ELSE <<>>
  IN FoldLeft(add, seen, InTileOrder(o.siz))

RECURSIVE Walk(_, _, _, _, _)
Walk(o, lev, run, k, m) ==
  IF k > Len(run) THEN [bad |-> 0, why |-> ""]
  ELSE LET c == run[k]
           e == Outcome(o, m, c)
       IN IF e = "yes" /\ ~c.ok THEN [bad |-> k, why |-> c.op \o " was refused"]
          ELSE IF e = "no" /\ c.ok THEN [bad |-> k, why |-> c.op \o " was accepted"]
          ELSE IF c.ok /\ ~Effect(o, lev, m, c) THEN [bad |-> k, why |-> c.op \o " had another effect"]
          ELSE Walk(o, lev, run, k + 1, TLCEval(After(o, m, c, c.ok)))

\* The earliest disagreement of the row's runs
Verdict(o, lev) ==
  LET res == TLCEval([r \in 1..Len(o.runs) |-> TLCEval(Walk(o @@ [order |-> OrderOf(o, o.runs[r])], lev, o.runs[r], 1, New))])
      wrong == {r \in 1..Len(o.runs) : res[r].bad # 0}
  IN IF wrong = {} THEN [bad |-> 0]
     ELSE LET r == CHOOSE r \in wrong : \A q \in wrong : res[r].bad < res[q].bad \/ (res[r].bad = res[q].bad /\ r <= q)
          IN [bad |-> Cardinality(wrong), f |-> res[r].why, run |-> r, call |-> res[r].bad]

VARIABLES i, st
Init == i \in 1..Len(Obs) /\ st = "todo"
Next ==
  /\ st = "todo" /\ UNCHANGED i
  /\ \E lev \in {Levels(Obs[i], {f \in Depths(Obs[i]) \cup {0} : f <= Obs[i].nl})} :
     \E v \in {Verdict(Obs[i], lev)} :
       IF v.bad = 0 THEN PrintT(<<"ACCEPT", i>>) /\ st' = "ok"
       ELSE PrintT("WHY " \o ToJson([i |-> i, f |-> v.f, run |-> v.run, call |-> v.call, all |-> v.bad])) /\ st' = "bad"
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
