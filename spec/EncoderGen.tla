---------------------------- MODULE EncoderGen ------------------------------
(* Call histories.  Row: [n, picks]; a pick of -1 stands for every call, one  *)
(* below 1000 for some call that succeeds, others for any call.               *)
EXTENDS Encoder, Json, IOUtils, TLC, SequencesExt
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, s, h
vars == <<i, s, h>>
All == SetToSeq(Calls)
Good(n, st) == SetToSeq({c \in Calls : Verdict(n, st, c) = "yes"})
Choice(n, st, p) ==
  IF p < 0 THEN Calls
  ELSE LET g == IF p < 1000 /\ Len(Good(n, st)) > 0 THEN Good(n, st) ELSE All IN {g[(p % Len(g)) + 1]}
Init == i \in 1..Len(Obs) /\ s = Fresh /\ h = <<>>
Next == /\ Len(h) < Len(Obs[i].picks)
        /\ \E c \in Choice(Obs[i].n, s, Obs[i].picks[Len(h) + 1]) :
             /\ s' = After(Obs[i].n, s, c, Verdict(Obs[i].n, s, c) # "no")
             /\ h' = Append(h, c)
             /\ IF Len(h') = Len(Obs[i].picks) THEN PrintT("HIST " \o ToJson([i |-> i, h |-> h'])) ELSE TRUE
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
=============================================================================
