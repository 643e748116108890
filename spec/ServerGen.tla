------------------------------ MODULE ServerGen ------------------------------
(* All client schedules up to a depth, as behaviours of the client half of    *)
(* Server: connections open in order, send, stop sending, leave, are reset.   *)
EXTENDS Server, TLC, Json, IOUtils, SequencesExt
D == IF IOEnv.TIER = "thorough" THEN 6 ELSE 5
VARIABLE h
gv == <<vars, h>>
Log(e) == h' = Append(h, e)
First(c) == \A d \in Conns : d < c => cl[d] # "idle"
Next ==
  /\ Len(h) < D
  /\ \E c \in Conns :
       \/ First(c) /\ Connect(c) /\ Log([a |-> "connect", c |-> c, k |-> ""])
       \/ \E k \in {"ok", "last", "junk", "part"} :
            /\ ~(inq[c] # <<>> /\ Last(inq[c]).k \in {"last", "junk", "part"})
            /\ Send(c, [k |-> k, t |-> 0, q |-> 0]) /\ Log([a |-> "send", c |-> c, k |-> k])
       \/ HalfClose(c) /\ Log([a |-> "half", c |-> c, k |-> ""])
       \/ \E w \in {"close", "reset"} : Leave(c) /\ Log([a |-> w, c |-> c, k |-> ""])
Stop == Len(h) = D /\ PrintT("SCHED " \o ToJson(h)) /\ h' = Append(h, "end") /\ UNCHANGED vars
Spec == Init /\ h = <<>> /\ [][Next \/ Stop]_gv
=============================================================================
