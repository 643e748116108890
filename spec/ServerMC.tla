------------------------------- MODULE ServerMC -------------------------------
(* Exhaustive check of the design: every interleaving of few connections.     *)
EXTENDS Server, TLC
CONSTANTS MaxReq
Kinds == {"ok", "last", "junk", "part", "post", "garb"}
VARIABLE sent
Client == \E c \in Conns :
  \/ Connect(c) /\ UNCHANGED sent
  \/ sent[c] < MaxReq /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ \E k \in Kinds : Send(c, [k |-> k, t |-> 1, q |-> 0])
  \/ HalfClose(c) /\ UNCHANGED sent
  \/ Leave(c) /\ UNCHANGED sent
MCInit == Init /\ sent = [c \in Conns |-> 0]
ServerStep(c) == (Admit(c) \/ Release(c) \/ Finish(c) \/ \E s \in {200, 400, 404}, t \in 0..1 : Answer(c, s, t, 0)) /\ UNCHANGED sent
MCNext == Client \/ \E c \in Conns : ServerStep(c)
Fair == /\ \A c \in Conns : WF_<<vars, sent>>((Finish(c) \/ \E s \in {200, 400, 404}, t \in 0..1 : Answer(c, s, t, 0)) /\ UNCHANGED sent)
        /\ \A c \in Conns : SF_<<vars, sent>>(Admit(c) /\ UNCHANGED sent)
        /\ \A c \in Conns : WF_<<vars, sent>>(Leave(c) /\ UNCHANGED sent)
MCSpec == MCInit /\ [][MCNext]_<<vars, sent>> /\ Fair
(* Provided clients do not stay for ever, everybody is served. *)
Served == \A c \in Conns : (sv[c] = "waiting") ~> (sv[c] # "waiting")
SlotsReturn == \A c \in Conns : (sv[c] = "serving") ~> (sv[c] = "done")
Symm == Permutations(Conns)
=============================================================================
