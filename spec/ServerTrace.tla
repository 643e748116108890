----------------------------- MODULE ServerTrace -----------------------------
(* Validates what clients recorded on their sockets against Server.  The       *)
(* server's admissions and endings are not observable and are left to TLC.     *)
EXTENDS Server, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, l
tv == <<vars, i, l>>
Ev == T[i].ev[l]
More == l <= Len(T[i].ev)
TraceInit == Init /\ i \in 1..Len(T) /\ l = 1
Is(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED i
Slots == T[i].limit
(* Limit is per trace, so Admit is restated with the trace's own limit. *)
AdmitT(c) == sv[c] = "waiting" /\ Cardinality(Serving) < Slots
             /\ sv' = [sv EXCEPT ![c] = "serving"] /\ UNCHANGED <<cl, inq, mayend>>
RestT == /\ \A c \in Conns : ~Answerable(c)
         /\ \A c \in Conns : sv[c] = "serving" => cl[c] = "open"
         /\ Waiting # {} => Cardinality(Serving) = Slots
(* The server's own steps are needed only where something is observed: a       *)
(* connection is admitted when it is answered (or at rest), and others are     *)
(* released or finished early only when it has to wait for their slot.         *)
Gone == {c \in Conns : sv[c] \in {"serving", "closing"} /\ cl[c] = "gone"}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Full == Cardinality(Serving) = Slots
HiddenT == More /\ UNCHANGED <<i, l>> /\
  CASE Ev.e \in {"resp", "eof"} ->
         IF sv[Ev.c] = "waiting"
         THEN IF ~Full THEN AdmitT(Ev.c)
              ELSE IF Gone # {} THEN Finish(First(Gone))
              ELSE \E c \in Conns : Release(c) \/ Finish(c)
         ELSE Ev.e = "eof" /\ Finish(Ev.c)
    [] Ev.e = "quiet" -> IF Gone # {} THEN Finish(First(Gone)) ELSE \E c \in Conns : AdmitT(c) \/ Release(c) \/ Finish(c)
    [] OTHER -> FALSE
Next ==
  \/ Is("connect") /\ Connect(Ev.c)
  \/ Is("send") /\ Send(Ev.c, [k |-> Ev.k, t |-> Ev.t, q |-> Ev.q])
  \/ Is("half") /\ HalfClose(Ev.c)
  \/ Is("leave") /\ Leave(Ev.c)
  \/ Is("resp") /\ Answer(Ev.c, Ev.s, Ev.t, Ev.q)
  \/ Is("eof") /\ sv[Ev.c] = "done" /\ UNCHANGED vars
  \/ Is("quiet") /\ RestT /\ UNCHANGED vars
  \/ HiddenT
  \/ l = Len(T[i].ev) + 1 /\ PrintT(<<"ACCEPT", i>>) /\ l' = l + 1 /\ UNCHANGED <<vars, i>>
TraceSpec == TraceInit /\ [][Next]_tv
Bound == Cardinality(Serving) <= Slots
=============================================================================
