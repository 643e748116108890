-------------------------------- MODULE Server --------------------------------
(* One listener of the laya server: connections compete for a fixed number of *)
(* slots; an admitted connection answers its requests in order; every way a   *)
(* connection can end gives its slot back.                                    *)
(*                                                                            *)
(* Abstract request: [k |-> kind, t |-> token, q |-> stream].  The token is   *)
(* echoed by the answer where the answer has a body that names the request;   *)
(* q is 0 under HTTP/1 and the stream number under HTTP/2.                    *)
(* Kinds:  ok      well-formed image request, image exists     -> 200         *)
(*         miss    well-formed image request, no such image    -> 400         *)
(*         bad     malformed image request (echoes its token)  -> 400         *)
(*         nf      method or target that is not served         -> 404         *)
(*         head    HEAD request (not served, no body)           -> 404         *)
(*         info    image information request                   -> any status  *)
(*         last    like bad, but asks for the connection to be closed         *)
(*         junk    not HTTP at all: at most one error answer, then closed      *)
(*         part    the beginning of a request and nothing more: no answer      *)
(*         garb    hostile bytes: any answer or none, possibly closed          *)
(*         post    request with a body the server does not want: 404, after    *)
(*                 which the server may close                                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Conns, Limit

VARIABLES
  cl,     \* client's end: "idle" | "open" | "half" (finished sending) | "gone"
  sv,     \* server's end: "none" | "waiting" | "serving" | "closing" | "done"
          \* closing: the server is through with it and its slot is free, but the
          \* client has not yet received everything
  inq,    \* requests whose answers the client has not received
  mayend  \* the server may close this connection of its own accord

vars == <<cl, sv, inq, mayend>>

Closing(k) == k \in {"last", "last10", "junk"}
Silent(k)  == k = "part"
Status(k)  == CASE k = "ok" -> {200} [] k \in {"miss", "bad", "last", "last10"} -> {400}
                [] k \in {"nf", "head", "post"} -> {404} [] k = "info" -> 200..599
                [] k = "junk" -> 400..599 [] k = "garb" -> 1..599 [] OTHER -> {}
Echoes(k)  == k \in {"bad", "last", "last10"}

Serving == {c \in Conns : sv[c] = "serving"}
Waiting == {c \in Conns : sv[c] = "waiting"}

Init == /\ cl = [c \in Conns |-> "idle"] /\ sv = [c \in Conns |-> "none"]
        /\ inq = [c \in Conns |-> <<>>] /\ mayend = [c \in Conns |-> FALSE]

\* ---- clients -------------------------------------------------------------
Connect(c) == cl[c] = "idle" /\ cl' = [cl EXCEPT ![c] = "open"] /\ sv' = [sv EXCEPT ![c] = "waiting"]
              /\ UNCHANGED <<inq, mayend>>
(* A request sent after the server has finished with the connection is lost. *)
Send(c, r) == cl[c] = "open"
              /\ inq' = [inq EXCEPT ![c] = IF sv[c] \in {"closing", "done"} THEN @ ELSE Append(@, r)]
              /\ UNCHANGED <<cl, sv, mayend>>
HalfClose(c) == cl[c] = "open" /\ cl' = [cl EXCEPT ![c] = "half"] /\ UNCHANGED <<sv, inq, mayend>>
Leave(c) == cl[c] \in {"open", "half"} /\ cl' = [cl EXCEPT ![c] = "gone"] /\ UNCHANGED <<sv, inq, mayend>>

\* ---- server --------------------------------------------------------------
Admit(c) == sv[c] = "waiting" /\ Cardinality(Serving) < Limit
            /\ sv' = [sv EXCEPT ![c] = "serving"] /\ UNCHANGED <<cl, inq, mayend>>
(* Answer a request with status s, echoed token t (0: none) on stream q: the  *)
(* oldest request under HTTP/1, any outstanding stream under HTTP/2.          *)
Answer(c, s, t, q) ==
  \E n \in 1..Len(inq[c]) :
    LET r == inq[c][n] IN
      /\ sv[c] \in {"serving", "closing"}
      /\ r.q = q /\ (q = 0 => n = 1)
      /\ ~Silent(r.k) /\ s \in Status(r.k)
      /\ r.k \in {"garb", "info"} \/ t = (IF Echoes(r.k) THEN r.t ELSE 0)
      /\ CASE Closing(r.k) -> sv' = [sv EXCEPT ![c] = "done"] /\ inq' = [inq EXCEPT ![c] = <<>>] /\ UNCHANGED mayend
           [] r.k = "garb" -> UNCHANGED <<sv, inq, mayend>>
           [] OTHER -> /\ inq' = [inq EXCEPT ![c] = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))]
                       /\ UNCHANGED sv
                       /\ mayend' = [mayend EXCEPT ![c] = @ \/ r.k = "post"]
      /\ UNCHANGED cl
(* The server is through with a connection that the client or one of the     *)
(* requests ends; what it has answered may still be on its way.               *)
Release(c) ==
  /\ sv[c] = "serving"
  /\ \/ cl[c] \in {"gone", "half"}
     \/ mayend[c]
     \/ \E n \in 1..Len(inq[c]) : Closing(inq[c][n].k) \/ inq[c][n].k \in {"garb", "post"}
  /\ sv' = [sv EXCEPT ![c] = "closing"] /\ UNCHANGED <<cl, inq, mayend>>
(* The connection is over: the client left or stopped sending, sent junk, or *)
(* the server is entitled to close.  The slot is free again.                 *)
Finish(c) ==
  /\ sv[c] \in {"serving", "closing"}
  /\ \/ cl[c] \in {"gone", "half"}
     \/ mayend[c]
     \/ inq[c] # <<>> /\ Head(inq[c]).k \in {"junk", "garb"}
  /\ sv' = [sv EXCEPT ![c] = "done"] /\ inq' = [inq EXCEPT ![c] = <<>>] /\ UNCHANGED <<cl, mayend>>

Server == \E c \in Conns : Admit(c) \/ Release(c) \/ Finish(c) \/ \E s \in {200, 400, 404, 501}, t \in 0..3 : Answer(c, s, t, 0)

\* ---- what "the server has nothing left to do" means -----------------------
Answerable(c) == sv[c] \in {"serving", "closing"} /\ inq[c] # <<>> /\ ~Silent(Head(inq[c]).k) /\ Head(inq[c]).k # "garb"
Rest == /\ \A c \in Conns : ~Answerable(c)
        /\ \A c \in Conns : sv[c] = "serving" => cl[c] = "open"
        /\ Waiting # {} => Cardinality(Serving) = Limit

\* ---- properties ----------------------------------------------------------
TypeOK == /\ cl \in [Conns -> {"idle", "open", "half", "gone"}]
          /\ sv \in [Conns -> {"none", "waiting", "serving", "closing", "done"}]
SlotBound == Cardinality(Serving) <= Limit
(* A slot is only ever held by a connection that was opened and not finished. *)
NoPhantom == \A c \in Serving : cl[c] # "idle"
(* Requests are answered from the front only. *)
InOrder == [][\A c \in Conns : inq'[c] # inq[c] =>
               \/ Len(inq'[c]) = Len(inq[c]) + 1 /\ SubSeq(inq'[c], 1, Len(inq[c])) = inq[c]
               \/ inq[c] # <<>> /\ inq'[c] = Tail(inq[c])
               \/ inq'[c] = <<>>]_vars
=============================================================================
