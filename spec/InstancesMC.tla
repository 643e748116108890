---------------------------- MODULE InstancesMC -----------------------------
(* Design check.  Three instances, three calls each; the result of a call is *)
(* what the instance's own state holds.  With SHARED = TRUE the calls go     *)
(* through one register for all, and Isolated fails.                         *)
EXTENDS Instances
CONSTANTS N, K, SHARED
VARIABLES pos, reg, out
vars == <<pos, reg, out>>
Lens == [k \in 1..N |-> K]
Alone == [k \in 1..N |-> [j \in 1..K |-> <<k, j - 1>>]]
Slot(k) == IF SHARED THEN 1 ELSE k
Init == /\ pos = Begin(Lens) /\ out = [k \in 1..N |-> <<>>]
        /\ reg = [k \in 1..N |-> <<k, 0>>]
(* a call reports the register as this instance left it and moves it on *)
Call(k) == /\ k \in Ready(Lens, pos)
           /\ out' = [out EXCEPT ![k] = Append(@, IF pos[k] = 0 THEN <<k, 0>> ELSE reg[Slot(k)])]
           /\ reg' = [reg EXCEPT ![Slot(k)] = <<k, pos[k] + 1>>]
           /\ pos' = Step(pos, k)
Next == \E k \in 1..N : Call(k)
Spec == Init /\ [][Next]_vars
Isolated == \A k \in 1..N : Prefix(out[k], Alone[k])
(* what another instance does changes nothing of mine *)
NoInterference == [][\A k \in 1..N : pos'[k] = pos[k] => out'[k] = out[k] /\ (~SHARED => reg'[k] = reg[k])]_vars
=============================================================================
