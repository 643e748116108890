----------------------------- MODULE Instances ------------------------------
(* Several codec instances in one process.  Instance i is to make the calls  *)
(* of its program; Alone[i] is what those calls give when nothing else       *)
(* happens in the process.  A step is one call of one instance.  The state   *)
(* of an instance (its private history) alone decides what its next call     *)
(* gives; the schedule does not enter.                                       *)
EXTENDS Naturals, Sequences, FiniteSets

Begin(lens) == [k \in DOMAIN lens |-> 0]
Ready(lens, pos) == {k \in DOMAIN lens : pos[k] < lens[k]}
Step(pos, k) == [pos EXCEPT ![k] = @ + 1]
Ended(lens, pos) == Ready(lens, pos) = {}
(* What a call of instance k gives with the instances at pos. *)
Gives(alone, pos, k) == alone[k][pos[k] + 1]

Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
=============================================================================
