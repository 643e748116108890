------------------------------- MODULE Resolve -------------------------------
(* The image directory as a little file system, and which identifiers name   *)
(* an image in it.  Paths are sequences of components (byte strings), the    *)
(* empty sequence being the image directory itself.                          *)
EXTENDS Text

VARIABLES files       \* set of paths of regular files inside the image directory

Slash == 47
(* Components of a decoded identifier, empty ones kept. *)
Comps(id) == SplitOn(id, Slash)
DotDot == B("..")
Dot    == B(".")
Trivial(c) == c = <<>> \/ c = Dot

(* Purely lexical walk from the image directory: depth below the root,       *)
(* "out" once above it.                                                      *)
RECURSIVE Walk(_, _)
Walk(cs, at) ==
  IF cs = <<>> THEN [out |-> FALSE, at |-> at]
  ELSE IF Trivial(cs[1]) THEN Walk(Tail(cs), at)
  ELSE IF cs[1] = DotDot
       THEN IF at = <<>> THEN [out |-> TRUE, at |-> <<>>] ELSE Walk(Tail(cs), Front(at))
  ELSE Walk(Tail(cs), Append(at, cs[1]))

Absolute(id) == id # <<>> /\ id[1] = Slash
HasNul(id)   == \E k \in 1..Len(id) : id[k] = 0
Plain(id)    == id # <<>> /\ ~Absolute(id) /\ \A k \in 1..Len(Comps(id)) : ~Trivial(Comps(id)[k]) /\ Comps(id)[k] # DotDot

(* The set of admissible answers, 200 or 400, for a raw (percent-encoded)    *)
(* identifier.  `inside` tells whether an absolute identifier spells the     *)
(* image directory's own location (then both answers are admissible).        *)
Answers(raw, inside) ==
  LET id == PctDecode(raw) w == Walk(Comps(id), <<>>)
  IN IF ~Utf8(id) \/ HasNul(id) THEN {400}
     ELSE IF Absolute(id) THEN (IF inside THEN {200, 400} ELSE {400})
     ELSE IF Plain(id) THEN (IF Comps(id) \in files THEN {200} ELSE {400})
     ELSE IF w.out THEN (IF inside THEN {200, 400} ELSE {400})
     ELSE IF w.at \in files THEN {200, 400}          \* "sub/../a", "./a", "a//b": no canonical form
     ELSE {400}

\* ---- actions -------------------------------------------------------------
AddFile(f) == files' = files \cup {f}
DelFile(f) == f \in files /\ files' = files \ {f}
Get(raw, inside, status) == status \in Answers(raw, inside) /\ UNCHANGED files
=============================================================================
