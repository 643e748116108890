-------------------------------- MODULE Text --------------------------------
(* Byte strings: sequences of 0..255.  B("abc") gives the bytes of an ASCII  *)
(* literal.  Also decimal literals, percent-decoding and UTF-8 validity.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Printable == " !" \o "\"" \o "#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[" \o "\\"
             \o "]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, k, k) : k \in 1..95} |->
              31 + (CHOOSE k \in 1..95 : SubSeq(Printable, k, k) = ch)]
B(s) == [k \in 1..Len(s) |-> CodeOf[SubSeq(s, k, k)]]

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* Position of the first c in s, or 0. *)
IndexOf(s, c) == LET P == {k \in 1..Len(s) : s[k] = c}
                 IN IF P = {} THEN 0 ELSE CHOOSE k \in P : \A j \in P : k <= j

RECURSIVE SplitOn(_, _)
SplitOn(s, c) == LET k == IndexOf(s, c)
                 IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitOn(Drop(s, k), c)

IsDigit(c) == c \in 48..57
AllDigits(s) == \A k \in 1..Len(s) : IsDigit(s[k])

(* Strip leading zeros from a sequence of digit values. *)
RECURSIVE StripL(_)
StripL(d) == IF d = <<>> THEN d ELSE IF d[1] = 0 THEN StripL(Tail(d)) ELSE d
RECURSIVE StripR(_)
StripR(d) == IF d = <<>> THEN d ELSE IF d[Len(d)] = 0 THEN StripR(Front(d)) ELSE d
Vals(s) == [k \in 1..Len(s) |-> s[k] - 48]

(* A decimal: digits d1 d2 .. (no leading or trailing zero) and exponent e,  *)
(* standing for 0.d1d2.. * 10^e; zero is <<>> with e = 0.                    *)
Dec(intpart, frac) ==
  LET all  == Vals(intpart) \o Vals(frac)
      lead == Len(all) - Len(StripL(all))
      d    == StripR(StripL(all))
  IN [d |-> d, e |-> IF d = <<>> THEN 0 ELSE Len(intpart) - lead]

RECURSIVE LexCmp(_, _)
LexCmp(a, b) == IF a = <<>> /\ b = <<>> THEN 0
                ELSE LET x == IF a = <<>> THEN 0 ELSE a[1]
                         y == IF b = <<>> THEN 0 ELSE b[1]
                     IN IF x # y THEN (IF x < y THEN -1 ELSE 1)
                        ELSE LexCmp(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b))
DecCmp(a, b) == IF a.d = <<>> \/ b.d = <<>>
                THEN (IF a.d = b.d THEN 0 ELSE IF a.d = <<>> THEN -1 ELSE 1)
                ELSE IF a.e # b.e THEN (IF a.e < b.e THEN -1 ELSE 1)
                ELSE LexCmp(a.d, b.d)
DecOfNat(n) == Dec(B(ToString(n)), <<>>)

(* Plain decimal text  digits [ '.' digits ]  *)
IsPlainDec(s) ==
  LET p == SplitOn(s, 46)
  IN Len(p) \in {1, 2} /\ \A k \in 1..Len(p) : p[k] # <<>> /\ AllDigits(p[k])
PlainDec(s) == LET p == SplitOn(s, 46) IN Dec(p[1], IF Len(p) = 2 THEN p[2] ELSE <<>>)

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerAll(s) == [k \in 1..Len(s) |-> Lower(s[k])]

(* Everything some reader might reasonably take for a number: optional sign, *)
(* digits with at most one point and at least one digit, optional exponent;  *)
(* or the words inf, infinity, nan.                                          *)
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
NumberLike(s) ==
  LET u == LowerAll(Unsigned(s))
      x == IndexOf(u, 101)
      m == IF x = 0 THEN u ELSE SubSeq(u, 1, x - 1)
      e == IF x = 0 THEN B("0") ELSE Unsigned(Drop(u, x))
      p == SplitOn(m, 46)
  IN \/ u \in {B("inf"), B("infinity"), B("nan")}
     \/ /\ e # <<>> /\ AllDigits(e)
        /\ Len(p) \in {1, 2}
        /\ \A k \in 1..Len(p) : AllDigits(p[k])
        /\ \E k \in 1..Len(p) : p[k] # <<>>

(* Percent-decoding, once; a % not followed by two hex digits stands for itself. *)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55
             ELSE IF c \in 97..102 THEN c - 87 ELSE -1
RECURSIVE PctDecode(_)
PctDecode(s) ==
  IF s = <<>> THEN s
  ELSE IF s[1] = 37 /\ Len(s) >= 3 /\ HexVal(s[2]) >= 0 /\ HexVal(s[3]) >= 0
       THEN <<16 * HexVal(s[2]) + HexVal(s[3])>> \o PctDecode(Drop(s, 3))
       ELSE <<s[1]>> \o PctDecode(Tail(s))
WellEncoded(s) == \A k \in 1..Len(s) : s[k] = 37 =>
                     k + 2 <= Len(s) /\ HexVal(s[k+1]) >= 0 /\ HexVal(s[k+2]) >= 0

Cont(c) == c \in 128..191
RECURSIVE Utf8(_)
Utf8(s) ==
  IF s = <<>> THEN TRUE
  ELSE LET c == s[1] n == Len(s) IN
    CASE c < 128 -> Utf8(Tail(s))
      [] c \in 194..223 -> n >= 2 /\ Cont(s[2]) /\ Utf8(Drop(s, 2))
      [] c = 224 -> n >= 3 /\ s[2] \in 160..191 /\ Cont(s[3]) /\ Utf8(Drop(s, 3))
      [] c \in (225..236) \cup {238, 239} -> n >= 3 /\ Cont(s[2]) /\ Cont(s[3]) /\ Utf8(Drop(s, 3))
      [] c = 237 -> n >= 3 /\ s[2] \in 128..159 /\ Cont(s[3]) /\ Utf8(Drop(s, 3))
      [] c = 240 -> n >= 4 /\ s[2] \in 144..191 /\ Cont(s[3]) /\ Cont(s[4]) /\ Utf8(Drop(s, 4))
      [] c \in 241..243 -> n >= 4 /\ Cont(s[2]) /\ Cont(s[3]) /\ Cont(s[4]) /\ Utf8(Drop(s, 4))
      [] c = 244 -> n >= 4 /\ s[2] \in 128..143 /\ Cont(s[3]) /\ Cont(s[4]) /\ Utf8(Drop(s, 4))
      [] OTHER -> FALSE
=============================================================================
