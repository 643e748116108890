-------------------------------- MODULE Num ---------------------------------
(* Integer arithmetic and byte access used by the JPEG 2000 modules.         *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
Pow2(n) == 2^n
CeilPow2(a, n) == CeilDiv(a, 2^n)
FloorPow2(a, n) == a \div 2^n
RECURSIVE FloorLog2(_)
FloorLog2(n) == IF n <= 1 THEN 0 ELSE 1 + FloorLog2(n \div 2)
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
FlatMap(f(_), s) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, s)
Upto(a, b) == [k \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + k - 1]      \* <<a, .., b>>
Rep(x, n) == [k \in 1..n |-> x]
Pred(s, P(_)) == \A k \in 1..Len(s) : P(s[k])

\* Byte strings are sequences of 0..255; offsets into them count from 0.
Huge == 2147483647
Byte(s, o) == s[o + 1]
U16(s, o) == s[o + 1] * 256 + s[o + 2]
U32(s, o) == IF s[o + 1] >= 128 THEN Huge
             ELSE ((s[o + 1] * 256 + s[o + 2]) * 256 + s[o + 3]) * 256 + s[o + 4]
Cut(s, o, n) == SubSeq(s, o + 1, o + n)
W16(n) == <<(n \div 256) % 256, n % 256>>
W32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Bit(n, k) == (n \div 2^k) % 2
=============================================================================
