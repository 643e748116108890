----------------------------- MODULE ResolveGen -----------------------------
(* Exhaustive families of identifiers: every word over escape material, and   *)
(* structured climbs of every depth and spelling to every kind of target.     *)
EXTENDS Text, Json, IOUtils, TLC
Toks(S) == {B(s) : s \in S}
Depth == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Base == Toks({"..", "%2E%2e", "%2F", "a.jp2", "sub", "secret.jp2", ".", "%252F", "img"})
Words(S, n) == UNION { {FlattenSeq(w) : w \in [1..k -> S]} : k \in 0..n }
Up == Toks({"..%2F", "%2e%2E%2f", ".%2E%2F", "..%2F.%2F", "..%2F%2F", "%252e%252e%252f", "..%5C", "sub%2F..%2F..%2F"})
Pre == Toks({"", "sub%2F", "a.jp2%2F", ".%2F", "%2F", "%2F%2F", "sub%2Fdeep%2F", "nosuch%2F", "%20", "%00"})
Goal == Toks({"secret.jp2", "img-evil%2Fsecret.jp2", "img%2Fa.jp2", "a.jp2", "base%2Fsecret.jp2", "", "img%2F..%2Fsecret.jp2"})
Climb == {p \o FlattenSeq([j \in 1..k |-> u]) \o g : p \in Pre, u \in Up, k \in 0..4, g \in Goal}
BasePath == B(IOEnv.BASEENC)
Abs == {p \o BasePath \o g : p \in Toks({"", "%2F", ".%2F", "sub%2F", "..%2F..%2F..%2F..%2F"}),
           g \in Toks({"%2Fsecret.jp2", "%2fimg%2F..%2Fsecret.jp2", "%2Fimg-evil%2Fsecret.jp2", "%2Fimg%2Fa.jp2"})}
Names == Toks({"a.jp2", "b%20c.jp2", "b%2520c.jp2", "%C3%A9.jp2", "%c3%a9.jp2", "%2541.jp2", "%41.jp2", "A.jp2", "sub%2Fx.jp2", "sub%2fx.jp2",
   "sub%2Fdeep%2Fy.jp2", "sub%2Fdeep%2Fz.jp2", "sub%5Cx.jp2", "sub", "sub%2F", "sub%2Fdeep", "..x", "...", "...%2Fa.jp2", ".hidden",
   "a%3Fb", "a%253Fb", "q+r", "q%20r", "q%2Br", "100%25", "100%2525", "100%", "%zz", "a.jp2%00", "%00a.jp2", "a%00.jp2", "a.jp2%2F", "a.jp2%2F.",
   "sub%2F..%2Fa.jp2", ".%2Fa.jp2", "sub%2F%2Fx.jp2", "sub%2F.%2Fx.jp2", "empty", "%23%5B%5D%40", "A.JP2", "a.jp2%20", "a.jp", "..x%2F", "x..%2Fa.jp2",
   "x..", "~", "$HOME", "a.jp2;x", "a%2Ejp2", "a.jp2%0A", "%FF", "%C3", "%ED%A0%80.jp2", "%EF%BB%BFa.jp2", "sub%2Fa.jp2", "deep%2Fy.jp2", "x.jp2", ""})
(* Far down and far up; long names. *)
D(k) == IF k = 0 THEN B("sub%2F") ELSE IF k = 1 THEN B("deep%2F") ELSE B("d") \o B(ToString(k)) \o B("%2F")
Down(n) == FlattenSeq([k \in 1..n |-> D(k - 1)])
Times(n, u) == FlattenSeq([j \in 1..n |-> u])
Far == {Down(n) \o Times(k, u) \o g : n \in {0, 1, 2, 5, 7, 8, 9, 13}, k \in {1, 2, 3, 6, 8, 9, 10, 14, 15, 16}, u \in Toks({"..%2F", "%2e%2e%2F", "..%2F.%2F"}),
          g \in Toks({"secret.jp2", "img%2Fa.jp2", "far.jp2", "a.jp2", "base%2Fsecret.jp2"})}
       \cup {Times(n, u) \o g : n \in {7, 8, 9, 16, 17, 33, 64}, u \in Toks({"sub%2F..%2F", ".%2F", "%2F", "x%2F", "sub%2F"}),
          g \in Toks({"a.jp2", "..%2Fsecret.jp2", "..%2Fa.jp2", "sub%2Fx.jp2"})}
       \cup {Times(n, u) : n \in {100, 255, 256}, u \in Toks({"a", "%C3%A9", "..", "%2E"})}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Words(Base, Depth) \cup Climb \cup Abs \cup Names \cup Far))
=============================================================================
