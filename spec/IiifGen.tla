------------------------------ MODULE IiifGen ------------------------------
(* Exhaustive families of request paths, written out for the real decoder.   *)
EXTENDS Text, Json, IOUtils

Depth == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Toks(S) == {B(s) : s \in S}
Words(T, n) == UNION { {FlattenSeq(w) : w \in [1..k -> T]} : k \in 0..n }

SizeToks   == Toks({"^", "!", "max", "pct:", "0", "1", "50", "101", "4294967295", "4294967296", ",", ".", "-", "x"})
RegionToks == Toks({"pct:", "full", "square", "0", "1", "7", "4294967296", ",", ",1,", "1,2,", ".5", "-", "x"})
RotToks    == Toks({"!", "0", "1", "359", "360", ".", ".5", "-", "+", "e", "inf", "x", "361"})
QfToks     == Toks({"default", "color", "gray", "bitonal", ".", "jpg", "tif", "png", "gif", "jp2", "pdf", "webp", "x", "JPG"})
IdToks     == Toks({"%", "2F", "2f", "%41", "%C3", "%A9", "%ff", "%25", "a", "+", "%00", ".."})

Path(parts) == FoldLeft(LAMBDA acc, p : acc \o <<47>> \o p, <<>>, parts)
id == B("i") re == B("full") si == B("max") ro == B("0") qf == B("default.jpg")

One(pos, w) == Path([k \in 1..5 |-> IF k = pos THEN w ELSE <<id, re, si, ro, qf>>[k]])
Single == {One(1, w) : w \in Words(IdToks, Depth)} \cup {One(2, w) : w \in Words(RegionToks, Depth)}
          \cup {One(3, w) : w \in Words(SizeToks, Depth)} \cup {One(4, w) : w \in Words(RotToks, Depth)}
          \cup {One(5, w) : w \in Words(QfToks, 3)}

(* Structured four-selector regions and sizes around every boundary. *)
Sel == Toks({"0", "1", "10", "4294967295", "4294967296", "", "x", "007"})
SelP == Toks({"0", "0.0", "0.1", "0.4", "33.3333", "100", "120.5", "-1", "", "x"})
Regions4 == {One(2, a \o <<44>> \o b \o <<44>> \o c \o <<44>> \o d) : a, b, c, d \in Sel}
            \cup {One(2, B("pct:") \o a \o <<44>> \o b \o <<44>> \o c \o <<44>> \o d) : a, b, c, d \in SelP}
SizesN == {One(3, p \o q \o a \o <<44>> \o b) : p \in Toks({"", "^"}), q \in Toks({"", "!"}),
              a, b \in Toks({"", "0", "1", "360", "4294967295", "4294967296", "x", "1,1", "007"})}
          \cup {One(3, p \o B("pct:") \o a) : p \in Toks({"", "^", "!", "^!"}),
              a \in Toks({"0", "0.01", "1", "50", "99.9999", "100", "100.0", "100.5", "101", "1000", "0.001", "0.25", "0.4", "0.5", "0.75", "1.5", "99.25", "99.5", "99.75",
                         "99.999", "100.001", "100.1", "100.25", "100.4", "100.49", "100.75", "100.999", "101.5", "200.5", "1e2", "1e3", ".5", "5.", "-1", "", "x", "12.5"})}
Rots == {One(4, p \o a) : p \in Toks({"", "!", "!!"}), a \in Toks({"0", "0.0", "22.5", "90", "180", "359.999",
              "360", "360.0", "360.5", "361", "-1", "-0.5", "", "x", "0.001", "007", "0.25", "0.4", "0.5",
              "0.75", "359.25", "359.5", "359.75", "360.001", "360.1", "360.25", "360.4", "360.75", "720", "3.6e2", ".5", "5."})}

(* Far magnitudes and long digit strings. *)
Far == Toks({"0.000001", "0.0000001", "0.00000011920929", "0.0000000001", "0.00000000000000000001", "0.000000000000000000000000", "000000000000.5", "00000000000000000000000000000000000007",
             "16777217", "33554433.5", "99999999999", "123456789012345678901234567890", "0.333333333333333333333333333333333333", "99.99999", "100.00001",
             "359.99999", "360.00001", "4294967295.5", "18446744073709551616", "65536", "2147483648"})
Fars == {One(3, p \o B("pct:") \o a) : p \in Toks({"", "^"}), a \in Far} \cup {One(4, p \o a) : p \in Toks({"", "!"}), a \in Far}
        \cup {One(2, B("pct:") \o FlattenSeq([k \in 1..4 |-> (IF k = 1 THEN <<>> ELSE <<44>>) \o (IF k = p THEN a ELSE c)])) : p \in 1..4, a \in Far, c \in Toks({"1", "12.5"})}
        \cup {One(2, FlattenSeq([k \in 1..4 |-> (IF k = 1 THEN <<>> ELSE <<44>>) \o (IF k = p THEN a ELSE <<49>>)])) : p \in 1..4, a \in Far}
        \cup {One(3, p \o a \o <<44>>) : p \in Toks({"", "^", "!"}), a \in Far} \cup {One(3, p \o a \o <<44, 55>>) : p \in Toks({"", "^", "^!"}), a \in Far}

(* Several elements at once, each good or faulty; and missing tails. *)
Ids  == Toks({"i", "a%2Fb", "%25", "%ff"})
Res  == Toks({"full", "square", "1,2,3,4", "pct:1,2,3.5,4", "1,2,3", "1,2,0,4", "pct:0,1,1,1", "FULL"})
Sis  == Toks({"max", "^max", "3,", ",4", "^3,4", "!3,4", "^!3,4", "pct:5", "^pct:500", "pct:500", "0,1", ",", "35"})
Ros  == Toks({"0", "!90", "361", "x"})
Qfs  == Toks({"default.jpg", "gray.webp", "color.jp2", "bitonal.tif", "x.jpg", "default.x", "default"})
Multi == {Path(<<a, b, c, d, e>>) : a \in Ids, b \in Res, c \in Sis, d \in Ros, e \in Qfs}
Tails == UNION {{SubSeq(p, 1, k) : k \in 1..Len(p)} : p \in
            {Path(<<B("i"), B("1,2,3,4"), B("^!3,4"), B("!90"), B("gray.png")>>),
             Path(<<B("%C3%A9"), B("pct:1,2,3.5,4"), B("^pct:500"), B("12.5"), B("bitonal.webp")>>)}}
Extra == {Path(<<id, re, si, ro, qf>>) \o x : x \in Toks({"/", "/x", "x", ".png", "//"})}
         \cup {x \o Path(<<id, re, si, ro, qf>>) : x \in Toks({"/", "//", "/x"})}

All == Single \cup Regions4 \cup SizesN \cup Rots \cup Multi \cup Tails \cup Extra \cup Fars
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
=============================================================================
