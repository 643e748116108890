----------------------------- MODULE IiifRequest -----------------------------
(* Decoding of IIIF Image API 3.0 image-request paths:                       *)
(*     /{identifier}/{region}/{size}/{rotation}/{quality}.{format}           *)
(* as a machine that consumes one path element per step, in path order, and  *)
(* stops at the first offending one.  Zones where the standard is silent and *)
(* a reader may be lenient (LenientNumber) admit several verdicts.           *)
EXTENDS Text

MaxU32 == Dec(B("4294967295"), <<>>)

\* ---- numbers -------------------------------------------------------------
(* u32: [t |-> "num", v] | [t |-> "bad"] | [t |-> "lenient", v]              *)
ReadU32(s) ==
  LET u == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s
  IN IF u = <<>> \/ ~AllDigits(u) \/ DecCmp(Dec(u, <<>>), MaxU32) > 0 THEN [t |-> "bad"]
     ELSE [t |-> IF u = s THEN "num" ELSE "lenient", v |-> Dec(u, <<>>)]

(* f32: additionally "neg" for a plain negative number.  Literals a single   *)
(* precision float cannot hold to six digits are lenient.                    *)
InRange(v) == v.d = <<>> \/ v.e \in -35..38
ReadF32(s) ==
  IF IsPlainDec(s)
  THEN IF InRange(PlainDec(s)) THEN [t |-> "num", v |-> PlainDec(s)] ELSE [t |-> "lenient"]
  ELSE IF s # <<>> /\ s[1] = 45 /\ IsPlainDec(Tail(s)) /\ PlainDec(Tail(s)).d # <<>>
            /\ InRange(PlainDec(Tail(s)))
       THEN [t |-> "neg", v |-> PlainDec(Tail(s))]
  ELSE IF NumberLike(s) THEN [t |-> "lenient"]
  ELSE [t |-> "bad"]

Six(v) == [v EXCEPT !.d = SubSeq(@, 1, IF Len(@) < 6 THEN Len(@) ELSE 6)]
(* Is v within rounding distance of bound b? *)
Near(v, b) ==
  /\ Len(v.d) > 6
  /\ \/ StripR(Six(v).d) = b.d /\ v.e = b.e
     \/ v.e = b.e - 1 /\ b.d = <<1>> /\ Six(v).d = <<9,9,9,9,9,9>>
     \/ v.e = b.e /\ Len(b.d) = 2 /\ Six(v).d = <<b.d[1], b.d[2] - 1, 9, 9, 9, 9>>
AtMost(v, n) == LET b == DecOfNat(n)
                IN IF Near(v, b) THEN "maybe" ELSE IF DecCmp(v, b) <= 0 THEN "yes" ELSE "no"

\* ---- element readers: each gives the SET of admissible results -----------
Ok(x)        == [ok |-> TRUE, v |-> x]
Bad(k, s)    == [ok |-> FALSE, kind |-> k, input |-> s, index |-> 0, name |-> ""]
BadI(k, s, i) == [ok |-> FALSE, kind |-> k, input |-> s, index |-> i, name |-> ""]
Missing(n)   == [ok |-> FALSE, kind |-> "Missing", input |-> <<>>, index |-> 0, name |-> n]

(* One region selector, position i in 1..4. *)
Selector(pct, s, i) ==
  LET r == IF pct THEN ReadF32(s) ELSE ReadU32(s)
      unp == BadI("RegionUnparsable", s, i)
      oob == BadI(IF pct THEN "RegionPctBounds" ELSE "RegionBounds", s, i)
  IN CASE r.t = "bad" -> {unp}
       [] r.t = "neg" -> {oob}
       [] r.t = "num" /\ ~pct -> IF r.v.d = <<>> /\ i > 2 THEN {oob} ELSE {Ok(r.v)}
       [] r.t = "num" /\ pct  -> IF r.v.d = <<>> THEN {oob} ELSE {Ok(r.v)}
       [] r.t = "lenient" -> {unp, oob, Ok([d |-> <<-1>>, e |-> 0])}

RECURSIVE Selectors(_, _, _, _, _)
Selectors(pct, whole, parts, i, acc) ==
  IF i = 5 THEN IF Len(parts) > 4 THEN {Bad("RegionCount", whole)}
                ELSE {Ok(<<IF pct THEN "pct" ELSE "abs">> \o acc)}
  ELSE IF i > Len(parts) THEN {Bad("RegionCount", whole)}
  ELSE UNION { IF r.ok THEN Selectors(pct, whole, parts, i + 1, Append(acc, r.v)) ELSE {r} :
                 r \in Selector(pct, parts[i], i) }

Region(s) ==
  CASE s = B("full") -> {Ok(<<"full">>)}
    [] s = B("square") -> {Ok(<<"square">>)}
    [] HasPrefix(s, B("pct:")) ->
         LET t == Drop(s, 4) IN Selectors(TRUE, t, SplitOn(t, 44), 1, <<>>)
    [] OTHER -> Selectors(FALSE, s, SplitOn(s, 44), 1, <<>>)

Px(s) == LET r == ReadU32(s) IN
  CASE r.t = "bad" -> {Bad("SizeUnparsable", s)}
    [] r.t = "num" -> IF r.v.d = <<>> THEN {Bad("SizeBounds", s)} ELSE {Ok(r.v)}
    [] OTHER -> {Bad("SizeUnparsable", s), Bad("SizeBounds", s), Ok([d |-> <<-1>>, e |-> 0])}

Nothing == [d |-> <<>>, e |-> 0]        \* an omitted dimension
Size(s0) ==
  LET up == s0 # <<>> /\ s0[1] = 94
      s  == IF up THEN Tail(s0) ELSE s0
      R(x) == Ok([up |-> up, scale |-> x])
  IN IF s = B("max") THEN {R(<<"max">>)}
     ELSE IF HasPrefix(s, B("pct:"))
     THEN LET t == Drop(s, 4) r == ReadF32(t)
              unp == Bad("SizePctUnparsable", t) oob == Bad("SizePctBounds", t)
          IN CASE r.t = "bad" -> {unp}
               [] r.t = "neg" -> {oob}
               [] r.t = "num" ->
                    IF r.v.d = <<>> THEN {oob}
                    ELSE IF up THEN {R(<<"pct", r.v>>)}
                    ELSE CASE AtMost(r.v, 100) = "yes" -> {R(<<"pct", r.v>>)}
                           [] AtMost(r.v, 100) = "no" -> {oob}
                           [] OTHER -> {oob, R(<<"pct", r.v>>)}
               [] OTHER -> {unp, oob, R(<<"pct", [d |-> <<-1>>, e |-> 0]>>)}
     ELSE LET keep == s # <<>> /\ s[1] = 33
              t == IF keep THEN Tail(s) ELSE s
              k == IndexOf(t, 44)
              w == SubSeq(t, 1, k - 1) h == Drop(t, k)
          IN IF t = B(",") THEN {Bad("SizeNoDims", t)}
             ELSE IF k = 0 THEN {Bad("SizeNoComma", t)}
             ELSE UNION { IF ~a.ok THEN {a}
                          ELSE { IF ~b.ok THEN b
                                 ELSE R(<<IF keep THEN "aspect" ELSE "fixed", a.v, b.v>>) :
                                 b \in IF h = <<>> /\ ~keep THEN {Ok(Nothing)} ELSE Px(h) } :
                          a \in IF w = <<>> /\ ~keep THEN {Ok(Nothing)} ELSE Px(w) }

Rotation(s0) ==
  LET mir == s0 # <<>> /\ s0[1] = 33
      s == IF mir THEN Tail(s0) ELSE s0
      r == ReadF32(s)
      unp == Bad("RotUnparsable", s) oob == Bad("RotBounds", s)
      R(v) == Ok([mirror |-> mir, deg |-> v])
  IN CASE r.t = "bad" -> {unp}
       [] r.t = "neg" -> {oob}
       [] r.t = "num" -> CASE AtMost(r.v, 360) = "yes" -> {R(r.v)}
                           [] AtMost(r.v, 360) = "no" -> {oob}
                           [] OTHER -> {oob, R(r.v)}
       [] OTHER -> {unp, oob, R([d |-> <<-1>>, e |-> 0])}

Qualities == {"color", "gray", "bitonal", "default"}
Formats   == {"jpg", "tif", "png", "gif", "jp2", "pdf", "webp"}
Mime == [jpg |-> "image/jpeg", tif |-> "image/tiff", png |-> "image/png", gif |-> "image/gif",
         jp2 |-> "image/jp2", pdf |-> "application/pdf", webp |-> "image/webp"]
QualityFormat(s) ==
  LET k == IndexOf(s, 46)
      q == SubSeq(s, 1, k - 1) f == Drop(s, k)
  IN IF k = 0 THEN {Missing("format")}
     ELSE IF ~\E x \in Qualities : B(x) = q THEN {Bad("Quality", q)}
     ELSE IF ~\E x \in Formats : B(x) = f THEN {Bad("Format", f)}
     ELSE {Ok([q |-> CHOOSE x \in Qualities : B(x) = q, f |-> CHOOSE x \in Formats : B(x) = f])}

Identifier(s) == IF Utf8(PctDecode(s)) THEN {Ok(PctDecode(s))} ELSE {[Missing("identifier") EXCEPT !.kind = "NotUtf8"]}

Stages == <<"identifier", "region", "size", "rotation", "quality">>
Reader(n, s) == CASE n = 1 -> Identifier(s) [] n = 2 -> Region(s) [] n = 3 -> Size(s)
                  [] n = 4 -> Rotation(s) [] n = 5 -> QualityFormat(s)

\* ---- the machine ---------------------------------------------------------
(* A decoding state: stage (1..6), remaining elements, values read, verdict. *)
Start(path) == [stage |-> 1, rest |-> Tail(SplitOn(path, 47)), vals |-> <<>>,
                done |-> FALSE, bad |-> [ok |-> TRUE]]
(* The element sits in its place; what follows the fifth element is ignored  *)
(* (a deliberate deviation of the server, recorded in DESIGN.md).            *)
Steps(st) ==
  IF st.rest = <<>> THEN {[st EXCEPT !.done = TRUE, !.bad = Missing(Stages[st.stage])]}
  ELSE { IF r.ok THEN [st EXCEPT !.stage = @ + 1, !.rest = Tail(@), !.vals = Append(@, r.v),
                                 !.done = st.stage = 5]
         ELSE [st EXCEPT !.done = TRUE, !.bad = r] : r \in Reader(st.stage, Head(st.rest)) }

\* ---- what the client is told ---------------------------------------------
SelName == <<"x", "y", "width", "height">>
Q(s) == B("'") \o s \o B("'")
(* Canonical text of a decimal (as a float prints). *)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<48>> \o Zeros(n - 1)
Txt(d) == [k \in 1..Len(d) |-> d[k] + 48]
DecText(v) == IF v.d = <<>> THEN B("0")
              ELSE IF v.e <= 0 THEN B("0.") \o Zeros(-v.e) \o Txt(v.d)
              ELSE IF Len(v.d) <= v.e THEN Txt(v.d) \o Zeros(v.e - Len(v.d))
              ELSE Txt(SubSeq(v.d, 1, v.e)) \o B(".") \o Txt(Drop(v.d, v.e))
(* Texts by which an offending number may be quoted: as written or normalised. *)
Quotes(s) == LET r == ReadF32(s) IN
  {Q(s)} \cup (IF r.t = "num" THEN {Q(DecText(r.v))}
               ELSE IF r.t = "neg" /\ Len(r.v.d) <= 6 THEN {Q(B("-") \o DecText(r.v))} ELSE {})
LooseQuote(s) == ReadF32(s).t = "lenient" \/ (ReadF32(s).t = "neg" /\ Len(ReadF32(s).v.d) > 6)

Sandwich(msg, a, c) == HasPrefix(msg, a) /\ HasSuffix(msg, c) /\ Len(msg) >= Len(a) + Len(c)
MessageOk(msg, b) ==
  LET Say(a, c) == \/ \E q \in (IF b.kind \in {"RegionBounds", "RegionPctBounds"} THEN Quotes(b.input) ELSE {Q(b.input)}) :
                        msg = a \o q \o c
                   \/ b.kind = "RegionPctBounds" /\ LooseQuote(b.input) /\ Sandwich(msg, a, c)
      nm == IF b.index = 0 THEN <<>> ELSE B(SelName[b.index])
  IN CASE b.kind = "Missing" -> msg = B("Request path missing ") \o B(b.name) \o B(".")
       [] b.kind = "NotUtf8" -> msg = B("Request path ") \o B(b.name) \o B(" was not in UTF-8.")
       [] b.kind = "RegionUnparsable" -> Say(B("Region ") \o nm \o B(" "),
            B(" could not be parsed (expected integer for standard requests, float for pct: requests)."))
       [] b.kind = "RegionBounds" -> Say(B("Region ") \o nm \o B(" "),
            B(" out of bounds: width and height must be greater than 0."))
       [] b.kind = "RegionPctBounds" -> Say(B("Region ") \o nm \o B(" percentage "),
            B(" out of bounds: must be greater than 0."))
       [] b.kind = "RegionCount" -> Say(B("Region must include exactly 4 selectors x,y,w,h (received "), B(")."))
       [] b.kind = "SizeNoComma" -> Say(B("Size must include a comma to separate dimensions (received "), B(")."))
       [] b.kind = "SizeNoDims" -> Say(B("Size must include at least one dimension (received "), B(")."))
       [] b.kind = "SizeUnparsable" -> Say(B("Size dimension "), B(" could not be parsed (expected integer)."))
       [] b.kind = "SizePctUnparsable" -> Say(B("Size percentage "), B(" could not be parsed (expected integer or float)."))
       [] b.kind = "SizeBounds" -> Say(B("Size dimension "), B(" out of bounds: must be at least 1."))
       [] b.kind = "SizePctBounds" -> Say(B("Size percentage "),
            B(" out of bounds: must be greater than 0 if upscaling is requested, or (0.0, 100.0] otherwise."))
       [] b.kind = "RotUnparsable" -> Say(B("Rotation "), B(" could not be parsed (expected integer or float)."))
       [] b.kind = "RotBounds" -> Say(B("Rotation must be [0.0, 360.0], but was "), B("."))
       [] b.kind = "Quality" -> Say(B("Unrecognised quality "), B("."))
       [] b.kind = "Format" -> Say(B("Unrecognised format "), B("."))

\* ---- does an observed value equal a specified one? -----------------------
(* obs is the decimal text of a reported number. *)
SameNum(v, obs) ==
  \/ v.d = <<-1>>                                    \* lenient zone: unconstrained
  \/ /\ IsPlainDec(obs)
     /\ LET o == PlainDec(obs) IN
          \/ o = v
          \/ Len(v.d) > 6 /\ o.e \in (v.e - 1)..(v.e + 1) /\
             LET a == Six(v) b == Six(o)
                 N(x) == FoldLeft(LAMBDA acc, y : 10 * acc + y, 0, x.d \o [j \in 1..(6 - Len(x.d)) |-> 0])
             IN \/ v.e = o.e /\ N(a) - N(b) \in -1..1
                \/ v.e + 1 = o.e /\ N(a) = 999999 /\ N(b) = 100000
SameInt(v, obs) == v.d = <<-1>> \/ (AllDigits(obs) /\ obs # <<>> /\ Dec(obs, <<>>) = v)
SameDim(v, obs) == IF v = Nothing THEN obs = <<>> ELSE SameInt(v, obs)

(* obs: [ok, id, region, upscale, scale, degrees, mirror, quality, format, mime] with *)
(* every number and text as bytes, names as strings.                                  *)
RegionMatches(v, o) ==
  /\ v[1] = o.k
  /\ CASE v[1] = "abs" -> \A k \in 1..4 : SameInt(v[k+1], o.n[k])
       [] v[1] = "pct" -> \A k \in 1..4 : SameNum(v[k+1], o.n[k])
       [] OTHER -> TRUE
ScaleMatches(v, o) ==
  /\ v[1] = o.k
  /\ CASE v[1] = "pct" -> SameNum(v[2], o.n[1])
       [] v[1] = "fixed" -> SameDim(v[2], o.n[1]) /\ SameDim(v[3], o.n[2])
       [] v[1] = "aspect" -> SameInt(v[2], o.n[1]) /\ SameInt(v[3], o.n[2])
       [] OTHER -> TRUE
ValuesMatch(vals, o) ==
  /\ o.id = vals[1]
  /\ RegionMatches(vals[2], o.region)
  /\ o.upscale = vals[3].up /\ ScaleMatches(vals[3].scale, o.scale)
  /\ o.mirror = vals[4].mirror /\ SameNum(vals[4].deg, o.degrees)
  /\ o.quality = vals[5].q /\ o.format = vals[5].f /\ o.mime = Mime[vals[5].f]
=============================================================================
