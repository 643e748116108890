------------------------------ MODULE Wavelet -------------------------------
(* ITU-T T.800 Annex F (reversible 5-3) and Annex G (RCT, level shift).      *)
(* A plane is [r |-> rectangle, d |-> rows], rows[y+1][x+1] relative to r.   *)
EXTENDS Geometry

Mirror(i, n) == IF n = 1 THEN 0 ELSE LET m == i % (2 * (n - 1)) IN IF m < n THEN m ELSE 2 * (n - 1) - m

\* One dimension: s has indices p, p+1, .. (only the parity of p matters)
Inv1(s, par) ==
  LET n == Len(s)
      p == par % 2
  IN IF n = 0 THEN s
     ELSE IF n = 1 THEN IF p = 0 THEN s ELSE <<s[1] \div 2>>
     ELSE LET X(i) == s[Mirror(i, n) + 1]
              ev == TLCEval([k \in 1..n |-> IF (k - 1 + p) % 2 = 0
                                    THEN s[k] - ((X(k - 2) + X(k) + 2) \div 4) ELSE s[k]])
              E(i) == ev[Mirror(i, n) + 1]
          IN TLCEval([k \in 1..n |-> IF (k - 1 + p) % 2 = 0 THEN ev[k] ELSE s[k] + ((E(k - 2) + E(k)) \div 2)])

Fwd1(s, par) ==
  LET n == Len(s)
      p == par % 2
  IN IF n = 0 THEN s
     ELSE IF n = 1 THEN IF p = 0 THEN s ELSE <<2 * s[1]>>
     ELSE LET X(i) == s[Mirror(i, n) + 1]
              od == TLCEval([k \in 1..n |-> IF (k - 1 + p) % 2 = 1
                                    THEN s[k] - ((X(k - 2) + X(k)) \div 2) ELSE s[k]])
              O(i) == od[Mirror(i, n) + 1]
          IN TLCEval([k \in 1..n |-> IF (k - 1 + p) % 2 = 1 THEN od[k] ELSE s[k] + ((O(k - 2) + O(k) + 2) \div 4)])

Transpose(d, w) == [x \in 1..w |-> [y \in 1..Len(d) |-> d[y][x]]]

\* Interleave the four bands of a resolution with rectangle rr, then synthesise
Synthesise(ll, hl, lh, hh, rr) ==
  LET w == Wd(rr)
      h == Ht(rr)
      Pick(x, y) == LET bx == (x + rr.x0) % 2
                        by == (y + rr.y0) % 2
                        b == IF by = 0 THEN IF bx = 0 THEN ll ELSE hl ELSE IF bx = 0 THEN lh ELSE hh
                        \* index within the band of the sample at rr.x0 + x
                        kx == (rr.x0 + x - bx) \div 2 - b.r.x0
                        ky == (rr.y0 + y - by) \div 2 - b.r.y0
                    IN b.d[ky + 1][kx + 1]
      hor == TLCEval([y \in 1..h |-> Inv1(TLCEval([x \in 1..w |-> Pick(x - 1, y - 1)]), rr.x0)])
      ver == TLCEval([x \in 1..w |-> Inv1(TLCEval([y \in 1..h |-> hor[y][x]]), rr.y0)])
  IN [r |-> rr, d |-> TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> ver[x][y]])])]

\* One level of analysis of plane a, keeping the low band only or all four
Analyse(a) ==
  LET rr == a.r
      w == Wd(rr)
      h == Ht(rr)
      ver == TLCEval([x \in 1..w |-> Fwd1(TLCEval([y \in 1..h |-> a.d[y][x]]), rr.y0)])
      hor == TLCEval([y \in 1..h |-> Fwd1(TLCEval([x \in 1..w |-> ver[x][y]]), rr.x0)])
      Band(ox, oy) ==
        LET b == Rect(CeilDiv(rr.x0 - ox, 2), CeilDiv(rr.y0 - oy, 2), CeilDiv(rr.x1 - ox, 2), CeilDiv(rr.y1 - oy, 2))
        IN [r |-> b, d |-> TLCEval([y \in 1..Ht(b) |-> TLCEval([x \in 1..Wd(b) |->
                             hor[2 * (b.y0 + y - 1) + oy - rr.y0 + 1][2 * (b.x0 + x - 1) + ox - rr.x0 + 1]])])]
  IN [ll |-> Band(0, 0), hl |-> Band(1, 0), lh |-> Band(0, 1), hh |-> Band(1, 1)]

RECURSIVE LowPass(_, _)
LowPass(a, n) == IF n = 0 THEN a ELSE LowPass(Analyse(a).ll, n - 1)

MapPlane(a, f(_)) == [r |-> a.r, d |-> TLCEval([y \in 1..Len(a.d) |-> TLCEval([x \in 1..Len(a.d[y]) |-> f(a.d[y][x])])])]
Zip3(a, b, c, f(_, _, _)) ==
  [r |-> a.r, d |-> TLCEval([y \in 1..Len(a.d) |-> TLCEval([x \in 1..Len(a.d[y]) |-> f(a.d[y][x], b.d[y][x], c.d[y][x])])])]

\* Reversible component transform, Annex G.2
FwdRct(a, b, c) == <<Zip3(a, b, c, LAMBDA r, g, bl : (r + 2 * g + bl) \div 4),
                     Zip3(a, b, c, LAMBDA r, g, bl : bl - g),
                     Zip3(a, b, c, LAMBDA r, g, bl : r - g)>>
InvRct(y, u, v) == LET g == Zip3(y, u, v, LAMBDA p, q, s : p - ((q + s) \div 4))
                   IN <<Zip3(v, g, g, LAMBDA p, q, s : p + q), g, Zip3(u, g, g, LAMBDA p, q, s : p + q)>>

\* DC level shift of a component with precision prec
Shift(cmp) == IF cmp.sgnd = 1 THEN 0 ELSE 2^(cmp.prec - 1)
Clamp(v, cmp) == IF cmp.sgnd = 1 THEN Max2(-(2^(cmp.prec - 1)), Min2(2^(cmp.prec - 1) - 1, v))
                 ELSE Max2(0, Min2(2^cmp.prec - 1, v))
=============================================================================
