------------------------------- MODULE Stroke -------------------------------
(* What stroking means: a band around the path. Distances are in 1/64       *)
(* pixels; the vectors involved stay below 2^12.                            *)
EXTENDS Raster, FiniteSets

Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
(* Eight times the length of v. *)
Len8(v) == LET n == Dot(v, v) IN IF n <= 33000000 THEN ISqrt(64 * n) ELSE 8 * ISqrt(n)

(* A segment: [a, b, d (vector), l (8 * length)]. *)
Seg(a, b) == [a |-> a, b |-> b, d |-> Sub(b, a), l |-> Len8(Sub(b, a))]
Along(s, p) == (8 * Dot(Sub(p, s.a), s.d)) \div s.l
Perp(s, p) == Abs(8 * Cross(Sub(p, s.a), s.d)) \div s.l
SegLen(s) == s.l \div 8
Near(p, q, r) == r >= 0 /\ Dot(Sub(p, q), Sub(p, q)) <= r * r

(* Is p inside the triangle a b c, at least m away from its sides? *)
InTriangle(p, a, b, c, m) ==
  LET o == Sign(Cross(Sub(b, a), Sub(c, a)))
      side(u, v) == LET l == Len8(Sub(v, u)) IN
                    l > 0 /\ (8 * o * Cross(Sub(v, u), Sub(p, u))) \div l >= m
  IN o # 0 /\ side(a, b) /\ side(b, c) /\ side(c, a)

(* The normal of a segment, of the given length, to the left of it. *)
Normal(s, hw) == <<DivT(8 * s.d[2] * hw, s.l), DivT(-8 * s.d[1] * hw, s.l)>>

(* ss: the segments of a polyline; hw: half the width; cap: "round", "butt" *)
(* or "square"; joins: "round" or "bevel"; m: margin.                       *)
(* Points that the stroke must cover: ...                                   *)
Must(ss, p, hw, cap, join, m) ==
  LET n == Len(ss)
      ext(i, atEnd) == IF cap = "square" /\ (IF atEnd THEN i = n ELSE i = 1) THEN hw ELSE 0
  IN \/ \E i \in 1..n : LET al == Along(ss[i], p) IN
          /\ Perp(ss[i], p) <= hw - m
          /\ al >= m - ext(i, FALSE)
          /\ al <= SegLen(ss[i]) + ext(i, TRUE) - m
     \/ cap = "round" /\ (Near(p, ss[1].a, hw - m) \/ Near(p, ss[n].b, hw - m))
     \/ join = "round" /\ \E i \in 2..n : Near(p, ss[i].a, hw - m)
     \/ \E i \in 2..n :
          LET u == Normal(ss[i - 1], hw)
              v == Normal(ss[i], hw)
              c == ss[i].a
              o == IF Cross(ss[i - 1].d, ss[i].d) > 0 THEN 1 ELSE -1
          IN InTriangle(p, c, <<c[1] + o * u[1], c[2] + o * u[2]>>, <<c[1] + o * v[1], c[2] + o * v[2]>>, m)

(* The same for the polyline of a gently curved path, with its short        *)
(* segments: only the two ends, and the corners that are not round, need a  *)
(* margin along the path. corners: the numbers of the segments after which  *)
(* there is such a corner.                                                  *)
MustCurve(ss, p, hw, cap, m, corners) ==
  LET n == Len(ss)
      ext == IF cap = "square" THEN hw ELSE 0
      inside == Along(ss[1], p) >= m - ext /\ Along(ss[n], p) <= SegLen(ss[n]) + ext - m
  IN \/ inside /\ corners = {} /\ \E i \in 2..n : Near(p, ss[i].a, hw - m)
     \/ inside /\ \E i \in 1..n :
          /\ Perp(ss[i], p) <= hw - m
          /\ (i = 1 \/ Along(ss[i], p) >= IF i - 1 \in corners THEN m ELSE 0)
          /\ (i = n \/ Along(ss[i], p) <= SegLen(ss[i]) - IF i \in corners THEN m ELSE 0)
     \/ cap = "round" /\ (Near(p, ss[1].a, hw - m) \/ Near(p, ss[n].b, hw - m))

(* ... and points that it may cover. *)
May(ss, p, hw, cap, join, m) ==
  LET n == Len(ss)
      ext(i, atEnd) == IF cap = "square" /\ (IF atEnd THEN i = n ELSE i = 1) THEN hw ELSE 0
  IN \/ \E i \in 1..n : LET al == Along(ss[i], p) IN
          /\ Perp(ss[i], p) <= hw + m
          /\ al >= -m - ext(i, FALSE)
          /\ al <= SegLen(ss[i]) + ext(i, TRUE) + m
     \/ cap = "round" /\ (Near(p, ss[1].a, hw + m) \/ Near(p, ss[n].b, hw + m))
     \/ \E i \in 2..n : Near(p, ss[i].a, hw + m)
=============================================================================
