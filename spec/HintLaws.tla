------------------------------ MODULE HintLaws ------------------------------
(* Laws that the specification's instructions obey, checked by TLC over     *)
(* small ranges: rounding, unit vectors, moving a point, interpolation.     *)
EXTENDS Hint
VARIABLES law, a, b, c

M0 == [Start EXCEPT !.res = "run"]

(* Rounding states: those of the instructions, and SROUND's. *)
States == {SetRound(M0, 64, 0, 32), SetRound(M0, 64, 32, 32), SetRound(M0, 32, 0, 16), SetRound(M0, 64, 0, 0),
           SetRound(M0, 64, 0, 63), SetRound(M0, 0, 0, 0)}
Supers == {[Super([M0 EXCEPT !.st = <<k>>], s) EXCEPT !.res = "run"] : k \in 0..255, s \in {TRUE, FALSE}}
\* Plain rounding is odd, keeps multiples of the period (shifted by the phase), moves by no more than a period,
\* and never changes a sign.
RoundLaw(m, x) ==
  LET r == RoundV(m, x)
  IN /\ (m.per = 0 => r = x)
     /\ (m.per > 0 => (r - m.pha) % m.per = 0 \/ (r + m.pha) % m.per = 0)
     /\ (m.per > 0 => Abs(r - x) <= m.per)
     /\ RoundV(m, -x) = (IF x = 0 THEN RoundV(m, 0) ELSE -r)
     /\ (x > 0 => r >= 0)
\* Under any state, a distance does not change its sign, except to a phase.
SuperLaw(m, x) == LET r == RoundV(m, x) IN (x > 0 => r >= Min2(0, m.pha)) /\ (x < 0 => r <= Max2(0, -m.pha))

\* A unit vector's length is one, to within its rounding, and it points the right way.
UnitLaw(x, y) ==
  LET u == Unit(x, y)
      n == (u[1] * u[1]) \div 16384 + (u[2] * u[2]) \div 16384
  IN u = <<0, 0>> \/ (Abs(n - 16384) <= 2 /\ Sign(u[1]) * Sign(x) >= 0 /\ Sign(u[2]) * Sign(y) >= 0)

\* Moving a point by d changes its projection by d, to within the rounding of vectors and coordinates,
\* and moves it along the freedom vector only.
MoveLaw(p, v, d) ==
  LET m == [M0 EXCEPT !.pv = p, !.fv = v]
      dp == ((p[1] * v[1]) + (p[2] * v[2])) \div 16384
      q == Moved(m, <<10, -20, 1, 0, 0>>, d, TRUE)
      got == Dot(q[1] - 10, q[2] + 20, p)
  IN /\ (Abs(dp) >= 4096 => Abs(got - d) <= 2)
     /\ (v[1] = 0 => q[1] = 10 /\ q[4] = 0) /\ (v[2] = 0 => q[2] = -20 /\ q[5] = 0)
     /\ q[3] = 1
Vectors == {Unit(x, y) : x \in {-3, -1, 0, 1, 5}, y \in {-2, 0, 1, 7}} \ {<<0, 0>>}

\* Interpolation between touched points a and b apart in font units: touched points stay, a point between them
\* stays between them, order is kept.
IupLaw(u1, x, u2) ==
  LET raw == <<u1, x, u2>>
      un == [k \in 1..3 |-> raw[k] * 3]
      cur == <<un[1] + 5, un[2], un[3] - 7>>
      P(s, t) == [k \in 1..3 |-> <<s[k], 0, 1, IF t /\ k # 2 THEN 1 ELSE 0, 0>>]
      m == [M0 EXCEPT !.z[2] = [c |-> P(cur, TRUE), u |-> P(un, FALSE), f |-> P(raw, FALSE)], !.ends = <<3>>]
      r == IUP(m, 1, 1).z[2].c
      lo == Min2(cur[1], cur[3])
      hi == Max2(cur[1], cur[3])
  IN /\ r[1][1] = cur[1] /\ r[3][1] = cur[3]
     /\ (Min2(u1, u2) <= x /\ x <= Max2(u1, u2) /\ u1 # u2 /\ Abs(u1 - u2) > 5 => lo <= r[2][1] /\ r[2][1] <= hi)
     /\ (x = u1 /\ u1 < u2 => r[2][1] = cur[1])

Init ==
  \/ /\ law = "round" /\ a \in {0, 1, 2, 3, 4, 5} /\ b \in -200..200 /\ c = 0
  \/ /\ law = "super" /\ a \in 0..255 /\ b \in {-150, -64, -33, -1, 0, 1, 17, 31, 32, 33, 64, 95, 129} /\ c \in {0, 1}
  \/ /\ law = "unit" /\ a \in -25..25 /\ b \in -25..25 /\ c = 0 /\ (a # 0 \/ b # 0)
  \/ /\ law = "move" /\ a \in Vectors /\ b \in Vectors /\ c \in {-300, -64, -1, 0, 1, 7, 64, 1000}
  \/ /\ law = "iup" /\ a \in -12..12 /\ b \in -12..12 /\ c \in -12..12
Next == UNCHANGED <<law, a, b, c>>
RoundOf(k) == CASE k = 0 -> SetRound(M0, 64, 0, 32) [] k = 1 -> SetRound(M0, 64, 32, 32) [] k = 2 -> SetRound(M0, 32, 0, 16)
                [] k = 3 -> SetRound(M0, 64, 0, 0) [] k = 4 -> SetRound(M0, 64, 0, 63) [] k = 5 -> SetRound(M0, 0, 0, 0)
Laws ==
  CASE law = "round" -> RoundLaw(RoundOf(a), b)
    [] law = "super" -> SuperLaw(Super([M0 EXCEPT !.st = <<a>>], c = 1), b)
    [] law = "unit"  -> UnitLaw(a, b)
    [] law = "move"  -> MoveLaw(a, b, c)
    [] law = "iup"   -> IupLaw(a, b, c)
=============================================================================
