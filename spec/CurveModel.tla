---------------------------- MODULE CurveModel ----------------------------
(* Design model of curve flattening: for control points on a coarse grid,   *)
(* every point of the curve (sampled at 64ths of its parameter) is within   *)
(* the tolerance (in 1/64 pixel) of the polyline that the specification     *)
(* prescribes, and the polyline ends at the end point.                      *)
(* Design = "code" is what is specified; TLC refutes a curve cut into       *)
(* eight times fewer pieces ("coarse").                                     *)
EXTENDS Raster, TLC
CONSTANTS Design, Tol, Kl
Grid == {-1000, -300, 130, 900}
VARIABLES kind, b, c, a
Init == /\ kind = "none"
        /\ a \in Grid \X Grid /\ b \in Grid \X Grid /\ c = <<0, 0>>
Next == /\ kind = "none"
        /\ \/ kind' = "Q" /\ c' = c
           \/ kind' = "C" /\ c' \in Grid \X Grid
        /\ UNCHANGED <<a, b>>
K == IF Design = "coarse" THEN Kl + 6 ELSE Kl
D == <<0, 0>>      \* the end point: the flattening is checked relative to it
Poly == <<a>> \o (IF kind = "Q" THEN Quad(a, b, D, NSplit2(a, b, D, K))
                  ELSE Cubic(a, b, c, D, NSplit3(a, b, c, D, K)))
(* Curve point at t = j/16, rounded. *)
At(j) == [k \in 1..2 |->
  IF kind = "Q" THEN ((16 - j) * (16 - j) * a[k] + 2 * j * (16 - j) * b[k]) \div 256
  ELSE ((16 - j) * (16 - j) * (16 - j) * a[k] + 3 * j * (16 - j) * (16 - j) * b[k]
        + 3 * j * j * (16 - j) * c[k]) \div 4096]
(* Is p within Tol of the segment u-v?  By the foot of the perpendicular, rounded. *)
NearSeg(p, u, v) ==
  LET dx == v[1] - u[1]  dy == v[2] - u[2]
      l2 == dx * dx + dy * dy
      t == Clamp((p[1] - u[1]) * dx + (p[2] - u[2]) * dy, 0, l2)
      f == IF l2 = 0 THEN u ELSE <<u[1] + MulDivF(t, dx, l2), u[2] + MulDivF(t, dy, l2)>>
      ex == p[1] - f[1]  ey == p[2] - f[2]
  IN ex * ex + ey * ey <= Tol * Tol
Within == kind # "none" => LET P == Poly IN \A j \in 1..15 : \E i \in 1..(Len(P) - 1) : NearSeg(At(j), P[i], P[i + 1])
EndsThere == kind # "none" => LET P == Poly IN P[Len(P)] = D
=============================================================================
