------------------------------ MODULE R07Trace ------------------------------
(* R07: gamma correction.                                                   *)
EXTENDS Paint, BigNat, TraceBase

(* y is 65535 * (i/255)^(p/q) to within tol:  y^q 255^p against 65535^q i^p. *)
Tol == 256
PowOK(y, i, p, q) ==
  LET want == BigMul(BigPow(BigOf(65535), q), BigPow(BigOf(i), p))
      d == BigPow(BigOf(255), p)
      side(v) == BigMul(BigPow(BigOf(v), q), d)
  IN /\ y + Tol >= 65535 \/ BigLe(want, side(y + Tol))
     /\ y <= Tol \/ BigLe(side(y - Tol), want)

(* The power is checked at some of the multiples for each event. *)
TableBad(t, p, q, k) ==
  {i \in 0..255 : LET y == t[i + 1] IN
     \/ y < 0 \/ y > 65535
     \/ i = 0 /\ y # 0
     \/ i = 255 /\ y # 65535
     \/ i > 0 /\ y < t[i]
     \/ p = q /\ y # 257 * i
     \/ p # q /\ (i < 4 \/ i > 252 \/ i % 16 = k % 16) /\ ~PowOK(y, i, p, q)}

(* What alpha a becomes, given what the multiples of 257 become. *)
Interp(t, a) ==
  IF a = 65535 THEN 65535
  ELSE LET p == a \div 257  f == a % 257
           n == t[p + 1] * (257 - f) + t[p + 2] * f
       IN (n + 128) \div 257

StepBad(in, got, t, id) ==
  LET flat == Flat(in.batches, 1)
      n == Len(flat)
  IN IF got.dones # in.dones THEN "final marks differ"
     ELSE IF got.batches # [k \in 1..Len(in.batches) |-> Len(in.batches[k])] THEN "batches differ"
     ELSE IF \E i \in 1..n : \E j \in 1..3 : got.spans[i][j] # flat[i][j] THEN "spans differ"
     ELSE LET b == {i \in 1..n : LET a == flat[i][4]  v == got.spans[i][4]
                                     w == IF in.p = in.q \/ a = 0 THEN a ELSE Interp(t, a)
                                 IN IF in.p = in.q \/ a \in {0, 65535} THEN v # w ELSE Abs(v - w) > 1}
          IN IF b # {} THEN "alphas differ at spans " \o ToString(b)
             ELSE LET tb == TableBad(t, in.p, in.q, id)
                  IN IF tb = {} THEN "" ELSE "not the power curve at multiples " \o ToString(tb)

J(e) ==
  LET bads == {k \in 1..Len(e.in.steps) : StepBad(e.in.steps[k], e.out.steps[k], e.out.tables[k], e.k \div 16 + k) # ""}
  IN IF bads = {} THEN ""
     ELSE LET k == CHOOSE k \in bads : \A m \in bads : k <= m
          IN "step " \o ToString(k) \o ": " \o StepBad(e.in.steps[k], e.out.steps[k], e.out.tables[k], e.k \div 16 + k)

Next == Consume(J)
=============================================================================
