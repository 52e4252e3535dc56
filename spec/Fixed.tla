------------------------------- MODULE Fixed -------------------------------
(* Integer helpers shared by all modules. TLC integers are 32-bit and raise *)
(* an error on overflow; \div and % round towards minus infinity.           *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* Division rounding towards zero, as Go's and C's "/".  b # 0. *)
DivT(a, b) == IF (a < 0) # (b < 0) THEN -(Abs(a) \div Abs(b))
              ELSE Abs(a) \div Abs(b)

(* Division rounding towards minus infinity for any non-zero divisor. *)
DivF(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b

(* Sum of f over 1..n. *)
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)

(* Quotient and remainder of a * b by c without overflow: 0 <= a, 0 <= b,   *)
(* 0 < c < 2^29, and the quotient fits 31 bits.                             *)
RECURSIVE MulDivMod(_, _, _)
MulDivMod(a, b, c) ==
  IF a <= 46340 /\ b <= 46340 THEN <<(a * b) \div c, (a * b) % c>>
  ELSE IF a < b THEN MulDivMod(b, a, c)
  ELSE LET h == MulDivMod(a \div 2, b, c)
           odd == a % 2 = 1
           q == 2 * h[1] + (IF odd THEN b \div c ELSE 0)
           r == 2 * h[2] + (IF odd THEN b % c ELSE 0)
       IN <<q + r \div c, r % c>>

(* floor(a * b / c) for a >= 0, c > 0 and any b. *)
MulDivF(a, b, c) ==
  IF b >= 0 THEN MulDivMod(a, b, c)[1]
  ELSE LET m == MulDivMod(a, -b, c) IN IF m[2] = 0 THEN -m[1] ELSE -m[1] - 1

(* Integer square root, rounded down, of 0 <= n < 2^31. *)
RECURSIVE ISqrtFrom(_, _, _)
ISqrtFrom(n, lo, hi) ==      \* lo^2 <= n < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtFrom(n, m, hi) ELSE ISqrtFrom(n, lo, m)
ISqrt(n) == IF n >= 46340 * 46340 THEN 46340 ELSE ISqrtFrom(n, 0, 46341)

Img(f) == {f[x] : x \in DOMAIN f}
=============================================================================
