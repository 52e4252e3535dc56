------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: sequences of limbs, base 10000, least       *)
(* significant first, no leading zero limbs (zero is the empty sequence).   *)
EXTENDS Integers, Sequences
Base == 10000

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o BigOf(n \div Base)

RECURSIVE BigAddC(_, _, _, _)
BigAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE <<c>>)
  ELSE LET s == (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0) + c
       IN <<s % Base>> \o BigAddC(a, b, i + 1, s \div Base)
BigAdd(a, b) == BigAddC(a, b, 1, 0)

RECURSIVE BigMulC(_, _, _, _)     \* a times one limb d
BigMulC(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % Base>> \o BigMulC(a, d, i + 1, s \div Base)
BigMul1(a, d) == IF d = 0 THEN << >> ELSE BigMulC(a, d, 1, 0)

RECURSIVE BigMulFrom(_, _, _)
BigMulFrom(a, b, j) ==
  IF j > Len(b) THEN << >>
  ELSE LET rest == BigMulFrom(a, b, j + 1)
           sh == IF rest = << >> THEN << >> ELSE <<0>> \o rest
       IN BigAdd(BigMul1(a, b[j]), sh)
BigMul(a, b) == BigMulFrom(a, b, 1)

RECURSIVE BigPow(_, _)
BigPow(a, n) == IF n = 0 THEN <<1>> ELSE BigMul(a, BigPow(a, n - 1))

RECURSIVE BigLeFrom(_, _, _)
BigLeFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BigLeFrom(a, b, i - 1)
BigLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BigLeFrom(a, b, Len(a))
=============================================================================
