------------------------------- MODULE Paint -------------------------------
(* What painters mean.  A span is <<y, x0, x1, alpha>>.                     *)
EXTENDS Fixed

Covers(s, x, y) == s[1] = y /\ s[2] <= x /\ x < s[3]

(* floor(a * b / 65535) for 0 <= a, b <= 65535. *)
MulM(a, b) == IF a = 65535 THEN b ELSE IF b = 65535 THEN a ELSE MulDivMod(a, b, 65535)[1]

(* 8-bit value v is the 16-bit value want to within k units of 8-bit rounding. *)
Near8(v, want, k) == Abs(v * 257 - want) <= 257 * k + 4

(* One colour channel, 8 bits before and after; c, ca: the paint's channel  *)
(* and alpha, ma: the span's alpha.                                         *)
OverOK(before, after, c, ca, ma, k) ==
  Near8(after, MulM(before * 257, 65535 - MulM(ca, ma)) + MulM(c, ma), k)
SrcOK(after, c, ma) == Near8(after, MulM(c, ma), 1)

-----------------------------------------------------------------------------
(* Monochrome painting. *)

(* The maximal runs of pixels that are at least half opaque, of an ordered  *)
(* sequence of spans. acc: the runs found so far.                           *)
RECURSIVE MonoRuns(_, _, _)
MonoRuns(ss, i, acc) ==
  IF i > Len(ss) THEN acc
  ELSE LET s == ss[i]
           n == Len(acc)
       IN IF s[4] < 32768 THEN MonoRuns(ss, i + 1, acc)
          ELSE IF n > 0 /\ acc[n][1] = s[1] /\ acc[n][3] = s[2]
          THEN MonoRuns(ss, i + 1, [acc EXCEPT ![n][3] = s[3]])
          ELSE MonoRuns(ss, i + 1, Append(acc, <<s[1], s[2], s[3], 65535>>))

Mono(ss) == MonoRuns(ss, 1, << >>)

RECURSIVE Flat(_, _)
Flat(bs, i) == IF i > Len(bs) THEN << >> ELSE bs[i] \o Flat(bs, i + 1)

(* Exactly the last of a non-empty sequence of done marks is set. *)
OneFinal(d) == Len(d) > 0 /\ \A i \in 1..Len(d) : d[i] = (IF i = Len(d) THEN 1 ELSE 0)
=============================================================================
