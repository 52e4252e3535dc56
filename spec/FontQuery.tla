------------------------------ MODULE FontQuery ------------------------------
(* What a font must answer to a query [o, a].                               *)
EXTENDS Sfnt

Pair32(c) == IF c >= 0 THEN <<c \div 65536, c % 65536>>
             ELSE <<65535 - ((-(c + 1)) \div 65536), 65535 - ((-(c + 1)) % 65536)>>

(* The standard numbers of the names that the package has constants for,    *)
(* from the copyright notice to the sample text.                            *)
NameIds == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 19>>

Expect(f, t, q) ==
  LET u == UnitsPerEm(f, t)
      a == q.a
      S(v) == Scl(a[1], v, u)
  IN CASE q.o = "index" -> <<GlyphIndex(f, t, Pair32(a[1]))>>
       [] q.o = "hm" -> LET m == UHMetric(f, t, a[2]) IN <<S(m[1]), S(m[2])>>
       [] q.o = "vm" -> LET m == UVMetric(f, t, a[2], 0) IN <<S(m[1]), S(m[2])>>
       [] q.o = "kern" -> <<S(UKern(f, t, a[2], a[3]))>>
       [] q.o = "bounds" -> LET b == Box(f, t) IN <<S(b[1]), S(b[2]), S(b[3]), S(b[4])>>
       [] q.o = "name" -> NameOf(f, t, a[1])
       [] q.o = "nameids" -> NameIds
       [] q.o = "upem" -> <<u>>

(* The first query answered wrongly. *)
JudgeAnswers(f, q, out) ==
  LET t == Tables(f)
  IN IF Verdict(f) # "accept" THEN "generator: not a well-formed font (" \o Verdict(f) \o ")"
     ELSE IF out.both THEN "a font and an error, or neither"
     ELSE IF ~out.ok THEN "a well-formed font was rejected"
     ELSE IF ~CmapSorted(f, t) \/ ~KernSorted(f, t) THEN "generator: unsorted"
     ELSE LET bad == {i \in DOMAIN q : out.ans[i].v # Expect(f, t, q[i])}
          IN IF bad = {} THEN ""
             ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                  IN "query " \o ToString(q[i]) \o " answered " \o ToString(out.ans[i].v)
                     \o " but the file says " \o ToString(Expect(f, t, q[i]))

QueryJudge(e) ==
  IF "segs" \in DOMAIN e.in       \* The driver has built the file of an enumerated table.
  THEN JudgeAnswers(e.out.file, e.in.q, e.out.res) ELSE JudgeAnswers(e.in.file, e.in.q, e.out)
=============================================================================
