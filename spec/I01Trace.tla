------------------------------ MODULE I01Trace ------------------------------
(* I01: users that share one parsed font get what they get alone and what   *)
(* the specification says, however their operations interleave, and the     *)
(* font's bytes stay as they were.                                          *)
EXTENDS GlyphCheck, FontQuery, TraceBase
J(e) ==
  LET o == e.out
      f == o.file
      t == Tables(f)
      A == o.ans
      Sizes == {A[k].q.a[1] : k \in {k \in DOMAIN A : A[k].q.o = "glyph" /\ Hinted(A[k].q)}}
      R == [s \in Sizes |-> Ready(EnvOf(f, t, s))]
      Want(a) == IF Hinted([a |-> a]) THEN Glyph(EnvOf(f, t, a[1]), R[a[1]], a[2], TRUE)
                 ELSE Glyph(EnvOf(f, t, a[1]), Start, a[2], FALSE)
      V(k) == LET q == A[k].q
              IN IF q.o = "glyph" THEN GlyphJudge(Want(q.a), A[k].ans.g)
                 ELSE IF A[k].ans.v = Expect(f, t, q) THEN "" ELSE "answered " \o ToString(A[k].ans.v)
      wrong == {k \in DOMAIN A : V(k) # ""}
      Users == DOMAIN o.alone
      badConc == {u \in Users : \E k \in DOMAIN o.conc[u] : o.conc[u][k] # o.alone[u]}
  IN IF Verdict(f) # "accept" THEN "generator: not a well-formed font"
     ELSE IF o.before # o.after THEN "the font's bytes have changed"
     ELSE IF o.turns # o.alone THEN "taking turns, " \o ToString({u \in Users : o.turns[u] # o.alone[u]}) \o " do not get what they get alone"
     ELSE IF badConc # {} THEN "running at the same time, " \o ToString(badConc) \o " do not get what they get alone"
     ELSE IF o.later # o.alone THEN "afterwards, " \o ToString({u \in Users : o.later[u] # o.alone[u]}) \o " do not get what they got alone"
     ELSE IF wrong = {} THEN ""
     ELSE LET k == MinOf(wrong) IN "query " \o ToString(A[k].q) \o ": " \o V(k)
Next == Consume(J)
=============================================================================
