----------------------------- MODULE GlyphCheck -----------------------------
(* Judges the answers to glyph queries about a font file.                   *)
EXTENDS Glyph

Hinted(q) == q.a[3] # 0

(* q: the queries [o, a]; ans: their answers.  "" or what is wrong. *)
JudgeFile(f, q, ok, ans) ==
  LET t == Tables(f)
      Sizes == {q[i].a[1] : i \in {i \in DOMAIN q : q[i].o \in {"glyph", "before"} /\ Hinted(q[i])}}
      R == TLCEval([s \in Sizes |-> Ready(EnvOf(f, t, s))])
      Want(x) == IF Hinted(x) THEN Glyph(EnvOf(f, t, x.a[1]), R[x.a[1]], x.a[2], TRUE)
                 ELSE Glyph(EnvOf(f, t, x.a[1]), Start, x.a[2], FALSE)
      V(i) == IF q[i].o = "glyph" THEN GlyphJudge(Want(q[i]), ans[i].g)
              ELSE IF q[i].o = "before" THEN BeforeJudge(Want(q[i]), ans[i].g)
              ELSE ""
      v == TLCEval([i \in DOMAIN q |-> V(i)])
      wrong == {i \in DOMAIN v : v[i] # ""}
  IN IF Verdict(f) # "accept" THEN "generator: not a well-formed font (" \o Verdict(f) \o ")"
     ELSE IF ~ok THEN "a well-formed font was rejected"
     ELSE IF wrong = {} THEN ""
     ELSE LET i == MinOf(wrong) IN "glyph query " \o ToString(q[i]) \o ": " \o v[i]
=============================================================================
