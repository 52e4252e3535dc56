------------------------------ MODULE HistTrace -----------------------------
(* G02, H03: loads through one glyph buffer give what the specification,    *)
(* which knows no history, gives, and what a fresh buffer gives.            *)
EXTENDS GlyphCheck, TraceBase
J(e) ==
  LET F == e.out.files
      T == TLCEval([i \in DOMAIN F |-> Tables(F[i])])
      L == e.out.loads
      Size(x) == e.out.scales[x[1]][x[2]]
      Env(x) == EnvOf(F[x[1]], T[x[1]], Size(x))
      Keys == {<<L[k].f, L[k].s>> : k \in {k \in DOMAIN L : L[k].h # 0}}
      R == TLCEval([x \in Keys |-> Ready(Env(x))])
      Want(l) == IF l.h # 0 THEN Glyph(Env(<<l.f, l.s>>), R[<<l.f, l.s>>], l.i, TRUE)
                 ELSE Glyph(Env(<<l.f, l.s>>), Start, l.i, FALSE)
      Same(a, b) == /\ a.err = b.err
                    /\ (~a.err => a.pts = b.pts /\ a.ends = b.ends /\ a.adv = b.adv /\ a.b = b.b)
      V(k) == LET l == L[k]
                  j == GlyphJudge(Want(l), l.g)
              IN IF j # "" THEN j
                 ELSE IF Same(l.g, l.fresh) THEN ""
                 ELSE "the glyph buffer's history changes the result"
      v == TLCEval([k \in DOMAIN L |-> V(k)])
      wrong == {k \in DOMAIN v : v[k] # ""}
  IN IF \E i \in DOMAIN F : Verdict(F[i]) # "accept" THEN "generator: not a well-formed font"
     ELSE IF wrong = {} THEN ""
     ELSE LET k == MinOf(wrong)
          IN "load " \o ToString(k) \o " (font, scale, glyph, hinting "
             \o ToString(<<L[k].f, L[k].s, L[k].i, L[k].h>>) \o "): " \o v[k]
Next == Consume(J)
=============================================================================
