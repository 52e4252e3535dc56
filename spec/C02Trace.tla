------------------------------ MODULE C02Trace ------------------------------
(* C02: where DrawString draws each glyph, and the point it returns.        *)
EXTENDS FaceSpec, TraceBase

CharOf(c) == IF c = -1 THEN 65533 ELSE c
RECURSIVE LayFrom(_, _, _, _, _, _)
(* Lays the glyphs gs from the k'th on, at x: [st, x, at: <<x...>>]. *)
LayFrom(gs, k, x, acc, Kern2(_, _), G) ==
  IF k > Len(gs) THEN [st |-> "ok", x |-> x, pens |-> acc]
  ELSE LET g == G[gs[k]]
           pen == IF k = 1 THEN x ELSE x + Kern2(gs[k - 1], gs[k])
       IN IF g.st # "ok" THEN [st |-> g.st, x |-> x, pens |-> acc]
          ELSE LayFrom(gs, k + 1, pen + g.adv, Append(acc, pen), Kern2, G)

(* Glyphs drawn on top of each other: m is the image, refs those of the glyphs alone. *)
RECURSIVE Stack(_, _, _)
Stack(refs, p, j) ==      \* <<alpha, number of glyphs>> of pixel p
  IF j = 0 THEN <<0, 0>>
  ELSE LET b == Stack(refs, p, j - 1)
           a == refs[j][p]
       IN IF a = 0 THEN b ELSE <<a + b[1] - ((a * b[1]) \div 255), b[2] + 1>>
Composite(m, refs) ==
  \A p \in DOMAIN m : LET b == Stack(refs, p, Len(refs))
                      IN IF b[2] <= 1 THEN m[p] = b[1] ELSE Abs(m[p] - b[1]) <= 2 * b[2]

J(e) ==
  LET F == e.out.files
      T == TLCEval([i \in DOMAIN F |-> Tables(F[i])])
      ss == e.in.steps
      rr == e.out.r
      Live == {k \in DOMAIN ss : ss[k].f # 0 /\ rr[k].scale >= 0}
      Key(k) == <<ss[k].f, rr[k].scale, ss[k].h # 0>>
      Keys == {Key(k) : k \in Live}
      Env(x) == EnvOf(F[x[1]], T[x[1]], x[2])
      (* All glyphs, kernings and states that are needed, each computed once. *)
      R == TLCEval([x \in Keys |-> IF x[3] THEN Ready(Env(x)) ELSE Start])
      CG == TLCEval([q \in UNION {{<<ss[k].f, c>> : c \in Img(ss[k].s)} : k \in Live} |-> GlyphOf(F[q[1]], T[q[1]], CharOf(q[2]))])
      Gs(k) == TLCEval([j \in DOMAIN ss[k].s |-> CG[<<ss[k].f, ss[k].s[j]>>]])
      Steps(x) == {k \in Live : Key(k) = x}
      G == TLCEval([x \in Keys |-> TLCEval([i \in UNION {Img(Gs(k)) : k \in Steps(x)} |-> Glyph(Env(x), R[x], i, x[3])])])
      Pairs(x) == UNION {LET gs == Gs(k) IN {<<gs[j], gs[j + 1]>> : j \in 1..(Len(gs) - 1)} : k \in Steps(x)}
      KT == TLCEval([x \in Keys |-> TLCEval([p \in Pairs(x) |-> Kerning(F[x[1]], T[x[1]], x[2], x[3], p[1], p[2])])])
      Lay(k) == LET x == Key(k)
                    K2(i, j) == KT[x][<<i, j>>]
                IN LayFrom(Gs(k), 1, ss[k].x, << >>, K2, G[x])
      V(k) ==
        LET s == ss[k]  r == rr[k]
        IN IF r.scale < 0 THEN ""
           ELSE IF Abs((9 * r.scale) - (2 * s.o * s.d)) > 9 THEN "the scale " \o ToString(r.scale) \o " does not fit the size"
           ELSE IF s.f = 0 THEN IF ~r.err THEN "no error without a font" ELSE IF r.px # 0 \/ r.py # 0 THEN "not the zero point" ELSE ""
           ELSE LET l == Lay(k)
                IN IF l.st = "wild" THEN ""
                   ELSE IF l.st = "err" THEN IF ~r.err THEN "no error" ELSE IF r.px # 0 \/ r.py # 0 THEN "not the zero point" ELSE ""
                   ELSE IF r.err THEN "an error"
                   ELSE IF r.px # l.x \/ r.py # s.y THEN "the point is not " \o ToString(<<l.x, s.y>>)
                   ELSE IF r.rect = <<0, 0, 0, 0>> THEN ""
                   ELSE IF [j \in DOMAIN r.req |-> r.req[j].x] # l.pens THEN "the glyphs belong at " \o ToString(l.pens)
                   ELSE IF Composite(r.m, r.first) \/ Composite(r.m, r.refs) THEN ""
                   ELSE "the image is not that of the glyphs at " \o ToString(l.pens)
      vs == TLCEval([k \in DOMAIN ss |-> V(k)])
      wrong == {k \in DOMAIN ss : vs[k] # ""}
  IN IF \E i \in DOMAIN F : Verdict(F[i]) # "accept" THEN "generator: not a well-formed font"
     ELSE IF wrong = {} THEN ""
     ELSE LET k == MinOf(wrong)
          IN "step " \o ToString(ss[k]) \o " returned " \o ToString(<<rr[k].px, rr[k].py, rr[k].err>>) \o ": " \o vs[k]
Next == Consume(J)
=============================================================================
