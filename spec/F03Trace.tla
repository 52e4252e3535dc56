------------------------------ MODULE F03Trace ------------------------------
(* F03: a face's metrics are those of its font at the face's scale.         *)
EXTENDS FaceSpec, TraceBase
J(e) ==
  LET f == e.in.file
      t == Tables(f)
      o == e.in.o
      s == FaceScale(o)
      E == EnvOf(f, t, s)
      hint == Hinted(o)
      R == IF hint THEN Ready(E) ELSE Start
      cs == e.in.c
      G == TLCEval([i \in {GlyphOf(f, t, cs[k].r) : k \in {k \in DOMAIN cs : cs[k].o \in {"bounds", "adv", "glyph"}}} |-> Glyph(E, R, i, hint)])
      \* The rectangle contains the bounds placed at the quantized dot.
      Covers(v, b, x, y) ==
        /\ 64 * v[1] <= x + b[1] /\ 64 * v[2] <= y + b[2]
        /\ 64 * v[3] >= x + b[3] /\ 64 * v[4] >= y + b[4]
      V(k) ==
        LET c == cs[k]
            a == e.out.ans[k]
            g == G[GlyphOf(f, t, c.r)]
            b == FaceBox(g.b)
        IN CASE c.o = "metrics" -> IF a.v = FaceMetrics(f, t, s) THEN "" ELSE "metrics are not " \o ToString(FaceMetrics(f, t, s))
             [] c.o = "kern" -> LET v == Kerning(f, t, s, hint, GlyphOf(f, t, c.r), GlyphOf(f, t, c.r2))
                                IN IF a.v = <<v>> THEN "" ELSE "the kerning is not " \o ToString(v)
             [] OTHER ->
                IF g.st = "wild" \/ a.m = <<"skipped">> THEN ""
                ELSE IF g.st = "err" THEN IF a.ok THEN "a glyph that cannot be loaded" ELSE ""
                ELSE IF ~a.ok THEN "the glyph can be loaded"
                ELSE CASE c.o = "adv" -> IF a.v = <<g.adv>> THEN "" ELSE "the advance is not " \o ToString(g.adv)
                       [] c.o = "bounds" -> IF a.v = Append(b, g.adv) THEN "" ELSE "the bounds and advance are not " \o ToString(Append(b, g.adv))
                       [] c.o = "glyph" ->
                            IF a.v[5] # g.adv THEN "the glyph's advance is not " \o ToString(g.adv)
                            ELSE IF Covers(a.v, b, Quantized(c.x, SubX(o)), Quantized(c.y, SubY(o))) THEN ""
                            ELSE "the rectangle does not contain the bounds " \o ToString(b)
      wrong == {k \in DOMAIN cs : V(k) # ""}
  IN IF Verdict(f) # "accept" THEN "generator: not a well-formed font"
     ELSE IF wrong = {} THEN ""
     ELSE LET k == MinOf(wrong)
          IN "call " \o ToString(cs[k]) \o " answered " \o ToString(e.out.ans[k]) \o ": " \o V(k)
Next == Consume(J)
=============================================================================
