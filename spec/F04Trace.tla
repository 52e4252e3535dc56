------------------------------ MODULE F04Trace ------------------------------
(* F04: the image of a glyph, in a face or a drawing context, is its        *)
(* outline, filled.                                                         *)
EXTENDS FaceSpec, TraceBase
(* The driver may have built the file from an enumerated outline. *)
Case(e) == IF "glyphs" \in DOMAIN e.in THEN e.out ELSE e
JCase(e) ==
  LET f == e.in.file
      t == Tables(f)
      o == e.in.o
      hint == Hinted(o)
      cs == e.in.c
      im == e.out.img
      ScaleOf(k) == IF cs[k].o = "face" THEN FaceScale(o) ELSE im[k].scale
      Scales == {ScaleOf(k) : k \in {k \in DOMAIN cs : ~im[k].skip}}
      R == TLCEval([s \in Scales |-> IF hint THEN Ready(EnvOf(f, t, s)) ELSE Start])
      V(k) ==
        IF im[k].skip THEN ""
        ELSE LET c == cs[k]
                 s == ScaleOf(k)
                 g == Glyph(EnvOf(f, t, s), R[s], GlyphOf(f, t, c.r), hint)
                 r == im[k].rect
                 x == IF c.o = "face" THEN Quantized(c.x, SubX(o)) ELSE c.x
                 y == IF c.o = "face" THEN Quantized(c.y, SubY(o)) ELSE c.y
             IN IF c.o = "context" /\ Abs((18432 * s) - (Points(o) * Dots(o))) > 18432 THEN "the scale " \o ToString(s) \o " does not fit the size"
                ELSE IF g.st = "wild" THEN ""
                ELSE IF g.st = "err" THEN IF im[k].ok THEN "a glyph that cannot be loaded" ELSE ""
                ELSE IF ~im[k].ok THEN "the glyph can be loaded"
                ELSE ImageJudge(Outline(g, x - (64 * r[1]), y - (64 * r[2])), im[k].m, r[3] - r[1], r[4] - r[2])
      wrong == {k \in DOMAIN cs : V(k) # ""}
  IN IF Verdict(f) # "accept" THEN "generator: not a well-formed font"
     ELSE IF wrong = {} THEN ""
     ELSE LET k == MinOf(wrong) IN "image " \o ToString(cs[k]) \o ": " \o V(k)
J(e) == JCase(Case(e))
Next == Consume(J)
=============================================================================
