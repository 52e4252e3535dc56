------------------------------ MODULE FaceSpec ------------------------------
(* What faces and drawing contexts make of a font: options, sizes, metrics, *)
(* sub-pixel positions, and the image of a glyph as its filled outline.     *)
EXTENDS Glyph, CurveTol

(* ------------------------------------------------------------- options *)
(* Sizes are in quarters of a point, resolutions in dots per inch, each     *)
(* with a fraction of 64ths.                                                *)
Points(o) == (64 * o.size) + o.sf
Dots(o) == (64 * o.dpi) + o.df
Size0(o) == IF o.nil \/ Points(o) <= 0 THEN 48 * 64 ELSE Points(o)
Dpi0(o) == IF o.nil \/ Dots(o) <= 0 THEN 72 * 64 ELSE Dots(o)
Hinted(o) == ~o.nil /\ o.h \in {1, 2}
Valid == {1, 2, 4, 8, 16, 32, 64}
SubX(o) == IF ~o.nil /\ o.sx \in Valid THEN o.sx ELSE 4
SubY(o) == IF ~o.nil /\ o.sy \in Valid THEN o.sy ELSE 1
(* A face's scale, rounded to the nearest 26.6 number, halves upwards. *)
FaceScale(o) == ((Size0(o) * Dpi0(o)) + 9216) \div 18432

(* A co-ordinate rounded to a multiple of 1/n pixel, halves upwards. *)
Quantized(x, n) == LET q == 64 \div n IN ((x + (q \div 2)) \div q) * q

(* -------------------------------------------------------------- metrics *)
Ceil(a, b) == -DivF(-a, b)
FaceMetrics(f, t, s) ==
  <<s, Ceil(s * Ascent(f, t), UnitsPerEm(f, t)), Ceil(s * (-Descent(f, t)), UnitsPerEm(f, t))>>
Kerning(f, t, s, hint, i, j) ==
  LET k == Scl(s, UKern(f, t, i, j), UnitsPerEm(f, t)) IN IF hint THEN Round64(k) ELSE k
Char(c) == <<IF c >= 0 THEN c \div 65536 ELSE 65535 - ((-(c + 1)) \div 65536),
             IF c >= 0 THEN c % 65536 ELSE 65535 - ((-(c + 1)) % 65536)>>
(* The glyph of character c (a Go rune). *)
GlyphOf(f, t, c) == GlyphIndex(f, t, Char(c))
(* A glyph's bounds as a face reports them: y points down. *)
FaceBox(b) == <<b[1], -b[4], b[3], -b[2]>>

(* --------------------------------------------------------------- images *)
(* Contours are closed curves through the on points; an on point is implied *)
(* half way between two adjacent off points.                                *)
RECURSIVE ContourFrom(_, _, _, _, _)
(* The operations that continue a contour at point k of ps; off: the pending control point. *)
ContourFrom(ps, k, start, off, acc) ==
  IF k > Len(ps)
  THEN Append(acc, IF off = << >> THEN [o |-> "L", p |-> start] ELSE [o |-> "Q", p |-> off \o start])
  ELSE LET p == <<ps[k][1], ps[k][2]>>
       IN IF ps[k][3] = 1
          THEN ContourFrom(ps, k + 1, start, << >>,
                 Append(acc, IF off = << >> THEN [o |-> "L", p |-> p] ELSE [o |-> "Q", p |-> off \o p]))
          ELSE IF off = << >> THEN ContourFrom(ps, k + 1, start, p, acc)
          ELSE ContourFrom(ps, k + 1, start, p,
                 Append(acc, [o |-> "Q", p |-> off \o <<H(off[1], p[1]), H(off[2], p[2])>>]))
Contour(ps) ==
  IF ps = << >> THEN << >>
  ELSE LET n == Len(ps)
           xy(k) == <<ps[k][1], ps[k][2]>>
           half == <<H(ps[1][1], ps[n][1]), H(ps[1][2], ps[n][2])>>
       IN IF ps[1][3] = 1
          THEN ContourFrom(SubSeq(ps, 2, n), 1, xy(1), << >>, << [o |-> "S", p |-> xy(1)] >>)
          ELSE IF ps[n][3] = 1
          THEN ContourFrom(SubSeq(ps, 1, n - 1), 1, xy(n), << >>, << [o |-> "S", p |-> xy(n)] >>)
          ELSE ContourFrom(ps, 1, half, << >>, << [o |-> "S", p |-> half] >>)

RECURSIVE OutlineFrom(_, _, _)
OutlineFrom(pts, ends, k) ==
  IF k > Len(ends) THEN << >>
  ELSE Contour(SubSeq(pts, (IF k = 1 THEN 0 ELSE ends[k - 1]) + 1, ends[k])) \o OutlineFrom(pts, ends, k + 1)

(* The outline of glyph g (as from Glyph!Glyph), its origin at (x, y) in an image. *)
Outline(g, x, y) ==
  OutlineFrom([k \in DOMAIN g.pts |-> <<x + g.pts[k][1], y - g.pts[k][2], g.pts[k][3]>>], g.ends, 1)

(* m: the 8-bit alphas of an image w wide and h high, row by row. *)
ImageDiff(edges, m, w, h) ==
  UNION { LET ps == RowPieces(edges, r, 64)
          IN IF \A i \in DOMAIN ps : ps[i][2] = ps[i][4]
             THEN {<<r, c, 257 * m[r * w + c + 1]>> : c \in {c \in 0..(w - 1) : m[r * w + c + 1] # 0}}
             ELSE {<<r, c, 257 * m[r * w + c + 1]>> : c \in {c \in 0..(w - 1) :
                 m[r * w + c + 1] # AlphaOf(Area(ps, c, 64), FALSE) \div 256}}
          : r \in 0..(h - 1) }

(* "" if image m is that of the outline ops, filled; else what is wrong. *)
ImageJudge(ops, m, w, h) ==
  LET D(k) == ImageDiff(Edges(ops, k), m, w, h)
      d1 == D(1)
      d2 == IF d1 = {} THEN {} ELSE D(2)
      d4 == IF d2 = {} THEN {} ELSE D(4)
  IN IF d4 = {} THEN ""
     ELSE LET fine == FineEdges(ops)
              far == FarBad(fine, d4, FALSE)
          IN IF far # {} THEN "pixels away from every curve are wrong: " \o ToString(far)
             ELSE IF \E p \in d4 : Abs(p[3] \div 16 - FullArea(fine, p[1], p[2], FALSE)) > 1300 /\ TubeBad(fine, p, FALSE)
                  THEN "the outline is off by more than 5/16 pixel"
             ELSE ""
=============================================================================
