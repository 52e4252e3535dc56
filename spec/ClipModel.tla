----------------------------- MODULE ClipModel ------------------------------
(* Design model for C03, one axis of it: how a glyph's mask and the source  *)
(* line up with the destination when the clip rectangle cuts the glyph, the *)
(* destination cuts it, or the source or mask ends before it.  Image        *)
(* drawing itself (Draw) works as the standard library's DrawMask does.     *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
EXTENDS Integers
CONSTANTS Design, Wide      \* Wide: the destination is 0..Wide-1
VARIABLES g, w, cl, cr, sl, sr   \* glyph g..g+w-1, clip cl..cr-1, source sl..sr-1

Maxi(a, b) == IF a > b THEN a ELSE b
Mini(a, b) == IF a < b THEN a ELSE b
Pixels == -4..(Wide + 3)
None == <<-1, -1>>

(* What DrawMask shows at pixel p: <<mask column, source column>>. *)
Draw(lo, hi, sp, mp, p) ==
  LET m == (p - lo) + mp
      s == (p - lo) + sp
  IN IF lo <= p /\ p < hi /\ 0 <= p /\ p < Wide /\ 0 <= m /\ m < w /\ sl <= s /\ s < sr THEN <<m, s>> ELSE None

Free(p) == Draw(g, g + w, 0, 0, p)
With(p) ==
  LET lo == IF Design = "all" THEN g ELSE Maxi(g, cl)
      hi == IF Design = "all" THEN g + w ELSE IF Design = "edge" THEN Mini(g + w, cr + 1) ELSE Mini(g + w, cr)
      mp == CASE Design = "first" -> 0
              [] Design = "clip" -> cl - g       \* even where the glyph starts later
              [] OTHER -> lo - g
      sp == IF Design = "source" THEN 0 ELSE mp
  IN IF lo >= hi THEN None ELSE Draw(lo, hi, sp, mp, p)

Init == /\ g \in -3..Wide /\ w \in 0..4
        /\ cl \in -4..(Wide + 1) /\ cr \in -4..(Wide + 4)
        /\ sl \in -1..2 /\ sr \in -1..6
Next == UNCHANGED <<g, w, cl, cr, sl, sr>>

Outside == \A p \in Pixels : (p < cl \/ p >= cr \/ p < 0 \/ p >= Wide) => With(p) = None
Inside == \A p \in Pixels : (cl <= p /\ p < cr) => With(p) = Free(p)
=============================================================================
