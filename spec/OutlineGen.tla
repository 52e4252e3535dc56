----------------------------- MODULE OutlineGen -----------------------------
(* Every pattern of points on and off the curve, for contours of up to six  *)
(* points, alone or after another contour, for the driver to draw: all      *)
(* patterns of a length are glyphs of one font.                             *)
EXTENDS BehBase, Integers
CONSTANTS Deep
VARIABLES n, turn, other, hinted

Places == << <<60, 40>>, <<560, 0>>, <<900, 300>>, <<640, 420>>, <<700, 880>>, <<20, 700>> >>
Place(i) == Places[1 + ((i + turn) % 6)]
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
On(bits, i) == (bits \div Pow(i - 1)) % 2
Shape(bits) == [i \in 1..n |-> <<Place(i)[1], Place(i)[2], On(bits, i)>>]
Box == << <<-80, -100, 1>>, <<990, -90, 0>>, <<950, -30, 1>>, <<-100, -40, 1>> >>
Glyphs == [b \in 1..Pow(n) |-> CASE other = "none" -> <<Shape(b - 1)>>
                                 [] other = "before" -> <<Box, Shape(b - 1)>>
                                 [] other = "after" -> <<Shape(b - 1), Box>>
                                 [] OTHER -> <<Shape(b - 1), Shape(Pow(n) - b)>>]
Init == /\ n \in 1..6 /\ turn \in (IF Deep THEN 0..5 ELSE {0, 4})
        /\ other \in (IF Deep THEN {"none", "before", "after", "both"} ELSE IF turn = 0 THEN {"none", "both"} ELSE {"before", "after"})
        /\ hinted \in (IF Deep THEN {0, 2} ELSE {IF other = "none" THEN 0 ELSE 2})
Next == UNCHANGED <<n, turn, other, hinted>>
Emit == EmitBehaviour([glyphs |-> Glyphs, x |-> 90, y |-> 700 + (13 * turn),
  o |-> [nil |-> FALSE, size |-> 36, sf |-> 0, dpi |-> 72, df |-> 0, h |-> hinted, e |-> 0, sx |-> 4, sy |-> 1]])
=============================================================================
