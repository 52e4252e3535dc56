------------------------------ MODULE LineGen -------------------------------
(* Every slanted line, up or down, left or right, between points at, beside *)
(* and away from pixel edges, as the left side of a filled shape, for the   *)
(* driver to rasterize.                                                     *)
EXTENDS BehBase, Integers
CONSTANTS Step
VARIABLES x, y, dx, dy, out

Sub == {0, 1, 31, 63}
Delta == {d \in 0..140 : d % Step = 0} \cup {1, 2, 63, 64, 65, 127, 128, 129}
W == 5
H == 4
(* From a point of pixel (2, 1) of a 5 by 4 image, or from one outside it.  *)
Init == /\ out \in BOOLEAN
        /\ x \in (IF out THEN {-70, 330} ELSE {128 + s : s \in Sub})
        /\ y \in (IF out THEN {-5, 262} ELSE {64 + s : s \in Sub})
        /\ dx \in Delta \cup {-d : d \in Delta}
        /\ dy \in Delta \cup {-d : d \in Delta}
        /\ dy # 0
Next == UNCHANGED <<x, y, dx, dy, out>>
Pt(o, a, b) == [o |-> o, p |-> <<a, b>>]
Emit == EmitBehaviour([w |-> W, h |-> H, dx |-> 0, dy |-> 0, nz |-> (dx % 2 = 0),
  ops |-> << Pt("S", x, y), Pt("L", x + (IF out /\ x > 0 THEN -dx * 2 ELSE IF out THEN dx * 2 ELSE dx), y + (IF out /\ y > 0 THEN -dy ELSE dy)),
             Pt("L", 300, y + (IF out /\ y > 0 THEN -dy ELSE dy)), Pt("L", 300, y), Pt("L", x, y) >>])
=============================================================================
