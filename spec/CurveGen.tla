------------------------------ MODULE CurveGen ------------------------------
(* Every quadratic and cubic curve with its points on a coarse grid         *)
(* (coincident and collinear points, loops and cusps among them), closed by *)
(* a line or by the same curve back, in rasterizers of all size classes,    *)
(* for the driver to rasterize.                                             *)
EXTENDS BehBase, Integers
CONSTANTS Deep
VARIABLES deg, a, b, c, n, back

Grid(k) == (0..k) \X (0..k)
Init == \/ /\ deg = 2 /\ a = <<0, 0>> /\ b \in Grid(4) /\ c \in Grid(4)
           /\ n \in (IF Deep THEN {3, 10, 24, 25, 60, 120, 121} ELSE {3, 24, 121}) /\ back \in (IF Deep THEN BOOLEAN ELSE {FALSE})
        \/ /\ deg = 3 /\ a \in Grid(3) /\ b \in Grid(3) /\ c \in Grid(3)
           /\ n \in (IF Deep THEN {4, 12, 25, 61, 121} ELSE {CASE (a[1] + b[2]) % 8 = 0 -> 121 [] (a[1] + b[2]) % 8 = 2 -> 25 [] OTHER -> 9})
           /\ back \in (IF Deep THEN BOOLEAN ELSE {(c[1] + a[1]) % 2 = 0})
Next == UNCHANGED <<deg, a, b, c, n, back>>
(* The grid's points, a little off the pixels' corners; start: in its first quarter. *)
K == IF deg = 2 THEN 4 ELSE 3
H == IF n > 60 THEN 6 ELSE n
At(p) == <<((64 * n * p[1]) \div K) + (5 * p[2]), ((64 * H * p[2]) \div K) - (3 * p[1])>>
Start == <<16 * n, 7 * H>>
Ops == << [o |-> "S", p |-> Start] >>
       \o (IF deg = 2 THEN << [o |-> "Q", p |-> At(b) \o At(c)] >> ELSE << [o |-> "C", p |-> (At(a) \o At(b)) \o At(c)] >>)
       \o (IF back THEN << [o |-> "L", p |-> <<At(c)[1], At(c)[2] + 50>>],
                           IF deg = 2 THEN [o |-> "Q", p |-> <<At(b)[1], At(b)[2] + 50, Start[1], Start[2] + 50>>]
                           ELSE [o |-> "C", p |-> <<At(b)[1], At(b)[2] + 50, At(a)[1], At(a)[2] + 50, Start[1], Start[2] + 50>>] >> ELSE << >>)
       \o << [o |-> "L", p |-> Start] >>
Emit == EmitBehaviour([w |-> n, h |-> H, dx |-> 0, dy |-> 0, nz |-> (b[1] % 2 = 0), ops |-> Ops, kind |-> "any"])
=============================================================================
