----------------------------- MODULE StrokeGen ------------------------------
(* Every corner (and quadratic curve) between two of 24 directions, with    *)
(* every cap and join, for the driver to stroke; and every cap on a single  *)
(* segment.                                                                 *)
EXTENDS BehBase, Integers
CONSTANTS Deep
VARIABLES a, b, cap, join, width, curve

Ring == {p \in (-3..3) \X (-3..3) : p[1] \in {-3, 3} \/ p[2] \in {-3, 3}}
N(p) == (7 * p[1]) + (3 * p[2]) + 60
Init == /\ a \in Ring /\ b \in Ring \cup {<<0, 0>>}
        /\ join \in {1, 2}
        /\ cap \in (IF Deep \/ b = <<0, 0>> THEN 1..3 ELSE {1 + ((N(a) + (2 * N(b)) + join) % 3)})
        /\ width \in (IF Deep THEN {130, 384, 777} ELSE {<<130, 384, 777>>[1 + ((N(a) + N(b)) % 3)]})
        /\ curve \in (IF b = <<0, 0>> THEN {FALSE} ELSE IF Deep \/ (N(a) + N(b)) % 3 = 0 THEN BOOLEAN ELSE {FALSE})
Next == UNCHANGED <<a, b, cap, join, width, curve>>
P == <<(64 * 17) + 5, (64 * 17) - 9>>
L == 166
Ops == << [o |-> "S", p |-> <<P[1] - (L * a[1]), P[2] - (L * a[2])>>] >> \o (IF curve THEN << >> ELSE << [o |-> "L", p |-> P] >>)
       \o (IF curve THEN <<[o |-> "Q", p |-> P \o <<P[1] + (L * b[1]), P[2] + (L * b[2])>>] >>
           ELSE IF b = <<0, 0>> THEN << >> ELSE << [o |-> "L", p |-> <<P[1] + (L * b[1]), P[2] + (L * b[2])>>] >>)
Emit == EmitBehaviour([w |-> 34, h |-> 34, width |-> width, cap |-> cap, join |-> join, ops |-> Ops])
=============================================================================
