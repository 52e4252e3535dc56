----------------------------- MODULE QuantModel -----------------------------
(* Design model for F02 (and the cache slots of F01): rounding a dot to one *)
(* of n positions per pixel by adding a bias and clearing low bits, and     *)
(* numbering the positions.  Every n and every co-ordinate.                 *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
EXTENDS Integers
CONSTANTS Design, Far
VARIABLES n, x, m, y, i, j     \* two dots' co-ordinates (x of n, y of m positions) and glyphs

Valid == {1, 2, 4, 8, 16, 32, 64}
Step(k) == 64 \div k
Bias(k) == CASE Design = "nobias" -> 0
             [] Design = "up" -> Step(k) - 1
             [] Design = "fixed" -> 8
             [] OTHER -> 32 \div k
(* Clearing the low bits of a two's complement number rounds downwards. *)
Clear(v, k) == IF Design = "trunc" /\ v < 0 THEN -(((-v) \div Step(k)) * Step(k)) ELSE (v \div Step(k)) * Step(k)
Q(v, k) == Clear(v + Bias(k), k)
Frac(v) == v % 64
Whole(v) == (v - Frac(v)) \div 64
Pos(v, k) == IF Design = "pos" THEN Frac(v) \div k ELSE Frac(v) \div Step(k)
Slot(g, v, k, w, l) == (((g * k) + Pos(v, k)) * l) + Pos(w, l)

(* With y a second horizontal co-ordinate: *)
Init == /\ n \in Valid /\ x \in -Far..Far
        /\ m \in Valid /\ y \in {0, 31, 32, 63}
        /\ i \in 0..1 /\ j \in {0, 8, 40, 56}
Next == UNCHANGED <<n, x, m, y, i, j>>

Multiple == Q(x, n) % Step(n) = 0
Nearest == /\ 2 * (Q(x, n) - x) <= Step(n)       \* halves upwards
           /\ 2 * (x - Q(x, n)) < Step(n) \/ n = 64
Exact == n = 64 => Q(x, n) = x
Moves == Q(x + 64, n) = Q(x, n) + 64 /\ Q(x - 64, n) = Q(x, n) - 64
Stays == Q(Q(x, n), n) = Q(x, n)
Split == (64 * Whole(Q(x, n))) + Frac(Q(x, n)) = Q(x, n) /\ Frac(Q(x, n)) \in 0..63
(* Positions are numbered from 0 to n - 1, and slots tell them all apart. *)
Numbered == Pos(Q(x, n), n) \in 0..(n - 1)
Apart == (Slot(i, Q(x, n), n, Q(y, m), m) = Slot(0, Q(j, n), n, Q(y, m), m))
         => (i = 0 /\ Frac(Q(x, n)) = Frac(Q(j, n)))
=============================================================================
