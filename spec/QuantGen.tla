------------------------------ MODULE QuantGen ------------------------------
(* Every pair of numbers of sub-pixel positions, with every fraction of a   *)
(* pixel in both directions, for the driver to draw at.                     *)
EXTENDS BehBase
CONSTANTS All
VARIABLES sx, sy, part, h

Numbers == <<1, 2, 4, 8, 16, 32, 64>>
Parts == IF All THEN 0..255 ELSE 0..7
(* Probe k of a part. *)
P(k) == LET c == (7 * part + 3 * k) % 4
            \* all pairs of fractions, or all fractions of either direction
            fx == IF All THEN part % 64 ELSE IF part < 4 THEN (16 * part) + k ELSE (11 * k + 7 * part) % 64
            fy == IF All THEN (16 * (part \div 64)) + k ELSE IF part < 4 THEN (23 * k + 5 * part) % 64 ELSE (16 * (part - 4)) + k
        IN [r |-> 65 + ((k + part) % 4), x |-> (64 * (c - 2)) + fx, y |-> (64 * (1 - c)) + fy, dx |-> c - 1, dy |-> 2 - c]

Init == /\ sx \in {Numbers[k] : k \in 1..7}
        /\ sy \in {Numbers[k] : k \in 1..7}
        /\ part \in Parts
        /\ h = (sx + sy + part) % 3
Next == UNCHANGED <<sx, sy, part, h>>
Emit == EmitBehaviour([seed |-> 1 + part,
                       o |-> [nil |-> FALSE, size |-> 40, sf |-> 0, dpi |-> 72, df |-> 0, h |-> h, e |-> 0, sx |-> sx, sy |-> sy],
                       p |-> [k \in 1..16 |-> P(k - 1)]])
=============================================================================
