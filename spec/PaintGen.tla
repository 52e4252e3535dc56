------------------------------ MODULE PaintGen ------------------------------
(* Every old pixel value under spans of all kinds of alpha, colours and     *)
(* operators, for the driver to paint: one image per kind, alpha and        *)
(* colour.                                                                  *)
EXTENDS BehBase
CONSTANTS Step
VARIABLES kind, ma, color

Alphas == {a \in 0..65535 : a % Step = 0} \cup {1, 127, 128, 255, 256, 257, 32767, 32768, 65280, 65534, 65535}
Colors == {<<65535, 32768, 0, 65535>>, <<257, 65534, 65535, 65535>>, <<0, 0, 0, 0>>,
           <<16384, 32768, 1, 32768>>, <<65280, 255, 256, 65280>>, <<1, 0, 1, 1>>, <<30000, 500, 40000, 65534>>}
Rgba == {"rgbaover", "rgbasrc"}
Init == \/ /\ kind \in {"alphaover", "alphasrc"} /\ ma \in Alphas /\ color = << >>
        \/ /\ kind \in Rgba /\ ma \in {a \in Alphas : a % (3 * Step) = 0 \/ a % Step # 0} /\ color \in Colors
Next == UNCHANGED <<kind, ma, color>>
(* All values, as alphas; as colours of all alphas, some less than the alpha. *)
Pix == IF kind \notin Rgba THEN [i \in 1..256 |-> i - 1]
       ELSE [i \in 1..1024 |-> LET a == (i - 1) \div 4
                               IN CASE (i - 1) % 4 = 0 -> a [] (i - 1) % 4 = 1 -> a \div 2 [] (i - 1) % 4 = 2 -> (a * 7) \div 8 [] OTHER -> a]
Emit == EmitBehaviour([kind |-> kind, big |-> <<0, 0, 256, 1>>, sub |-> <<0, 0, 256, 1>>, pix |-> Pix,
                       batches |-> << [color |-> color, done |-> TRUE, spans |-> << <<0, 0, 256, ma>> >>] >>])
=============================================================================
