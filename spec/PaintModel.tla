----------------------------- MODULE PaintModel -----------------------------
(* Design model for R05: the integer arithmetic of painting, with pixels of *)
(* B bits, colours of 2 * B bits, and words of 4 * B bits that wrap around. *)
(* Every premultiplied pixel and colour, and every span alpha.              *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
EXTENDS Integers
CONSTANTS Design, B, Every
VARIABLES d, da, c, ca, ma      \* old channel and alpha, colour channel and alpha, span's alpha

Pow(n) == 2 ^ n
P == Pow(B) - 1                 \* a full pixel
M == Pow(2 * B) - 1             \* full colour, full alpha
X == Pow(B) + 1                 \* expands a pixel
Wrap(v) == v % Pow(4 * B)
Some == {v \in 0..M : v % Every = 0} \cup {1, M - 1, M}

Init == /\ d \in 0..P /\ da \in 0..P /\ d <= da
        /\ c \in Some /\ ca \in Some /\ c <= ca
        /\ ma \in 0..M
Next == UNCHANGED <<d, da, c, ca, ma>>

(* What is left of the old pixel. *)
Left == CASE Design = "opaque" -> X * (M - ma)
          [] Design = "late" -> M - ((ca * ma) \div M)
          [] OTHER -> X * (M - ((ca * ma) \div M))
Over(old, col) ==
  CASE Design = "late" -> ((((old * Left) \div M) * X) + ((col * ma) \div M)) \div Pow(B)
    [] Design = "up" -> (Wrap(Wrap((old * Left) + (col * ma)) + (M - 1)) \div M) \div Pow(B)
    [] OTHER -> (Wrap((old * Left) + (col * ma)) \div M) \div Pow(B)
Src(col) == ((col * ma) \div M) \div Pow(B)
(* Over painting of an alpha image, with the span's alpha cut off. *)
A8 == ma \div Pow(B)
AlphaOver(old) == IF Design = "add" THEN old + A8 - ((old * A8) \div Pow(B))
                  ELSE ((old * P) + ((P - old) * A8)) \div P

Fits == Over(d, c) \in 0..P /\ Over(da, ca) \in 0..P /\ Src(ca) \in 0..P /\ AlphaOver(da) \in 0..P
(* A colour never exceeds its alpha. *)
Valid == Over(d, c) <= Over(da, ca) /\ Src(c) <= Src(ca)
(* Transparent spans and transparent colours change nothing; opaque ones    *)
(* leave nothing.                                                           *)
Ends == /\ ma = 0 => (Over(d, c) = d /\ AlphaOver(da) = da /\ Src(c) = 0)
        /\ ca = 0 => Over(da, 0) = da
        /\ ma = M => (Src(c) = c \div Pow(B) /\ AlphaOver(da) = P)
        /\ (ma = M /\ ca = M) => Over(d, c) = c \div Pow(B)
(* Within one unit of 8-bit rounding of the formula (two for alpha images): *)
(* in units of 1/(M * M), of a pixel value expanded.                        *)
Near(v, num, k) == LET e == (v * X * M) - num IN -k * X * M <= e /\ e <= k * X * M
Law == /\ Near(Over(d, c), (d * X * (M - ((ca * ma) \div M))) + (c * ma), 1)
       /\ Near(Src(c), c * ma, 1)
       /\ Near(AlphaOver(da), (da * X * (M - ma)) + (M * ma), 2)
(* More of the paint never takes away from an alpha image. *)
Grows == AlphaOver(da) >= da /\ (ca = M => Over(da, ca) >= da \/ Over(da, ca) >= da - 1)
=============================================================================
