------------------------------ MODULE StateGen ------------------------------
(* Every instruction that moves or measures points (a probe) after every    *)
(* one or two that set part of the interpreter's state: vectors, reference  *)
(* points, zones, rounding, thresholds, control values, touched points.     *)
(* TLC enumerates them, as bytes, for the driver to make glyph programs of. *)
EXTENDS BehBase
CONSTANTS Every      \* the pairs of settings: one in so many
VARIABLES i, j

Settings == <<
  << >>,
  <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<14>>,                  \* axes; freedom to projection
  <<177, 1, 2, 6>>, <<177, 3, 0, 7>>, <<177, 3, 2, 8>>, <<177, 0, 2, 9>>,
  <<177, 1, 3, 134>>, <<177, 2, 0, 135>>,                             \* dual projection
  <<185, 45, 65, 45, 65, 10>>, <<185, 196, 0, 0, 0, 11>>, <<184, 51, 51, 184, 217, 154, 11>>,
  <<176, 5, 16>>, <<176, 0, 17>>, <<176, 6, 18>>,                     \* reference points
  <<176, 0, 19>>, <<176, 0, 20>>, <<176, 0, 21>>, <<176, 0, 22>>, <<176, 1, 22>>,
  <<24>>, <<25>>, <<61>>, <<125>>, <<124>>, <<122>>,                  \* rounding
  <<176, 90, 118>>, <<176, 165, 118>>, <<176, 104, 119>>,
  <<176, 2, 23>>, <<176, 100, 26>>, <<176, 0, 29>>, <<176, 30, 30>>, <<177, 60, 30, 31, 30>>, <<77>>, <<78>>,
  <<176, 12, 94>>, <<176, 5, 95>>,                                    \* delta base and shift
  <<177, 1, 200, 68>>, <<177, 2, 77, 112>>, <<177, 0, 5, 66>>,        \* control values, storage
  <<176, 4, 47>>, <<177, 5, 1, 62>>, <<176, 4, 41>>, <<177, 6, 37, 56>>, <<176, 4, 128>>,
  <<176, 0, 22, 177, 1, 1, 62, 177, 2, 2, 63, 176, 1, 22>>,           \* twilight points
  <<48>>, <<178, 5, 35, 1, 93>>
>>

Touch(o) == <<176, 4, o>>
Probes ==
  << <<177, 4, 1, 62>>, <<177, 4, 1, 63>>, <<176, 4, 46>>, <<176, 4, 47>>,
     <<178, 6, 5, 4, 60>>, <<178, 6, 5, 4, 57>>, <<178, 6, 5, 4, 50>>, <<178, 6, 5, 4, 51>>,
     <<176, 1, 52>>, <<176, 0, 53>>, <<176, 1, 54>>, <<176, 0, 55>>, <<179, 6, 5, 4, 40, 56>>,
     <<177, 4, 50, 58>>, <<177, 4, 50, 59>>, <<180, 6, 0, 1, 2, 3, 15>>, <<177, 4, 5, 39>>,
     <<48>>, <<49>>, <<177, 4, 100, 72>>,
     <<177, 5, 4, 70, 56>>, <<177, 5, 4, 71, 56>>, <<178, 5, 4, 1, 73, 56>>, <<178, 5, 4, 1, 74, 56>>,
     <<177, 5, 37, 104, 56>>, <<177, 5, 37, 105, 56>>, <<177, 5, 37, 106, 56>>, <<177, 5, 37, 107, 56>>, <<177, 5, 37, 108, 56>>,
     <<176, 5, 184, 255, 200, 104, 56>>, <<177, 5, 45, 86, 176, 40, 100, 56>>, <<177, 5, 45, 87, 176, 40, 100, 56>>,
     <<177, 5, 1, 69, 56>>, <<177, 5, 2, 69, 56>>, <<177, 5, 0, 67, 56>>, <<176, 5, 75, 56>>, <<176, 5, 76, 56>>,
     <<176, 5, 13, 33, 56>>, <<176, 5, 13, 35, 33, 56>>, <<176, 5, 12, 33, 56>>, <<176, 5, 12, 35, 33, 56>>,
     <<180, 3, 4, 52, 5, 2, 93>>, <<180, 10, 4, 60, 5, 2, 93>>, <<180, 3, 1, 52, 1, 2, 115, 177, 5, 1, 69, 56>>,
     <<177, 6, 4, 129>>, <<176, 4, 41, 48, 49>> >>
  \o [k \in 1..32 |-> <<176, 4, 191 + k>>]
  \o [k \in 1..32 |-> <<177, 4, 2, 223 + k>>]
  \o [k \in 1..4 |-> <<177, 4, 1, 223 + (8 * k)>>]

Init == /\ i \in DOMAIN Settings /\ j \in DOMAIN Settings
        /\ (i = 1 \/ (((7 * i) + (11 * j)) % Every) = 0)
Next == UNCHANGED <<i, j>>
Emit == EmitBehaviour([set |-> Settings[i] \o Settings[j], probes |-> Probes])
=============================================================================
