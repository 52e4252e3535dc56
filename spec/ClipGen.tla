------------------------------ MODULE ClipGen -------------------------------
(* Every way a clip rectangle can lie across the text and the destination,  *)
(* along each axis, with uniform and other sources, for the driver to draw. *)
EXTENDS BehBase
CONSTANTS Deep
VARIABLES clip, pos, src, kind

W == 10
H == 8
Xs == {<<lo, hi>> \in (-3..W) \X (-1..(W + 3)) : lo < hi}
Ys == {<<lo, hi>> \in (-3..H) \X (-1..(H + 3)) : lo < hi}
FewX == {<<-3, 2>>, <<2, 9>>, <<4, 5>>, <<7, 13>>}
FewY == {<<-3, 3>>, <<2, 6>>, <<4, 5>>, <<5, 11>>}
Clips == {<<x[1], -3, x[2], H + 3>> : x \in Xs} \cup {<<-3, y[1], W + 3, y[2]>> : y \in Ys}
         \cup {<<x[1], y[1], x[2], y[2]>> : x \in FewX, y \in FewY}
Init == /\ clip \in Clips
        /\ pos \in {<<70, 400>>, <<-150, 300>>} \cup (IF Deep THEN {<<330, 545>>, <<-40, 150>>} ELSE {})
        /\ src \in {<<0, 0, 0, 0>>, <<-1, -9, 30, 30>>} \cup (IF Deep THEN {<<0, 0, 5, 4>>, <<2, 1, 30, 30>>, <<-20, -20, 3, 30>>} ELSE {})
        /\ kind \in IF Deep THEN 0..5 ELSE {(clip[1] + clip[2] + clip[3] + clip[4] + 12) % 6}
Next == UNCHANGED <<clip, pos, src, kind>>
Emit == EmitBehaviour(
  [seed |-> 11, o |-> [nil |-> FALSE, size |-> 40, sf |-> 0, dpi |-> 72, df |-> 0, h |-> 0, e |-> 0, sx |-> 0, sy |-> 0],
   s |-> <<65, 66, 67>>, x |-> pos[1], y |-> pos[2],
   parent |-> <<-1, -1, W + 2, H + 1>>, dst |-> <<0, 0, W, H>>, clip |-> clip, wide |-> <<-1000, -1000, 1000, 1000>>,
   kind |-> kind, color |-> <<200, 100, 50, 160>>, order |-> <<0, 1, 2>>, old |-> <<0, 0, 1, 1>>, src |-> src])
=============================================================================
