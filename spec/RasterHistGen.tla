--------------------------- MODULE RasterHistGen ---------------------------
(* Random behaviours of RasterHist, to be replayed on the real code.        *)
EXTENDS RasterHist, BehBase
CONSTANT Len0
VARIABLES st, script

XY == {<<-40, 30>>, <<0, 0>>, <<64, 0>>, <<100, 70>>, <<30, 130>>, <<128, 128>>, <<200, 10>>, <<17, -50>>, <<64, 64>>}
Polys == {
  << [o |-> "S", p |-> <<10, 10>>], [o |-> "L", p |-> <<110, 20>>], [o |-> "L", p |-> <<50, 150>>], [o |-> "L", p |-> <<10, 10>>] >>,
  << [o |-> "S", p |-> <<0, 0>>], [o |-> "L", p |-> <<0, 128>>], [o |-> "L", p |-> <<128, 128>>], [o |-> "L", p |-> <<128, 0>>], [o |-> "L", p |-> <<0, 0>>] >>,
  << [o |-> "S", p |-> <<30, 90>>], [o |-> "Q", p |-> <<200, 0, 130, 140>>], [o |-> "C", p |-> <<100, 200, 0, 180, 30, 90>>] >>,
  << [o |-> "S", p |-> <<-70, 40>>], [o |-> "L", p |-> <<250, 33>>], [o |-> "L", p |-> <<250, 70>>], [o |-> "L", p |-> <<-70, 40>>] >>,
  << [o |-> "L", p |-> <<90, 60>>], [o |-> "L", p |-> <<20, 99>>], [o |-> "L", p |-> <<0, 0>>] >> }
Sizes == {<<2, 2>>, <<3, 1>>, <<4, 3>>, <<0, 5>>, <<30, 2>>, <<2, 70>>, <<-1, 4>>}

Calls ==
  {[o |-> "S", p |-> a] : a \in XY} \cup {[o |-> "L", p |-> a] : a \in XY}
  \cup {[o |-> "Q", p |-> <<a[1], a[2], 90, 33>>] : a \in XY}
  \cup {[o |-> "C", p |-> <<a[1], a[2], 120, 10, 40, 80>>] : a \in XY}
Rare(S) == {RandomElement(S)}

Init == st = Fresh(4, 3) /\ script = << >>
Do(c) == script' = Append(script, c) /\ st' = After(st, c)
Next ==
  \/ Len(script) = Len0 /\ Do([o |-> "raster", p |-> <<1>>])
  \/ /\ Len(script) < Len0
     /\ \/ \E c \in Rare(Calls) : Do(c)
        \/ \E c \in Rare(Polys) : Do([o |-> "P", ops |-> c])
        \/ \E c \in Rare(Polys) : Do([o |-> "P", ops |-> c])
        \/ \E k \in 1..3 : Do([o |-> "raster", p |-> <<k>>])
        \/ Do([o |-> "clear", p |-> << >>])
        \/ \E z \in Rare(Sizes) : Do([o |-> "bounds", p |-> z])
        \/ \E b \in {0, 1} : b # (IF st.nz THEN 1 ELSE 0) /\ Do([o |-> "nz", p |-> <<b>>])
        \/ \E d \in Rare({<<0, 0>>, <<5, -3>>, <<-100, 7>>}) : Do([o |-> "off", p |-> d])

Emit == Len(script) = Len0 + 1 => EmitBehaviour([calls |-> script])
=============================================================================
