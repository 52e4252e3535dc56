------------------------------ MODULE CompGen -------------------------------
(* Every small graph of compound glyphs, up to three compounds deep: which  *)
(* components each has, whose metrics it uses, and whether it is hinted     *)
(* itself; TLC enumerates them for the driver to build fonts of.            *)
EXTENDS BehBase
CONSTANTS Deep
VARIABLES low, mid, tops

(* Glyphs: a and b are outlines, e is empty (but has metrics), and "low" or *)
(* "mid" is the compound below.  m: 1 if the component's metrics are used.  *)
Comps(below) == [t : {"a", "b", "e"} \cup below, m : {0, 1}]
UpTo2(S) == {<<x>> : x \in S} \cup (S \X S)
One(S) == {<<x>> : x \in S}
Glyphs(cs) == [c : cs, p : {0, 1}]

Init == /\ low \in IF Deep THEN Glyphs(UpTo2(Comps({}))) ELSE [c : One([t : {"a", "b"}, m : {0, 1}]) \cup One({[t |-> "e", m |-> 1]}), p : {0}]
        /\ mid \in Glyphs(UpTo2(IF Deep THEN Comps({"low"}) ELSE [t : {"b", "low"}, m : {0, 1}]))
        /\ tops = Glyphs(UpTo2(IF Deep THEN Comps({"mid", "low"}) ELSE [t : {"a", "mid"}, m : {0, 1}] \cup {[t |-> "e", m |-> 1]}))
Next == UNCHANGED <<low, mid, tops>>
Emit == EmitBehaviour([low |-> low, mid |-> mid, tops |-> tops])
=============================================================================
