----------------------------- MODULE FontFaults -----------------------------
(* The faults that can befall a font file: a field of a table, of the       *)
(* directory or of a glyph changes its value (of the numbers of glyphs and  *)
(* of metrics, also so that the length of the metrics agrees), a table's    *)
(* length or offset changes, a table is missing, the file ends early; and   *)
(* several at once.                                                         *)
(* TLC enumerates single faults or walks at random through several.         *)
EXTENDS BehBase
CONSTANTS MaxFaults, Bases, Step
VARIABLES base, faults

TableNames == {"head", "hhea", "hmtx", "maxp", "cmap", "kern", "loca", "glyf", "name", "OS/2", "vmtx", "hdmx"}
Checked == {"head", "hhea", "hmtx", "maxp", "cmap", "kern"}
Values == {"zero", "one", "ones", "half", "half1", "+1", "-1", "+2", "-2", "x2"}

(* The interesting fields: <<table, offset, width>>. *)
Fields ==
  ({"sfnt"} \X {4 * k : k \in 0..10} \X {4}) \cup ({"sfnt"} \X {4, 44} \X {2})
  \cup {<<"head", o, 2>> : o \in {18, 36, 38, 40, 42, 50}}
  \cup {<<"hhea", o, 2>> : o \in {4, 6, 34}}
  \cup {<<"maxp", o, 2>> : o \in {4, 16, 18, 24}}
  \cup ({"hmtx", "loca", "vmtx", "hdmx"} \X {2 * k : k \in 0..9} \X {2})
  \cup ({"cmap"} \X {2 * k : k \in 0..13} \X {2}) \cup ({"cmap"} \X {8, 16} \X {4})
  \cup ({"sub"} \X {2 * k : k \in 0..39} \X {2}) \cup ({"sub"} \X {4 * k : k \in 1..9} \X {4})
  \cup ({"kern"} \X {2 * k : k \in 0..20} \X {2})
  \cup ({"name"} \X {2 * k : k \in 0..20} \X {2})
  \cup {<<"OS/2", o, 2>> : o \in {68, 70}}
  \cup ({"glyph"} \X (0..127) \X {1, 2})

Field == {[kind |-> "field", t |-> x[1], o |-> x[2], w |-> x[3], v |-> v] : x \in Fields, v \in Values}
Fit == {[kind |-> "fit", t |-> x[1], o |-> x[2], w |-> 2, v |-> v] : x \in {<<"hhea", 34>>, <<"maxp", 4>>}, v \in Values}
Extent == {[kind |-> k, t |-> t, o |-> 0, w |-> 0, v |-> v] :
             k \in {"len", "off"}, t \in TableNames, v \in Values \cup {"toend", "pastend"}}
Drop == {[kind |-> "drop", t |-> t, o |-> 0, w |-> 0, v |-> ""] : t \in TableNames}
Cut == {[kind |-> "cut", t |-> t, o |-> 0, w |-> 0, v |-> v] : t \in TableNames, v \in {"", "-1", "-2", "half", "zero", "one"}}
Faults == Field \cup Fit \cup Extent \cup Drop \cup Cut

Init == base \in Bases /\ faults = << >>
Next == /\ Len(faults) < MaxFaults
        /\ \E S \in {IF Step = "all" THEN Faults
                     ELSE LET r == RandomElement(1..10)
                          IN {RandomElement(IF r <= 5 THEN Field ELSE IF r = 6 THEN Fit ELSE IF r <= 8 THEN Extent ELSE IF r = 9 THEN Cut ELSE Drop)}} :
             \E x \in S : faults' = Append(faults, x)
        /\ base' = base
Emit == (faults # << >> /\ (Step = "all" \/ Len(faults) = MaxFaults)) => EmitBehaviour([base |-> base, faults |-> faults])
=============================================================================
