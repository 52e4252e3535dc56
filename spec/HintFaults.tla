----------------------------- MODULE HintFaults -----------------------------
(* Every instruction, on a stack with too few, enough, or more elements     *)
(* than it needs, of ordinary and of extreme values, in different           *)
(* circumstances; TLC enumerates them for the driver to build programs of.  *)
EXTENDS BehBase, FiniteSets
CONSTANTS Contexts, Ops, Deep
VARIABLES op, ctx, args
AllOps == 0..255

(* Elements an instruction takes, as far as the enumeration is concerned.   *)
Takes(o) == IF o = 15 THEN 5 ELSE IF o = 138 THEN 3 ELSE IF o \in {93, 113, 114, 115, 116, 117} THEN 3 ELSE 2

(* "n" is the number of points of the current zone. *)
Wide == {"0", "1", "-1", "n", "n-1", "64", "big", "-big", "max"}
Narrow == {"1", "-1", "n-1", "n"}
Values(k) == IF k <= 1 THEN Wide \cup {"32", "100", "7", "min"} ELSE IF k = 2 THEN Wide ELSE IF k = 3 THEN Narrow ELSE {"n-1", "n"}
Tuples(o) == UNION {[1..k -> Values(k)] : k \in 0..(IF Deep THEN Takes(o) ELSE IF Takes(o) > 2 THEN 3 ELSE 2)}

(* Where the program runs: glyph, font and control value programs, zones,   *)
(* vectors, loop counts, reference points out of range, a compound glyph,   *)
(* a rounding state.                                                        *)
Alone == {"fpgm", "prep"}          \* one program per font

(* "full" is a stack that has room for only so many elements more (a stack  *)
(* has 256).                                                                *)
Room == {<<k>> : k \in {"0", "1", "2", "3", "4", "7", "8", "9"}}

Init == /\ op \in Ops
        /\ ctx \in Contexts
        /\ args \in (IF ctx = "full" THEN {Room} ELSE IF ctx \in Alone THEN {{t} : t \in {u \in Tuples(op) : Len(u) < 2 /\ (Deep \/ \A i \in DOMAIN u : u[i] \in {"0", "-1", "n"})}} ELSE {Tuples(op)})
Next == UNCHANGED <<op, ctx, args>>
Emit == EmitBehaviour([op |-> op, ctx |-> ctx, args |-> args])
=============================================================================
