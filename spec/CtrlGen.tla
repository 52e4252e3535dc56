------------------------------ MODULE CtrlGen -------------------------------
(* Every short program of pushes, conditions, jumps, calls and marks, with  *)
(* something to work on on the stack; TLC enumerates them for the driver to *)
(* make glyph programs (or a font program that defines functions) of.       *)
EXTENDS BehBase
CONSTANTS Long        \* the tokens of programs of length 4
VARIABLES pre, progs, where

Pushes == {"0", "1", "2", "3"}
Ops == {"IF", "ELSE", "EIF", "JMPR", "JROT", "JROF", "CALL", "LOOPCALL", "FDEF", "ENDF", "M", "POP"}
Tokens == Pushes \cup Ops
Few == {"1", "2", "IF", "ELSE", "EIF", "JMPR", "JROT", "CALL", "LOOPCALL", "M"}
All == Tokens \cup {"back"}
Two(S) == S \X S

\* "glyph": the programs are pre and then one of progs.
Init == \/ /\ where = "glyph"
           /\ pre \in {<<a>> : a \in All}
           /\ progs = {<< >>} \cup {<<a>> : a \in All} \cup Two(Tokens)
        \/ /\ where = "glyph"
           /\ pre \in Two(Long)
           /\ progs = Two(Long)
        \/ /\ where = "fpgm"
           /\ pre \in {<<a, b, c>> : a \in Tokens, b \in Tokens, c \in Tokens}
           /\ \E k \in 1..3 : pre[k] \in {"FDEF", "ENDF"}
           /\ progs = {<<"1", "CALL">>, <<"0", "CALL">>, <<"M">>}
Next == UNCHANGED <<pre, progs, where>>
Emit == EmitBehaviour([pre |-> pre, progs |-> progs, where |-> where])
=============================================================================
