------------------------------ MODULE P02Trace ------------------------------
(* P02, P03: answers to character, metric, kerning and name queries are     *)
(* those that the specification reads from the bytes of the file.           *)
EXTENDS FontQuery, TraceBase
Next == Consume(QueryJudge)
=============================================================================
