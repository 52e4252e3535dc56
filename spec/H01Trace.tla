------------------------------ MODULE H01Trace ------------------------------
(* H01: hinting any bytecode ends with the outcome that the specification   *)
(* has (a panic or a hang is recorded as out.fail).  Either the file is an  *)
(* input, or the driver has built it from an instruction, its arguments and *)
(* the circumstances it is executed in.                                     *)
EXTENDS GlyphCheck, TraceBase
J(e) == IF "file" \in DOMAIN e.in
        THEN IF Verdict(e.in.file) = "accept" THEN JudgeFile(e.in.file, e.in.q, e.out.ok, e.out.ans) ELSE ""
        ELSE JudgeFile(e.out.file, e.out.q, e.out.res.ok, e.out.res.ans)
Next == Consume(J)
=============================================================================
